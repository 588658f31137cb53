/* Harness interface.  In the symbolic build these are intrinsics of the
   executor; in the native replay build (vp_native.c) they read the solver's
   counterexample from a file. */
#ifndef VP_H
#define VP_H
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <gmp.h>
long vp_sym(const char *label, long lo, long hi);             /* symbolic integer in [lo,hi] */
void vp_sym_z(mpz_t z, const char *label, mpz_t lo, mpz_t hi); /* symbolic mpz in [lo,hi] (z initialised) */
void vp_sym_bytes(unsigned char *p, const char *label, int n);
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_assert_z(mpz_t a, mpz_t b, const char *msg);           /* a == b */
void vp_cover(const char *name);                               /* reachability witness */
long vp_fork(long x);                                          /* one path per value */
long vp_live(void);                                            /* live heap blocks + initialised mpz */
long vp_arg(int i);                                            /* concrete instance argument */
void vp_allow_exit(int on);                                    /* exit()/abort() ends the path quietly */
int vp_is_sym(void);
void vp_debug(const char *s, long x);
void vp_debug_z(const char *s, mpz_t x);
void vp_file(const char *name, const unsigned char *data, long n); /* a file with this content exists */
FILE *vp_memfile(void);
int vp_memfile_get(FILE *f, char *buf, long n);
void vp_main(void);
#endif
