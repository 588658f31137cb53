#ifndef VP_COMMON_H
#define VP_COMMON_H
#include "vp.h"
#include "pbc.h"
#include "pbc_fp.h"
/* prime moduli used as bounds */
static const char *vp_primes[] = {
  /* 0 */ "3", "7", "13", "59", "251",
  /* 5 */ "65521", "4294967291", "2305843009213693951",          /* 2^16-15, 2^32-5, 2^61-1 */
  /* 8 */ "18446744073709551557",                                /* 2^64-59: one full limb */
  /* 9 */ "340282366920938463463374607431768211297",             /* 2^128-159: two full limbs */
  /*10 */ "1461501637330902918203684832716283019655932542983",   /* 2^160+7: three limbs, top one short */
  /*11 */ "6277101735386680763835789423207666416083908700390324961279", /* 2^192-2^64-1 */
  /*12 */ "8780710799663312522437781984754049815806883199414208211028653399266475630880222957078625179422662221423155858769582317459277713367317481324925129998224791", /* 512-bit, a.param */
  /*13 */ "115792089237316195423570985008687907853269984665640564039457584007913129639747", /* 2^256-189 */
  /*14 */ "36893488147419103363",                                 /* 2^65+131: two limbs, top one minimal */
  /*15 */ "5", "11", "17", "19", "23", "29", "31", "37",
  /*23 */ "19", "97", "193", "257",
};
#define NPRIMES (sizeof(vp_primes)/sizeof(*vp_primes))
static inline void vp_prime(mpz_t p, int i) { mpz_set_str(p, vp_primes[i], 10); }
/* implementation: 0 naive 1 montgomery 2 fast 3 faster 4 library default */
static inline void vp_fp(field_ptr f, mpz_t p, int impl) {
  if (impl == 0) field_init_naive_fp(f, p);
  if (impl == 1) field_init_mont_fp(f, p);
  if (impl == 2) field_init_fast_fp(f, p);
  if (impl == 3) field_init_faster_fp(f, p);
  if (impl == 4) field_init_fp(f, p);
}
/* x: zero, or any value in [1, p-1] */
static inline void vp_res(mpz_t x, const char *label, mpz_t p, int zero) {
  if (zero) mpz_set_ui(x, 0);
  else {
    mpz_t lo, hi; mpz_init(lo); mpz_init(hi);
    mpz_set_ui(lo, 1); mpz_sub_ui(hi, p, 1);
    vp_sym_z(x, label, lo, hi);
    mpz_clear(lo); mpz_clear(hi);
  }
}
/* any value in [lo, hi] given as machine integers */
static inline void vp_rng(mpz_t x, const char *label, long l, long h) {
  mpz_t lo, hi; mpz_init_set_si(lo, l); mpz_init_set_si(hi, h);
  vp_sym_z(x, label, lo, hi); mpz_clear(lo); mpz_clear(hi);
}
/* any value in [0, p-1] */
static inline void vp_any(mpz_t x, const char *label, mpz_t p) {
  mpz_t lo, hi; mpz_init(lo); mpz_init(hi); mpz_sub_ui(hi, p, 1);
  vp_sym_z(x, label, lo, hi); mpz_clear(lo); mpz_clear(hi);
}
/* deterministic stand-in for the random source (set-up only) */
static unsigned long vp_rs = 12345;
static void vp_rnd(mpz_t z, mpz_t limit, void *d) {
  int i, n = mpz_size(limit) * 2 + 1; (void) d;
  mpz_set_ui(z, 0);
  for (i = 0; i < n; i++) { vp_rs = vp_rs * 6364136223846793005UL + 1442695040888963407UL; mpz_mul_2exp(z, z, 32); mpz_add_ui(z, z, vp_rs >> 32); }
  mpz_mod(z, z, limit);
}
static inline void vp_fix_random(void) { pbc_random_set_function(vp_rnd, NULL); }
#endif
