/* towers of extension fields with flat coefficient vectors */
#ifndef VP_TOWER_H
#define VP_TOWER_H
#include "common.h"
#include "pbc_fieldquadratic.h"
#include "pbc_poly.h"
#define MAXC 12
typedef struct { int d; long c[6]; } lvl;   /* x^d = sum c[i] x^i (integers); d == 1: end; d == 0: sqrt(-1); d == 2 && c[1] == 99: quadratic by nqr c[0] */
/* polynomials need not be irreducible for the ring operations */
static const lvl tw[][3] = {
  { { 0 }, { 1 } },                                        /* 0 fi */
  { { 2, { 2, 99 } }, { 1 } },                             /* 1 fq, nqr 2 (replaced when 2 is a residue) */
  { { 3, { 3, -5, 7 } }, { 1 } },                          /* 2 polymod 3 */
  { { 6, { 3, 0, -5, 2, 0, 7 } }, { 1 } },                 /* 3 polymod 6 */
  { { 4, { 3, 1, 0, 2 } }, { 1 } },                        /* 4 */
  { { 5, { 2, 3, -4, 5, 6 } }, { 1 } },                    /* 5 */
  { { 2, { 3, 1 } }, { 1 } },                              /* 6 polymod 2 */
  { { 3, { 3, -5, 7 } }, { 2, { 2, 99 } }, { 1 } },        /* 7 type D: quadratic over cubic */
  { { 2, { 2, 99 } }, { 3, { 2, 1, -1 } }, { 1 } },        /* 8 cubic over quadratic */
  { { 2, { 2, 99 } }, { 6, { 2, 0, 0, 1, 0, 0 } }, { 1 } },/* 9 type F: sextic over quadratic */
  { { 5, { 2, 3, -4, 5, 6 } }, { 2, { 2, 99 } }, { 1 } },  /* 10 type G: quadratic over quintic */
  /* irreducible modulo 3 (the first three also modulo 5 or 7), for inversion */
  { { 3, { 1, 1, 1 } }, { 1 } },                           /* 11 */
  { { 2, { 1, 1 } }, { 1 } },                              /* 12 */
  { { 5, { 1, 0, 0, 1, 1 } }, { 1 } },                     /* 13 */
  { { 4, { 1, 1, 1, 2 } }, { 1 } },                        /* 14 */
  { { 6, { 1, 0, 0, 1, 0, 1 } }, { 1 } },                  /* 15 */
  { { 3, { 1, 1, 1 } }, { 2, { 2, 99 } }, { 1 } },         /* 16 */
  { { 2, { 2, 99 } }, { 3, { 1, 1, 1 } }, { 1 } },         /* 17 */
};
static field_t L[4]; static lvl lv[3]; static int nl, nc[4]; static mpz_t p, T1, T2;
static mpz_t A[MAXC], B[MAXC], R[MAXC], S[MAXC], t1[MAXC * 2], sc;
static void build(int which, int impl) {
  int i, j; mpz_init(T1); mpz_init(T2); mpz_init(sc);
  vp_fix_random(); vp_fp(L[0], p, impl); nc[0] = 1;
  for (nl = 0; (lv[nl] = tw[which][nl]).d != 1; nl++) {
    field_ptr b = L[nl];
    if (lv[nl].d == 0) { field_init_fi(L[nl + 1], b); lv[nl].d = 2; lv[nl].c[0] = -1; lv[nl].c[1] = 0; }
    else if (lv[nl].c[1] == 99) { element_t q; lv[nl].c[1] = 0;
      element_init(q, b); 
      if (nl == 0) { for (;; lv[nl].c[0]++) { mpz_set_si(T1, lv[nl].c[0]); if (mpz_legendre(T1, p) == -1) break; } }
      element_set_si(q, lv[nl].c[0]); field_set_nqr(b, q); element_clear(q); field_init_quadratic(L[nl + 1], b); }
    else { field_ptr fx = malloc(sizeof(field_t)); element_t f, q; int d = lv[nl].d; field_init_poly(fx, b); element_init(f, fx); element_init(q, b);
      for (i = 0; i < d; i++) { element_set_si(q, -lv[nl].c[i]); poly_set_coeff(f, q, i); }
      poly_set_coeff1(f, d); field_init_polymod(L[nl + 1], f); element_clear(f); element_clear(q); }
    nc[nl + 1] = nc[nl] * lv[nl].d;
  }
  for (i = 0; i < MAXC; i++) { mpz_init(A[i]); mpz_init(B[i]); mpz_init(R[i]); mpz_init(S[i]); mpz_init(t1[i]); mpz_init(t1[i + MAXC]); } (void) j;
}
static element_ptr leaf(element_ptr e, int l, int i) {   /* i-th flat coefficient */
  while (l > 0) { int k = nc[l - 1]; e = element_item(e, i / k); i %= k; l--; }
  return e;
}
static void put(element_t e, mpz_t *v) { int i; for (i = 0; i < nc[nl]; i++) element_set_mpz(leaf(e, nl, i), v[i]); }
static void same(element_t e, mpz_t *v, const char *m) {
  int i; for (i = 0; i < nc[nl]; i++) { element_to_mpz(T1, leaf(e, nl, i)); mpz_mod(T2, v[i], p); vp_assert_z(T1, T2, m); }
}
static void symv(mpz_t *v, const char *nm) { int i; char b[16]; for (i = 0; i < nc[nl]; i++) { sprintf(b, "%s%d", nm, i); vp_any(v[i], b, p); } }
#endif
