/* Byte encodings.  args: kind, ... */
#include "tower.h"
#include "ec.h"
#include "tables.h"
static unsigned char *exact(int n) { return malloc(n); }
static void be(mpz_t z, const unsigned char *b, int n) { int i; mpz_set_ui(z, 0); for (i = 0; i < n; i++) { mpz_mul_ui(z, z, 256); mpz_add_ui(z, z, b[i]); } }
/* x: any residue of j bytes */
static void oflen(mpz_t x, const char *nm, int j) {
  mpz_t lo, hi, t; char b[24]; mpz_init(lo); mpz_init(hi); mpz_init(t);
  mpz_ui_pow_ui(hi, 256, j); mpz_sub_ui(hi, hi, 1); mpz_sub_ui(t, p, 1); if (mpz_cmp(hi, t) > 0) mpz_set(hi, t);
  if (j) { mpz_ui_pow_ui(lo, 256, j - 1); sprintf(b, "%s%d", nm, j); vp_sym_z(x, b, lo, hi); } else mpz_set_ui(x, 0);
}
static void tobytes(unsigned char *b, mpz_t x, int n) { int i; mpz_t q, r; mpz_init(q); mpz_init(r); mpz_set(q, x); for (i = n - 1; i >= 0; i--) { mpz_fdiv_r_2exp(r, q, 8); b[i] = mpz_get_ui(r); mpz_fdiv_q_2exp(q, q, 8); } }
static void fp(void) {          /* prime, implementation, mode */
  field_t F; element_t e, f; mpz_t x, z, lo, hi; int n, i; unsigned char *b, *c;
  mpz_init(p); mpz_init(x); mpz_init(z); mpz_init(lo); mpz_init(hi); vp_prime(p, vp_arg(1)); vp_fp(F, p, vp_arg(2)); element_init(e, F); element_init(f, F);
  n = element_length_in_bytes(e); vp_assert(n == (int) (mpz_sizeinbase(p, 2) + 7) / 8, "length"); b = exact(n); c = exact(n);
  if (vp_arg(3) == 0) {
   int j; for (j = 0; j <= n; j++) {
    oflen(x, "x", j);
    element_set_si(f, 2); element_set_mpz(e, x);
    vp_assert(element_to_bytes(b, e) == n, "bytes written"); be(z, b, n); vp_assert_z(z, x, "big-endian value");
    vp_assert(element_from_bytes(f, b) == n, "bytes read"); element_to_mpz(z, f); vp_assert_z(z, x, "value read back"); vp_assert(!element_cmp(e, f) && !element_cmp(f, e), "equal after round trip");
    element_to_bytes(c, f); for (i = 0; i < n; i++) vp_assert(b[i] == c[i], "same encoding");
   }
  } else {                      /* any n bytes: 1 less than p, 2 multiple of p, 3 p < v < 2p, 4 any value */
    mpz_ui_pow_ui(hi, 256, n); mpz_sub_ui(hi, hi, 1); i = vp_arg(3);
    if (i == 1) { mpz_set_ui(lo, 1); mpz_sub_ui(hi, p, 1); vp_sym_z(x, "v", lo, hi); }
    if (i == 2) { mpz_fdiv_q(hi, hi, p); vp_sym_z(x, "k", lo, hi); mpz_mul(x, x, p); }
    if (i == 3) { mpz_add_ui(lo, p, 1); mpz_mul_ui(z, p, 2); mpz_sub_ui(z, z, 1); if (mpz_cmp(z, hi) < 0) mpz_set(hi, z); vp_sym_z(x, "v", lo, hi); }
    if (i == 4) vp_sym_z(x, "v", lo, hi);
    tobytes(b, x, n); element_set_si(e, 1);
    vp_assert(element_from_bytes(e, b) == n, "bytes read"); mpz_mod(x, x, p); element_to_mpz(z, e); vp_assert_z(z, x, "value modulo p");
    element_set_mpz(f, x); vp_assert(!element_cmp(e, f) && !element_cmp(f, e), "canonical"); vp_assert(!element_is0(e) == (mpz_sgn(x) != 0), "zero test");
    if (i == 2) { element_to_bytes(c, e); be(z, c, n); vp_assert(mpz_sgn(z) == 0, "encoding of zero"); }
  }
}
static void ext(void) {         /* tower, prime, implementation */
  element_t e, f; int n, m, i, k; unsigned char *b; mpz_t z; mpz_init(z);
  mpz_init(p); vp_prime(p, vp_arg(2)); build(vp_arg(1), vp_arg(3)); element_init(e, L[nl]); element_init(f, L[nl]); element_set_si(f, 1);
  for (i = 0; i < nc[nl]; i++) { char nm[8]; mpz_t lo, hi; mpz_init(lo); mpz_init(hi); mpz_fdiv_q_2exp(lo, p, vp_arg(4) ? 1 : 9); mpz_sub_ui(hi, p, 1); if (!vp_arg(4)) mpz_fdiv_q_2exp(hi, hi, 1 + 8 * (i & 1)); if (mpz_sizeinbase(lo, 256) != mpz_sizeinbase(hi, 256)) mpz_ui_pow_ui(lo, 256, mpz_sizeinbase(hi, 256) - 1); sprintf(nm, "a%d", i); vp_sym_z(A[i], nm, lo, hi); } put(e, A); n = element_length_in_bytes(e); m = (mpz_sizeinbase(p, 2) + 7) / 8; vp_assert(n == m * nc[nl], "length");
  b = exact(n); vp_assert(element_to_bytes(b, e) == n, "bytes written"); vp_assert(element_from_bytes(f, b) == n, "bytes read"); same(f, A, "value read back");
  for (i = 0; i < nc[nl]; i++) { be(z, b + i * m, m); vp_assert_z(z, A[i], "coefficients in order"); } (void) k;
  vp_assert(!element_cmp(e, f), "equal after round trip");
}
static void poly(void) {        /* degree bound, prime, implementation */
  field_t F, X; element_t e, f, q; int d = vp_arg(1), i, n; unsigned char *b; mpz_t z; char nm[8]; mpz_init(z);
  mpz_init(p); vp_prime(p, vp_arg(2)); vp_fp(F, p, vp_arg(3)); field_init_poly(X, F); element_init(e, X); element_init(f, X); element_init(q, F); 
  element_set_si(f, 1);
  for (i = d - 1; i >= 0; i--) { sprintf(nm, "@a%d", i); element_set_si(q, vp_sym(nm, 0, mpz_get_ui(p) - 1)); if (!element_is0(q) || poly_degree(e) > i) poly_set_coeff(e, q, i); }
  n = element_length_in_bytes(e); b = exact(n); vp_assert(element_to_bytes(b, e) == n, "bytes written"); vp_assert(element_from_bytes(f, b) == n, "bytes read"); vp_assert(!element_cmp(e, f), "equal after round trip"); vp_assert(poly_degree(f) == poly_degree(e), "same degree");
}
static int oncurve(long x, long y) { return (y * y - x * x * x - E.a * x - E.b) % E.p == 0; }
static void curve(void) {       /* curve, implementation, mode */
  element_t e, f; int n, m, w; unsigned char *b; long k, x, y, i;
  ec_setup(vp_arg(1), vp_arg(2)); element_init(e, ecC); element_init(f, ecC); ec_set(f, 1); w = ecF->fixed_length_in_bytes;
  n = element_length_in_bytes(e); vp_assert(n == 2 * w, "length");
  if (vp_arg(3) == 0) {         /* full */
    k = vp_sym("@k", 0, ecn - 1); ec_set(e, k); b = exact(n);
    vp_assert(element_to_bytes(b, e) == n, "bytes written"); vp_assert(element_from_bytes(f, b) == n, "bytes read"); vp_assert(!element_cmp(e, f) && !element_cmp(f, e), "equal after round trip"); vp_assert(ec_is(f, k), "point read back");
    ec_set(e, k); element_double(e, e); element_to_bytes(b, e); element_from_bytes(f, b); vp_assert(!element_cmp(e, f), "doubled point equal after round trip");
    ec_set(e, k); element_sub(e, e, e); element_to_bytes(b, e); element_from_bytes(f, b); vp_assert(element_is0(f), "computed identity read back");
  } else if (vp_arg(3) == 1) {  /* any coordinate bytes: on the curve, or the identity */
    b = exact(n); k = vp_sym("@k", 0, 1023); x = k / 32; y = k % 32; for (i = 0; i < n; i++) b[i] = 0;
    b[w - 1] = x; b[n - 1] = y; vp_assert(element_from_bytes(e, b) == n, "bytes read");
    if (oncurve(x, y)) { ec_set(f, ec_find(x % E.p, y % E.p)); vp_assert(!element_is0(e) && !element_cmp(e, f), "point with these coordinates"); } else vp_assert(element_is0(e), "not on the curve: identity");
  } else if (vp_arg(3) == 2) {  /* compressed */
    k = vp_sym("@k", 1, ecn - 1); ec_set(e, k); m = element_length_in_bytes_compressed(e); vp_assert(m == w + 1, "length"); b = exact(m);
    vp_assert(element_to_bytes_compressed(b, e) == m, "bytes written"); vp_assert(element_from_bytes_compressed(f, b) == m, "bytes read"); vp_assert(!element_cmp(e, f) && ec_is(f, k), "equal after round trip");
  } else if (vp_arg(3) == 3) {  /* x-only: P or -P */
    k = vp_sym("@k", 1, ecn - 1); ec_set(e, k); m = element_length_in_bytes_x_only(e); vp_assert(m == w, "length"); b = exact(m);
    vp_assert(element_to_bytes_x_only(b, e) == m, "bytes written"); vp_assert(element_from_bytes_x_only(f, b) == m, "bytes read"); vp_assert(ec_is(f, k) || ec_is(f, ecneg[k]), "point or its negative");
  } else {                      /* any x bytes: a point with this x, or the identity when there is none */
    int ok = 0; b = exact(w + 1); k = vp_sym("@k", 0, 63); x = k / 2; for (i = 0; i < w; i++) b[i] = 0;
    b[w - 1] = x; b[w] = k & 1; 
    if (vp_arg(3) == 4) vp_assert(element_from_bytes_compressed(e, b) == w + 1, "bytes read"); else vp_assert(element_from_bytes_x_only(e, b) == w, "bytes read");
    for (y = 0; y < E.p; y++) if (oncurve(x, y)) { ok = 1; }
    if (!ok) vp_assert(element_is0(e), "no point with this x: identity"); else { unsigned char *c = exact(n); element_to_bytes(c, e); vp_assert(!element_is0(e) && c[w - 1] == x % E.p && oncurve(x, c[n - 1]), "point with this x"); }
  }
}
static pairing_t pr;
static void grp(element_t e, field_ptr G, int len, const char *what) {
  element_t f; unsigned char *b; element_init(f, G); int n = element_length_in_bytes(e); vp_assert(n == len, what); b = exact(n);
  vp_assert(element_to_bytes(b, e) == n, "bytes written"); vp_assert(element_from_bytes(f, b) == n, "bytes read"); vp_assert(!element_cmp(e, f) && !element_cmp(f, e), "equal after round trip"); element_clear(f); free(b);
}
static void pgroups(void) {     /* toy parameters */
  element_t P, Q, g, z, s; long k; int i; vp_fix_random(); vp_assert(!pairing_init_set_str(pr, vp_toy[vp_arg(1)]), "parameters accepted");
  element_init_G1(P, pr); element_init_G2(Q, pr); element_init_GT(g, pr); element_init_Zr(z, pr); element_init_Zr(s, pr);
  for (i = 1; ; i++) { char ch = i; element_from_hash(P, &ch, 1); ch += 40; element_from_hash(Q, &ch, 1); element_pairing(g, P, Q); if (!element_is1(g)) break; }
  k = vp_sym("@k", 0, mpz_get_ui(pr->r) - 1); element_set_si(z, k); element_pow_zn(P, P, z); element_pow_zn(Q, Q, z); element_pow_zn(g, g, z);
  if (!vp_arg(2)) { grp(P, pr->G1, pairing_length_in_bytes_G1(pr), "G1 length"); grp(Q, pr->G2, pairing_length_in_bytes_G2(pr), "G2 length"); grp(g, pr->GT, pairing_length_in_bytes_GT(pr), "GT length"); grp(z, pr->Zr, pairing_length_in_bytes_Zr(pr), "Zr length"); }
  if (vp_arg(2) && !element_is0(P) && !element_is0(Q)) { unsigned char *b; int m = pairing_length_in_bytes_compressed_G1(pr); element_t f; element_init_G1(f, pr); b = exact(m); vp_assert(element_to_bytes_compressed(b, P) == m, "compressed G1 length"); element_from_bytes_compressed(f, b); vp_assert(!element_cmp(P, f), "compressed G1");
    m = pairing_length_in_bytes_x_only_G1(pr); b = exact(m); vp_assert(element_to_bytes_x_only(b, P) == m, "x-only G1 length"); element_from_bytes_x_only(f, b); element_neg(s, s); vp_assert(!element_cmp(P, f) || (element_neg(f, f), !element_cmp(P, f)), "x-only G1");
    element_init_G2(f, pr); m = pairing_length_in_bytes_compressed_G2(pr); b = exact(m); vp_assert(element_to_bytes_compressed(b, Q) == m, "compressed G2 length"); element_from_bytes_compressed(f, b); vp_assert(!element_cmp(Q, f), "compressed G2");
    m = pairing_length_in_bytes_x_only_G2(pr); b = exact(m); vp_assert(element_to_bytes_x_only(b, Q) == m, "x-only G2 length"); element_from_bytes_x_only(f, b); vp_assert(!element_cmp(Q, f) || (element_neg(f, f), !element_cmp(Q, f)), "x-only G2"); }
}
void vp_main(void) {
  int k = vp_arg(0); if (k == 0) fp(); if (k == 1) ext(); if (k == 2) curve(); if (k == 3) pgroups(); if (k == 4) poly();
  vp_cover("end");
}
