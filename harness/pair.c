/* Pairings on toy parameters: P = i*G, Q = j*H for every i, j in Z_r.
   args: parameter set, mode, method (0 default, 1 "miller", ...) */
#include "tables.h"
static pairing_t pr; static element_t G, H, P, Q, e, w, t; static vp_tbl tg, th, tt;
static int r;
static const char *meth[] = { 0, "miller", "miller-affine", "shipsey-stange" };
/* x has order r (given that its order divides r) */
static int full(element_t x, element_t tmp, int mul) {
  mpz_t z; int j, ok = mul ? !element_is1(x) : !element_is0(x); mpz_init(z);
  for (j = 2; j < r && ok; j++) if (r % j == 0) { mpz_set_ui(z, j); element_pow_mpz(tmp, x, z); if (element_is1(tmp)) ok = 0; }
  mpz_clear(z); return ok;
}
static void setup(void) {
  int i;
  vp_fix_random();
  vp_assert(!pairing_init_set_str(pr, vp_toy[vp_arg(0)]), "parameters accepted");
  if (vp_arg(2)) pairing_option_set(pr, "method", meth[vp_arg(2)]);
  r = mpz_get_si(pr->r);
  element_init_G1(G, pr); element_init_G2(H, pr); element_init_G1(P, pr); element_init_G2(Q, pr);
  element_init_GT(e, pr); element_init_GT(w, pr); element_init_GT(t, pr);
  /* deterministic generators: G of order r, H such that e(G,H) has order r */
  for (i = 1; ; i++) { char c = i; element_from_hash(G, &c, 1); if (full(G, P, 0)) break; vp_assert(i < 140, "G1 has a generator"); }
  for (i = 77; ; i++) { char c = i; element_from_hash(H, &c, 1); element_pairing(e, G, H); if (full(e, t, 1)) break;
    vp_assert(i < 140, "pairing is not degenerate: some pair has a value of full order"); }
  element_set0(P); element_set0(Q); element_set1(t);
  for (i = 0; i < r; i++) {
    if (i) { tbl_put(&tg, i, P); tbl_put(&th, i, Q); }
    tbl_put(&tt, i, t);
    element_add(P, P, G); element_add(Q, Q, H); element_mul(t, t, e);
  }
  /* types D, F, G represent G2 by cosets, so only G and e(G,H) have order r as they stand */
  vp_assert(element_is0(P) && (pr->G1 != pr->G2 || element_is0(Q)), "generators have order r"); vp_assert(element_is1(t), "e(G,H)^r = 1");
}
static int netok(element_t A, element_t B) {
  element_t n, d; element_init_same_as(n, A); element_init_same_as(d, A); element_neg(n, A); element_double(d, A);
  int ok = element_is0(A) || element_is0(B) || ((element_cmp(A, B) != 0) & (element_cmp(n, B) != 0) & (element_cmp(d, B) != 0));
  element_clear(n); element_clear(d); return ok;
}
/* the two scalars as variables of their own, so that each expected value is
   an arithmetic term over them and its comparison with the computed pairing
   is a query to the solver */
static void split(long k, long *i, long *j) {
  if (!vp_is_sym()) { *i = k / r; *j = k % r; return; }
  *i = vp_sym("i", 0, r - 1); *j = vp_sym("j", 0, r - 1); vp_assume(k == *i * r + *j);
}
void vp_main(void) {
  setup();
  int mode = vp_arg(1);
  long k = vp_sym("@k", 0, (long) r * r - 1), i = k / r, j = k % r, x, y;
  tbl_getp(P, &tg, i); tbl_getp(Q, &th, j);
  /* elliptic nets divide by zero in type E when Q is P, -P or 2P: mode 6 covers that alone */
  int net = vp_arg(2) == 3 && vp_arg(0) >= 11 && vp_arg(0) <= 13;
  if (net && mode != 6) { vp_assume(netok(P, Q)); vp_assume(netok(P, H)); vp_assume(netok(G, Q)); }
  if (mode == 6) vp_assume(!netok(P, Q));
  if (mode == 0 || mode == 6) {               /* bilinear, on every pair including the identities */
    element_pairing(w, P, Q); pairing_apply(t, P, Q, pr); split(k, &x, &y);
    vp_assert(tbl_eq(w, &tt, x * y % r), "e(iG,jH) = e(G,H)^ij");
    vp_assert(tbl_eq(t, &tt, x * y % r), "pairing_apply agrees");
  } else if (mode == 1) {        /* preprocessed */
    pairing_pp_t pp;
    pairing_pp_init(pp, P, pr); pairing_pp_apply(w, Q, pp); pairing_pp_apply(t, H, pp); split(k, &x, &y);
    vp_assert(tbl_eq(w, &tt, x * y % r), "preprocessed pairing agrees");
    vp_assert(tbl_eq(t, &tt, x % r), "second use of the preprocessed value");
    pairing_pp_clear(pp);
  } else if (mode == 2) {        /* products of one, two and three pairings */
    element_t in1[3], in2[3]; int n;
    for (n = 0; n < 3; n++) { element_init_G1(in1[n], pr); element_init_G2(in2[n], pr); }
    element_set(in1[0], G); element_set(in2[0], Q); element_set(in1[1], P); element_set(in2[1], Q); element_set(in1[2], P); element_set(in2[2], H);
    vp_assume(i != 0 && j != 0);
    element_prod_pairing(e, in1, in2, 1); element_prod_pairing(t, in1, in2, 2); element_prod_pairing(w, in1, in2, 3);
    split(k, &x, &y);
    vp_assert(tbl_eq(e, &tt, y % r), "product of one pairing");
    vp_assert(tbl_eq(t, &tt, (x * y + y) % r), "product of two pairings");
    vp_assert(tbl_eq(w, &tt, (x * y + x + y) % r), "product of three pairings");
  } else if (mode == 3) {        /* products with identity entries */
    element_t in1[2], in2[2]; 
    element_init_G1(in1[0], pr); element_init_G1(in1[1], pr); element_init_G2(in2[0], pr); element_init_G2(in2[1], pr);
    element_set(in1[0], P); element_set(in2[0], Q); element_set(in1[1], G); element_set(in2[1], H);
    element_prod_pairing(t, in1, in2, 2);
    element_set(in1[1], P); element_set(in2[1], Q); element_set(in1[0], G); element_set(in2[0], H);
    element_prod_pairing(w, in1, in2, 2); split(k, &x, &y);
    vp_assert(tbl_eq(t, &tt, (x * y + 1) % r), "product with identity entries");
    vp_assert(tbl_eq(w, &tt, (x * y + 1) % r), "product with identity entries");
  } else if (mode == 4) {        /* co-Diffie-Hellman test: (G, iG, H, jH) */
    vp_assume(i != 0 && j != 0);
    int b = is_almost_coddh(G, P, H, Q, pr);
    split(k, &x, &y); vp_assert(!b == !(x == y || x + y == r), "is_almost_coddh accepts exactly i = +-j");
  } else if (mode == 5) {        /* G2 by cosets: adding a multiple of r changes nothing */
    element_t S; char c = 5; vp_assume(j != 0);
    element_init_G2(S, pr); element_from_hash(S, &c, 1); element_mul_mpz(S, S, pr->r); element_add(S, S, Q);
    vp_assume(!element_is0(S));
    vp_assert(!element_cmp(S, Q), "coset representatives compare equal");
    if (i) vp_assert(element_cmp(S, H) ? j != 1 : j == 1, "distinct cosets compare unequal");
    element_pairing(w, P, S); split(k, &x, &y); vp_assert(tbl_eq(w, &tt, x * y % r), "pairing does not depend on the representative");
  }
  vp_cover("end");
}
