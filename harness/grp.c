/* The groups of a pairing: A = i*G, B = j*G for every i, j in Z_r.
   args: parameter set, group (0 G1, 1 G2, 2 GT, 3 Zr), mode */
#include "tables.h"
static pairing_t pr; static element_t G, H, A, B, c, d, e; static vp_tbl T; static int r, g;
static field_ptr F;
static int full(element_t x, element_t tmp) {
  mpz_t z; int j, ok = !element_is0(x); mpz_init(z);
  for (j = 2; j < r && ok; j++) if (r % j == 0) { mpz_set_ui(z, j); element_mul_mpz(tmp, x, z); if (element_is0(tmp)) ok = 0; }
  mpz_clear(z); return ok;
}
static void get(element_t x, long i) { if (g == 3) element_set_si(x, i); else tbl_getp(x, &T, i); }
/* x is the i-th multiple */
static int is(element_t x, long i) {
  int ok;
  if (g == 1 && pr->G1 != pr->G2) { element_t w; element_init(w, F); get(w, i); ok = !element_cmp(x, w); ok &= !element_cmp(w, x); element_clear(w); }
  else if (g == 2) ok = tbl_eq(x, &T, i);
  else if (g == 3) { mpz_t z; mpz_init(z); element_to_mpz(z, x); ok = mpz_get_si(z) == i; mpz_clear(z); }
  else { int z = element_is0(x); if (z) ok = i == 0; else ok = (i != 0) & tbl_eq(x, &T, i); }
  return ok;
}
/* two passes over the same list: the first computes and keeps each result, the
   second, with the indices as variables of their own, states what it is */
static element_t R[24]; static int q, ph;
#define CK(v, i, s) do { if (!ph) { element_init(R[q], F); element_set(R[q], v); } else vp_assert(is(R[q], i), s); q++; } while (0)
#define DO(s) do { if (!ph) { s; } } while (0)
void vp_main(void) {
  int i, m = vp_arg(2); long k, x, y; mpz_t z; mpz_init(z); g = vp_arg(1);
  vp_fix_random(); vp_assert(!pairing_init_set_str(pr, vp_toy[vp_arg(0)]), "parameters accepted"); r = mpz_get_si(pr->r);
  F = g == 0 ? pr->G1 : g == 1 ? pr->G2 : g == 2 ? pr->GT : pr->Zr;
  vp_assert(!mpz_cmp(pr->Zr->order, pr->r), "exponents modulo r"); if (g != 1 || pr->G1 == pr->G2) vp_assert(!mpz_cmp(F->order, pr->r), "order of the group");
  element_init(G, F); element_init(A, F); element_init(B, F); element_init(c, F); element_init(d, F); element_init(e, F);
  if (g == 3) element_set1(G);
  else if (g == 2) { element_t P, Q; element_init_G1(P, pr); element_init_G2(Q, pr); for (i = 1; ; i++) { char ch = i; element_from_hash(P, &ch, 1); ch += 76; element_from_hash(Q, &ch, 1); element_pairing(G, P, Q); if (full(G, c)) break; vp_assert(i < 120, "GT has a generator"); } }
  else for (i = g ? 77 : 1; ; i++) { char ch = i; element_from_hash(G, &ch, 1); if (g && pr->G1 != pr->G2) { element_t P, t; element_init_G1(P, pr); element_init_GT(t, pr); ch = 1; element_from_hash(P, &ch, 1); if (element_is0(P)) { ch = 2; element_from_hash(P, &ch, 1); } element_pairing(t, P, G); if (!element_is1(t)) break; } else if (full(G, c)) break; vp_assert(i < 140, "the group has a generator"); }
  element_set0(A); for (i = 0; i < r && g != 3; i++) { if (i || g == 2) tbl_put(&T, i, A); element_add(A, A, G); }
  k = vp_sym("@k", 0, m < 2 ? (long) r * r - 1 : m == 2 ? (long) r * 41 - 1 : r - 1); x = m < 2 ? k / r : k % r; y = m < 2 ? k % r : k / r; get(A, x); get(B, m < 2 ? y : 1);
  for (ph = 0; ph < 2; ph++) { q = 0;
  if (ph && vp_is_sym() && !(g == 1 && pr->G1 != pr->G2)) { long lim = m < 2 ? r : m == 2 ? 41 : 1; long u = vp_sym("x", 0, r - 1), v = vp_sym("y", 0, lim - 1); if (m < 2) vp_assume(k == u * r + v); else vp_assume(k == v * r + u); x = u; y = v; }
  if (m == 0) {                       /* the operation and its inverse, in both notations, and overwriting operands */
    DO(element_add(c, A, B)); CK(c, (x + y) % r, "a + b"); if (g != 3) { DO(element_mul(c, A, B)); CK(c, (x + y) % r, "a b"); }
    DO(element_sub(d, A, B)); CK(d, (x - y + r) % r, "a - b"); if (g != 3) { DO(element_div(d, A, B)); CK(d, (x - y + r) % r, "a / b"); }
    DO(element_set(c, A)); DO(element_add(c, c, B)); CK(c, (x + y) % r, "a = a + b"); DO(element_set(c, B)); DO(element_add(c, A, c)); CK(c, (x + y) % r, "b = a + b"); DO(element_set(c, A)); DO(element_sub(c, c, B)); CK(c, (x - y + r) % r, "a = a - b"); DO(element_set(c, B)); DO(element_sub(c, A, c)); CK(c, (x - y + r) % r, "b = a - b");
    if (g != 3) { DO(element_set(c, B)); DO(element_div(c, A, c)); CK(c, (x - y + r) % r, "b = a / b"); DO(element_set(c, B)); DO(element_mul(c, A, c)); CK(c, (x + y) % r, "b = a b"); }
    CK(A, x, "operand kept"); CK(B, y, "operand kept"); { static int cm; DO(cm = !element_cmp(A, B)); if (ph) vp_assert(cm == (x == y), "comparison"); }
  } else if (m == 1) {                /* scalars from the exponent ring */
    static element_t n; DO(element_init_Zr(n, pr); element_set_si(n, y));
    if (g != 3) { DO(element_pow_zn(c, A, n)); CK(c, x * y % r, "a^n"); DO(element_set(d, A)); DO(element_pow_zn(d, d, n)); CK(d, x * y % r, "a = a^n"); } DO(element_mul_zn(c, A, n)); CK(c, x * y % r, "n a"); DO(element_set(d, A)); DO(element_mul_zn(d, d, n)); CK(d, x * y % r, "a = n a");
    DO(element_to_mpz(z, n)); DO(element_mul_mpz(c, A, z)); CK(c, x * y % r, "n a"); CK(A, x, "operand kept"); DO(vp_assert(mpz_get_si(z) == y, "scalar kept"));
  } else if (m == 2) {                /* machine integers of either sign */
    DO(element_mul_si(c, A, y - 20)); CK(c, ((x * (y - 20)) % r + r) % r, "n a, n of either sign"); DO(element_set(d, A)); DO(element_mul_si(d, d, y - 20)); CK(d, ((x * (y - 20)) % r + r) % r, "a = n a");
  } else if (m == 3) {                /* one operand */
    DO(element_neg(c, A)); CK(c, (r - x) % r, "-a"); DO(element_double(c, A)); CK(c, 2 * x % r, "2 a"); DO(element_set(d, A)); DO(element_neg(d, d)); CK(d, (r - x) % r, "a = -a"); DO(element_set(d, A)); DO(element_double(d, d)); CK(d, 2 * x % r, "a = 2 a"); DO(element_add(d, A, A)); CK(d, 2 * x % r, "a + a"); DO(element_sub(d, A, A)); CK(d, 0, "a - a");
    if (g != 3) { DO(element_invert(c, A)); CK(c, (r - x) % r, "1 / a"); DO(element_square(c, A)); CK(c, 2 * x % r, "a^2"); DO(element_set(d, A)); DO(element_invert(d, d)); CK(d, (r - x) % r, "a = 1 / a"); DO(element_set(d, A)); DO(element_square(d, d)); CK(d, 2 * x % r, "a = a^2"); DO(element_div(d, A, A)); CK(d, 0, "a / a"); DO(vp_assert(!element_is1(A) == (x != 0), "is 1")); DO(element_set1(c)); CK(c, 0, "1"); }
    DO(vp_assert(!element_is0(A) == (x != 0), "is 0")); DO(element_set0(c)); CK(c, 0, "0"); DO(element_set(c, A)); CK(c, x, "copy"); CK(A, x, "operand kept");
    if (g == 2) { char s[300]; int n; DO(n = element_snprint(s, 300, A); vp_assert(n > 0 && n < 300, "text"); vp_assert(element_set_str(c, s, 10) == n, "text read")); CK(c, x, "text read back");  }
  }
  }
  vp_cover("end");
}
