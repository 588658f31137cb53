/* Curve construction and parameter generation.  args: mode, ... */
#include "ec.h"
#include "tables.h"
#include "pbc_mnt.h"
#include "pbc_curve.h"
#include "pbc_fieldquadratic.h"
static mpz_t q, n, z, y, w, t;
/* the choices of rand(): the first three arbitrary, then a fixed sequence */
static int rk = -1; static long rv[3]; static unsigned long rs = 99;
int rand(void) { if (rk >= 0 && rk < 3) return rv[rk++]; rs = rs * 6364136223846793005UL + 1442695040888963407UL; return (int) (rs >> 33) & 0x7fffffff; }
static int prime(mpz_t v) { return mpz_probab_prime_p(v, 20) != 0; }
static char txt[2048];
static void dump(pbc_param_t p) { FILE *f = vp_memfile(); int k; pbc_param_out_str(f, p); k = vp_memfile_get(f, txt, 2047); txt[k] = 0; }
/* value of a key in the printed parameters */
static void key(mpz_t v, const char *k) {
  char *s = txt, b[400]; int l = strlen(k), i;
  for (;;) { if (!strncmp(s, k, l) && s[l] == ' ') break; while (*s && *s != '\n') s++; vp_assert(*s, "key printed"); s++; }
  s += l + 1; for (i = 0; s[i] && s[i] != '\n' && i < 399; i++) b[i] = s[i]; b[i] = 0; vp_assert(!mpz_set_str(v, b, 10), "number printed");
}
static int D; static long lim; static int found;
static int cb(pbc_cm_t cm, void *d) {
  vp_assert(d == (void *) txt, "data handed on"); found++; vp_assert(cm->D == D && cm->k == vp_arg(1), "discriminant and embedding degree");
  vp_assert(prime(cm->q) && prime(cm->r), "q and r prime"); mpz_mul(z, cm->h, cm->r); vp_assert_z(z, cm->n, "h r = n");
  mpz_add_ui(t, cm->q, 1); mpz_sub(t, t, cm->n); mpz_mul(z, t, t); mpz_mul_ui(y, cm->q, 4); mpz_sub(y, y, z); vp_assert(mpz_sgn(y) > 0 && mpz_divisible_ui_p(y, D), "4q - t^2 = D v^2"); mpz_divexact_ui(y, y, D); vp_assert(mpz_perfect_square_p(y), "4q - t^2 = D v^2");
  mpz_set(w, cm->q); mpz_pow_ui(z, w, cm->k == 6 ? 2 : 4); mpz_sub(z, z, w); if (cm->k == 10) { mpz_pow_ui(y, w, 3); mpz_sub(z, z, y); mpz_pow_ui(y, w, 2); mpz_add(z, z, y); } mpz_add_ui(z, z, 1); vp_assert(mpz_divisible_p(z, cm->r), "embedding degree");
  vp_assert((long) mpz_sizeinbase(cm->r, 2) <= lim, "order within the limit");
  return found == vp_arg(5) ? 7 : 0;
}
static void live(int ord) {         /* the generated parameters give a pairing */
  pairing_t pr; element_t P, Q, R, e, f; int i; char c[4] = "xyz"; (void) ord;
  vp_assert(!pairing_init_set_str(pr, txt), "generated parameters are accepted"); element_init_G1(P, pr); element_init_G1(R, pr); element_init_G2(Q, pr); element_init_GT(e, pr); element_init_GT(f, pr);
  for (i = 1; ; i++) { c[0] = i; element_from_hash(P, c, 3); element_mul_mpz(R, P, pr->r); vp_assert(element_is0(R), "order r"); c[1] = i; element_from_hash(Q, c, 3); element_pairing(e, P, Q); if (!element_is1(e)) break; vp_assert(i < 40, "pairing not degenerate"); }
  element_pow_mpz(f, e, pr->r); vp_assert(element_is1(f), "value of order r"); element_double(R, P); element_pairing(f, R, Q); element_square(e, e); vp_assert(!element_cmp(e, f), "linear");
  pairing_clear(pr);
}
void vp_main(void) {
  int m = vp_arg(0); mpz_init(q); mpz_init(n); mpz_init(z); mpz_init(y); mpz_init(w); mpz_init(t); vp_fix_random();
  if (m == 0) {                 /* prime, implementation: curves with a given j-invariant */
    field_t F, C; element_t j, P; long jv, av, bv; int p = vp_arg(1); mpz_set_si(q, p); vp_fp(F, q, vp_arg(2)); mpz_set_ui(n, 7);
    jv = vp_sym("@j", 1, p - 1); vp_assume(jv != 1728 % p); element_init(j, F); element_set_si(j, jv); field_init_curve_j(C, j, n, NULL); element_init(P, C);
    element_to_mpz(z, curve_a_coeff(P)); av = mpz_get_si(z); element_to_mpz(z, curve_b_coeff(P)); bv = mpz_get_si(z); 
    vp_assert((4 * av * av * av + 27 * bv * bv) % p != 0, "not singular"); vp_assert(jv * (4 * av * av * av + 27 * bv * bv) % p == 6912 % p * av * av * av % p, "j-invariant"); element_to_mpz(z, j); vp_assert(mpz_get_si(z) == jv, "operand kept");
    element_random(P); if (!element_is0(P)) { long xv, yv; element_to_mpz(z, curve_x_coord(P)); xv = mpz_get_si(z); element_to_mpz(z, curve_y_coord(P)); yv = mpz_get_si(z); vp_assert((yv * yv - xv * xv * xv - av * xv - bv) % p == 0, "random point on the curve"); }
  } else if (m == 1) {          /* prime, implementation: a = 0, and twists */
    field_t F, C; element_t a, b, P; long k, av, bv, a2, b2, x, c1 = 1, c2 = 1; int p = vp_arg(1), chi[64]; mpz_set_si(q, p); vp_fp(F, q, vp_arg(2)); mpz_set_ui(n, 7);
    for (x = 0; x < p; x++) chi[x] = x ? -1 : 0; for (x = 1; x < p; x++) chi[x * x % p] = 1;
    k = vp_sym("@k", 0, vp_arg(3) ? p - 1 : p * p - 1); av = vp_arg(3) ? 0 : k / p; bv = k % p; vp_assume((4 * av * av * av + 27 * bv * bv) % p != 0);
    element_init(a, F); element_init(b, F); element_set_si(a, av); element_set_si(b, bv); if (vp_arg(3)) field_init_curve_b(C, b, n, NULL); else field_init_curve_ab(C, a, b, n, NULL);
    element_to_mpz(z, curve_field_a_coeff(C)); vp_assert(mpz_get_si(z) == av, "coefficient a"); element_to_mpz(z, curve_field_b_coeff(C)); vp_assert(mpz_get_si(z) == bv, "coefficient b");
    field_reinit_curve_twist(C); element_to_mpz(z, curve_field_a_coeff(C)); a2 = mpz_get_si(z); element_to_mpz(z, curve_field_b_coeff(C)); b2 = mpz_get_si(z);
    for (x = 0; x < p; x++) { c1 += 1 + chi[(x * x * x + av * x + bv) % p]; c2 += 1 + chi[(x * x * x + a2 * x + b2) % p]; }
    vp_assert(c1 + c2 == 2 * p + 2, "the twist has the other number of points"); vp_assert((a2 * a2 % p * a2 * bv % p * bv - av * av % p * av * b2 % p * b2) % p == 0, "same j-invariant");
    element_init(P, C); element_random(P); if (!element_is0(P)) { long yv; element_to_mpz(z, curve_x_coord(P)); x = mpz_get_si(z); element_to_mpz(z, curve_y_coord(P)); yv = mpz_get_si(z); vp_assert((yv * yv - x * x * x - a2 * x - b2) % p == 0, "random point on the twist"); }
  } else if (m == 2) {          /* bits, degree: order over an extension */
    mpz_t lo, hi; int k = vp_arg(2); mpz_init(lo); mpz_init(hi); mpz_set_ui(lo, 2); mpz_setbit(hi, vp_arg(1)); vp_sym_z(q, "q", lo, hi); mpz_setbit(hi, vp_arg(1) / 2 + 1); mpz_set_ui(hi, 0); mpz_setbit(hi, vp_arg(1) / 2 + 1); mpz_neg(lo, hi); vp_sym_z(t, "t", lo, hi);
    pbc_mpz_trace_n(z, q, t, k);
    { mpz_t s0, s1; int i; mpz_init_set_ui(s0, 2); mpz_init(s1); mpz_set(s1, t); for (i = 2; i <= k; i++) { mpz_mul(y, t, s1); mpz_mul(w, q, s0); mpz_sub(y, y, w); mpz_set(s0, s1); mpz_set(s1, y); } mpz_set(y, s1); }   /* power sums of the Frobenius eigenvalues */
    vp_assert_z(z, y, "trace over the extension"); pbc_mpz_curve_order_extn(n, q, t, k); mpz_pow_ui(w, q, k); mpz_add_ui(w, w, 1); mpz_sub(w, w, y); vp_assert_z(n, w, "order over the extension");
  } else if (m == 3) {          /* k, first D, last D, bits, stop after */
    int r, k = vp_arg(1); D = vp_fork(vp_sym("@D", vp_arg(2), vp_arg(3))); lim = vp_arg(4); 
    r = (k == 6 ? pbc_cm_search_d : pbc_cm_search_g)(cb, txt, D, lim); vp_assert(r == (found && found == vp_arg(5) ? 7 : 0), "result of the callback"); 
  } else if (m == 4) {          /* first order, last order: type A1 */
    pbc_param_t p; long o = vp_sym("@n", vp_arg(1), vp_arg(2)); vp_assume(o % 2 && o % 9 && o % 25 && o % 49); mpz_set_si(n, o); if (vp_arg(3)) { mpz_mul_2exp(n, n, 90); mpz_add_ui(n, n, 15); } pbc_param_init_a1_gen(p, n); 
    if (vp_arg(4)) o = vp_fork(o); dump(p); key(z, "n"); vp_assert_z(z, n, "order as requested"); key(q, "p"); key(w, "l"); vp_assert(prime(q), "p prime"); mpz_mul(y, w, n); mpz_sub_ui(y, y, 1); vp_assert_z(y, q, "p + 1 = l n"); vp_assert(mpz_divisible_ui_p(w, 4), "supersingular");
    if (vp_arg(4)) live(1);
  } else if (m == 5 || m == 6) { /* r bits, q bits: types A and E */
    pbc_param_t p; long c = vp_sym("@c", 0, 4 * vp_arg(1) - 1); int i; rv[0] = c % 2; rv[1] = c / 4; rv[2] = c / 2 % 2; rk = 0; c = vp_fork(c); if (m == 5) pbc_param_init_a_gen(p, vp_arg(1), vp_arg(2)); else pbc_param_init_e_gen(p, vp_arg(1), vp_arg(2));
    rk = -1; dump(p); key(q, "q"); key(n, "r"); vp_assert(prime(q) && prime(n), "q and r prime"); vp_assert((int) mpz_sizeinbase(n, 2) == vp_arg(1), "order of the requested length");
    key(w, "exp2"); mpz_set_ui(z, 0); mpz_setbit(z, mpz_get_ui(w)); key(w, "exp1"); mpz_set_ui(y, 0); mpz_setbit(y, mpz_get_ui(w)); key(w, "sign1"); i = mpz_get_si(w); vp_assert(i == 1 || i == -1, "sign"); mpz_mul_si(y, y, i); mpz_add(z, z, y); key(w, "sign0"); vp_assert(!mpz_cmp_si(w, 1) || !mpz_cmp_si(w, -1), "sign"); mpz_add(z, z, w); vp_assert_z(z, n, "order in terms of the exponents");
    key(w, "h"); if (m == 5) { mpz_mul(z, w, n); mpz_sub_ui(z, z, 1); vp_assert(mpz_divisible_ui_p(w, 12), "h a multiple of 12"); } else { mpz_mul(z, n, n); mpz_mul(z, z, w); mpz_add_ui(z, z, 1); } vp_assert_z(z, q, "q in terms of h and r");
    live(1);
  } else if (m == 7) {          /* bits: type F */
    pbc_param_t p; vp_rs = vp_fork(vp_sym("@s", vp_arg(2), vp_arg(3))); pbc_param_init_f_gen(p, vp_arg(1)); dump(p); key(q, "q"); key(n, "r"); vp_assert(prime(q) && prime(n), "q and r prime"); live(1);
  }
  vp_cover("end");
}
