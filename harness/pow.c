/* Exponentiation: every routine agrees with repeated multiplication.
   args: group, mode, exponent class */
#include "tables.h"
static pairing_t pr; static element_t a, b, c, g, t, one; static vp_tbl T; static int N; static mpz_t n, n1, n2, n3, C, A;
static field_ptr F;
/* exponents A + k*C: word sizes that select each window width */
static const struct { const char *A, *C; int top; } cls[] = {
  { "0", "1", 1023 }, { "1125899906842624", "4398046511093", 255 },                         /* <= 10 bits; 51 bits */
  { "0x8000000000000000000000000000000000000000", "0x7a1b5c9d3e2f40816a9c5d7e3b1f0802468ace13", 255 },   /* 160 bits */
  { "0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", "0x5a1b5c9d3e2f40816a9c5d7e3b1f0802468ace135a1b5c9d3e2f40816a9c5d7e3b1f0802468ace135a1b5c9d3e2f40816a9c5d7e3b1f0802468a", 127 } /* 492 bits */
};
static void order(void) {
  element_set1(t); N = 0;
  do { tbl_put(&T, N, t); if (element_is1(t)) T.b[N][TL - 1] = 1; element_mul(t, t, a); N++; vp_assert(N < TN, "order of the base within bound"); } while (!element_is1(t));
}
static int is(element_t e, long i) { if (F == pr->G1) { int z = element_is0(e); if (z) return i == 0; return (i != 0) & tbl_eq(e, &T, i); } return tbl_eq(e, &T, i); }
static long idx(long k) { long x; if (!vp_is_sym()) return k; x = vp_sym("x", 0, 4095); vp_assume(x == k); return x; }
static void setup(void) {
  static const int par[] = { 3, 3, 3, 3, 10, 12 }; int gk = vp_arg(0), i;
  vp_fix_random();
  vp_assert(!pairing_init_set_str(pr, vp_toy[par[gk]]), "parameters accepted");
  if (gk == 0 || gk == 4) F = pr->G1; else if (gk == 1 || gk == 5) F = pr->GT; else if (gk == 3) F = pr->Zr; else F = pr->GT->data;
  element_init(a, F); element_init(b, F); element_init(c, F); element_init(g, F); element_init(t, F); element_init(one, F); element_set1(one);
  mpz_init(n); mpz_init(n1); mpz_init(n2); mpz_init(n3); mpz_init(C); mpz_init(A);
  if (gk == 2) { /* an element of F_q^2 of small order that is not in F_q */
    mpz_sub_ui(n, F->order, 1); mpz_divexact_ui(n, n, 76); 
    for (i = 1; ; i++) { char ch[2]; ch[0] = 3; ch[1] = i; element_from_hash(g, ch, 2); element_set1(a); { int s; element_set1(t); for (s = (int) mpz_sizeinbase(n, 2) - 1; s >= 0; s--) { element_mul(t, t, t); if (mpz_tstbit(n, s)) element_mul(t, t, g); } } element_set(a, t); element_mul(t, a, a); element_mul(c, t, t); if (!element_is1(c) ) break; }
  } else if (gk == 3) element_set_si(a, 2);
  else if (F == pr->GT) { for (i = 1; ; i++) { element_t P, Q; char ch = i; element_init_G1(P, pr); element_init_G2(Q, pr); element_from_hash(P, &ch, 1); ch += 40; element_from_hash(Q, &ch, 1); element_pairing(a, P, Q); if (!element_is1(a)) break; } }
  else for (i = 1; ; i++) { char ch = i; element_from_hash(a, &ch, 1); if (!element_is0(a)) break; }
  order();
}
void vp_main(void) {
  setup();
  int mode = vp_arg(1), c_ = vp_arg(2); long k, x;
  mpz_set_str(A, cls[c_].A, 0); mpz_set_str(C, cls[c_].C, 0);
  long Am = mpz_fdiv_ui(A, N), Cm = mpz_fdiv_ui(C, N);
  if (mode == 0 || mode == 1) {
    k = vp_sym("@k", 0, F == pr->G1 && c_ >= 2 ? 31 : cls[c_].top);
    mpz_mul_ui(n, C, k); mpz_add(n, n, A);
    if (mode == 0) {
      element_pow_mpz(c, a, n); element_set(b, a); element_pow_mpz(b, b, n);
      if (F == pr->G1 || F == pr->GT) element_mul_mpz(t, a, n); else element_set(t, c);
      x = idx(k);
      vp_assert(is(c, (Am + x * Cm) % N), "a^n"); vp_assert(is(b, (Am + x * Cm) % N), "a = a^n"); vp_assert(is(t, (Am + x * Cm) % N), "n a"); vp_assert(is(a, 1), "base kept");
    } else {
      element_pp_t pp; element_pp_init(pp, a);
      element_pp_pow(c, n, pp); mpz_set_ui(n1, 5); element_pp_pow(b, n1, pp); element_pp_pow(t, n, pp); element_pp_clear(pp);
      x = idx(k);
      vp_assert(is(c, (Am + x * Cm) % N), "preprocessed a^n"); vp_assert(is(b, 5 % N), "preprocessed a^5"); vp_assert(is(t, (Am + x * Cm) % N), "preprocessed a^n again");
    }
  } else if (mode == 2) {
    k = vp_sym("@k", 0, 1023); mpz_set_ui(n1, k / 32); mpz_set_ui(n2, k % 32);
    element_mul(g, a, a); element_mul(g, g, a);      /* second base a^3 */
    element_pow2_mpz(c, a, n1, g, n2); element_set(b, a); element_pow2_mpz(b, b, n1, g, n2); element_set(t, g); element_pow2_mpz(t, a, n1, t, n2);
    x = idx(k);
    vp_assert(is(c, (x / 32 + 3 * (x % 32)) % N), "a^m b^n"); vp_assert(is(b, (x / 32 + 3 * (x % 32)) % N), "a = a^m b^n"); vp_assert(is(t, (x / 32 + 3 * (x % 32)) % N), "b = a^m b^n");
  } else if (mode == 3) {
    element_t h; element_init(h, F);
    k = vp_sym("@k", 0, 511); mpz_set_ui(n1, k / 64); mpz_set_ui(n2, k / 8 % 8); mpz_set_ui(n3, k % 8);
    element_mul(g, a, a); element_mul(h, g, g); element_mul(h, h, a);  /* a^2, a^5 */
    element_pow3_mpz(c, a, n1, g, n2, h, n3); element_set(b, g); element_pow3_mpz(b, a, n1, b, n2, h, n3);
    x = idx(k);
    vp_assert(is(c, (x / 64 + 2 * (x / 8 % 8) + 5 * (x % 8)) % N), "a^m b^n c^o"); vp_assert(is(b, (x / 64 + 2 * (x / 8 % 8) + 5 * (x % 8)) % N), "b = a^m b^n c^o");
  } else if (mode == 4) {   /* exponents given as ring elements */
    element_t z, z2, z3; element_init_Zr(z, pr); element_init_Zr(z2, pr); element_init_Zr(z3, pr);
    k = vp_sym("@k", 0, mpz_get_ui(pr->r) - 1); mpz_set_ui(n, k); element_set_mpz(z, n); element_set_si(z2, 4); element_set_si(z3, 7);
    element_mul(g, a, a);
    element_pow_zn(c, a, z); element_pow2_zn(b, a, z, g, z2); element_pow3_zn(t, a, z, g, z2, a, z3);
    element_t m; element_init(m, F); element_set(m, c); if (F != pr->Zr) element_mul_zn(m, a, z);
    element_pp_t pp; element_pp_init(pp, a); element_t q; element_init(q, F); element_pp_pow_zn(q, z, pp); element_pp_clear(pp);
    x = idx(k);
    vp_assert(is(c, x % N), "a^z"); vp_assert(is(b, (x + 8) % N), "a^z b^4"); vp_assert(is(t, (x + 15) % N), "a^z b^4 c^7"); vp_assert(is(q, x % N), "preprocessed a^z");
    if (F == pr->G1 || F == pr->GT) vp_assert(is(m, x % N), "z a");
  }
  vp_cover("end");
}
