/* Extension field towers against schoolbook arithmetic on coefficients.
   args: tower, prime, fp implementation, operation */
#include "tower.h"
/* schoolbook product of flat vectors at level l: r = a*b */
static void mulv(mpz_t *r, mpz_t *a, mpz_t *b, int l) {
  int i, j, k, d, n; mpz_t *w, s;
  if (l == 0) { mpz_mul(r[0], a[0], b[0]); mpz_mod(r[0], r[0], p); return; }
  d = lv[l - 1].d; n = nc[l - 1]; w = malloc(sizeof(mpz_t) * n * 2 * d); mpz_t *u = malloc(sizeof(mpz_t) * n); mpz_init(s);
  for (i = 0; i < 2 * d * n; i++) mpz_init(w[i]);
  for (i = 0; i < n; i++) mpz_init(u[i]);
  for (i = 0; i < d; i++) for (j = 0; j < d; j++) { mulv(u, a + i * n, b + j * n, l - 1); for (k = 0; k < n; k++) mpz_add(w[(i + j) * n + k], w[(i + j) * n + k], u[k]); }
  for (i = 2 * d - 2; i >= d; i--) for (j = 0; j < d; j++) for (k = 0; k < n; k++) { mpz_mul_si(s, w[i * n + k], lv[l - 1].c[j]); mpz_add(w[(i - d + j) * n + k], w[(i - d + j) * n + k], s); }
  for (i = 0; i < d * n; i++) mpz_mod(r[i], w[i], p);
  for (i = 0; i < 2 * d * n; i++) mpz_clear(w[i]);
  for (i = 0; i < n; i++) mpz_clear(u[i]);
  free(w); free(u); mpz_clear(s);
}
void vp_main(void) {
  int op = vp_arg(3), i; element_t a, b, r; 
  mpz_init(p); vp_prime(p, vp_arg(1)); build(vp_arg(0), vp_arg(2));
  element_init(a, L[nl]); element_init(b, L[nl]); element_init(r, L[nl]);
  if (op < 10) { symv(A, "a"); put(a, A); if (op == 0 || op == 2 || op == 9) { symv(B, "b"); put(b, B); } }
  if (op == 0) {
    mulv(R, A, B, nl);
    element_mul(r, a, b); same(r, R, "a*b"); same(a, A, "operand kept"); same(b, B, "operand kept");
    element_set(r, a); element_mul(r, r, b); same(r, R, "a=a*b");
    element_set(r, b); element_mul(r, a, r); same(r, R, "b=a*b");
  } else if (op == 1) {
    mulv(R, A, A, nl);
    element_square(r, a); same(r, R, "a^2"); element_set(r, a); element_square(r, r); same(r, R, "a=a^2");
    element_mul(r, a, a); same(r, R, "a*a"); element_set(r, a); element_mul(r, r, r); same(r, R, "a=a*a"); same(a, A, "operand kept");
  } else if (op == 2) {
    for (i = 0; i < nc[nl]; i++) mpz_add(R[i], A[i], B[i]);
    element_add(r, a, b); same(r, R, "a+b"); element_set(r, a); element_add(r, r, b); same(r, R, "a=a+b"); element_set(r, b); element_add(r, a, r); same(r, R, "b=a+b");
    for (i = 0; i < nc[nl]; i++) mpz_sub(R[i], A[i], B[i]);
    element_sub(r, a, b); same(r, R, "a-b"); element_set(r, a); element_sub(r, r, b); same(r, R, "a=a-b"); element_set(r, b); element_sub(r, a, r); same(r, R, "b=a-b"); same(a, A, "operand kept"); same(b, B, "operand kept");
  } else if (op == 3) {
    for (i = 0; i < nc[nl]; i++) mpz_neg(R[i], A[i]);
    element_neg(r, a); same(r, R, "-a"); element_set(r, a); element_neg(r, r); same(r, R, "a=-a");
    for (i = 0; i < nc[nl]; i++) mpz_add(R[i], A[i], A[i]);
    element_double(r, a); same(r, R, "2a"); element_set(r, a); element_double(r, r); same(r, R, "a=2a"); element_set(r, a); element_add(r, r, r); same(r, R, "a=a+a");
    element_halve(r, r); same(r, A, "2a/2"); element_sub(r, r, r); for (i = 0; i < nc[nl]; i++) mpz_set_ui(R[i], 0); same(r, R, "a-a");
  } else if (op == 4) {
    long k; mpz_t z, lo, hi; mpz_init(z); mpz_init(lo); mpz_init(hi); mpz_mul_si(lo, p, -2); mpz_mul_si(hi, p, 3); vp_sym_z(z, "z", lo, hi);
    for (i = 0; i < nc[nl]; i++) mpz_mul(R[i], A[i], z);
    element_mul_mpz(r, a, z); same(r, R, "a*z");
    k = vp_sym("k", -1000000, 1000000);
    for (i = 0; i < nc[nl]; i++) mpz_mul_si(R[i], A[i], k);
    element_mul_si(r, a, k); same(r, R, "a*k"); element_set(r, a); element_mul_si(r, r, k); same(r, R, "a=a*k");
    for (i = 0; i < nc[nl]; i++) mpz_set_ui(R[i], 0);
    mpz_set(R[0], z); element_set_mpz(r, z); same(r, R, "set from z"); mpz_set_si(R[0], k); element_set_si(r, k); same(r, R, "set from k");
    element_to_mpz(z, a); mpz_mod(T2, A[0], p); vp_assert_z(z, T2, "to_mpz");
  } else if (op == 5) {   /* cube: powers by the generic ladder, and mixed expression */
    mpz_t z; mpz_init_set_ui(z, 3);
    mulv(S, A, A, nl); mulv(R, S, A, nl); element_pow_mpz(r, a, z); same(r, R, "a^3");
  } else if (op == 9) {   /* comparison and predicates */
    int c0, c1, eq = 1, z = 1, one = 1;
    c0 = element_cmp(a, b); element_set(r, a); c1 = element_cmp(a, r);
    for (i = 0; i < nc[nl]; i++) { eq &= mpz_cmp(A[i], B[i]) == 0; z &= mpz_sgn(A[i]) == 0; one &= mpz_cmp_ui(A[i], i == 0) == 0; }
    vp_assert((c0 == 0) == eq, "cmp"); vp_assert(c1 == 0, "copy equal"); vp_assert(!element_is0(a) == !z, "is0"); vp_assert(!element_is1(a) == !one, "is1");
    element_set0(r); vp_assert(element_is0(r) && !element_is1(r), "set0"); element_set(r, a); element_set1(r); vp_assert(element_is1(r) && !element_is0(r), "set1");
    for (i = 0; i < nc[nl]; i++) mpz_set_ui(R[i], i == 0); same(r, R, "one");
  } else {                /* inversion and division over a small field: every element at once */
    long k, q = 1, x; int pl = mpz_get_ui(p);
    for (i = 0; i < nc[nl]; i++) q *= pl;
    k = vp_sym("@k", 1, q - 1); x = k; for (i = 0; i < nc[nl]; i++) { mpz_set_ui(A[i], x % pl); x /= pl; }
    put(a, A); element_invert(r, a);
    if (op == 10) { element_mul(b, r, a); vp_assert(element_is1(b), "a * a^-1 = 1"); same(a, A, "operand kept"); element_set(b, a); element_invert(b, b); vp_assert(!element_cmp(b, r), "a = a^-1"); element_mul(b, a, b); vp_assert(element_is1(b), "a * (a=a^-1) = 1"); }
    if (op == 11) { element_set_si(b, 2); element_add(b, b, r); element_t c; element_init(c, L[nl]); element_div(c, b, a); element_mul(c, c, a); vp_assert(!element_cmp(c, b), "(b/a)*a = b"); element_set(c, a); element_div(c, c, a); vp_assert(element_is1(c), "a/a = 1"); element_set(c, a); element_div(c, b, c); element_mul(c, c, a); vp_assert(!element_cmp(c, b), "a = b/a"); }
  }
  vp_cover("end");
}
