/* The ring Z and integer multinomials.  args: mode, ... */
#include "common.h"
#include "pbc_z.h"
#include "pbc_multiz.h"
static field_t F; static mpz_t x, y, r, t;
static void val(mpz_t z, const char *nm, int bits, int sg) { mpz_t lo, hi; mpz_init(lo); mpz_init(hi); if (bits) { mpz_setbit(hi, bits); mpz_sub_ui(hi, hi, 1); } if (sg < 0) mpz_neg(lo, hi); if (sg < 0) mpz_set_ui(hi, 0); vp_sym_z(z, nm, lo, hi); }
static void ck(element_t e, mpz_t w, const char *m) { element_to_mpz(t, e); vp_assert_z(t, w, m); vp_assert(!element_is0(e) == (mpz_sgn(w) != 0), "zero test"); vp_assert(!element_is1(e) == (mpz_cmp_ui(w, 1) != 0), "one test"); vp_assert(element_sign(e) == mpz_sgn(w), "sign"); }
static void ops(void) {        /* ring, bits, signs, op */
  element_t a, b, c; int op = vp_arg(4), al; long s = 0; val(x, "x", vp_arg(2), vp_arg(3) & 1 ? -1 : 1); val(y, "y", vp_arg(2), vp_arg(3) & 2 ? -1 : 1); element_init(a, F); element_init(b, F); 
  if (op == 0) mpz_add(r, x, y); if (op == 1) mpz_sub(r, x, y); if (op == 2) mpz_mul(r, x, y); if (op == 3) mpz_neg(r, x); if (op == 4) mpz_mul_ui(r, x, 2); if (op == 5) mpz_mul(r, x, x); if (op == 6) { s = vp_sym("s", -1000, 1000); mpz_mul_si(r, x, s); } if (op == 7) mpz_mul(r, x, y); if (op == 8) { mpz_set(r, x); mpz_mul_ui(x, x, 2); } if (op == 9) { mpz_set_si(y, vp_arg(5)); mpz_set(r, x); mpz_mul(x, x, y); } if (op == 10) { mpz_mul(r, x, x); mpz_mul(r, r, x); } if (op == 11) mpz_set(r, x); if (op == 12) mpz_set_ui(r, 1);
  for (al = 0; al < 3; al++) {
    element_ptr d; element_init(c, F); element_set_si(c, 77); element_set_mpz(a, x); element_set_mpz(b, y); ck(a, x, "set"); d = al == 0 ? c : al == 1 ? a : b;
    if (op == 0) element_add(d, a, b); if (op == 1) element_sub(d, a, b); if (op == 2) element_mul(d, a, b); if (op == 3) element_neg(d, a); if (op == 4) element_double(d, a); if (op == 5) element_square(d, a); if (op == 6) element_mul_si(d, a, s); if (op == 7) element_mul_mpz(d, a, y); if (op == 8) element_halve(d, a); if (op == 9) element_div(d, a, b); if (op == 10 || op == 12) { mpz_t e; mpz_init_set_ui(e, op == 10 ? 3 : 0); element_pow_mpz(d, a, e); } if (op == 11) element_set(d, a);
    ck(d, r, "result"); vp_assert((element_cmp(a, b) > 0) == (d != a && d != b && mpz_cmp(x, y) > 0) || d == a || d == b, "comparison"); element_clear(c);
  }
  element_set_mpz(a, x); element_set_mpz(b, y); vp_assert((element_cmp(a, b) == 0) == (mpz_cmp(x, y) == 0), "equality");
}
static void sq(void) {         /* ring: squares and square roots */
  element_t a, b; long v = vp_sym("@v", 0, 420) - 20, i; int s = 0; for (i = 0; i <= 20; i++) s |= i * i == v; element_init(a, F); element_init(b, F); element_set_si(a, v); vp_assert(!element_is_sqr(a) == !s, "square exactly when it has a root"); if (s) { element_sqrt(b, a); element_square(b, b); vp_assert(!element_cmp(a, b), "square root"); }
  element_set_si(a, v); if (v == 1 || v == -1) { element_invert(b, a); element_mul(b, b, a); vp_assert(element_is1(b), "inverse of a unit"); }
}
static void bytes(void) {      /* ring, bits, negative */
  element_t a, b; mpz_t lo, hi; int n, i, l = vp_arg(2); unsigned char *d, *e; mpz_init(lo); mpz_init(hi); if (l) { mpz_setbit(hi, l); mpz_sub_ui(hi, hi, 1); mpz_setbit(lo, l - 1); } if (vp_arg(3)) { mpz_neg(t, lo); mpz_neg(lo, hi); mpz_set(hi, t); } vp_sym_z(x, "x", lo, hi);
  element_init(a, F); element_init(b, F); element_set_mpz(a, x); element_set_si(b, 3); n = element_length_in_bytes(a); vp_assert(n == 5 + l / 8, "length"); d = malloc(n); e = malloc(n); vp_assert(element_to_bytes(d, a) == n, "bytes written"); for (i = 0; i < n; i++) e[i] = d[i];
  vp_assert(element_from_bytes(b, d) == n, "bytes read"); ck(b, x, "value read back"); for (i = 0; i < n; i++) vp_assert(e[i] == d[i], "encoding not changed by reading it"); 
}
/* lists of the given number of integers (0: a plain integer) */
static mpz_t A[4], B[4], R[8];
static void mk(element_t e, mpz_t *v, int n) { int i; element_ptr q, l = NULL; if (!n) { element_set_mpz(e, v[0]); return; } for (i = 0; i < n; i++) { q = malloc(sizeof(*q)); element_init(q, F); element_set_mpz(q, v[i]); if (!i) l = multiz_new_list(q); else multiz_append(l, q); } element_set(e, l); }
static void coefs(element_t e, mpz_t *v, int n, const char *m) { int i; if (!n) { vp_assert(element_item_count(e) == 0, m); element_to_mpz(t, e); vp_assert_z(t, v[0], m); return; } vp_assert(element_item_count(e) == n, m); for (i = 0; i < n; i++) { element_to_mpz(t, element_item(e, i)); vp_assert_z(t, v[i], m); } }
static void lists(void) {      /* -, items of a, items of b, op */
  int na = vp_arg(2), nb = vp_arg(3), op = vp_arg(4), i, j, n = na > nb ? na : nb, ca = na ? na : 1, cb = nb ? nb : 1, al; element_t a, b, c; char nm[8];
  for (i = 0; i < 4; i++) { mpz_init(A[i]); mpz_init(B[i]); if (i < ca) { sprintf(nm, "a%d", i); val(A[i], nm, 40, i & 1 ? -1 : 1); } if (i < cb) { sprintf(nm, "b%d", i); val(B[i], nm, 40, i & 1 ? 1 : -1); } } for (i = 0; i < 8; i++) mpz_init(R[i]);
  if (op == 0) for (i = 0; i < 4; i++) mpz_add(R[i], A[i], B[i]); if (op == 1) for (i = 0; i < 4; i++) mpz_sub(R[i], A[i], B[i]); if (op == 2) { n = na && nb ? na + nb - 1 : n; for (i = 0; i < ca; i++) for (j = 0; j < cb; j++) mpz_addmul(R[i + j], A[i], B[j]); } if (op == 3) { n = na; for (i = 0; i < 4; i++) mpz_neg(R[i], A[i]); } if (op == 4) { n = na; for (i = 0; i < 4; i++) mpz_mul_si(R[i], A[i], -7); } if (op == 5) { n = na; for (i = 0; i < 4; i++) mpz_set(R[i], A[i]); }
  for (al = 0; al < 3; al++) { element_ptr d; element_init(a, F); element_init(b, F); element_init(c, F); mk(a, A, na); mk(b, B, nb); coefs(a, A, na, "built"); d = al == 0 ? c : al == 1 ? a : b; mpz_set_si(y, -7);
    if (op == 0) element_add(d, a, b); if (op == 1) element_sub(d, a, b); if (op == 2) element_mul(d, a, b); if (op == 3) element_neg(d, a); if (op == 4) { if (al) element_mul_si(d, a, -7); else element_mul_mpz(d, a, y); } if (op == 5) element_set(d, a);
    coefs(d, R, n, "result"); if (d != a) coefs(a, A, na, "first operand kept"); if (d != b) coefs(b, B, nb, "second operand kept");
    if (op == 5 && na) { element_t z; element_init(z, F); mk(z, A, na); vp_assert(!element_cmp(d, z), "equal lists"); mpz_add_ui(A[na - 1], A[na - 1], 1); mk(z, A, na); vp_assert(element_cmp(d, z), "different lists"); mpz_sub_ui(A[na - 1], A[na - 1], 1); } }
}
void vp_main(void) {
  int m = vp_arg(0); mpz_init(x); mpz_init(y); mpz_init(r); mpz_init(t); if (vp_arg(1)) field_init_multiz(F); else field_init_z(F);
  if (m == 0) ops(); if (m == 1) sq(); if (m == 2) bytes(); if (m == 3) lists();
  vp_cover("end");
}
