/* Elliptic-curve group law on toy curves, every pair of points at once.
   args: curve, mode, field implementation */
#include "ec.h"
#include "pbc_multiz.h"
static element_t P, Q, R; 
static void split(long k, long *i, long *j) {
  if (!vp_is_sym()) { *i = k / ecn; *j = k % ecn; return; }
  *i = vp_sym("i", 0, ecn - 1); *j = vp_sym("j", 0, ecn - 1); vp_assume(k == *i * ecn + *j);
}
#define CHK(e, idx, msg) vp_assert(ec_is(e, idx), msg)
void vp_main(void) {
  int mode = vp_arg(1); long k, i, j, x, y;
  ec_setup(vp_arg(0), vp_arg(2));
  element_init(P, ecC); element_init(Q, ecC); element_init(R, ecC);
  k = vp_sym("@k", 0, ecn * ecn - 1); i = k / ecn; j = k % ecn;
  ec_set(P, i); ec_set(Q, j);
  if (mode == 0) {           /* binary operations, all aliasings */
    element_t A, B, C, D, S, T; int c0, c1;
    element_init(A, ecC); element_init(B, ecC); element_init(C, ecC); element_init(D, ecC); element_init(S, ecC); element_init(T, ecC);
    element_add(A, P, Q);
    element_set(B, P); element_add(B, B, Q);
    element_set(C, Q); element_add(C, P, C);
    element_set(D, P); element_add(D, D, D);
    element_sub(S, P, Q); element_div(T, P, Q); element_mul(R, P, Q);
    c0 = element_cmp(P, Q); c1 = element_cmp(A, P);
    split(k, &x, &y);
    CHK(A, ecsum[x][y], "P+Q"); CHK(B, ecsum[x][y], "P=P+Q"); CHK(C, ecsum[x][y], "Q=P+Q"); CHK(D, ecsum[x][x], "P=P+P");
    CHK(S, ecsum[x][ecneg[y]], "P-Q"); CHK(T, ecsum[x][ecneg[y]], "P/Q"); CHK(R, ecsum[x][y], "P*Q");
    vp_assert((c0 == 0) == (x == y), "cmp"); vp_assert((c1 == 0) == (y == 0), "P+Q equals P exactly for Q=O");
    CHK(P, x, "operand kept"); CHK(Q, y, "operand kept");
  } else if (mode == 1) {    /* unary operations, multiples */
    element_t A, B, C, D, S, T; mpz_t z; long m = j - 3;
    element_init(A, ecC); element_init(B, ecC); element_init(C, ecC); element_init(D, ecC); element_init(S, ecC); element_init(T, ecC);
    element_neg(A, P); element_invert(B, P); element_double(C, P); element_square(D, P);
    element_set(S, P); element_double(S, S); element_set(T, P); element_neg(T, T);
    split(k, &x, &y);
    CHK(A, ecneg[x], "-P"); CHK(B, ecneg[x], "P^-1"); CHK(C, ecsum[x][x], "2P"); CHK(D, ecsum[x][x], "P^2"); CHK(S, ecsum[x][x], "P=2P"); CHK(T, ecneg[x], "P=-P"); CHK(P, x, "operand kept");
    vp_assert(!element_is0(P) == (x != 0) && !element_is1(P) == (x != 0), "is0, is1");
    element_set(R, P); vp_assert(!element_cmp(R, P) && !element_cmp(P, R) && !element_cmp(P, P), "copy equal"); CHK(R, x, "copy");
    element_set0(R); CHK(R, 0, "set0"); element_set(R, Q); element_set1(R); CHK(R, 0, "set1");
    (void) m; mpz_init(z); mpz_clear(z);
  } else if (mode == 2) {    /* batch doubling and addition */
    element_t A[3], B[3], C[3]; int q;
    for (q = 0; q < 3; q++) { element_init(A[q], ecC); element_init(B[q], ecC); element_init(C[q], ecC); }
    element_set(A[0], P); element_set(A[1], Q); ec_set(A[2], 2); element_set(B[0], Q); ec_set(B[1], 1); element_set(B[2], P);
    element_multi_add(C, A, B, 3);
    split(k, &x, &y);
    CHK(C[0], ecsum[x][y], "batch sum 0"); CHK(C[1], ecsum[y][1], "batch sum 1"); CHK(C[2], ecsum[2][x], "batch sum 2");
  } else if (mode == 3) {
    element_t A[3], C[3]; int q;
    for (q = 0; q < 3; q++) { element_init(A[q], ecC); element_init(C[q], ecC); ec_set(C[q], 1 + q); }
    element_set(A[0], P); element_set(A[1], Q); ec_set(A[2], 2);
    element_multi_double(C, A, 3); 
    element_multi_double(A, A, 2);
    split(k, &x, &y);
    CHK(C[0], ecsum[x][x], "batch double 0"); CHK(C[1], ecsum[y][y], "batch double 1"); CHK(C[2], ecsum[2][2], "batch double 2");
    CHK(A[0], ecsum[x][x], "batch double in place 0"); CHK(A[1], ecsum[y][y], "batch double in place 1");
  }
  if (mode == 5) {           /* integer multiples: every point, a range of integers of either sign */
    long m = vp_arg(3), a, v; element_t A, B, T; mpz_t z; mpz_init(z); element_init(A, ecC); element_init(B, ecC); element_init(T, ecC); 
    m += j; element_mul_si(A, P, m); element_set(B, P); element_mul_si(B, B, m); mpz_set_si(z, m < 0 ? -m : m); element_mul_mpz(T, P, z);
    split(k, &x, &y); v = 0; a = vp_arg(3); if (vp_is_sym()) { long w; int q, mt[ECN][ECN]; for (w = 0; w < ecn; w++) for (q = 0; q < ecn; q++) { long c, r = 0, e = a + q; if (e < 0) e = -e; for (c = 0; c < e; c++) r = ecsum[r][w]; mt[w][q] = r; } v = mt[x][y]; } else { long c, e = a + y; if (e < 0) e = -e; for (c = 0; c < e; c++) v = ecsum[v][x]; }
    CHK(T, v, "|n| P"); if (a + y < 0) v = ecneg[v]; CHK(A, v, "n P"); CHK(B, v, "P = n P"); CHK(P, x, "operand kept");
  }
  if (mode == 6) {           /* coordinates, setting points by coordinates */
    element_t X, Y, A; mpz_t z; mpz_init(z); element_init(A, ecC); element_init(X, ecF); element_init(Y, ecF);
    vp_assert(element_item_count(P) == (i ? 2 : 0), "number of coordinates"); 
    if (i) { element_to_mpz(z, element_item(P, 0)); vp_assert(mpz_get_si(z) == ecx[i], "x"); element_to_mpz(z, element_item(P, 1)); vp_assert(mpz_get_si(z) == ecy[i], "y"); element_set(X, element_x(P)); element_set(Y, element_y(P)); element_to_mpz(z, X); vp_assert(mpz_get_si(z) == ecx[i], "x"); element_to_mpz(z, Y); vp_assert(mpz_get_si(z) == ecy[i], "y");
      curve_set_si(A, ecx[i], ecy[i] - E.p); CHK(A, i, "point set from integers"); curve_from_x(R, X); vp_assert(ec_is(R, i) || ec_is(R, ecneg[i]), "point from its x-coordinate"); 
      vp_assert((element_sign(P) == 0) == (ecy[i] == 0), "sign zero exactly for points of order two"); element_neg(A, P); vp_assert(element_sign(A) == -element_sign(P), "sign changes under negation"); }
    else { vp_assert(element_sign(P) == 0, "sign of O"); vp_assert(!element_item(P, 0), "no coordinates"); }
    { field_t Z; element_t m0, m1, q; element_ptr l; field_init_multiz(Z); element_init(m0, Z); element_init(q, Z); element_set_si(m0, j % E.p); l = malloc(sizeof(*l)); element_init(l, Z); element_set(l, m0); { element_ptr l2 = malloc(sizeof(*l2)); long yy = i % E.p; (void) m1; element_init(l2, Z); element_set_si(l2, yy); l = multiz_new_list(l); multiz_append(l, l2); 
      ec_set(A, 1); element_set_multiz(A, l->data); if ((yy * yy - (j % E.p) * (j % E.p) * (j % E.p) - E.a * (j % E.p) - E.b) % E.p == 0) CHK(A, ec_find(j % E.p, yy), "point from a list of coordinates"); else CHK(A, 0, "coordinates off the curve give O"); element_set0(q); ec_set(A, 1); element_set_multiz(A, q->data); CHK(A, 0, "O from zero"); } }
  }
  if (mode == 4) {           /* doubles (cyclic groups) */
    int t[ECN], q, z = element_is_sqr(P); for (q = 0; q < ecn; q++) t[q] = 0; for (q = 0; q < ecn; q++) t[ecsum[q][q]] = 1;
    split(k, &x, &y); vp_assert(!z == !t[x], "is_sqr"); CHK(P, x, "operand kept");
  }
  vp_cover("end");
}
