/* C01: arithmetic in every prime-field implementation equals integer
   arithmetic modulo p, for every operand, for every aliasing of operands.
   args: prime, implementation, operation */
#include "common.h"
static mpz_t p, x, y, w, z, e, k;
static field_t f;
static element_t a, b, c, d;
/* the value of an element through the public conversion */
static void val(mpz_t r, element_t u) { element_to_mpz(r, u); }
static void expect(element_t u, mpz_t v, const char *msg) {
  val(z, u); vp_assert_z(z, v, msg);
  vp_assert(element_is0(u) == (mpz_sgn(v) == 0), "is0 agrees with value");
  /* the representation is canonical: equal to the element set from the value */
  element_set_mpz(d, v); vp_assert(!element_cmp(u, d) && !element_cmp(d, u), "equals the element with that value");
}
enum { SETTO, ADD, SUB, MUL, SQUARE, NEG, DOUBLE, HALVE, INVERT, DIV, MULZ, MULSI, SET01, POW, SETSI, CMP, INV2, NOPS };
static void reset(mpz_t u0) { element_set_mpz(a, x); element_set_mpz(b, y); element_set_mpz(c, u0); }
static void oracle2(int op) {
  switch (op) {
  case ADD: mpz_add(e, x, y); break;
  case SUB: mpz_sub(e, x, y); break;
  case MUL: mpz_mul(e, x, y); break;
  }
  mpz_mod(e, e, p);
}
static void op2(int op, element_t r, element_t s, element_t t) {
  switch (op) {
  case ADD: element_add(r, s, t); break;
  case SUB: element_sub(r, s, t); break;
  case MUL: element_mul(r, s, t); break;
  }
}
static void oracle1(int op) {
  switch (op) {
  case SQUARE: mpz_mul(e, x, x); break;
  case NEG: mpz_neg(e, x); break;
  case DOUBLE: mpz_add(e, x, x); break;
  case HALVE: mpz_add_ui(e, p, 1); mpz_fdiv_q_2exp(e, e, 1); mpz_mul(e, e, x); break;
  }
  mpz_mod(e, e, p);
}
static void op1(int op, element_t r, element_t s) {
  switch (op) {
  case SQUARE: element_square(r, s); break;
  case NEG: element_neg(r, s); break;
  case DOUBLE: element_double(r, s); break;
  case HALVE: element_halve(r, s); break;
  }
}
void vp_main(void) {
  int op = vp_arg(2), xz, yz, wz;
  mpz_init(p); mpz_init(x); mpz_init(y); mpz_init(w); mpz_init(z); mpz_init(e); mpz_init(k);
  vp_prime(p, vp_arg(0)); vp_fp(f, p, vp_arg(1));
  element_init(a, f); element_init(b, f); element_init(c, f); element_init(d, f);
  if (op == ADD || op == SUB || op == MUL) {
    for (xz = 0; xz < 2; xz++) for (yz = 0; yz < 2; yz++) {
      vp_res(x, "x", p, xz); vp_res(y, "y", p, yz);
      oracle2(op);
      for (wz = 0; wz < 2; wz++) { mpz_set_ui(w, !wz); reset(w); op2(op, c, a, b); expect(c, e, "c = a op b"); expect(a, x, "operand a kept"); expect(b, y, "operand b kept"); }
      reset(w); op2(op, a, a, b); expect(a, e, "a = a op b"); expect(b, y, "operand b kept");
      reset(w); op2(op, b, a, b); expect(b, e, "b = a op b"); expect(a, x, "operand a kept");
      if (yz) {
        mpz_set(y, x); oracle2(op);
        reset(w); op2(op, c, a, a); expect(c, e, "c = a op a");
        reset(w); op2(op, a, a, a); expect(a, e, "a = a op a");
        reset(w); op2(op, c, a, b); expect(c, e, "c = a op b with equal values");
      }
    }
  } else if (op == SQUARE || op == NEG || op == DOUBLE || op == HALVE) {
    for (xz = 0; xz < 2; xz++) {
      vp_res(x, "x", p, xz); oracle1(op);
      for (wz = 0; wz < 2; wz++) { mpz_set_ui(w, !wz); reset(w); op1(op, c, a); expect(c, e, "c = op a"); expect(a, x, "operand kept"); }
      reset(w); op1(op, a, a); expect(a, e, "a = op a");
    }
  } else if (op == SETTO) {
    /* every integer of up to twice the width of p, of either sign */
    mpz_t lo, hi; mpz_init(lo); mpz_init(hi);
    mpz_mul(hi, p, p); mpz_neg(lo, hi);
    vp_sym_z(x, "x", lo, hi);
    mpz_mod(e, x, p);
    element_set_mpz(a, x); expect(a, e, "set_mpz reduces");
    vp_assert(element_is0(a) == (mpz_sgn(e) == 0), "is0 after set_mpz");
    element_set1(c); element_set(c, a); expect(c, e, "set copies");
    element_set0(c); element_set(c, a); expect(c, e, "set copies");
    element_set(a, a); expect(a, e, "self set");
    vp_assert(element_cmp(a, c) == 0, "copy compares equal");
  } else if (op == INVERT || op == INV2) {
    vp_res(x, "x", p, 0);
    mpz_set_ui(w, op == INV2);
    mpz_set_ui(y, 1);
    reset(w); element_invert(c, a); val(z, c);
    mpz_mul(e, z, x); mpz_mod(e, e, p); vp_assert(!mpz_cmp_ui(e, 1), "a * a^-1 = 1"); vp_assert(mpz_cmp(z, p) < 0 && mpz_sgn(z) > 0, "inverse reduced");
    expect(a, x, "operand kept");
    element_invert(a, a); val(z, a);
    mpz_mul(e, z, x); mpz_mod(e, e, p); vp_assert(!mpz_cmp_ui(e, 1), "in-place inverse");
  } else if (op == DIV) {
    for (xz = 0; xz < 2; xz++) {
      vp_res(x, "x", p, xz); vp_res(y, "y", p, 0); mpz_set_ui(w, 1);
      reset(w); element_div(c, a, b); val(z, c); mpz_mul(e, z, y); mpz_mod(e, e, p); vp_assert_z(e, x, "(a/b)*b = a");
      reset(w); element_div(a, a, b); val(z, a); mpz_mul(e, z, y); mpz_mod(e, e, p); vp_assert_z(e, x, "a=a/b");
      reset(w); element_div(b, a, b); val(z, b); mpz_mul(e, z, y); mpz_mod(e, e, p); vp_assert_z(e, x, "b=a/b");
    }
    vp_res(x, "x", p, 0); mpz_set_ui(y, 1); reset(w); element_div(c, a, a); vp_assert(element_is1(c), "a/a = 1");
  } else if (op == MULZ) {
    mpz_t lo, hi; mpz_init(lo); mpz_init(hi);
    mpz_mul_ui(hi, p, 3); mpz_neg(lo, hi);
    for (xz = 0; xz < 2; xz++) {
      vp_res(x, "x", p, xz); vp_sym_z(k, "k", lo, hi); mpz_set_ui(y, 0); mpz_set_ui(w, 1);
      mpz_mul(e, x, k); mpz_mod(e, e, p);
      reset(w); element_mul_mpz(c, a, k); expect(c, e, "c = k a"); expect(a, x, "operand kept");
      vp_assert(element_is0(c) == (mpz_sgn(e) == 0), "is0 of multiple");
      reset(w); element_mul_mpz(a, a, k); expect(a, e, "a = k a");
    }
  } else if (op == MULSI) {
    for (xz = 0; xz < 2; xz++) {
      vp_res(x, "x", p, xz); mpz_set_ui(y, 0); mpz_set_ui(w, 1);
      for (int sg = 0; sg < 3; sg++) {
        long s = sg == 0 ? 0 : sg == 1 ? vp_sym("s", 1, 0x7fffffffffffffffL) : vp_sym("s", -0x7fffffffffffffffL, -1);
        mpz_mul_si(e, x, s); mpz_mod(e, e, p);
        reset(w); element_mul_si(c, a, s); expect(c, e, "c = s a");
        reset(w); element_mul_si(a, a, s); expect(a, e, "a = s a");
      }
    }
  } else if (op == SETSI) {
    for (int sg = 0; sg < 3; sg++) {
      long s = sg == 0 ? 0 : sg == 1 ? vp_sym("s", 1, 0x7fffffffffffffffL) : vp_sym("s", -0x7fffffffffffffffL, -1);
      mpz_set_si(e, s); mpz_mod(e, e, p);
      element_set_si(a, s); expect(a, e, "set_si");
      vp_assert(element_is0(a) == (mpz_sgn(e) == 0), "is0 after set_si");
      element_set1(a); element_set_si(a, s); expect(a, e, "set_si");
    }
  } else if (op == SET01) {
    vp_res(x, "x", p, 0); mpz_set_ui(y, 0); mpz_set_ui(w, 1); reset(w);
    element_set0(a); vp_assert(element_is0(a) && !element_is1(a), "set0"); val(z, a); vp_assert(!mpz_sgn(z), "set0 value");
    reset(w); element_set1(a); vp_assert(element_is1(a) && !element_is0(a), "set1"); val(z, a); vp_assert(!mpz_cmp_ui(z, 1), "set1 value");
    element_init_same_as(b, a); vp_assert(element_is0(b), "init gives zero");
    reset(w); vp_assert(element_is1(a) == !mpz_cmp_ui(x, 1), "is1 agrees with value"); vp_assert(!element_is0(a), "is0 of nonzero"); vp_assert(element_is1(b) == 0, "is1 of zero"); vp_assert(element_is0(b), "is0 of zero");
  } else if (op == CMP) {
    for (xz = 0; xz < 2; xz++) for (yz = 0; yz < 2; yz++) {
      vp_res(x, "x", p, xz); vp_res(y, "y", p, yz); mpz_set_ui(w, 0); reset(w);
      vp_assert((element_cmp(a, b) == 0) == (mpz_cmp(x, y) == 0), "cmp is zero exactly for equal values");
      vp_assert((element_cmp(b, a) == 0) == (mpz_cmp(x, y) == 0), "cmp symmetric");
      /* a value that became zero by computation equals the zero element */
      element_sub(c, a, a); vp_assert(element_is0(c), "a-a is 0"); vp_assert((element_cmp(c, a) == 0) == (mpz_sgn(x) == 0), "computed 0 vs a"); vp_assert((element_cmp(a, c) == 0) == (mpz_sgn(x) == 0), "a vs computed 0");
      element_set(c, a); element_set0(c); vp_assert((element_cmp(c, a) == 0) == (mpz_sgn(x) == 0), "cleared copy vs a"); vp_assert((element_cmp(a, c) == 0) == (mpz_sgn(x) == 0), "a vs cleared copy");
    }
  } else if (op == POW) {
    int n;
    vp_res(x, "x", p, 0); mpz_set_ui(y, 0); mpz_set_ui(w, 1);
    mpz_set_ui(e, 1);
    for (n = 0; n < 6; n++) {
      mpz_set_ui(k, n); reset(w); element_pow_mpz(c, a, k); expect(c, e, "a^n"); expect(a, x, "operand kept");
      reset(w); element_pow_mpz(a, a, k); expect(a, e, "a=a^n");
      mpz_mul(e, e, x); mpz_mod(e, e, p);
    }
    for (n = 1; n < 4; n++) { mpz_set_ui(k, n); mpz_set_ui(x, 0); reset(w); element_pow_mpz(c, a, k); vp_assert(element_is0(c), "0^n = 0"); }
  }
  vp_cover("end");
}
