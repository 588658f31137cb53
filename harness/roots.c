/* Square roots and quadratic residuosity, every element of a small field at once.
   args: tower (-1: prime field), prime, fp implementation, mode */
#include "tower.h"
#define QM 1400
static unsigned char sq[QM];
static field_ptr F;
static void at(element_t e, long k) { int i; long pl = mpz_get_ui(p); for (i = 0; i < nc[nl]; i++) { mpz_set_ui(A[i], k % pl); k /= pl; } put(e, A); }
static long index_(element_t e) { int i; long k = 0, pl = mpz_get_ui(p); for (i = nc[nl] - 1; i >= 0; i--) { element_to_mpz(T1, leaf(e, nl, i)); k = k * pl + mpz_get_ui(T1); } return k; }
void vp_main(void) {
  long q = 1, k, x; int i; element_t e, r, s; 
  mpz_init(p); vp_prime(p, vp_arg(1));
  if (vp_arg(0) < 0) { vp_fix_random(); mpz_init(T1); mpz_init(T2); mpz_init(A[0]); vp_fp(L[0], p, vp_arg(2)); nc[0] = 1; nl = 0; } else build(vp_arg(0), vp_arg(2));
  F = L[nl]; element_init(e, F); element_init(r, F); element_init(s, F);
  for (i = 0; i < nc[nl]; i++) q *= mpz_get_ui(p);
  vp_assert(q <= QM, "field within bound");
  for (x = 0; x < q; x++) { at(e, x); element_mul(r, e, e); sq[index_(r)] = 1; }
  k = vp_sym("@k", 0, q - 1);
  at(e, k);
  if (vp_arg(3) == 0) { int z = element_is_sqr(e); vp_assert(!z == !sq[k], "is_sqr tells squares from nonsquares"); at(r, k); vp_assert(!element_cmp(e, r), "operand kept"); }
  else {
    vp_assume(sq[k]);
    if (vp_arg(3) == 1) { element_sqrt(r, e); element_mul(s, r, r); vp_assert(!element_cmp(s, e), "sqrt(a)^2 = a"); at(s, k); vp_assert(!element_cmp(s, e), "operand kept"); }
    else { element_set(s, e); element_sqrt(e, e); element_mul(r, e, e); vp_assert(!element_cmp(r, s), "(a = sqrt(a))^2 = a"); }
  }
  vp_cover("end");
}
