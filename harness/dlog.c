/* Discrete logarithms of every element of a small group.  args: toy parameters, group (0 G1, 1 GT), method */
#include "tables.h"
static int full(element_t g, mpz_t r) { element_t y; mpz_t d, z; mpz_init(d); mpz_init(z); element_init_same_as(y, g); int ok = !element_is1(g);
  for (mpz_set_ui(d, 2); mpz_cmp(d, r) < 0; mpz_add_ui(d, d, 1)) { mpz_mod(z, r, d); if (!mpz_sgn(z)) { element_pow_mpz(y, g, d); if (element_is1(y)) ok = 0; } } return ok; }
void vp_main(void) {
  pairing_t pr; element_t g, h, x, y; int i; long k; field_ptr G;
  vp_fix_random(); pairing_init_set_str(pr, vp_toy[vp_arg(0)]); G = vp_arg(1) ? pr->GT : pr->G1; element_init(g, G); element_init(h, G); element_init(y, G); element_init_Zr(x, pr);
  for (i = 1; ; i++) { element_t P, Q; char ch = i; element_init_G1(P, pr); element_init_G2(Q, pr); element_from_hash(P, &ch, 1); ch += 40; element_from_hash(Q, &ch, 1); if (vp_arg(1)) element_pairing(g, P, Q); else element_set(g, P); if (full(g, pr->r)) break; }
  k = vp_sym("@k", 0, mpz_get_ui(pr->r) - 1); element_set_si(x, k); element_pow_zn(h, g, x); element_set_si(x, 1);
  vp_rs = 1000 + vp_arg(3);
  if (vp_arg(2) == 0) element_dlog_brute_force(x, g, h); else element_dlog_pollard_rho(x, g, h);
  element_pow_zn(y, g, x); vp_assert(!element_cmp(y, h), "g^x = h");
  vp_cover("end");
}
