/* Hashing to elements.  args: mode, ... */
#include "tables.h"
#include "pbc_curve.h"
static mpz_t p;
void vp_main(void) {
  int i, n = vp_arg(1); unsigned char *d = malloc(n ? n : 1), *dd = malloc(n ? n : 1);
  if (vp_arg(0) == 0) {          /* n, prime: every implementation of a prime field gives the same canonical element */
    field_t F[4]; element_t e[4], f; mpz_t z0, z; mpz_init(p); mpz_init(z0); mpz_init(z); vp_prime(p, vp_arg(2));
    vp_sym_bytes(d, "d", n);
    mpz_t w; int cnt = (mpz_sizeinbase(p, 2) + 7) / 8, k, c = 0; mpz_init(w); if (vp_arg(3)) { /* data || 0 || data || 1 ... cut to the size of p, halved until below p */
      for (i = k = 0; i < cnt; i++) { mpz_mul_ui(w, w, 256); if (k < n) mpz_add_ui(w, w, d[k++]); else { mpz_add_ui(w, w, c++ & 255); k = 0; } } while (mpz_cmp(w, p) >= 0) mpz_fdiv_q_2exp(w, w, 1); }
    for (i = 0; i < (vp_arg(3) ? vp_arg(3) : 4); i++) { vp_fp(F[i], p, i); element_init(e[i], F[i]); element_set_si(e[i], 5); element_from_hash(e[i], d, n); element_to_mpz(z, e[i]); vp_assert(mpz_sgn(z) >= 0 && mpz_cmp(z, p) < 0, "in range"); if (vp_arg(3)) vp_assert_z(z, w, "documented expansion");
      if (!i) mpz_set(z0, z); else vp_assert_z(z, z0, "same element in every implementation");
      element_init(f, F[i]); element_set_mpz(f, z); vp_assert(!element_cmp(f, e[i]) && !element_cmp(e[i], f), "canonical"); element_from_hash(f, d, n); vp_assert(!element_cmp(f, e[i]), "same data, same element"); }
  } else if (vp_arg(0) == 1) {   /* n, toy parameters, varying byte: groups, independence of the random source */
    pairing_t pr, ps; element_t a, b, c; int g; unsigned char b1[TL], b2[TL];
    vp_fix_random(); vp_rs = 77; pairing_init_set_str(pr, vp_toy[vp_arg(2)]); 
    for (i = 0; i < n; i++) d[i] = 3 + 7 * i; d[vp_arg(3)] = vp_sym("@d", vp_arg(4), vp_arg(5));
    for (g = 0; g < 2; g++) {
      field_ptr f = g ? pr->G2 : pr->G1; element_init(a, f); element_init(b, f); element_from_hash(a, d, n); if (!g || pr->G1 == pr->G2 || vp_toy[vp_arg(2)][5] == 'e') { element_mul_mpz(b, a, pr->r); vp_assert(element_is0(b), "in the group of order r"); } if (!element_is0(a)) { int l = element_length_in_bytes(a); element_to_bytes(b1, a); vp_assert(element_from_bytes(b, b1) == l && !element_is0(b) && !element_cmp(a, b), "on the curve"); }
      vp_rs = 991; pairing_init_set_str(ps, vp_toy[vp_arg(2)]); element_init(c, g ? ps->G2 : ps->G1); element_from_hash(c, d, n);
      vp_assert(!element_is0(a) == !element_is0(c), "independent of the random source"); if (!element_is0(a)) { element_to_bytes(b1, a); element_to_bytes(b2, c); for (i = 0; i < element_length_in_bytes(a); i++) vp_assert(b1[i] == b2[i], "independent of the random source"); }
      element_clear(c); pairing_clear(ps);
    }
    if (vp_arg(6)) { int n1 = 0; element_t u, u0; element_init_GT(u, pr); element_init_GT(u0, pr); for (i = 1; i < 12; i++) { char ch[6] = "abcdef"; ch[0] = i; ch[3] = i * i; element_from_hash(u, ch, 6); if (i == 1) element_set(u0, u); n1 += !!element_cmp(u, u0); } vp_assert(n1, "hashes into GT are not all the same");
      element_init_GT(a, pr); element_init_GT(b, pr); element_from_hash(a, d, n); element_pow_mpz(b, a, pr->r); vp_assert(element_is1(b), "GT: in the group of order r");
      vp_rs = 991; pairing_init_set_str(ps, vp_toy[vp_arg(2)]); element_init_GT(c, ps); element_set1(c); element_from_hash(c, d, n); element_to_bytes(b1, a); element_to_bytes(b2, c); for (i = 0; i < element_length_in_bytes(a); i++) vp_assert(b1[i] == b2[i], "GT: independent of the random source"); }
    element_init(a, pr->Zr); element_from_hash(a, d, n); mpz_init(p); element_to_mpz(p, a); vp_assert(mpz_cmp(p, pr->r) < 0 && mpz_sgn(p) >= 0, "Zr in range");
  }
  (void) dd;
  vp_cover("end");
}
