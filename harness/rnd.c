/* Random elements.  args: mode, ... */
#include "tables.h"
static mpz_t p, v; static int calls;
static void src(mpz_t z, mpz_t limit, void *d) { if (!calls++) { mpz_t hi, lo; mpz_init(hi); mpz_init(lo); mpz_sub_ui(hi, limit, 1); vp_sym_z(z, "r", lo, hi); mpz_set(v, z); } else vp_rnd(z, limit, d); }
static void asrc(mpz_t z, mpz_t limit, void *d) { if (!calls++) { mpz_set_ui(z, vp_sym("@r", 0, mpz_get_ui(limit) - 1)); } else vp_rnd(z, limit, d); }
static long vp_lo, vp_got = -1;
static void asrc2(mpz_t z, mpz_t limit, void *d) { if (!calls++) { if (vp_got < 0) { long h = mpz_get_ui(limit) - 1, w = vp_arg(3); if (w && vp_lo + w - 1 < h) h = vp_lo + w - 1; vp_got = vp_sym("@r", vp_lo, h); } mpz_set_ui(z, vp_got); } else vp_rnd(z, limit, d); }
void vp_main(void) {
  mpz_t z; mpz_init(z); mpz_init(p); mpz_init(v);
  if (vp_arg(0) == 0) {          /* prime, implementation: the element the source chose */
    field_t F; element_t e, f; vp_prime(p, vp_arg(1)); vp_fp(F, p, vp_arg(2)); element_init(e, F); element_init(f, F); element_set_si(e, 3); pbc_random_set_function(src, NULL);
    element_random(e); element_to_mpz(z, e); vp_assert_z(z, v, "element chosen by the source"); element_set_mpz(f, v); vp_assert(!element_cmp(e, f) && !element_cmp(f, e), "canonical"); vp_assert(!element_is0(e) == (mpz_sgn(v) != 0), "zero test");
  } else if (vp_arg(0) == 1) {   /* toy parameters: group elements, first choice of the source arbitrary */
    pairing_t pr; element_t a, b; vp_fix_random(); pairing_init_set_str(pr, vp_toy[vp_arg(1)]); 
    field_ptr f = vp_arg(2) == 0 ? pr->G1 : pr->G2; element_init(a, f); element_init(b, f); calls = 0; pbc_random_set_function(asrc, NULL); element_random(a); if (!vp_arg(2) || pr->G1 == pr->G2 || vp_toy[vp_arg(1)][5] == 'e') { element_mul_mpz(b, a, pr->r); vp_assert(element_is0(b), "in the group of order r"); } if (!element_is0(a)) { static unsigned char b1[512]; int l = element_length_in_bytes(a); element_to_bytes(b1, a); vp_assert(element_from_bytes(b, b1) == l && !element_is0(b) && !element_cmp(a, b), "on the curve"); }
  } else if (vp_arg(0) == 4) {   /* toy parameters: elements of GT */
    pairing_t pr; element_t a, b; int i, n1 = 0; vp_fix_random(); pairing_init_set_str(pr, vp_toy[vp_arg(1)]); element_init_GT(a, pr); element_init_GT(b, pr);
    for (i = 0; i < 12; i++) { element_random(a); n1 += !element_is1(a); } vp_assert(n1, "random elements are not all 1");
    vp_lo = vp_arg(2); calls = 0; pbc_random_set_function(asrc2, NULL); element_random(a);
    element_pow_mpz(b, a, pr->r); vp_assert(element_is1(b), "in the group of order r"); static unsigned char b1[512]; int l = element_length_in_bytes(a); element_to_bytes(b1, a); vp_assert(element_from_bytes(b, b1) == l && !element_cmp(a, b), "an element");
  } else if (vp_arg(0) == 2) {   /* byte source: bytes, limit: below the limit, rejection of larger values */
    unsigned char d[32]; int n = vp_arg(1), i, nb, bits; mpz_t w; mpz_init(w); mpz_set_si(p, vp_arg(2)); vp_sym_bytes(d, "d", n);
    vp_file("rnd.bin", d, n); pbc_random_set_file("rnd.bin"); bits = mpz_sizeinbase(p, 2); nb = (bits + 7) / 8; mpz_set_si(z, -1); mpz_set_si(w, -1);
    for (i = 0; i + nb <= n && mpz_sgn(w) < 0; i += nb) { long x = 0; int j; for (j = 0; j < nb; j++) x = x * 256 + d[i + j]; if (bits % 8) x %= 1L << bits; if (x < vp_arg(2)) mpz_set_si(w, x); }
    pbc_mpz_random(z, p); if (mpz_sgn(w) >= 0) vp_assert_z(z, w, "first value below the limit"); else vp_assert(mpz_cmp(z, p) < 0, "below the limit");
    if (mpz_sgn(w) < 0) vp_assert(mpz_cmp_si(z, -1) == 0, "nothing made up when the source runs dry");
  } else if (vp_arg(0) == 3) {   /* bit sizes */
    pbc_random_set_function(src, NULL); pbc_mpz_randomb(z, vp_arg(1)); vp_assert_z(z, v, "value chosen by the source"); vp_assert(mpz_sgn(z) >= 0 && mpz_sizeinbase(z, 2) <= (vp_arg(1) ? vp_arg(1) : 1), "bits");
  }
  vp_cover("end");
}
