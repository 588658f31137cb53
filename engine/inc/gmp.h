/* Wrapper used only for the symbolic build: turns GMP's field-peeking macros
   into calls so that the executor can model them exactly. */
#include_next <gmp.h>
#ifndef VP_GMP_WRAP
#define VP_GMP_WRAP
int vp_mpz_sgn(mpz_srcptr);
int vp_mpz_odd_p(mpz_srcptr);
int vp_mpz_even_p(mpz_srcptr);
#undef mpz_sgn
#undef mpz_odd_p
#undef mpz_even_p
#undef mpz_cmp_ui
#undef mpz_cmp_si
#define mpz_sgn(z) vp_mpz_sgn(z)
#define mpz_odd_p(z) vp_mpz_odd_p(z)
#define mpz_even_p(z) vp_mpz_even_p(z)
#define mpz_cmp_ui(z, u) __gmpz_cmp_ui(z, u)
#define mpz_cmp_si(z, u) __gmpz_cmp_si(z, u)
#endif
