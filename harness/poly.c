/* Polynomial rings over prime fields.  args: mode, p, ... */
#include "common.h"
#include "pbc_poly.h"
#define D 12
typedef struct { int n; long c[D]; } rp;            /* reference polynomial; n coefficients, top one nonzero */
static long p; static field_t F, X; static mpz_t Z;
static void norm(rp *a) { while (a->n && a->c[a->n - 1] == 0) a->n--; }
static rp zero(void) { rp r; int i; r.n = 0; for (i = 0; i < D; i++) r.c[i] = 0; return r; }
static rp nth(long k, int n) { rp r = zero(); int i; for (i = 0; i < n; i++) { r.c[i] = k % p; k /= p; } r.n = n; return r; }  /* not normalised */
static void put(element_t e, rp *a, int n) { element_t q; int i; element_init(q, F); element_set0(e); for (i = n - 1; i >= 0; i--) { element_set_si(q, a->c[i]); poly_set_coeff(e, q, i); } element_clear(q); }
/* e equals the reference polynomial (n: upper bound of its number of coefficients) */
static void same(element_t e, rp *a, int n, const char *m) {
  int i, d = 0; for (i = 0; i < n; i++) if (a->c[i]) d = i + 1;
  vp_assert(element_item_count(e) == d, m); vp_assert(poly_degree(e) == d - 1, m); vp_assert(element_is0(e) == (d == 0), "zero test"); vp_assert(element_is1(e) == (d == 1 && a->c[0] == 1), "one test");
  for (i = 0; i < n; i++) if (i < d) { element_to_mpz(Z, element_item(e, i)); vp_assert(mpz_cmp_si(Z, a->c[i]) == 0, m); }
}
static long ipow(long b, int e) { long r = 1; while (e--) r *= b; return r; }
static void arith(void) {      /* coefficients of f, of g, op */
  int nf = vp_arg(3), ng = vp_arg(4), op = vp_arg(5), i, j, al; long k = vp_sym("@k", 0, ipow(p, nf + ng) - 1); rp f = nth(k % ipow(p, nf), nf), g = nth(k / ipow(p, nf), ng), r = zero(); element_t a, b, c, q; mpz_t m; mpz_init(m);
  element_init(a, X); element_init(b, X); element_init(q, F);
  int n = nf > ng ? nf : ng; long s = 0;
  if (op == 0) for (i = 0; i < n; i++) r.c[i] = (f.c[i] + g.c[i]) % p;
  if (op == 1) for (i = 0; i < n; i++) r.c[i] = (f.c[i] + p - g.c[i]) % p;
  if (op == 2) { n = nf + ng; for (i = 0; i < nf; i++) for (j = 0; j < ng; j++) r.c[i + j] = (r.c[i + j] + f.c[i] * g.c[j]) % p; }
  if (op == 3) for (i = 0; i < nf; i++) r.c[i] = (p - f.c[i]) % p;
  if (op == 4) for (i = 0; i < nf; i++) r.c[i] = 2 * f.c[i] % p;
  if (op == 5 || op == 6 || op == 7) { s = ng ? g.c[0] - (op == 7 ? 0 : p) : -1; for (i = 0; i < nf; i++) r.c[i] = (f.c[i] * (s + p)) % p; }
  if (op == 8) { for (i = 0; i < nf; i++) r.c[i] = f.c[i]; }
  if (op == 9) { n = 2 * nf; for (i = 0; i < nf; i++) for (j = 0; j < nf; j++) r.c[i + j] = (r.c[i + j] + f.c[i] * f.c[j]) % p; }
  if (op == 10) { rp t = zero(); int l; n = 3 * nf; for (i = 0; i < nf; i++) for (j = 0; j < nf; j++) t.c[i + j] = (t.c[i + j] + f.c[i] * f.c[j]) % p; for (l = 0; l < 2 * nf; l++) for (i = 0; i < nf; i++) r.c[i + l] = (r.c[i + l] + t.c[l] * f.c[i]) % p; }
  for (al = 0; al < 3; al++) {
    element_ptr d; element_init(c, X); poly_setx(c); put(a, &f, nf); put(b, &g, ng); same(a, &f, nf, "set from coefficients"); d = al == 0 ? c : al == 1 ? a : b;
    if (op == 0) element_add(d, a, b); if (op == 1) element_sub(d, a, b); if (op == 2) element_mul(d, a, b); if (op == 3) element_neg(d, a); if (op == 4) element_double(d, a); if (op == 5) element_mul_si(d, a, s); if (op == 6) { mpz_set_si(m, s); element_mul_mpz(d, a, m); } if (op == 7) { element_set_si(q, s); poly_const_mul(d, q, a); } if (op == 8) element_set(d, a); if (op == 9) element_square(d, a); if (op == 10) { mpz_set_ui(m, 3); element_pow_mpz(d, a, m); }
    same(d, &r, n, "result"); if (d != a) same(a, &f, nf, "first operand kept"); if (d != b) same(b, &g, ng, "second operand kept");
    if (op == 0 && d != b) { put(b, &r, n); vp_assert(!element_cmp(b, d), "equal"); put(b, &g, ng); { int eq = 1; for (i = 0; i < n; i++) eq &= r.c[i] == g.c[i]; vp_assert(!element_cmp(b, d) == eq, "comparison"); } }
    element_clear(c);
  }
}
static void bytes(void) {      /* coefficients: every encoding, leading zeroes included */
  int nf = vp_arg(3), i, w = F->fixed_length_in_bytes; long k = vp_sym("@k", 0, ipow(p, nf) - 1); rp f = nth(k, nf); unsigned char *b = malloc(2 + nf * w), *c; element_t a, e; element_init(a, X); element_init(e, X); poly_setx(a);
  for (i = 0; i < 2 + nf * w; i++) b[i] = 0; b[0] = nf; for (i = 0; i < nf; i++) b[2 + i * w + w - 1] = f.c[i];
  vp_assert(element_from_bytes(a, b) == 2 + nf * w, "bytes read"); same(a, &f, nf, "polynomial read");
  put(e, &f, nf); i = element_length_in_bytes(e); c = malloc(i); vp_assert(element_to_bytes(c, e) == i, "bytes written"); poly_setx(a); vp_assert(element_from_bytes(a, c) == i, "bytes read back"); vp_assert(!element_cmp(a, e), "same polynomial");
}
static unsigned char tab[2200];
static int rem0(rp *f, int d, rp *g, int e) { rp r = *f; int i, j; for (i = d; i >= e; i--) { long c = r.c[i]; for (j = 0; j <= e; j++) r.c[i - e + j] = ((r.c[i - e + j] - c * g->c[j]) % p + p) % p; } for (i = 0; i < e; i++) if (r.c[i]) return 0; return 1; }
static void irred(void) {      /* degree: every monic polynomial */
  int d = vp_arg(3), e; long k, j, N = ipow(p, d); rp f, g; element_t a;
  for (k = 0; k < N; k++) { f = nth(k, d); f.c[d] = 1; tab[k] = d >= 1; for (e = 1; e <= d / 2; e++) for (j = 0; j < ipow(p, e) && tab[k]; j++) { g = nth(j, e); g.c[e] = 1; if (rem0(&f, d, &g, e)) tab[k] = 0; } }
  k = vp_sym("@k", 0, N - 1); f = nth(k, d); f.c[d] = 1; element_init(a, X); put(a, &f, d + 1); vp_assert(!poly_is_irred(a) == !tab[k], "irreducible"); same(a, &f, d + 1, "polynomial kept");
}
static void root(void) {       /* degree: every monic polynomial */
  int d = vp_arg(3), i; long k, x, v, N = ipow(p, d); rp f; element_t a, r; 
  for (k = 0; k < N; k++) { f = nth(k, d); f.c[d] = 1; tab[k] = 0; for (x = 0; x < p; x++) { v = 0; for (i = d; i >= 0; i--) v = (v * x + f.c[i]) % p; if (!v) tab[k] = 1; } }
  k = vp_sym("@k", 0, N - 1); f = nth(k, d); f.c[d] = 1; element_init(a, X); put(a, &f, d + 1); element_init(r, F); i = poly_findroot(r, a);
  vp_assert((i == 0) == tab[k], "root found exactly when there is one"); if (!i) { element_to_mpz(Z, r); x = mpz_get_si(Z); v = 0; for (i = d; i >= 0; i--) v = (v * x + f.c[i]) % p; vp_assert(v == 0 && x >= 0 && x < p, "a root"); } same(a, &f, d + 1, "polynomial kept");
}
static mpz_t prod, lim; static int calls, abortat; static long nn;
static int cb(mpz_t fac, unsigned int mul, void *d) { mpz_t t; mpz_init(t); (void) d; vp_assert(mul >= 1, "multiplicity"); vp_assert(mpz_cmp_ui(fac, 1) > 0, "proper factor"); if (!vp_arg(3) || mpz_cmp(fac, lim) <= 0) vp_assert(mpz_probab_prime_p(fac, 10), "prime factor"); mpz_pow_ui(t, fac, mul); mpz_mul(prod, prod, t); mpz_clear(t); return ++calls == abortat; }
static void tdiv(void) {       /* lo, limit, hi, abort: factorisation of every number of a range; p is unused */
  mpz_t n; int r; mpz_init(prod); mpz_init(lim); mpz_init(n); mpz_set_ui(prod, 1); nn = vp_sym("@n", vp_arg(2), vp_arg(4)); mpz_set_si(n, nn); mpz_set_ui(lim, vp_arg(3)); abortat = vp_arg(5);
  r = pbc_trial_divide(cb, NULL, n, vp_arg(3) ? lim : NULL); if (!r) vp_assert(mpz_cmp_si(prod, nn) == 0, "product of the factors"); vp_assert(r == (abortat && calls == abortat), "stops when asked to"); vp_assert(mpz_cmp_si(n, nn) == 0, "number kept");
}
void vp_main(void) {
  int m = vp_arg(0); mpz_t z; mpz_init(z); mpz_init(Z); p = vp_arg(1); mpz_set_si(z, p); vp_fix_random();
  if (m < 4) { vp_fp(F, z, vp_arg(2)); field_init_poly(X, F); }
  if (m == 0) arith(); if (m == 1) bytes(); if (m == 2) irred(); if (m == 3) root(); if (m == 4) tdiv();
  vp_cover("end");
}
