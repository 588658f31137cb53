/* Fields of characteristic three, the supersingular curve over them and its pairing.  args: mode, m, t, ... */
#include "common.h"
#include "pbc_ternary_extension_field.h"
void field_init_eta_T_3(field_t f, field_t base);
#define MX 130
static int m, t, nb; static signed char xp[3 * MX][MX];
static field_t F, F2, F3; static unsigned char *buf;
/* x^i modulo x^m + x^t + 2 */
static void powers(void) {
  int i, j, c; xp[0][0] = 1;
  for (i = 1; i < 3 * m; i++) { c = xp[i - 1][m - 1]; for (j = m - 1; j > 0; j--) xp[i][j] = xp[i - 1][j - 1]; xp[i][0] = c; if (c) xp[i][t] = (xp[i][t] + 3 - c) % 3; }
}
static void rmul(long *r, const long *a, const long *b) {
  int i, j, l; long s[2 * MX]; for (i = 0; i < 2 * m; i++) s[i] = 0; for (i = 0; i < m; i++) for (j = 0; j < m; j++) s[i + j] += a[i] * b[j];
  for (l = 0; l < m; l++) { r[l] = s[l]; } for (i = m; i < 2 * m - 1; i++) for (l = 0; l < m; l++) if (xp[i][l]) r[l] += s[i] * xp[i][l]; for (l = 0; l < m; l++) r[l] %= 3;
}
static void put(element_t e, const long *c) {
  int i; for (i = 0; i < nb; i++) buf[i] = 0;
  for (i = 0; i < m; i++) { unsigned char *b = buf + i / 64 * 16 + i % 64 / 8 * 2; b[0] |= (c[i] == 1) << (i % 8); b[1] |= (c[i] == 2) << (i % 8); }
  vp_assert(element_from_bytes(e, buf) == nb, "bytes read");
}
static void get(long *c, element_t e) {
  int i; vp_assert(element_to_bytes(buf, e) == nb, "bytes written");
  for (i = 0; i < nb * 4; i++) { unsigned char *b = buf + i / 64 * 16 + i % 64 / 8 * 2; long x = b[0] >> (i % 8) & 1, y = b[1] >> (i % 8) & 1; vp_assert(i < m ? !(x & y) : !(x | y), "well-formed"); if (i < m) c[i] = x + 2 * y; }
}
static void same(element_t e, const long *w, const char *msg) { long c[MX]; int i, z = 1, o = 1; get(c, e); for (i = 0; i < m; i++) { vp_assert(c[i] == w[i], msg); z &= w[i] == 0; o &= w[i] == (i == 0); } vp_assert(!element_is0(e) == !z, "zero test"); vp_assert(!element_is1(e) == !o, "one test"); }
static void init(void) { m = vp_arg(1); t = vp_arg(2); nb = (m + 64) / 64 * 16; buf = malloc(nb); powers(); field_init_gf3m(F, m, t); vp_assert(F->fixed_length_in_bytes == nb, "length of encodings"); }
static long ip(int n) { long r = 1; while (n--) r *= 3; return r; }
/* op, positions: the coefficients of a and of b at these positions take all values */
static const int pos[][2][9] = {
  { { 0, 1, 2, -1 }, { 0, 1, 2, -1 } }, { { 0, 1, 2, 3, 4, -1 }, { 0, 2, 4, -1 } }, { { 0, 1, 2, 3, 4, 5, 6, -1 }, { 6, -1 } },
  { { 0, 31, 62, -1 }, { 1, 61, 62, -1 } }, { { 0, 31, 63, -1 }, { 1, 62, 63, -1 } }, { { 0, 63, 64, 96, -1 }, { 1, 65, 96, -1 } }, { { 0, 63, 64, 127, -1 }, { 1, 65, 127, -1 } }, { { 0, 1, 63, 126, -1 }, { 62, 64, 126, -1 } }, { { 0, 1, 3, 4, 6, -1 }, { 6, -1 } }, { { 64, 96, -1 }, { 0, -1 } }, { { 63, 127, -1 }, { 0, -1 } }, { { 1, 126, -1 }, { 0, -1 } } };
static void field(void) {
  int op = vp_arg(3), s = vp_arg(4), na, nbb, i, j, l, al; long k, a[MX], b[MX], r[MX], q; element_t x, y, z; const int *pa = pos[s][0], *pb = pos[s][1]; mpz_t n; mpz_init(n);
  for (na = 0; pa[na] >= 0; na++) ; for (nbb = 0; pb[nbb] >= 0; nbb++) ; for (i = 0; i < MX; i++) a[i] = b[i] = r[i] = 0;
  k = vp_sym("@k", 0, ip(na + ((op > 2 && op < 9) || op == 12 ? 0 : nbb)) - 1); q = k; for (i = 0; i < na; i++) { a[pa[i]] = q % 3; q /= 3; } for (i = 0; i < nbb; i++) { b[pb[i]] = q % 3; q /= 3; }
  if (op == 0) for (i = 0; i < m; i++) r[i] = (a[i] + b[i]) % 3; if (op == 1) for (i = 0; i < m; i++) r[i] = (a[i] + 3 - b[i]) % 3;
  if (op == 2) { for (i = 0; i < na; i++) for (j = 0; j < nbb; j++) for (l = 0; l < m; l++) if (xp[pa[i] + pb[j]][l]) r[l] += a[pa[i]] * b[pb[j]] * xp[pa[i] + pb[j]][l]; for (l = 0; l < m; l++) r[l] %= 3; }
  if (op == 3) for (i = 0; i < m; i++) r[i] = (3 - a[i]) % 3; if (op == 4 || op == 8) for (i = 0; i < m; i++) r[i] = 2 * a[i] % 3; if (op == 9 || op == 10) for (i = 0; i < m; i++) r[i] = (9 + (k % 9 - 4)) * a[i] % 3;
  if (op == 5) { for (i = 0; i < na; i++) for (l = 0; l < m; l++) if (xp[3 * pa[i]][l]) r[l] += a[pa[i]] * xp[3 * pa[i]][l]; for (l = 0; l < m; l++) r[l] %= 3; }
  if (op == 6) { for (i = 0; i < na; i++) for (j = 0; j < na; j++) for (l = 0; l < m; l++) if (xp[pa[i] + pa[j]][l]) r[l] += a[pa[i]] * a[pa[j]] * xp[pa[i] + pa[j]][l]; for (l = 0; l < m; l++) r[l] %= 3; }
  if (op == 7) { for (i = 0, j = 0; i < na; i++) j |= a[pa[i]] != 0; vp_assume(j); }
  element_init(x, F); element_init(y, F); element_init(z, F);
  for (al = 0; al < 3; al++) {
    element_ptr d = al == 0 ? z : al == 1 ? x : y; put(x, a); put(y, b); element_set1(z); same(x, a, "read"); 
    if (op == 0) element_add(d, x, y); if (op == 1) element_sub(d, x, y); if (op == 2) element_mul(d, x, y); if (op == 3) element_neg(d, x); if (op == 4) element_double(d, x); if (op == 5) element_cubic(d, x); if (op == 6) element_square(d, x); if (op == 7) element_invert(d, x);
    if (op == 8) element_halve(d, x); if (op == 9) element_mul_si(d, x, k % 9 - 4); if (op == 10) { mpz_set_si(n, k % 9 - 4); element_mul_mpz(d, x, n); }
    if (op == 7) { long c[MX]; get(c, d); for (i = 0; i < m; i++) r[i] = 0; for (i = 0; i < na; i++) for (j = 0; j < m; j++) for (l = 0; l < m; l++) if (xp[pa[i] + j][l]) r[l] += a[pa[i]] * c[j] * xp[pa[i] + j][l]; for (l = 0; l < m; l++) vp_assert(r[l] % 3 == (l == 0), "product with the inverse is one"); }
    else if (op == 11) { int eq = 1; for (i = 0; i < m; i++) eq &= a[i] == b[i]; vp_assert(!element_cmp(x, y) == eq, "comparison"); element_set(d, x); same(d, a, "copy"); element_set0(d); for (i = 0; i < m; i++) r[i] = 0; same(d, r, "zero"); element_set1(d); r[0] = 1; same(d, r, "one"); element_set_si(d, k % 9 - 4); r[0] = (k % 9 + 5) % 3; same(d, r, "integer"); }
    else if (op == 12) { element_square(d, x); element_sqrt(d, d); long c[MX]; int p = 1, g = 1; get(c, d); for (i = 0; i < m; i++) { p &= c[i] == a[i]; g &= c[i] == (3 - a[i]) % 3; } vp_assert(p | g, "square root of a square"); }
    else same(d, r, "result"); 
    if (d != x && op != 12) same(x, a, "first operand kept"); if (d != y && op != 12) same(y, b, "second operand kept");
  }
  element_clear(x); element_clear(y); element_clear(z);
}
/* towers: kind 2, 3 or 6; op; varying coordinate of a, of b */
static int kind; 
static element_ptr leaf(element_t e, int i) { return kind == 6 ? element_item(element_item(e, i / 2), i % 2) : element_item(e, i); }
typedef long tel[6][8];
static void tacc(tel r, int pd, int sd, const long *v, int sg) { /* add sg * v * p^pd * s^sd */
  int l; if (sd == 2) { tacc(r, pd, 0, v, -sg); return; } if (pd >= 3) { tacc(r, pd - 2, sd, v, sg); tacc(r, pd - 3, sd, v, sg); return; }
  int i = kind == 6 ? pd * 2 + sd : kind == 3 ? pd : sd; for (l = 0; l < m; l++) r[i][l] = (r[i][l] + 3 + sg * v[l]) % 3;
}
static int P(int i) { return kind == 6 ? i / 2 : kind == 3 ? i : 0; }
static int S(int i) { return kind == 6 ? i % 2 : kind == 3 ? 0 : i; }
static void tmul(tel r, tel a, tel b) { int i, j; long v[8]; for (i = 0; i < kind; i++) for (j = 0; j < m; j++) r[i][j] = 0; for (i = 0; i < kind; i++) for (j = 0; j < kind; j++) { rmul(v, a[i], b[j]); tacc(r, P(i) + P(j), S(i) + S(j), v, 1); } }
static void tput(element_t e, tel a) { int i; for (i = 0; i < kind; i++) put(leaf(e, i), a[i]); }
static void tsame(element_t e, tel w, const char *msg) { int i, l, z = 1, o = 1; for (i = 0; i < kind; i++) { same(leaf(e, i), w[i], msg); for (l = 0; l < m; l++) { z &= w[i][l] == 0; o &= w[i][l] == (i + l == 0); } } vp_assert(!element_is0(e) == !z, "zero test"); vp_assert(!element_is1(e) == !o, "one test"); }
static void tower(void) {
  int op, ia, ib, i, j, al; long k, q; tel a, b, r, u; element_t x, y, z; field_ptr E; mpz_t n; mpz_init(n); kind = vp_arg(3); op = vp_arg(4); ia = vp_arg(5); ib = vp_arg(6);
  if (kind == 2 || kind == 6) { field_init_gf32m(F2, F); E = F2; } if (kind == 3) { field_init_gf33m(F3, F); E = F3; } if (kind == 6) { field_init_gf33m(F3, F2); E = F3; }
  for (i = 0; i < 6; i++) for (j = 0; j < 8; j++) { a[i][j] = vp_arg(7) ? 0 : (i + i * j + 1) % 3; b[i][j] = vp_arg(7) ? 0 : (i * i + j * 2 + i) % 3; r[i][j] = 0; }
  k = vp_sym("@k", 0, ip(m > 3 ? kind == 6 ? m : m + 1 : 2 * m) - 1); q = k; for (j = 0; j < m; j++) { a[ia][j] = q % 3; q /= 3; } for (j = 0; j < m && (m < 4 || j < 2); j++) { if (op == 7) a[ib][j] = q % 3; else b[ib][j] = q % 3; q /= 3; }
  if (op == 2) tmul(r, a, b); if (op == 6) tmul(r, a, a); if (op == 5) { tmul(u, a, a); tmul(r, u, a); } for (i = 0; i < kind; i++) for (j = 0; j < m; j++) { if (op == 0) r[i][j] = (a[i][j] + b[i][j]) % 3; if (op == 1) r[i][j] = (a[i][j] + 3 - b[i][j]) % 3; if (op == 3) r[i][j] = (3 - a[i][j]) % 3; if (op == 4 || op == 8) r[i][j] = 2 * a[i][j] % 3; if (op == 9 || op == 10) r[i][j] = (9 + (k % 9 - 4)) * a[i][j] % 3; }
  if (op == 7) { for (i = 0, al = 0; i < kind; i++) for (j = 0; j < m; j++) al |= a[i][j] != 0; vp_assume(al); }
  element_init(x, E); element_init(y, E); element_init(z, E); vp_assert(element_item_count(x) == (kind == 6 ? 3 : kind), "coordinates"); 
  for (al = 0; al < 3; al++) {
    element_ptr d = al == 0 ? z : al == 1 ? x : y; tput(x, a); tput(y, b); element_set1(z); tsame(x, a, "coordinates");
    if (op == 0) element_add(d, x, y); if (op == 1) element_sub(d, x, y); if (op == 2) element_mul(d, x, y); if (op == 3) element_neg(d, x); if (op == 4) element_double(d, x); if (op == 5) element_cubic(d, x); if (op == 6) element_square(d, x); if (op == 7) element_invert(d, x);
    if (op == 8) element_halve(d, x); if (op == 9) element_mul_si(d, x, k % 9 - 4); if (op == 10) { mpz_set_si(n, k % 9 - 4); element_mul_mpz(d, x, n); }
    if (op == 7) { for (i = 0; i < kind; i++) get(u[i], leaf(d, i)); tmul(r, a, u); for (i = 0; i < kind; i++) for (j = 0; j < m; j++) vp_assert(r[i][j] == (i + j == 0), "product with the inverse is one"); }
    else if (op == 11) { int eq = 1; for (i = 0; i < kind; i++) for (j = 0; j < m; j++) eq &= a[i][j] == b[i][j]; vp_assert(!element_cmp(x, y) == eq, "comparison"); element_set(d, x); tsame(d, a, "copy"); element_set0(d); for (i = 0; i < kind; i++) for (j = 0; j < m; j++) r[i][j] = 0; tsame(d, r, "zero"); element_set1(d); r[0][0] = 1; tsame(d, r, "one"); element_set_si(d, k % 9 - 4); r[0][0] = (k % 9 + 5) % 3; tsame(d, r, "integer"); }
    else tsame(d, r, "result");
    if (d != x) tsame(x, a, "first operand kept"); if (d != y) tsame(y, b, "second operand kept");
  }
}
/* points of y^2 = x^3 - x + 1 */
typedef struct { int isinf; element_t x, y; } pt;
#define PT(e) ((pt *) (e)->data)
#define MAXN 300
static long X[MAXN][16], Y[MAXN][16]; static int N;
static void rinv(long *r, const long *a) { long e = ip(m) - 2, b[16], w[16]; int i; for (i = 0; i < m; i++) { w[i] = i == 0; b[i] = a[i]; } while (e) { if (e & 1) rmul(w, w, b); rmul(b, b, b); e >>= 1; } for (i = 0; i < m; i++) r[i] = w[i]; }
static int eq(const long *a, const long *b) { int i; for (i = 0; i < m; i++) if (a[i] != b[i]) return 0; return 1; }
/* next multiple: (x3,y3) = (x1,y1) + (X[1],Y[1]); 0 if the identity */
static int radd(long *x3, long *y3, const long *x1, const long *y1) {
  long l[16], v[16], w[16]; int i; 
  if (eq(x1, X[1])) { for (i = 0; i < m; i++) v[i] = (y1[i] + Y[1][i]) % 3; for (i = 0; i < m && !v[i]; i++) ; if (i == m) return 0; for (i = 0; i < m; i++) w[i] = 2 * y1[i] % 3; rinv(v, w); for (i = 0; i < m; i++) l[i] = (3 - v[i]) % 3; }  /* (3x^2 - 1) / 2y */
  else { for (i = 0; i < m; i++) { v[i] = (X[1][i] + 3 - x1[i]) % 3; l[i] = (Y[1][i] + 3 - y1[i]) % 3; } rinv(w, v); rmul(v, l, w); for (i = 0; i < m; i++) l[i] = v[i]; }
  rmul(w, l, l); for (i = 0; i < m; i++) x3[i] = (w[i] + 6 - x1[i] - X[1][i]) % 3; for (i = 0; i < m; i++) v[i] = (x1[i] + 3 - x3[i]) % 3; rmul(w, l, v); for (i = 0; i < m; i++) y3[i] = (w[i] + 3 - y1[i]) % 3; return 1;
}
static void points(int want) {   /* multiples of a point of the wanted order */
  long c, q = ip(m), s[16], v[16], e; int i;
  for (c = 0; c < q; c++) {
    for (i = 0, e = c; i < m; i++) { X[1][i] = e % 3; e /= 3; } rmul(v, X[1], X[1]); rmul(s, v, X[1]); for (i = 0; i < m; i++) s[i] = (s[i] + 3 - X[1][i] + (i == 0)) % 3;
    { long w[16], b[16]; for (i = 0; i < m; i++) { w[i] = i == 0; b[i] = s[i]; } e = (q + 1) / 4; while (e) { if (e & 1) rmul(w, w, b); rmul(b, b, b); e >>= 1; } for (i = 0; i < m; i++) Y[1][i] = w[i]; }
    rmul(v, Y[1], Y[1]); if (!eq(v, s)) continue;
    for (N = 2; N < MAXN && radd(X[N], Y[N], X[N - 1], Y[N - 1]); N++) ; if (N == want) return;
  }
  vp_assert(0, "a point of the wanted order");
}
static unsigned char tx[MAXN][16], ty[MAXN][16];
static void enc(void) { int i, j; for (i = 1; i < N; i++) { for (j = 0; j < 16; j++) tx[i][j] = ty[i][j] = 0; for (j = 0; j < m; j++) { unsigned char *b = tx[i] + j / 8 * 2, *d = ty[i] + j / 8 * 2; b[0] |= (X[i][j] == 1) << (j % 8); b[1] |= (X[i][j] == 2) << (j % 8); d[0] |= (Y[i][j] == 1) << (j % 8); d[1] |= (Y[i][j] == 2) << (j % 8); } } }
static void pset(element_t e, long i) { int j; unsigned char d[16]; for (j = 0; j < 16; j++) d[j] = tx[i][j]; element_from_bytes(PT(e)->x, d); for (j = 0; j < 16; j++) d[j] = ty[i][j]; element_from_bytes(PT(e)->y, d); PT(e)->isinf = i == 0; }
static int pis(element_t e, long i) { int j, ok = 1; unsigned char d[16]; if (i == 0 || element_is0(e)) return i == 0 && element_is0(e); element_to_bytes(d, PT(e)->x); for (j = 0; j < 16; j++) ok &= d[j] == tx[i][j]; element_to_bytes(d, PT(e)->y); for (j = 0; j < 16; j++) ok &= d[j] == ty[i][j]; return ok; }
static void split(long k, long *i, long *j) { if (!vp_is_sym()) { *i = k / N; *j = k % N; return; } *i = vp_sym("i", 0, N - 1); *j = vp_sym("j", 0, N - 1); vp_assume(k == *i * N + *j); }
static void group(void) {        /* order, op */
  field_t C; element_t a, b, c; long k, i, j, r; int op = vp_arg(4), al; mpz_t n; mpz_init(n); field_init_eta_T_3(C, F); points(vp_arg(3)); enc(); element_init(a, C); element_init(b, C); element_init(c, C); vp_assert(element_is0(a), "initial value");
  k = vp_sym("@k", 0, (long) N * N - 1); i = k / N; j = k % N; r = op == 0 ? (i + j) % N : op == 1 ? (i + N - j) % N : op == 2 ? (N - i) % N : op == 3 ? 2 * i % N : op == 4 || op == 5 ? i * j % N : op == 6 ? i * (j + N - 5) % N : i;
  for (al = 0; al < 3; al++) {
    element_ptr d = al == 0 ? c : al == 1 ? a : b; pset(a, i); pset(b, j); pset(c, 3); 
    if (op == 0) { if (al == 1) element_mul(d, a, b); else element_add(d, a, b); } if (op == 1) element_sub(d, a, b); if (op == 2) { if (al) element_neg(d, a); else element_invert(d, a); } if (op == 3) element_double(d, a); if (op == 4) { mpz_set_si(n, j); element_mul_mpz(d, a, n); } if (op == 5) { mpz_set_si(n, j); element_pow_mpz(d, a, n); } if (op == 6) element_mul_si(d, a, j - 5);
    if (op == 7) { element_set(d, a); if (d != b) vp_assert(!element_cmp(a, b) == (i == j), "comparison"); vp_assert(element_is0(a) == (i == 0) && element_is1(a) == (i == 0), "identity test"); }
    vp_assert(pis(d, r), "multiple of the generator"); if (d != a) vp_assert(pis(a, i), "first operand kept"); if (d != b) vp_assert(pis(b, j), "second operand kept");
  }
  element_set0(a); vp_assert(element_is0(a), "identity"); 
}
static const char *par[] = { "type i m 5 t 4 n 31 n2 7", "type i m 5 t 4 n 7 n2 31", "type i m 7 t 2 n 43 n2 49", "type i m 11 t 2 n 7 n2 25411", "type i m 13 t 4 n 7 n2 228073", "type i m 13 t 6 n 79 n2 20209" };
static unsigned char tt[MAXN][96];
static void genc(unsigned char *d, element_t e) { int i; for (i = 0; i < 6; i++) element_to_bytes(d + 16 * i, element_item(element_item(e, i / 2), i % 2)); }
static int gis(element_t e, long i) { unsigned char d[96]; int j, ok = 1; genc(d, e); for (j = 0; j < 96; j++) ok &= d[j] == tt[i][j]; return ok; }
static void pairing(void) {      /* -, -, parameters, mode, number of values of the first index (0: all), exchanged */
  pairing_t pr; element_t G, H, e, w, u; int i, n, mode = vp_arg(4); long k, x, y; kind = 6; vp_fix_random(); vp_assert(!pairing_init_set_str(pr, par[vp_arg(3)]), "parameters accepted"); N = n = mpz_get_si(pr->r);
  element_init_G1(G, pr); element_init_G2(H, pr); element_init_GT(e, pr); element_init_GT(w, pr); element_init_GT(u, pr);
  do element_random(G); while (element_is0(G)); element_pairing(e, G, G); vp_assert(!element_is1(e), "not degenerate"); element_set(H, G); element_set1(u); 
  for (i = 0; i < n; i++) { if (i) { element_to_bytes(tx[i], PT(H)->x); element_to_bytes(ty[i], PT(H)->y); element_add(H, H, G); } genc(tt[i], u); element_mul(u, u, e); } vp_assert(element_is0(H), "order of the generator"); vp_assert(element_is1(u), "order of the value");
  x = vp_arg(5) ? vp_arg(5) : n; k = vp_sym("@k", 0, x * n - 1); if (vp_arg(6)) k = k % n * n + k / n; pset(G, k / n); pset(H, k % n); 
  if (mode == 0) { element_pairing(w, G, H); pairing_apply(u, G, H, pr); split(k, &x, &y); vp_assert(gis(w, x * y % n), "e(iG,jG) = e(G,G)^ij"); vp_assert(gis(u, x * y % n), "pairing_apply agrees"); }
  if (mode == 1) { pairing_pp_t pp; pairing_pp_init(pp, G, pr); pairing_pp_apply(w, H, pp); pairing_pp_apply(u, G, pp); split(k, &x, &y); vp_assert(gis(w, x * y % n), "preprocessed"); vp_assert(gis(u, x * x % n), "second use"); pairing_pp_clear(pp); }
  if (mode == 2) { element_t a[2], b[2]; for (i = 0; i < 2; i++) { element_init_G1(a[i], pr); element_init_G2(b[i], pr); } element_set(a[0], G); element_set(b[0], H); pset(a[1], 2); pset(b[1], 1); element_prod_pairing(w, a, b, 2); element_set(a[1], H); element_set(b[1], H); element_prod_pairing(u, a, b, 2); split(k, &x, &y); vp_assert(gis(w, (x * y + 2) % n), "product"); vp_assert(gis(u, (x * y + y * y) % n), "product"); }
  if (mode == 3) { element_pairing(w, G, H); element_invert(u, w); element_mul(w, w, u); vp_assert(element_is1(w), "inverse in the target group"); element_pairing(w, H, H); element_div(e, u, w); split(k, &x, &y); vp_assert(gis(u, (n * n - x * y) % n), "inverse"); vp_assert(gis(e, (2 * n * n - x * y - y * y) % n), "quotient"); }
}
static unsigned long rv; static int calls;
static void src(mpz_t z, mpz_t lim, void *d) { if (!calls++) mpz_set_ui(z, vp_sym("@r", 0, mpz_get_ui(lim) - 1)); else vp_rnd(z, lim, d); }
static void csrc(mpz_t z, mpz_t lim, void *d) { if (!calls++) mpz_set_ui(z, rv % mpz_get_ui(lim)); else vp_rnd(z, lim, d); }
static unsigned char seen[800];
static void rnd(void) {          /* kind: every element can come up, from the library's random source */
  if (vp_arg(3) == 0) { element_t e; long c[MX], k; int i; element_init(e, F); for (rv = 0; rv < (unsigned long) ip(m); rv++) { calls = 0; pbc_random_set_function(csrc, NULL); element_random(e); vp_assert(calls > 0, "uses the random source"); get(c, e); for (i = m - 1, k = 0; i >= 0; i--) k = 3 * k + c[i]; seen[k]++; } k = vp_sym("@k", 0, ip(m) - 1); vp_assert(seen[k] == 1, "every element is equally likely"); }
  else { pairing_t pr; element_t e, f; vp_fix_random(); pairing_init_set_str(pr, par[vp_arg(3) - 1]); if (vp_arg(4)) { element_init_GT(e, pr); element_init_GT(f, pr); } else { element_init_G1(e, pr); element_init_G1(f, pr); } calls = 0; pbc_random_set_function(src, NULL); element_random(e); vp_assert(calls > 0, "uses the random source"); element_pow_mpz(f, e, pr->r); vp_assert(element_is1(f), "in the group");
    if (!vp_arg(4) && !element_is0(e)) { element_t a, b; element_init_same_as(a, PT(e)->x); element_init_same_as(b, a); element_cubic(a, PT(e)->x); element_sub(a, a, PT(e)->x); element_set1(b); element_add(a, a, b); element_square(b, PT(e)->y); vp_assert(!element_cmp(a, b), "on the curve"); } }
}
void vp_main(void) {
  int k = vp_arg(0); if (k != 3) init();
  if (k == 0) field(); if (k == 1) tower(); if (k == 2) group(); if (k == 3) pairing(); if (k == 4) rnd();
  vp_cover("end");
}
