/* Text conversions.  args: kind, ... */
#include "tower.h"
#include "ec.h"
static int wlen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static int isp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dig(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; if (c >= 'a' && c <= 'z') return c - 'a' + 10; return 99; }
/* every printing routine against the expected text; n: length of the text (concrete) */
static void prints(element_t e, const char *want, int n) {
  int m, i; char *b;
  for (m = 0; m <= n + 2; m++) {
    b = malloc(m ? m : 1); for (i = 0; i < m; i++) b[i] = '~';
    vp_assert(element_snprint(b, m, e) == n, "length of the text"); 
    for (i = 0; i < m && i < n; i++) vp_assert(b[i] == (i == m - 1 ? 0 : want[i]), "text"); if (m > n) vp_assert(b[n] == 0, "terminated"); if (m > n + 1) vp_assert(b[n + 1] == '~', "nothing beyond"); 
    if (!m) b[0] = 0; free(b);
  }
  FILE *f = vp_memfile(); char buf[256]; vp_assert((int) element_out_str(f, 10, e) == n, "characters written"); m = vp_memfile_get(f, buf, 255); vp_assert(m == n, "all of the text written"); for (i = 0; i < n; i++) vp_assert(buf[i] == want[i], "text written");
}
static int num(char *s, long v) { int n = 0; long q = 1; while (q * 10 <= v) q *= 10; for (; q; q /= 10) s[n++] = '0' + (v / q) % 10; s[n] = 0; return n; }
static void fp(void) {          /* prime, implementation, digits: every value with that many digits prints and reads back */
  field_t F; element_t e, f; char w[256]; long lo = 0, hi = 9, x; int n, i; mpz_init(p); vp_prime(p, vp_arg(1)); vp_fp(F, p, vp_arg(2)); element_init(e, F); element_init(f, F);
  for (i = 1; i < vp_arg(3); i++) { lo = lo ? lo * 10 : 10; hi = hi * 10 + 9; } if (mpz_cmp_si(p, hi) <= 0) hi = mpz_get_si(p) - 1;
  x = vp_sym("@x", lo, hi); element_set_si(e, x); n = num(w, x); prints(e, w, vp_arg(3)); element_set_si(f, 2); 
  vp_assert(element_set_str(f, w, 10) == n, "characters read"); vp_assert(!element_cmp(e, f), "same element read back");
}
static void fpany(void) {       /* prime, implementation, base, length, position, low/high half: any character at the position */
  static const char *pat[] = { "", "1", "07", "1 2", "\t905", "1A9z", "31 4159265358979323846264338327950288419716939937510582097494459" };
  field_t F; element_t e, f; char w[80]; int n = wlen(pat[vp_arg(4)]), i, b = vp_arg(3), r, d; mpz_t z; mpz_init(z); mpz_init(p); vp_prime(p, vp_arg(1)); vp_fp(F, p, vp_arg(2)); element_init(e, F); element_init(f, F);
  for (i = 0; i <= n; i++) w[i] = pat[vp_arg(4)][i]; if (n) w[vp_arg(5)] = (char) vp_sym("@c", 0, 127);
  if (!b) b = 10; for (r = 0; w[r]; r++) { if (isp(w[r])) continue; d = dig(w[r]); if (d >= b) break; mpz_mul_ui(z, z, b); mpz_add_ui(z, z, d); }
  mpz_mod(z, z, p); element_set_si(e, 1); vp_assert(element_set_str(e, w, vp_arg(3)) == r, "characters read"); element_to_mpz(T1, e); vp_assert_z(T1, z, "value read"); element_set_mpz(f, z); vp_assert(!element_cmp(e, f), "canonical");
}
static int tower_text(char *w, element_t e, int l, long *v, int *pos) {
  int n = 0, i, d; if (!l) { n = num(w, v[(*pos)++]); return n; }
  d = nc[l] / nc[l - 1]; w[n++] = '['; for (i = 0; i < d; i++) { if (i) { w[n++] = ','; w[n++] = ' '; } n += tower_text(w + n, e, l - 1, v, pos); } w[n++] = ']'; w[n] = 0; return n;
}
static void ext(void) {         /* tower, prime, implementation, varying coordinate, digits */
  element_t e, f; char w[400]; long v[MAXC]; int n, i, pos = 0, r; mpz_init(p); vp_prime(p, vp_arg(2)); build(vp_arg(1), vp_arg(3)); element_init(e, L[nl]); element_init(f, L[nl]);
  for (i = 0; i < nc[nl]; i++) v[i] = i * i % mpz_get_ui(p); v[vp_arg(4)] = vp_arg(5) == 1 ? vp_sym("@x", 0, 9) : vp_sym("@x", 10, mpz_get_ui(p) - 1); 
  for (i = 0; i < nc[nl]; i++) element_set_si(leaf(e, nl, i), v[i]); 
  n = tower_text(w, e, nl, v, &pos); prints(e, w, n); element_set_si(f, 2); r = element_set_str(f, w, 10); vp_assert(r == n, "characters read"); for (i = 0; i < nc[nl]; i++) { element_to_mpz(T1, leaf(f, nl, i)); vp_assert(mpz_cmp_si(T1, v[i]) == 0, "coordinate read back"); } vp_assert(!element_cmp(e, f), "same element read back");
}
static int oncurve(long x, long y) { return (y * y - x * x * x - E.a * x - E.b) % E.p == 0; }
static void curve(void) {       /* curve, implementation, mode */
  element_t e, f; char w[64]; long k, x, y; int n = 0, i, r;
  ec_setup(vp_arg(1), vp_arg(2)); element_init(e, ecC); element_init(f, ecC); 
  if (vp_arg(3) == 0) {         /* every point with coordinates of the given numbers of digits */
    k = vp_sym("@k", 0, ecn - 1); x = ecx[k]; y = ecy[k]; vp_assume(k && (x > 9) == vp_arg(4) && (y > 9) == vp_arg(5)); ec_set(e, k); w[n++] = '['; n += num(w + n, x); w[n++] = ','; w[n++] = ' '; n += num(w + n, y); w[n++] = ']'; w[n] = 0;
    prints(e, w, 6 + vp_arg(4) + vp_arg(5)); ec_set(f, 1); vp_assert(element_set_str(f, w, 10) == n, "characters read"); vp_assert(ec_is(f, k) && !element_cmp(e, f), "same point read back");
  } else if (vp_arg(3) == 1) {  /* the identity */
    prints(e, "O", 1); ec_set(f, 1); vp_assert(element_set_str(f, "O", 10) == 1, "characters read"); vp_assert(element_is0(f), "identity read back"); ec_set(f, 1); element_sub(f, f, f); prints(f, "O", 1);
  } else if (vp_arg(3) == 2) {  /* any coordinates */
    k = vp_sym("@k", 0, 1023); x = k / 32; y = k % 32; w[0] = '['; w[1] = '0' + x / 10; w[2] = '0' + x % 10; w[3] = ','; w[4] = ' '; w[5] = '0' + y / 10; w[6] = '0' + y % 10; w[7] = ']'; w[8] = 0; ec_set(e, 1);
    r = element_set_str(e, w, 10); if (oncurve(x, y)) { vp_assert(r == 8, "characters read"); vp_assert(ec_is(e, ec_find(x % E.p, y % E.p)), "point with these coordinates"); } else vp_assert(r == 0 && element_is0(e), "not on the curve: refused, identity");
  } else {                      /* a point's text with any character at one position */
    i = ecn - 1; w[n++] = '['; n += num(w + n, ecx[i]); w[n++] = ','; w[n++] = ' '; n += num(w + n, ecy[i]); w[n++] = ']'; w[n] = 0; if (vp_arg(4) > n) { vp_cover("end"); return; }
    w[vp_arg(4)] = vp_sym("@c", 0, 127); w[n + 1] = 0; ec_set(e, 1); r = element_set_str(e, w, 10); vp_assert(r >= 0 && r <= wlen(w), "reads within the text"); 
    if (!element_is0(e)) { element_to_mpz(T1, element_x(e)); x = mpz_get_si(T1); element_to_mpz(T1, element_y(e)); y = mpz_get_si(T1); vp_assert(oncurve(x, y) && r > 0, "on the curve"); } else vp_assert(r == 0 || dig(w[0]) == 24 || vp_arg(4) == 0, "a refused text reads nothing");
  }
}
static void fmt(void) {         /* formats with elements, integers and percent signs */
  static const char *fs[] = { "x=%B", "%B", "a%%b %B%%", "%d:%B;", "<%B,%B>", "%s %Zd %B", "100%% sure", "%%%%", "%5d|%B", "%-4d%x %B." };
  field_t F; element_t e, g; char w[64], *b; long x; int n, i, m, j = 0, k = vp_arg(1); mpz_t z; mpz_init_set_si(z, -45); mpz_init(p); vp_prime(p, 3); vp_fp(F, p, 0); element_init(e, F); element_init(g, F); element_set_si(g, 7);
  x = vp_arg(2) ? vp_sym("@x", 10, 58) : vp_sym("@x", 0, 9); element_set_si(e, x);
#define T(str) do { const char *q_ = str; while (*q_) w[j++] = *q_++; } while (0)
#define X do { if (vp_arg(2)) w[j++] = '0' + x / 10; w[j++] = '0' + x % 10; } while (0)
  if (k == 0) { T("x="); X; } if (k == 1) X; if (k == 2) { T("a%b "); X; T("%"); } if (k == 3) { T("-3:"); X; T(";"); } if (k == 4) { T("<"); X; T(",7>"); } if (k == 5) { T("str -45 "); X; } if (k == 6) T("100% sure"); if (k == 7) T("%%"); if (k == 8) { T("   12|"); X; } if (k == 9) { T("12  ff "); X; T("."); } n = j; w[n] = 0;
#define CALL(fn, ...) (k == 3 ? fn(__VA_ARGS__, fs[k], (intptr_t) -3, e) : k == 4 ? fn(__VA_ARGS__, fs[k], e, g) : k == 5 ? fn(__VA_ARGS__, fs[k], "str", z, e) : k == 8 ? fn(__VA_ARGS__, fs[k], (intptr_t) 12, e) : k == 9 ? fn(__VA_ARGS__, fs[k], (intptr_t) 12, (intptr_t) 255, e) : fn(__VA_ARGS__, fs[k], e))
  for (m = 0; m <= n + 2; m++) {
    b = malloc(m + 1); for (i = 0; i <= m; i++) b[i] = '~'; vp_assert(CALL(element_snprintf, b, m) == n, "length of the text");
    for (i = 0; i < m && i <= n; i++) vp_assert(b[i] == (i == m - 1 ? 0 : w[i]), "text"); vp_assert(b[m] == '~', "nothing beyond the buffer"); free(b);
  }
  FILE *f = vp_memfile(); char buf[128]; vp_assert(CALL(element_fprintf, f) == n, "characters written"); m = vp_memfile_get(f, buf, 127); vp_assert(m == n, "all of the text written"); for (i = 0; i < n; i++) vp_assert(buf[i] == w[i], "text written");
}
void vp_main(void) {
  int k = vp_arg(0); mpz_init(T1); if (k == 0) fp(); if (k == 1) fpany(); if (k == 2) ext(); if (k == 3) curve(); if (k == 4) fmt();
  vp_cover("end");
}
