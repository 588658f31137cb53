/* Pairing parameters as text.  args: template, position, mode (0 string, 1 buffer cut after the position) */
#include "common.h"
#include "pbc_param.h"
static const char *tx[] = {
  /* 0 */ "type a\nq 59\nh 12\nr 5\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n",
  /* 1 */ "type a1\np 131\nn 33\nl 4\n",
  /* 2 */ " # x\nl 4  n\t0x21\r\np 131 type a1 zz",
  /* 3 */ "type e\nq 101\nr 5\nh 4\na 25\nb 10\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n",
  /* 4 */ "type f\nq 19\nr 13\nb 3\nbeta 2\nalpha0 14\nalpha1 9\n",
  /* 5 */ "type d\nq 17\nn 13\nh 1\nr 13\na 10\nb 1\nk 6\nnk 24130496\nhk 142784\ncoeff0 1\ncoeff1 12\ncoeff2 1\nnqr 3\n",
  /* 6 */ "type g\nq 13\nn 11\nh 1\nr 11\na 8\nb 7\nk 10\nnk 137858187907\nhk 1139323867\ncoeff0 6\ncoeff1 6\ncoeff2 8\ncoeff3 3\ncoeff4 0\nnqr 2\n",
  /* 7 */ "p 7 type a1 #p 9\nn 5 l 2 n 077 p 131#2 q 1 p 139",
  /* 8 */ "type a1 p n n 33 l 4",
  /* 9 */ "type i\nm 97\nt 12\nn 2726865189058261010774960798134976187171462721\nn2 7\n",
};
static const char *keys[][16] = {
  { "a", "q", "h", "r", "exp2", "exp1", "sign1", "sign0", 0 }, { "a1", "p", "n", "l", 0 }, { "e", "q", "r", "h", "a", "b", "exp2", "exp1", "sign1", "sign0", 0 }, { "f", "q", "r", "b", "beta", "alpha0", "alpha1", 0 },
  { "d", "q", "n", "h", "r", "a", "b", "k", "nk", "hk", "coeff0", "coeff1", "coeff2", "nqr", 0 }, { "g", "q", "n", "h", "r", "a", "b", "nk", "hk", "coeff0", "coeff1", "coeff2", "coeff3", "coeff4", "nqr", 0 }, { "i", "m", "t", "n", "n2", 0 }, { 0 } };
static const char *T; static int N; static int ts[64], tl[64], nt;   /* tokens */
static int ws(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static void lex(void) {
  int i = 0; nt = 0;
  for (;;) {
    while (i < N && (ws(T[i]) || T[i] == '#')) { if (T[i] == '#') { while (i < N && T[i] != '\n') i++; } else i++; }
    if (i >= N) return; ts[nt] = i; while (i < N && !ws(T[i])) i++; tl[nt] = i - ts[nt]; nt++;
  }
}
static int is(int t, const char *s) { int i; for (i = 0; i < tl[t]; i++) if (!s[i] || T[ts[t] + i] != s[i]) return 0; return !s[i]; }
static int find(const char *k) { int i, r = -1; for (i = 0; i + 1 < nt; i += 2) if (is(i, k)) r = i + 1; return r; }
void vp_main(void) {
  const char *s = tx[vp_arg(0)]; int x = vp_arg(1), m = vp_arg(2), n = strlen(s), i, j, ok, t, r, len; char *b, *w = malloc(1024), *o = malloc(1024), num[64]; long c; mpz_t z; pbc_param_t par; FILE *f; mpz_init(z);
  pbc_set_msg_to_stderr(0);
  if (x >= n) { vp_cover("end"); return; }
  len = m ? x + 1 : n; b = malloc(len + !m); for (i = 0; i < len; i++) b[i] = s[i]; if (!m) b[len] = 0;
  if (x >= 0) { c = vp_sym("@c", 1, 127); vp_assume(c != '<' && c != '/' && c != '>'); b[x] = c; }
  T = b; N = len; lex(); ok = 0; j = 0;
  t = find("type"); for (i = 0; t >= 0 && keys[i][0]; i++) if (is(t, keys[i][0])) { ok = 1; break; }
  if (ok) {
    const char *q; for (q = "type "; *q; ) w[j++] = *q++; for (q = keys[i][0]; *q; ) w[j++] = *q++; w[j++] = '\n';
    for (r = 1; keys[i][r]; r++) { char v[64]; int l; t = find(keys[i][r]); if (t < 0) { ok = 0; break; } for (l = 0; l < tl[t]; l++) v[l] = T[ts[t] + l]; v[l] = 0; if (mpz_set_str(z, v, 0)) { ok = 0; break; }
      if (i == 4 && r == 7) { vp_assume(mpz_cmp_si(z, 6) == 0); }     /* type d: the number of coefficients is fixed */
      for (q = keys[i][r]; *q; ) w[j++] = *q++; w[j++] = ' '; mpz_get_str(num, 10, z); for (q = num; *q; ) w[j++] = *q++; w[j++] = '\n'; }
    if (i == 4 && find("k") < 0) vp_assume(0);
  }
  r = m ? pbc_param_init_set_buf(par, b, len) : pbc_param_init_set_str(par, b);
  vp_assert(!r == ok, "accepted exactly when complete and well-formed");
  if (!r) { f = vp_memfile(); pbc_param_out_str(f, par); n = vp_memfile_get(f, o, 1023); vp_assert(n == j, "printed parameters: length"); for (i = 0; i < n && i < j; i++) vp_assert(o[i] == w[i], "printed parameters");
    pbc_param_t p2; o[n] = 0; vp_assert(!pbc_param_init_set_str(p2, o), "printed parameters are accepted"); f = vp_memfile(); pbc_param_out_str(f, p2); i = vp_memfile_get(f, w, 1023); vp_assert(i == n && !memcmp(w, o, n), "and read back the same"); pbc_param_clear(p2); pbc_param_clear(par); }
  vp_cover("end");
}
