/* toy curves y^2 = x^3 + a x + b with a textbook reference on machine integers */
#ifndef VP_EC_H
#define VP_EC_H
#include "common.h"
#include "pbc_curve.h"
typedef struct { int p, a, b, n; } vp_ec;
/* n = number of points; 2-torsion: none, one point, all three */
static const vp_ec vp_ecs[] = { {11, 1, 6, 13}, {13, 4, 0, 20}, {23, 1, 1, 28}, {7, 0, 1, 12}, {5, 1, 1, 9}, {13, 12, 0, 8}, {17, 2, 2, 19}, {31, 2, 29, 38} };
#define ECN 40
static vp_ec E; static int ecx[ECN], ecy[ECN], ecn;         /* points 1..n-1; 0 is O */
static unsigned char ecsum[ECN][ECN], ecneg[ECN];
static int ec_find(int x, int y) { int i; for (i = 1; i < ecn; i++) if (ecx[i] == x && ecy[i] == y) return i; return -1; }
static int ec_inv(int v) { int i; v = (v % E.p + E.p) % E.p; for (i = 1; i < E.p; i++) if (v * i % E.p == 1) return i; return 0; }
static int ec_add(int i, int j) {
  int l, x, y, p = E.p; if (!i) return j; if (!j) return i;
  if (ecx[i] == ecx[j]) { if ((ecy[i] + ecy[j]) % p == 0) return 0; l = (3 * ecx[i] * ecx[i] + E.a) * ec_inv(2 * ecy[i]) % p; }
  else l = ((ecy[j] - ecy[i] + p) % p) * ec_inv(ecx[j] - ecx[i]) % p;
  x = ((l * l - ecx[i] - ecx[j]) % p + p) % p; y = ((l * (ecx[i] - x) - ecy[i]) % p + p) % p;
  return ec_find(x, y);
}
static field_t ecF, ecC; 
/* impl: prime field implementation */
static void ec_setup(int which, int impl) {
  int x, y, i, j; mpz_t z, o; element_t a, b;
  E = vp_ecs[which]; ecn = 1;
  for (x = 0; x < E.p; x++) for (y = 0; y < E.p; y++) if ((y * y) % E.p == (x * x * x + E.a * x + E.b) % E.p) { ecx[ecn] = x; ecy[ecn] = y; ecn++; }
  for (i = 0; i < ecn; i++) for (j = 0; j < ecn; j++) { int s = ec_add(i, j); ecsum[i][j] = s; if (!s) ecneg[i] = j; }
  vp_fix_random();
  mpz_init_set_ui(z, E.p); mpz_init_set_ui(o, ecn); vp_fp(ecF, z, impl);
  element_init(a, ecF); element_init(b, ecF); element_set_si(a, E.a); element_set_si(b, E.b);
  field_init_curve_ab(ecC, a, b, o, NULL);
  element_clear(a); element_clear(b); mpz_clear(z); mpz_clear(o);
}
/* point number i through the public byte encoding (p < 256: one byte per coordinate, or as many as the field says) */
static void ec_set(element_t e, long i) {
  unsigned char buf[32]; int n = ecF->fixed_length_in_bytes, k; long q = i ? i : 1;
  for (k = 0; k < 2 * n; k++) buf[k] = 0;
  buf[n - 1] = ecx[q]; buf[2 * n - 1] = ecy[q]; element_from_bytes(e, buf); if (!i) element_set0(e);
}
static int ec_is(element_t e, long i) {
  unsigned char buf[32]; int n = ecF->fixed_length_in_bytes, k, ok = 1, z = element_is0(e);
  if (z) return i == 0;
  element_to_bytes(buf, e);
  for (k = 0; k < n - 1; k++) ok &= !buf[k] & !buf[n + k];
  return (i != 0) & ok & (buf[n - 1] == ecx[i]) & (buf[2 * n - 1] == ecy[i]);
}
#endif
