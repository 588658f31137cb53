/* Tables of elements indexed by a symbolic index: an element "i*P for
   symbolic i" is read from the table of its encodings. */
#ifndef VP_TABLES_H
#define VP_TABLES_H
#include "common.h"
#include "toys.h"
#define TN 96
#define TL 64
typedef struct { int len; unsigned char b[TN][TL]; } vp_tbl;
static inline void tbl_put(vp_tbl *t, int i, element_t e) { t->len = element_length_in_bytes(e); element_to_bytes(t->b[i], e); }
static inline void tbl_get(element_t e, vp_tbl *t, long i) {
  unsigned char buf[TL]; int j; for (j = 0; j < t->len; j++) buf[j] = t->b[i][j];
  element_from_bytes(e, buf);
}
/* group element: entry 0 is the identity, which has no affine encoding */
static inline void tbl_getp(element_t e, vp_tbl *t, long i) { tbl_get(e, t, i ? i : 1); if (!i) element_set0(e); }
static inline int tbl_eq(element_t e, vp_tbl *t, long i) {
  unsigned char buf[TL]; int j, ok = 1; element_to_bytes(buf, e); for (j = 0; j < t->len; j++) ok &= buf[j] == t->b[i][j];
  return ok;
}
#endif
