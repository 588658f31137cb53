From f7090d3ebf6d1fd21eaa283c0de584bd806a9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:19 +0000
Subject: [PATCH 01/42] fix: mark the result of halving an odd residue as
 nonzero

fp_halve() left the zero flag of the destination untouched on the odd
branch, so halving into an element holding 0 returned 0.
---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..45ea536 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -241,6 +241,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
 
     mpn_rshift(climb, climb, t, 1);
     if (carry) climb[t - 1] |= ((mp_limb_t) 1) << (sizeof(mp_limb_t) * 8 - 1);
+    cd->flag = 2;
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..a352548 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -291,6 +291,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
 
     mpn_rshift(climb, climb, t, 1);
     if (carry) climb[t - 1] |= ((mp_limb_t) 1) << (sizeof(mp_limb_t) * 8 - 1);
+    cd->flag = 2;
   }
 }
 
-- 
2.43.0


From 4561b5e3a72d68d4a9f712e6bbf48e8ab02b89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:19 +0000
Subject: [PATCH 02/42] fix: keep both carries in Montgomery multiplication

For moduli just below a power of 2^64 the first accumulation can already
overflow the top limb; that carry was lost.
---
 arith/montfp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index a352548..f7977a7 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -344,9 +344,11 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
     u = (z[i] + a[i] * b[0]) * p->negpinv;
+    mp_limb_t carry = z[t + i];
     v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
+    carry = v < carry;
     z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
-    z[t + i + 1] = z[t + i] < v;
+    z[t + i + 1] = carry + (z[t + i] < v);
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From b2cddc5bf480ada38859bb76164bdd0b9487977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:19 +0000
Subject: [PATCH 03/42] fix: honour the zero flag of the second operand in
 fp_cmp

The limbs of an element whose flag says zero are stale or uninitialised.
---
 arith/fasterfp.c | 2 ++
 arith/montfp.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 45ea536..0506852 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -421,6 +421,8 @@ static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   if (!ad->flag) {
     return bd->flag;
+  } else if (!bd->flag) {
+    return ad->flag;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index f7977a7..ea31009 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -453,6 +453,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   if (!ad->flag) return bd->flag;
+  else if (!bd->flag) return ad->flag;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From 9710cd555f8c01ffadfb77484f3b123cdeb2febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:19 +0000
Subject: [PATCH 04/42] fix: clear the nonzero flag when set_mpz reduces to
 zero

---
 arith/fasterfp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 0506852..cf3022a 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -69,9 +69,12 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_t tmp;
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
-    from_mpz(e, tmp);
+    if (!mpz_sgn(tmp)) dp->flag = 0;
+    else {
+      from_mpz(e, tmp);
+      dp->flag = 2;
+    }
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
-- 
2.43.0


From b094ba48cc9357753afc804301b8dac5cf548901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:54 +0000
Subject: [PATCH 05/42] fix: element_mul_si on elliptic curve points

The generic version maps the integer into the group (giving the identity)
and adds it, so every multiple of P came out as P itself.
---
 ecc/curve.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..ce7b73f 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -372,6 +372,15 @@ static inline int point_cmp(point_ptr p, point_ptr q) {
   return element_cmp(p->x, q->x) || element_cmp(p->y, q->y);
 }
 
+static void curve_mul_si(element_ptr c, element_ptr a, signed long int n) {
+  mpz_t z;
+  mpz_init_set_si(z, n);
+  mpz_abs(z, z);
+  element_pow_mpz(c, a, z);
+  if (n < 0) curve_invert(c, c);
+  mpz_clear(z);
+}
+
 static int curve_cmp(element_ptr a, element_ptr b) {
   if (a == b) {
     return 0;
@@ -711,6 +720,7 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
   f->add = f->mul = curve_mul;
   f->multi_add = multi_add;
   f->mul_mpz = element_pow_mpz;
+  f->mul_si = curve_mul_si;
   f->cmp = curve_cmp;
   f->set0 = f->set1 = curve_set1;
   f->is0 = f->is1 = curve_is1;
-- 
2.43.0


From 15d5e358da83cb6fa010f61204f6bf8af2fe807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:52 +0000
Subject: [PATCH 06/42] fix: allocate room for every line in type D and G
 preprocessing

When r = 2^k - 1 the Miller loop stores 2m + 1 lines, one more than was
allocated.
---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..5b5d3dc 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -874,7 +874,7 @@ static void d_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..562ce96 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -696,7 +696,7 @@ static void g_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
-- 
2.43.0


From 7d531316e8f2190bd0c56eed819dd4418318026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:52 +0000
Subject: [PATCH 07/42] fix: use the y-coordinate in the projective Miller loop
 of types D and G

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 5b5d3dc..b8fef91 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -281,7 +281,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 562ce96..e718b91 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -269,7 +269,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From a45cd012e4514ea3e50f0dcb6d7461109d9abef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:50 +0000
Subject: [PATCH 08/42] fix: identity entries in a product of pairings
 contribute 1

element_prod_pairing returned the identity as soon as one of the input
pairs contained an identity, whatever the other pairs were.
---
 include/pbc_pairing.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..39d02e1 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -153,19 +153,25 @@ the groups G1, G2 respectively, and 'out' must belong to the group GT.
 static inline void element_prod_pairing(
     element_t out, element_t in1[], element_t in2[], int n) {
   pairing_ptr pairing = out->field->pairing;
-  int i;
+  int i, trivial = 0;
   PBC_ASSERT(pairing->GT == out->field, "pairing output mismatch");
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
-    }
-    if (element_is0(in2[i])) {
-      element_set0(out);
-      return;
+    if (element_is0(in1[i]) || element_is0(in2[i])) trivial = 1;
+  }
+  if (trivial) {
+    // Pairs containing an identity contribute 1 to the product, and must
+    // not be given to the Miller loop.
+    element_t t;
+    element_init_same_as(t, out);
+    element_set1(out);
+    for(i = 0; i < n; i++) {
+      element_pairing(t, in1[i], in2[i]);
+      element_mul(out, out, t);
     }
+    element_clear(t);
+    return;
   }
   pairing->prod_pairings((element_ptr) out->data, in1, in2, n, pairing);
 }
-- 
2.43.0


From 750d4cb00e05c168b6561a02ed933fc080d88bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:49 +0000
Subject: [PATCH 09/42] fix: batch point doubling and addition with exceptional
 points

element_multi_double and element_multi_add inverted the product of all slope
denominators, so one identity, 2-torsion point or pair with equal
x-coordinates spoiled every result of the batch; doubling also skipped
results whose previous value was the identity.
---
 ecc/curve.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index ce7b73f..7318523 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -220,28 +220,22 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   element_init(e2,q->y->field);
 
   for(i=0; i<n; i++){
-    q=a[i]->data; r=c[i]->data;
+    q=a[i]->data;
     element_init(table[i],q->y->field);
-
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
   }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
   for(i=0; i<n; i++){
     q=a[i]->data;
-    element_double(table[i],q->y);
+    // Points whose double is O take no part in the common inversion.
+    if (q->inf_flag || element_is0(q->y)) element_set1(table[i]);
+    else element_double(table[i],q->y);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
     q=a[i]->data;
     element_mul(table[i],table[i-1],e2);
+    if (q->inf_flag || element_is0(q->y)) continue;
     element_mul(e2,e2,q->y);
     element_double(e2,e2); //e2=e2*2y_j
   }
@@ -250,7 +244,10 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   for(i=0; i<n; i++){
     q=a[i]->data;
     r=c[i]->data;
-    if(r->inf_flag) continue;
+    if (q->inf_flag || element_is0(q->y)) {
+      r->inf_flag = 1;
+      continue;
+    }
 
     //e2=lambda = (3x^2 + a) / 2y
     element_square(e2, q->x);
@@ -280,6 +277,13 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   pbc_free(table);
 }
 
+// The denominator of the slope of the line through p and q, or 1 if p + q
+// needs no such slope.
+static void line_denom(element_t d, point_ptr p, point_ptr q) {
+  if (p->inf_flag || q->inf_flag || !element_cmp(p->x, q->x)) element_set1(d);
+  else element_sub(d, q->x, p->x);
+}
+
 //compute c_i=a_i+b_i at one time.
 static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   int i;
@@ -295,12 +299,12 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   element_init(e2, p->x->field);
 
   element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
+  line_denom(table[0], p, q);
   for(i=1; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
-    element_sub(table[i], q->x, p->x);
+    line_denom(table[i], p, q);
     element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
@@ -308,7 +312,7 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
     p = a[i]->data;
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
-    element_sub(e1, q->x, p->x);
+    line_denom(e1, p, q);
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
   element_set(table[0],e2); //e2 no longer used.
-- 
2.43.0


From 929dde57b839709da3f04b1d72ec29835d20fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 10/42] fix: preprocessed exponentiation by exponents beyond
 the field order

The exponent was reduced modulo the order of the field. For the fields
themselves (as opposed to their groups) this is not a multiple of the
order of the base, so the result was wrong. Use the ordinary routine
for exponents the table does not cover.
---
 arith/field.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..4d864be 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -306,15 +306,19 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+
+  num_lookups = mpz_sizeinbase(n, 2) / base_table->k + 1;
+  if (num_lookups > base_table->num_lookups) {
+    // Beyond the table. We cannot reduce the exponent modulo the order of the
+    // field, because this need not be a multiple of the order of the base.
+    element_pow_mpz(x, base_table->table[0][1], n);
+    mpz_clear(n);
+    return;
   }
 
   element_init(result, x->field);
   element_set1(result);
 
-  num_lookups = mpz_sizeinbase(n, 2) / base_table->k + 1;
-
   for (row = 0; row < num_lookups; row++) {
     word = 0;
     for (s = 0; s < base_table->k; s++) {
-- 
2.43.0


From 51305f3d1c4041e4644222a1c0b0200107acbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 11/42] fix: reduce elements read from bytes modulo p

Bytes of an integer that is not less than p left an unreduced element
(or, for a multiple of p, a zero not marked as such).
---
 arith/fasterfp.c |  7 +------
 arith/montfp.c   | 10 +---------
 arith/naivefp.c  |  1 +
 3 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index cf3022a..eefea44 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -484,7 +484,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  dataptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -492,11 +491,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    from_mpz(a, z);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/montfp.c b/arith/montfp.c
index ea31009..cfee52a 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -500,8 +500,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  fptr p = a->field->data;
-  eptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -509,13 +507,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    mpz_mul_2exp(z, z, p->bytes * 8);
-    mpz_mod(z, z, a->field->order);
-    set_limbs(ad->d, z, p->limbs);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..56fe5b0 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -215,6 +215,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From 39fa801dde2493664f8f51caa3de72581656f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 12/42] fix: byte encoding of the point at infinity

It had the coordinates that happened to be left in the element, and so
was read back as another point.
---
 ecc/curve.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 7318523..78a89b0 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -616,6 +616,17 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // No coordinates: write a pair off the curve, which is read back as O.
+    curve_data_ptr cdp = e->field->data;
+    element_t t;
+    element_init(t, cdp->field);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
-- 
2.43.0


From 5ce0b6867f01b32e277f862bd1d09cdf8837183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 13/42] fix: reject x-coordinates without a point in compressed
 encodings

As for the full encoding, set the element to the point at infinity.
The square root of a nonresidue is not a y-coordinate, and in some
fields computing it does not terminate.
---
 ecc/curve.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 78a89b0..e53f844 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -809,8 +809,10 @@ static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_add(t, t, a);
   element_mul(t, t, x);
   element_add(t, t, b);
-  element_sqrt(p->y, t);
   element_set(p->x, x);
+  // If there is no such point on the curve, set it to O.
+  if (element_is_sqr(t)) element_sqrt(p->y, t);
+  else p->inf_flag = 1;
 
   element_clear(t);
 }
@@ -828,7 +830,9 @@ int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
   len = element_from_bytes(P->x, data);
   point_from_x(P, P->x, cdp->a, cdp->b);
 
-  if (data[len]) {
+  if (P->inf_flag) {
+    // No point has this x-coordinate.
+  } else if (data[len]) {
     if (element_sign(P->y) < 0) element_neg(P->y, P->y);
   } else if (element_sign(P->y) > 0) {
     element_neg(P->y, P->y);
-- 
2.43.0


From 3dedcf138129c76bbe5fd59fcdb073fa59b8d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 14/42] fix: hash values equal to the limit are out of range

The result of pbc_mpz_from_hash must be less than the limit; a naive
field element could end up with the value p.
---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 4d864be..6887cef 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -666,7 +666,7 @@ void pbc_mpz_from_hash(mpz_t z, mpz_t limit,
   PBC_ASSERT(i == count, "did not read whole buffer");
   mpz_import(z, count, 1, 1, 1, 0, buf);
   pbc_free(buf);
-  while (mpz_cmp(z, limit) > 0) {
+  while (mpz_cmp(z, limit) >= 0) {
     mpz_tdiv_q_2exp(z, z, 1);
   }
 }
-- 
2.43.0


From 16ba4dba56461d67d93fbd100cf9cfabaab94b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:19 +0000
Subject: [PATCH 15/42] fix: square roots of base field elements in quadratic
 extensions

The root of an element of the base field is in the base field, or a
multiple of the adjoined square root, and zero for zero. In the latter
cases we divided by its real part, which is zero.
---
 arith/fieldquadratic.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..c34e7ec 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -365,6 +365,19 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   //(take the sign which allows a to exist)
   //and 2ab = y
   element_init(e0, p->x->field);
+  if (element_is0(p->y)) {
+    // One of a, b is zero: we must not divide by it below.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(e0, p->x, nqr);
+      element_sqrt(r->y, e0);
+      element_set0(r->x);
+    }
+    element_clear(e0);
+    return;
+  }
   element_init(e1, e0->field);
   element_init(e2, e0->field);
   element_square(e0, p->x);
@@ -533,6 +546,19 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   // where we choose the sign so that a exists, and 2ab = y.
   // Thus 2b^2 = - (x -+ sqrt(x^2 + y^2)).
   element_init(e0, p->x->field);
+  if (element_is0(p->y)) {
+    // One of a, b is zero: we must not divide by it below.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(e0, p->x);
+      element_sqrt(r->y, e0);
+      element_set0(r->x);
+    }
+    element_clear(e0);
+    return;
+  }
   element_init(e1, e0->field);
   element_init(e2, e0->field);
   element_square(e0, p->x);
-- 
2.43.0


From 1c4cbdac5bf41a3ad79f9d8cabe3d240ec2a74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:19 +0000
Subject: [PATCH 16/42] fix: zero is a square in polynomial extension fields

---
 arith/poly.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..ea0e020 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -619,6 +619,9 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  // 0 is a square.
+  if (element_is0(e)) return 1;
+
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
-- 
2.43.0


From 8dce9c6fed93f0cbd639ff2953b5fc4d41466b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:14 +0000
Subject: [PATCH 17/42] fix: squares in curve groups of even order

In a cyclic group of even order n the squares are the elements whose
n/2-th power is the identity.
---
 ecc/curve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index e53f844..56828cf 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -669,8 +669,7 @@ static int even_curve_is_sqr(element_ptr e) {
 
   mpz_init(z);
   element_init(e1, e->field);
-  mpz_sub_ui(z, e->field->order, 1);
-  mpz_fdiv_q_2exp(z, z, 1);
+  mpz_fdiv_q_2exp(z, e->field->order, 1);
   element_pow_mpz(e1, e, z);
   result = element_is1(e1);
 
-- 
2.43.0


From 9392a4f98d740ab9777b36faad37e022a5e92666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:29 +0000
Subject: [PATCH 18/42] fix: useless collisions in the Pollard rho discrete
 logarithm

When the colliding points carry the same multiple of h the difference is
zero, and dividing by it gave a wrong answer.
---
 arith/dlog.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..ed7b0eb 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -114,6 +114,15 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
     for (i = 0; i < hole->count; i++) {
       snapshot_ptr ss = hole->item[i];
       if (!element_cmp(snark, ss->snark)) {
+        if (!element_cmp(bsum, ss->b)) {
+          //this collision says nothing about x: walk from somewhere else
+          element_random(asum);
+          element_random(bsum);
+          element_pow_zn(g0, g, asum);
+          element_pow_zn(snark, h, bsum);
+          element_mul(snark, snark, g0);
+          break;
+        }
         element_sub(bsum, bsum, ss->b);
         element_sub(asum, ss->a, asum);
         //answer is x such that x * bsum = asum
-- 
2.43.0


From 44c60213b928a3f1699b9e71a8178cbdf72a3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:45 +0000
Subject: [PATCH 19/42] fix: short reads from a file of random bits

A partial read left part of the buffer uninitialized; the failure paths
also leaked the buffer, the integer and the open file.
---
 arith/random.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..6c0ffc1 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,16 +31,19 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
   if (!fp) return;
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
+      fclose(fp);
+      mpz_clear(z);
+      pbc_free(bytes);
       return;
     }
     if (leftover) {
-- 
2.43.0


From 5670cedf41f6dab219380038fd4316f70fd3d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:02 +0000
Subject: [PATCH 20/42] fix: length returned when printing elements of
 quadratic extensions

---
 arith/fieldquadratic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c34e7ec..2b59708 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -90,7 +90,7 @@ static int fq_is1(element_ptr e) {
 }
 
 static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
-  size_t result = 4, status;
+  size_t result, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
   result = element_out_str(stream, base, p->x);
@@ -99,7 +99,7 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
   if (EOF == fputc(']', stream)) return 0;
-  return result + status;
+  return result + status + 4;
 }
 
 static int fq_snprint(char *s, size_t n, element_ptr e) {
-- 
2.43.0


From 1c231927270e69a16b21c050eafb5f1753eb6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:02 +0000
Subject: [PATCH 21/42] fix: malformed strings no longer leave a point off the
 curve

---
 ecc/curve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 56828cf..667713a 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -573,7 +573,6 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp == 'O') {
     return (int)(cp - s + 1);
   }
-  p->inf_flag = 0;
   if (*cp != '[') return 0;
   cp++;
   cp += element_set_str(p->x, cp, base);
@@ -583,6 +582,7 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   cp += element_set_str(p->y, cp, base);
   if (*cp != ']') return 0;
 
+  p->inf_flag = 0;
   if (!curve_is_valid_point(e)) {
     element_set0(e);
     return 0;
-- 
2.43.0


From 47189e93fbbfffbb20c9c603cadef69c99624e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:02 +0000
Subject: [PATCH 22/42] fix: %% in formats for elements prints one percent sign

---
 misc/extend_printf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..57a8328 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -50,7 +50,14 @@ static int do_print(int(*strcb)(void *, char *s),
       }
       if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // "%%" prints one '%'.
+      *(c + 1) = 0;
+      status = strcb(data, start);
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      next = start = c + 2;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From c8be1d89dc0fa683825b9c737a2475c54a6ad736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:12 +0000
Subject: [PATCH 23/42] fix: string conversions in the fast and faster prime
 field implementations

Elements printed as "?" and could not be read from a string when one of
these implementations was selected.
---
 arith/fasterfp.c | 22 ++++++++++++++++++++++
 arith/fastfp.c   | 22 ++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index eefea44..de56115 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -145,6 +145,26 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  mpz_mod(z, z, e->field->order);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_set(element_ptr c, element_ptr a) {
   dataptr ad = a->data;
   dataptr cd = c->data;
@@ -515,6 +535,8 @@ void field_init_faster_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..9658ae1 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -109,6 +109,26 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  mpz_mod(z, z, e->field->order);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_add(element_ptr r, element_ptr a, element_ptr b) {
   fp_field_data_ptr p = r->field->data;
   const size_t t = p->limbs;
@@ -352,6 +372,8 @@ void field_init_fast_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
-- 
2.43.0


From 3dde5c03e9381b90da6bf8af0efcfd16abfd4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:31 +0000
Subject: [PATCH 24/42] fix: keep the leading coefficient of a polynomial
 nonzero

Multiplying by a multiple of the characteristic, and reading bytes with a
zero leading coefficient, gave polynomials with the wrong degree.
---
 arith/poly.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index ea0e020..f778caf 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -279,6 +279,7 @@ static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   for (i=0; i<n; i++) {
     element_mul_mpz(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
@@ -291,6 +292,7 @@ static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
   for (i=0; i<n; i++) {
     element_mul_si(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul(element_ptr r, element_ptr f, element_ptr g) {
@@ -583,6 +585,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From ed73100d2a3fbb4ad0059846b74b4abd35a0f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:31 +0000
Subject: [PATCH 25/42] fix: root of a linear polynomial

poly_findroot() wrote past the coefficients of a ring of degree 1, e.g.
for Hilbert class polynomials of class number 1.
---
 arith/poly.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index f778caf..76477bb 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1654,6 +1654,13 @@ int poly_findroot(element_ptr root, element_ptr poly) {
   element_t p, x, r, fac, g;
   mpz_t q;
 
+  if (poly_degree(poly) == 1) {
+    // The ring modulo a linear polynomial has no room for x.
+    element_div(root, poly_coeff(poly, 0), poly_coeff(poly, 1));
+    element_neg(root, root);
+    return 0;
+  }
+
   mpz_init(q);
   mpz_set(q, poly_base_field(poly)->order);
 
-- 
2.43.0


From 8cb807d375e850349d1188fbfdc7d128d13305c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 26/42] fix: reject pairing parameters that are not numbers

They were silently taken as zero (or, for small integers, anything), and
setting up the pairing then crashed.
---
 ecc/param.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..f4327ed 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -145,7 +145,10 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("bad param: `%s'", key);
+    return 1;
+  }
   return 0;
 }
 
@@ -158,11 +161,12 @@ int lookup_int(int *n, symtab_t tab, const char *key) {
   }
   mpz_init(z);
 
-  mpz_set_str(z, data, 0);
-  *n = (int)mpz_get_si(z);
+  int err = mpz_set_str(z, data, 0);
+  if (err) pbc_error("bad param: `%s'", key);
+  else *n = (int)mpz_get_si(z);
   mpz_clear(z);
 
-  return 0;
+  return err ? 1 : 0;
 }
 
 static int param_set_tab(pbc_param_t par, symtab_t tab) {
-- 
2.43.0


From 015dfa0fd24fe3223decbad23e58024ea2661ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:08 +0000
Subject: [PATCH 27/42] fix: halving and squareness of integers in the ring Z

---
 arith/z.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..733d27f 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -65,7 +65,7 @@ static void z_double(element_ptr n, element_ptr a) {
 }
 
 static void z_halve(element_ptr n, element_ptr a) {
-  mpz_tdiv_q_2exp(n->data, a->data, -1);
+  mpz_tdiv_q_2exp(n->data, a->data, 1);
 }
 
 static void z_mul(element_ptr n, element_ptr a, element_ptr b) {
@@ -124,7 +124,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
-- 
2.43.0


From bcd55397616fed01f12f0d8e955ce238914ebeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:21 +0000
Subject: [PATCH 28/42] fix: byte encoding of integers

The announced length was one byte short when the top bit of the leading
byte was set, zero wrote an uninitialized byte, reading returned a wrong
length and changed its input, and the encoding of multiz integers used the
tagged structure itself as the integer.
---
 arith/multiz.c | 41 ++++++++++++++++++++++++++---------------
 arith/z.c      | 26 +++++++++++++++-----------
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..78dc3cb 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -447,18 +447,24 @@ static int f_cmp(element_ptr x, element_ptr y) {
 
 static void f_field_clear(field_t f) { UNUSED_VAR (f); }
 
+static mpz_ptr constant_term(multiz ep) {
+  while(ep->type == T_ARR) ep = darray_at(ep->a, 0);
+  PBC_ASSERT(T_MPZ == ep->type, "no such type");
+  return ep->z;
+}
+
 // OpenSSL convention:
 //   4 bytes containing length
 //   followed by number in big-endian, most-significant bit set if negative
 //   (prepending null byte if necessary)
 // Positive numbers also the same as mpz_out_raw.
 static int z_to_bytes(unsigned char *data, element_t e) {
-  mpz_ptr z = e->data;
+  mpz_ptr z = constant_term(e->data);
   size_t msb = mpz_sizeinbase(z, 2);
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
+  if (!(msb % 8) || !mpz_sgn(z)) {
     data[4] = 0;
     n++;
   }
@@ -468,7 +474,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   } else {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
   }
-  n += (msb + 7) / 8 - 4;
+  n -= 4;
+  if (mpz_sgn(z)) n += (msb + 7) / 8;
   for (i=0; i<4; i++) {
     data[i] = (unsigned char)(n >> 8 * (3 - i));
   }
@@ -477,15 +484,15 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   return (int)n;
 }
 
-static int z_from_bytes(element_t e, unsigned char *data) {
-  unsigned char *ptr;
+static int z_from_bytes(element_t e, const unsigned char *data) {
+  const unsigned char *ptr;
+  unsigned char c;
   size_t i, n;
-  mpz_ptr z = e->data;
-  mpz_t z1;
+  mpz_t z, z1;
   int neg = 0;
 
   mpz_init(z1);
-  mpz_set_ui(z, 0);
+  mpz_init(z);
 
   ptr = data;
   n = 0;
@@ -493,23 +500,27 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    c = *ptr;
+    if (!i && (c & 128)) {
+      neg = 1;
+      c &= 127;
+    }
+    mpz_set_ui(z1, c);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  f_set_mpz(e, z);
+  mpz_clear(z);
+  return (int)n + 4;
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  // One bit more than the absolute value, for the sign.
+  return (int)(mpz_sizeinbase(constant_term(a->data), 2) / 8 + 1 + 4);
 }
 
 static void f_out_info(FILE *out, field_ptr f) {
diff --git a/arith/z.c b/arith/z.c
index 733d27f..abc4ae9 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -146,7 +146,7 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
+  if (!(msb % 8) || !mpz_sgn(z)) {
     data[4] = 0;
     n++;
   }
@@ -156,7 +156,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   } else {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
   }
-  n += (msb + 7) / 8 - 4;
+  n -= 4;
+  if (mpz_sgn(z)) n += (msb + 7) / 8;
   for (i=0; i<4; i++) {
     data[i] = (unsigned char)(n >> 8 * (3 - i));
   }
@@ -165,8 +166,9 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   return (int)n;
 }
 
-static int z_from_bytes(element_t e, unsigned char *data) {
-  unsigned char *ptr;
+static int z_from_bytes(element_t e, const unsigned char *data) {
+  const unsigned char *ptr;
+  unsigned char c;
   size_t i, n;
   mpz_ptr z = e->data;
   mpz_t z1;
@@ -181,19 +183,20 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    c = *ptr;
+    if (!i && (c & 128)) {
+      neg = 1;
+      c &= 127;
+    }
+    mpz_set_ui(z1, c);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)n + 4;
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -201,7 +204,8 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  // One bit more than the absolute value, for the sign.
+  return (int)(mpz_sizeinbase(a->data, 2) / 8 + 1 + 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From 7c0cc31266fa81d360464b2f3d551bf70bf02045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:21 +0000
Subject: [PATCH 29/42] fix: subtraction of multiz integers and lists

A list minus an integer had the wrong sign in the constant term, an integer
minus a list in all the others.
---
 arith/multiz.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 78dc3cb..a59c3a2 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -205,11 +205,15 @@ static multiz multiz_new_bin(const multiz a, const multiz b,
       fun(x->z, a->z, b->z);
       return x;
     } else {
-      multiz x = multiz_clone(b);
-      multiz z = x;
-      PBC_ASSERT(T_ARR == z->type, "no such type");
-      while(z->type == T_ARR) z = darray_at(z->a, 0);
-      fun(z->z, a->z, z->z);
+      // The integer is a constant term; the other coefficients meet zero.
+      PBC_ASSERT(T_ARR == b->type, "no such type");
+      multiz x = multiz_new_empty_list();
+      multiz zero = multiz_new();
+      int i, n = darray_count(b->a);
+      for(i = 0; i < n; i++) {
+        darray_append(x->a, multiz_new_bin(i ? zero : a, darray_at(b->a, i), fun));
+      }
+      multiz_free(zero);
       return x;
     }
   } else {
@@ -219,7 +223,7 @@ static multiz multiz_new_bin(const multiz a, const multiz b,
       multiz z = x;
       PBC_ASSERT(T_ARR == z->type, "no such type");
       while(z->type == T_ARR) z = darray_at(z->a, 0);
-      fun(z->z, b->z, z->z);
+      fun(z->z, z->z, b->z);
       return x;
     } else {
       PBC_ASSERT(T_ARR == b->type, "no such type");
-- 
2.43.0


From c12a0b97a6cd02497726f063e55a2726b60e503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:45 +0000
Subject: [PATCH 30/42] fix: integers in ternary extension fields

Every integer was mapped to zero, so halving an element or multiplying it by
an integer gave zero.
---
 arith/ternary_extension_field.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..6c3dbba 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -187,6 +187,12 @@ static void gf3m_one(element_t a) {
     *DATA1(a) = 1;
 }
 
+/* $a <- z mod 3$ */
+static void gf3m_set_mpz(element_t a, mpz_t z) {
+    gf3m_zero(a);
+    gf3m_set(a, 0, mpz_fdiv_ui(z, 3));
+}
+
 static int gf3m_is0(element_t e) {
     unsigned i;
     for (i = 0; i < LEN(e) * 2; i++)
@@ -495,6 +501,7 @@ void field_init_gf3m(field_t f, unsigned m, unsigned t) {
     f->set = gf3m_assign;
     f->set0 = gf3m_zero;
     f->set1 = gf3m_one;
+    f->set_mpz = gf3m_set_mpz;
     f->is0 = gf3m_is0;
     f->is1 = gf3m_is1;
     f->add = gf3m_add;
@@ -553,6 +560,12 @@ static void gf32m_set1(element_t e) {
     element_set0(e1);
 }
 
+static void gf32m_set_mpz(element_t e, mpz_t z) {
+    element_ptr e0 = GF32M(e)->_0, e1 = GF32M(e)->_1;
+    element_set_mpz(e0, z);
+    element_set0(e1);
+}
+
 static int gf32m_item_count(element_t e) {
     UNUSED_VAR(e);
     return 2;
@@ -667,6 +680,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->set = gf32m_assign;
     f->set0 = gf32m_set0;
     f->set1 = gf32m_set1;
+    f->set_mpz = gf32m_set_mpz;
     f->random = gf32m_random;
     f->cmp = gf32m_cmp;
     f->add = gf32m_add;
@@ -722,6 +736,13 @@ static void gf33m_set1(element_t e) {
     element_set0(e2);
 }
 
+static void gf33m_set_mpz(element_t e, mpz_t z) {
+    element_ptr e0 = GF33M(e)->_0, e1 = GF33M(e)->_1, e2 = GF33M(e)->_2;
+    element_set_mpz(e0, z);
+    element_set0(e1);
+    element_set0(e2);
+}
+
 static int gf33m_item_count(element_t e) {
     UNUSED_VAR(e);
     return 3;
@@ -934,6 +955,7 @@ void field_init_gf33m(field_t f, field_t b) {
     f->set = gf33m_assign;
     f->set0 = gf33m_set0;
     f->set1 = gf33m_set1;
+    f->set_mpz = gf33m_set_mpz;
     f->random = gf33m_random;
     f->cmp = gf33m_cmp;
     f->add = gf33m_add;
-- 
2.43.0


From 1c8165114b0abf07fc34049c1daca02d2cb6b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:45 +0000
Subject: [PATCH 31/42] fix: inversion and negation in extensions of ternary
 fields

GF(3^{2m}) had no inversion and GF(3^{3m}) no negation, so inverting or
dividing in the target group of a type I pairing called a null pointer.
---
 arith/ternary_extension_field.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 6c3dbba..a78178c 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -666,6 +666,25 @@ static void gf32m_cubic(element_t e, element_t a) {
     element_clear(c1);
 }
 
+/* $e <- a^{-1}$ */
+static void gf32m_invert(element_t e, element_t a) {
+    element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
+            GF32M(e)->_1;
+    field_ptr base = BASE(a);
+    element_t t0, t1;
+    element_init(t0, base);
+    element_init(t1, base);
+    element_mul(t0, a0, a0);
+    element_mul(t1, a1, a1);
+    element_add(t0, t0, t1); // t0 == a0^2 + a1^2
+    element_invert(t0, t0);
+    element_neg(t1, a1);
+    element_mul(e0, a0, t0);
+    element_mul(e1, t1, t0);
+    element_clear(t0);
+    element_clear(t1);
+}
+
 void field_clear_gf32m(field_t f) {
     UNUSED_VAR(f);
 }
@@ -688,6 +707,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->neg = gf32m_neg;
     f->mul = gf32m_mult;
     f->cubic = gf32m_cubic;
+    f->invert = gf32m_invert;
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
     f->out_str = gf32m_out_str;
@@ -795,6 +815,15 @@ static void gf33m_sub(element_t c, element_t a, element_t b) {
     element_sub(c2, a2, b2);
 }
 
+/* $c <- (-a)$ */
+static void gf33m_neg(element_t c, element_t a) {
+    element_ptr a0 = GF33M(a)->_0, a1 = GF33M(a)->_1, a2 = GF33M(a)->_2, c0 =
+            GF33M(c)->_0, c1 = GF33M(c)->_1, c2 = GF33M(c)->_2;
+    element_neg(c0, a0);
+    element_neg(c1, a1);
+    element_neg(c2, a2);
+}
+
 /* $c <- a*b$ */
 static void gf33m_mult(element_t e, element_t a, element_t b) {
     element_ptr a0 = GF33M(a)->_0, a1 = GF33M(a)->_1, a2 = GF33M(a)->_2, b0 =
@@ -960,6 +989,7 @@ void field_init_gf33m(field_t f, field_t b) {
     f->cmp = gf33m_cmp;
     f->add = gf33m_add;
     f->sub = gf33m_sub;
+    f->neg = gf33m_neg;
     f->mul = gf33m_mult;
     f->cubic = gf33m_cubic;
     f->invert = gf33m_invert;
-- 
2.43.0


From 3a64fc51a47ae9f0f26884834bbf73e733a375a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:45 +0000
Subject: [PATCH 32/42] fix: random elements of ternary extension fields

They were taken from rand(), whatever the source of random bits chosen by the
user, and only the lower 31 coefficients of every 64 could be nonzero.
---
 arith/ternary_extension_field.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index a78178c..095c18d 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -22,6 +22,7 @@
 #include "pbc_utils.h"
 #include "pbc_memory.h"
 #include "pbc_field.h"
+#include "pbc_random.h"
 
 typedef unsigned long gf3;
 
@@ -213,20 +214,15 @@ static int gf3m_is1(element_t e) {
 
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
-    /* TODO: use uniform distribution? */
-    params *c = PARAM(a);
-    unsigned rm = c->m % W;
-    const unsigned long i1 = ~0ul;
-    unsigned long i2 = (1ul << rm) - 1;
-    unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
+    params *p = PARAM(a);
     unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
-    }
-    unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    mpz_t z;
+    mpz_init(z);
+    pbc_mpz_random(z, a->field->order);
+    gf3m_zero(a);
+    for (i = 0; i < p->m; i++)
+        gf3m_set(a, i, mpz_tdiv_q_ui(z, z, 3));
+    mpz_clear(z);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
-- 
2.43.0


From f1fb333833a0fc928afd2c073a040d51fd9beeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:45 +0000
Subject: [PATCH 33/42] fix: element_mul_si on points of type I pairings

The generic version maps the integer to the identity and adds it, so every
multiple of P came out as P itself.
---
 ecc/eta_T_3.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..b4747e9 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -185,6 +185,16 @@ static void point_invert(element_ptr e, element_ptr a) {
     }
 }
 
+static void point_mul_si(element_ptr c, element_ptr a, signed long int n) {
+    mpz_t z;
+    mpz_init_set_si(z, n);
+    mpz_abs(z, z);
+    element_pow_mpz(c, a, z);
+    if (n < 0)
+        point_invert(c, c);
+    mpz_clear(z);
+}
+
 static size_t point_out_str(FILE *stream, int base, element_ptr a) {
     point_ptr p = DATA(a);
     size_t size = 0;
@@ -214,6 +224,7 @@ void field_init_eta_T_3(field_t f, field_t base) {
     f->set1 = f->set0 = point_set0;
     f->is1 = f->is0 = point_is0;
     f->mul_mpz = f->pow_mpz;
+    f->mul_si = point_mul_si;
     f->out_str = point_out_str;
     f->field_clear = point_field_clear;
     f->name = "eta_T_3 point group";
-- 
2.43.0


From ec67a561205265bb26ef9043ef1c6ac102c0eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:36 +0000
Subject: [PATCH 34/42] fix: random points of type I pairings

When the random x-coordinate was zero the loop ended early, leaving the point
(0, 0), which is not on the curve.
---
 ecc/eta_T_3.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index b4747e9..3de1295 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -98,8 +98,6 @@ static void point_random(element_t a) {
     element_init(t2, f);
     do {
         element_random(x);
-        if (element_is0(x))
-            continue;
         element_cubic(t, x); // t == x^3
         element_sub(t, t, x); // t == x^3 - x
         element_add(t, t, e1); // t == x^3 - x + 1
-- 
2.43.0


From 99ed017870b5e4c6f1e22345f46e2c6804dd942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:14 +0000
Subject: [PATCH 35/42] fix: GT elements from hashes and random values that are
 zero

Zero is not a root of unity and has no image under the final powering:
hashing zero bytes gave a non-member of GT, or a division by zero.
---
 ecc/pairing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..31c6d7c 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -118,12 +118,16 @@ static void gt_out_info(FILE *out, field_ptr f) {
 static void gt_from_hash(element_ptr e, const void *data, int len) {
   pairing_ptr pairing = e->field->pairing;
   element_from_hash(e->data, data, len);
-  pairing->finalpow(e);
+  // Zero has no image in the group of roots of unity.
+  if (element_is0((element_ptr) e->data)) element_set1(e->data);
+  else pairing->finalpow(e);
 }
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  element_random(e->data);
+  do {
+    element_random(e->data);
+  } while (element_is0((element_ptr) e->data));
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From d637ea5a087f0151f9a598639a19bee9eb9573c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:14 +0000
Subject: [PATCH 36/42] fix: final powering of type G pairings on subfield
 elements

The Lucas chain divides by zero when its argument is 1. Type D already
treats that case apart.
---
 ecc/g_param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/g_param.c b/ecc/g_param.c
index e718b91..1963505 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -411,6 +411,10 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
+  if (element_is1(in)) {
+    element_set(out, in);
+    return;
+  }
   element_t temp;
   element_init_same_as(temp, out);
   element_ptr in0 = element_x(in);
-- 
2.43.0


From 9098e03852196a80cb47a9a5c441acc9da87a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:14 +0000
Subject: [PATCH 37/42] fix: hashing to elements of polynomial extension fields

All coefficients were set to the same hash. Hashing to GT gave 1 for every
input with type D pairings and one fixed element with type F, and divided by
zero with type G.
---
 arith/poly.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arith/poly.c b/arith/poly.c
index 76477bb..9c24623 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -341,11 +341,16 @@ static void polymod_random(element_ptr e) {
 }
 
 static void polymod_from_hash(element_ptr e, const void *data, int len) {
-  // TODO: Improve this.
+  // Spread the data over the coefficients, as quadratic extensions do. If they
+  // were all equal, hashes would lie on one line of the field, which the final
+  // powering of a pairing maps to a single element of GT.
   element_t *coeff = e->data;
   int i, n = polymod_field_degree(e->field);
+  int start = 0;
   for (i=0; i<n; i++) {
-    element_from_hash(coeff[i], data, len);
+    int k = (len - start) / (n - i);
+    element_from_hash(coeff[i], (const char *) data + start, k);
+    start += k;
   }
 }
 
-- 
2.43.0


From b636e738617167b1db9f06d05baa9a13d289efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:12 +0000
Subject: [PATCH 38/42] fix: bit limit of the CM parameter search

Solutions from the first round were reported whatever their size, and the
estimate that ends the search is too generous: group orders above the limit
reached the callback.
---
 ecc/mnt.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..81d93ae 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -200,7 +200,7 @@ void pbc_cm_clear(pbc_cm_t cm) {
 }
 
 static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   int d;
   mpz_t n, l, q;
   mpz_t p;
@@ -273,7 +273,8 @@ static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = 0;
+  if (mpz_sizeinbase(r, 2) <= bitlimit) res = callback(cm, data);
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -313,7 +314,7 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   if (n) for (;;) {
     for (i=0; i<n; i++) {
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
-      res = mnt_step2(callback, data, D, ps->x[i]);
+      res = mnt_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       //compute next solution as follows
       //if p, q is current solution
@@ -343,7 +344,7 @@ toobig:
 }
 
 static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   mpz_t n, x, q;
   mpz_t p;
   mpz_t r, cofac;
@@ -429,7 +430,8 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = 0;
+  if (mpz_sizeinbase(r, 2) <= bitlimit) res = callback(cm, data);
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -466,7 +468,7 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
   n = ps->count;
   if (n) for (;;) {
     for (i=0; i<n; i++) {
-      res = freeman_step2(callback, data, D, ps->x[i]);
+      res = freeman_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       // Compute next solution as follows:
       // If p, q is current solution
-- 
2.43.0


From e3fa98e1692e5a909ca8e4ea748cb946cfcc6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:40 +0000
Subject: [PATCH 39/42] fix: sign in the search for Freeman curves

U = 10 (mod 15) solves the norm equation for 15x + 5 = -U. With x of the
wrong sign 4q - t^2 is not D times a square, so no curve over F_q built from
the discriminant has the order reported.
---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 81d93ae..e54c710 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -355,7 +355,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // 15x + 5 = -U
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From 9aa11002d6309e18e48ab2b604451b9c29cab60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:40 +0000
Subject: [PATCH 40/42] fix: length of the group order of generated type A and
 E parameters

---
 ecc/a_param.c | 2 ++
 ecc/e_param.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..95d470e 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1540,6 +1540,8 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       sp->sign0 = -1;
       mpz_sub_ui(r, r, 1);
     }
+    // 2^(rbits-1) - 1 is too short.
+    if (mpz_sizeinbase(r, 2) != (size_t) rbits) continue;
     if (!mpz_probab_prime_p(r, 10)) continue;
     for (i=0; i<10; i++) {
       int bit;
diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..3572e10 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -955,6 +955,8 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       p->sign0 = -1;
       mpz_sub_ui(r, r, 1);
     }
+    // 2^(rbits-1) - 1 is too short.
+    if (mpz_sizeinbase(r, 2) != (size_t) rbits) continue;
     if (!mpz_probab_prime_p(r, 10)) continue;
     for (i=0; i<10; i++) {
       //use q as a temp variable
-- 
2.43.0


From 9e5fd712b376dbe3e4e674c31a0ac0f2b55d5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:56 +0000
Subject: [PATCH 41/42] fix: points off the curve set from lists of integers

---
 ecc/curve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 667713a..0a51147 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -562,6 +562,8 @@ static void curve_set_multiz(element_ptr a, multiz m) {
     p->inf_flag = 0;
     element_set_multiz(p->x, multiz_at(m, 0));
     element_set_multiz(p->y, multiz_at(m, 1));
+    // As in curve_from_bytes(), a point off the curve becomes O.
+    if (!curve_is_valid_point(a)) element_set0(a);
   }
 }
 
-- 
2.43.0


From 8ec36b38846f3089477a51c97113744661b240a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:10 +0000
Subject: [PATCH 42/42] fix: element_mul_si on elements of GT

The generic routine converts the integer to a group element, which has no
meaning in the group of roots of unity, and multiplies by that.
---
 ecc/pairing.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 31c6d7c..97019ea 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -220,6 +220,15 @@ static void mulg_pow_mpz(element_t x, element_t a, mpz_t n) {
   element_pow_mpz(x->data, a->data, n);
 }
 
+static void mulg_mul_si(element_ptr x, element_ptr a, signed long int n) {
+  mpz_t z;
+  mpz_init_set_si(z, n);
+  mpz_abs(z, z);
+  element_pow_mpz(x->data, a->data, z);
+  if (n < 0) element_invert(x->data, x->data);
+  mpz_clear(z);
+}
+
 static void mulg_pp_init(element_pp_t p, element_t in) {
   p->data = pbc_malloc(sizeof(element_pp_t));
   element_pp_init(p->data, in->data);
@@ -268,6 +277,7 @@ void pairing_GT_init(pairing_ptr pairing, field_t f) {
   gt->add = mulg_mul;
   gt->sub = mulg_div;
   gt->mul_mpz = mulg_pow_mpz;
+  gt->mul_si = mulg_mul_si;
   gt->neg = mulg_invert;
   gt->is0 = mulg_is1;
 
-- 
2.43.0

