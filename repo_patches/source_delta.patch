From a358f8dc106b368431ac6401b2f107f959e1c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:05 +0000
Subject: [PATCH 01/56] fix: batch point doubling and addition with neutral,
 equal or opposite members

multi_double left fresh outputs at O and both functions let one member whose
denominator vanishes spoil the simultaneous inversion for all the others.
---
 ecc/curve.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..81022ce 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -222,26 +222,21 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   for(i=0; i<n; i++){
     q=a[i]->data; r=c[i]->data;
     element_init(table[i],q->y->field);
-
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
+    r->inf_flag = q->inf_flag || element_is0(q->y);
   }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
+  //points that double to O contribute the factor 1.
   for(i=0; i<n; i++){
-    q=a[i]->data;
-    element_double(table[i],q->y);
+    q=a[i]->data; r=c[i]->data;
+    if(r->inf_flag) element_set1(table[i]);
+    else element_double(table[i],q->y);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
-    q=a[i]->data;
+    q=a[i]->data; r=c[i]->data;
     element_mul(table[i],table[i-1],e2);
+    if(r->inf_flag) continue;
     element_mul(e2,e2,q->y);
     element_double(e2,e2); //e2=e2*2y_j
   }
@@ -280,6 +275,15 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   pbc_free(table);
 }
 
+// Sets d to x2 - x1, or to 1 when p + q does not need 1/(x2 - x1).
+static void multi_add_denom(element_ptr d, point_ptr p, point_ptr q) {
+  if (!p->inf_flag && !q->inf_flag) {
+    element_sub(d, q->x, p->x);
+    if (!element_is0(d)) return;
+  }
+  element_set1(d);
+}
+
 //compute c_i=a_i+b_i at one time.
 static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   int i;
@@ -295,12 +299,12 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   element_init(e2, p->x->field);
 
   element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
+  multi_add_denom(table[0], p, q);
   for(i=1; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
-    element_sub(table[i], q->x, p->x);
+    multi_add_denom(table[i], p, q);
     element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
@@ -308,7 +312,7 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
     p = a[i]->data;
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
-    element_sub(e1, q->x, p->x);
+    multi_add_denom(e1, p, q);
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
   element_set(table[0],e2); //e2 no longer used.
-- 
2.43.0


From f3e1d999214038b73fc39a12f13e999c6eb4e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 02/56] fix: comparing a nonzero element with zero read zero's
 unused limbs

In the mont and faster implementations the limbs of zero are stale, so
element_cmp(a, 0) could report equality.
---
 arith/fasterfp.c | 2 ++
 arith/montfp.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..37c6a7d 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -420,6 +420,8 @@ static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   if (!ad->flag) {
     return bd->flag;
+  } else if (!bd->flag) {
+    return ad->flag;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..56e6876 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -450,6 +450,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   if (!ad->flag) return bd->flag;
+  else if (!bd->flag) return ad->flag;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From 4110b7f65fd84ad7c16ca332f804cedec2333ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:42 +0000
Subject: [PATCH 03/56] fix: reduce decoded and assigned integers modulo the
 order

Bytes encoding an integer not below the order produced an unreduced element
(naive, faster), and a multiple of the order produced a zero not recognised
as zero (mont, faster).
---
 arith/fasterfp.c | 14 ++++++--------
 arith/montfp.c   | 10 +---------
 arith/naivefp.c  |  1 +
 3 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 37c6a7d..59754f0 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -69,9 +69,12 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_t tmp;
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
-    from_mpz(e, tmp);
+    if (!mpz_sgn(tmp)) dp->flag = 0;
+    else {
+      from_mpz(e, tmp);
+      dp->flag = 2;
+    }
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
@@ -480,7 +483,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  dataptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -488,11 +490,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    from_mpz(a, z);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/montfp.c b/arith/montfp.c
index 56e6876..fc1c8be 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -497,8 +497,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  fptr p = a->field->data;
-  eptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -506,13 +504,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    mpz_mul_2exp(z, z, p->bytes * 8);
-    mpz_mod(z, z, a->field->order);
-    set_limbs(ad->d, z, p->limbs);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..56fe5b0 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -215,6 +215,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From 51ba121e2c7a4dacd2fcfa3fa64f06315cc279ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:57 +0000
Subject: [PATCH 04/56] fix: products of zero divisors modulo a composite order
 are zero

The mont and faster implementations assumed that a product of nonzero elements
is nonzero, which fails for the composite orders of type A1 pairings: the
result was a zero that element_is0 and element_cmp do not recognise.
---
 arith/fasterfp.c | 7 +++++--
 arith/montfp.c   | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 59754f0..10d5351 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -302,7 +302,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
     mpn_mul_n(tmp, ad->d, bd->d, t);
 
     mpn_tdiv_qr(qp, cd->d, 0, tmp, 2 * t, p->primelimbs, t);
-    cd->flag = 2;
+    // The modulus need not be prime.
+    cd->flag = mpn_zero_p(cd->d, t) ? 0 : 2;
 
     pbc_free(buf);
   }
@@ -331,6 +332,7 @@ static void fp_square(element_ptr c, element_ptr a) {
 
     diff = p->limbs - z1->_mp_size;
     if (diff) memset(&z1->_mp_d[z1->_mp_size], 0, diff * sizeof(mp_limb_t));
+    if (!z1->_mp_size) cd->flag = 0;
 
     //mpn_sqr_n() might make the code below faster than the code above
     //but GMP doesn't expose this function
@@ -363,6 +365,7 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
+    if (mpn_zero_p(cd->d, t)) cd->flag = 0;
     if (op < 0) {               //TODO: don't need to check c != 0 this time
       fp_neg(c, c);
     }
@@ -379,8 +382,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     fp_to_mpz(z, a);
     mpz_powm(z, z, op, a->field->order);
     from_mpz(c, z);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index fc1c8be..fd37163 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -372,7 +372,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   } else {
     fptr p = c->field->data;
     mont_mul(cd->d, ad->d, bd->d, p);
-    cd->flag = 2;
+    // The modulus need not be prime.
+    cd->flag = mpn_zero_p(cd->d, p->limbs) ? 0 : 2;
   }
 }
 
@@ -390,8 +391,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     mpz_mul_2exp(z, z, p->bytes * 8);
     mpz_mod(z, z, a->field->order);
     set_limbs(cd->d, z, p->limbs);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
-- 
2.43.0


From 1917011b7c270e0971b8a77453bc956a6c7cb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:57 +0000
Subject: [PATCH 05/56] fix: 0^0 is 1 in every implementation of F_p

mont and faster gave 0 where naive, fast and the generic exponentiation give 1.
---
 arith/fasterfp.c | 6 ++++--
 arith/montfp.c   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 10d5351..620c581 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -375,8 +375,10 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
 static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   dataptr ad = a->data;
   dataptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
-  else {
+  if (!ad->flag) {
+    if (mpz_sgn(op)) cd->flag = 0;
+    else fp_set1(c);
+  } else {
     mpz_t z;
     mpz_init(z);
     fp_to_mpz(z, a);
diff --git a/arith/montfp.c b/arith/montfp.c
index fd37163..ac54a1f 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -382,8 +382,10 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   fptr p = a->field->data;
   eptr ad = a->data;
   eptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
-  else {
+  if (!ad->flag) {
+    if (mpz_sgn(op)) cd->flag = 0;
+    else fp_set1(c);
+  } else {
     mpz_t z;
     mpz_init(z);
     fp_to_mpz(z, a);
-- 
2.43.0


From e3d36fed747abc6cf0f68afc42133d852656d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 06/56] fix: Montgomery multiplication lost a carry for moduli
 close to a power of two

---
 arith/montfp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index ac54a1f..5ed194f 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -343,9 +343,12 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
     u = (z[i] + a[i] * b[0]) * p->negpinv;
-    v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
+    v = z[t + i];
+    z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
+    z[t + i + 1] = z[t + i] < v;  // Either addition may overflow.
+    v = z[t + i];
     z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
-    z[t + i + 1] = z[t + i] < v;
+    z[t + i + 1] += z[t + i] < v;
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From e6c4ed6b946e8c51fc0931658fa8eef7f4e1f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:18 +0000
Subject: [PATCH 07/56] fix: halving an odd element left a zero output marked
 as zero

---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 620c581..a504236 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -240,6 +240,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
diff --git a/arith/montfp.c b/arith/montfp.c
index 5ed194f..bf8afba 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -287,6 +287,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
-- 
2.43.0


From 5a1a62082f3e3634bd3e3f8dd047887e7dabc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:24 +0000
Subject: [PATCH 08/56] fix: halving in Z shifted by -1

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..0799e9a 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -65,7 +65,7 @@ static void z_double(element_ptr n, element_ptr a) {
 }
 
 static void z_halve(element_ptr n, element_ptr a) {
-  mpz_tdiv_q_2exp(n->data, a->data, -1);
+  mpz_tdiv_q_2exp(n->data, a->data, 1);
 }
 
 static void z_mul(element_ptr n, element_ptr a, element_ptr b) {
-- 
2.43.0


From eddbac7970fc58925ee68ce0c5624a4e15df0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 09/56] fix: preprocessed powers reduced the exponent modulo
 the field order

---
 arith/field.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..648e995 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -306,8 +306,13 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+  // The table only covers exponents of a given size. We may not reduce the
+  // exponent modulo the order of the field instead: in multiplicative notation
+  // this is not the order of the group.
+  if (mpz_sgn(n) < 0 || mpz_sizeinbase(n, 2) > (size_t) base_table->bits) {
+    element_pow_mpz(x, base_table->table[0][1], n);
+    mpz_clear(n);
+    return;
   }
 
   element_init(result, x->field);
-- 
2.43.0


From bc5fb38a239da61756202c10cad7a80ecb4b3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:24 +0000
Subject: [PATCH 10/56] fix: machine integers were not reduced modulo one-limb
 primes

---
 arith/fasterfp.c | 18 ++++--------------
 arith/fastfp.c   | 13 ++++---------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index a504236..ad05972 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -79,20 +79,10 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
 }
 
 static void fp_set_si(element_ptr e, signed long int op) {
-  dataptr dp = e->data;
-  if (!op) {
-    dp->flag = 0;
-  } else {
-    const fp_field_data_ptr p = e->field->data;
-    const size_t t = p->limbs;
-    if (op < 0) {
-      mpn_sub_1(dp->d, p->primelimbs, t, -op);
-    } else {
-      dp->d[0] = op;
-      memset(&dp->d[1], 0, sizeof(mp_limb_t) * (t - 1));
-    }
-    dp->flag = 2;
-  }
+  mpz_t tmp;
+  mpz_init_set_si(tmp, op);
+  fp_set_mpz(e, tmp);
+  mpz_clear(tmp);
 }
 
 static void fp_to_mpz(mpz_ptr z, element_ptr e) {
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..db6c497 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -54,15 +54,10 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
 }
 
 static void fp_set_si(element_ptr e, signed long int op) {
-  const fp_field_data_ptr p = e->field->data;
-  const size_t t = p->limbs;
-  mp_limb_t *d = e->data;
-  if (op < 0) {
-    mpn_sub_1(d, p->primelimbs, t, -op);
-  } else {
-    d[0] = op;
-    memset(&d[1], 0, sizeof(mp_limb_t) * (t - 1));
-  }
+  mpz_t tmp;
+  mpz_init_set_si(tmp, op);
+  fp_set_mpz(e, tmp);
+  mpz_clear(tmp);
 }
 
 static void fp_to_mpz(mpz_ptr z, element_ptr a) {
-- 
2.43.0


From cb7bd150fbf6747333e65f0fdc16d07fd6115580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 11/56] fix: testing whether zero is a square leaked an integer

---
 arith/fasterfp.c | 2 +-
 arith/fastfp.c   | 2 +-
 arith/montfp.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ad05972..c203736 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -453,9 +453,9 @@ static int fp_is_sqr(element_ptr a) {
   dataptr ad = a->data;
   int res;
   mpz_t z;
-  mpz_init(z);
   //0 is a square
   if (!ad->flag) return 1;
+  mpz_init(z);
   fp_to_mpz(z, a);
   res = mpz_legendre(z, a->field->order) == 1;
   mpz_clear(z);
diff --git a/arith/fastfp.c b/arith/fastfp.c
index db6c497..1e68063 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -298,9 +298,9 @@ static int fp_sgn_even(element_ptr a) {
 static int fp_is_sqr(element_ptr a) {
   int res;
   mpz_t z;
-  mpz_init(z);
   //0 is a square
   if (fp_is0(a)) return 1;
+  mpz_init(z);
   fp_to_mpz(z, a);
   res = mpz_legendre(z, a->field->order) == 1;
   mpz_clear(z);
diff --git a/arith/montfp.c b/arith/montfp.c
index bf8afba..5927ac5 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -483,9 +483,9 @@ static int fp_is_sqr(element_ptr a) {
   eptr ad = a->data;
   int res;
   mpz_t z;
-  mpz_init(z);
   // 0 is a square.
   if (!ad->flag) return 1;
+  mpz_init(z);
   fp_to_mpz(z, a);
   res = mpz_legendre(z, a->field->order) == 1;
   mpz_clear(z);
-- 
2.43.0


From 14ba51cb51a8bfcb09d9fe8b0b5d5ff28b9323b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 12/56] fix: random source failures leaked the file, a buffer
 and an integer

---
 arith/random.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..395b59c 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,9 +31,9 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
   if (!fp) return;
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
@@ -41,6 +41,9 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   for (;;) {
     if (!fread(bytes, 1, bytecount, fp)) {
       pbc_warn("error reading source of random bits");
+      fclose(fp);
+      mpz_clear(z);
+      pbc_free(bytes);
       return;
     }
     if (leftover) {
-- 
2.43.0


From c4c177f473d2251e765a6e0f40f8315ac5dae022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 13/56] fix: short reads from the random source used
 uninitialised bytes

---
 arith/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/random.c b/arith/random.c
index 395b59c..6c0ffc1 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -39,7 +39,7 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
       fclose(fp);
       mpz_clear(z);
-- 
2.43.0


From ef6e63a97c9358d50c91db73ebbf05eaf27f2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 14/56] fix: singular curve pairing leaked a temporary

---
 ecc/singular.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/singular.c b/ecc/singular.c
index f361a50..5742b3d 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -432,6 +432,7 @@ static void sn_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   sn_miller(e0, pairing->r, in1, curve_x_coord(R), curve_y_coord(R));
   element_invert(e0, e0);
   element_mul(out, out, e0);
+  element_clear(e0);
   //element_pow_mpz(out, out, p->tateexp);
   element_clear(R);
   element_clear(QR);
-- 
2.43.0


From 51094ebf1d7792edfc26b18f13435066b12e603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 15/56] fix: E and F parameter generation leaked the curve and
 base field

---
 ecc/e_param.c | 2 ++
 ecc/f_param.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..8913f69 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1003,5 +1003,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
 
+  field_clear(cc);
+  field_clear(Fq);
   mpz_clear(n);
 }
diff --git a/ecc/f_param.c b/ecc/f_param.c
index a27d585..204c699 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -529,6 +529,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     element_clear(P);
     field_clear(c);
   }
+  element_clear(P);
+  field_clear(c);
   element_to_mpz(b, e1);
   element_clear(e1);
   field_init_quadratic(Fq2, Fq);
-- 
2.43.0


From 1e68773f34d69b3abcba12098961f5741ab38c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:49 +0000
Subject: [PATCH 16/56] fix: preprocessed A1 pairings leaked their line
 coefficients

---
 ecc/a_param.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..fcb2fd3 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1620,11 +1620,31 @@ static void pp2_coeff_set(pp2_coeff_ptr p,
   element_set(p->c, c);
 }
 
+static void pp2_coeff_clear(pp2_coeff_ptr p) {
+  element_clear(p->cx2);
+  element_clear(p->cy2);
+  element_clear(p->cxy);
+  element_clear(p->cx);
+  element_clear(p->cy);
+  element_clear(p->c);
+}
+
 static void a1_pairing_pp_clear(pairing_pp_t p) {
   void **pp = p->data;
-  while (*pp) {
+  mp_bitcnt_t m = (mp_bitcnt_t)mpz_sizeinbase(p->pairing->r, 2);
+  m = (m > 2 ? m - 2 : 0);
+  for (; *pp; pp++) {
+    // Bit m of r tells which kind of coefficients a1_pairing_pp_init() stored.
+    if (m && mpz_tstbit(p->pairing->r, m)) {
+      pp2_coeff_clear(*pp);
+    } else {
+      pp_coeff_ptr ppp = *pp;
+      element_clear(ppp->a);
+      element_clear(ppp->b);
+      element_clear(ppp->c);
+    }
+    if (m) m--;
     pbc_free(*pp);
-    pp++;
   }
   pbc_free(p->data);
 }
-- 
2.43.0


From 118ef84eb6b1b4356d2d95468836180f8f9e27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 17/56] fix: rejected pairing parameters were never released

---
 ecc/param.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..26b8977 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -187,7 +187,10 @@ static int param_set_tab(pbc_param_t par, symtab_t tab) {
     for(i = 0; i < sizeof(funtab)/sizeof(*funtab); i++) {
       if (!strcmp(s, funtab[i].s)) {
         res = funtab[i].fun(par, tab);
-        if (res) pbc_error("bad pairing parameters");
+        if (res) {
+          pbc_error("bad pairing parameters");
+          pbc_param_clear(par);
+        }
         return res;
       }
     }
-- 
2.43.0


From 8c19bf5536388386a59554e0d4454aed67f9f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 18/56] fix: a repeated parameter leaked its earlier value

---
 ecc/param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/param.c b/ecc/param.c
index 26b8977..35bcbf7 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -104,6 +104,8 @@ static void read_symtab(symtab_t tab, const char *input, size_t limit) {
       pbc_free(key);
       break;
     }
+    // A later value replaces an earlier one.
+    if (symtab_has(tab, key)) pbc_free(symtab_at(tab, key));
     symtab_put(tab, pbc_strdup(tok->s), key);
     pbc_free(key);
   }
-- 
2.43.0


From 1aeace6d430f0fa176baebbe899ea18bbddff2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 19/56] fix: parameters that are not numbers were accepted

---
 ecc/param.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ecc/param.c b/ecc/param.c
index 35bcbf7..828bc00 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -147,24 +147,22 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("param is not a number: `%s'", key);
+    return 1;
+  }
   return 0;
 }
 
 int lookup_int(int *n, symtab_t tab, const char *key) {
   mpz_t z;
-  const char *data = lookup(tab, key);
-  if (!data) {
-    pbc_error("missing param: `%s'", key);
-    return 1;
-  }
+  int err;
   mpz_init(z);
-
-  mpz_set_str(z, data, 0);
-  *n = (int)mpz_get_si(z);
+  err = lookup_mpz(z, tab, key);
+  if (!err) *n = (int)mpz_get_si(z);
   mpz_clear(z);
 
-  return 0;
+  return err;
 }
 
 static int param_set_tab(pbc_param_t par, symtab_t tab) {
-- 
2.43.0


From c2873eb51d7ff6e92b6f18ba7985c673182162d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:19 +0000
Subject: [PATCH 20/56] fix: random elements of ternary fields ignored the
 random source

---
 arith/ternary_extension_field.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..8e30f56 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -22,6 +22,7 @@
 #include "pbc_utils.h"
 #include "pbc_memory.h"
 #include "pbc_field.h"
+#include "pbc_random.h"
 
 typedef unsigned long gf3;
 
@@ -207,20 +208,25 @@ static int gf3m_is1(element_t e) {
 
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
-    /* TODO: use uniform distribution? */
     params *c = PARAM(a);
-    unsigned rm = c->m % W;
-    const unsigned long i1 = ~0ul;
-    unsigned long i2 = (1ul << rm) - 1;
     unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
     unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
+    mpz_t limit, z;
+    mpz_init(limit);
+    mpz_init(z);
+    /* the base 3 digits of a random integer below $3^m$ are the coefficients */
+    mpz_ui_pow_ui(limit, 3, c->m);
+    pbc_mpz_random(z, limit);
+    gf3m_zero(a);
+    for (i = 0; i < c->m; i++) {
+        unsigned long digit = mpz_tdiv_q_ui(z, z, 3);
+        if (digit == 1)
+            a1[i / W] |= 1ul << (i % W);
+        else if (digit == 2)
+            a2[i / W] |= 1ul << (i % W);
     }
-    unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    mpz_clear(limit);
+    mpz_clear(z);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
-- 
2.43.0


From 23b09ec500de640e50f35847985b1c8d16f74079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:19 +0000
Subject: [PATCH 21/56] fix: generation of A and E parameters ignored the
 random source

---
 ecc/a_param.c | 22 ++++++++++++++++++----
 ecc/e_param.c | 22 ++++++++++++++++++----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index fcb2fd3..9811d7b 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1,7 +1,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
-#include <stdlib.h> //for rand, pbc_malloc, pbc_free
+#include <stdlib.h> //for pbc_malloc, pbc_free
 #include <string.h> //for strcmp
 #include <gmp.h>
 #include "pbc_utils.h"
@@ -1501,6 +1501,20 @@ int pbc_param_init_a(pbc_param_ptr par, struct symtab_s *tab) {
   return err;
 }
 
+// Uniform in [0, n), from the configured source of random bits.
+static int random_below(int n) {
+  int res;
+  mpz_t z, limit;
+  mpz_init(z);
+  mpz_init(limit);
+  mpz_set_ui(limit, n);
+  pbc_mpz_random(z, limit);
+  res = (int)mpz_get_ui(z);
+  mpz_clear(z);
+  mpz_clear(limit);
+  return res;
+}
+
 void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
   a_param_init(par);
   a_param_ptr sp = par->data;
@@ -1514,7 +1528,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       sp->exp2 = rbits - 1;
       sp->sign1 = 1;
     } else {
@@ -1525,7 +1539,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
 
     //use q as a temp variable
     mpz_set_ui(q, 0);
-    sp->exp1 = (rand() % (sp->exp2 - 1)) + 1;
+    sp->exp1 = random_below(sp->exp2 - 1) + 1;
     mpz_setbit(q, sp->exp1);
     if (sp->sign1 > 0) {
       mpz_add(r, r, q);
@@ -1533,7 +1547,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       sp->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
diff --git a/ecc/e_param.c b/ecc/e_param.c
index 8913f69..1355ea4 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1,7 +1,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
-#include <stdlib.h> //for rand, pbc_malloc, pbc_free
+#include <stdlib.h> //for pbc_malloc, pbc_free
 #include <string.h> //for strcmp
 #include <gmp.h>
 #include "pbc_utils.h"
@@ -905,6 +905,20 @@ int pbc_param_init_e(pbc_param_ptr par, struct symtab_s *tab) {
   return err;
 }
 
+// Uniform in [0, n), from the configured source of random bits.
+static int random_below(int n) {
+  int res;
+  mpz_t z, limit;
+  mpz_init(z);
+  mpz_init(limit);
+  mpz_set_ui(limit, n);
+  pbc_mpz_random(z, limit);
+  res = (int)mpz_get_ui(z);
+  mpz_clear(z);
+  mpz_clear(limit);
+  return res;
+}
+
 void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   e_init(par);
   e_param_ptr p = par->data;
@@ -928,7 +942,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       p->exp2 = rbits - 1;
       p->sign1 = 1;
     } else {
@@ -937,7 +951,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     }
     mpz_setbit(r, p->exp2);
 
-    p->exp1 = (rand() % (p->exp2 - 1)) + 1;
+    p->exp1 = random_below(p->exp2 - 1) + 1;
     //use q as a temp variable
     mpz_set_ui(q, 0);
     mpz_setbit(q, p->exp1);
@@ -948,7 +962,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       p->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
-- 
2.43.0


From bb22b68f6125a2f730a3493ffbf372f7ba8422dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:19 +0000
Subject: [PATCH 22/56] fix: items of nested integers bypassed the configured
 allocator

---
 arith/multiz.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..1034a0d 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -394,7 +394,7 @@ static int f_item_count(element_ptr e) {
 static element_ptr f_item(element_ptr e, int i) {
   multiz z = e->data;
   if (T_MPZ == z->type) return NULL;
-  element_ptr r = malloc(sizeof(*r));
+  element_ptr r = pbc_malloc(sizeof(*r));
   r->field = e->field;
   r->data = darray_at(z->a, i);
   return r;
-- 
2.43.0


From c18818d7bf862de164de953a407e09968d636ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:12 +0000
Subject: [PATCH 23/56] fix: choosing a method for one D, E or G pairing
 changed every other one

---
 ecc/d_param.c | 20 ++++++++++----------
 ecc/e_param.c | 19 +++++++++----------
 ecc/g_param.c | 20 ++++++++++----------
 3 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..19ac8b6 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -48,6 +48,9 @@ typedef struct {
   int k;                      // The embedding degree, usually 6.
   // Let x be the element used to build Fqd from Fq, i.e. Fqd = Fq[x].
   element_t xpowq, xpowq2;    // x^q and x^{2q} in F_q^d.
+  // The Miller loop selected for this pairing.
+  void (*miller_fn)(element_t res, mpz_t q, element_t P,
+      element_ptr Qx, element_ptr Qy);
 } *pptr;
 
 static void d_clear(void *data) {
@@ -421,16 +424,13 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
   #undef do_line
 }
 
-static void (*cc_miller_no_denom_fn)(element_t res, mpz_t q, element_t P,
-    element_ptr Qx, element_ptr Qy);
-
 static void d_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  UNUSED_VAR(pairing);
+  pptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_proj;
+      p->miller_fn = cc_miller_no_denom_proj;
     } else if (!strcmp(value, "miller-affine")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+      p->miller_fn = cc_miller_no_denom_affine;
     }
   }
 }
@@ -580,7 +580,7 @@ static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_mul(Qx, curve_x_coord(Qbase), p->nqrinv);
   // v^-3/2 = v^-2 * v^1/2
   element_mul(Qy, curve_y_coord(Qbase), p->nqrinv2);
-  cc_miller_no_denom_fn(out, pairing->r, in1, Qx, Qy);
+  p->miller_fn(out, pairing->r, in1, Qx, Qy);
   cc_tatepower(out, out, pairing);
   element_clear(Qx);
   element_clear(Qy);
@@ -761,8 +761,8 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  p->miller_fn(t0, pairing->r, a, dx, dy);
+  p->miller_fn(t1, pairing->r, b, cx, cy);
   cc_tatepower(t0, t0, pairing);
   cc_tatepower(t1, t1, pairing);
   element_mul(t2, t0, t1);
@@ -1082,7 +1082,7 @@ static void d_init_pairing(pairing_ptr pairing, void *data) {
   pairing->finalpow = cc_finalpow;
 
   // By default use affine coordinates.
-  cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+  p->miller_fn = cc_miller_no_denom_affine;
   pairing->option_set = d_pairing_option_set;
   pairing->pp_init = d_pairing_pp_init;
   pairing->pp_clear = d_pairing_pp_clear;
diff --git a/ecc/e_param.c b/ecc/e_param.c
index 1355ea4..46c3a63 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -33,6 +33,10 @@ struct e_pairing_data_s {
   int exp2, exp1;
   int sign1, sign0;
   element_t R;
+  // The Miller loop selected for this pairing.
+  void (*miller_fn)(element_t res, element_t P,
+      element_ptr QR, element_ptr R,
+      struct e_pairing_data_s *p);
 };
 typedef struct e_pairing_data_s e_pairing_data_t[1];
 typedef struct e_pairing_data_s *e_pairing_data_ptr;
@@ -465,10 +469,6 @@ static void e_miller_affine(element_t res, element_t P,
   #undef do_line
 }
 
-static void (*e_miller_fn)(element_t res, element_t P,
-    element_ptr QR, element_ptr R,
-    e_pairing_data_ptr p);
-
 static void e_pairing(element_ptr out, element_ptr in1, element_ptr in2,
     pairing_t pairing) {
   e_pairing_data_ptr p = pairing->data;
@@ -476,7 +476,7 @@ static void e_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_t QR;
   element_init(QR, p->Eq);
   element_add(QR, Q, p->R);
-  e_miller_fn(out, in1, QR, p->R, p);
+  p->miller_fn(out, in1, QR, p->R, p);
   element_pow_mpz(out, out, pairing->phikonr);
   element_clear(QR);
 }
@@ -797,15 +797,14 @@ static void phi_identity(element_ptr out, element_ptr in, pairing_ptr pairing) {
 }
 
 static void e_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  //TODO: this affects every type E pairing!
-  UNUSED_VAR(pairing);
+  e_pairing_data_ptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
       pairing->map = e_pairing;
-      e_miller_fn = e_miller_proj;
+      p->miller_fn = e_miller_proj;
     } else if (!strcmp(value, "miller-affine")) {
       pairing->map = e_pairing;
-      e_miller_fn = e_miller_affine;
+      p->miller_fn = e_miller_affine;
     } else if (!strcmp(value, "shipsey-stange")) {
       pairing->map = e_pairing_ellnet;
     }
@@ -838,9 +837,9 @@ static void e_init_pairing(pairing_t pairing, void *data) {
   mpz_set(pairing->r, param->r);
   field_init_fp(pairing->Zr, pairing->r);
   pairing->map = e_pairing;
-  e_miller_fn = e_miller_proj;
 
   p = pairing->data = pbc_malloc(sizeof(e_pairing_data_t));
+  p->miller_fn = e_miller_proj;
   p->exp2 = param->exp2;
   p->exp1 = param->exp1;
   p->sign1 = param->sign1;
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..e9a8e9f 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -40,6 +40,9 @@ struct mnt_pairing_data_s {
   field_t Eq, Etwist;
   element_t nqrinv, nqrinv2;
   element_t xpowq, xpowq2, xpowq3, xpowq4;
+  // The Miller loop selected for this pairing.
+  void (*miller_fn)(element_t res, mpz_t q, element_t P,
+      element_ptr Qx, element_ptr Qy);
 };
 typedef struct mnt_pairing_data_s mnt_pairing_data_t[1];
 typedef struct mnt_pairing_data_s *mnt_pairing_data_ptr;
@@ -535,9 +538,6 @@ static void tatepower10(element_ptr out, element_ptr in, pairing_t pairing) {
   #undef qpower
 }
 
-static void (*cc_miller_no_denom_fn)(element_t res, mpz_t q, element_t P,
-    element_ptr Qx, element_ptr Qy);
-
 static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
     pairing_t pairing) {
   element_ptr Qbase = in2;
@@ -551,7 +551,7 @@ static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_mul(Qx, curve_x_coord(Qbase), p->nqrinv);
   //v^-3/2 = v^-2 * v^1/2
   element_mul(Qy, curve_y_coord(Qbase), p->nqrinv2);
-  cc_miller_no_denom_fn(out, pairing->r, in1, Qx, Qy);
+  p->miller_fn(out, pairing->r, in1, Qx, Qy);
   tatepower10(out, out, pairing);
   element_clear(Qx);
   element_clear(Qy);
@@ -582,8 +582,8 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  p->miller_fn(t0, pairing->r, a, dx, dy);
+  p->miller_fn(t1, pairing->r, b, cx, cy);
   tatepower10(t0, t0, pairing);
   tatepower10(t1, t1, pairing);
   element_mul(t2, t0, t1);
@@ -1147,12 +1147,12 @@ static void g_pairing_clear(pairing_t pairing) {
 }
 
 static void g_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  UNUSED_VAR(pairing);
+  mnt_pairing_data_ptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_proj;
+      p->miller_fn = cc_miller_no_denom_proj;
     } else if (!strcmp(value, "miller-affine")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+      p->miller_fn = cc_miller_no_denom_affine;
     } else if (!strcmp(value, "shipsey-stange")) {
       pairing->map = g_pairing_ellnet;
     }
@@ -1341,7 +1341,7 @@ static void g_init_pairing(pairing_t pairing, void *data) {
   pairing_GT_init(pairing, p->Fqk);
   pairing->finalpow = g_finalpow;
 
-  cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+  p->miller_fn = cc_miller_no_denom_affine;
   pairing->option_set = g_pairing_option_set;
   pairing->pp_init = g_pairing_pp_init;
   pairing->pp_clear = g_pairing_pp_clear;
-- 
2.43.0


From f90f95cdb3fac23972ecf6857f997e4fe9504951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:29 +0000
Subject: [PATCH 24/56] fix: names of many type D coefficients overflowed a
 buffer

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 19ac8b6..a9e5eb8 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -77,7 +77,7 @@ static void d_out_str(FILE *stream, void *data) {
   d_param_ptr p = data;
   int d = p->k / 2;
   int i;
-  char s[8];
+  char s[80];
   param_out_type(stream, "d");
   param_out_mpz(stream, "q", p->q);
   param_out_mpz(stream, "n", p->n);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index e9a8e9f..e8f8832 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -69,7 +69,7 @@ static void g_clear(void *data) {
 static void g_out_str(FILE *stream, void *data) {
   g_param_ptr p = data;
   int i;
-  char s[8];
+  char s[80];
   param_out_type(stream, "g");
   param_out_mpz(stream, "q", p->q);
   param_out_mpz(stream, "n", p->n);
-- 
2.43.0


From 002bea1877243e422ae0829c83cd8b70167ca51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:55 +0000
Subject: [PATCH 25/56] fix: encoding O wrote the coordinates of an earlier
 point

---
 ecc/curve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 81022ce..5564d8d 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -607,6 +607,19 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // O has no coordinates. Write a pair that is not on the curve: from_bytes
+    // turns such pairs into O.
+    curve_data_ptr cdp = e->field->data;
+    element_t t;
+    element_init(t, cdp->field);
+    element_set0(t);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
-- 
2.43.0


From 1ea8167235601a1aacc316db77ff63590e7a6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:55 +0000
Subject: [PATCH 26/56] fix: decoding an x-coordinate of no point gave a point
 off the curve

---
 ecc/curve.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 5564d8d..55d2fa8 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -790,8 +790,7 @@ int element_to_bytes_compressed(unsigned char *data, element_ptr e) {
 }
 
 // Computes a point on the elliptic curve Y^2 = X^3 + a X + b given its
-// x-coordinate.
-// Requires a solution to exist.
+// x-coordinate, or O if there is no such point.
 static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_t t;
 
@@ -801,8 +800,12 @@ static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_add(t, t, a);
   element_mul(t, t, x);
   element_add(t, t, b);
-  element_sqrt(p->y, t);
-  element_set(p->x, x);
+  if (element_is_sqr(t)) {
+    element_sqrt(p->y, t);
+    element_set(p->x, x);
+  } else {
+    p->inf_flag = 1;
+  }
 
   element_clear(t);
 }
@@ -820,6 +823,7 @@ int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
   len = element_from_bytes(P->x, data);
   point_from_x(P, P->x, cdp->a, cdp->b);
 
+  if (P->inf_flag) return len + 1;
   if (data[len]) {
     if (element_sign(P->y) < 0) element_neg(P->y, P->y);
   } else if (element_sign(P->y) > 0) {
-- 
2.43.0


From d4dcd02b66c8da388a1277c5cdfbe62be1ab5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:55 +0000
Subject: [PATCH 27/56] fix: compressing O wrote the x-coordinate of an earlier
 point

---
 ecc/curve.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 55d2fa8..8c354ac 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -779,6 +779,16 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
 int element_to_bytes_compressed(unsigned char *data, element_ptr e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // O has no coordinates: mark it by a third sign.
+    element_t t;
+    element_init(t, P->x->field);
+    element_set0(t);
+    len = element_to_bytes(data, t);
+    element_clear(t);
+    data[len] = 2;
+    return len + 1;
+  }
   len = element_to_bytes(data, P->x);
   if (element_sign(P->y) > 0) {
     data[len] = 1;
@@ -821,6 +831,10 @@ int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
   point_ptr P = e->data;
   int len;
   len = element_from_bytes(P->x, data);
+  if (data[len] == 2) {
+    element_set0(e);
+    return len + 1;
+  }
   point_from_x(P, P->x, cdp->a, cdp->b);
 
   if (P->inf_flag) return len + 1;
-- 
2.43.0


From 77710f6c8ff17c1f4af15862dce0d512764d0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:55 +0000
Subject: [PATCH 28/56] fix: a string that is not a point left a point off the
 curve

---
 ecc/curve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 8c354ac..491149c 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -564,7 +564,6 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp == 'O') {
     return (int)(cp - s + 1);
   }
-  p->inf_flag = 0;
   if (*cp != '[') return 0;
   cp++;
   cp += element_set_str(p->x, cp, base);
@@ -574,6 +573,7 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   cp += element_set_str(p->y, cp, base);
   if (*cp != ']') return 0;
 
+  p->inf_flag = 0;
   if (!curve_is_valid_point(e)) {
     element_set0(e);
     return 0;
-- 
2.43.0


From 43d9c294aa2a51e42293fe13a3abb0e1ab7c1b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:55 +0000
Subject: [PATCH 29/56] fix: coordinates given as integers could be off the
 curve

---
 ecc/curve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 491149c..828c015 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -553,6 +553,10 @@ static void curve_set_multiz(element_ptr a, multiz m) {
     p->inf_flag = 0;
     element_set_multiz(p->x, multiz_at(m, 0));
     element_set_multiz(p->y, multiz_at(m, 1));
+    if (!curve_is_valid_point(a)) {
+      pbc_warn("not a point on the curve");
+      element_set0(a);
+    }
   }
 }
 
-- 
2.43.0


From 4d9f2544dd281318726a556e25b0ae5c4a202c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:55 +0000
Subject: [PATCH 30/56] fix: a random x-coordinate of zero gave a point off the
 curve

---
 ecc/eta_T_3.c  | 6 +++---
 ecc/singular.c | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..99888d8 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -97,9 +97,9 @@ static void point_random(element_t a) {
     element_set1(e1);
     element_init(t2, f);
     do {
-        element_random(x);
-        if (element_is0(x))
-            continue;
+        do {
+            element_random(x);
+        } while (element_is0(x));
         element_cubic(t, x); // t == x^3
         element_sub(t, t, x); // t == x^3 - x
         element_add(t, t, e1); // t == x^3 - x + 1
diff --git a/ecc/singular.c b/ecc/singular.c
index 5742b3d..995e672 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -54,8 +54,9 @@ static void sn_random(element_t a) {
   element_init(t, p->x->field);
   p->inf_flag = 0;
   do {
-    element_random(p->x);
-    if (element_is0(p->x)) continue;
+    do {
+      element_random(p->x);
+    } while (element_is0(p->x));
     element_square(t, p->x);
     element_add(t, t, p->x);
     element_mul(t, t, p->x);
-- 
2.43.0


From 775e3b6ff21452e54e2e1fee7617b3b7177355ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:04 +0000
Subject: [PATCH 31/56] fix: encoded integers were longer than reported and
 decoding changed the bytes

---
 arith/z.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 0799e9a..1a29462 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -146,8 +146,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   size_t n = 4;
   size_t i;
 
+  data[4] = 0;
   if (!(msb % 8)) {
-    data[4] = 0;
     n++;
   }
   if (mpz_sgn(z) < 0) {
@@ -165,8 +165,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   return (int)n;
 }
 
-static int z_from_bytes(element_t e, unsigned char *data) {
-  unsigned char *ptr;
+static int z_from_bytes(element_t e, const unsigned char *data) {
+  const unsigned char *ptr;
   size_t i, n;
   mpz_ptr z = e->data;
   mpz_t z1;
@@ -181,19 +181,18 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
+  if (n && (data[4] & 128)) {
     neg = 1;
-    data[4] &= 127;
   }
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, !i ? *ptr & 127 : *ptr);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)n + 4;
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -201,7 +200,8 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  // The sign needs a bit of its own.
+  return (int)(mpz_sizeinbase(a->data, 2) / 8 + 1 + 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From 1c8352fbe924ded62e58a39272aef22596b34ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:21 +0000
Subject: [PATCH 32/56] fix: decoded polynomials could have a zero leading
 coefficient

---
 arith/poly.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..288ff61 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -583,6 +583,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From c0df8fb325b550480ed42932b7b47a5844415f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:58 +0000
Subject: [PATCH 33/56] fix: one neutral input made a whole product of pairings
 neutral

---
 include/pbc_pairing.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..0020e26 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -153,19 +153,25 @@ the groups G1, G2 respectively, and 'out' must belong to the group GT.
 static inline void element_prod_pairing(
     element_t out, element_t in1[], element_t in2[], int n) {
   pairing_ptr pairing = out->field->pairing;
-  int i;
+  int i, zeroes = 0;
   PBC_ASSERT(pairing->GT == out->field, "pairing output mismatch");
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
-    }
-    if (element_is0(in2[i])) {
-      element_set0(out);
-      return;
+    if (element_is0(in1[i]) || element_is0(in2[i])) zeroes++;
+  }
+  if (zeroes || n <= 0) {
+    // The product routines cannot handle O, whose pairings are 1.
+    element_t t;
+    element_init(t, out->field);
+    element_set0(out);
+    for(i = 0; i < n; i++) {
+      if (element_is0(in1[i]) || element_is0(in2[i])) continue;
+      pairing->map((element_ptr) t->data, in1[i], in2[i], pairing);
+      element_add(out, out, t);
     }
+    element_clear(t);
+    return;
   }
   pairing->prod_pairings((element_ptr) out->data, in1, in2, n, pairing);
 }
-- 
2.43.0


From 39265816f6a00b8499f7ffbaad8a9bd50495397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:04 +0000
Subject: [PATCH 34/56] fix: projective Miller loop of types D and G used the
 x-coordinate for y

The option "miller" made pairings of type D and G parameters wrong.
---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index a9e5eb8..4c0ef12 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -284,7 +284,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index e8f8832..d815cf4 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -272,7 +272,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From 8bfd4d9c9decee6c41d7627d4ae5eb7f7e30269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 35/56] fix: default preprocessed pairings followed later
 changes of the input

The preprocessed data of types E, F and I was a pointer to the caller's element.
---
 ecc/pairing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..f37c13c 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -60,7 +60,10 @@ static void default_option_set(struct pairing_s *pairing, char *key, char *value
 
 static void default_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   UNUSED_VAR(pairing);
-  p->data = (void *) in1;
+  // Keep a copy: the caller may change or clear in1.
+  p->data = pbc_malloc(sizeof(element_t));
+  element_init_same_as(p->data, in1);
+  element_set(p->data, in1);
 }
 
 static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
@@ -68,7 +71,8 @@ static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
 }
 
 static void default_pp_clear(pairing_pp_t p) {
-  UNUSED_VAR(p);
+  element_clear(p->data);
+  pbc_free(p->data);
 }
 
 void pairing_init_pbc_param(pairing_t pairing, pbc_param_ptr p) {
-- 
2.43.0


From e4fa5da3bb8b34cc397025384f7050f9b59a03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 36/56] fix: choosing another method broke preprocessed type A
 pairings

The data prepared by one method was read by the routines of the other.
---
 include/pbc_pairing.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 0020e26..6fe4ad8 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -10,6 +10,9 @@
 struct pairing_pp_s {
   struct pairing_s *pairing;
   void *data;
+  // The routines for 'data', whatever method is chosen afterwards.
+  void (*clear)(struct pairing_pp_s *p);
+  void (*apply)(element_t out, element_t in2, struct pairing_pp_s *p);
 };
 typedef struct pairing_pp_s pairing_pp_t[1];
 typedef struct pairing_pp_s *pairing_pp_ptr;
@@ -57,6 +60,8 @@ static inline void pairing_pp_init(pairing_pp_t p, element_t in1, pairing_t pair
     return;
   }
   p->pairing = pairing;
+  p->clear = pairing->pp_clear;
+  p->apply = pairing->pp_apply;
   pairing->pp_init(p, in1, pairing);
 }
 
@@ -68,7 +73,7 @@ static inline void pairing_pp_clear(pairing_pp_t p) {
     // happens when p was initialized with identity
     return;
   }
-  p->pairing->pp_clear(p);
+  p->clear(p);
 }
 
 /*@manual pairing_apply
@@ -85,7 +90,7 @@ static inline void pairing_pp_apply(element_t out, element_t in2, pairing_pp_t p
     element_set0(out);
     return;
   }
-  p->pairing->pp_apply((element_ptr) out->data, in2, p);
+  p->apply((element_ptr) out->data, in2, p);
 }
 
 /*@manual pairing_init
-- 
2.43.0


From bdbd674f29e472ba728f32bfb8ae853894df6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:56 +0000
Subject: [PATCH 37/56] fix: square roots of base field nonresidues in
 quadratic extensions were 0

---
 arith/fieldquadratic.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..7922966 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -360,6 +360,18 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_ptr nqr = fq_nqr(n->field);
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    //x is a square in the base field, or nqr times one
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(r->x, p->x, nqr);
+      element_sqrt(r->y, r->x);
+      element_set0(r->x);
+    }
+    return;
+  }
   //if (a+b sqrt(nqr))^2 = x+y sqrt(nqr) then
   //2a^2 = x +- sqrt(x^2 - nqr y^2)
   //(take the sign which allows a to exist)
@@ -529,6 +541,18 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   eptr r = n->data;
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // One of x, -x is a square in the base field.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(r->x, p->x);
+      element_sqrt(r->y, r->x);
+      element_set0(r->x);
+    }
+    return;
+  }
   // If (a+bi)^2 = x+yi then 2a^2 = x +- sqrt(x^2 + y^2)
   // where we choose the sign so that a exists, and 2ab = y.
   // Thus 2b^2 = - (x -+ sqrt(x^2 + y^2)).
-- 
2.43.0


From 189470940e6275d1a92b210c02272d25708332d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:56 +0000
Subject: [PATCH 38/56] fix: integers that are perfect powers were taken for
 squares

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 1a29462..9d3af82 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -124,7 +124,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
-- 
2.43.0


From 713dc3b12680d2a13885e469fc13c900176d61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:00 +0000
Subject: [PATCH 39/56] fix: 0 was not a square in polynomial extension fields

---
 arith/poly.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 288ff61..1e39ee7 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -620,6 +620,8 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  // 0 is a square.
+  if (element_is0(e)) return 1;
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
-- 
2.43.0


From 6bbbf3cd1ef8e4464bc6fd3343b1553c7fa8940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:47 +0000
Subject: [PATCH 40/56] fix: elements printed into one byte were not terminated

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 648e995..e9b85af 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -548,7 +548,7 @@ static element_ptr generic_get_y(element_ptr e) {
 static int default_element_snprint(char *s, size_t n, element_t e) {
   UNUSED_VAR(e);
   if (n == 1) {
-    s[0] = '0';
+    s[0] = '\0';
   } else if (n >= 2) {
     s[0] = '?';
     s[1] = '\0';
-- 
2.43.0


From 1729444d90ffc65a57ad8bbbaef4861ebb02ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:47 +0000
Subject: [PATCH 41/56] fix: output of quadratic extension elements reported
 too few characters

---
 arith/fieldquadratic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index 7922966..fad0848 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -90,7 +90,7 @@ static int fq_is1(element_ptr e) {
 }
 
 static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
-  size_t result = 4, status;
+  size_t result, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
   result = element_out_str(stream, base, p->x);
@@ -99,7 +99,7 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
   if (EOF == fputc(']', stream)) return 0;
-  return result + status;
+  return result + status + 4;
 }
 
 static int fq_snprint(char *s, size_t n, element_ptr e) {
-- 
2.43.0


From 4c822bd6984871c69cdea39ed132ceb261563c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:47 +0000
Subject: [PATCH 42/56] fix: white space before a closing bracket was not
 ignored

---
 arith/fieldquadratic.c | 1 +
 ecc/curve.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index fad0848..3df4f84 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -152,6 +152,7 @@ static int fq_set_str(element_ptr e, const char *s, int base) {
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ',') return 0;
   cp += element_set_str(p->y, cp, base);
+  while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ']') return 0;
   return (int)(cp - s);
 }
diff --git a/ecc/curve.c b/ecc/curve.c
index 828c015..dda15db 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -575,6 +575,7 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp != ',') return 0;
   cp++;
   cp += element_set_str(p->y, cp, base);
+  while (*cp && isspace(*cp)) cp++;
   if (*cp != ']') return 0;
 
   p->inf_flag = 0;
-- 
2.43.0


From c275b6d7c0c88b966411bae2885ffa0d7ede9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:47 +0000
Subject: [PATCH 43/56] fix: %% was printed as two percent signs

---
 misc/extend_printf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..ad4af59 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -50,7 +50,14 @@ static int do_print(int(*strcb)(void *, char *s),
       }
       if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // Print the text up to the first of the two signs.
+      *(c + 1) = 0;
+      status = strcb(data, start);
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      start = next = c + 2;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From a1836ce719d983b6466c22be248d4a34c17e265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:44 +0000
Subject: [PATCH 44/56] fix: hashing could give the field order itself instead
 of a number below it

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index e9b85af..b0911fe 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -667,7 +667,7 @@ void pbc_mpz_from_hash(mpz_t z, mpz_t limit,
   PBC_ASSERT(i == count, "did not read whole buffer");
   mpz_import(z, count, 1, 1, 1, 0, buf);
   pbc_free(buf);
-  while (mpz_cmp(z, limit) > 0) {
+  while (mpz_cmp(z, limit) >= 0) {
     mpz_tdiv_q_2exp(z, z, 1);
   }
 }
-- 
2.43.0


From 5e98b864bf93e7652174ce4c668493c888a4a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:44 +0000
Subject: [PATCH 45/56] fix: differences of a multinomial and an integer or a
 longer multinomial were wrong

---
 arith/multiz.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 1034a0d..e2ba1c4 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -245,6 +245,8 @@ static multiz multiz_new_bin(const multiz a, const multiz b,
     }
   }
 }
+static multiz multiz_new_neg(multiz z);
+
 static multiz multiz_new_add(const multiz a, const multiz b) {
   return multiz_new_bin(a, b, mpz_add);
 }
@@ -256,7 +258,10 @@ static void f_add(element_ptr n, element_ptr a, element_ptr b) {
 }
 
 static multiz multiz_new_sub(const multiz a, const multiz b) {
-  return multiz_new_bin(a, b, mpz_sub);
+  multiz y = multiz_new_neg(b);
+  multiz x = multiz_new_add(a, y);
+  multiz_free(y);
+  return x;
 }
 static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
   multiz delme = n->data;
-- 
2.43.0


From 6ec5d05c6cb08513238a4363073416bbd3266968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:36 +0000
Subject: [PATCH 46/56] fix: half of the parameters found for type G curves had
 the wrong order

---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..8566d0d 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -354,7 +354,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // U = -(15x + 5)
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From 642ad1b5686543e982904a6d1b9ef315f5fa6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:37 +0000
Subject: [PATCH 47/56] fix: searches for CM parameters exceeded the limit of
 the group order

---
 ecc/mnt.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 8566d0d..c7521be 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -200,7 +200,7 @@ void pbc_cm_clear(pbc_cm_t cm) {
 }
 
 static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   int d;
   mpz_t n, l, q;
   mpz_t p;
@@ -273,7 +273,7 @@ static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = mpz_sizeinbase(r, 2) > bitlimit ? 0 : callback(cm, data);
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -313,7 +313,7 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   if (n) for (;;) {
     for (i=0; i<n; i++) {
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
-      res = mnt_step2(callback, data, D, ps->x[i]);
+      res = mnt_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       //compute next solution as follows
       //if p, q is current solution
@@ -343,7 +343,7 @@ toobig:
 }
 
 static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   mpz_t n, x, q;
   mpz_t p;
   mpz_t r, cofac;
@@ -431,7 +431,7 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = mpz_sizeinbase(r, 2) > bitlimit ? 0 : callback(cm, data);
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -468,7 +468,7 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
   n = ps->count;
   if (n) for (;;) {
     for (i=0; i<n; i++) {
-      res = freeman_step2(callback, data, D, ps->x[i]);
+      res = freeman_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       // Compute next solution as follows:
       // If p, q is current solution
-- 
2.43.0


From 5ffcf90ee95d2f976ca1b5532200a7c3b7bb1262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:14 +0000
Subject: [PATCH 48/56] fix: secure cleaning was optimised away

memset() followed by free() is a dead store, which gcc and clang remove
from -O1 on: builds with --enable-safe-clean released memory uncleaned.
---
 misc/memory.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/misc/memory.c b/misc/memory.c
index 21d50dd..5577d71 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -6,10 +6,17 @@
 #include "pbc_memory.h"
 
 #ifdef SAFE_CLEAN
+/* memset() right before free() is a dead store that compilers remove */
+static void wipe(void *ptr, size_t size) {
+  volatile unsigned char *p = ptr;
+  while(size--)
+    *p++ = 0;
+}
+
 /* guarantee zeroing the memory */
 static void gmp_free(void *ptr, size_t size) {
   if(ptr)
-    memset(ptr, 0, size);
+    wipe(ptr, size);
   free(ptr);
 }
 
@@ -61,7 +68,7 @@ static void *pbc_mem_malloc(size_t size) {
 }
 
 static void pbc_mem_free(void *ptr) {
-  memset(ptr, 0, pbc_mem_get_size(ptr) + sizeof(size_t));
+  wipe(ptr, pbc_mem_get_size(ptr) + sizeof(size_t));
   free(ptr);
 }
 
-- 
2.43.0


From 26188d829e035aff4ab1436e275214e2712374dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:14 +0000
Subject: [PATCH 49/56] fix: shrinking a block overflowed it in secure builds

With SAFE_CLEAN realloc copied the old size into the new, smaller block.
---
 misc/memory.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/memory.c b/misc/memory.c
index 5577d71..abd55df 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -30,7 +30,7 @@ static void* gmp_malloc(size_t size) {
 static void* gmp_realloc(void *old_ptr, size_t old_size, size_t new_size) {
   void *new_ptr = malloc(new_size);
   if(new_ptr && old_ptr)
-    memcpy(new_ptr, old_ptr, old_size);
+    memcpy(new_ptr, old_ptr, old_size < new_size ? old_size : new_size);
   gmp_free(old_ptr, old_size);
   return new_ptr;
 }
@@ -83,7 +83,9 @@ static void *default_pbc_realloc(void *old, size_t new_size) {
   if(!new) pbc_die("realloc() error");
   if(old) {
     old = pbc_ptr_to_mem(old);
-    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), pbc_mem_get_size(old));
+    size_t old_size = pbc_mem_get_size(old);
+    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old),
+        old_size < new_size ? old_size : new_size);
     pbc_mem_free(old);
   }
   return pbc_mem_to_ptr(new);
-- 
2.43.0


From 3e014886a7d564223416af31b03a7795ccac4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:26 +0000
Subject: [PATCH 50/56] fix: copies of a Pairing cleared it twice

The implicit copy constructor and assignment of Pairing copied the
pointers of pairing_t, so destroying both objects freed them twice.
---
 include/pbcxx.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pbcxx.h b/include/pbcxx.h
index 75ac4ea..18e2c8d 100644
--- a/include/pbcxx.h
+++ b/include/pbcxx.h
@@ -390,6 +390,10 @@ class Pairing {
 
  public:
 
+  // A copy would share the pairing with the original, which both would clear.
+  Pairing(const Pairing&) = delete;
+  Pairing& operator=(const Pairing&) = delete;
+
   // Initialize pairing based on given params.
   Pairing(const string& params) {
     pairing_init_set_buf(pairing_, params.c_str(), params.size());
-- 
2.43.0


From 1a5544616dd32fb79c37ff526b7bef473de5c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:01 +0000
Subject: [PATCH 51/56] fix: discrete logarithms divided by zero on useless
 collisions

---
 arith/dlog.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..bfaa082 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -114,6 +114,18 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
     for (i = 0; i < hole->count; i++) {
       snapshot_ptr ss = hole->item[i];
       if (!element_cmp(snark, ss->snark)) {
+        if (!element_cmp(bsum, ss->b)) {
+          //says nothing about x, and the walk would only repeat itself:
+          //change the multipliers
+          for (i = 0; i < s; i++) {
+            element_random(a[i]);
+            element_random(b[i]);
+            element_pow_zn(g0, g, a[i]);
+            element_pow_zn(m[i], h, b[i]);
+            element_mul(m[i], m[i], g0);
+          }
+          break;
+        }
         element_sub(bsum, bsum, ss->b);
         element_sub(asum, ss->a, asum);
         //answer is x such that x * bsum = asum
-- 
2.43.0


From dae5f0409debbbead235a84b8c5f1d0427ff6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:02 +0000
Subject: [PATCH 52/56] fix: extend() in the calculator could not be used

It takes a field and a polynomial but its arity was 1: calls with two
arguments were refused and those with one read past the arguments.
---
 pbc/pbc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index a9c1385..0c07231 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -707,7 +707,7 @@ static val_ptr run_extend(val_ptr v[]) {
   element_free(poly);
   return val_new_field(f);
 }
-static fun_t fun_extend = {{ "extend", run_extend, 1, sig_field_elem }};
+static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
   pairing_init_set_str(pairing, s);
-- 
2.43.0


From b38145d711f11d7049a37a604c025f633a133325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:02 +0000
Subject: [PATCH 53/56] fix: the calculator crashed on operands without a value

Functions such as init_pairing_a() and all functions of the user give no
value, and elements are no functions: both led to null pointers.
---
 pbc/pbc.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 0c07231..463c418 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -140,7 +140,7 @@ static val_ptr v_builtin(val_ptr v, tree_ptr t) {
   int i;
   for(i = 0; i < n; i++) {
     arg[i] = tree_eval(darray_at(t->child, i));
-    if (fun->sig[i] && arg[i]->type != fun->sig[i]) {
+    if (!arg[i] || (fun->sig[i] && arg[i]->type != fun->sig[i])) {
       return val_new_error("%s: argument %d type mismatch", fun->name, i + 1);
     }
   }
@@ -365,10 +365,10 @@ static val_ptr eval_list(tree_ptr t) {
   for(i = 0; i < n; i++) {
     val_ptr x = tree_eval(darray_at(t->child, i));
     // TODO: Also check x is a multiz.
-    if (v_error == x->type) {
+    if (x && v_error == x->type) {
       return x;
     }
-    if (v_elem != x->type) {
+    if (!x || v_elem != x->type) {
       return val_new_error("element expected in list");
     }
     if (!i) e = multiz_new_list(x->elem);
@@ -379,10 +379,10 @@ static val_ptr eval_list(tree_ptr t) {
 
 static val_ptr eval_ternary(tree_ptr t) {
   val_ptr x = tree_eval(darray_at(t->child, 0));
-  if (v_error == x->type) {
+  if (x && v_error == x->type) {
     return x;
   }
-  if (x->type != v_elem) {
+  if (!x || x->type != v_elem) {
     return val_new_error("element expected in ternary operator");
   }
   if (!element_is0(x->elem)) {
@@ -402,6 +402,9 @@ static val_ptr eval_id(tree_ptr t) {
 
 static val_ptr eval_funcall(tree_ptr t) {
   val_ptr x = tree_eval(darray_last(t->child));
+  if (!x || !x->type->funcall) {
+    return val_new_error("function expected");
+  }
   return x->type->funcall(x, t);
 }
 
-- 
2.43.0


From 04a8761f36e7ea3ac3b325a3892087d292e9a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:02 +0000
Subject: [PATCH 54/56] fix: the calculator took anything for an element in
 conversions

Zr(Zr), Zr(order) or Zr() used a field or a function as an element.
---
 pbc/pbc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 463c418..1a3e91b 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -173,9 +173,16 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   return NULL;
 }
 
+static struct val_type_s v_elem[1];
+
 static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
-  // TODO: Check args, x is an element.
+  if (2 != darray_count(t->child)) {
+    return val_new_error("field: wrong number of arguments");
+  }
   val_ptr x = tree_eval(darray_at(t->child, 0));
+  if (!x || x->type != v_elem) {
+    return val_new_error("field: argument 1 type mismatch");
+  }
   element_ptr e = x->elem;
   if (e->field == M) {
     if (v->field == M) return x;
-- 
2.43.0


From 519e71932e6cefed0c8d5b355ee1cfd78b8b17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:02 +0000
Subject: [PATCH 55/56] fix: removal by a test read past the array and skipped
 matches

---
 misc/darray.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/misc/darray.c b/misc/darray.c
index 50b127f..5257b16 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -99,15 +99,12 @@ void darray_remove(darray_ptr a, void *p)
 
 void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 {
-    int i;
+    int i, kept = 0;
     for (i=0; i<a->count; i++) {
-        if (test(a->item[i])) {
-            for (;i<a->count; i++) {
-                a->item[i] = a->item[i+1];
-            }
-            a->count--;
-        }
+        void *p = a->item[i];
+        if (!test(p)) a->item[kept++] = p;
     }
+    a->count = kept;
 }
 
 void darray_copy(darray_ptr dst, darray_ptr src)
-- 
2.43.0


From 71ac9c74780b730d6b991d5ecfbbe0ec9694817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:27 +0000
Subject: [PATCH 56/56] fix: encoding nested integers read a list header as an
 integer

---
 arith/multiz.c | 116 +++++++++++++++++++++++++++----------------------
 1 file changed, 65 insertions(+), 51 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index e2ba1c4..30debd1 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -452,69 +452,83 @@ static int f_cmp(element_ptr x, element_ptr y) {
 
 static void f_field_clear(field_t f) { UNUSED_VAR (f); }
 
-// OpenSSL convention:
+// Integers are encoded as in Z, with the OpenSSL convention:
 //   4 bytes containing length
 //   followed by number in big-endian, most-significant bit set if negative
 //   (prepending null byte if necessary)
-// Positive numbers also the same as mpz_out_raw.
-static int z_to_bytes(unsigned char *data, element_t e) {
-  mpz_ptr z = e->data;
-  size_t msb = mpz_sizeinbase(z, 2);
+// Lists: 4 bytes containing length, most-significant bit set, followed by the
+// items.
+static size_t multiz_length(multiz m) {
+  if (T_MPZ == m->type) return 4 + mpz_sizeinbase(m->z, 2) / 8 + 1;
   size_t n = 4;
-  size_t i;
+  int i;
+  for (i = 0; i < darray_count(m->a); i++) n += multiz_length(darray_at(m->a, i));
+  return n;
+}
 
-  if (!(msb % 8)) {
+static size_t multiz_write(unsigned char *data, multiz m) {
+  size_t n, msb, res = 4;
+  int i;
+  if (T_MPZ == m->type) {
+    msb = mpz_sizeinbase(m->z, 2);
+    n = msb / 8 + 1;
     data[4] = 0;
-    n++;
-  }
-  if (mpz_sgn(z) < 0) {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
-    data[4] |= 128;
+    mpz_export(data + 4 + n - (msb + 7) / 8, NULL, 1, 1, 1, 0, m->z);
+    if (mpz_sgn(m->z) < 0) data[4] |= 128;
+    res += n;
   } else {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
+    n = darray_count(m->a);
+    for (i = 0; i < (int)n; i++) res += multiz_write(data + res, darray_at(m->a, i));
   }
-  n += (msb + 7) / 8 - 4;
-  for (i=0; i<4; i++) {
-    data[i] = (unsigned char)(n >> 8 * (3 - i));
+  for (i = 0; i < 4; i++) data[i] = (unsigned char)(n >> 8 * (3 - i));
+  if (T_ARR == m->type) data[0] |= 128;
+  return res;
+}
+
+static multiz multiz_read(const unsigned char *data, size_t *used) {
+  multiz m;
+  size_t n = 0, res = 4, k;
+  int i, neg;
+  for (i = 0; i < 4; i++) n = n << 8 | (i ? data[i] : data[0] & 127);
+  if (data[0] & 128) {
+    m = multiz_new_empty_list();
+    for (; n; n--) {
+      darray_append(m->a, multiz_read(data + res, &k));
+      res += k;
+    }
+  } else {
+    m = multiz_new();
+    if (n) {
+      neg = data[4] & 128;
+      mpz_set_ui(m->z, data[4] & 127);
+      mpz_t z;
+      mpz_init(z);
+      mpz_import(z, n - 1, 1, 1, 1, 0, data + 5);
+      mpz_mul_2exp(m->z, m->z, 8 * (n - 1));
+      mpz_add(m->z, m->z, z);
+      mpz_clear(z);
+      if (neg) mpz_neg(m->z, m->z);
+    }
+    res += n;
   }
-  n += 4;
-
-  return (int)n;
+  *used = res;
+  return m;
 }
 
-static int z_from_bytes(element_t e, unsigned char *data) {
-  unsigned char *ptr;
-  size_t i, n;
-  mpz_ptr z = e->data;
-  mpz_t z1;
-  int neg = 0;
-
-  mpz_init(z1);
-  mpz_set_ui(z, 0);
+static int f_to_bytes(unsigned char *data, element_t e) {
+  return (int)multiz_write(data, e->data);
+}
 
-  ptr = data;
-  n = 0;
-  for (i=0; i<4; i++) {
-    n += ((unsigned int) *ptr) << 8 * (3 - i);
-    ptr++;
-  }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
-  for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
-    mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
-    ptr++;
-    mpz_add(z, z, z1);
-  }
-  mpz_clear(z1);
-  if (neg) mpz_neg(z, z);
+static int f_from_bytes(element_t e, const unsigned char *data) {
+  size_t n;
+  multiz delme = e->data;
+  e->data = multiz_read(data, &n);
+  multiz_free(delme);
   return (int)n;
 }
 
-static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+static int f_length_in_bytes(element_ptr e) {
+  return (int)multiz_length(e->data);
 }
 
 static void f_out_info(FILE *out, field_ptr f) {
@@ -564,10 +578,10 @@ void field_init_multiz(field_ptr f) {
   f->set0 = f_set0;
   f->set1 = f_set1;
   f->field_clear = f_field_clear;
-  f->to_bytes = z_to_bytes;
-  f->from_bytes = z_from_bytes;
+  f->to_bytes = f_to_bytes;
+  f->from_bytes = f_from_bytes;
   f->to_mpz = f_to_mpz;
-  f->length_in_bytes = z_length_in_bytes;
+  f->length_in_bytes = f_length_in_bytes;
   f->item = f_item;
   f->item_count = f_item_count;
 
-- 
2.43.0

