From bb3394f3b87e0bac0afc342ec9983331079f4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 01/62] fix: square root exponent overflow for fields of large
 2-adicity

mpFp_sqrt computed the Tonelli-Shanks power as 1 << (m - i - 1), which
overflows an int when p - 1 is divisible by 2**32 (e.g. secp224r1) and
then loops forever or returns a wrong root.
---
 src/field.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/field.c b/src/field.c
index 189ee77..a4ff60a 100644
--- a/src/field.c
+++ b/src/field.c
@@ -722,7 +722,7 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
         mpz_powm(t, opi, q, op->fp->p);
         m = s;
         while (1) {
-            int i;
+            int i, j;
 
             if (mpz_cmp_ui(t, 1) == 0) {
                 break;
@@ -735,7 +735,11 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
-            mpz_powm_ui(b, c, 1 << (m - i - 1), op->fp->p);
+            // b = c ** (2 ** (m - i - 1)), the exponent can exceed an int
+            mpz_set(b, c);
+            for (j = 0; j < (m - i - 1); j++) {
+                mpz_powm_ui(b, b, 2, op->fp->p);
+            }
             mpz_mul(r, r, b);
             mpz_mod(r, r, op->fp->p);
             mpz_powm_ui(c, b, 2, op->fp->p);
-- 
2.43.0


From 33183bcf6fb6633b53f82dce72e02ef3882a052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 02/62] fix: curves over different fields compared as equal

mpECurve_cmp returned the value of (fp1 == fp2), i.e. 0 for "equal", whenever
the two curves were defined over different fields.
---
 src/ecurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 1404b4f..d009d77 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1195,7 +1195,7 @@ int mpECurve_cmp(mpECurve_t op1, mpECurve_t op2) {
     //printf("not the same pointer\n");
     if (op1->type != op2->type) return -1;
     //printf("same type\n");
-    r = (op1->fp == op2->fp) ; if (r != 1) return r;
+    if (op1->fp != op2->fp) return -1;
     //printf("same field\n");
     switch (op1->type) {
         case EQTypeShortWeierstrass:
-- 
2.43.0


From 3ce614b20ef32573c36b3f9839e8e42178f4ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 03/62] fix: adding points overwrote the curve object of the
 result

Edwards and twisted Edwards addition (and Jacobian doubling) copied the curve
of the operands over the curve object the result happened to refer to, and
with it changed every other point of that curve.
---
 src/ecpoint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 01b6b6e..41decb0 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1104,7 +1104,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // Z3 = c*F*G
                 mpFp_mul(B, pt1->cvp->coeff.ed.c, G);
                 mpFp_mul(rpt->z, B, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1183,7 +1183,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_mul(rpt->y, B, A);
                 // Z3 = F*G
                 mpFp_mul(rpt->z, G, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1286,7 +1286,7 @@ void mpECP_double(mpECP_t rpt, mpECP_t pt) {
                 mpFp_clear(YYYY);
                 mpFp_clear(YY);
                 mpFp_clear(XX);
-                mpECurve_set(rpt->cvp, pt->cvp);
+                rpt->cvp = pt->cvp;
                 rpt->is_neutral = 0;
                 return;
             }
-- 
2.43.0


From d7926061b5f2303892959f2ff41ddae968d0254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 04/62] fix: scalar multiplication dropped the top bits of
 scalars longer than the field

The ladder and the base point tables covered as many bits as the field has,
but the group order may be one bit longer (secp160k1, secp160r1, ...), so that
scalars using the top bit gave a wrong point.
---
 src/ecpoint.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 41decb0..25c0be1 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -55,8 +55,15 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 
 static char *_hexlut = "0123456789ABCDEF";
 
+// number of bits of the largest scalar, which is reduced modulo the order of
+// the curve. The order can be longer than the field (e.g. secp160k1)
+static inline int _scalar_bits(mpECurve_t cv) {
+    int nbits = mpz_sizeinbase(cv->n, 2);
+    return (nbits > (int)cv->bits) ? nbits : (int)cv->bits;
+}
+
 static inline int _mpECP_n_base_pt_levels(mpECP_t pt) {
-    return (pt->cvp->bits + pt->base_bits - 1) / pt->base_bits;
+    return (_scalar_bits(pt->cvp) + pt->base_bits - 1) / pt->base_bits;
 }
 
 static inline int _mpECP_n_base_pt_level_size(mpECP_t pt) {
@@ -1332,7 +1339,7 @@ void mpECP_scalar_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpECP_set(R1, pt);
     // scalar should be modulo the order of the curve
     assert(mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    for (i = pt->cvp->bits - 1; i >= 0 ; i--) {
+    for (i = _scalar_bits(pt->cvp) - 1; i >= 0 ; i--) {
         int b;
 
         b = mpFp_tstbit(sc, i);
-- 
2.43.0


From 704a2c4f08a6d8950ab0608003aae382baa84646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 05/62] fix: Montgomery curves with B other than 1

The map to the internal short Weierstrass form is u = (x + A/3)/B, not
x/B + A/3, which is off the curve unless B = 1. The sign bit of a compressed
encoding was taken from the internal y, while decoding matches it with the y
of the Montgomery curve.
---
 src/ecpoint.c | 8 +++++---
 src/ecurve.c  | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 25c0be1..b3afef2 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -127,9 +127,9 @@ void mpECP_set(mpECP_t rpt, mpECP_t pt) {
 
 static inline void _transform_mo_to_ws(mpECP_t pt) {
     assert (pt->cvp->type == EQTypeMontgomery);
-    // u = x/B + A/3, v = y/B
-    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
+    // u = (x + A/3)/B, v = y/B
     mpFp_add(pt->x, pt->x, pt->cvp->coeff.mo.Adiv3);
+    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
     mpFp_mul(pt->y, pt->y, pt->cvp->coeff.mo.Binv);
 }
 
@@ -548,7 +548,9 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
-        mpz_set_mpFp(odd, pt->y);
+        // the parity is that of the y coordinate of the curve, which is not
+        // the internal one for Montgomery curves
+        mpz_set_mpECP_affine_y(odd, pt);
         mpz_mod_ui(odd, odd, 2);
         if (mpz_cmp_ui(odd, 1) == 0) {
             s[0] = 3;
diff --git a/src/ecurve.c b/src/ecurve.c
index d009d77..17f97ef 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1002,7 +1002,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     // resulting equation:
     // v^2 = u^3 + ws_a * u + ws_b
     // reverse transform:
-    // u = x/B + A/3, v = y/B
+    // u = (x + A/3)/B, v = y/B
     {
         mpFp_t a, b, s, t;
         mpFp_init_fp(a, cv->fp);
-- 
2.43.0


From 7e211cdcc02aaccd6408b1087ddde8f045b185db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 06/62] fix: uncompressed points off the curve were accepted

Decoding an uncompressed point did not check the curve equation, while
compressed ones are checked.
---
 src/ecpoint.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index b3afef2..7b29add 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -348,13 +348,18 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
         case 4: {
                 if (blen != (1 + (2 * bytes))) return -1;
                 mpz_t x, y;
+                int on_curve;
                 mpz_init(x);
                 mpz_init(y);
                 mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));
                 mpz_import(y, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1 + bytes]));
-                mpECP_set_mpz(rpt, x, y, cv);
+                on_curve = mpECurve_point_check(cv, x, y);
+                if (on_curve) {
+                    mpECP_set_mpz(rpt, x, y, cv);
+                }
                 mpz_clear(y);
                 mpz_clear(x);
+                if (!on_curve) return -1;
             }
             return 0;
         case 2:
-- 
2.43.0


From dbb4fc84cfd41d2fa800a83b6da1633668a8e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 07/62] fix: point text with characters other than hex digits

The result of sscanf was ignored: text without hex digits decoded from
uninitialised memory or aborted the process, and " 1", "+1" or "-1" passed for
a byte.
---
 src/ecpoint.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 7b29add..14d839f 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -55,6 +55,13 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 
 static char *_hexlut = "0123456789ABCDEF";
 
+static int _hexval(char c) {
+    if ((c >= '0') && (c <= '9')) return c - '0';
+    if ((c >= 'A') && (c <= 'F')) return 10 + (c - 'A');
+    if ((c >= 'a') && (c <= 'f')) return 10 + (c - 'a');
+    return -1;
+}
+
 // number of bits of the largest scalar, which is reduced modulo the order of
 // the curve. The order can be longer than the field (e.g. secp160k1)
 static inline int _scalar_bits(mpECurve_t cv) {
@@ -321,12 +328,14 @@ int mpECP_set_str(mpECP_t rpt, char *s, mpECurve_t cv) {
     assert(buf != NULL);
 
     for (i = 0; i < blen; i++) {
-        unsigned int btmp;
-        sscanf(&s[2 * i], "%2X", &btmp);
-        // btmp is unsigned, always >= 0
-        //assert(btmp >= 0);
-        assert(btmp < 256);
-        buf[i] = (unsigned char)btmp;
+        int hi, lo;
+        hi = _hexval(s[2 * i]);
+        lo = _hexval(s[(2 * i) + 1]);
+        if ((hi < 0) || (lo < 0)) {
+            free(buf);
+            return -1;
+        }
+        buf[i] = (unsigned char)((hi << 4) | lo);
         //printf("%02X", buf[i]);
     }
     //printf("\n");
-- 
2.43.0


From 03ce05e52f8f99cc3a9a50bea41ce3277a0932ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 08/62] fix: signature text with characters other than hex
 digits was accepted

sscanf takes " 1", "+1" and "-1" for a byte.
---
 src/ecdsa.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 95f9b96..72929bd 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -212,6 +212,13 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     return status;
 }
 
+static int _hexval(char c) {
+    if ((c >= '0') && (c <= '9')) return c - '0';
+    if ((c >= 'A') && (c <= 'F')) return 10 + (c - 'A');
+    if ((c >= 'a') && (c <= 'f')) return 10 + (c - 'a');
+    return -1;
+}
+
 static void _shift_right_and_zero_pad(unsigned char *buffer, size_t len, size_t shift) {
     int i;
 
@@ -335,13 +342,15 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
     bsz = ssz >> 1;
     bbytes = (unsigned char *)malloc(bsz * sizeof(char));
     for (i = 0; i < bsz; i++) {
-        int iread;
-        iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
-        if (iread != 1) {
+        int hi, lo;
+        hi = _hexval(ssig[i<<1]);
+        lo = _hexval(ssig[(i<<1) + 1]);
+        if ((hi < 0) || (lo < 0)) {
             memset(bbytes, 0, bsz);
             free(bbytes);
             return -1;
         }
+        bbytes[i] = (unsigned char)((hi << 4) | lo);
     }
 
     status = mpECDSASignature_init_import_bytes(sig, sscheme, bbytes, bsz);
-- 
2.43.0


From ba5368a80b13c2a4767adc94390046968459df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 09/62] fix: adding points whose difference has order two gave
 the neutral element

The complete addition formulas are complete for odd order only. On curves of
even order (every Montgomery curve, and Weierstrass curves with an even
cofactor) they yield (0:0:0) if the difference of the points has order two,
which was taken for the neutral element.
---
 src/ecpoint.c | 83 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 82 insertions(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 14d839f..520b2ee 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -764,6 +764,56 @@ void mpECP_cswap(mpECP_t pt2, mpECP_t pt1, int swap) {
     _mpECP_cswap_safe(pt2, pt1, swap);
 }
 
+#ifdef _MPECP_USE_RCB
+// The RCB formulas are complete for points of odd order. On a curve of even
+// order they produce (0:0:0) when pt1 - pt2 has order two, in that case add
+// pt1 = (X1:Y1:Z1) and pt2 = (X2:Y2:Z2) as points which differ
+static void _mpECP_add_distinct(mpECP_t rpt, mpFp_t X1, mpFp_t Y1, mpFp_t Z1, mpFp_t X2, mpFp_t Y2, mpFp_t Z2, mpECurve_t cv) {
+    // u = Y2*Z1-Y1*Z2
+    // v = X2*Z1-X1*Z2
+    // A = u**2*Z1*Z2-v**3-2*v**2*X1*Z2
+    // X3 = v*A
+    // Y3 = u*(v**2*X1*Z2-A)-v**3*Y1*Z2
+    // Z3 = v**3*Z1*Z2
+    mpFp_t u, v, v2, v3, A, W, S;
+    mpFp_init_fp(u, cv->fp);
+    mpFp_init_fp(v, cv->fp);
+    mpFp_init_fp(v2, cv->fp);
+    mpFp_init_fp(v3, cv->fp);
+    mpFp_init_fp(A, cv->fp);
+    mpFp_init_fp(W, cv->fp);
+    mpFp_init_fp(S, cv->fp);
+    mpFp_mul(S, Y1, Z2);
+    mpFp_mul(u, Y2, Z1);
+    mpFp_sub(u, u, S);
+    mpFp_mul(W, X1, Z2);
+    mpFp_mul(v, X2, Z1);
+    mpFp_sub(v, v, W);
+    mpFp_sqr(v2, v);
+    mpFp_mul(v3, v2, v);
+    mpFp_mul(v2, v2, W);
+    mpFp_mul(S, S, v3);
+    mpFp_mul(W, Z1, Z2);
+    mpFp_sqr(A, u);
+    mpFp_mul(A, A, W);
+    mpFp_sub(A, A, v3);
+    mpFp_sub(A, A, v2);
+    mpFp_sub(A, A, v2);
+    mpFp_mul(rpt->x, v, A);
+    mpFp_sub(v2, v2, A);
+    mpFp_mul(rpt->y, u, v2);
+    mpFp_sub(rpt->y, rpt->y, S);
+    mpFp_mul(rpt->z, v3, W);
+    mpFp_clear(S);
+    mpFp_clear(W);
+    mpFp_clear(A);
+    mpFp_clear(v3);
+    mpFp_clear(v2);
+    mpFp_clear(v);
+    mpFp_clear(u);
+}
+#endif
+
 void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
 #ifdef _MPECP_USE_RCB
     mpFp_ptr aa, bb;
@@ -818,6 +868,25 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_init_fp(t5, pt1->cvp->fp);
                 mpFp_init_fp(b3, pt1->cvp->fp);
 #endif
+                // on curves of even order keep the operands (rpt can be one
+                // of them) for the exception to the formulas below
+                mpFp_t X1, Y1, Z1, X2, Y2, Z2;
+                int even_order;
+                even_order = mpz_even_p(pt1->cvp->h) || mpz_even_p(pt1->cvp->n);
+                if (even_order) {
+                    mpFp_init_fp(X1, pt1->cvp->fp);
+                    mpFp_init_fp(Y1, pt1->cvp->fp);
+                    mpFp_init_fp(Z1, pt1->cvp->fp);
+                    mpFp_init_fp(X2, pt1->cvp->fp);
+                    mpFp_init_fp(Y2, pt1->cvp->fp);
+                    mpFp_init_fp(Z2, pt1->cvp->fp);
+                    mpFp_set(X1, pt1->x);
+                    mpFp_set(Y1, pt1->y);
+                    mpFp_set(Z1, pt1->z);
+                    mpFp_set(X2, pt2->x);
+                    mpFp_set(Y2, pt2->y);
+                    mpFp_set(Z2, pt2->z);
+                }
                 // TODO: Precalculate b3 and store in coeff.ws.b3
                 mpFp_add(b3, bb, bb);
                 mpFp_add(b3, b3, bb);
@@ -946,8 +1015,20 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
 
                 rpt->cvp = pt1->cvp;
 
+                if (even_order) {
+                    if ((mpFp_cmp_ui(rpt->z, 0) == 0) && (mpFp_cmp_ui(rpt->y, 0) == 0)) {
+                        _mpECP_add_distinct(rpt, X1, Y1, Z1, X2, Y2, Z2, rpt->cvp);
+                    }
+                    mpFp_clear(Z2);
+                    mpFp_clear(Y2);
+                    mpFp_clear(X2);
+                    mpFp_clear(Z1);
+                    mpFp_clear(Y1);
+                    mpFp_clear(X1);
+                }
+
                 if (mpFp_cmp_ui(rpt->z, 0) == 0) {
-                    mpECP_set_neutral(rpt, pt1->cvp);
+                    mpECP_set_neutral(rpt, rpt->cvp);
                 } else {
                     rpt->is_neutral = 0;
                 }
-- 
2.43.0


From efc27f779da5e628839bf6faeb16c120c3c19a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 10/62] fix: child processes repeated the random values of
 their parent

The random device was read through a stdio buffer, which fork() duplicates: the
nonces a process and its child drew next were the same. The first use by
several threads at once also raced on opening the device.
---
 src/mpzurandom.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 23eec45..9501ccc 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -44,18 +44,33 @@ static void _close_f_urandom(void) {
     return;
 }
 
+static FILE *_get_f_urandom(void) {
+    FILE *f, *current;
+    current = __atomic_load_n(&_f_urandom, __ATOMIC_ACQUIRE);
+    if (current != NULL) return current;
+    f = fopen("/dev/urandom", "rb");
+    assert(f != NULL);
+    // must not be buffered: a process and its child would both continue with
+    // the buffered random bytes after a fork
+    setvbuf(f, NULL, _IONBF, 0);
+    if (!__atomic_compare_exchange_n(&_f_urandom, &current, f, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+        // another thread was first
+        fclose(f);
+        return current;
+    }
+    atexit(_close_f_urandom);
+    return f;
+}
+
 void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     int bytes, sz_read;
     char *buffer;
-    if (_f_urandom == NULL) {
-        _f_urandom = fopen("/dev/urandom", "rb");
-        assert(_f_urandom != NULL);
-        atexit(_close_f_urandom);
-    }
+    FILE *f_urandom;
+    f_urandom = _get_f_urandom();
     // bytes intentionally long to ensure uniformity, will truncate with modulo
     bytes = ((mpz_sizeinbase(rand_max,2) + 7) >> 3) * 2;
     buffer = (char *)malloc((bytes) * sizeof(char));
-    sz_read = fread(buffer, sizeof(char), bytes, _f_urandom);
+    sz_read = fread(buffer, sizeof(char), bytes, f_urandom);
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
     mpz_mod(rop, rop, rand_max);
-- 
2.43.0


From d405939c352bc775bb08aa3238da7ac7289329a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 11/62] fix: missing check of the allocation in mpz_urandom

---
 src/mpzurandom.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 9501ccc..1f9d641 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -70,6 +70,7 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     // bytes intentionally long to ensure uniformity, will truncate with modulo
     bytes = ((mpz_sizeinbase(rand_max,2) + 7) >> 3) * 2;
     buffer = (char *)malloc((bytes) * sizeof(char));
+    assert(buffer != NULL);
     sz_read = fread(buffer, sizeof(char), bytes, f_urandom);
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
-- 
2.43.0


From 0aca8276f9a545f5250e52f5a711360f28f96b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 12/62] fix: safe cleaning did not clean

The memset before free is a dead store, which the compiler removes (gcc -O2
does): secrets were still in memory after it had been returned. A shrinking
reallocation kept the tail of the number, which was not cleaned later either,
since the block is freed with its new size.
---
 include/ecc/safememory.h |  1 +
 src/safememory.c         | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/ecc/safememory.h b/include/ecc/safememory.h
index 59a238f..4fc6480 100644
--- a/include/ecc/safememory.h
+++ b/include/ecc/safememory.h
@@ -39,6 +39,7 @@ extern "C" {
 
 // functions to zero memory on free/realloc
 
+void _safe_clean_memzero(void *ptr, size_t sz);
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz);
 void _safe_clean_free(void *old, size_t oldsz);
 void _enable_gmp_safe_clean(void);
diff --git a/src/safememory.c b/src/safememory.c
index 0770740..984d614 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -34,10 +34,20 @@
 #include <string.h>
 #include <stdlib.h>
 
+// memset through a volatile pointer, which the compiler cannot drop as a dead
+// store when the memory is freed next
+static void *(* const volatile _memset_ptr)(void *, int, size_t) = memset;
+
+void _safe_clean_memzero(void *ptr, size_t sz) {
+    if (sz > 0) _memset_ptr(ptr, 0, sz);
+}
+
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
     if (__GMP_LIKELY(newsz <= oldsz)) {
+        // the block is known by its new size from here on
+        _safe_clean_memzero((char *)old + newsz, oldsz - newsz);
         return old;
     }
 
@@ -48,14 +58,14 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     }
 
     memcpy(ret, old, oldsz);
-    memset(old, 0, oldsz);
+    _safe_clean_memzero(old, oldsz);
     free(old);
 
     return ret;
 }
 
 void _safe_clean_free(void *old, size_t oldsz) {
-    memset(old, 0, oldsz);
+    _safe_clean_memzero(old, oldsz);
     free (old);
 }
 
-- 
2.43.0


From c331c569550b574b6191b9d6208e216afea8143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 13/62] fix: random bytes of keys and nonces were left in freed
 memory

---
 src/mpzurandom.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 1f9d641..227fc41 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -30,6 +30,7 @@
 
 #include <assert.h>
 #include <ecc/mpzurandom.h>
+#include <ecc/safememory.h>
 #include <gmp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -75,6 +76,8 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
     mpz_mod(rop, rop, rand_max);
+    // private keys and nonces are computed from these
+    _safe_clean_memzero(buffer, bytes);
     free(buffer);
     return;
 }
-- 
2.43.0


From c600c72665f7e8294aaff09395f9551eb9800f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 14/62] fix: threads using new fields at the same time
 corrupted the field list

The list was searched and extended without synchronization, and elements became
visible before they were initialised.
---
 src/field.c | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/field.c b/src/field.c
index a4ff60a..2a66c91 100644
--- a/src/field.c
+++ b/src/field.c
@@ -94,6 +94,7 @@ static void _cleanup_field_list(void) {
     _mpFp_field_list_t *head;
     
     head = _static_field_list;
+    _static_field_list = NULL;
     while (head != NULL) {
         _mpFp_field_list_t *hPtr;
         hPtr = head;
@@ -108,6 +109,7 @@ static void _cleanup_field_list(void) {
 mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     _mpFp_field_list_t **l;
     _mpFp_field_list_t *l_this;
+    _mpFp_field_list_t *l_new = NULL;
 
     size_t psz;
 
@@ -116,28 +118,40 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     // definition of contstant and recomile library
     assert ((psz * 2) <= _MPFP_MAX_LIMBS);
 
-    if (_static_field_list == NULL) {
-        atexit(&_cleanup_field_list);
-    }
-
+    // the list only ever grows at its end, with complete elements, so that it
+    // can be searched and extended by several threads at once
     l = &_static_field_list;
-    while (*l != NULL) {
-        l_this = *l;
+    while (1) {
+        l_this = __atomic_load_n(l, __ATOMIC_ACQUIRE);
+        if (l_this == NULL) {
+            if (l_new == NULL) {
+                l_new = (_mpFp_field_list_t *)malloc(sizeof(_mpFp_field_list_t));
+                assert(l_new != NULL);
+                l_new->fp = (mpFp_field_ptr)malloc(sizeof(_mpFp_field_struct));
+                assert(l_new->fp != NULL);
+                mpFp_field_init(l_new->fp);
+                mpFp_field_set_mpz(l_new->fp, p);
+                l_new->next = NULL;
+            }
+            if (__atomic_compare_exchange_n(l, &l_this, l_new, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+                if (l == &_static_field_list) {
+                    atexit(&_cleanup_field_list);
+                }
+                //gmp_printf("created field Fp: p = 0x%ZX\n", p);
+                return l_new->fp;
+            }
+            // another thread has added l_this
+        }
         if (mpz_cmp(l_this->fp->p, p) == 0) {
+            if (l_new != NULL) {
+                mpFp_field_clear(l_new->fp);
+                free(l_new->fp);
+                free(l_new);
+            }
             return l_this->fp;
         }
         l = &(l_this->next);
     }
-    l_this = (_mpFp_field_list_t *)malloc(sizeof(_mpFp_field_list_t));
-    assert(l_this != NULL);
-    l_this->fp = (mpFp_field_ptr)malloc(sizeof(_mpFp_field_struct));
-    assert(l_this->fp != NULL);
-    *l = l_this;
-    mpFp_field_init(l_this->fp);
-    mpFp_field_set_mpz(l_this->fp, p);
-    l_this->next = NULL;
-    //gmp_printf("created field Fp: p = 0x%ZX\n", p);
-    return l_this->fp;
 }
 
 static inline void mpFp_realloc(mpFp_t c) {
-- 
2.43.0


From e066e3eb399dcba204dd50b04b8fbcf17a19ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 15/62] fix: base point tables were visible before they were
 complete

A point used for base multiplication by several threads got its table on first
use, but base_bits announced it before it was built, and two threads could build
it at the same time. The temporary level points were never used.
---
 src/ecpoint.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 520b2ee..725f69d 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1463,27 +1463,24 @@ void mpECP_scalar_mul_mpz(mpECP_t rpt, mpECP_t pt, mpz_t sc) {
 void mpECP_scalar_base_mul_setup(mpECP_t pt) {
     int i, j, npts, nlevels, levelsz;
     mpECP_t a, b;
-    struct _p_mpECP_t *level_pt;
     struct _p_mpECP_t *base_pt;
-    if (pt->base_bits != 0) {
+    struct _p_mpECP_t *none;
+    if (__atomic_load_n(&(pt->base_bits), __ATOMIC_ACQUIRE) != 0) {
         // already set up... 
         return;
     }
     mpECP_init(a, pt->cvp);
     mpECP_init(b, pt->cvp);
-    assert(pt->base_bits == 0);
-    pt->base_bits = _MPECP_BASE_BITS;
-    npts = _mpECP_n_base_pts(pt);
+    // points are shared by threads, which can get here at the same time: do
+    // not touch pt before the table is complete
+    nlevels = (_scalar_bits(pt->cvp) + _MPECP_BASE_BITS - 1) / _MPECP_BASE_BITS;
+    levelsz = (1 << _MPECP_BASE_BITS);
+    npts = nlevels * levelsz;
     base_pt = (struct _p_mpECP_t *)malloc(npts * sizeof(struct _p_mpECP_t));
+    assert(base_pt != NULL);
     for (i = 0; i < npts; i++) {
         mpECP_init(&base_pt[i], pt->cvp);
     }
-    level_pt = (struct _p_mpECP_t *)malloc(pt->base_bits * sizeof(struct _p_mpECP_t));
-    for (i = 0; i < pt->base_bits; i++) {
-        mpECP_init(&(level_pt[i]), pt->cvp);
-    }
-    nlevels = _mpECP_n_base_pt_levels(pt);
-    levelsz = _mpECP_n_base_pt_level_size(pt);
     // printf("setup: levels = %d, levelsz = %d\n", nlevels, levelsz);
     mpECP_set(a, pt);
     for (j = 0; j < nlevels; j++) {
@@ -1494,11 +1491,15 @@ void mpECP_scalar_base_mul_setup(mpECP_t pt) {
         }
         mpECP_set(a, b);
     }
-    for (i = 0; i < pt->base_bits; i++) {
-        mpECP_clear(&(level_pt[i]));
+    none = NULL;
+    if (!__atomic_compare_exchange_n(&(pt->base_pt), &none, base_pt, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+        // another thread was first
+        for (i = 0; i < npts; i++) {
+            mpECP_clear(&base_pt[i]);
+        }
+        free(base_pt);
     }
-    free(level_pt);
-    pt->base_pt = base_pt;
+    __atomic_store_n(&(pt->base_bits), _MPECP_BASE_BITS, __ATOMIC_RELEASE);
     mpECP_clear(b);
     mpECP_clear(a);
     return;
@@ -1509,7 +1510,7 @@ void mpECP_scalar_base_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpz_t s, kmpz;
     mpECP_t a;
     assert (mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    if (pt->base_bits == 0) {
+    if (__atomic_load_n(&(pt->base_bits), __ATOMIC_ACQUIRE) == 0) {
         mpECP_scalar_base_mul_setup(pt);
     }
     mpz_init(s);
-- 
2.43.0


From a8d343773d0b70d1cd6fd1dce1f3ce924b7f08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 16/62] fix: exporting a point modified it

The getters and exports normalised their operand in place, which breaks threads
that share a public key or ciphertext as an input.
---
 src/ecpoint.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 725f69d..2e3a2e2 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -262,28 +262,41 @@ static inline void _transform_ws_to_mo_y(mpFp_t y, mpECP_t pt) {
     return;
 }
 
-void mpFp_set_mpECP_affine_x(mpFp_t x, mpECP_t pt) {
-    _mpECP_to_affine(pt);
+// getters and exports work on an affine copy, their operand can be shared by
+// threads and is not to be modified
+static inline void _mpECP_init_affine(mpECP_t a, mpECP_t pt) {
+    mpECP_init(a, pt->cvp);
+    mpECP_set(a, pt);
+    _mpECP_to_affine(a);
+}
+
+void mpFp_set_mpECP_affine_x(mpFp_t x, mpECP_t p) {
+    mpECP_t pt;
+    _mpECP_init_affine(pt, p);
     if (pt->cvp->type == EQTypeMontgomery) {
         _transform_ws_to_mo_x(x, pt);
     } else {
         mpFp_set(x, pt->x);
     }
+    mpECP_clear(pt);
     return;
 }
 
-void mpFp_set_mpECP_affine_y(mpFp_t y, mpECP_t pt) {
-    _mpECP_to_affine(pt);
+void mpFp_set_mpECP_affine_y(mpFp_t y, mpECP_t p) {
+    mpECP_t pt;
+    _mpECP_init_affine(pt, p);
     if (pt->cvp->type == EQTypeMontgomery) {
         _transform_ws_to_mo_y(y, pt);
     } else {
         mpFp_set(y, pt->y);
     }
+    mpECP_clear(pt);
     return;
 }
 
-void mpz_set_mpECP_affine_x(mpz_t x, mpECP_t pt) {
-    _mpECP_to_affine(pt);
+void mpz_set_mpECP_affine_x(mpz_t x, mpECP_t p) {
+    mpECP_t pt;
+    _mpECP_init_affine(pt, p);
     if (pt->cvp->type == EQTypeMontgomery) {
         mpFp_t t;
         mpFp_init_fp(t, pt->cvp->fp);
@@ -293,11 +306,13 @@ void mpz_set_mpECP_affine_x(mpz_t x, mpECP_t pt) {
     } else {
         mpz_set_mpFp(x, pt->x);
     }
+    mpECP_clear(pt);
     return;
 }
 
-void mpz_set_mpECP_affine_y(mpz_t y, mpECP_t pt) {
-    _mpECP_to_affine(pt);
+void mpz_set_mpECP_affine_y(mpz_t y, mpECP_t p) {
+    mpECP_t pt;
+    _mpECP_init_affine(pt, p);
     if (pt->cvp->type == EQTypeMontgomery) {
         mpFp_t t;
         mpFp_init_fp(t, pt->cvp->fp);
@@ -307,6 +322,7 @@ void mpz_set_mpECP_affine_y(mpz_t y, mpECP_t pt) {
     } else {
         mpz_set_mpFp(y, pt->y);
     }
+    mpECP_clear(pt);
     return;
 }
 
@@ -544,11 +560,12 @@ void mpECP_out_str(char *s, mpECP_t pt, int compress) {
     return;
 }
 
-void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
+void mpECP_out_bytes(unsigned char *s, mpECP_t p, int compress) {
     int bytes;
     size_t blen;
+    mpECP_t pt;
 
-    _mpECP_to_affine(pt);
+    _mpECP_init_affine(pt, p);
     bytes = _bytelen(pt->cvp->bits);
     if (pt->is_neutral) {
         int i;
@@ -557,6 +574,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
         for (i = 0; i < (bytes + 1); i++) {
             s[i] = 0;
         }
+        mpECP_clear(pt);
         return;
     }
     if (compress != 0) {
@@ -631,6 +649,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
         mpz_clear(yz);
     }
     mpz_clear(xz);
+    mpECP_clear(pt);
     //printf("exported as %s\n", s);
     return;
 }
-- 
2.43.0


From fcf815230ecd17c85db45e4807d54383896f4809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 17/62] fix: signatures with r = 0

Signing redraws the nonce if r is zero, but tested the x coordinate before its
reduction modulo the order.
---
 src/ecdsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 72929bd..350ece4 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -117,9 +117,10 @@ new_random:
 
     mpECP_scalar_base_mul(R, sscheme->cv_G, k_n);
     mpz_set_mpECP_affine_x(r, R);
-    if (__GMP_UNLIKELY(mpz_cmp_ui(r, 0) == 0)) goto new_random;
-
+    // r is the x coordinate modulo the order, which can be zero for x > 0
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
+    if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
+
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
     status = mpFp_inv(e_n, k_n);
-- 
2.43.0


From 424110f429f057f227a02a5407d2d8200c1540e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 18/62] fix: verification of invalid input

A missing message or a key of another curve crashed, and signatures for which the
sum is the neutral element could verify on Montgomery curves (the neutral element
got the x coordinate -A/3).
---
 src/ecdsa.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 350ece4..4da5a5b 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -157,10 +157,13 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_t Pq;
     int status;
 
-    if (sz == 0) return -1;
+    if ((msg == NULL) || (sz == 0)) return -1;
 
     if (sig == NULL) return -1;
 
+    // a key of another curve cannot have made the signature
+    if (mpECurve_cmp(pK->cvp, sig->sscheme->cvp) != 0) return -1;
+
     // validate signature input, presume public key was validated at import
     if ((mpz_cmp(sig->r->fp->p, sig->sscheme->cvp->n) != 0) ||
         (mpz_cmp(sig->s->fp->p, sig->sscheme->cvp->n) != 0)) {
@@ -172,6 +175,7 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     }
     
     hash = (unsigned char *)malloc(sig->sscheme->H->hsz * sizeof(char));
+    assert(hash != NULL);
 
     mpz_init(e);
     mpFp_init_fp(p_n, sig->sscheme->cvp->fp);
@@ -196,10 +200,15 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_scalar_base_mul(P, sig->sscheme->cv_G, u1);
     mpECP_scalar_mul(Pq, pK, u2);
     mpECP_add(P, P, Pq);
-    mpz_set_mpECP_affine_x(e, P);
-    mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);
+    if (P->is_neutral != 0) {
+        // the neutral element has no x coordinate
+        status = -1;
+    } else {
+        mpz_set_mpECP_affine_x(e, P);
+        mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);
 
-    status = mpFp_cmp(p_n, sig->r);
+        status = mpFp_cmp(p_n, sig->r);
+    }
 
     mpECP_clear(Pq);
     mpECP_clear(P);
-- 
2.43.0


From 3be9ca1e818dbcefe56e1534733cec642bf303ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 19/62] fix: missing checks of allocations

---
 src/ecdsa.c  | 2 ++
 src/ecurve.c | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 4da5a5b..7d42236 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -290,6 +290,7 @@ char *mpECDSASignature_export_str(mpECDSASignature_t sig) {
 
     ssz = bsz << 1;
     sstring = malloc((ssz + 1) * sizeof(char));
+    assert(sstring != NULL);
     for (i = 0; i < bsz; i++) {
         sprintf(&sstring[i<<1], "%02X", sbytes[i]);
     }
@@ -351,6 +352,7 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
 
     bsz = ssz >> 1;
     bbytes = (unsigned char *)malloc(bsz * sizeof(char));
+    assert(bbytes != NULL);
     for (i = 0; i < bsz; i++) {
         int hi, lo;
         hi = _hexval(ssig[i<<1]);
diff --git a/src/ecurve.c b/src/ecurve.c
index 17f97ef..1e57a11 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1251,21 +1251,25 @@ char **_mpECurve_list_standard_curves() {
     assert (list != NULL);
     for (i = 0; i < listws; i++) {
         name = (char *)malloc(sizeof(char)*strlen(_std_ws_curve[i].name)+1);
+        assert(name != NULL);
         strcpy(name, _std_ws_curve[i].name);
         list[i] = name;
     }
     for (i = 0; i < listed; i++) {
         name = (char *)malloc(sizeof(char)*strlen(_std_ed_curve[i].name)+1);
+        assert(name != NULL);
         strcpy(name, _std_ed_curve[i].name);
         list[i+listws] = name;
     }
     for (i = 0; i < listmo; i++) {
         name = (char *)malloc(sizeof(char)*strlen(_std_mo_curve[i].name)+1);
+        assert(name != NULL);
         strcpy(name, _std_mo_curve[i].name);
         list[i+listws+listed] = name;
     }
     for (i = 0; i < listte; i++) {
         name = (char *)malloc(sizeof(char)*strlen(_std_te_curve[i].name)+1);
+        assert(name != NULL);
         strcpy(name, _std_te_curve[i].name);
         list[i+listws+listed+listmo] = name;
     }
-- 
2.43.0


From 3e862ca9ccc4fb14cca41cc1826f25eda6ffd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 20/62] fix: decryption aborted if the halves referred to
 different curve objects

Ciphertexts assembled from received points can refer to equal curve objects, which
decrypt, or to different curves, which is an error.
---
 src/ecelgamal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecelgamal.c b/src/ecelgamal.c
index 30083fc..9a2d5b3 100644
--- a/src/ecelgamal.c
+++ b/src/ecelgamal.c
@@ -62,7 +62,9 @@ int mpECElgamal_init_encrypt(mpECElgamalCiphertext_t ctxt, mpECP_t pK, mpECP_t p
 }
 
 int mpECElgamal_init_decrypt(mpECP_t ptxt, mpFp_t sK, mpECElgamalCiphertext_t ctxt) {
-    assert(ctxt->C->cvp == ctxt->D->cvp);
+    if (mpECurve_cmp(ctxt->C->cvp, ctxt->D->cvp) != 0) {
+        return -1;
+    }
     if (mpz_cmp(sK->fp->p, ctxt->C->cvp->n) != 0) {
         return -1;
     }
-- 
2.43.0


From ed49c158c5ae3ba4ad6c587a4b6ee3feca384ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 21/62] fix: signing again after s = 0 used a wrong hash value

---
 src/ecdsa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 7d42236..f30f1e2 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -110,8 +110,9 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
         mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
     }
     free(hash);
-    mpFp_set_mpz(e_n, e, sscheme->cvp->n);
 new_random:
+    // e_n is overwritten below, so that each new attempt has to set it again
+    mpFp_set_mpz(e_n, e, sscheme->cvp->n);
     mpFp_urandom(k_n, sscheme->cvp->n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(k_n, 0) == 0)) goto new_random;
 
-- 
2.43.0


From 2e1939b6aa9a9f4baa64ec3cde8139837210736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:40 +0000
Subject: [PATCH 22/62] fix: convert Python integers of any size

A 2048 bit (256 byte) integer overflowed the conversion buffer on the stack by
one byte, larger ones were refused, larger values could not be converted back
and the sign of a negative value was lost.
---
 python/pygmplong.c | 136 ++++++++++++++++++++++-----------------------
 1 file changed, 65 insertions(+), 71 deletions(-)

diff --git a/python/pygmplong.c b/python/pygmplong.c
index b342e65..d570898 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -32,10 +32,12 @@
 #include <pygmplong.h>
 #include <Python.h>
 
-#define _MPFP_MAX_LIMBS   (32)
+// integers up to this many bytes are converted without allocating memory
+#define _PYLONG_STACK_BYTES   (256)
 
-int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+static int _pylong_to_mpz_common(PyLongObject *pobj, mpz_t pmpz, int is_signed) {
+	unsigned char sdata[_PYLONG_STACK_BYTES];
+	unsigned char *pdata = sdata;
 	size_t psz;
 	int status;
 	int negative;
@@ -50,97 +52,89 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 
 	// calculate the byte length of p
 	psz = _PyLong_NumBits((PyObject*)pobj);
-	//printf("psz = %d\n", psz);
-	psz >>= 3;
-
-	if (psz > sizeof(pdata)) {
+	if ((psz == (size_t)-1) && PyErr_Occurred()) {
 		return -1;
 	}
-	
-	// convert to bytes, initial 1 implies little endian, final 1 implies signed
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 1);
-
-	//{
-	//	int i;
-	//	printf("p= 0x");
-	//	for (i = 0; i <= psz; i++) {
-	//		printf("%02X", ((unsigned char *)pdata)[i]);
-	//	}
-	//	printf("\n");
-	//}
-
-	if (status != 0) {
-		return -1;
-	}
-
-	// mpz_import is inherently unsigned... detect sign
-	negative = (((unsigned char *)pdata)[psz] & 0x80) != 0;
-	
-	// take 1's complement if negative
-	if (negative) {
-		int i;
-		for (i = 0; i <= psz; i++) {
-			((unsigned char *)pdata)[i] ^= 0xFF;
+	// one more than whole bytes, leaves room for the sign bit
+	psz = (psz >> 3) + 1;
+
+	if (psz > sizeof(sdata)) {
+		pdata = (unsigned char *)PyMem_Malloc(psz);
+		if (pdata == NULL) {
+			PyErr_NoMemory();
+			return -1;
 		}
 	}
 
-	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
-	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	// convert to bytes, 1 implies little endian
+	status = _PyLong_AsByteArray(pobj, pdata, psz, 1, is_signed);
 
-	// convert to 2's complement and negate 	
-	if (negative) {
-		mpz_add_ui(pmpz, pmpz, 1);
-		mpz_neg(pmpz, pmpz);
-	}
-	
-	return 0;
-}
+	if (status == 0) {
+		// mpz_import is inherently unsigned... detect sign
+		negative = is_signed && ((pdata[psz - 1] & 0x80) != 0);
 
-int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
-	size_t psz;
-	int status;
+		// take 1's complement if negative
+		if (negative) {
+			size_t i;
+			for (i = 0; i < psz; i++) {
+				pdata[i] ^= 0xFF;
+			}
+		}
 
-	if (pobj == NULL) {
-    	return -1;
-	}
+		// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
+		mpz_import(pmpz, psz, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
 
-	if (!PyLong_Check(pobj)) {
-		return -1;
+		// convert to 2's complement and negate
+		if (negative) {
+			mpz_add_ui(pmpz, pmpz, 1);
+			mpz_neg(pmpz, pmpz);
+		}
 	}
 
-	// calculate the byte length of p
-	psz = _PyLong_NumBits((PyObject*)pobj);
-	psz >>= 3;
-
-	if (psz > sizeof(pdata)) {
-		return -1;
+	if (pdata != sdata) {
+		PyMem_Free(pdata);
 	}
+	return (status == 0) ? 0 : -1;
+}
 
-	// convert to bytes, 1 implies little endian, 0 implies unsigned
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 0);
-
-	if (status != 0) {
-		return -1;
-	}
+int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
+	return _pylong_to_mpz_common(pobj, pmpz, 1);
+}
 
-	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
-	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
-	
-	return 0;
+int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
+	return _pylong_to_mpz_common(pobj, pmpz, 0);
 }
 
 PyObject *_mpz_to_pylong(mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char sdata[_PYLONG_STACK_BYTES];
+	unsigned char *pdata = sdata;
 	size_t countp;
+	PyObject *p;
 
-	countp = sizeof(pdata);
+	countp = (mpz_sizeinbase(pmpz, 2) + 7) >> 3;
+	if (countp > sizeof(sdata)) {
+		pdata = (unsigned char *)PyMem_Malloc(countp);
+		if (pdata == NULL) {
+			return PyErr_NoMemory();
+		}
+	}
 
 	mpz_export((void *)pdata, &countp, -1, sizeof(unsigned char), -1, 0, pmpz);
 
-	// convert from bytes, 1 implies little endian, 0 implies unsigned
+	// convert from bytes (the magnitude), 1 implies little endian, 0 implies unsigned
 	// note, the mpz zero repr (no data written to pdata and countp=0 is correctly handled)
-	return _PyLong_FromByteArray((unsigned char*)pdata, countp, 1, (pmpz->_mp_size < 0));
+	p = _PyLong_FromByteArray(pdata, countp, 1, 0);
+	if (pdata != sdata) {
+		PyMem_Free(pdata);
+	}
+	if ((p != NULL) && (mpz_sgn(pmpz) < 0)) {
+		PyObject *n;
+
+		n = PyNumber_Negative(p);
+		Py_DECREF(p);
+		p = n;
+	}
+	return p;
 }
 
 PyObject *_mpFp_to_pylong(mpFp_t pFp) {
-- 
2.43.0


From 7272901e949d4bd97adeeffbd91ad0d6ac36c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 23/62] fix: comparing field elements of different fields is
 not an abort

---
 python/pyfield.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 4e0ad91..f37aeec 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -428,14 +428,17 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		if (!PyObject_TypeCheck((PyObject *)b, &FieldElementType)) {
 			Py_RETURN_NOTIMPLEMENTED;
 		}
+		// elements of different fields are never equal
 		switch (op) {
 		case Py_EQ:
-			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0) {
+			if ((((FieldElement *)a)->fe->fp == ((FieldElement *)b)->fe->fp) &&
+				(mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0)) {
 				result = 1;
 			}
 			break;
 		case Py_NE:
-			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) != 0) {
+			if ((((FieldElement *)a)->fe->fp != ((FieldElement *)b)->fe->fp) ||
+				(mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) != 0)) {
 				result = 1;
 			}
 			break;
-- 
2.43.0


From cfadbfeafd1e16393fc2bcc98bd482a620e30de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 24/62] fix: subtracting a field element from something that is
 not a number

None - element and the like dereferenced a missing table of number methods.
---
 python/pyfield.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index f37aeec..bc64b1e 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -222,9 +222,14 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 			PyObject *nop1;
 			PyObject *nop2;
+			if (!PyLong_Check((PyObject *)op1)) {
+				Py_RETURN_NOTIMPLEMENTED;
+			}
 			nop1 = (Py_TYPE(op1))->tp_as_number->nb_negative((PyObject *)op1);
 			nop2 = (Py_TYPE(op2))->tp_as_number->nb_negative((PyObject *)op2);
 			if ((nop1 == NULL) || (nop2 == NULL)) {
+				Py_XDECREF(nop1);
+				Py_XDECREF(nop2);
 				return NULL;
 			}
 			rop = (FieldElement *)FieldElement_op_sub((FieldElement *)nop2, (FieldElement *)nop1);
-- 
2.43.0


From e13f4db2261e9e3a89d9a3eeb09e98e9c863aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 25/62] fix: release the field element and integer of
 operations without a result

---
 python/pyfield.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index bc64b1e..8f36307 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -343,6 +343,7 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
     status = mpFp_inv(rop->fe, op1->fe);
     if (__GMP_UNLIKELY(status != 0)) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -360,6 +361,7 @@ static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
     status = mpFp_sqrt(rop->fe, op1->fe);
     if (status != 0) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -426,6 +428,7 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 			}
 			break;
 		default:
+			mpz_clear(bmpz);
 			Py_RETURN_NOTIMPLEMENTED;
 		}
 		mpz_clear(bmpz);
-- 
2.43.0


From 9d58282de7566aef9ddf513f9e69d6df569f60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 26/62] fix: FieldElement reports failed allocations and
 conversions

---
 python/pyfield.c | 53 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 8f36307..919abfe 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -142,10 +142,19 @@ static PyObject *FieldElement_op_add_pylong(FieldElement *op1, PyLongObject *op2
 	mpz_init(op2z);
 	mpFp_init_fp(op2f, op1->fe->fp);
 
-	_pylong_to_mpz(op2, op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) {
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -183,6 +192,7 @@ static PyObject *FieldElement_op_add(FieldElement *op1, FieldElement *op2) {
 	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -199,10 +209,19 @@ static PyObject *FieldElement_op_sub_pylong(FieldElement *op1, PyLongObject *op2
 	mpz_init(op2z);
 	mpFp_init_fp(op2f, op1->fe->fp);
 
-	_pylong_to_mpz(op2, op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) {
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -255,6 +274,7 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -271,10 +291,19 @@ static PyObject *FieldElement_op_mul_pylong(FieldElement *op1, PyLongObject *op2
 	mpz_init(op2z);
 	mpFp_init_fp(op2f, op1->fe->fp);
 
-	_pylong_to_mpz(op2, op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) {
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -312,6 +341,7 @@ static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -324,6 +354,7 @@ static PyObject *FieldElement_op_neg(FieldElement *op1) {
 	FieldElement *rop;
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -337,6 +368,7 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
 	int status;
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -355,6 +387,7 @@ static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
 	int status;
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpz_init(rop->fe->i);
     rop->fe->fp = op1->fe->fp;
     mpFp_realloc(rop->fe);
@@ -390,6 +423,10 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 	}
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) {
+		mpz_clear(pmpz);
+		return NULL;
+	}
     mpFp_urandom(rop->fe, pmpz);
 
     mpz_clear(pmpz);
@@ -411,8 +448,8 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		
 		mpz_init(bmpz);
 		status = _pylong_to_mpz((PyLongObject *)b, bmpz);
-		assert(status == 0);
 		if (status != 0) {
+			mpz_clear(bmpz);
 			PyErr_SetString(PyExc_TypeError, "Error converting integer to mpz_t");
 			return NULL;
 		}
@@ -489,6 +526,7 @@ static PyObject *FieldElement_op_power(FieldElement *a, FieldElement *b, PyObjec
 	mpz_clear(bmpz);
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpz_init(rop->fe->i);
     rop->fe->fp = a->fe->fp;
     mpFp_realloc(rop->fe);
@@ -504,9 +542,12 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
 	
 	i = _mpz_to_pylong(((FieldElement *)a)->fe->i);
-	assert(i != NULL);
+	if (i == NULL) return NULL;
 	p = _mpz_to_pylong(((FieldElement *)a)->fe->fp->p);
-	assert(p != NULL);
+	if (p == NULL) {
+		Py_DECREF(i);
+		return NULL;
+	}
 	rep = PyUnicode_FromFormat("ECC.FieldElement(%S, %S)", i, p);
 	Py_DECREF(p);
 	Py_DECREF(i);
-- 
2.43.0


From dac2345df6696d64107d404116864346bdee1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 27/62] fix: FieldElement refuses a modulus the field
 arithmetic cannot represent

0 and 1 and moduli of more than 1024 bits ended the interpreter.
---
 python/pyfield.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index 919abfe..74eec60 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -47,6 +47,11 @@ static inline void mpFp_realloc(mpFp_t c) {
     }
 }
 
+// the modulus must fit the fixed size of the field arithmetic
+static int _valid_modulus(mpz_t p) {
+	return (mpz_cmp_ui(p, 1) > 0) && (mpz_size(p) * 2 <= _MPFP_MAX_LIMBS);
+}
+
 PyDoc_STRVAR(FieldElement__doc__,
 "FieldElement implements a prime field element type.\n");
 
@@ -86,6 +91,11 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 		mpz_clear(pmpz);
 		return -1;
 	}
+	if (!_valid_modulus(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement modulus out of range");
+		mpz_clear(pmpz);
+		return -1;
+	}
 
 	mpz_init(impz);
     status = _pylong_to_mpz(i, impz);
@@ -421,6 +431,11 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 		mpz_clear(pmpz);
 		return NULL;
 	}
+	if (!_valid_modulus(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement modulus out of range");
+		mpz_clear(pmpz);
+		return NULL;
+	}
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	if (rop == NULL) {
-- 
2.43.0


From 931e9cf1879ac75afc6918ace3563272b6ea6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 28/62] fix: ECurve releases the curve when its name is unknown

---
 python/pycurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pycurve.c b/python/pycurve.c
index 41deffc..fd908b0 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -72,6 +72,7 @@ static int ECurve_init(ECurve *self, PyObject *args, PyObject *kwargs) {
     status = mpECurve_set_named(self->ec, name);
     
     if (status != 0) {
+		mpECurve_clear(self->ec);
 		PyErr_SetString(PyExc_ValueError, "Unable to find curve matching name");
 		return -1;
     }
-- 
2.43.0


From 25f46a51652adecd0fa030be4fa17f5879278714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 29/62] fix: coordinates returned to Python are not leaked

---
 python/pycurve.c | 3 +--
 python/pypoint.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index fd908b0..75b5e3e 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -626,12 +626,11 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
         t = PyTuple_New(2);
         assert(t != NULL);
 
+        // the tuple takes over the references
         status = PyTuple_SetItem(t, 0, gx);
         assert(status == 0);
-        Py_INCREF(gx);
         status = PyTuple_SetItem(t, 1, gy);
         assert(status == 0);
-        Py_INCREF(gy);
 
         return t;
     }
diff --git a/python/pypoint.c b/python/pypoint.c
index 4a9d2d8..80fee10 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -450,12 +450,11 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 	rt = PyTuple_New(2);
     assert(rt != NULL);
 
+    // the tuple takes over the references
     status = PyTuple_SetItem(rt, 0, rx);
     assert(status == 0);
-    Py_INCREF(rx);
     status = PyTuple_SetItem(rt, 1, ry);
     assert(status == 0);
-    Py_INCREF(ry);
 
 	return (PyObject *)rt;
 }
-- 
2.43.0


From ae8f87d42a15ad04483a7b793f1569ac38ceff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 30/62] fix: ECurve reports failed allocations and conversions

---
 python/pycurve.c | 64 ++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 75b5e3e..34a919b 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -214,6 +214,7 @@ static PyObject *ECurve_create_ws(PyObject *none, PyObject *args) {
     if (status != 0) goto ConversionError;
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
+	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
     status = mpECurve_set_mpz_ws(rop->ec, pmpz, ampz, bmpz, nmpz, hmpz, gxmpz, gympz, bits);
 	rop->ready = 1;
@@ -299,6 +300,7 @@ static PyObject *ECurve_create_ed(PyObject *none, PyObject *args) {
     if (status != 0) goto ConversionError;
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
+	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
     status = mpECurve_set_mpz_ed(rop->ec, pmpz, cmpz, dmpz, nmpz, hmpz, gxmpz, gympz, bits);
 	rop->ready = 1;
@@ -384,6 +386,7 @@ static PyObject *ECurve_create_mo(PyObject *none, PyObject *args) {
     if (status != 0) goto ConversionError;
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
+	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
     status = mpECurve_set_mpz_mo(rop->ec, pmpz, Bmpz, Ampz, nmpz, hmpz, gxmpz, gympz, bits);
 	rop->ready = 1;
@@ -469,6 +472,7 @@ static PyObject *ECurve_create_te(PyObject *none, PyObject *args) {
     if (status != 0) goto ConversionError;
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
+	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
     status = mpECurve_set_mpz_te(rop->ec, pmpz, ampz, dmpz, nmpz, hmpz, gxmpz, gympz, bits);
 	rop->ready = 1;
@@ -512,13 +516,16 @@ static PyObject *ECurve_list_curve_names(PyObject *type, PyObject *none) {
     assert(list != NULL);
 
     clist = PyList_New(0);
-    assert(clist != NULL);
+    if (clist == NULL) return NULL;
     while (list[i] != NULL) {
         int status;
         PyObject *pstr;
 
         pstr = PyUnicode_FromString(list[i]);
-        assert(pstr != NULL);
+        if (pstr == NULL) {
+            Py_DECREF(clist);
+            return NULL;
+        }
         status = PyList_Append(clist, pstr);
         Py_DECREF(pstr);
         if (status != 0) {
@@ -535,62 +542,51 @@ static PyObject *ECurve_list_curve_names(PyObject *type, PyObject *none) {
 static PyObject *ECurve_repr(PyObject *a) {
 	PyObject *p, *c1, *c2, *n, *h, *gx, *gy;
 	unsigned int bits;
-	PyObject *rep;
+	PyObject *rep = NULL;
 	assert(PyObject_TypeCheck(a, &ECurveType) != 0);
 	
 	p = _mpz_to_pylong(((ECurve *)a)->ec->fp->p);
-	assert(p != NULL);
 	n = _mpz_to_pylong(((ECurve *)a)->ec->n);
-	assert(p != NULL);
 	h = _mpz_to_pylong(((ECurve *)a)->ec->h);
-	assert(p != NULL);
 	gx = _mpz_to_pylong(((ECurve *)a)->ec->G[0]);
-	assert(p != NULL);
 	gy = _mpz_to_pylong(((ECurve *)a)->ec->G[1]);
-	assert(p != NULL);
 	bits = ((ECurve *)a)->ec->bits;
 	c1 = NULL;
 	c2 = NULL;
+	if ((p == NULL) || (n == NULL) || (h == NULL) || (gx == NULL) || (gy == NULL)) goto Cleanup;
 	switch (((ECurve *)a)->ec->type) {
     case EQTypeShortWeierstrass:
     	c1 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.ws.a);
-    	assert(c1 != NULL);
     	c2 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.ws.b);
-    	assert(c2 != NULL);
-        rep = PyUnicode_FromFormat("ECC.ECurve.ShortWeierstrass(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
+        if ((c1 != NULL) && (c2 != NULL)) rep = PyUnicode_FromFormat("ECC.ECurve.ShortWeierstrass(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
         break;
     case EQTypeEdwards:
     	c1 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.ed.c);
-    	assert(c1 != NULL);
     	c2 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.ed.d);
-    	assert(c2 != NULL);
-        rep = PyUnicode_FromFormat("ECC.ECurve.Edwards(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
+        if ((c1 != NULL) && (c2 != NULL)) rep = PyUnicode_FromFormat("ECC.ECurve.Edwards(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
         break;
     case EQTypeMontgomery:
     	c1 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.mo.B);
-    	assert(c1 != NULL);
     	c2 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.mo.A);
-    	assert(c2 != NULL);
-        rep = PyUnicode_FromFormat("ECC.ECurve.Montgomery(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
+        if ((c1 != NULL) && (c2 != NULL)) rep = PyUnicode_FromFormat("ECC.ECurve.Montgomery(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
         break;
     case EQTypeTwistedEdwards:
     	c1 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.te.a);
-    	assert(c1 != NULL);
     	c2 = _mpFp_to_pylong(((ECurve *)a)->ec->coeff.te.d);
-    	assert(c2 != NULL);
-        rep = PyUnicode_FromFormat("ECC.ECurve.TwistedEdwards(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
+        if ((c1 != NULL) && (c2 != NULL)) rep = PyUnicode_FromFormat("ECC.ECurve.TwistedEdwards(%S, %S, %S, %S, %S, %S, %S, %d)", p, c1, c2, n, h, gx, gy, bits);
         break;
     default:
         PyErr_SetString(PyExc_AssertionError, "ECurve object has unknown/uninitialized type");
         rep = NULL;
 	}
-	Py_DECREF(gy);
-	Py_DECREF(gx);
-	Py_DECREF(h);
-	Py_DECREF(n);
-	if (c2 != NULL) Py_DECREF(c2);
-	if (c1 != NULL) Py_DECREF(c1);
-	Py_DECREF(p);
+Cleanup:
+	Py_XDECREF(gy);
+	Py_XDECREF(gx);
+	Py_XDECREF(h);
+	Py_XDECREF(n);
+	Py_XDECREF(c2);
+	Py_XDECREF(c1);
+	Py_XDECREF(p);
 	return rep;
 }
 
@@ -620,11 +616,13 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
 
         gx = _mpz_to_pylong(cv->ec->G[0]);
         gy = _mpz_to_pylong(cv->ec->G[1]);
-        assert(gx != NULL);
-        assert(gy != NULL);
-        
         t = PyTuple_New(2);
-        assert(t != NULL);
+        if ((gx == NULL) || (gy == NULL) || (t == NULL)) {
+            Py_XDECREF(gx);
+            Py_XDECREF(gy);
+            Py_XDECREF(t);
+            return NULL;
+        }
 
         // the tuple takes over the references
         status = PyTuple_SetItem(t, 0, gx);
@@ -706,7 +704,8 @@ static PyObject *ECurve_getattro(PyObject *o, PyObject *attr_name) {
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECurve_getattr(o, attr_nm_c);
 }
@@ -715,6 +714,7 @@ PyObject *PyECurve_FromECurve(mpECurve_t cv) {
     ECurve *rop;
 
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpECurve_init(rop->ec);
 	mpECurve_set(rop->ec, cv);
 	rop->ready = 1;
-- 
2.43.0


From 09da89b7e45bbd3bdbb282dd97e90b87dc91d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 31/62] fix: ECurve refuses a field or order the field
 arithmetic cannot represent

Zero and values of more than 1024 bits ended the interpreter.
---
 python/pycurve.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/pycurve.c b/python/pycurve.c
index 34a919b..bf892d5 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -39,6 +39,13 @@
 #include <Python.h>
 #include <structmember.h>
 
+#define _MPFP_MAX_LIMBS   (32)
+
+// the field and the order must fit the fixed size of the field arithmetic
+static int _valid_modulus(mpz_t p) {
+	return (mpz_cmp_ui(p, 1) > 0) && (mpz_size(p) * 2 <= _MPFP_MAX_LIMBS);
+}
+
 PyDoc_STRVAR(ECurve__doc__,
 "ECurve implements a general interface to elliptic curve parameters of multiple types.\n");
 
@@ -213,6 +220,8 @@ static PyObject *ECurve_create_ws(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)gy, gympz);
     if (status != 0) goto ConversionError;
     
+    if ((!_valid_modulus(pmpz)) || (!_valid_modulus(nmpz))) goto ConversionError;
+
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
@@ -299,6 +308,8 @@ static PyObject *ECurve_create_ed(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)gy, gympz);
     if (status != 0) goto ConversionError;
     
+    if ((!_valid_modulus(pmpz)) || (!_valid_modulus(nmpz))) goto ConversionError;
+
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
@@ -385,6 +396,8 @@ static PyObject *ECurve_create_mo(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)gy, gympz);
     if (status != 0) goto ConversionError;
     
+    if ((!_valid_modulus(pmpz)) || (!_valid_modulus(nmpz))) goto ConversionError;
+
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
@@ -471,6 +484,8 @@ static PyObject *ECurve_create_te(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)gy, gympz);
     if (status != 0) goto ConversionError;
     
+    if ((!_valid_modulus(pmpz)) || (!_valid_modulus(nmpz))) goto ConversionError;
+
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	if (rop == NULL) goto ConversionError;
 	mpECurve_init(rop->ec);
-- 
2.43.0


From 73bc88d21337faf0c72aec210a0a8f9b247ecd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 32/62] fix: ECPoint.urandom raises an exception for anything
 but a curve

---
 python/pypoint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 80fee10..511d3bc 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -415,7 +415,10 @@ PyDoc_STRVAR(ECPoint_urandom__doc__,
 static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	ECPoint *rop;
 	
-	assert(PyObject_TypeCheck((PyObject *)curve, &ECurveType));
+	if (!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+		PyErr_SetString(PyExc_TypeError, "ECPoint_urandom: expected ECurve type");
+		return NULL;
+	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
     mpECP_urandom(rop->ecp, curve->ec);
-- 
2.43.0


From a3faaa38809f07a02bb0777c42fe06672b3c854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 33/62] fix: an ECPoint with a rejected initial value releases
 its curve

---
 python/pypoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 511d3bc..ede7d93 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -85,6 +85,8 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 	mpECP_init(self->ecp, ((ECurve *)curve)->ec);
 	self->cv = (ECurve *)curve;
 	Py_INCREF(curve);
+	// from here on the point and its curve are released with the object
+	self->ready = 1;
 	if (initial == NULL) {
 	    mpECP_set_neutral(self->ecp, ((ECurve *)curve)->ec);
     } else {
@@ -181,8 +183,6 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         }
     }
 
-	// you're ready!
-	self->ready = 1;
 	// all's clear
 	return 0;
 }
-- 
2.43.0


From 9c5506ae11220a81a652a8f91341afa6e1ffcf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 34/62] fix: ECPoint reports failed allocations and conversions

and releases the texts its representation is made of.
---
 python/pypoint.c | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index ede7d93..6d90371 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -112,9 +112,13 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 }
                 
                 mpz_init(ixmpz);
-                _pylong_to_mpz((PyLongObject *)ix, ixmpz);
                 mpz_init(iympz);
-                _pylong_to_mpz((PyLongObject *)iy, iympz);
+                if ((_pylong_to_mpz((PyLongObject *)ix, ixmpz) != 0) ||
+                    (_pylong_to_mpz((PyLongObject *)iy, iympz) != 0)) {
+                    mpz_clear(iympz);
+                    mpz_clear(ixmpz);
+                    return -1;
+                }
 
                 mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
                 
@@ -141,6 +145,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 char *buffer;
 
                 buffer = (char *)PyUnicode_AsUTF8(initial);
+                if (buffer == NULL) return -1;
                 status = mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
@@ -198,6 +203,7 @@ static PyObject *ECPoint_str(PyObject *self) {
 
 	bsize = mpECP_out_strlen(ecself->ecp, 1);
 	buffer = (char *)malloc(2*bsize*sizeof(char));
+	if (buffer == NULL) return PyErr_NoMemory();
 	mpECP_out_str(buffer, ecself->ecp, 1);
 	pointstr = PyUnicode_FromStringAndSize(buffer, bsize);
 	free(buffer);
@@ -216,6 +222,7 @@ static PyObject *ECPoint_binary(PyObject *self) {
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 1);
 	buffer = (unsigned char *)malloc(2*bsize*sizeof(char));
+	if (buffer == NULL) return PyErr_NoMemory();
 	mpECP_out_bytes(buffer, ecself->ecp, 1);
 	pointbin = PyBytes_FromStringAndSize((char*)buffer, bsize);
 	free(buffer);
@@ -234,6 +241,7 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 0);
 	buffer = (unsigned char *)malloc(2*bsize*sizeof(char));
+	if (buffer == NULL) return PyErr_NoMemory();
 	mpECP_out_bytes(buffer, ecself->ecp, 0);
 	pointbin = PyBytes_FromStringAndSize((char*)buffer, bsize);
 	free(buffer);
@@ -244,16 +252,25 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
 static PyObject *ECPoint_repr(PyObject *self) {
     PyObject *pointstr;
     PyObject *cvstr;
+    PyObject *repstr;
     ECPoint *ecself;
 
 	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
 	ecself = (ECPoint *)self;
 
     pointstr = ECPoint_str(self);
+    if (pointstr == NULL) return NULL;
 
     cvstr = Py_TYPE((PyObject *)(ecself->cv))->tp_repr((PyObject *)(ecself->cv));
+    if (cvstr == NULL) {
+        Py_DECREF(pointstr);
+        return NULL;
+    }
 
-	return PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+    repstr = PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+    Py_DECREF(cvstr);
+    Py_DECREF(pointstr);
+    return repstr;
 }
 
 // deallocates the object when done
@@ -312,6 +329,7 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
 	}
 	
 	rop = (ECPoint *)ECPoint_new(&ECPointType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpECP_init(rop->ecp, op1->ecp->cvp);
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
@@ -334,6 +352,7 @@ static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
 	}
 	
 	rop = (ECPoint *)ECPoint_new(&ECPointType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpECP_init(rop->ecp, op1->ecp->cvp);
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
@@ -351,6 +370,7 @@ static PyObject *ECPoint_op_neg(ECPoint *op1) {
 	}
 	
 	rop = (ECPoint *)ECPoint_new(&ECPointType, NULL, NULL);
+	if (rop == NULL) return NULL;
 	mpECP_init(rop->ecp, op1->ecp->cvp);
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
@@ -378,7 +398,10 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	    int status;
 
 		status = _pylong_to_mpz((PyLongObject *)op2, scalar);
-		assert(status == 0);
+		if (status != 0) {
+			mpz_clear(scalar);
+			return NULL;
+		}
 		if (mpz_cmp_ui(scalar, 0) < 0) {
 		    negative = 1;
 		    mpz_neg(scalar, scalar);
@@ -386,10 +409,15 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	} else if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 	    mpz_set_mpFp(scalar, ((FieldElement *)op2)->fe);
     } else {
+		mpz_clear(scalar);
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
+	if (rop == NULL) {
+		mpz_clear(scalar);
+		return NULL;
+	}
 	mpECP_init(rop->ecp, p->ecp->cvp);
     rop->cv = p->cv;
     Py_INCREF(rop->cv);
@@ -421,6 +449,7 @@ static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
+	if (rop == NULL) return NULL;
     mpECP_urandom(rop->ecp, curve->ec);
     rop->cv = curve;
     Py_INCREF(rop->cv);
@@ -451,7 +480,12 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 	mpz_clear(zy);
 
 	rt = PyTuple_New(2);
-    assert(rt != NULL);
+    if ((rx == NULL) || (ry == NULL) || (rt == NULL)) {
+        Py_XDECREF(rx);
+        Py_XDECREF(ry);
+        Py_XDECREF(rt);
+        return NULL;
+    }
 
     // the tuple takes over the references
     status = PyTuple_SetItem(rt, 0, rx);
-- 
2.43.0


From 58ae17ea7499476221d397410930682aef188f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 35/62] fix: a point taken out of a ciphertext keeps its curve
 alive

It referred to the curve of the ciphertext, which could be released first,
while the copy it was given was never released.
---
 python/pypoint.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 6d90371..8c9a95c 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -508,10 +508,16 @@ PyObject *PyECPoint_FromECP(mpECP_t pt) {
 	ECPoint *rop;
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
+	if (rop == NULL) return NULL;
+	rop->cv = (ECurve *)PyECurve_FromECurve(pt->cvp);
+	if (rop->cv == NULL) {
+		Py_DECREF(rop);
+		return NULL;
+	}
 	mpECP_init(rop->ecp, pt->cvp);
 	mpECP_set(rop->ecp, pt);
-	rop->cv = (ECurve *)PyECurve_FromECurve(pt->cvp);
-	Py_INCREF(rop->cv);
+	// refer to the curve which lives as long as the point
+	rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
 	return (PyObject *)rop;
 }
-- 
2.43.0


From aa85b3b901c54e40851b3d4f7b761472b630c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 36/62] fix: failing or inconsistent hash modules raise in
 ECDSA, messages and keys keep their reference counts

---
 python/pyecdsa.c | 240 +++++++++++++++++++++--------------------------
 1 file changed, 109 insertions(+), 131 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 00af979..7afc157 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -42,62 +42,61 @@
 #include <Python.h>
 #include <structmember.h>
 
-// since we want to call back into a python hash function to generate the
-// message digest we need to pass both a pointer to the message and the
-// python hash function module in place of msg pointer
+// the message digest comes from a python hash function, which can fail and
+// can run any other python code. So the digest is made before calling into
+// the library and is passed in place of the msg pointer
 typedef struct {
-    PyObject *hashmodule;
-    PyObject *msg;
+    unsigned char *digest;
+    size_t hsz;
 } _hash_and_msg_t;
 
-// c routine to call the python hash function - note presumes that the
-// the msg has been replaced by _hash_and_msg_t to encode both the python
-// hash function and the message bytes (python bytes object)
+// c routine to report the digest - note presumes that the msg has been
+// replaced by _hash_and_msg_t with a digest of the size of the hash function
 static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
     _hash_and_msg_t *ham;
-    PyObject *mdict;
+
+    ham = (_hash_and_msg_t *)msg;
+    memcpy(hash, ham->digest, ham->hsz);
+    return;
+}
+
+// call the python hash function for a message (python bytes object).
+// returns a new reference to the digest (python bytes object with a size
+// of hsz) or NULL with an exception set
+static PyObject *_python_hash(PyObject *hashmodule, PyObject *msg, size_t hsz) {
     PyObject *hnew;
-    PyObject *tuple;
     PyObject *pyhash;
     PyObject *hbytes;
-    int status;
-    Py_ssize_t hsz;
-    unsigned char *digest;
-    
-    ham = (_hash_and_msg_t *)msg;
-    
-    // no way to error out here, calling function must ensure message is bytes
-    assert(PyBytes_Check(ham->msg));
 
     // call hash.new(msg) to initialize and process message
-    mdict = PyModule_GetDict(ham->hashmodule);
-    assert(PyDict_Check(mdict));
-    hnew = PyDict_GetItemString(mdict, "new");
-    assert(PyFunction_Check(hnew));
-    assert(PyCallable_Check(hnew));
-    Py_INCREF(hnew);
+    hnew = PyDict_GetItemString(PyModule_GetDict(hashmodule), "new");
+    if ((hnew == NULL) || (!PyFunction_Check(hnew))) {
+        PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
+        return NULL;
+    }
 
-    tuple = PyTuple_New(1);
-    assert(tuple != NULL);
-    Py_INCREF(ham->msg);
-    status = PyTuple_SetItem(tuple, 0, ham->msg);
-    assert(status == 0);
-    pyhash = PyObject_CallObject(hnew, tuple);
-    assert(pyhash != NULL);
-    Py_DECREF(ham->msg);
+    Py_INCREF(hnew);
+    pyhash = PyObject_CallFunctionObjArgs(hnew, msg, NULL);
     Py_DECREF(hnew);
+    if (pyhash == NULL) return NULL;
 
-    Py_INCREF(pyhash);
     hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-    assert(PyBytes_Check(hbytes));
     Py_DECREF(pyhash);
+    if (hbytes == NULL) return NULL;
 
-    hsz = PyBytes_Size(hbytes);
-    status = PyBytes_AsStringAndSize(hbytes, (char **)&digest, &hsz);
-    assert(status == 0);
+    if (!PyBytes_Check(hbytes)) {
+        Py_DECREF(hbytes);
+        PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
+        return NULL;
+    }
 
-    memcpy(hash, digest, hsz);
-    return;
+    if (PyBytes_Size(hbytes) != hsz) {
+        Py_DECREF(hbytes);
+        PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
+        return NULL;
+    }
+
+    return hbytes;
 }
 
 PyDoc_STRVAR(ECDSASignature__doc__,
@@ -245,6 +244,8 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     ECDSASignature *ssis;
     ECPoint *kpt;
     PyObject *bytes;
+    PyObject *digest;
+    size_t bsz;
     _hash_and_msg_t ham;
     int status;
     
@@ -264,21 +265,27 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) return NULL;
     }
-    
-    ham.hashmodule = ssis->ss->hashmodule;
-    ham.msg = bytes;
-
-    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&ham, PyBytes_Size(bytes));
 
+    bsz = PyBytes_Size(bytes);
+    digest = _python_hash(ssis->ss->hashmodule, bytes, ssis->ss->sscheme->H->hsz);
     Py_DECREF(bytes);
+    if (digest == NULL) return NULL;
+
+    ham.digest = (unsigned char *)PyBytes_AsString(digest);
+    ham.hsz = ssis->ss->sscheme->H->hsz;
+
+    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&ham, bsz);
+
+    Py_DECREF(digest);
     if (status != 0) {
         Py_INCREF(Py_False);
         return Py_False;
@@ -366,6 +373,8 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     PyObject *hashmodule;
     PyObject *hashmodule_dict;
     PyObject *digest_size;
+    PyObject *mbytes;
+    PyObject *hbytes;
     mpECDSAHashfunc_t hf;
     long int hsz;
     int status;
@@ -394,7 +403,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     digest_size = PyDict_GetItemString(hashmodule_dict, "digest_size");
 
-    if (!PyLong_Check(digest_size)) {
+    if ((digest_size == NULL) || (!PyLong_Check(digest_size))) {
         PyErr_SetString(PyExc_TypeError, "Hash module digest_size is not an Integer(PyLong) type");
         return -1;
     }
@@ -406,69 +415,12 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     }
 
     // test hash module all the way through
-    {
-        PyObject *hnew;
-        PyObject *tuple;
-        PyObject *pyhash;
-        PyObject *mbytes;
-        PyObject *hbytes;
-        Py_ssize_t bsz;
-
-        // call hash.new(msg) to initialize and process message
-        hnew = PyDict_GetItemString(hashmodule_dict, "new");
-        if (!PyFunction_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
-            return -1;
-        }
-    
-        if (!PyCallable_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() function is not callable");
-            return -1;
-        }
-        Py_INCREF(hnew);
-
-        tuple = PyTuple_New(1);
-        if (tuple == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Tuple Failed !?");
-            return -1;
-        }
-
-        mbytes = PyBytes_FromStringAndSize("test", 4);
-        if (mbytes == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Bytes from String Failed !?");
-            return -1;
-        }
-        Py_INCREF(mbytes);
-
-        status = PyTuple_SetItem(tuple, 0, mbytes);
-        if (status != 0) {
-            PyErr_SetString(PyExc_TypeError, "Tuple SetItem Failed !?");
-            return -1;
-        }
-
-        pyhash = PyObject_CallObject(hnew, tuple);
-        if (pyhash == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Call Hash returned NULL");
-            return -1;
-        }
-
-        Py_DECREF(mbytes);
-        Py_DECREF(hnew);
-        
-        Py_INCREF(pyhash);
-        hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-        if (!PyBytes_Check(hbytes)) {
-            PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
-            return -1;
-        }
-        Py_DECREF(pyhash);
-        
-        bsz = PyBytes_Size(hbytes);
-        if (bsz != hsz) {
-            PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
-            return -1;
-        }
-    }
+    mbytes = PyBytes_FromStringAndSize("test", 4);
+    if (mbytes == NULL) return -1;
+    hbytes = _python_hash(hashmodule, mbytes, hsz);
+    Py_DECREF(mbytes);
+    if (hbytes == NULL) return -1;
+    Py_DECREF(hbytes);
 
     Py_INCREF(hashmodule);
     self->hashmodule = hashmodule;
@@ -482,6 +434,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     if (status != 0) {
         Py_DECREF(curve);
         Py_DECREF(hashmodule);
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_init: cannot initialize scheme for curve");
         return -1;
     }
 
@@ -528,8 +481,11 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     PyObject *msg;
     ECDSASignatureScheme *ss;
     ECDSASignature *psig;
-    FieldElement *kfe;
+    mpFp_t fe;
+    mpFp_ptr kfe;
     PyObject *bytes;
+    PyObject *digest;
+    size_t bsz;
     _hash_and_msg_t ham;
     int status;
     
@@ -542,22 +498,13 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 	}
 
     if(PyObject_TypeCheck(key, &FieldElementType)) {
-        kfe = (FieldElement *)key;
-    } else if (PyLong_Check(key)) {
-        mpz_t fe_i;
-
-        mpz_init(fe_i);
-        status = _pylong_to_mpz((PyLongObject *)key, fe_i);
-        if (status != 0) {
-            mpz_clear(fe_i);
-    		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: error converting arg 1 to GMP mpz");
-    		return NULL;
+        kfe = ((FieldElement *)key)->fe;
+        if (mpz_cmp(kfe->fp->p, ss->sscheme->cvp->n) != 0) {
+            PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: key order incorrect for curve");
+            return NULL;
         }
-        kfe = (FieldElement *)FieldElementType.tp_new(&FieldElementType, NULL, NULL);
-        mpFp_init(kfe->fe, ss->sscheme->cvp->n);
-        mpFp_set_mpz(kfe->fe, fe_i, ss->sscheme->cvp->n);
-        kfe->ready = 1;
-        mpz_clear(fe_i);
+    } else if (PyLong_Check(key)) {
+        kfe = NULL;
     } else {
 		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 1 must be secret key of FieldElement or Long(Integer) type");
 		return NULL;
@@ -565,23 +512,54 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) return NULL;
     }
 
+    bsz = PyBytes_Size(bytes);
+    digest = _python_hash(ss->hashmodule, bytes, ss->sscheme->H->hsz);
+    Py_DECREF(bytes);
+    if (digest == NULL) return NULL;
+
     psig = (ECDSASignature *)ECDSASignature_new(&ECDSASignatureType, NULL, NULL);
-    
-    ham.hashmodule = ss->hashmodule;
-    ham.msg = bytes;
+    if (psig == NULL) {
+        Py_DECREF(digest);
+        return NULL;
+    }
 
-    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&ham, PyBytes_Size(bytes));
-    Py_DECREF(bytes);
+    if (PyLong_Check(key)) {
+        mpz_t fe_i;
+
+        mpz_init(fe_i);
+        status = _pylong_to_mpz((PyLongObject *)key, fe_i);
+        if (status != 0) {
+            mpz_clear(fe_i);
+            Py_DECREF(psig);
+            Py_DECREF(digest);
+    		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: error converting arg 1 to GMP mpz");
+    		return NULL;
+        }
+        mpFp_init(fe, ss->sscheme->cvp->n);
+        mpFp_set_mpz(fe, fe_i, ss->sscheme->cvp->n);
+        mpz_clear(fe_i);
+        kfe = fe;
+    }
+
+    ham.digest = (unsigned char *)PyBytes_AsString(digest);
+    ham.hsz = ss->sscheme->H->hsz;
+
+    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe, (unsigned char *)&ham, bsz);
+    if (kfe == fe) mpFp_clear(fe);
+    Py_DECREF(digest);
     if (status != 0) {
+        Py_DECREF(psig);
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: cannot sign message");
         return NULL;
     }
     psig->ss = ss;
-- 
2.43.0


From 54e689b9d94b08be516e4d1bab1afdcf28bb08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 37/62] fix: ECDSA objects report failed allocations and do not
 leak their repr

---
 python/pyecdsa.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 7afc157..dd3c2a3 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -156,7 +156,8 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
             return -1;
         }
 
-        sstr = PyUnicode_AsUTF8(ssbytes);
+        sstr = (char *)PyUnicode_AsUTF8(ssbytes);
+        if (sstr == NULL) return -1;
 
         status =  mpECDSASignature_init_import_str(self->sig, ss->sscheme, sstr);
         if (status != 0) {
@@ -183,7 +184,7 @@ static PyObject *ECDSASignature_str(PyObject *self) {
     ssig = (ECDSASignature *)self;
 
     sstr = mpECDSASignature_export_str(ssig->sig);
-    if (sstr == NULL) return NULL;
+    if (sstr == NULL) return PyErr_NoMemory();
     str = PyUnicode_FromFormat("%s", sstr);
     free(sstr);
 
@@ -200,7 +201,7 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
     ssig = (ECDSASignature *)self;
 
     sbytes = mpECDSASignature_export_bytes(ssig->sig, &bsz);
-    if (sbytes == NULL) return NULL;
+    if (sbytes == NULL) return PyErr_NoMemory();
     bytes = PyBytes_FromStringAndSize((char *)sbytes, bsz);
     free(sbytes);
 
@@ -210,15 +211,24 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
 static PyObject *ECDSASignature_repr(PyObject *self) {
     char *hashstr;
     PyObject *ssstr;
+    PyObject *repr;
     ECDSASignature *ssig;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
     ssig = (ECDSASignature *)self;
 
     ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
+    if (ssstr == NULL) return NULL;
     hashstr = mpECDSASignature_export_str(ssig->sig);
+    if (hashstr == NULL) {
+        Py_DECREF(ssstr);
+        return PyErr_NoMemory();
+    }
 
-    return PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    repr = PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    free(hashstr);
+    Py_DECREF(ssstr);
+    return repr;
 }
 
 // deallocates the object when done
@@ -447,15 +457,24 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     PyObject *hashstr;
     PyObject *cvstr;
+    PyObject *repr;
     ECDSASignatureScheme *ss;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
     ss = (ECDSASignatureScheme *)self;
 
     cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
+    if (cvstr == NULL) return NULL;
     hashstr = Py_TYPE((PyObject *)(ss->hashmodule))->tp_repr((PyObject *)(ss->hashmodule));
+    if (hashstr == NULL) {
+        Py_DECREF(cvstr);
+        return NULL;
+    }
 
-    return PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    repr = PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    Py_DECREF(hashstr);
+    Py_DECREF(cvstr);
+    return repr;
 }
 
 // deallocates the object when done
-- 
2.43.0


From 5191e1f52166200e691070615a94212b05f1073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 38/62] fix: a sum of points refers to the curve object which
 it keeps alive

---
 python/pypoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pypoint.c b/python/pypoint.c
index 8c9a95c..cbb9264 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -334,6 +334,8 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_add(rop->ecp, op1->ecp, op2->ecp);
+    // the library may take over the curve reference of either operand
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
@@ -357,6 +359,8 @@ static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_sub(rop->ecp, op1->ecp, op2->ecp);
+    // the library may take over the curve reference of either operand
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
-- 
2.43.0


From b18e4b4a5749855120605e8eb68016ef9f9c0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 39/62] fix: ElGamal ciphertexts and plaintexts keep their
 curve alive, decryption does not leak

---
 python/pyecelgamal.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 933e3a7..e439423 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -94,6 +94,9 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     mpECP_set(self->ctxt->C, C->ecp);
     mpECP_init(self->ctxt->D, D->ecp->cvp);
     mpECP_set(self->ctxt->D, D->ecp);
+    // both points refer to the curve which lives as long as the ciphertext
+    self->ctxt->C->cvp = self->cv->ec;
+    self->ctxt->D->cvp = self->cv->ec;
 
     // you're ready!
     self->ready = 1;
@@ -197,7 +200,10 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
 
     Py_INCREF((PyObject *)key->cv);
     rop->cv = key->cv;
-    
+    // both points refer to the curve which lives as long as the ciphertext
+    rop->ctxt->C->cvp = rop->cv->ec;
+    rop->ctxt->D->cvp = rop->cv->ec;
+
     // you're ready!
     rop->ready = 1;
     // all's clear
@@ -249,6 +255,8 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
 
 	rop = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
 
+    // the library initializes the point
+    mpECP_clear(rop->ecp);
     status = mpECElgamal_init_decrypt(rop->ecp, feK, egc->ctxt);
 
     if (PyLong_Check(sK)) {
@@ -257,10 +265,15 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
     }
 
     if (status != 0) {
+        // the point was not initialized (again)
+        mpECP_init(rop->ecp, rop->cv->ec);
+        Py_DECREF(rop);
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error decrypting");
         return NULL;
     }
 
+    // refer to the curve which lives as long as the point
+    rop->ecp->cvp = rop->cv->ec;
     // you're ready!
     rop->ready = 1;
     // all's clear
-- 
2.43.0


From ebd986dfaf56e925757b73b0ad8d908b0c847d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 40/62] fix: ElGamal objects report failed allocations and do
 not leak their repr

---
 python/pyecelgamal.c | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index e439423..62e1d5c 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -116,9 +116,12 @@ static PyObject *ECElgamalCiphertext_str(PyObject *self) {
 
     sz = mpECP_out_strlen(egc->ctxt->C, 1);
     Cstr = malloc((sz + 1)*sizeof(char));
-    assert(Cstr != NULL);
     Dstr = malloc((sz + 1)*sizeof(char));
-    assert(Dstr != NULL);
+    if ((Cstr == NULL) || (Dstr == NULL)) {
+        free(Dstr);
+        free(Cstr);
+        return PyErr_NoMemory();
+    }
     mpECP_out_str(Cstr, egc->ctxt->C, 1);
     mpECP_out_str(Dstr, egc->ctxt->D, 1);
     str = PyUnicode_FromFormat("(%s, %s)", Cstr, Dstr);
@@ -133,17 +136,33 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     ECPoint *Dpt;
     PyObject *Cstr;
     PyObject *Dstr;
+    PyObject *repr;
     ECElgamalCiphertext *egc;
 
     assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
     egc = (ECElgamalCiphertext *)self;
 
 	Cpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
-	Dpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->D);
+	Dpt = (Cpt == NULL) ? NULL : (ECPoint *)PyECPoint_FromECP(egc->ctxt->D);
+    if ((Cpt == NULL) || (Dpt == NULL)) {
+        Py_XDECREF(Dpt);
+        Py_XDECREF(Cpt);
+        return NULL;
+    }
+
     Cstr = Py_TYPE((PyObject *)Cpt)->tp_repr((PyObject *)Cpt);
-    Dstr = Py_TYPE((PyObject *)Dpt)->tp_repr((PyObject *)Dpt);
+    Dstr = (Cstr == NULL) ? NULL : Py_TYPE((PyObject *)Dpt)->tp_repr((PyObject *)Dpt);
+    Py_DECREF(Dpt);
+    Py_DECREF(Cpt);
+    if (Dstr == NULL) {
+        Py_XDECREF(Cstr);
+        return NULL;
+    }
 
-    return PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    repr = PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    Py_DECREF(Dstr);
+    Py_DECREF(Cstr);
+    return repr;
 }
 
 // deallocates the object when done
@@ -191,9 +210,11 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
     }
 
 	rop = (ECElgamalCiphertext *)ECElgamalCiphertext_new( &ECElgamalCiphertextType, NULL, NULL);
+	if (rop == NULL) return NULL;
 
     status = mpECElgamal_init_encrypt(rop->ctxt, key->ecp, ptxt->ecp);
     if (status != 0) {
+        Py_DECREF(rop);
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error encrypting");
         return NULL;
     }
@@ -236,6 +257,7 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         mpz_t impz;
 
         feK = (mpFp_ptr)malloc(sizeof(mpFp_t));
+        if (feK == NULL) return PyErr_NoMemory();
     	mpz_init(impz);
         status = _pylong_to_mpz((PyLongObject *)sK, impz);
     	if (status != 0) {
@@ -254,6 +276,13 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
     }
 
 	rop = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
+	if (rop == NULL) {
+        if (PyLong_Check(sK)) {
+            mpFp_clear(feK);
+            free(feK);
+        }
+        return NULL;
+    }
 
     // the library initializes the point
     mpECP_clear(rop->ecp);
@@ -312,7 +341,8 @@ static PyObject *ECElgamalCiphertext_getattro(PyObject *o, PyObject *attr_name)
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECElgamalCiphertext_getattr(o, attr_nm_c);
 }
-- 
2.43.0


From acf1b019755df2ef05aa060b3e7e9e177f87eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 41/62] fix: repr of a FieldElement whose value has leading
 zero limbs

---
 python/pyfield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 74eec60..62d3195 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -556,7 +556,7 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	PyObject *rep;
 	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
 	
-	i = _mpz_to_pylong(((FieldElement *)a)->fe->i);
+	i = _mpFp_to_pylong(((FieldElement *)a)->fe);
 	if (i == NULL) return NULL;
 	p = _mpz_to_pylong(((FieldElement *)a)->fe->fp->p);
 	if (p == NULL) {
-- 
2.43.0


From 473339bb5cc3b9210107e1f54b0a63cf78513cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 42/62] fix: Go operations leave negative integer operands as
 they are

---
 ecgo/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 036f366..c511b5c 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -111,9 +111,9 @@ func bigint_to_c_mpz_signed(m *C.__mpz_struct, a *big.Int) {
 
 	if a.Cmp(big.NewInt(0)) < 0 {
 		negative = true
-		a.Neg(a)
 	}
 
+	// the absolute value, a is not modified
 	abytes := a.Bytes()
 
 	if len(abytes) == 0 {
-- 
2.43.0


From 1e5e38a2b51f11632c42f2564c0245dce1f28d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 43/62] fix: Go objects stay alive until the library calls
 which use them return

---
 ecgo/curve.go     | 11 +++++++++--
 ecgo/ecdsa.go     |  7 +++++++
 ecgo/ecelgamal.go |  9 +++++++++
 ecgo/field.go     | 23 +++++++++++++++++++++--
 ecgo/point.go     | 27 ++++++++++++++++++++++++++-
 5 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index fb12abf..d2c4da7 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -191,11 +191,16 @@ func mpFp_to_bigint(fp *C._mpFp_struct) (r *big.Int) {
 }
 
 func (z *Curve) Type() (r int) {
-	return int(C._type_of_cv(z.ec))
+	r = int(C._type_of_cv(z.ec))
+	runtime.KeepAlive(z)
+	return r
 }
 
 func (z *Curve) Cmp(a *Curve) int {
-	return int(C.mpECurve_cmp(z.ec, a.ec))
+	r := int(C.mpECurve_cmp(z.ec, a.ec))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *Curve) GetAttr(attr string) (r *big.Int) {
@@ -260,6 +265,7 @@ func (z *Curve) GetAttr(attr string) (r *big.Int) {
 	default:
 		return nil
 	}
+	runtime.KeepAlive(z)
 	return r
 }
 
@@ -283,6 +289,7 @@ func (z *Curve) PointCheck(gx, gy *big.Int) bool {
 	}
 
 	r = (C.mpECurve_point_check(z.ec, &gxmpz, &gympz) != 0)
+	runtime.KeepAlive(z)
 cleanup:
 	C.mpz_clear(&gympz)
 	C.mpz_clear(&gxmpz)
diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 53c8126..dee5f9c 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -107,6 +107,7 @@ func NewECDSASignatureScheme(c *Curve, h hash.Hash) (ss *ECDSASignatureScheme) {
 	hdesc.dohash = C._ecdsa_dohash(C.cgo_dohash)
 	hdesc.hsz = C.size_t(h.Size())
 	C.mpECDSASignatureScheme_init(ss.css, c.ec, &hdesc)
+	runtime.KeepAlive(c)
 	runtime.SetFinalizer(ss, signaturescheme_clear)
 	return ss
 }
@@ -127,6 +128,8 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 	sig.csig = C.malloc_ECDSASignature()
 	sKfe := NewFieldElement(sK, ss.cv.GetAttr("n"))
 	status := C.mpECDSASignature_init_Sign(sig.csig, ss.css, sKfe.fe, C._toUCP(mhash), hsz)
+	runtime.KeepAlive(sKfe)
+	runtime.KeepAlive(ss)
 	C.free(mhash)
 	if status != C.int(0) {
 		C.free_ECDSASignature(sig.csig)
@@ -142,6 +145,8 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 	mhash := C.CBytes(sig.ss.h.Sum(nil))
 	hsz := C.size_t(sig.ss.h.Size())
 	status := C.mpECDSASignature_verify_cmp(sig.csig, pK.ecp, C._toUCP(mhash), hsz)
+	runtime.KeepAlive(sig)
+	runtime.KeepAlive(pK)
 	C.free(mhash)
 	if status == C.int(0) {
 		return true
@@ -152,6 +157,7 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 func (sig *ECDSASignature) AsBytes() []byte {
 	var sz C.size_t
 	cbytes := unsafe.Pointer(C.mpECDSASignature_export_bytes(sig.csig, &sz))
+	runtime.KeepAlive(sig)
 	gobytes := C.GoBytes(cbytes, C.int(sz))
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
@@ -165,6 +171,7 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 	cbytes := C.CBytes(gobytes)
 	sz := C.size_t(len(gobytes))
 	status := C.mpECDSASignature_init_import_bytes(sig.csig, ss.css, C._toUCP(cbytes), sz)
+	runtime.KeepAlive(ss)
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
 	if status != 0 {
diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 08b4fa0..c39d8e5 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -87,6 +87,8 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 	ctxt.egc = C.malloc_ECElgamalCiphertext()
 	ctxt.cv = pK.cv
 	status := C.mpECElgamal_init_encrypt(ctxt.egc, pK.ecp, ptxt.ecp)
+	runtime.KeepAlive(pK)
+	runtime.KeepAlive(ptxt)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	if status != C.int(0) {
 		return nil
@@ -103,6 +105,9 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
 	ptxt = NewPointNeutral(ctxt.cv)
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
+	runtime.KeepAlive(ptxt)
+	runtime.KeepAlive(sKfe)
+	runtime.KeepAlive(ctxt)
 	if status != C.int(0) {
 		return nil
 	}
@@ -112,12 +117,14 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 func (ctxt *ECElgamalCiphertext) C() (c *Point) {
 	c = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(c.ecp, C.C_of(ctxt.egc))
+	runtime.KeepAlive(ctxt)
 	return c
 }
 
 func (ctxt *ECElgamalCiphertext) D() (d *Point) {
 	d = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(d.ecp, C.D_of(ctxt.egc))
+	runtime.KeepAlive(ctxt)
 	return d
 }
 
@@ -132,6 +139,8 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	C.mpECP_set(C.C_of(ctxt.egc), c.ecp)
 	C.mpECP_init(C.D_of(ctxt.egc), d.cv.ec)
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
+	runtime.KeepAlive(c)
+	runtime.KeepAlive(d)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
diff --git a/ecgo/field.go b/ecgo/field.go
index c511b5c..99bac0e 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -240,6 +240,7 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 
 	C.mpz_init(&impz)
 	C.mpz_set_mpFp(&impz, z.fe)
+	runtime.KeepAlive(z)
 	r = c_mpz_to_bigint(&impz)
 	C.mpz_clear(&impz)
 	return r
@@ -248,11 +249,15 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 func (z *FieldElement) Order() (r *big.Int) {
 	impz := C._p_of_fe(z.fe)
 	r = c_mpz_to_bigint(impz)
+	runtime.KeepAlive(z)
 	return r
 }
 
 func (z *FieldElement) Cmp(a *FieldElement) int {
-	return int(C.mpFp_cmp(z.fe, a.fe))
+	r := int(C.mpFp_cmp(z.fe, a.fe))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
@@ -260,6 +265,8 @@ func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_add(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -268,6 +275,8 @@ func (z *FieldElement) Sub(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_sub(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -276,16 +285,21 @@ func (z *FieldElement) Mul(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_mul(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *FieldElement) Neg(a *FieldElement) *FieldElement {
 	C.mpFp_neg(z.fe, a.fe)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 	status := C.mpFp_inv(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("no inverse exists for element")
 	}
@@ -294,6 +308,8 @@ func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 
 func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 	status := C.mpFp_sqrt(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("element is not a quadratic residue")
 	}
@@ -302,9 +318,12 @@ func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 
 func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 	C.mpFp_pow_ui(z.fe, a.fe, C.ulong(e))
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *FieldElement) Bit(i int) uint {
-	return uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	r := uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	runtime.KeepAlive(z)
+	return r
 }
diff --git a/ecgo/point.go b/ecgo/point.go
index c8d7a4a..60a58bc 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -129,6 +129,7 @@ func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_mpz(z.ecp, &xmpz, &ympz, c.ec)
+	runtime.KeepAlive(c)
 
 	C.mpz_clear(&xmpz)
 	C.mpz_clear(&ympz)
@@ -143,6 +144,7 @@ func NewPointNeutral(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_neutral(z.ecp, c.ec)
+	runtime.KeepAlive(c)
 
 	return z
 }
@@ -155,6 +157,7 @@ func NewPointGenerator(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_mpz(z.ecp, C._pgx_of_cv(c.ec), C._pgy_of_cv(c.ec), c.ec)
+	runtime.KeepAlive(c)
 
 	return z
 }
@@ -167,6 +170,7 @@ func NewPointURandom(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_urandom(z.ecp, c.ec)
+	runtime.KeepAlive(c)
 
 	return z
 }
@@ -180,6 +184,8 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	runtime.SetFinalizer(z, point_clear)
 	cstr := C.CString(gst)
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(c)
 	if status != C.int(0) {
 		return nil
 	}
@@ -198,6 +204,8 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	cby := C.CBytes(gby)
 	l := len(gby)
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(c)
 	if status != C.int(0) {
 		return nil
 	}
@@ -219,6 +227,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 
 	C.mpz_set_mpECP_affine_x(&xmpz, z.ecp)
 	C.mpz_set_mpECP_affine_y(&ympz, z.ecp)
+	runtime.KeepAlive(z)
 
 	x = c_mpz_to_bigint(&xmpz)
 	y = c_mpz_to_bigint(&ympz)
@@ -232,6 +241,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 func (z *Point) IsNeutral() bool {
 	pt := z.ecp
 	isn := pt.is_neutral
+	runtime.KeepAlive(z)
 	if int(isn) == 0 {
 		return false
 	}
@@ -240,6 +250,7 @@ func (z *Point) IsNeutral() bool {
 
 func (z *Point) StringCompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -247,6 +258,7 @@ func (z *Point) StringCompressed() string {
 
 func (z *Point) StringUncompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -255,6 +267,7 @@ func (z *Point) StringUncompressed() string {
 func (z *Point) BytesCompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(1))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -263,35 +276,45 @@ func (z *Point) BytesCompressed() []byte {
 func (z *Point) BytesUncompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(0))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
 }
 
 func (z *Point) Cmp(a *Point) int {
-	return int(C.mpECP_cmp(z.ecp, a.ecp))
+	r := int(C.mpECP_cmp(z.ecp, a.ecp))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *Point) Add(a, b *Point) *Point {
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	z.cv = a.cv
 	return z
 }
 
 func (z *Point) Sub(a, b *Point) *Point {
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	z.cv = a.cv
 	return z
 }
 
 func (z *Point) Neg(a *Point) *Point {
 	C.mpECP_neg(z.ecp, a.ecp)
+	runtime.KeepAlive(a)
 	z.cv = a.cv
 	return z
 }
 
 func (z *Point) Set(a *Point) *Point {
 	C.mpECP_set(z.ecp, a.ecp)
+	runtime.KeepAlive(a)
 	z.cv = a.cv
 	return z
 }
@@ -307,6 +330,7 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 	} else {
 		C.mpECP_scalar_mul_mpz(z.ecp, a.ecp, &bmpz)
 	}
+	runtime.KeepAlive(a)
 	z.cv = a.cv
 
 	return z
@@ -314,5 +338,6 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 
 func (z *Point) SetupBaseMul() {
 	C.mpECP_scalar_base_mul_setup(z.ecp)
+	runtime.KeepAlive(z)
 	return
 }
-- 
2.43.0


From e79430753071136caf20fec865ce4c0c866d89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 44/62] fix: Go points and ciphertexts refer to the curve
 object which they keep alive

---
 ecgo/ecelgamal.go | 4 ++++
 ecgo/point.go     | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index c39d8e5..8f8f38e 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -48,6 +48,8 @@ package ecgo
 //     return ctxt->C;
 // }
 //
+// extern void _bind_curve(mpECP_ptr pt, mpECurve_ptr cv);
+//
 // mpECP_ptr D_of(mpECElgamalCiphertext_ptr ctxt) {
 //     return ctxt->D;
 // }
@@ -93,6 +95,7 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 	if status != C.int(0) {
 		return nil
 	}
+	C._bind_curve(C.D_of(ctxt.egc), ctxt.cv.ec)
 	return ctxt
 }
 
@@ -139,6 +142,7 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	C.mpECP_set(C.C_of(ctxt.egc), c.ecp)
 	C.mpECP_init(C.D_of(ctxt.egc), d.cv.ec)
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
+	C._bind_curve(C.D_of(ctxt.egc), ctxt.cv.ec)
 	runtime.KeepAlive(c)
 	runtime.KeepAlive(d)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
diff --git a/ecgo/point.go b/ecgo/point.go
index 60a58bc..cdf2a6a 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -77,6 +77,12 @@ package ecgo
 //     return buf;
 // }
 //
+// // the library may take over the curve reference of either operand, but it has to
+// // be the one of the curve which the Go object keeps alive
+// void _bind_curve(mpECP_ptr pt, mpECurve_ptr cv) {
+//     pt->cvp = cv;
+// }
+//
 // unsigned char *_toUCP(void *p) {
 //     return (unsigned char *)p;
 // }
@@ -291,6 +297,7 @@ func (z *Point) Cmp(a *Point) int {
 
 func (z *Point) Add(a, b *Point) *Point {
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
+	C._bind_curve(z.ecp, a.cv.ec)
 	runtime.KeepAlive(a)
 	runtime.KeepAlive(b)
 	z.cv = a.cv
@@ -299,6 +306,7 @@ func (z *Point) Add(a, b *Point) *Point {
 
 func (z *Point) Sub(a, b *Point) *Point {
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
+	C._bind_curve(z.ecp, a.cv.ec)
 	runtime.KeepAlive(a)
 	runtime.KeepAlive(b)
 	z.cv = a.cv
-- 
2.43.0


From 64c8db04160241dc6d223243f8172fc37aec7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 45/62] fix: Go ElGamal decryption initialises the plaintext
 point once

---
 ecgo/ecelgamal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 8f8f38e..c24688c 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -40,6 +40,9 @@ package ecgo
 //     return (mpECElgamalCiphertext_ptr)malloc(sizeof(_mpECElgamalCiphertext_t));
 // }
 //
+// extern mpECP_ptr malloc_ECPoint();
+// extern void free_ECPoint(mpECP_ptr pt);
+//
 // void free_ECElgamalCiphertext(mpECElgamalCiphertext_ptr csig) {
 //     free(csig);
 // }
@@ -106,14 +109,18 @@ func ecelgamalciphertext_clear(ctxt *ECElgamalCiphertext) {
 
 func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
-	ptxt = NewPointNeutral(ctxt.cv)
+	// the library initialises the plaintext point
+	ptxt = new(Point)
+	ptxt.ecp = C.malloc_ECPoint()
+	ptxt.cv = ctxt.cv
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
-	runtime.KeepAlive(ptxt)
 	runtime.KeepAlive(sKfe)
 	runtime.KeepAlive(ctxt)
 	if status != C.int(0) {
+		C.free_ECPoint(ptxt.ecp)
 		return nil
 	}
+	runtime.SetFinalizer(ptxt, point_clear)
 	return ptxt
 }
 
-- 
2.43.0


From a8687710fbd170ad2a37ebe2b6d225d362c548e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 46/62] fix: a failed Go ElGamal encryption does not finalise
 an uninitialised ciphertext

---
 ecgo/ecelgamal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index c24688c..acd48d3 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -94,10 +94,12 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 	status := C.mpECElgamal_init_encrypt(ctxt.egc, pK.ecp, ptxt.ecp)
 	runtime.KeepAlive(pK)
 	runtime.KeepAlive(ptxt)
-	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	if status != C.int(0) {
+		// nothing was initialised
+		C.free_ECElgamalCiphertext(ctxt.egc)
 		return nil
 	}
+	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	C._bind_curve(C.D_of(ctxt.egc), ctxt.cv.ec)
 	return ctxt
 }
-- 
2.43.0


From 783855b8404e5afc93af00244f5aa08b8a448dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 47/62] fix: Go signatures are released when they are collected

---
 ecgo/ecdsa.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index dee5f9c..9cb8bc5 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -117,6 +117,11 @@ func signaturescheme_clear(ss *ECDSASignatureScheme) {
 	C.free_ECDSASignatureScheme(ss.css)
 }
 
+func signature_clear(sig *ECDSASignature) {
+	C.mpECDSASignature_clear(sig.csig)
+	C.free_ECDSASignature(sig.csig)
+}
+
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
 	ss.h.Reset()
 	ss.h.Write(message)
@@ -136,6 +141,7 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 		return nil
 	}
 	sig.ss = ss
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
 
@@ -178,5 +184,6 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 		C.free_ECDSASignature(sig.csig)
 		return nil
 	}
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
-- 
2.43.0


From 0e8464597dd64028a4ee442eb679a39f50c7af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 48/62] fix: Go curves made from parameters are released when
 they are collected

---
 ecgo/curve.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index d2c4da7..a1880d1 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -350,6 +350,8 @@ func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -416,6 +418,8 @@ func EdwardsCurve(p, c, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -482,6 +486,8 @@ func MontgomeryCurve(p, B, A, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -548,6 +554,8 @@ func TwistedEdwardsCurve(p, a, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
-- 
2.43.0


From 811862d1d4ddb50a8310064d838a419d84c1aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 49/62] fix: Go operations release their temporary integers and
 strings on every path

---
 ecgo/field.go | 9 ++++++---
 ecgo/point.go | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 99bac0e..0433fe4 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -150,15 +150,16 @@ func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 	var vmpz, pmpz C.__mpz_struct
 	var err error
 
-	C.mpz_init(&vmpz)
-	C.mpz_init(&pmpz)
-
 	if field.Cmp(big.NewInt(0)) == 0 {
 		panic("cannot operate on field of order 0")
 	}
+	C.mpz_init(&vmpz)
+	C.mpz_init(&pmpz)
 	bigint_to_c_mpz_signed(&vmpz, value)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
+		C.mpz_clear(&vmpz)
 		return nil
 	}
 
@@ -188,6 +189,7 @@ func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
@@ -214,6 +216,7 @@ func NewFieldElementURandom(field *big.Int) (z *FieldElement) {
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
diff --git a/ecgo/point.go b/ecgo/point.go
index cdf2a6a..737219c 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -192,10 +192,10 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
 	runtime.KeepAlive(z)
 	runtime.KeepAlive(c)
+	C.free(unsafe.Pointer(cstr))
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(unsafe.Pointer(cstr))
 
 	return z
 }
@@ -212,10 +212,10 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
 	runtime.KeepAlive(z)
 	runtime.KeepAlive(c)
+	C.free(cby)
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(cby)
 
 	return z
 }
@@ -339,6 +339,7 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 		C.mpECP_scalar_mul_mpz(z.ecp, a.ecp, &bmpz)
 	}
 	runtime.KeepAlive(a)
+	C.mpz_clear(&bmpz)
 	z.cv = a.cv
 
 	return z
-- 
2.43.0


From 61537c0d9ace5c5ac24f016ab577704afd8aa636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 50/62] fix: Go CurveNames releases the list it was given

---
 ecgo/curve.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index a1880d1..84083e3 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -53,6 +53,17 @@ package ecgo
 //     return i;
 // }
 //
+// // the list and the names belong to the caller
+// void clist_free(char **list) {
+//     char **l;
+//
+//     if (list == NULL) return;
+//     for (l = list; *l != NULL; l++) {
+//         free(*l);
+//     }
+//     free(list);
+// }
+//
 // __mpz_struct *_p_of_cv(mpECurve_t cv) {
 //     return cv->fp->p;
 // }
@@ -157,7 +168,9 @@ type Curve struct {
 func CurveNames() []string {
 	clist := C._mpECurve_list_standard_curves()
 	cllen := C.clist_len(clist)
-	return goStrings(cllen, clist)
+	names := goStrings(cllen, clist)
+	C.clist_free(clist)
+	return names
 }
 
 func NamedCurve(name string) (z *Curve) {
-- 
2.43.0


From 3108750c5d32f231c74ea158df4e687e621c9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 51/62] fix: example programs did not end after a read error

---
 examples/b64file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/b64file.c b/examples/b64file.c
index 5280e31..b493289 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -93,6 +93,7 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         read = fread(next->buffer, sizeof(char), _B64W_READ_CHUNK_SIZE, fPtr);
         len += read;
         next->sz = read;
+        if (ferror(fPtr)) goto error_cleanup;
         if (feof(fPtr)) {
             break;
         }
-- 
2.43.0


From dea67878d422b0ffb1973afc648de172c1fb5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 52/62] fix: example programs reported success for output which
 was not written

---
 examples/b64file.c      | 11 +++++++++--
 examples/b64file.h      |  7 ++++++-
 examples/ecdh_dec.c     |  4 ++++
 examples/ecdh_gen.c     |  4 ++++
 examples/ecdsa_verify.c |  4 ++++
 5 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index b493289..0865991 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -31,12 +31,19 @@
 #include <assert.h>
 #include <b64/cencode.h>
 #include <b64/cdecode.h>
+#include <b64file.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
-int write_b64wrapped_to_file(FILE *fPtr, char* bindata, int sz, char *wrap) {
+int flush_file(FILE *fPtr) {
+    // buffered output may fail to be written later, so flush before checking
+    if ((fflush(fPtr) != 0) || (ferror(fPtr) != 0)) return -1;
+    return 0;
+}
+
+int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
     char *enc;
     char *c;
     base64_encodestate b64state;
@@ -58,7 +65,7 @@ int write_b64wrapped_to_file(FILE *fPtr, char* bindata, int sz, char *wrap) {
     fprintf(fPtr, "%s", enc);
     fprintf(fPtr, "-----END %s-----\n", wrap);
     free(enc);
-    return 0;
+    return flush_file(fPtr);
 }
 
 #define _B64W_READ_CHUNK_SIZE   (16000)
diff --git a/examples/b64file.h b/examples/b64file.h
index 3aa6ca7..6918f98 100644
--- a/examples/b64file.h
+++ b/examples/b64file.h
@@ -41,9 +41,14 @@ extern "C" {
 #endif
 
 // convert binary data to b64 and write to file wrapped with 
-// "-----BEGIN <wrap>-----" and "-----END <wrap>-----"
+// "-----BEGIN <wrap>-----" and "-----END <wrap>-----"; returns nonzero if the
+// data could not be written
 int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap);
 
+// flush the output written to file, returns nonzero if any part of it could
+// not be written
+int flush_file(FILE *fPtr);
+
 // extract b64 data wrapped with "-----BEGIN <wrap>-----" and
 // "-----END <wrap>-----" from file, decode and return buffer and size;
 // returns NULL on error
diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index f837cbb..69d9df5 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -187,6 +187,10 @@ int main(int argc, char **argv) {
     // write decrypted message to stdout
     fwrite(mtxt, sizeof(unsigned char), msz, stdout);
     free(mtxt);
+    if (flush_file(stdout) != 0) {
+        fprintf(stderr, "<WriteError>: Error writing output\n");
+        exit(1);
+    }
 
     mpECP_clear(pQpt);
     mpECP_clear(Ppt);
diff --git a/examples/ecdh_gen.c b/examples/ecdh_gen.c
index c1a8472..6d407c7 100644
--- a/examples/ecdh_gen.c
+++ b/examples/ecdh_gen.c
@@ -90,6 +90,10 @@ int main(int argc, char **argv) {
 
     if (list_curves != 0) {
         print_supported_curves(stdout);
+        if (flush_file(stdout) != 0) {
+            fprintf(stderr, "<WriteError>: Error writing output\n");
+            exit(1);
+        }
         exit(0);
     }
 
diff --git a/examples/ecdsa_verify.c b/examples/ecdsa_verify.c
index b66aa7c..3ef6a95 100644
--- a/examples/ecdsa_verify.c
+++ b/examples/ecdsa_verify.c
@@ -180,6 +180,10 @@ int main(int argc, char **argv) {
     }
     
     fwrite(msg, sizeof(unsigned char), msglen, stdout);
+    if (flush_file(stdout) != 0) {
+        fprintf(stderr, "<WriteError>: Error writing output\n");
+        exit(1);
+    }
 
     free(sigbytes);
     free(msg);
-- 
2.43.0


From 7c44abbf3f53073d896d8ef06cc50870ef345db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 53/62] fix: armor of one, two and four byte messages overran
 its buffer

---
 examples/b64file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index 0865991..ab9ec27 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -53,8 +53,9 @@ int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
     assert(fPtr != NULL);
     assert(sz > 0);
 
-    // allocate buffer big enough for b64 encoding > 4/3 * sz
-    enc = (char *)malloc((2 * sz) * sizeof(char));
+    // allocate buffer big enough for b64 encoding > 4/3 * sz, and for the
+    // padding, newline and terminating zero of short data
+    enc = (char *)malloc((2 * sz + 8) * sizeof(char));
     c = enc;
     base64_init_encodestate(&b64state);
     c += base64_encode_block(bindata, sz, c, &b64state);
-- 
2.43.0


From bfc9c5d0e25f9fe6a70f93639efa40586a51211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 54/62] fix: example programs accept empty messages

---
 examples/b64file.c    | 8 +++-----
 examples/ecdh_dec.c   | 2 +-
 examples/ecdh_enc.c   | 6 +++++-
 examples/ecdsa_sign.c | 4 ++++
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index ab9ec27..d2ce3b4 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -51,7 +51,6 @@ int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
     assert(bindata != NULL);
     assert(wrap != NULL);
     assert(fPtr != NULL);
-    assert(sz > 0);
 
     // allocate buffer big enough for b64 encoding > 4/3 * sz, and for the
     // padding, newline and terminating zero of short data
@@ -109,8 +108,6 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         next = next->next;
         next->next = NULL;
     }
-    if (len == 0) goto error_cleanup;
-    
     // concatenate into a single buffer
     filedata = (char *)malloc((len + 1) * sizeof(char));
     next = head;
@@ -167,15 +164,16 @@ char *read_b64wrapped_from_buffer(char *buffer, char *wrap, size_t *sz) {
 
     // over-allocate buffer, only need ~3/4 len
     len = strlen(b64data);
-    bindata = (char *)malloc(len * sizeof(char));
+    bindata = (char *)malloc((len + 1) * sizeof(char));
 
     base64_init_decodestate(&b64state);
     result = base64_decode_block(b64data, len, bindata, &b64state);
 
-    if (result == 0) {
+    if (result < 0) {
         free(bindata);
         goto error_cleanup;
     }
+    bindata[result] = 0;
 
     free(end_tag);
     free(begin_tag);
diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index 69d9df5..39b320d 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -177,7 +177,7 @@ int main(int argc, char **argv) {
     // decrypt message (xor with cipher stream)
     // int crypto_stream_xchacha20_xor(unsigned char *c, const unsigned char *m,eseer *n,
     //                            const unsigned char *k);
-    mtxt = (unsigned char *)malloc(csz*sizeof(unsigned char));
+    mtxt = (unsigned char *)malloc((csz + 1)*sizeof(unsigned char));
     msz = csz;
     // crypto_stream_xor is XSalsa20 with a 192-bit nonce and 64-bit counter
     crypto_stream_xor(mtxt, ctxt, csz, ntxt, shared_hash);
diff --git a/examples/ecdh_enc.c b/examples/ecdh_enc.c
index da9cf8d..31d7e06 100644
--- a/examples/ecdh_enc.c
+++ b/examples/ecdh_enc.c
@@ -113,6 +113,10 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
+    if (msg == NULL) {
+        fprintf(stderr,"<Error>: unable to read input file\n");
+        exit(1);
+    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
@@ -168,7 +172,7 @@ int main(int argc, char **argv) {
     randombytes_buf(nonce, sizeof(nonce));
 
     // encrypt message
-    ctext = (unsigned char *)malloc(msglen*sizeof(unsigned char));
+    ctext = (unsigned char *)calloc(msglen + 1, sizeof(unsigned char));
     clen = msglen;
     // crypto_stream_xor is XSalsa20 with a 192-bit nonce and 64-bit counter
     crypto_stream_xor(ctext, msg, msglen, nonce, shared_hash);
diff --git a/examples/ecdsa_sign.c b/examples/ecdsa_sign.c
index 6339a3f..72e728b 100644
--- a/examples/ecdsa_sign.c
+++ b/examples/ecdsa_sign.c
@@ -116,6 +116,10 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
+    if (msg == NULL) {
+        fprintf(stderr,"<Error>: unable to read input file\n");
+        exit(1);
+    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
-- 
2.43.0


From 4600c266c7fc408ce3e3ec74964df693f90ab3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 55/62] fix: ecdsa_verify read past the end of its copy of the
 message

---
 examples/ecdsa_verify.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/ecdsa_verify.c b/examples/ecdsa_verify.c
index 3ef6a95..64313bd 100644
--- a/examples/ecdsa_verify.c
+++ b/examples/ecdsa_verify.c
@@ -125,8 +125,9 @@ int main(int argc, char **argv) {
     }
     fclose(fPtr);
     
-    dercp = malloc(sz*sizeof(char));
+    dercp = malloc((sz + 1)*sizeof(char));
     memcpy(dercp, der, sz);
+    dercp[sz] = 0;
 
     sigbytes = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNATURE", &siglen);
     if (sigbytes == NULL) {
-- 
2.43.0


From bb37dcf2ea775be4fa3ab189386fd2a181d43c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 56/62] fix: example programs aborted on key and message files
 with unexpected values

---
 examples/ecdh_der.c    | 43 +++++++++++++++++++++++++++++++-----------
 examples/elgamal_der.c | 23 +++++++++++++---------
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index d131164..a4f5bfc 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -65,13 +65,17 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if (result != ASN1_MEM_ERROR) return -1;
-    assert(len_test > 0);
+    // an empty string does not need a buffer, so reading it is a success
+    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
+    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    assert(len_read == len_test);
+    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
+        free(buffer);
+        return -1;
+    }
 
     *sz = len_read;
     *buf = buffer;
@@ -83,7 +87,6 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
-        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -102,12 +105,10 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    assert(length > 0);
-    assert(length <= sizeof(int));
+    if ((length <= 0) || (length > (int)sizeof(int))) return -1;
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    assert(result == ASN1_SUCCESS);
-    assert(lread == length);
+    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -283,7 +284,11 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&privkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&privkey_asn1);
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -543,7 +548,11 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&pubkey_asn1);
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -745,12 +754,20 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&pubkey_asn1);
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, pubkey_asn1, "", ASN1_PRINT_ALL);
     //printf("-----------------\n");
 
+    *ptxt = NULL;
+    *ntxt = NULL;
+    *ctxt = NULL;
+
     // private key value
     result = myasn1_read_octet_string_to_bytes(pubkey_asn1, "pubkeybytes", ptxt, psz);
     if (result != 0) goto error_cleanup;
@@ -764,6 +781,10 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     if (result != 0) goto error_cleanup;
 
 error_cleanup:
+    if (result != 0) {
+        free(*ntxt);
+        free(*ptxt);
+    }
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     return result;
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index 3be5759..1781e00 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -46,13 +46,17 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if (result != ASN1_MEM_ERROR) return -1;
-    assert(len_test > 0);
+    // an empty string does not need a buffer, so reading it is a success
+    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
+    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    assert(len_read == len_test);
+    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
+        free(buffer);
+        return -1;
+    }
 
     *sz = len_read;
     *buf = buffer;
@@ -83,7 +87,6 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
-        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -102,12 +105,10 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    assert(length > 0);
-    assert(length <= sizeof(int));
+    if ((length <= 0) || (length > (int)sizeof(int))) return -1;
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    assert(result == ASN1_SUCCESS);
-    assert(lread == length);
+    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -307,7 +308,11 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&ct_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&ct_asn1);
+        asn1_delete_structure(&eceg_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, ct_asn1, "", ASN1_PRINT_ALL);
-- 
2.43.0


From 34fd7dc64afddd5af172f6409a8014eaad730bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 57/62] fix: example programs calculated with curve parameters
 which are not a curve

---
 examples/ecdh_der.c    | 66 ++++++++++++++++++++++++++++++++++++++++++
 examples/ecdh_der.h    |  4 +++
 examples/elgamal_der.c |  4 +++
 3 files changed, 74 insertions(+)

diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index a4f5bfc..241eb67 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -118,6 +118,66 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     return 0;
 }
 
+// limit of the field arithmetic, which is half of the size of a product
+#define _MAX_MODULUS_BITS   (1024)
+#define _PRIME_TEST_REPS    (25)
+
+int _ecdh_der_check_curve(int type, mpz_t p, mpz_t p1, mpz_t p2, mpz_t n, mpz_t h, mpz_t gx, mpz_t gy, int bits) {
+    mpz_t s, t;
+    int result = -1;
+
+    // field and order are odd primes, and the field size determines the size
+    // of encoded points
+    if ((mpz_sizeinbase(p, 2) > _MAX_MODULUS_BITS) || (mpz_sizeinbase(n, 2) > _MAX_MODULUS_BITS)) return -1;
+    if ((mpz_cmp_ui(p, 3) <= 0) || (mpz_cmp_ui(n, 2) <= 0) || (mpz_cmp_ui(h, 1) < 0)) return -1;
+    if ((bits < 1) || (mpz_sizeinbase(p, 2) != (size_t)bits)) return -1;
+    if (mpz_probab_prime_p(p, _PRIME_TEST_REPS) == 0) return -1;
+    if (mpz_probab_prime_p(n, _PRIME_TEST_REPS) == 0) return -1;
+    if ((mpz_cmp(p1, p) >= 0) || (mpz_cmp(p2, p) >= 0)) return -1;
+    if ((mpz_cmp(gx, p) >= 0) || (mpz_cmp(gy, p) >= 0)) return -1;
+
+    // the curve is not singular
+    mpz_init(s);
+    mpz_init(t);
+    switch (type) {
+    case EQTypeShortWeierstrass:
+        // 4a^3 + 27b^2 != 0
+        mpz_pow_ui(s, p1, 3);
+        mpz_mul_ui(s, s, 4);
+        mpz_mul(t, p2, p2);
+        mpz_mul_ui(t, t, 27);
+        mpz_add(s, s, t);
+        break;
+    case EQTypeEdwards:
+        // cd(1 - dc^4) != 0
+        mpz_pow_ui(s, p1, 4);
+        mpz_mul(s, s, p2);
+        mpz_sub_ui(s, s, 1);
+        mpz_mul(t, p1, p2);
+        mpz_mul(s, s, t);
+        break;
+    case EQTypeMontgomery:
+        // B(A^2 - 4) != 0
+        mpz_mul(s, p2, p2);
+        mpz_sub_ui(s, s, 4);
+        mpz_mul(s, s, p1);
+        break;
+    case EQTypeTwistedEdwards:
+        // ad(a - d) != 0
+        mpz_sub(s, p1, p2);
+        mpz_mul(t, p1, p2);
+        mpz_mul(s, s, t);
+        break;
+    default:
+        mpz_set_ui(s, 0);
+    }
+    mpz_mod(s, s, p);
+    if (mpz_sgn(s) != 0) result = 0;
+    mpz_clear(t);
+    mpz_clear(s);
+    return result;
+}
+
 char *_ecdh_der_export_privkey(mpz_t privkey, mpECurve_t cv, size_t *sz) {
     ASN1_TYPE ecdhe_asn1 = ASN1_TYPE_EMPTY;
     ASN1_TYPE privkey_asn1 = ASN1_TYPE_EMPTY;
@@ -336,6 +396,9 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
     result = myasn1_read_integer_to_int(privkey_asn1, "curve.type", &cv_type);
     if (result != 0) goto error_cleanup;
 
+    result = _ecdh_der_check_curve(cv_type, cv_p, cv_p1, cv_p2, cv_n, cv_h, cv_gx, cv_gy, cv_bits);
+    if (result != 0) goto error_cleanup;
+
     result = 0;
 
     switch (cv_type) {
@@ -600,6 +663,9 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     result = myasn1_read_integer_to_int(pubkey_asn1, "curve.type", &cv_type);
     if (result != 0) goto error_cleanup;
 
+    result = _ecdh_der_check_curve(cv_type, cv_p, cv_p1, cv_p2, cv_n, cv_h, cv_gx, cv_gy, cv_bits);
+    if (result != 0) goto error_cleanup;
+
     result = 0;
 
     mpECurve_init(cv);
diff --git a/examples/ecdh_der.h b/examples/ecdh_der.h
index 3494003..de6c50a 100644
--- a/examples/ecdh_der.h
+++ b/examples/ecdh_der.h
@@ -36,6 +36,10 @@
 #include <gmp.h>
 #include <libtasn1.h>
 
+// check that parameters read from a file describe a curve which the library
+// can calculate with, returns nonzero if not
+int _ecdh_der_check_curve(int type, mpz_t p, mpz_t p1, mpz_t p2, mpz_t n, mpz_t h, mpz_t gx, mpz_t gy, int bits);
+
 char *_ecdh_der_export_privkey(mpz_t privkey, mpECurve_t cv, size_t *sz);
 int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz);
 char *_ecdh_der_export_pubkey(mpECP_t pubkey, mpECurve_t cv, size_t *sz);
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index 1781e00..ea294d0 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ecdh_der.h>
 #include <elgamal_der.h>
 #include <portable_endian.h>
 #include <stdint.h>
@@ -356,6 +357,9 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
     result = myasn1_read_integer_to_int(ct_asn1, "curve.type", &cv_type);
     if (result != 0) goto error_cleanup;
 
+    result = _ecdh_der_check_curve(cv_type, cv_p, cv_p1, cv_p2, cv_n, cv_h, cv_gx, cv_gy, cv_bits);
+    if (result != 0) goto error_cleanup;
+
     result = 0;
 
     switch (cv_type) {
-- 
2.43.0


From 32a31c10a80bfd929d2eddce19755688f5f58ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 58/62] fix: example programs used points of keys and
 ciphertexts which were rejected

---
 examples/ecdh_der.c    | 33 ++++++++++++++++-------------
 examples/elgamal_der.c | 47 ++++++++++++++----------------------------
 2 files changed, 35 insertions(+), 45 deletions(-)

diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index 241eb67..3754fee 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -588,7 +588,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     mpz_t cv_p2;
     int cv_type;
     int cv_bits;
-    unsigned char *rawpubkey;
+    unsigned char *rawpubkey = NULL;
     int rawpubkeysz;
 
     // read ASN1 syntax
@@ -691,25 +691,30 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         result = -1;
     }
 
+    if (result != 0) {
+        mpECurve_clear(cv);
+        goto error_cleanup;
+    }
+
+    // the encoding is rejected if the point is not on the curve
     mpECP_init(pubkey, cv);
+    result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
     if (result == 0) {
-        result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
+        mpECP_t neutral;
+
+        // the neutral element is the public key of no private key
+        mpECP_init(neutral, cv);
+        mpECP_set_neutral(neutral, cv);
+        if (mpECP_cmp(pubkey, neutral) == 0) result = -1;
+        mpECP_clear(neutral);
     }
-    free(rawpubkey);
-    {
-        mpz_t px;
-        mpz_t py;
-
-        mpz_init(px);
-        mpz_init(py);
-        mpz_set_mpECP_affine_x(px, pubkey);
-        mpz_set_mpECP_affine_y(py, pubkey);
-        if (!mpECurve_point_check(cv, px, py)) result = -1;
-        mpz_clear(py);
-        mpz_clear(px);
+    if (result != 0) {
+        mpECP_clear(pubkey);
+        mpECurve_clear(cv);
     }
 
 error_cleanup:
+    free(rawpubkey);
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     mpz_clear(cv_p2);
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index ea294d0..e6a1b9a 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -383,53 +383,38 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
         result = -1;
     }
 
+    if (result != 0) goto error_cleanup;
+
     {
         unsigned char *rawpubkey;
         int rawpubkeysz;
 
-        // ciphertext points
+        // ciphertext points, an encoding is rejected if the point is not on
+        // the curve
         result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpubkey, &rawpubkeysz);
         if (result != 0) goto error_cleanup;
 
         mpECP_init(ctxt->C, cv);
-        if (result == 0) {
-            result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
-        }
+        result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
         free(rawpubkey);
-        {
-            mpz_t px;
-            mpz_t py;
-    
-            mpz_init(px);
-            mpz_init(py);
-            mpz_set_mpECP_affine_x(px, ctxt->C);
-            mpz_set_mpECP_affine_y(py, ctxt->C);
-            if (!mpECurve_point_check(cv, px, py)) result = -1;
-            mpz_clear(py);
-            mpz_clear(px);
+        if (result != 0) {
+            mpECP_clear(ctxt->C);
+            goto error_cleanup;
         }
 
         result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpubkey, &rawpubkeysz);
-        if (result != 0) goto error_cleanup;
+        if (result != 0) {
+            mpECP_clear(ctxt->C);
+            goto error_cleanup;
+        }
 
         mpECP_init(ctxt->D, cv);
-        if (result == 0) {
-            result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
-        }
+        result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
         free(rawpubkey);
-        {
-            mpz_t px;
-            mpz_t py;
-    
-            mpz_init(px);
-            mpz_init(py);
-            mpz_set_mpECP_affine_x(px, ctxt->D);
-            mpz_set_mpECP_affine_y(py, ctxt->D);
-            if (!mpECurve_point_check(cv, px, py)) result = -1;
-            mpz_clear(py);
-            mpz_clear(px);
+        if (result != 0) {
+            mpECP_clear(ctxt->D);
+            mpECP_clear(ctxt->C);
         }
-
     }
 
 error_cleanup:
-- 
2.43.0


From 69ae543dcddaac589df43a9939c7242adb759a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 59/62] fix: ecdh_dec used ephemeral keys which are not on the
 curve and nonces of any length

---
 examples/ecdh_dec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index 39b320d..375b335 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -152,7 +152,10 @@ int main(int argc, char **argv) {
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
-    mpECP_set_bytes(Ppt, ptxt, psz, cv);
+    if ((mpECP_set_bytes(Ppt, ptxt, psz, cv) != 0) || (nsz != sizeof(nonce))) {
+        fprintf(stderr,"<Error>: Message does not match the private key\n");
+        exit(1);
+    }
     free(ptxt);
 
     // shared (ECDH) key using 
-- 
2.43.0


From 1e6e9d2ee89d4af180358155c440715047ecc1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 60/62] fix: ecdh_gen and ecdh_enc could use 0 as a private key

---
 examples/ecdh_enc.c | 4 +++-
 examples/ecdh_gen.c | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/examples/ecdh_enc.c b/examples/ecdh_enc.c
index 31d7e06..7178b60 100644
--- a/examples/ecdh_enc.c
+++ b/examples/ecdh_enc.c
@@ -143,7 +143,9 @@ int main(int argc, char **argv) {
 
     // random (ephemeral) private key scalar
     mpz_init(pmpz);
-    mpz_urandom(pmpz, cv->fp->p);
+    do {
+        mpz_urandom(pmpz, cv->n);
+    } while (mpz_sgn(pmpz) == 0);
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
diff --git a/examples/ecdh_gen.c b/examples/ecdh_gen.c
index 6d407c7..290277e 100644
--- a/examples/ecdh_gen.c
+++ b/examples/ecdh_gen.c
@@ -113,9 +113,11 @@ int main(int argc, char **argv) {
     
     if (curvename != default_curve) free(curvename);
 
-    // random value between 0 and cv->n (curve order)
+    // random value between 0 and cv->n (curve order), but not 0
     mpz_init(pmpz);
-    mpz_urandom(pmpz, cv->n);
+    do {
+        mpz_urandom(pmpz, cv->n);
+    } while (mpz_sgn(pmpz) == 0);
 
     // encode to ASN.1 DER format
     der = _ecdh_der_export_privkey(pmpz, cv, &sz);
-- 
2.43.0


From b20480e7b2cdb140dd795f9ce5a78239ad991c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 61/62] fix: signing did not end on curves of tiny order
 without a usable nonce

---
 src/ecdsa.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index f30f1e2..63386dd 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -38,6 +38,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+// signing fails after this many nonces in a row which are not usable
+#define MAX_NONCE_ATTEMPTS  (16384)
 
 void mpECDSAHashfunc_init(mpECDSAHashfunc_t H) {
     return;
@@ -87,6 +89,7 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     mpz_t r;
     mpECP_t R;
     int status;
+    int attempts = 0;
 
     if (sscheme == NULL) return -1;
 
@@ -111,6 +114,17 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     }
     free(hash);
 new_random:
+    // a degenerate curve may have no usable nonce for the message
+    if (attempts++ >= MAX_NONCE_ATTEMPTS) {
+        mpECP_clear(R);
+        mpz_clear(e);
+        mpz_clear(r);
+        mpFp_clear(e_n);
+        mpFp_clear(s_n);
+        mpFp_clear(r_n);
+        mpFp_clear(k_n);
+        return -1;
+    }
     // e_n is overwritten below, so that each new attempt has to set it again
     mpFp_set_mpz(e_n, e, sscheme->cvp->n);
     mpFp_urandom(k_n, sscheme->cvp->n);
-- 
2.43.0


From 6076eae2ccc79cec82486630e9658a45c3654d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 62/62] Revert the changes to the example programs: examples/
 stays as it was

---
 examples/b64file.c      |  25 +++----
 examples/b64file.h      |   7 +-
 examples/ecdh_dec.c     |  11 +---
 examples/ecdh_der.c     | 142 +++++++---------------------------------
 examples/ecdh_der.h     |   4 --
 examples/ecdh_enc.c     |  10 +--
 examples/ecdh_gen.c     |  10 +--
 examples/ecdsa_sign.c   |   4 --
 examples/ecdsa_verify.c |   7 +-
 examples/elgamal_der.c  |  74 +++++++++++----------
 10 files changed, 82 insertions(+), 212 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index d2ce3b4..5280e31 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -31,19 +31,12 @@
 #include <assert.h>
 #include <b64/cencode.h>
 #include <b64/cdecode.h>
-#include <b64file.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
-int flush_file(FILE *fPtr) {
-    // buffered output may fail to be written later, so flush before checking
-    if ((fflush(fPtr) != 0) || (ferror(fPtr) != 0)) return -1;
-    return 0;
-}
-
-int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
+int write_b64wrapped_to_file(FILE *fPtr, char* bindata, int sz, char *wrap) {
     char *enc;
     char *c;
     base64_encodestate b64state;
@@ -51,10 +44,10 @@ int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
     assert(bindata != NULL);
     assert(wrap != NULL);
     assert(fPtr != NULL);
+    assert(sz > 0);
 
-    // allocate buffer big enough for b64 encoding > 4/3 * sz, and for the
-    // padding, newline and terminating zero of short data
-    enc = (char *)malloc((2 * sz + 8) * sizeof(char));
+    // allocate buffer big enough for b64 encoding > 4/3 * sz
+    enc = (char *)malloc((2 * sz) * sizeof(char));
     c = enc;
     base64_init_encodestate(&b64state);
     c += base64_encode_block(bindata, sz, c, &b64state);
@@ -65,7 +58,7 @@ int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
     fprintf(fPtr, "%s", enc);
     fprintf(fPtr, "-----END %s-----\n", wrap);
     free(enc);
-    return flush_file(fPtr);
+    return 0;
 }
 
 #define _B64W_READ_CHUNK_SIZE   (16000)
@@ -100,7 +93,6 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         read = fread(next->buffer, sizeof(char), _B64W_READ_CHUNK_SIZE, fPtr);
         len += read;
         next->sz = read;
-        if (ferror(fPtr)) goto error_cleanup;
         if (feof(fPtr)) {
             break;
         }
@@ -108,6 +100,8 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         next = next->next;
         next->next = NULL;
     }
+    if (len == 0) goto error_cleanup;
+    
     // concatenate into a single buffer
     filedata = (char *)malloc((len + 1) * sizeof(char));
     next = head;
@@ -164,16 +158,15 @@ char *read_b64wrapped_from_buffer(char *buffer, char *wrap, size_t *sz) {
 
     // over-allocate buffer, only need ~3/4 len
     len = strlen(b64data);
-    bindata = (char *)malloc((len + 1) * sizeof(char));
+    bindata = (char *)malloc(len * sizeof(char));
 
     base64_init_decodestate(&b64state);
     result = base64_decode_block(b64data, len, bindata, &b64state);
 
-    if (result < 0) {
+    if (result == 0) {
         free(bindata);
         goto error_cleanup;
     }
-    bindata[result] = 0;
 
     free(end_tag);
     free(begin_tag);
diff --git a/examples/b64file.h b/examples/b64file.h
index 6918f98..3aa6ca7 100644
--- a/examples/b64file.h
+++ b/examples/b64file.h
@@ -41,14 +41,9 @@ extern "C" {
 #endif
 
 // convert binary data to b64 and write to file wrapped with 
-// "-----BEGIN <wrap>-----" and "-----END <wrap>-----"; returns nonzero if the
-// data could not be written
+// "-----BEGIN <wrap>-----" and "-----END <wrap>-----"
 int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap);
 
-// flush the output written to file, returns nonzero if any part of it could
-// not be written
-int flush_file(FILE *fPtr);
-
 // extract b64 data wrapped with "-----BEGIN <wrap>-----" and
 // "-----END <wrap>-----" from file, decode and return buffer and size;
 // returns NULL on error
diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index 375b335..f837cbb 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -152,10 +152,7 @@ int main(int argc, char **argv) {
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
-    if ((mpECP_set_bytes(Ppt, ptxt, psz, cv) != 0) || (nsz != sizeof(nonce))) {
-        fprintf(stderr,"<Error>: Message does not match the private key\n");
-        exit(1);
-    }
+    mpECP_set_bytes(Ppt, ptxt, psz, cv);
     free(ptxt);
 
     // shared (ECDH) key using 
@@ -180,7 +177,7 @@ int main(int argc, char **argv) {
     // decrypt message (xor with cipher stream)
     // int crypto_stream_xchacha20_xor(unsigned char *c, const unsigned char *m,eseer *n,
     //                            const unsigned char *k);
-    mtxt = (unsigned char *)malloc((csz + 1)*sizeof(unsigned char));
+    mtxt = (unsigned char *)malloc(csz*sizeof(unsigned char));
     msz = csz;
     // crypto_stream_xor is XSalsa20 with a 192-bit nonce and 64-bit counter
     crypto_stream_xor(mtxt, ctxt, csz, ntxt, shared_hash);
@@ -190,10 +187,6 @@ int main(int argc, char **argv) {
     // write decrypted message to stdout
     fwrite(mtxt, sizeof(unsigned char), msz, stdout);
     free(mtxt);
-    if (flush_file(stdout) != 0) {
-        fprintf(stderr, "<WriteError>: Error writing output\n");
-        exit(1);
-    }
 
     mpECP_clear(pQpt);
     mpECP_clear(Ppt);
diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index 3754fee..d131164 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -65,17 +65,13 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    // an empty string does not need a buffer, so reading it is a success
-    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
+    if (result != ASN1_MEM_ERROR) return -1;
+    assert(len_test > 0);
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
-    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
-        free(buffer);
-        return -1;
-    }
+    assert(len_read == len_test);
 
     *sz = len_read;
     *buf = buffer;
@@ -87,6 +83,7 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
+        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -105,10 +102,12 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    if ((length <= 0) || (length > (int)sizeof(int))) return -1;
+    assert(length > 0);
+    assert(length <= sizeof(int));
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
+    assert(result == ASN1_SUCCESS);
+    assert(lread == length);
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -118,66 +117,6 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     return 0;
 }
 
-// limit of the field arithmetic, which is half of the size of a product
-#define _MAX_MODULUS_BITS   (1024)
-#define _PRIME_TEST_REPS    (25)
-
-int _ecdh_der_check_curve(int type, mpz_t p, mpz_t p1, mpz_t p2, mpz_t n, mpz_t h, mpz_t gx, mpz_t gy, int bits) {
-    mpz_t s, t;
-    int result = -1;
-
-    // field and order are odd primes, and the field size determines the size
-    // of encoded points
-    if ((mpz_sizeinbase(p, 2) > _MAX_MODULUS_BITS) || (mpz_sizeinbase(n, 2) > _MAX_MODULUS_BITS)) return -1;
-    if ((mpz_cmp_ui(p, 3) <= 0) || (mpz_cmp_ui(n, 2) <= 0) || (mpz_cmp_ui(h, 1) < 0)) return -1;
-    if ((bits < 1) || (mpz_sizeinbase(p, 2) != (size_t)bits)) return -1;
-    if (mpz_probab_prime_p(p, _PRIME_TEST_REPS) == 0) return -1;
-    if (mpz_probab_prime_p(n, _PRIME_TEST_REPS) == 0) return -1;
-    if ((mpz_cmp(p1, p) >= 0) || (mpz_cmp(p2, p) >= 0)) return -1;
-    if ((mpz_cmp(gx, p) >= 0) || (mpz_cmp(gy, p) >= 0)) return -1;
-
-    // the curve is not singular
-    mpz_init(s);
-    mpz_init(t);
-    switch (type) {
-    case EQTypeShortWeierstrass:
-        // 4a^3 + 27b^2 != 0
-        mpz_pow_ui(s, p1, 3);
-        mpz_mul_ui(s, s, 4);
-        mpz_mul(t, p2, p2);
-        mpz_mul_ui(t, t, 27);
-        mpz_add(s, s, t);
-        break;
-    case EQTypeEdwards:
-        // cd(1 - dc^4) != 0
-        mpz_pow_ui(s, p1, 4);
-        mpz_mul(s, s, p2);
-        mpz_sub_ui(s, s, 1);
-        mpz_mul(t, p1, p2);
-        mpz_mul(s, s, t);
-        break;
-    case EQTypeMontgomery:
-        // B(A^2 - 4) != 0
-        mpz_mul(s, p2, p2);
-        mpz_sub_ui(s, s, 4);
-        mpz_mul(s, s, p1);
-        break;
-    case EQTypeTwistedEdwards:
-        // ad(a - d) != 0
-        mpz_sub(s, p1, p2);
-        mpz_mul(t, p1, p2);
-        mpz_mul(s, s, t);
-        break;
-    default:
-        mpz_set_ui(s, 0);
-    }
-    mpz_mod(s, s, p);
-    if (mpz_sgn(s) != 0) result = 0;
-    mpz_clear(t);
-    mpz_clear(s);
-    return result;
-}
-
 char *_ecdh_der_export_privkey(mpz_t privkey, mpECurve_t cv, size_t *sz) {
     ASN1_TYPE ecdhe_asn1 = ASN1_TYPE_EMPTY;
     ASN1_TYPE privkey_asn1 = ASN1_TYPE_EMPTY;
@@ -344,11 +283,7 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&privkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&privkey_asn1);
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -396,9 +331,6 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
     result = myasn1_read_integer_to_int(privkey_asn1, "curve.type", &cv_type);
     if (result != 0) goto error_cleanup;
 
-    result = _ecdh_der_check_curve(cv_type, cv_p, cv_p1, cv_p2, cv_n, cv_h, cv_gx, cv_gy, cv_bits);
-    if (result != 0) goto error_cleanup;
-
     result = 0;
 
     switch (cv_type) {
@@ -588,7 +520,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     mpz_t cv_p2;
     int cv_type;
     int cv_bits;
-    unsigned char *rawpubkey = NULL;
+    unsigned char *rawpubkey;
     int rawpubkeysz;
 
     // read ASN1 syntax
@@ -611,11 +543,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&pubkey_asn1);
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -663,9 +591,6 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     result = myasn1_read_integer_to_int(pubkey_asn1, "curve.type", &cv_type);
     if (result != 0) goto error_cleanup;
 
-    result = _ecdh_der_check_curve(cv_type, cv_p, cv_p1, cv_p2, cv_n, cv_h, cv_gx, cv_gy, cv_bits);
-    if (result != 0) goto error_cleanup;
-
     result = 0;
 
     mpECurve_init(cv);
@@ -691,30 +616,25 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         result = -1;
     }
 
-    if (result != 0) {
-        mpECurve_clear(cv);
-        goto error_cleanup;
-    }
-
-    // the encoding is rejected if the point is not on the curve
     mpECP_init(pubkey, cv);
-    result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
     if (result == 0) {
-        mpECP_t neutral;
-
-        // the neutral element is the public key of no private key
-        mpECP_init(neutral, cv);
-        mpECP_set_neutral(neutral, cv);
-        if (mpECP_cmp(pubkey, neutral) == 0) result = -1;
-        mpECP_clear(neutral);
+        result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
     }
-    if (result != 0) {
-        mpECP_clear(pubkey);
-        mpECurve_clear(cv);
+    free(rawpubkey);
+    {
+        mpz_t px;
+        mpz_t py;
+
+        mpz_init(px);
+        mpz_init(py);
+        mpz_set_mpECP_affine_x(px, pubkey);
+        mpz_set_mpECP_affine_y(py, pubkey);
+        if (!mpECurve_point_check(cv, px, py)) result = -1;
+        mpz_clear(py);
+        mpz_clear(px);
     }
 
 error_cleanup:
-    free(rawpubkey);
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     mpz_clear(cv_p2);
@@ -825,20 +745,12 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&pubkey_asn1);
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, pubkey_asn1, "", ASN1_PRINT_ALL);
     //printf("-----------------\n");
 
-    *ptxt = NULL;
-    *ntxt = NULL;
-    *ctxt = NULL;
-
     // private key value
     result = myasn1_read_octet_string_to_bytes(pubkey_asn1, "pubkeybytes", ptxt, psz);
     if (result != 0) goto error_cleanup;
@@ -852,10 +764,6 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     if (result != 0) goto error_cleanup;
 
 error_cleanup:
-    if (result != 0) {
-        free(*ntxt);
-        free(*ptxt);
-    }
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     return result;
diff --git a/examples/ecdh_der.h b/examples/ecdh_der.h
index de6c50a..3494003 100644
--- a/examples/ecdh_der.h
+++ b/examples/ecdh_der.h
@@ -36,10 +36,6 @@
 #include <gmp.h>
 #include <libtasn1.h>
 
-// check that parameters read from a file describe a curve which the library
-// can calculate with, returns nonzero if not
-int _ecdh_der_check_curve(int type, mpz_t p, mpz_t p1, mpz_t p2, mpz_t n, mpz_t h, mpz_t gx, mpz_t gy, int bits);
-
 char *_ecdh_der_export_privkey(mpz_t privkey, mpECurve_t cv, size_t *sz);
 int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz);
 char *_ecdh_der_export_pubkey(mpECP_t pubkey, mpECurve_t cv, size_t *sz);
diff --git a/examples/ecdh_enc.c b/examples/ecdh_enc.c
index 7178b60..da9cf8d 100644
--- a/examples/ecdh_enc.c
+++ b/examples/ecdh_enc.c
@@ -113,10 +113,6 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
-    if (msg == NULL) {
-        fprintf(stderr,"<Error>: unable to read input file\n");
-        exit(1);
-    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
@@ -143,9 +139,7 @@ int main(int argc, char **argv) {
 
     // random (ephemeral) private key scalar
     mpz_init(pmpz);
-    do {
-        mpz_urandom(pmpz, cv->n);
-    } while (mpz_sgn(pmpz) == 0);
+    mpz_urandom(pmpz, cv->fp->p);
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
@@ -174,7 +168,7 @@ int main(int argc, char **argv) {
     randombytes_buf(nonce, sizeof(nonce));
 
     // encrypt message
-    ctext = (unsigned char *)calloc(msglen + 1, sizeof(unsigned char));
+    ctext = (unsigned char *)malloc(msglen*sizeof(unsigned char));
     clen = msglen;
     // crypto_stream_xor is XSalsa20 with a 192-bit nonce and 64-bit counter
     crypto_stream_xor(ctext, msg, msglen, nonce, shared_hash);
diff --git a/examples/ecdh_gen.c b/examples/ecdh_gen.c
index 290277e..c1a8472 100644
--- a/examples/ecdh_gen.c
+++ b/examples/ecdh_gen.c
@@ -90,10 +90,6 @@ int main(int argc, char **argv) {
 
     if (list_curves != 0) {
         print_supported_curves(stdout);
-        if (flush_file(stdout) != 0) {
-            fprintf(stderr, "<WriteError>: Error writing output\n");
-            exit(1);
-        }
         exit(0);
     }
 
@@ -113,11 +109,9 @@ int main(int argc, char **argv) {
     
     if (curvename != default_curve) free(curvename);
 
-    // random value between 0 and cv->n (curve order), but not 0
+    // random value between 0 and cv->n (curve order)
     mpz_init(pmpz);
-    do {
-        mpz_urandom(pmpz, cv->n);
-    } while (mpz_sgn(pmpz) == 0);
+    mpz_urandom(pmpz, cv->n);
 
     // encode to ASN.1 DER format
     der = _ecdh_der_export_privkey(pmpz, cv, &sz);
diff --git a/examples/ecdsa_sign.c b/examples/ecdsa_sign.c
index 72e728b..6339a3f 100644
--- a/examples/ecdsa_sign.c
+++ b/examples/ecdsa_sign.c
@@ -116,10 +116,6 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
-    if (msg == NULL) {
-        fprintf(stderr,"<Error>: unable to read input file\n");
-        exit(1);
-    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
diff --git a/examples/ecdsa_verify.c b/examples/ecdsa_verify.c
index 64313bd..b66aa7c 100644
--- a/examples/ecdsa_verify.c
+++ b/examples/ecdsa_verify.c
@@ -125,9 +125,8 @@ int main(int argc, char **argv) {
     }
     fclose(fPtr);
     
-    dercp = malloc((sz + 1)*sizeof(char));
+    dercp = malloc(sz*sizeof(char));
     memcpy(dercp, der, sz);
-    dercp[sz] = 0;
 
     sigbytes = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNATURE", &siglen);
     if (sigbytes == NULL) {
@@ -181,10 +180,6 @@ int main(int argc, char **argv) {
     }
     
     fwrite(msg, sizeof(unsigned char), msglen, stdout);
-    if (flush_file(stdout) != 0) {
-        fprintf(stderr, "<WriteError>: Error writing output\n");
-        exit(1);
-    }
 
     free(sigbytes);
     free(msg);
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index e6a1b9a..3be5759 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -29,7 +29,6 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
-#include <ecdh_der.h>
 #include <elgamal_der.h>
 #include <portable_endian.h>
 #include <stdint.h>
@@ -47,17 +46,13 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    // an empty string does not need a buffer, so reading it is a success
-    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
+    if (result != ASN1_MEM_ERROR) return -1;
+    assert(len_test > 0);
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
-    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
-        free(buffer);
-        return -1;
-    }
+    assert(len_read == len_test);
 
     *sz = len_read;
     *buf = buffer;
@@ -88,6 +83,7 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
+        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -106,10 +102,12 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    if ((length <= 0) || (length > (int)sizeof(int))) return -1;
+    assert(length > 0);
+    assert(length <= sizeof(int));
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
+    assert(result == ASN1_SUCCESS);
+    assert(lread == length);
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -309,11 +307,7 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&ct_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&ct_asn1);
-        asn1_delete_structure(&eceg_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, ct_asn1, "", ASN1_PRINT_ALL);
@@ -357,9 +351,6 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
     result = myasn1_read_integer_to_int(ct_asn1, "curve.type", &cv_type);
     if (result != 0) goto error_cleanup;
 
-    result = _ecdh_der_check_curve(cv_type, cv_p, cv_p1, cv_p2, cv_n, cv_h, cv_gx, cv_gy, cv_bits);
-    if (result != 0) goto error_cleanup;
-
     result = 0;
 
     switch (cv_type) {
@@ -383,38 +374,53 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
         result = -1;
     }
 
-    if (result != 0) goto error_cleanup;
-
     {
         unsigned char *rawpubkey;
         int rawpubkeysz;
 
-        // ciphertext points, an encoding is rejected if the point is not on
-        // the curve
+        // ciphertext points
         result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpubkey, &rawpubkeysz);
         if (result != 0) goto error_cleanup;
 
         mpECP_init(ctxt->C, cv);
-        result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
+        if (result == 0) {
+            result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
+        }
         free(rawpubkey);
-        if (result != 0) {
-            mpECP_clear(ctxt->C);
-            goto error_cleanup;
+        {
+            mpz_t px;
+            mpz_t py;
+    
+            mpz_init(px);
+            mpz_init(py);
+            mpz_set_mpECP_affine_x(px, ctxt->C);
+            mpz_set_mpECP_affine_y(py, ctxt->C);
+            if (!mpECurve_point_check(cv, px, py)) result = -1;
+            mpz_clear(py);
+            mpz_clear(px);
         }
 
         result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpubkey, &rawpubkeysz);
-        if (result != 0) {
-            mpECP_clear(ctxt->C);
-            goto error_cleanup;
-        }
+        if (result != 0) goto error_cleanup;
 
         mpECP_init(ctxt->D, cv);
-        result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
+        if (result == 0) {
+            result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
+        }
         free(rawpubkey);
-        if (result != 0) {
-            mpECP_clear(ctxt->D);
-            mpECP_clear(ctxt->C);
+        {
+            mpz_t px;
+            mpz_t py;
+    
+            mpz_init(px);
+            mpz_init(py);
+            mpz_set_mpECP_affine_x(px, ctxt->D);
+            mpz_set_mpECP_affine_y(py, ctxt->D);
+            if (!mpECurve_point_check(cv, px, py)) result = -1;
+            mpz_clear(py);
+            mpz_clear(px);
         }
+
     }
 
 error_cleanup:
-- 
2.43.0

