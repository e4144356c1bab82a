From aab7e6b6316911bd6b5ecdcbf51561ca9720a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 1/4] fix: crypto_sign_open rejects strings shorter than the
 signature they claim

---
 Optimized_Implementation/common/lib/sign.c | 6 ++++++
 Reference_Implementation/lib/sign.c        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..0f675c0 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,9 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    if (smlen < LESS_CRYPTO_BYTES(0ULL)) {
+        return -1;
+    }
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -78,6 +81,9 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..8de8955 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,9 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    if (smlen < LESS_CRYPTO_BYTES(0ULL)) {
+        return -1;
+    }
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,6 +82,9 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
-- 
2.43.0


From 6bf05760ac18bac60374916d41ef4c9940d47838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 2/4] fix: crypto_sign_open accepts signatures with the maximum
 number of published seeds

---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 0f675c0..ce32473 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -75,7 +75,7 @@ int crypto_sign_open(unsigned char *m,
         return -1;
     }
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 8de8955..3511d2d 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -76,7 +76,7 @@ int crypto_sign_open(unsigned char *m,
         return -1;
     }
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From df46c50557b06a930b37169b70fc069f95e88500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 3/4] fix: crypto_sign_open does not read the seed storage past
 the end of the signed message

---
 Optimized_Implementation/common/lib/sign.c | 8 +++++++-
 Reference_Implementation/lib/sign.c        | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index ce32473..a7596d9 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -88,11 +88,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the signature holds sig_len bytes, which may be less than a sign_t: copy
+     * it, such that the verification never reads past the end of sm */
+    sign_t sig;
+    memset(&sig, 0, sizeof(sign_t));
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                  // in parameter
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
 } // end crypto_sign_open
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3511d2d..c69a1a6 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -89,11 +89,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the signature holds sig_len bytes, which may be less than a sign_t: copy
+     * it, such that the verification never reads past the end of sm */
+    sign_t sig;
+    memset(&sig, 0, sizeof(sign_t));
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                  // in parameter
 
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
-- 
2.43.0


From c216c5d328cd5d64a48850c63fea3facd082598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 4/4] fix: verification rejects public keys that do not encode
 K pivots and canonical entries

---
 Optimized_Implementation/common/include/codes.h |  5 +++--
 Optimized_Implementation/common/lib/LESS.c      |  4 +++-
 Optimized_Implementation/common/lib/codes.c     | 16 +++++++++++++++-
 Reference_Implementation/include/codes.h        |  5 +++--
 Reference_Implementation/lib/LESS.c             |  4 +++-
 Reference_Implementation/lib/codes.c            | 16 +++++++++++++++-
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..9feca6a 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one, returns 1 on
+ * success, 0 if the bytes do not encode K pivots and canonical elements */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..e11b02f 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -261,7 +261,9 @@ int LESS_verify(const pubkey_t *const PK,
         } else {
             generator_mat_t G_hat = {0};
             /// TODO: this can be optimized: expand the matrix only once and save it.
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..512f728 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -474,7 +474,7 @@ void compress_rref(uint8_t *compressed,
 
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed)
 {
     // Decompress pivot flags
@@ -502,6 +502,15 @@ void expand_to_rref(generator_mat_t *full,
     uint32_t compress_idx = N/8;
 #endif
 
+    // exactly K columns must be flagged as pivots
+    uint32_t num_pivots = 0;
+    for (uint32_t col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     uint32_t decode_state = 0;
     for (uint32_t row_idx = 0; row_idx < K; row_idx++) {
@@ -543,6 +552,10 @@ void expand_to_rref(generator_mat_t *full,
                     break;
                 }
                 
+                if (full->values[row_idx][col_idx] >= Q) {
+                    return 0;
+                }
+
                 if (decode_state != 7) {
                     decode_state++;
                 } else {
@@ -556,6 +569,7 @@ void expand_to_rref(generator_mat_t *full,
         }
     }
 
+    return 1;
 } /* end expand_to_rref */
 
 
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..b95953d 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one, returns 1 on
+ * success, 0 if the bytes do not encode K pivots and canonical elements */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..f9e5f2b 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -251,7 +251,9 @@ int LESS_verify(const pubkey_t *const PK,
             LESS_SHA3_INC_ABSORB(&state, (const uint8_t *) &V_array, sizeof(normalized_IS_t));
         } else {
             generator_mat_t G_hat = {0};
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..adfa1f6 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -415,7 +415,7 @@ void compress_rref(uint8_t *compressed, const generator_mat_t *const full,
 }
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
+int expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     // Decompress pivot flags
     uint8_t is_pivot_column[N] = {0};
     for (int col_byte = 0; col_byte < N / 8; col_byte++) {
@@ -441,6 +441,15 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     int compress_idx = N / 8;
 #endif
 
+    // exactly K columns must be flagged as pivots
+    uint32_t num_pivots = 0;
+    for (uint32_t col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     int decode_state = 0;
     for (int row_idx = 0; row_idx < K; row_idx++) {
@@ -501,6 +510,10 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
                         break;
                 }
 
+                if (full->values[row_idx][col_idx] >= Q) {
+                    return 0;
+                }
+
                 if (decode_state != 7) {
                     decode_state++;
                 } else {
@@ -514,6 +527,7 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
         }
     }
 
+    return 1;
 } /* end expand_to_rref */
 
 
-- 
2.43.0

