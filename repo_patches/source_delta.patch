From b3571c4641ddd59ce72398b14b802b754db300fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 1/8] fix: reject signed messages too short to hold a signature

---
 Optimized_Implementation/common/lib/sign.c | 9 +++++++++
 Reference_Implementation/lib/sign.c        | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..edcd21b 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* too short to hold a signature, even one without published seeds */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,6 +84,10 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
 
+    if (smlen < sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..d2ef980 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* too short to hold a signature, even one without published seeds */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -80,6 +85,10 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
 
+    if (smlen < sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
-- 
2.43.0


From d9575e186ec62ea864353ba4a60d40bff2e43155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 2/8] fix: accept signatures publishing the maximum number of
 seeds

---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index edcd21b..b21c6ef 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -77,7 +77,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index d2ef980..db5c236 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -78,7 +78,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From 663bb9abca8411e1c233df8663176766713d64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 3/8] fix: do not read seeds past the end of the signed message

---
 Optimized_Implementation/common/lib/sign.c | 8 +++++++-
 Reference_Implementation/lib/sign.c        | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index b21c6ef..271aa36 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -91,11 +91,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the number of seeds read by the verification is set by the digest, not by
+     * the length: complete the signature to its maximum length */
+    sign_t sig;
+    memset(&sig, 0, sizeof(sign_t));
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                 // in parameter
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
 } // end crypto_sign_open
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index db5c236..f9f65c0 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -92,11 +92,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the number of seeds read by the verification is set by the digest, not by
+     * the length: complete the signature to its maximum length */
+    sign_t sig;
+    memset(&sig, 0, sizeof(sign_t));
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);                                 // in parameter
 
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
-- 
2.43.0


From 86c7f793a8e6d455a392dff50603498a6400f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 4/8] fix: reject public keys that do not encode a generator in
 RREF

---
 Optimized_Implementation/common/include/codes.h |  5 +++--
 Optimized_Implementation/common/lib/LESS.c      |  5 ++++-
 Optimized_Implementation/common/lib/codes.c     | 16 ++++++++++++++--
 Reference_Implementation/include/codes.h        |  5 +++--
 Reference_Implementation/lib/LESS.c             |  5 ++++-
 Reference_Implementation/lib/codes.c            | 16 ++++++++++++++--
 6 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..c3ce8c4 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one; returns 1 on
+ * success, 0 if the array of bytes does not encode a generator in RREF */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..73bcd0d 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -261,7 +261,10 @@ int LESS_verify(const pubkey_t *const PK,
         } else {
             generator_mat_t G_hat = {0};
             /// TODO: this can be optimized: expand the matrix only once and save it.
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            /* Check that the public key is valid */
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..7154b51 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -474,7 +474,7 @@ void compress_rref(uint8_t *compressed,
 
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed)
 {
     // Decompress pivot flags
@@ -502,6 +502,15 @@ void expand_to_rref(generator_mat_t *full,
     uint32_t compress_idx = N/8;
 #endif
 
+    /* exactly K columns must be pivots: they set how many values are stored */
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     uint32_t decode_state = 0;
     for (uint32_t row_idx = 0; row_idx < K; row_idx++) {
@@ -548,6 +557,9 @@ void expand_to_rref(generator_mat_t *full,
                 } else {
                     decode_state = 0;
                 }
+                if (full->values[row_idx][col_idx] >= Q) {
+                    return 0;
+                }
             } else {
                 // Decompress pivot
                 full->values[row_idx][col_idx] = (row_idx == pivot_idx);
@@ -555,7 +567,7 @@ void expand_to_rref(generator_mat_t *full,
             }
         }
     }
-
+    return 1;
 } /* end expand_to_rref */
 
 
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..219ec02 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one; returns 1 on
+ * success, 0 if the array of bytes does not encode a generator in RREF */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..df4c50d 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -251,7 +251,10 @@ int LESS_verify(const pubkey_t *const PK,
             LESS_SHA3_INC_ABSORB(&state, (const uint8_t *) &V_array, sizeof(normalized_IS_t));
         } else {
             generator_mat_t G_hat = {0};
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            /* Check that the public key is valid */
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..e0cbaa3 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -415,7 +415,7 @@ void compress_rref(uint8_t *compressed, const generator_mat_t *const full,
 }
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
+int expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     // Decompress pivot flags
     uint8_t is_pivot_column[N] = {0};
     for (int col_byte = 0; col_byte < N / 8; col_byte++) {
@@ -441,6 +441,15 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     int compress_idx = N / 8;
 #endif
 
+    /* exactly K columns must be pivots: they set how many values are stored */
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     int decode_state = 0;
     for (int row_idx = 0; row_idx < K; row_idx++) {
@@ -506,6 +515,9 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
                 } else {
                     decode_state = 0;
                 }
+                if (full->values[row_idx][col_idx] >= Q) {
+                    return 0;
+                }
             } else {
                 // Decompress pivot
                 full->values[row_idx][col_idx] = (row_idx == pivot_idx);
@@ -513,7 +525,7 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
             }
         }
     }
-
+    return 1;
 } /* end expand_to_rref */
 
 
-- 
2.43.0


From 261c8c67e0df34d3d2bb4d315b277e3d4c97447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 5/8] fix: report I/O and allocation failures of the KAT
 generator

---
 .../common/lib/nist/PQCgenKAT_sign.c          | 43 ++++++++++++++++---
 .../lib/nist/PQCgenKAT_sign.c                 | 43 ++++++++++++++++---
 Utilities/KAT_Generation/lib/PQCgenKAT_sign.c | 43 ++++++++++++++++---
 3 files changed, 108 insertions(+), 21 deletions(-)

diff --git a/Optimized_Implementation/common/lib/nist/PQCgenKAT_sign.c b/Optimized_Implementation/common/lib/nist/PQCgenKAT_sign.c
index 7ae5de5..a1ab497 100644
--- a/Optimized_Implementation/common/lib/nist/PQCgenKAT_sign.c
+++ b/Optimized_Implementation/common/lib/nist/PQCgenKAT_sign.c
@@ -10,6 +10,7 @@
 #include "rng.h"
 
 #define MAX_MARKER_LEN      50
+#define NUM_KAT_RECORDS    100
 
 #define KAT_SUCCESS          0
 #define KAT_FILE_OPEN_ERROR -1
@@ -18,6 +19,7 @@
 
 int    FindMarker(FILE *infile, const char *marker);
 int    ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str);
+int    CloseFile(FILE *fp);
 void   fprintBstr(FILE *fp, char *S, unsigned char *A, unsigned long long L);
 char    AlgName[] = "LESS";
 
@@ -31,6 +33,7 @@ int main(void) {
     unsigned long long  mlen, smlen, mlen1;
     int                 count;
     int                 done;
+    int                 num_records;
     unsigned char       pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES];
     int                 ret_val;
 
@@ -52,7 +55,7 @@ int main(void) {
 
 
     KAT_NIST_randombytes_init(entropy_input, NULL, 256);
-    for (unsigned i=0; i<100; i++) {
+    for (unsigned i=0; i<NUM_KAT_RECORDS; i++) {
         fprintf(fp_req, "count = %d\n", i);
         KAT_NIST_randombytes(seed, 48);
         fprintBstr(fp_req, "seed = ", seed, 48);
@@ -65,7 +68,10 @@ int main(void) {
         fprintf(fp_req, "smlen =\n");
         fprintf(fp_req, "sm =\n\n");
     }
-    fclose(fp_req);
+    if ( !CloseFile(fp_req) ) {
+        printf("ERROR: unable to write <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
 
     //Create the RESPONSE file based on what's in the REQUEST file
     if ( (fp_req = fopen(fn_req, "r")) == NULL ) {
@@ -75,10 +81,11 @@ int main(void) {
 
     fprintf(fp_rsp, "# %s\n\n", CRYPTO_ALGNAME);
     done = 0;
+    num_records = 0;
     do {
         if ( FindMarker(fp_req, "count = ") ) {
             const int ret = fscanf(fp_req, "%d", &count);
-			if (ret == 0) {
+			if (ret != 1) {
         		printf("fscan error\n");
         		return KAT_DATA_ERROR;
 			}
@@ -97,7 +104,7 @@ int main(void) {
         initialize_csprng(&platform_csprng_state, (const unsigned char *)seed, 48);
         if (FindMarker(fp_req, "mlen = ")) {
             const int ret = fscanf(fp_req, "%llu", &mlen);
-			if ((size_t)ret == 0) {
+			if (ret != 1) {
         		printf("fscan error\n");
         		return KAT_DATA_ERROR;
 			}
@@ -110,6 +117,10 @@ int main(void) {
         m = (unsigned char *)calloc(mlen, sizeof(unsigned char));
         m1 = (unsigned char *)calloc(mlen+CRYPTO_BYTES, sizeof(unsigned char));
         sm = (unsigned char *)calloc(mlen+CRYPTO_BYTES, sizeof(unsigned char));
+        if ( m == NULL || m1 == NULL || sm == NULL ) {
+            printf("ERROR: unable to allocate the message buffers\n");
+            return KAT_DATA_ERROR;
+        }
 
         if ( !ReadHex(fp_req, m, mlen, "msg = ") ) {
             printf("ERROR: unable to read 'msg' from <%s>\n", fn_req);
@@ -153,14 +164,30 @@ int main(void) {
         free(m1);
         free(sm);
 
+        num_records++;
     } while ( !done );
 
-    fclose(fp_req);
-    fclose(fp_rsp);
+    if ( !CloseFile(fp_req) || num_records != NUM_KAT_RECORDS ) {
+        printf("ERROR: unable to read all the requests from <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
+    if ( !CloseFile(fp_rsp) ) {
+        printf("ERROR: unable to write <%s>\n", fn_rsp);
+        return KAT_DATA_ERROR;
+    }
 
     return KAT_SUCCESS;
 }
 
+//
+// CLOSES A FILE, RETURNS 0 IF ANY OPERATION ON IT FAILED
+//
+int CloseFile(FILE *fp) {
+   const int failed = ferror(fp);
+
+   return (fclose(fp) == 0) && !failed;
+}
+
 //
 // ALLOW TO READ HEXADECIMAL ENTRY (KEYS, DATA, TEXT, etc.)
 //
@@ -207,6 +234,7 @@ int FindMarker(FILE *infile, const char *marker) {
 int ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str) {
    uint32_t i;
    int ch, started;
+   size_t digits = 0;
    unsigned char   ich;
 
    if ( Length == 0 ) {
@@ -243,10 +271,11 @@ int ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str) {
         for ( i=0; i<Length-1; i++ )
             A[i] = (A[i] << 4) | (A[i+1] >> 4);
          A[Length-1] = (A[Length-1] << 4) | ich;
+         digits++;
       }
    else
       return 0;
-   return 1;
+   return digits == 2*Length;
 }
 
 void fprintBstr(FILE *fp, char *S, unsigned char *A, unsigned long long L) {
diff --git a/Reference_Implementation/lib/nist/PQCgenKAT_sign.c b/Reference_Implementation/lib/nist/PQCgenKAT_sign.c
index 7ae5de5..a1ab497 100644
--- a/Reference_Implementation/lib/nist/PQCgenKAT_sign.c
+++ b/Reference_Implementation/lib/nist/PQCgenKAT_sign.c
@@ -10,6 +10,7 @@
 #include "rng.h"
 
 #define MAX_MARKER_LEN      50
+#define NUM_KAT_RECORDS    100
 
 #define KAT_SUCCESS          0
 #define KAT_FILE_OPEN_ERROR -1
@@ -18,6 +19,7 @@
 
 int    FindMarker(FILE *infile, const char *marker);
 int    ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str);
+int    CloseFile(FILE *fp);
 void   fprintBstr(FILE *fp, char *S, unsigned char *A, unsigned long long L);
 char    AlgName[] = "LESS";
 
@@ -31,6 +33,7 @@ int main(void) {
     unsigned long long  mlen, smlen, mlen1;
     int                 count;
     int                 done;
+    int                 num_records;
     unsigned char       pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES];
     int                 ret_val;
 
@@ -52,7 +55,7 @@ int main(void) {
 
 
     KAT_NIST_randombytes_init(entropy_input, NULL, 256);
-    for (unsigned i=0; i<100; i++) {
+    for (unsigned i=0; i<NUM_KAT_RECORDS; i++) {
         fprintf(fp_req, "count = %d\n", i);
         KAT_NIST_randombytes(seed, 48);
         fprintBstr(fp_req, "seed = ", seed, 48);
@@ -65,7 +68,10 @@ int main(void) {
         fprintf(fp_req, "smlen =\n");
         fprintf(fp_req, "sm =\n\n");
     }
-    fclose(fp_req);
+    if ( !CloseFile(fp_req) ) {
+        printf("ERROR: unable to write <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
 
     //Create the RESPONSE file based on what's in the REQUEST file
     if ( (fp_req = fopen(fn_req, "r")) == NULL ) {
@@ -75,10 +81,11 @@ int main(void) {
 
     fprintf(fp_rsp, "# %s\n\n", CRYPTO_ALGNAME);
     done = 0;
+    num_records = 0;
     do {
         if ( FindMarker(fp_req, "count = ") ) {
             const int ret = fscanf(fp_req, "%d", &count);
-			if (ret == 0) {
+			if (ret != 1) {
         		printf("fscan error\n");
         		return KAT_DATA_ERROR;
 			}
@@ -97,7 +104,7 @@ int main(void) {
         initialize_csprng(&platform_csprng_state, (const unsigned char *)seed, 48);
         if (FindMarker(fp_req, "mlen = ")) {
             const int ret = fscanf(fp_req, "%llu", &mlen);
-			if ((size_t)ret == 0) {
+			if (ret != 1) {
         		printf("fscan error\n");
         		return KAT_DATA_ERROR;
 			}
@@ -110,6 +117,10 @@ int main(void) {
         m = (unsigned char *)calloc(mlen, sizeof(unsigned char));
         m1 = (unsigned char *)calloc(mlen+CRYPTO_BYTES, sizeof(unsigned char));
         sm = (unsigned char *)calloc(mlen+CRYPTO_BYTES, sizeof(unsigned char));
+        if ( m == NULL || m1 == NULL || sm == NULL ) {
+            printf("ERROR: unable to allocate the message buffers\n");
+            return KAT_DATA_ERROR;
+        }
 
         if ( !ReadHex(fp_req, m, mlen, "msg = ") ) {
             printf("ERROR: unable to read 'msg' from <%s>\n", fn_req);
@@ -153,14 +164,30 @@ int main(void) {
         free(m1);
         free(sm);
 
+        num_records++;
     } while ( !done );
 
-    fclose(fp_req);
-    fclose(fp_rsp);
+    if ( !CloseFile(fp_req) || num_records != NUM_KAT_RECORDS ) {
+        printf("ERROR: unable to read all the requests from <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
+    if ( !CloseFile(fp_rsp) ) {
+        printf("ERROR: unable to write <%s>\n", fn_rsp);
+        return KAT_DATA_ERROR;
+    }
 
     return KAT_SUCCESS;
 }
 
+//
+// CLOSES A FILE, RETURNS 0 IF ANY OPERATION ON IT FAILED
+//
+int CloseFile(FILE *fp) {
+   const int failed = ferror(fp);
+
+   return (fclose(fp) == 0) && !failed;
+}
+
 //
 // ALLOW TO READ HEXADECIMAL ENTRY (KEYS, DATA, TEXT, etc.)
 //
@@ -207,6 +234,7 @@ int FindMarker(FILE *infile, const char *marker) {
 int ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str) {
    uint32_t i;
    int ch, started;
+   size_t digits = 0;
    unsigned char   ich;
 
    if ( Length == 0 ) {
@@ -243,10 +271,11 @@ int ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str) {
         for ( i=0; i<Length-1; i++ )
             A[i] = (A[i] << 4) | (A[i+1] >> 4);
          A[Length-1] = (A[Length-1] << 4) | ich;
+         digits++;
       }
    else
       return 0;
-   return 1;
+   return digits == 2*Length;
 }
 
 void fprintBstr(FILE *fp, char *S, unsigned char *A, unsigned long long L) {
diff --git a/Utilities/KAT_Generation/lib/PQCgenKAT_sign.c b/Utilities/KAT_Generation/lib/PQCgenKAT_sign.c
index 7ae5de5..a1ab497 100644
--- a/Utilities/KAT_Generation/lib/PQCgenKAT_sign.c
+++ b/Utilities/KAT_Generation/lib/PQCgenKAT_sign.c
@@ -10,6 +10,7 @@
 #include "rng.h"
 
 #define MAX_MARKER_LEN      50
+#define NUM_KAT_RECORDS    100
 
 #define KAT_SUCCESS          0
 #define KAT_FILE_OPEN_ERROR -1
@@ -18,6 +19,7 @@
 
 int    FindMarker(FILE *infile, const char *marker);
 int    ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str);
+int    CloseFile(FILE *fp);
 void   fprintBstr(FILE *fp, char *S, unsigned char *A, unsigned long long L);
 char    AlgName[] = "LESS";
 
@@ -31,6 +33,7 @@ int main(void) {
     unsigned long long  mlen, smlen, mlen1;
     int                 count;
     int                 done;
+    int                 num_records;
     unsigned char       pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES];
     int                 ret_val;
 
@@ -52,7 +55,7 @@ int main(void) {
 
 
     KAT_NIST_randombytes_init(entropy_input, NULL, 256);
-    for (unsigned i=0; i<100; i++) {
+    for (unsigned i=0; i<NUM_KAT_RECORDS; i++) {
         fprintf(fp_req, "count = %d\n", i);
         KAT_NIST_randombytes(seed, 48);
         fprintBstr(fp_req, "seed = ", seed, 48);
@@ -65,7 +68,10 @@ int main(void) {
         fprintf(fp_req, "smlen =\n");
         fprintf(fp_req, "sm =\n\n");
     }
-    fclose(fp_req);
+    if ( !CloseFile(fp_req) ) {
+        printf("ERROR: unable to write <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
 
     //Create the RESPONSE file based on what's in the REQUEST file
     if ( (fp_req = fopen(fn_req, "r")) == NULL ) {
@@ -75,10 +81,11 @@ int main(void) {
 
     fprintf(fp_rsp, "# %s\n\n", CRYPTO_ALGNAME);
     done = 0;
+    num_records = 0;
     do {
         if ( FindMarker(fp_req, "count = ") ) {
             const int ret = fscanf(fp_req, "%d", &count);
-			if (ret == 0) {
+			if (ret != 1) {
         		printf("fscan error\n");
         		return KAT_DATA_ERROR;
 			}
@@ -97,7 +104,7 @@ int main(void) {
         initialize_csprng(&platform_csprng_state, (const unsigned char *)seed, 48);
         if (FindMarker(fp_req, "mlen = ")) {
             const int ret = fscanf(fp_req, "%llu", &mlen);
-			if ((size_t)ret == 0) {
+			if (ret != 1) {
         		printf("fscan error\n");
         		return KAT_DATA_ERROR;
 			}
@@ -110,6 +117,10 @@ int main(void) {
         m = (unsigned char *)calloc(mlen, sizeof(unsigned char));
         m1 = (unsigned char *)calloc(mlen+CRYPTO_BYTES, sizeof(unsigned char));
         sm = (unsigned char *)calloc(mlen+CRYPTO_BYTES, sizeof(unsigned char));
+        if ( m == NULL || m1 == NULL || sm == NULL ) {
+            printf("ERROR: unable to allocate the message buffers\n");
+            return KAT_DATA_ERROR;
+        }
 
         if ( !ReadHex(fp_req, m, mlen, "msg = ") ) {
             printf("ERROR: unable to read 'msg' from <%s>\n", fn_req);
@@ -153,14 +164,30 @@ int main(void) {
         free(m1);
         free(sm);
 
+        num_records++;
     } while ( !done );
 
-    fclose(fp_req);
-    fclose(fp_rsp);
+    if ( !CloseFile(fp_req) || num_records != NUM_KAT_RECORDS ) {
+        printf("ERROR: unable to read all the requests from <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
+    if ( !CloseFile(fp_rsp) ) {
+        printf("ERROR: unable to write <%s>\n", fn_rsp);
+        return KAT_DATA_ERROR;
+    }
 
     return KAT_SUCCESS;
 }
 
+//
+// CLOSES A FILE, RETURNS 0 IF ANY OPERATION ON IT FAILED
+//
+int CloseFile(FILE *fp) {
+   const int failed = ferror(fp);
+
+   return (fclose(fp) == 0) && !failed;
+}
+
 //
 // ALLOW TO READ HEXADECIMAL ENTRY (KEYS, DATA, TEXT, etc.)
 //
@@ -207,6 +234,7 @@ int FindMarker(FILE *infile, const char *marker) {
 int ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str) {
    uint32_t i;
    int ch, started;
+   size_t digits = 0;
    unsigned char   ich;
 
    if ( Length == 0 ) {
@@ -243,10 +271,11 @@ int ReadHex(FILE *infile, unsigned char *A, size_t Length, char *str) {
         for ( i=0; i<Length-1; i++ )
             A[i] = (A[i] << 4) | (A[i+1] >> 4);
          A[Length-1] = (A[Length-1] << 4) | ich;
+         digits++;
       }
    else
       return 0;
-   return 1;
+   return digits == 2*Length;
 }
 
 void fprintBstr(FILE *fp, char *S, unsigned char *A, unsigned long long L) {
-- 
2.43.0


From 98ae9b4c5377292d06f7417e8b6652e5d428e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 6/8] Allow simulation builds to select scaled down parameters
 (LESS_SIM_PARAMS)

---
 Optimized_Implementation/common/include/parameters.h | 6 +++++-
 Reference_Implementation/include/parameters.h        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/include/parameters.h b/Optimized_Implementation/common/include/parameters.h
index da6c663..6c59188 100644
--- a/Optimized_Implementation/common/include/parameters.h
+++ b/Optimized_Implementation/common/include/parameters.h
@@ -27,8 +27,12 @@
 #pragma once
 #include <stdint.h>
 
+/* simulation builds only: a scaled down instance of the selected category */
+#if defined(LESS_SIM_PARAMS)
+#include LESS_SIM_PARAMS
+
 /********************************* Category 1 *********************************/
-#if defined(CATEGORY_1)
+#elif defined(CATEGORY_1)
 #define SEED_LENGTH_BYTES (16)
 #define FQ_ELEM uint8_t
 #define FQ_DOUBLEPREC uint16_t
diff --git a/Reference_Implementation/include/parameters.h b/Reference_Implementation/include/parameters.h
index 6a8f192..a21d7b1 100644
--- a/Reference_Implementation/include/parameters.h
+++ b/Reference_Implementation/include/parameters.h
@@ -28,8 +28,12 @@
 
 /* Seed tree max size is computed according to Parameter Generation Script in Utilities folder */
 
+/* simulation builds only: a scaled down instance of the selected category */
+#if defined(LESS_SIM_PARAMS)
+#include LESS_SIM_PARAMS
+
 /********************************* Category 1 *********************************/
-#if defined(CATEGORY_1)
+#elif defined(CATEGORY_1)
 #define SEED_LENGTH_BYTES (16)
 #define FQ_ELEM uint8_t
 #define FQ_DOUBLEPREC uint16_t
-- 
2.43.0


From d73b18c1e5e8484d29d4302aeac0ae483de3b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:14 +0000
Subject: [PATCH 7/8] fix: do not truncate reads of 4 GiB and more from the
 random generators

---
 Optimized_Implementation/common/include/sha3.h | 4 ++--
 Reference_Implementation/include/sha3.h        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Optimized_Implementation/common/include/sha3.h b/Optimized_Implementation/common/include/sha3.h
index 19e0034..eb7215b 100644
--- a/Optimized_Implementation/common/include/sha3.h
+++ b/Optimized_Implementation/common/include/sha3.h
@@ -62,7 +62,7 @@ void xof_shake_final(SHAKE_STATE_STRUCT *state)
 static inline
 void xof_shake_extract(SHAKE_STATE_STRUCT *state,
                        unsigned char *output,
-                       unsigned int outputByteLen)
+                       size_t outputByteLen)
 {
    Keccak_HashSqueeze(state,
                       (BitSequence *) output,
@@ -164,7 +164,7 @@ void xof_shake_final(SHAKE_STATE_STRUCT *state) {
 static inline
 void xof_shake_extract(SHAKE_STATE_STRUCT *state,
                        unsigned char *output,
-                       unsigned int outputByteLen) {
+                       size_t outputByteLen) {
 #if defined(CATEGORY_1)
    shake128_inc_squeeze(output, outputByteLen, state);
 #else
diff --git a/Reference_Implementation/include/sha3.h b/Reference_Implementation/include/sha3.h
index 19e0034..eb7215b 100644
--- a/Reference_Implementation/include/sha3.h
+++ b/Reference_Implementation/include/sha3.h
@@ -62,7 +62,7 @@ void xof_shake_final(SHAKE_STATE_STRUCT *state)
 static inline
 void xof_shake_extract(SHAKE_STATE_STRUCT *state,
                        unsigned char *output,
-                       unsigned int outputByteLen)
+                       size_t outputByteLen)
 {
    Keccak_HashSqueeze(state,
                       (BitSequence *) output,
@@ -164,7 +164,7 @@ void xof_shake_final(SHAKE_STATE_STRUCT *state) {
 static inline
 void xof_shake_extract(SHAKE_STATE_STRUCT *state,
                        unsigned char *output,
-                       unsigned int outputByteLen) {
+                       size_t outputByteLen) {
 #if defined(CATEGORY_1)
    shake128_inc_squeeze(output, outputByteLen, state);
 #else
-- 
2.43.0


From e59ab01e6cf2d2974ef1f3e294e25eda6d5f2fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:27 +0000
Subject: [PATCH 8/8] fix: keep the output position of long reads in
 KAT_NIST_randombytes

---
 Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c | 2 +-
 Reference_Implementation/lib/nist/KAT_NIST_rng.c        | 2 +-
 Utilities/KAT_Generation/lib/KAT_NIST_rng.c             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c b/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c
index 5badb12..9caeeba 100644
--- a/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c
+++ b/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c
@@ -173,7 +173,7 @@ void KAT_NIST_randombytes_init(unsigned char *entropy_input,
 
 int KAT_NIST_randombytes(unsigned char *x, unsigned long long xlen) {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Reference_Implementation/lib/nist/KAT_NIST_rng.c b/Reference_Implementation/lib/nist/KAT_NIST_rng.c
index 5badb12..9caeeba 100644
--- a/Reference_Implementation/lib/nist/KAT_NIST_rng.c
+++ b/Reference_Implementation/lib/nist/KAT_NIST_rng.c
@@ -173,7 +173,7 @@ void KAT_NIST_randombytes_init(unsigned char *entropy_input,
 
 int KAT_NIST_randombytes(unsigned char *x, unsigned long long xlen) {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Utilities/KAT_Generation/lib/KAT_NIST_rng.c b/Utilities/KAT_Generation/lib/KAT_NIST_rng.c
index 5badb12..9caeeba 100644
--- a/Utilities/KAT_Generation/lib/KAT_NIST_rng.c
+++ b/Utilities/KAT_Generation/lib/KAT_NIST_rng.c
@@ -173,7 +173,7 @@ void KAT_NIST_randombytes_init(unsigned char *entropy_input,
 
 int KAT_NIST_randombytes(unsigned char *x, unsigned long long xlen) {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0

