From 15061f2f5425c0d940dd8ed8a7e61ba40f182fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 01/10] fix: wipe the key only after the last signature has
 been made

Both cores erased the secret key before copying the seeds out of it when the
last index was reached, so the last signature of every key was invalid.
---
 xmss_core.c      | 21 ++++++++++++++-------
 xmss_core_fast.c | 42 ++++++++++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..7b6d7a1 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -196,6 +196,7 @@ int xmssmt_core_sign(const xmss_params *params,
     unsigned char idx_bytes_32[32];
     unsigned int i;
     uint32_t idx_leaf;
+    int last_signature = 0;
 
     uint32_t ots_addr[8] = {0};
     set_type(ots_addr, XMSS_ADDR_TYPE_OTS);
@@ -220,14 +221,15 @@ int xmssmt_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 64) {
+            // Delete secret key here. We only do this in memory, production code
+            // has to make sure that this happens on disk.
+            memset(sk, 0xFF, params->index_bytes);
+            memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        // The key is still needed for this signature; it is deleted below.
+        last_signature = 1;
     }
     
     memcpy(sm, sk, params->index_bytes);
@@ -269,5 +271,10 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    /* The last one-time key has been used; delete the secret key. */
+    if (last_signature) {
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..f7a089e 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -589,6 +589,7 @@ int xmss_core_sign(const xmss_params *params,
     const unsigned char *pub_root = sk + params->index_bytes + 2*params->n;
 
     uint16_t i = 0;
+    int last_signature = 0;
 
     // TODO refactor BDS state not to need separate treehash instances
     bds_state state;
@@ -613,14 +614,15 @@ int xmss_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 64) {
+            // Delete secret key here. We only do this in memory, production code
+            // has to make sure that this happens on disk.
+            memset(sk, 0xFF, params->index_bytes);
+            memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        // The key is still needed for this signature; it is deleted below.
+        last_signature = 1;
     }
     
     unsigned char sk_seed[params->n];
@@ -716,6 +718,11 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    /* The last one-time key has been used; delete the secret key. */
+    if (last_signature) {
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
 
@@ -794,6 +801,7 @@ int xmssmt_core_sign(const xmss_params *params,
     uint64_t i, j;
     int needswap_upto = -1;
     unsigned int updates;
+    int last_signature = 0;
 
     unsigned char sk_seed[params->n];
     unsigned char sk_prf[params->n];
@@ -834,14 +842,15 @@ int xmssmt_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 64) {
+            // Delete secret key here. We only do this in memory, production code
+            // has to make sure that this happens on disk.
+            memset(sk, 0xFF, params->index_bytes);
+            memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        // The key is still needed for this signature; it is deleted below.
+        last_signature = 1;
     }
     
     memcpy(sk_seed, sk+params->index_bytes, params->n);
@@ -984,5 +993,10 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    /* The last one-time key has been used; delete the secret key. */
+    if (last_signature) {
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
-- 
2.43.0


From 300c6c7380db1b7d086c427301f309741cfccca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 02/10] fix: keep an exhausted key exhausted when the index
 field has no spare bit

With a total height of 40 the index wraps to 0 after the last signature, and
the key would sign again. Extend the rule for a height of 64 to every index
field that is exactly as wide as the tree is high.
---
 xmss_core.c      |  9 +++++----
 xmss_core_fast.c | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index 7b6d7a1..6425014 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -216,12 +216,13 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index field has no bit to spare (e.g. a total tree height of 40) we
+     * do not use the last signature to be on the safe side (there is no index
+     * value left to indicate that the key is finished, hence external handling
+     * would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 64) {
+        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 8*params->index_bytes) {
             // Delete secret key here. We only do this in memory, production code
             // has to make sure that this happens on disk.
             memset(sk, 0xFF, params->index_bytes);
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index f7a089e..1c50d94 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -609,12 +609,13 @@ int xmss_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index field has no bit to spare (e.g. a total tree height of 40) we
+     * do not use the last signature to be on the safe side (there is no index
+     * value left to indicate that the key is finished, hence external handling
+     * would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 64) {
+        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 8*params->index_bytes) {
             // Delete secret key here. We only do this in memory, production code
             // has to make sure that this happens on disk.
             memset(sk, 0xFF, params->index_bytes);
@@ -837,12 +838,13 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index field has no bit to spare (e.g. a total tree height of 40) we
+     * do not use the last signature to be on the safe side (there is no index
+     * value left to indicate that the key is finished, hence external handling
+     * would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 64) {
+        if (idx > ((1ULL << params->full_height) - 1) || params->full_height == 8*params->index_bytes) {
             // Delete secret key here. We only do this in memory, production code
             // has to make sure that this happens on disk.
             memset(sk, 0xFF, params->index_bytes);
-- 
2.43.0


From fd9de459ae3a5d40e0874085c048187b496e57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 03/10] fix: reject inputs shorter than a signature

The message length underflowed and the message copy ran far out of bounds.
---
 xmss_commons.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..8beff01 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,12 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* Anything shorter than a signature cannot be valid. */
+    if (smlen < params->sig_bytes) {
+        *mlen = 0;
+        return -1;
+    }
+
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From 0b334769018b67f4e987fc48d9c995a6652a9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 04/10] fix: do not continue with garbage when the hash
 provider fails

SHA256 and SHA512 return NULL on failure; the result was ignored, so that
wrong keys, signatures or verdicts could be produced. No caller can recover
from this, hence abort.
---
 hash.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hash.c b/hash.c
index 6724d43..a91d12f 100644
--- a/hash.c
+++ b/hash.c
@@ -1,4 +1,5 @@
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 #include <openssl/sha.h>
 
@@ -29,14 +30,18 @@ static int core_hash(const xmss_params *params,
     unsigned char buf[64];
 
     if (params->n == 24 && params->func == XMSS_SHA2) {
-        SHA256(in, inlen, buf);
+        if (SHA256(in, inlen, buf) == NULL) {
+            abort();
+        }
         memcpy(out, buf, 24);
     }
     else if (params->n == 24 && params->func == XMSS_SHAKE256) {
         shake256(out, 24, in, inlen);
     }   
     else if (params->n == 32 && params->func == XMSS_SHA2) {
-        SHA256(in, inlen, out);
+        if (SHA256(in, inlen, out) == NULL) {
+            abort();
+        }
     }
     else if (params->n == 32 && params->func == XMSS_SHAKE128) {
         shake128(out, 32, in, inlen);
@@ -45,7 +50,9 @@ static int core_hash(const xmss_params *params,
         shake256(out, 32, in, inlen);
     }
     else if (params->n == 64 && params->func == XMSS_SHA2) {
-        SHA512(in, inlen, out);
+        if (SHA512(in, inlen, out) == NULL) {
+            abort();
+        }
     }
     else if (params->n == 64 && params->func == XMSS_SHAKE256) {
         shake256(out, 64, in, inlen);
-- 
2.43.0


From 67f497d8f6687fda376ed1752d10743378ccea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 05/10] fix: xmss_sign releases a signature only after the key
 update is on disk

The result of signing, of writing the key and of writing the output was
ignored, and the signature could leave before the key update: a crash or an
I/O error could make the same one-time key sign twice, and failures were
reported as success.
---
 ui/sign.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..fbd5cc8 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <unistd.h>
 
 #include "../params.h"
 #include "../xmss.h"
@@ -24,6 +25,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long mlen;
+    int ret;
 
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and message filenames as two "
@@ -86,11 +88,24 @@ int main(int argc, char **argv) {
     fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
     fread(m, 1, mlen, m_file);
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    /* The changed state must be on disk before any part of the signature can
+       be seen. A refused key has been erased; that is stored as well. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR) != 0
+        || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file) != params.sk_bytes
+        || fflush(keypair_file) != 0
+        || fsync(fileno(keypair_file)) != 0) {
+        fprintf(stderr, "Could not update keypair file.\n");
+        ret = -1;
+    }
+    else if (ret != 0) {
+        fprintf(stderr, "Could not sign with this key.\n");
+    }
+    else if (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout) != 0) {
+        fprintf(stderr, "Could not write signature + message.\n");
+        ret = -1;
+    }
 
     fclose(keypair_file);
     fclose(m_file);
@@ -98,5 +113,5 @@ int main(int argc, char **argv) {
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0


From e2a3706ab492b821f38dddd268cb848cc81a4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 06/10] fix: xmss_sign refuses files it cannot read completely

Failed or short reads of the key or the message, failed seeks and failed
allocations were ignored; the tool crashed, or signed garbage and overwrote
the key file.
---
 ui/sign.c | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index fbd5cc8..db2b4c6 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -24,6 +24,7 @@ int main(int argc, char **argv) {
     uint8_t buffer[XMSS_OID_LEN];
     int parse_oid_result;
 
+    long file_len;
     unsigned long long mlen;
     int ret;
 
@@ -49,11 +50,21 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(m_file, 0, SEEK_END);
-    mlen = ftell(m_file);
+    if (fseek(m_file, 0, SEEK_END) != 0 || (file_len = ftell(m_file)) < 0) {
+        fprintf(stderr, "Could not find out the message length.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
+    mlen = file_len;
 
     /* Read the OID from the public key, as we need its length to seek past it */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read public key oid.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* The XMSS_OID_LEN bytes in buffer are a big-endian uint32. */
     oid_pk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_pk);
@@ -64,10 +75,15 @@ int main(int argc, char **argv) {
         return parse_oid_result;
     }
 
-    /* fseek past the public key */
-    fseek(keypair_file, params.pk_bytes, SEEK_CUR);
-    /* This is the OID we're actually going to use. Likely the same, but still. */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    /* fseek past the public key.
+       This is the OID we're actually going to use. Likely the same, but still. */
+    if (fseek(keypair_file, params.pk_bytes, SEEK_CUR) != 0
+        || fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read secret key oid.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);
     if (parse_oid_result != 0) {
@@ -78,15 +94,24 @@ int main(int argc, char **argv) {
     }
 
     unsigned char sk[XMSS_OID_LEN + params.sk_bytes];
-    unsigned char *m = malloc(mlen);
+    unsigned char *m = malloc(mlen + 1);
     unsigned char *sm = malloc(params.sig_bytes + mlen);
     unsigned long long smlen;
 
     /* fseek back to start of sk. */
-    fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
-    fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (m == NULL || sm == NULL
+        || fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR) != 0
+        || fseek(m_file, 0, SEEK_SET) != 0
+        || fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
+            != XMSS_OID_LEN + params.sk_bytes
+        || fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read keypair and message.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
     ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
 
-- 
2.43.0


From 4e87b4cf3c1364959b56c2b2e3b0bf5ecf7df03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 07/10] fix: xmss_sign locks the key file

Two signers running at the same time read the same index and both used it.
---
 ui/sign.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ui/sign.c b/ui/sign.c
index db2b4c6..1994212 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <sys/file.h>
 
 #include "../params.h"
 #include "../xmss.h"
@@ -42,6 +43,13 @@ int main(int argc, char **argv) {
         return -1;
     }
 
+    /* Nobody else may read this key until it has been updated. */
+    if (flock(fileno(keypair_file), LOCK_EX) != 0) {
+        fprintf(stderr, "Could not lock keypair file.\n");
+        fclose(keypair_file);
+        return -1;
+    }
+
     m_file = fopen(argv[2], "rb");
     if (m_file == NULL) {
         fprintf(stderr, "Could not open message file.\n");
-- 
2.43.0


From 757a973446d5ad7248c2178e21777d265cea679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 08/10] fix: xmss_keypair reports failure to write the key pair

---
 ui/keypair.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ui/keypair.c b/ui/keypair.c
index 612c448..ee22f23 100644
--- a/ui/keypair.c
+++ b/ui/keypair.c
@@ -37,12 +37,17 @@ int main(int argc, char **argv)
     unsigned char pk[XMSS_OID_LEN + params.pk_bytes];
     unsigned char sk[XMSS_OID_LEN + params.sk_bytes];
 
-    XMSS_KEYPAIR(pk, sk, oid);
-
-    fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout);
-    fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout);
+    if (XMSS_KEYPAIR(pk, sk, oid) != 0) {
+        fprintf(stderr, "Error generating keypair.\n");
+        return -1;
+    }
 
-    fclose(stdout);
+    if (fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout) != XMSS_OID_LEN + params.pk_bytes
+        || fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout) != XMSS_OID_LEN + params.sk_bytes
+        || fclose(stdout) != 0) {
+        fprintf(stderr, "Error writing keypair.\n");
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 8282b5912b9dd3b0233f08e702e93291770a273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 09/10] fix: xmss_open rejects files it cannot read completely

Failed or short reads, failed seeks and failed allocations were ignored.
---
 ui/open.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/ui/open.c b/ui/open.c
index a0b0b94..2743f8d 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -22,6 +22,7 @@ int main(int argc, char **argv) {
     uint8_t buffer[XMSS_OID_LEN];
     int parse_oid_result;
 
+    long file_len;
     unsigned long long smlen;
     int ret;
 
@@ -47,10 +48,20 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(sm_file, 0, SEEK_END);
-    smlen = ftell(sm_file);
+    if (fseek(sm_file, 0, SEEK_END) != 0 || (file_len = ftell(sm_file)) < 0) {
+        fprintf(stderr, "Could not find out the message length.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
+    smlen = file_len;
 
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read oid.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
     oid = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid);
     if (parse_oid_result != 0) {
@@ -61,14 +72,23 @@ int main(int argc, char **argv) {
     }
 
     unsigned char pk[XMSS_OID_LEN + params.pk_bytes];
-    unsigned char *sm = malloc(smlen);
-    unsigned char *m = malloc(smlen);
+    unsigned char *sm = malloc(smlen + 1);
+    unsigned char *m = malloc(smlen + 1);
     unsigned long long mlen;
 
-    fseek(keypair_file, 0, SEEK_SET);
-    fseek(sm_file, 0, SEEK_SET);
-    fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file);
-    fread(sm, 1, smlen, sm_file);
+    if (sm == NULL || m == NULL
+        || fseek(keypair_file, 0, SEEK_SET) != 0
+        || fseek(sm_file, 0, SEEK_SET) != 0
+        || fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file)
+            != XMSS_OID_LEN + params.pk_bytes
+        || fread(sm, 1, smlen, sm_file) != smlen) {
+        fprintf(stderr, "Could not read public key and signature + message.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
     ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
 
-- 
2.43.0


From a6180ee66c4250eb169e65737cad9ee0c9e00265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:46 +0000
Subject: [PATCH 10/10] fix: keep the keypair file apart from closed standard
 streams

With stdout or stderr closed, xmss_sign opened the keypair file as
descriptor 1 or 2. The signature was then written into the keypair file
with exit status 0, and error messages overwrote the public key.
---
 ui/sign.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ui/sign.c b/ui/sign.c
index 1994212..6f0d930 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <sys/file.h>
 
 #include "../params.h"
@@ -29,6 +30,15 @@ int main(int argc, char **argv) {
     unsigned long long mlen;
     int ret;
 
+    /* The keypair file must not take the place of a closed stdout or stderr,
+       or it would receive what is written there. */
+    while (fcntl(STDOUT_FILENO, F_GETFD) == -1
+           || fcntl(STDERR_FILENO, F_GETFD) == -1) {
+        if (open("/dev/null", O_RDONLY) == -1) {
+            return -1;
+        }
+    }
+
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and message filenames as two "
                         "parameters.\n"
-- 
2.43.0

