From 218d39aab78498d8d61bce2fd87ba9e153a2bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 01/17] fix: reject signed messages shorter than a signature

smlen - sig_bytes wrapped around, so verification read and wrote far beyond
the caller's buffers.
---
 xmss_commons.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..f6ca96a 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,13 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* A signed message that is too short to hold a signature is invalid. */
+    if (smlen < params->sig_bytes) {
+        memset(m, 0, smlen);
+        *mlen = 0;
+        return -1;
+    }
+
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From c9aa829638caf5dc2cb50cf1e06f468663904737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 02/17] fix: do not shift into the sign bit when reading an OID

A leading key byte of 0x80 or more made the int shift undefined.
---
 xmss.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmss.c b/xmss.c
index 9030f6e..07e2f8e 100644
--- a/xmss.c
+++ b/xmss.c
@@ -34,7 +34,7 @@ int xmss_sign(unsigned char *sk,
     unsigned int i;
 
     for (i = 0; i < XMSS_OID_LEN; i++) {
-        oid |= sk[XMSS_OID_LEN - i - 1] << (i * 8);
+        oid |= (uint32_t)sk[XMSS_OID_LEN - i - 1] << (i * 8);
     }
     if (xmss_parse_oid(&params, oid)) {
         return -1;
@@ -51,7 +51,7 @@ int xmss_sign_open(unsigned char *m, unsigned long long *mlen,
     unsigned int i;
 
     for (i = 0; i < XMSS_OID_LEN; i++) {
-        oid |= pk[XMSS_OID_LEN - i - 1] << (i * 8);
+        oid |= (uint32_t)pk[XMSS_OID_LEN - i - 1] << (i * 8);
     }
     if (xmss_parse_oid(&params, oid)) {
         return -1;
@@ -83,7 +83,7 @@ int xmssmt_sign(unsigned char *sk,
     unsigned int i;
 
     for (i = 0; i < XMSS_OID_LEN; i++) {
-        oid |= sk[XMSS_OID_LEN - i - 1] << (i * 8);
+        oid |= (uint32_t)sk[XMSS_OID_LEN - i - 1] << (i * 8);
     }
     if (xmssmt_parse_oid(&params, oid)) {
         return -1;
@@ -100,7 +100,7 @@ int xmssmt_sign_open(unsigned char *m, unsigned long long *mlen,
     unsigned int i;
 
     for (i = 0; i < XMSS_OID_LEN; i++) {
-        oid |= pk[XMSS_OID_LEN - i - 1] << (i * 8);
+        oid |= (uint32_t)pk[XMSS_OID_LEN - i - 1] << (i * 8);
     }
     if (xmssmt_parse_oid(&params, oid)) {
         return -1;
-- 
2.43.0


From c2e6023253990b344217fb72f9b8bdb9a01c0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 03/17] fix: keep the whole WOTS+ checksum for w = 256

The checksum takes up a whole number of bytes there, but was shifted by 8, so
its high byte was dropped: a signature could be turned into one on another
message by only extending chains.
---
 wots.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.c b/wots.c
index d9c8449..50ebf8b 100644
--- a/wots.c
+++ b/wots.c
@@ -93,7 +93,7 @@ static void wots_checksum(const xmss_params *params,
 
     /* Convert checksum to base_w. */
     /* Make sure expected empty zero bits are the least significant bits. */
-    csum = csum << (8 - ((params->wots_len2 * params->wots_log_w) % 8));
+    csum = csum << ((8 - ((params->wots_len2 * params->wots_log_w) % 8)) % 8);
     ull_to_bytes(csum_bytes, sizeof(csum_bytes), csum);
     base_w(params, csum_base_w, params->wots_len2, csum_bytes);
 }
-- 
2.43.0


From dab7cd93572308e8566432a5ea9aba5cf40c4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 04/17] fix: produce a valid last signature

The secret key was deleted before the last signature was made from it, so that
signature never verified, and part of the key was written back afterwards.
Delete it once the last signature is complete.
---
 xmss_core.c      | 22 +++++++++++++++-------
 xmss_core_fast.c | 44 ++++++++++++++++++++++++++++++--------------
 2 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..5301f15 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -196,6 +196,7 @@ int xmssmt_core_sign(const xmss_params *params,
     unsigned char idx_bytes_32[32];
     unsigned int i;
     uint32_t idx_leaf;
+    int is_last = 0;
 
     uint32_t ots_addr[8] = {0};
     set_type(ots_addr, XMSS_ADDR_TYPE_OTS);
@@ -220,14 +221,15 @@ int xmssmt_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 64)) {
+            // Delete secret key here. We only do this in memory, production
+            // code has to make sure that this happens on disk.
+            memset(sk, 0xFF, params->index_bytes);
+            memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        // Signing still needs the secret key; it is deleted at the end.
+        is_last = 1;
     }
     
     memcpy(sm, sk, params->index_bytes);
@@ -269,5 +271,11 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    if (is_last) {
+        // Delete secret key here, see above.
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..f0c9208 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -589,6 +589,7 @@ int xmss_core_sign(const xmss_params *params,
     const unsigned char *pub_root = sk + params->index_bytes + 2*params->n;
 
     uint16_t i = 0;
+    int is_last = 0;
 
     // TODO refactor BDS state not to need separate treehash instances
     bds_state state;
@@ -613,14 +614,15 @@ int xmss_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 64)) {
+            // Delete secret key here. We only do this in memory, production
+            // code has to make sure that this happens on disk.
+            memset(sk, 0xFF, params->index_bytes);
+            memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        // Signing still needs the secret key; it is deleted at the end.
+        is_last = 1;
     }
     
     unsigned char sk_seed[params->n];
@@ -716,6 +718,12 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    if (is_last) {
+        // Delete secret key here, see above.
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
 
@@ -794,6 +802,7 @@ int xmssmt_core_sign(const xmss_params *params,
     uint64_t i, j;
     int needswap_upto = -1;
     unsigned int updates;
+    int is_last = 0;
 
     unsigned char sk_seed[params->n];
     unsigned char sk_prf[params->n];
@@ -834,14 +843,15 @@ int xmssmt_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 64)) {
+            // Delete secret key here. We only do this in memory, production
+            // code has to make sure that this happens on disk.
+            memset(sk, 0xFF, params->index_bytes);
+            memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        // Signing still needs the secret key; it is deleted at the end.
+        is_last = 1;
     }
     
     memcpy(sk_seed, sk+params->index_bytes, params->n);
@@ -984,5 +994,11 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    if (is_last) {
+        // Delete secret key here, see above.
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
-- 
2.43.0


From 2dead7ca88b30cad06057b7d9b43fa57a7b74c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 05/17] fix: let keys of total height 40 run out

Their index takes up all of its 5 bytes, so after the last signature it wrapped
around to 0 and signing went on. As for a total height of 64, no index value is
left to mark the key as used up: leave the last signature unused.
---
 xmss_core.c      |  9 +++++----
 xmss_core_fast.c | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index 5301f15..15150d8 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -216,12 +216,13 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index takes up all of its bytes (e.g. a total tree height of 40 or
+     * 64) we do not use the last signature to be on the safe side (there is no
+     * index value left to indicate that the key is finished, hence external
+     * handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 64)) {
+        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 8*params->index_bytes)) {
             // Delete secret key here. We only do this in memory, production
             // code has to make sure that this happens on disk.
             memset(sk, 0xFF, params->index_bytes);
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index f0c9208..61e176a 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -609,12 +609,13 @@ int xmss_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index takes up all of its bytes (e.g. a total tree height of 40 or
+     * 64) we do not use the last signature to be on the safe side (there is no
+     * index value left to indicate that the key is finished, hence external
+     * handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 64)) {
+        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 8*params->index_bytes)) {
             // Delete secret key here. We only do this in memory, production
             // code has to make sure that this happens on disk.
             memset(sk, 0xFF, params->index_bytes);
@@ -838,12 +839,13 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index takes up all of its bytes (e.g. a total tree height of 40 or
+     * 64) we do not use the last signature to be on the safe side (there is no
+     * index value left to indicate that the key is finished, hence external
+     * handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 64)) {
+        if ((idx > ((1ULL << params->full_height) - 1)) || (params->full_height == 8*params->index_bytes)) {
             // Delete secret key here. We only do this in memory, production
             // code has to make sure that this happens on disk.
             memset(sk, 0xFF, params->index_bytes);
-- 
2.43.0


From af91ef017ee433faca45e9f3b0e6ca680e5c2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 06/17] fix: initialize all of the secret key in fast key
 generation

The parts of the BDS state that are not yet in use kept whatever the buffer
held before; the command line tools wrote this uninitialized memory to the key
file.
---
 xmss_core_fast.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 61e176a..46d19f4 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -545,6 +545,8 @@ int xmss_core_keypair(const xmss_params *params,
     treehash_inst treehash[params->tree_height - params->bds_k];
     state.treehash = treehash;
 
+    /* Not every byte of the BDS state is set below. */
+    memset(sk, 0, params->sk_bytes);
     xmss_deserialize_state(params, &state, sk);
 
     state.stackoffset = 0;
@@ -747,6 +749,8 @@ int xmssmt_core_keypair(const xmss_params *params,
         states[i].treehash = treehash + i * (params->tree_height - params->bds_k);
     }
 
+    /* Not every byte of the BDS state is set below. */
+    memset(sk, 0, params->sk_bytes);
     xmssmt_deserialize_state(params, states, &wots_sigs, sk);
 
     for (i = 0; i < 2 * params->d - 1; i++) {
-- 
2.43.0


From 0a4b7ffa80055d10a7bf3c7e5e9195caf672589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 07/17] fix: copy the leaf, not what lies behind it, into the
 treehash node

For trees of height 2 this read beyond the end of the stack.
---
 xmss_core_fast.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 46d19f4..1a9ab45 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -252,7 +252,7 @@ static void treehash_init(const xmss_params *params,
         stacklevels[stackoffset] = 0;
         stackoffset++;
         if (params->tree_height - params->bds_k > 0 && i == 3) {
-            memcpy(state->treehash[0].node, stack+stackoffset*params->n, params->n);
+            memcpy(state->treehash[0].node, stack+(stackoffset-1)*params->n, params->n);
         }
         while (stackoffset>1 && stacklevels[stackoffset-1] == stacklevels[stackoffset-2]) {
             nodeh = stacklevels[stackoffset-1];
@@ -405,7 +405,7 @@ static char bds_state_update(const xmss_params *params,
     state->stacklevels[state->stackoffset] = 0;
     state->stackoffset++;
     if (params->tree_height - params->bds_k > 0 && idx == 3) {
-        memcpy(state->treehash[0].node, state->stack+state->stackoffset*params->n, params->n);
+        memcpy(state->treehash[0].node, state->stack+(state->stackoffset-1)*params->n, params->n);
     }
     while (state->stackoffset>1 && state->stacklevels[state->stackoffset-1] == state->stacklevels[state->stackoffset-2]) {
         nodeh = state->stacklevels[state->stackoffset-1];
-- 
2.43.0


From 4dccea420f68bdac4fb78182acb9362c09472cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 08/17] fix: set padding_len in xmss_xmssmt_initialize_params

It is documented to initialize all of the structure but the listed members, but
left padding_len to the callers that start from an OID.
---
 params.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/params.c b/params.c
index fdb9c76..3c24293 100644
--- a/params.c
+++ b/params.c
@@ -710,6 +710,7 @@ int xmssmt_parse_oid(xmss_params *params, const uint32_t oid)
 int xmss_xmssmt_initialize_params(xmss_params *params)
 {
     params->tree_height = params->full_height  / params->d;
+    params->padding_len = (params->n == 24) ? 4 : params->n;
     if (params->wots_w == 4) {
         params->wots_log_w = 2;
         params->wots_len1 = 8 * params->n / params->wots_log_w;
-- 
2.43.0


From c0b4a35c443edfe721687503bee5ce4b38d28dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 09/17] fix: let threads call randombytes at the same time

They raced for the shared file descriptor; open /dev/urandom for each call.
---
 randombytes.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/randombytes.c b/randombytes.c
index bfc8d93..11a800e 100644
--- a/randombytes.c
+++ b/randombytes.c
@@ -5,20 +5,17 @@ This code was taken from the SPHINCS reference implementation and is public doma
 #include <fcntl.h>
 #include <unistd.h>
 
-static int fd = -1;
-
 void randombytes(unsigned char *x, unsigned long long xlen)
 {
     int i;
+    int fd;
 
-    if (fd == -1) {
-        for (;;) {
-            fd = open("/dev/urandom", O_RDONLY);
-            if (fd != -1) {
-                break;
-            }
-            sleep(1);
+    for (;;) {
+        fd = open("/dev/urandom", O_RDONLY);
+        if (fd != -1) {
+            break;
         }
+        sleep(1);
     }
 
     while (xlen > 0) {
@@ -38,4 +35,6 @@ void randombytes(unsigned char *x, unsigned long long xlen)
         x += i;
         xlen -= i;
     }
+
+    close(fd);
 }
-- 
2.43.0


From e557cf486fa8190a536af74a5fe32fed63c5b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 10/17] fix: update the key before releasing a signature in
 ui/sign

The signature was written to stdout before the buffered new state reached the
key file, so that being killed in between (by SIGPIPE, say) left a key that
would sign with the same index again. Failures to sign, to update the key and
to write the signature went unnoticed; a used-up key gave garbage and exit
status 0.
---
 ui/sign.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..2f9fb3d 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -24,6 +24,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long mlen;
+    int ret;
 
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and message filenames as two "
@@ -86,17 +87,31 @@ int main(int argc, char **argv) {
     fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
     fread(m, 1, mlen, m_file);
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    if (ret) {
+        fprintf(stderr, "Could not sign: error %d.\n", ret);
+    }
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    /* The updated state must be in place before the signature is released;
+       otherwise, the same one-time key could be used again. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR)
+        || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file) != params.sk_bytes) {
+        fprintf(stderr, "Could not update keypair file.\n");
+        ret = -1;
+    }
+    if (fclose(keypair_file)) {
+        fprintf(stderr, "Could not update keypair file.\n");
+        ret = -1;
+    }
+    if (!ret && (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout))) {
+        fprintf(stderr, "Could not write the signature.\n");
+        ret = -1;
+    }
 
-    fclose(keypair_file);
     fclose(m_file);
 
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0


From 73f0691fc4666d9c69b77b75255c8aaf031fd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 11/17] fix: lock the key file in ui/sign

Two processes that signed with the same key file at the same time read the same
state and used the same one-time key.
---
 ui/sign.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ui/sign.c b/ui/sign.c
index 2f9fb3d..7c5ea85 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <sys/file.h>
 
 #include "../params.h"
 #include "../xmss.h"
@@ -40,6 +41,13 @@ int main(int argc, char **argv) {
         return -1;
     }
 
+    /* Nobody else may sign with this state; held until the file is closed. */
+    if (flock(fileno(keypair_file), LOCK_EX)) {
+        fprintf(stderr, "Could not lock keypair file.\n");
+        fclose(keypair_file);
+        return -1;
+    }
+
     m_file = fopen(argv[2], "rb");
     if (m_file == NULL) {
         fprintf(stderr, "Could not open message file.\n");
-- 
2.43.0


From 577b660e9391f685e59904ca7b5ff0686b791d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 12/17] fix: notice incomplete input and output in the command
 line tools

A truncated key file was signed with, or verified against, uninitialized
memory, and ui/sign then extended it; a truncated or unreadable message or
signature made the tools crash or go on; ui/keypair reported success when the
key pair could not be written.
---
 ui/keypair.c | 15 ++++++++++-----
 ui/open.c    | 25 ++++++++++++++++++++-----
 ui/sign.c    | 36 +++++++++++++++++++++++++++++++-----
 3 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/ui/keypair.c b/ui/keypair.c
index 612c448..3b8d79b 100644
--- a/ui/keypair.c
+++ b/ui/keypair.c
@@ -37,12 +37,17 @@ int main(int argc, char **argv)
     unsigned char pk[XMSS_OID_LEN + params.pk_bytes];
     unsigned char sk[XMSS_OID_LEN + params.sk_bytes];
 
-    XMSS_KEYPAIR(pk, sk, oid);
-
-    fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout);
-    fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout);
+    if (XMSS_KEYPAIR(pk, sk, oid)) {
+        fprintf(stderr, "Could not generate a keypair.\n");
+        return -1;
+    }
 
-    fclose(stdout);
+    if (fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout) != XMSS_OID_LEN + params.pk_bytes
+        || fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout) != XMSS_OID_LEN + params.sk_bytes
+        || fclose(stdout)) {
+        fprintf(stderr, "Could not write the keypair.\n");
+        return -1;
+    }
 
     return 0;
 }
diff --git a/ui/open.c b/ui/open.c
index a0b0b94..25caf09 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -23,6 +23,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long smlen;
+    long int sm_file_end;
     int ret;
 
     if (argc != 3) {
@@ -48,9 +49,15 @@ int main(int argc, char **argv) {
 
     /* Find out the message length. */
     fseek(sm_file, 0, SEEK_END);
-    smlen = ftell(sm_file);
-
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    sm_file_end = ftell(sm_file);
+    if (sm_file_end < 0
+        || fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair or signature + message file.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
+    smlen = sm_file_end;
     oid = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid);
     if (parse_oid_result != 0) {
@@ -67,8 +74,16 @@ int main(int argc, char **argv) {
 
     fseek(keypair_file, 0, SEEK_SET);
     fseek(sm_file, 0, SEEK_SET);
-    fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file);
-    fread(sm, 1, smlen, sm_file);
+    if (m == NULL || sm == NULL
+        || fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file) != XMSS_OID_LEN + params.pk_bytes
+        || fread(sm, 1, smlen, sm_file) != smlen) {
+        fprintf(stderr, "Could not read keypair or signature + message file.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
     ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
 
diff --git a/ui/sign.c b/ui/sign.c
index 7c5ea85..c8f85d1 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -25,6 +25,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long mlen;
+    long int m_file_end;
     int ret;
 
     if (argc != 3) {
@@ -57,10 +58,22 @@ int main(int argc, char **argv) {
 
     /* Find out the message length. */
     fseek(m_file, 0, SEEK_END);
-    mlen = ftell(m_file);
+    m_file_end = ftell(m_file);
+    if (m_file_end < 0) {
+        fprintf(stderr, "Could not find out the message length.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
+    mlen = m_file_end;
 
     /* Read the OID from the public key, as we need its length to seek past it */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* The XMSS_OID_LEN bytes in buffer are a big-endian uint32. */
     oid_pk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_pk);
@@ -74,7 +87,12 @@ int main(int argc, char **argv) {
     /* fseek past the public key */
     fseek(keypair_file, params.pk_bytes, SEEK_CUR);
     /* This is the OID we're actually going to use. Likely the same, but still. */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);
     if (parse_oid_result != 0) {
@@ -92,8 +110,16 @@ int main(int argc, char **argv) {
     /* fseek back to start of sk. */
     fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
     fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (m == NULL || sm == NULL
+        || fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file) != XMSS_OID_LEN + params.sk_bytes
+        || fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read keypair or message file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
     ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
     if (ret) {
-- 
2.43.0


From fdf6f4c03fcfd9dec5fd8681356b079d493ade17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 13/17] fix: do not spend updates on NEXT trees that are
 complete

A finished NEXT tree of layer 1 and up kept using up one update per
signature, as its progress was compared with the size of the whole
hypertree. With many layers (e.g. XMSSMT-SHA2_40/8_256), nothing was left
for the trees of the higher layers, so that they were incomplete when
needed: signatures from index 2^20 on were invalid.
---
 xmss_core_fast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 1a9ab45..d4e0449 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -969,7 +969,7 @@ int xmssmt_core_sign(const xmss_params *params,
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
             if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {
-                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
+                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1U << params->tree_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
-- 
2.43.0


From 8c9e91ce025068c426c36ab414f474bb1916a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 14/17] fix: do not let the number of updates wrap around

When more trees changed at once than there are updates per signature, the
unsigned counter wrapped and all pending work was done in one signature.
---
 xmss_core_fast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index d4e0449..cc23ccd 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -987,7 +987,9 @@ int xmssmt_core_sign(const xmss_params *params,
             states[params->d + i].stackoffset = 0;
             states[params->d + i].next_leaf = 0;
 
-            updates--; // WOTS-signing counts as one update
+            if (updates > 0) {
+                updates--; // WOTS-signing counts as one update
+            }
             needswap_upto = i;
             for (j = 0; j < params->tree_height-params->bds_k; j++) {
                 states[i].treehash[j].completed = 1;
-- 
2.43.0


From 8b7cea6d873c466bb116e9dee09afd106c034661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 15/17] fix: notice that the end of the message file cannot be
 found in ui/sign

---
 ui/sign.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index c8f85d1..ebf90da 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -57,8 +57,7 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(m_file, 0, SEEK_END);
-    m_file_end = ftell(m_file);
+    m_file_end = fseek(m_file, 0, SEEK_END) ? -1 : ftell(m_file);
     if (m_file_end < 0) {
         fprintf(stderr, "Could not find out the message length.\n");
         fclose(keypair_file);
-- 
2.43.0


From 12e48867c295da01ea729f2f087b87a453e3fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 16/17] fix: refuse keys with a damaged BDS state

Signing with a secret key whose stored stack offset, stack levels or stack
usage did not fit the stack accessed memory far outside of the key.
---
 xmss_core_fast.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cc23ccd..f8ac2c0 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -147,6 +147,54 @@ static void xmss_deserialize_state(const xmss_params *params,
     xmssmt_deserialize_state(params, state, NULL, sk);
 }
 
+/**
+ * Checks that a state read from a secret key fits its buffers, i.e. that no use
+ * of the stack leads outside of it. Returns 0 if it does, and -1 otherwise.
+ */
+static int check_states(const xmss_params *params, const bds_state *states)
+{
+    unsigned int i, j, offset, stackusage;
+
+    for (i = 0; i < 2*params->d - 1; i++) {
+        if (states[i].stackoffset > params->tree_height + 1) {
+            return -1;
+        }
+        if (i < params->d) {
+            /* The treehash instances of a current tree share the stack. */
+            stackusage = 0;
+            for (j = 0; j < params->tree_height - params->bds_k; j++) {
+                if (!states[i].treehash[j].completed) {
+                    stackusage += states[i].treehash[j].stackusage;
+                }
+            }
+            if (stackusage > states[i].stackoffset) {
+                return -1;
+            }
+        }
+        else {
+            /* The stack of a NEXT tree holds one node for each bit that is set
+               in the number of its leaves so far, from the highest one down. */
+            if (states[i].next_leaf > (1U << params->tree_height)) {
+                return -1;
+            }
+            offset = 0;
+            for (j = params->tree_height + 1; j-- > 0;) {
+                if ((states[i].next_leaf >> j) & 1) {
+                    if (offset >= states[i].stackoffset
+                        || states[i].stacklevels[offset] != j) {
+                        return -1;
+                    }
+                    offset++;
+                }
+            }
+            if (offset != states[i].stackoffset) {
+                return -1;
+            }
+        }
+    }
+    return 0;
+}
+
 static void memswap(void *a, void *b, void *t, unsigned long long len)
 {
     memcpy(t, a, len);
@@ -628,6 +676,10 @@ int xmss_core_sign(const xmss_params *params,
         is_last = 1;
     }
     
+    if (check_states(params, &state)) {
+        return -1;
+    }
+
     unsigned char sk_seed[params->n];
     memcpy(sk_seed, sk + params->index_bytes, params->n);
     unsigned char sk_prf[params->n];
@@ -860,6 +912,10 @@ int xmssmt_core_sign(const xmss_params *params,
         is_last = 1;
     }
     
+    if (check_states(params, states)) {
+        return -1;
+    }
+
     memcpy(sk_seed, sk+params->index_bytes, params->n);
     memcpy(sk_prf, sk+params->index_bytes+params->n, params->n);
     memcpy(pub_seed, sk+params->index_bytes+3*params->n, params->n);
-- 
2.43.0


From 157cc1909a912539507b954c98d3538a9e5aba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 17/17] fix: do not truncate the index to 32 bits where long
 has 32 bits

xmssmt_core_sign read the index of the secret key through a cast to
unsigned long. Where that type has 32 bits, a key with index 2^32 + i
signed with the one-time keys of index i again.
---
 xmss_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core.c b/xmss_core.c
index 15150d8..c287361 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -207,7 +207,7 @@ int xmssmt_core_sign(const xmss_params *params,
     *smlen = params->sig_bytes + mlen;
 
     /* Read and use the current index from the secret key. */
-    idx = (unsigned long)bytes_to_ull(sk, params->index_bytes);
+    idx = bytes_to_ull(sk, params->index_bytes);
     
     /* Check if we can still sign with this sk.
      * If not, return -2
-- 
2.43.0

