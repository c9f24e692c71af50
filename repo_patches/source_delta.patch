From 4f93f38170af9bfefaeba3fbfd1df7309b8c2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 1/9] fix: compare whole BIP32 path components, not leading
 bytes

---
 src/common/bip32_ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 9436c99..ed41db4 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -26,7 +26,7 @@ static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        const uint32_t *bip32_path_2,
                                        uint8_t bip32_path_2_len) {
     return bip32_path_1_len == bip32_path_2_len &&
-           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0;
+           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0;
 }
 
 static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
@@ -34,5 +34,5 @@ static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
                                            const uint32_t *bip32_path_2,
                                            uint8_t bip32_path_2_len) {
     return bip32_path_1_len >= 3 && bip32_path_2_len >= 3 &&
-           memcmp(bip32_path_1, bip32_path_2, 3) == 0;
+           memcmp(bip32_path_1, bip32_path_2, 3 * sizeof(uint32_t)) == 0;
 }
\ No newline at end of file
-- 
2.43.0


From fd191e597cad5c49db9012ab1fcc998c1c0e970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 2/9] fix: refuse a new transaction output until the previous
 one is complete

---
 src/ergo/tx_ser_full.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ergo/tx_ser_full.c b/src/ergo/tx_ser_full.c
index fea3889..088c872 100644
--- a/src/ergo/tx_ser_full.c
+++ b/src/ergo/tx_ser_full.c
@@ -133,6 +133,7 @@ data_inputs_finished(ergo_tx_serializer_full_context_t* context) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);
     }
     context->state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
+    context->box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
     return ERGO_TX_SERIALIZER_FULL_RES_OK;
 }
 
@@ -297,6 +298,10 @@ ergo_tx_serializer_full_result_e ergo_tx_serializer_full_add_box(
     uint8_t tokens_count,
     uint32_t registers_size) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
+
+    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
+        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
+    }
     if (context->outputs_count == 0) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_OUTPUTS);
     }
-- 
2.43.0


From ee59068fd30e8d90de4a3c0fbdabdf63ebb5c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 3/9] fix: reject input frames with a token count whose length
 does not fit

---
 src/helpers/input_frame.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helpers/input_frame.c b/src/helpers/input_frame.c
index 51d3922..fc51e3a 100644
--- a/src/helpers/input_frame.c
+++ b/src/helpers/input_frame.c
@@ -6,6 +6,9 @@ uint8_t input_frame_data_length(const buffer_t* input) {
         return 0;
     }
     uint8_t token_count = buffer_read_ptr(input)[FRAME_TOKEN_COUNT_POSITION];
+    if (token_count > FRAME_MAX_TOKENS_COUNT) {
+        return 0;
+    }
     uint8_t data_len = token_count * FRAME_TOKEN_VALUE_PAIR_SIZE + FRAME_TOKEN_PREFIX_LEN;
     if (!buffer_can_read(input, data_len + INPUT_FRAME_SIGNATURE_LEN)) {
         return 0;
-- 
2.43.0


From 2a81dfb059e6aa37e91893c218d785454d9e0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 4/9] fix: decode sign-extended 32-bit zigzag values

---
 src/common/gve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index 5e60469..85ec0d3 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -32,7 +32,8 @@ gve_result_e gve_get_i32(buffer_t *buffer, int32_t *val) {
     gve_result_e res;
     *val = 0;
     if ((res = gve_get_u64(buffer, &u64)) != GVE_OK) return res;
-    if (u64 > 0xFFFFFFFFULL) return GVE_ERR_INT_TO_BIG;
+    // negative zigzag codes are written sign-extended
+    if (u64 > 0xFFFFFFFFULL && u64 < 0xFFFFFFFF80000000ULL) return GVE_ERR_INT_TO_BIG;
     *val = zigzag_decode_i32(u64);
     return GVE_OK;
 }
-- 
2.43.0


From 6dd53682f18d9b9081ee19f8209cbe8740161e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 5/9] fix: reject an unterminated 64-bit variable-length
 integer

---
 src/common/gve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/gve.c b/src/common/gve.c
index 85ec0d3..97edd3e 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -69,6 +69,7 @@ gve_result_e gve_get_u64(buffer_t *buffer, uint64_t *val) {
             res = GVE_OK;
             break;
         }
+        res = GVE_ERR_INT_TO_BIG;
         shift += 7;
     }
     return res;
-- 
2.43.0


From dc44a2885b35b269ffca93744d94dfe90aa32d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 6/9] fix: fail the box serializer on a truncated token index

---
 src/ergo/tx_ser_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index 656ddf6..bfa77ff 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -206,7 +206,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tokens(
             }
         } else {
             if (!buffer_read_u32(input, &token_id.index, BE)) {
-                return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX;
+                return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX);
             }
             // index should be inside table
             if (token_id.index >= table->distinct_tokens_count) {
-- 
2.43.0


From c694f1f63c7ab0bffbcae937a6d7d117eaeb46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 7/9] fix: reject a secret or nonce equal to the group order

---
 src/ergo/schnorr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index b703311..776d60e 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -41,7 +41,7 @@ bool ergo_secp256k1_schnorr_p2pk_sign_init(cx_blake2b_t* hash,
             // check private key has a proper value
             if (cx_math_is_zero(secret, PRIVATE_KEY_LEN)) break;
             if (cx_math_cmp_no_throw(secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
-                cmp_diff > 0)
+                cmp_diff >= 0)
                 break;
 
             // pk = G * secret (pub key)
@@ -63,7 +63,7 @@ bool ergo_secp256k1_schnorr_p2pk_sign_init(cx_blake2b_t* hash,
             // check it has a proper value
             if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;
             if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
-                cmp_diff > 0)
+                cmp_diff >= 0)
                 break;
 
             // w = G * y (pub key)
-- 
2.43.0


From fc3009c7bbf2de4632cee8938936779a8d60b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 8/9] fix: wipe the challenge product when signing fails

---
 src/ergo/schnorr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index 776d60e..88426b6 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -103,14 +103,18 @@ bool ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t signature[static ERGO_SIGNA
     if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE)) return false;
 
     // z = c * secret + key
-    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0)
+    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0) {
+        explicit_bzero(buf, sizeof(buf));
         return false;
+    }
     if (cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                               key,
                               buf,
                               PIC(SECP256K1_N),
-                              PRIVATE_KEY_LEN) != 0)
+                              PRIVATE_KEY_LEN) != 0) {
+        explicit_bzero(buf, sizeof(buf));
         return false;
+    }
 
     explicit_bzero(buf, sizeof(buf));
 
-- 
2.43.0


From ade97166c6f00e38b778392511c4caab29e58302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:56 +0000
Subject: [PATCH 9/9] fix: end the derive address command when the address
 cannot be generated

---
 src/commands/deriveaddress/da_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/deriveaddress/da_handler.c b/src/commands/deriveaddress/da_handler.c
index 75e32af..d29a07a 100644
--- a/src/commands/deriveaddress/da_handler.c
+++ b/src/commands/deriveaddress/da_handler.c
@@ -63,7 +63,7 @@ int handler_derive_address(buffer_t *cdata, bool display, bool has_access_token)
     }
 
     if (!ergo_address_from_pubkey(network_type, public_key, ctx->raw_address)) {
-        return res_error(SW_ADDRESS_GENERATION_FAILED);
+        return handler_err(ctx, SW_ADDRESS_GENERATION_FAILED);
     }
 
     if (!display && is_known_application(access_token, app_connected_app_id())) {
-- 
2.43.0

