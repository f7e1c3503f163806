From ef96543fd3ade3b8af5f6efb5511f39daf746f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 01/39] fix: start a re-initialised cipher context from the
 beginning of the gamma

The pending-gamma index, the block counter and (on a new key) the key
meshing counter survived EVP_CipherInit_ex() on a used context, so the
second message was encrypted with stale keystream or a stale counter.
---
 gost_crypt.c              | 10 +++++++++-
 gost_grasshopper_cipher.c |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..7f8854b 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -424,8 +424,11 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
-    if (key)
+    if (key) {
         gost_key(&(c->cctx), key);
+        c->count = 0;
+    }
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -444,6 +447,7 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
     gost_init(&(c->cctx), block);
     c->key_meshing = 1;
     c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (key)
         gost_key(&(c->cctx), key);
     if (iv) {
@@ -504,11 +508,15 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     if (key) {
         magma_key(&(c->cctx), key);
         magma_master_key(&(c->cctx), key);
+        c->count = 0;
     }
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
+    /* Drop the gamma and the block counter left by a previous message */
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, EVP_MAX_IV_LENGTH);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..3ac2dce 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -257,6 +257,9 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    /* Drop the gamma and the block counter left by a previous message */
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, EVP_MAX_IV_LENGTH);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-- 
2.43.0


From a98ece6f858bc878e3ee0283b9640ffd779ab94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 02/39] fix: keep a full first block pending in
 gost_imit_update

A message of exactly one block gets an extra zero block at finalisation.
This was lost when the block arrived in several updates.
---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 7f8854b..2b6e732 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1545,9 +1545,10 @@ static int gost_imit_update(EVP_MD_CTX *ctx, const void *data, size_t count)
         for (i = c->bytes_left; i < 8 && bytes > 0; bytes--, i++, p++) {
             c->partial_block[i] = *p;
         }
-        if (i == 8) {
+        if (bytes > 0) {
             mac_block_mesh(c, c->partial_block);
         } else {
+            /* A full block is kept: it may turn out to be the whole message */
             c->bytes_left = i;
             return 1;
         }
-- 
2.43.0


From 9f14e6fb7f48069129deead8394cf66fa004f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 03/39] fix: shift, not compare, in the bit mask of get_mac

---
 gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost89.c b/gost89.c
index c103e72..94f7b73 100644
--- a/gost89.c
+++ b/gost89.c
@@ -687,7 +687,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From 912f37f06be4b14729cc8cc2fb53a1989a5f6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 04/39] fix: rebase the inner pointers of a copied MGM cipher
 context

A copy used the key schedule of the original context, also after that was
freed, and the Kuznyechik cleanup passed a pointer into the original
context to OPENSSL_free().
---
 gost_crypt.c              | 16 +++++++++++++++-
 gost_grasshopper_cipher.c | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 2b6e732..c883d32 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -258,7 +258,8 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
     .ctrl = gost_magma_mgm_ctrl,
@@ -1115,6 +1116,19 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         mctx->taglen = -1;
         return 1;
 
+    case EVP_CTRL_COPY:
+        {
+            /* The context was copied bytewise: rebase its inner pointers */
+            EVP_CIPHER_CTX *out = ptr;
+            gost_mgm_ctx *out_mctx =
+                (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(out);
+
+            if (mctx->mgm.key != NULL)
+                out_mctx->mgm.key = &out_mctx->ks;
+            out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+            return 1;
+        }
+
     case EVP_CTRL_GET_IVLEN:
         *(int *)ptr = mctx->ivlen;
         return 1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 3ac2dce..b4894dc 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,7 +132,8 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER |
+        EVP_CIPH_CUSTOM_COPY,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
     .init = gost_grasshopper_cipher_init_mgm,
@@ -1051,6 +1052,19 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         mctx->taglen = -1;
         return 1;
 
+    case EVP_CTRL_COPY:
+        {
+            /* The context was copied bytewise: rebase its inner pointers */
+            EVP_CIPHER_CTX *out = ptr;
+            gost_mgm_ctx *out_mctx =
+                (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(out);
+
+            if (mctx->mgm.key != NULL)
+                out_mctx->mgm.key = &out_mctx->ks;
+            out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+            return 1;
+        }
+
     case EVP_CTRL_GET_IVLEN:
         *(int *)ptr = mctx->ivlen;
         return 1;
-- 
2.43.0


From f9bb935cf98172e3c46807f3dc2feb9055ad6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 05/39] fix: refuse MGM nonce lengths other than the block
 length

A whole block is always read from the nonce, so a shorter length made the
cipher read beyond the end of the caller's buffer.
---
 gost_crypt.c              | 7 ++-----
 gost_grasshopper_cipher.c | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c883d32..c8acd5b 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1134,12 +1134,9 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
+        /* The nonce is always one block long, see gost_mgm128_setiv() */
+        if (arg != EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c)))
             return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
         mctx->ivlen = arg;
         return 1;
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index b4894dc..3fcc2a2 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1070,12 +1070,9 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
+        /* The nonce is always one block long, see gost_mgm128_setiv() */
+        if (arg != EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c)))
             return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
         mctx->ivlen = arg;
         return 1;
 
-- 
2.43.0


From 4aa4cfa3832c720b5adaf6e99a5dc1841b519e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 06/39] fix: compute Z_1 in gost_mgm128_decrypt when there is
 no AAD

The first authentication counter was left zero, so the decryption of every
MGM message without associated data failed its tag check.
---
 gost_gost2015.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..3b6e220 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -385,6 +385,10 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     int bl = ctx->blocklen;
 
     if (mlen == 0) {
+        if (alen == 0) {
+            ctx->nonce.c[0] |= 0x80;
+            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
+        }
         ctx->nonce.c[0] &= 0x7f;
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
     }
-- 
2.43.0


From cacaf69cc7eb69e9695aee2ab7fa3d3fc005ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 07/39] fix: MGM data length limit is strict

2^29 bytes of Magma data passed the check and its bit length, 2^32, was
then encoded as zero in the length block.
---
 gost_gost2015.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 3b6e220..f79c141 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -258,7 +258,7 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
     }
 
     alen += len;
-    if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
+    if (alen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
             GOSTerr(GOST_F_GOST_MGM128_AAD,
                     GOST_R_DATA_TOO_LARGE);
@@ -327,9 +327,9 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
 
     mlen += len;
 
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_ENCRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
@@ -394,9 +394,9 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     }
 
     mlen += len;
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_DECRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
-- 
2.43.0


From 14246edd5794b06a510d425494a7d4f6dbc9fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 08/39] fix: wipe the Kuznyechik keys in the cipher cleanup

gost_grasshopper_cipher_destroy() was only called for MGM.
---
 gost_grasshopper_cipher.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 3fcc2a2..eb1168b 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -978,6 +978,7 @@ static int gost_grasshopper_cipher_cleanup(EVP_CIPHER_CTX *ctx)
 
     if (EVP_CIPHER_CTX_mode(ctx) == EVP_CIPH_CTR_MODE)
         gost_grasshopper_cipher_destroy_ctr(c);
+    gost_grasshopper_cipher_destroy(c);
 
     EVP_CIPHER_CTX_set_app_data(ctx, NULL);
 
-- 
2.43.0


From a567aa19d3e6b9645533d3816473268d723a2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 09/39] fix: keep the CMS section size when the key is set
 afterwards

CMS decryption sets the parameters first and the key in a second
EVP_CipherInit_ex() call, which reset the ACPKM section to its default, so
CMS content longer than one default section was not decrypted.
---
 gost_crypt.c              | 15 ++++++++-------
 gost_grasshopper_cipher.c |  8 ++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c8acd5b..93bbaa4 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -500,6 +500,14 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
+        /* Default section size: CMS parameters and ctrls may have changed it later */
+        if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
+         || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
+           c->key_meshing = 1024;
+        } else {
+           c->key_meshing = 0;
+        }
+
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
                 return -1;
@@ -521,13 +529,6 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-    if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
-     || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
-       c->key_meshing = 1024;
-    } else {
-       c->key_meshing = 0;
-    }
-
     return 1;
 }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index eb1168b..84630ef 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -335,7 +335,9 @@ gost_grasshopper_cipher_init_ctracpkm(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKM;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* Default, CMS parameters and ctrls may have changed it later */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
@@ -351,7 +353,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKMOMAC;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* Default, CMS parameters and ctrls may have changed it later */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     if (key) {
         unsigned char cipher_key[32];
-- 
2.43.0


From a29bf7ad59bf9b54380d4cdd1f0369f2a425027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 10/39] fix: refuse undecodable GOST 28147-89 CMS parameters
 instead of crashing

---
 gost_crypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 93bbaa4..c70cbdb 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1447,6 +1447,10 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
     gcp = d2i_GOST_CIPHER_PARAMS(NULL, (const unsigned char **)&p,
                                  params->value.sequence->length);
+    if (gcp == NULL) {
+        GOSTerr(GOST_F_GOST89_GET_ASN1_PARAMETERS, GOST_R_INVALID_CIPHER_PARAMS);
+        return -1;
+    }
 
     len = gcp->iv->length;
     if (len != EVP_CIPHER_CTX_iv_length(ctx)) {
-- 
2.43.0


From 33e96ab6184a24e76d664f6d2de81b4d4bb458a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 11/39] fix: report bad CMS parameters of the Magma CTR-ACPKM
 ciphers

---
 gost_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c70cbdb..cd4a670 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1497,7 +1497,7 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
 	c->key_meshing = 8192;
 
-	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
+	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
-- 
2.43.0


From 3c3bd7a6e2fe9b2225e461c857163fe0a1d9880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 12/39] fix: report failures of the CMAC in the OMAC digests

---
 gost_omac.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..8cebfc7 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -90,7 +90,8 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (!CMAC_Final(c->cmac_ctx, mac, &mac_size))
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
@@ -139,6 +140,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
 {
     int ret = 0;
 
+    c->key_set = 0;
     CMAC_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_CTX_new();
     if (c->cmac_ctx == NULL) {
@@ -150,7 +152,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret;
 }
 
 /* Called directly by gost_kexp15() */
-- 
2.43.0


From 0f14ecc813780a026ccea71be9aa928121e810d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 13/39] fix: start a new section when TLSTREE changes the key
 of Magma CTR ciphers

---
 gost_crypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index cd4a670..6150eae 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1341,6 +1341,7 @@ static int magma_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, void *ptr)
                     adjusted_iv[j] = adj_byte & 0xFF;
                 }
                 EVP_CIPHER_CTX_set_num(ctx, 0);
+                ctr_ctx->count = 0;
                 memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), adjusted_iv, 8);
 
                 magma_key(c, newkey);
-- 
2.43.0


From c6cc012cb97803404ff8e13c9c2baf252ade75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 14/39] fix: refuse KImp15 blobs of the wrong length

---
 gost_keyexpimp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..73097dc 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -59,6 +59,11 @@ int gost_kexp15(const unsigned char *shared_key, const int shared_len,
         goto err;
     }
 
+    if (ivlen > sizeof(iv_full)) {
+        GOSTerr(GOST_F_GOST_KEXP15, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
+
     /* we expect IV of half length */
     memset(iv_full, 0, 16);
     memcpy(iv_full, iv, ivlen);
@@ -136,7 +141,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
-- 
2.43.0


From 13b8a13c93741828ac3f915b8ac44a6ef8849b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 15/39] fix: do not leak the HMAC context in
 gost_kdftree2012_256

---
 gost_keyexpimp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 73097dc..5e945e7 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -225,6 +225,7 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
 
     if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
+        HMAC_CTX_free(ctx);
         return 0;
     }
     iters = keyout_len / 32;
-- 
2.43.0


From 483acf093c9593b162d7a8e8c9d55b416eea2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 16/39] fix: report failed and incomplete imports of the KExp15
 wrap ciphers

---
 gost_keyexpimp.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 5e945e7..27976a7 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -354,6 +354,12 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
+	if (in == NULL)             /* final call: nothing is left to output */
+		return cctx->wrap_count == (MAGMA_WRAPPED_KEY_LEN) ? 0 : -1;
+
+	if (inl > (MAGMA_WRAPPED_KEY_LEN))
+		return -1;
+
 	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
 		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
 			return -1;
@@ -376,7 +382,7 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
@@ -407,6 +413,12 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
+	if (in == NULL)             /* final call: nothing is left to output */
+		return cctx->wrap_count == (KUZNYECHIK_WRAPPED_KEY_LEN) ? 0 : -1;
+
+	if (inl > (KUZNYECHIK_WRAPPED_KEY_LEN))
+		return -1;
+
 	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
 		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
 			return -1;
@@ -429,7 +441,7 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
-- 
2.43.0


From bbf11998c344faedc5e199b04b23c84f84d03e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 17/39] fix: refuse a section size for OMAC-ACPKM before the
 key is set

---
 gost_omac_acpkm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..6283d2a 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -466,6 +466,10 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
             if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
+            if (!c->key_set) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return 0;
+            }
             c->cmac_ctx->section_size = arg;
             if (ptr && *(int *)ptr) {
                 /* Set parameter T */
-- 
2.43.0


From 8177c47b82b1f406f0b983804495d1fe18a7493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 18/39] fix: report a failure to set the key of OMAC-ACPKM

---
 gost_omac_acpkm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 6283d2a..6b38c51 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -412,7 +412,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret;
 }
 
 int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
-- 
2.43.0


From 7c19a9d807a1950dd03b58bd6159b98086df2829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 19/39] fix: report failures of the MAC of the CTR-ACPKM-OMAC
 ciphers

---
 gost_crypt.c              | 10 ++++++----
 gost_gost2015.c           |  8 ++++++--
 gost_grasshopper_cipher.c | 13 ++++++++-----
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 6150eae..348e49d 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -894,15 +894,17 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
       return -1;
 
 	/* As in and out can be the same pointer, process unencrypted here */
-	if (EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+	if (EVP_CIPHER_CTX_encrypting(ctx)
+	    && (c->omac_ctx == NULL || EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0))
+		return -1;
 
   if (magma_cipher_do_ctr(ctx, out, in, inl) != inl)
       return -1;
 
 	/* As in and out can be the same pointer, process decrypted here */
-	if (!EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+	if (!EVP_CIPHER_CTX_encrypting(ctx)
+	    && (c->omac_ctx == NULL || EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0))
+		return -1;
 
 	return inl;
 }
diff --git a/gost_gost2015.c b/gost_gost2015.c
index f79c141..9f662c7 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -23,7 +23,9 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
     if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (omac_ctx == NULL
+            || EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
@@ -32,7 +34,9 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (omac_ctx == NULL
+            || EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 84630ef..1448b28 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -734,9 +734,6 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
 {
     int result;
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    /* As in and out can be the same pointer, process unencrypted here */
-    if (EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, in, inl);
 
     if (in == NULL && inl == 0) { /* Final call */
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
@@ -746,11 +743,17 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC, ERR_R_EVP_LIB);
         return -1;
     }
+    /* As in and out can be the same pointer, process unencrypted here */
+    if (EVP_CIPHER_CTX_encrypting(ctx)
+        && (c->omac_ctx == NULL || EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0))
+        return -1;
+
     result = gost_grasshopper_cipher_do_ctracpkm(ctx, out, in, inl);
 
     /* As in and out can be the same pointer, process decrypted here */
-    if (!EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+    if (!EVP_CIPHER_CTX_encrypting(ctx)
+        && (c->omac_ctx == NULL || EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0))
+        return -1;
 
     return result;
 }
-- 
2.43.0


From 495b42087c11613c7400670c6f9eda23a80c9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:05 +0000
Subject: [PATCH 20/39] fix: let CTR-ACPKM-OMAC contexts be copied before the
 key is set

---
 gost_crypt.c              | 4 ++++
 gost_grasshopper_cipher.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 348e49d..eb63290 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1373,6 +1373,10 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
+			/* No key yet, nothing to duplicate */
+			if (in_cctx->omac_ctx == NULL)
+				return 1;
+
 			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 1448b28..85e3ab6 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1228,6 +1228,10 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
+        /* No key yet, nothing to duplicate */
+        if (in_cctx->omac_ctx == NULL)
+            return 1;
+
         if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
-- 
2.43.0


From c2ef8a4e8d070f8549dd640acf2e0ceda0db368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 21/39] fix: keep the seed the CTR-ACPKM-OMAC keys were derived
 from

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index eb63290..9683e41 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -508,7 +508,8 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
            c->key_meshing = 0;
         }
 
-        if (enc) {
+        /* The keys of CTR-ACPKM-OMAC are already derived from the seed */
+        if (enc && EVP_CIPHER_CTX_nid(ctx) != NID_magma_ctr_acpkm_omac) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
                 return -1;
         }
-- 
2.43.0


From 901994b61c2771e841d463876195e282e1b21477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 22/39] fix: report allocation failure when OMAC contexts are
 copied

---
 gost_omac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index 8cebfc7..ef5a59f 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -120,6 +120,8 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     if (c_to->cmac_ctx == c_from->cmac_ctx) {
         c_to->cmac_ctx = CMAC_CTX_new();
     }
+    if (c_to->cmac_ctx == NULL)
+        return 0;
     return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
 }
 
-- 
2.43.0


From aac17390d8243f8de284d19322a1d81daec1295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 23/39] fix: check the setting of the digest value when signing

---
 gost_ec_sign.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..7d00fcf 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -236,8 +236,9 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     BN_print_fp(stderr, e);
     fprintf(stderr, "\n");
 #endif
-    if (BN_is_zero(e)) {
-        BN_one(e);
+    if (BN_is_zero(e) && !BN_one(e)) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_INTERNAL_ERROR);
+        goto err;
     }
     k = BN_CTX_get(ctx);
     C = EC_POINT_new(group);
-- 
2.43.0


From 8c85eac33d30477d03d08ab67751b27383373fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 24/39] fix: refuse to encode signatures that do not fit

---
 gost_pmeth.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..27d7994 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -469,13 +469,14 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
 int pack_sign_cp(ECDSA_SIG *s, int order, unsigned char *sig, size_t *siglen)
 {
     const BIGNUM *sig_r = NULL, *sig_s = NULL;
+    int ok;
     ECDSA_SIG_get0(s, &sig_r, &sig_s);
     *siglen = 2 * order;
     memset(sig, 0, *siglen);
-    store_bignum(sig_s, sig, order);
-    store_bignum(sig_r, sig + order, order);
+    ok = store_bignum(sig_s, sig, order)
+        && store_bignum(sig_r, sig + order, order);
     ECDSA_SIG_free(s);
-    return 1;
+    return ok;
 }
 
 static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
-- 
2.43.0


From fb3346f68dae3768d68e1a06f4f93f9ff33f1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 25/39] fix: report failures to decode a signature

---
 gost_pmeth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 27d7994..98215b2 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -530,7 +530,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
-    ECDSA_SIG_set0(sig, r, s);
+    if (!ECDSA_SIG_set0(sig, r, s)) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(r);
+        BN_free(s);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     return sig;
 }
 
-- 
2.43.0


From 31ba1a0fb7a32a941d7a88486dadd36115a006b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:06 +0000
Subject: [PATCH 26/39] fix: refuse signatures that do not have the length of
 the key

---
 gost_pmeth.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 98215b2..0410afa 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -546,7 +546,25 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 {
     int ok = 0;
     EVP_PKEY *pub_key = EVP_PKEY_CTX_get0_pkey(ctx);
-    ECDSA_SIG *s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
+    ECDSA_SIG *s;
+
+    /* Both halves have the length of the field, see pack_sign_cp() */
+    switch (pub_key ? EVP_PKEY_base_id(pub_key) : NID_undef) {
+    case NID_id_GostR3410_2001:
+    case NID_id_GostR3410_2001DH:
+    case NID_id_GostR3410_2012_256:
+        if (siglen != 64)
+            return 0;
+        break;
+    case NID_id_GostR3410_2012_512:
+        if (siglen != 128)
+            return 0;
+        break;
+    default:
+        return 0;
+    }
+
+    s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
     if (!s)
         return 0;
 #ifdef DEBUG_SIGN
-- 
2.43.0


From b72560fbd8f3bd19528a070d6b20cbc312f51e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 27/39] fix: clear the rest of the UKM when a shorter one is
 set

---
 gost_pmeth.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 0410afa..26847d7 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -154,6 +154,7 @@ static int pkey_gost_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
 	    GOSTerr(GOST_F_PKEY_GOST_CTRL, GOST_R_UKM_NOT_SET);
 	    return 0;
 	}
+        memset(pctx->shared_ukm, 0, sizeof(pctx->shared_ukm));
         memcpy(pctx->shared_ukm, p2, (int)p1);
         pctx->shared_ukm_size = p1;
         return 1;
-- 
2.43.0


From 4671dc21e260193e4b578a74df242a070c0e8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 28/39] fix: refuse key agreement without a private key

---
 gost_ec_keyx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..3a8a4d4 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -51,6 +51,11 @@ int VKO_compute_key(unsigned char *shared_key,
         goto err;
     }
 
+    if (EC_KEY_get0_private_key(priv_key) == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_KEY_IS_NOT_INITIALIZED);
+        goto err;
+    }
+
     grp = EC_KEY_get0_group(priv_key);
     scalar = BN_CTX_get(ctx);
     X = BN_CTX_get(ctx);
-- 
2.43.0


From edaf7f760299a653074018ef022ebfc1d3b0de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 29/39] fix: an all-zero UKM of KEG stands for one, not for
 2^120

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 3a8a4d4..a81e245 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -144,7 +144,7 @@ static int gost_keg(const unsigned char *ukm_source, int pkey_nid,
 
     memset(real_ukm, 0, 16);
     if (memcmp(ukm_source, real_ukm, 16) == 0)
-        real_ukm[15] = 1;
+        real_ukm[0] = 1;        /* little-endian, as VKO takes it */
     else {
         memcpy(real_ukm, ukm_source, 16);
         BUF_reverse(real_ukm, NULL, 16);
-- 
2.43.0


From de7a27980b0c5005bb79b2b66ea18024033c25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 30/39] fix: key transport: refuse other key sizes, report
 encoding errors, release the key once

---
 gost_ec_keyx.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index a81e245..0cd048f 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -299,6 +299,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     EVP_PKEY *sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     int res_len = 0;
 
+    if (key != NULL && key_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+        return -1;
+    }
     if (data->shared_ukm_size) {
         memcpy(ukm, data->shared_ukm, 8);
     } else {
@@ -370,9 +374,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
+    if (key_is_ephemeral) {
         EVP_PKEY_free(sec_key);
-    if (!key_is_ephemeral) {
+        sec_key = NULL;
+    } else {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
             <= 0) {
@@ -394,9 +399,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_GOST_KEY_TRANSPORT(gkt, &out)) > 0)
+        if ((res_len = i2d_GOST_KEY_TRANSPORT(gkt, &out)) > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
@@ -539,9 +545,10 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_PSKeyTransport_gost(pst, &out)) > 0)
+        if ((res_len = i2d_PSKeyTransport_gost(pst, &out)) > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
-- 
2.43.0


From 4bcd062857a7a13d7c91c4cfce0b62f06df8b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 31/39] fix: refuse malformed key transport instead of aborting

---
 gost_ec_keyx.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 0cd048f..0f5611e 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -635,12 +635,17 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
         goto err;
     }
 
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
+
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
-- 
2.43.0


From 3483efac7f694ea55a61fe9ed9f53ca0f4a3b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 32/39] fix: key transport: refuse ephemeral keys of other
 parameters and wrong UKM lengths

---
 gost_ec_keyx.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 0f5611e..5cca6df 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -687,7 +687,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     EVP_PKEY *priv;
     PSKeyTransport_gost *pst = NULL;
     int ret = 0;
-    unsigned char expkeys[64];
+    unsigned char expkeys[64], ukm[32];
     EVP_PKEY *eph_key = NULL;
     int pkey_nid;
     int mac_nid = NID_undef;
@@ -735,22 +735,27 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
    o  q * Q_eph is not equal to zero point.
 */
-    if (eph_key == NULL) {
+    if (eph_key == NULL || EVP_PKEY_base_id(eph_key) != pkey_nid
+        || EVP_PKEY_parameters_eq(eph_key, priv) != 1) {
        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
                GOST_R_ERROR_COMPUTING_EXPORT_KEYS);
        ret = 0;
        goto err;
     }
 
-    if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
-        if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
-            GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
-            goto err;
-        }
+    memset(ukm, 0, sizeof(ukm));
+    if (data->shared_ukm_size != 0) {
+        memcpy(ukm, data->shared_ukm, sizeof(ukm));
+    } else if (pst->ukm != NULL && ASN1_STRING_length(pst->ukm) > 0
+               && ASN1_STRING_length(pst->ukm) <= (int)sizeof(ukm)) {
+        memcpy(ukm, ASN1_STRING_get0_data(pst->ukm),
+               ASN1_STRING_length(pst->ukm));
+    } else {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
                  EVP_PKEY_get0(priv), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
@@ -760,7 +765,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (gost_kimp15(ASN1_STRING_get0_data(pst->psexp),
                     ASN1_STRING_length(pst->psexp), data->cipher_nid,
-                    expkeys + 32, mac_nid, expkeys + 0, data->shared_ukm + 24,
+                    expkeys + 32, mac_nid, expkeys + 0, ukm + 24,
                     iv_len, key) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_CANNOT_UNPACK_EPHEMERAL_KEY);
         goto err;
-- 
2.43.0


From 10f528fb6abb3eb417bd047d8f30a4cc73871806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 33/39] fix: report failures to unmask a private key

---
 gost_ameth.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..da4a932 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -571,11 +571,16 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         for (; p != buf; p -= len) {
             BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
             BN_CTX *ctx = BN_CTX_secure_new();
-
-            BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
+            int ok = mask && ctx
+                && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
             BN_free(mask);
+            if (!ok) {
+                BN_free(pknum_masked);
+                pknum_masked = NULL;
+                goto end;
+            }
         }
     }
 
-- 
2.43.0


From 61efd2b7a4b7d2e60d10b000c3183dedc1c1d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 34/39] fix: refuse empty, zero, negative and wrongly sized
 private keys

---
 gost_ameth.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index da4a932..207875c 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -615,6 +615,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -622,7 +627,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
     } else if (V_ASN1_OCTET_STRING == *p) {
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
-        if (!s || ((s->length != 32) && (s->length != 64))) {
+        if (!s || s->length != expected_key_len) {
             ASN1_STRING_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -646,7 +651,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len <= 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -661,7 +666,8 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
-    if (pk_num == NULL) {
+    if (pk_num == NULL || BN_is_zero(pk_num) || BN_is_negative(pk_num)) {
+        BN_free(pk_num);
         GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
         return 0;
     }
-- 
2.43.0


From ef0229d084e248e0f4f38ae1777029ce1e3595fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 35/39] fix: encode private keys into memory PKCS#8 can release

---
 gost_ameth.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 207875c..c3de7d8 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -688,18 +688,20 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     const char *pk_format = get_gost_engine_param(GOST_PARAM_PK_FORMAT);
 
     key_len = (key_len < 0) ? 0 : key_len / 8;
-    if (key_len == 0 || !(buf = OPENSSL_secure_malloc(key_len))) {
+    /* Not from the secure heap: the PKCS#8 structure releases it */
+    if (key_len == 0 || !(buf = OPENSSL_malloc(key_len))) {
         return 0;
     }
 
-    if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
-        OPENSSL_secure_free(buf);
+    if (!gost_get0_priv_key(pk)
+        || !store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
     params = encode_gost_algor_params(pk);
     if (!params) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
@@ -717,12 +719,16 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         if (!octet || !ASN1_OCTET_STRING_set(octet, buf, key_len)) {
             ASN1_STRING_free(octet);
             ASN1_STRING_free(params);
-            OPENSSL_secure_free(buf);
+            OPENSSL_clear_free(buf, key_len);
             return 0;
         }
         priv_len = i2d_ASN1_OCTET_STRING(octet, &priv_buf);
         ASN1_STRING_free(octet);
-        OPENSSL_secure_free(buf);
+        OPENSSL_clear_free(buf, key_len);
+        if (priv_len <= 0) {
+            ASN1_STRING_free(params);
+            return 0;
+        }
 
         return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
                                priv_buf, priv_len);
-- 
2.43.0


From 58a53b7d6f666a17487a84cc58eeb5e10a88f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 36/39] fix: refuse public keys of the wrong length

---
 gost_ameth.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index c3de7d8..086318f 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -944,6 +944,12 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
         goto ret;
     }
+    /* Both coordinates have the length of the field, see pub_encode_gost_ec */
+    if (octet->length <= 0
+        || octet->length != 2 * ((EC_GROUP_get_degree(group) + 7) / 8)) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, EVP_R_DECODE_ERROR);
+        goto ret;
+    }
     databuf = OPENSSL_malloc(octet->length);
     if (!databuf) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
@@ -960,7 +966,8 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
-    if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
+    if (!pub_key
+        || !EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
     }
-- 
2.43.0


From 7b09b013f062310ab3b375cc52e3e27a2341b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 37/39] fix: report failures to encode the parameters of a
 public key

---
 gost_ameth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 086318f..a5dc187 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1001,6 +1001,8 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
     params = encode_gost_algor_params(pk);
+    if (params == NULL)
+        return 0;
     pval = params;
 
     order = BN_new();
@@ -1063,8 +1065,10 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret < 0) {
+        ASN1_STRING_free(params);
         return 0;
+    }
     return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
 }
 
-- 
2.43.0


From c19962cc3c74a24bc4059a6d2a24347aca90207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 38/39] fix: gostsum: report malformed check lists and stay
 inside the line

---
 gostsum.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/gostsum.c b/gostsum.c
index b61215c..441339d 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -86,7 +86,7 @@ int main(int argc, char **argv)
     init_gost_hash_ctx(&ctx, b);
     if (check_file) {
         char inhash[65], calcsum[65], filename[PATH_MAX];
-        int failcount = 0, count = 0;
+        int failcount = 0, count = 0, line;
         errors = 0;
         if (check_file == stdin && optind < argc) {
             check_file = fopen(argv[optind], "r");
@@ -95,7 +95,7 @@ int main(int argc, char **argv)
                 exit(2);
             }
         }
-        while (get_line(check_file, inhash, filename)) {
+        while ((line = get_line(check_file, inhash, filename)) > 0) {
             count++;
             if (!hash_file(&ctx, filename, calcsum, open_mode)) {
                 errors++;
@@ -127,7 +127,7 @@ int main(int argc, char **argv)
                     "%s: %d of %d file(f) failed GOST hash sum check\n",
                     argv[0], failcount, count);
         }
-        exit((failcount || errors) ? 1 : 0);
+        exit((failcount || errors || line < 0) ? 1 : 0);
     }
     if (optind == argc) {
         char sum[65];
@@ -189,25 +189,35 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum)
     return 1;
 }
 
+/* Returns 1 for a line, 0 at the end of the list and -1 if it is malformed */
 int get_line(FILE *f, char *hash, char *filename)
 {
-    int i;
-    if (fread(hash, 1, 64, f) < 64)
-        return 0;
+    int i, n = fread(hash, 1, 64, f);
+    if (n < 64) {
+        /* Only line breaks may follow the last line */
+        for (i = 0; i < n; i++) {
+            if (hash[i] != '\n' && hash[i] != '\r')
+                break;
+        }
+        if (i == n && !ferror(f))
+            return 0;
+        fprintf(stderr, "Malformed input line\n");
+        return -1;
+    }
     hash[64] = 0;
     for (i = 0; i < 64; i++) {
         if (hash[i] < '0' || (hash[i] > '9' && hash[i] < 'A')
             || (hash[i] > 'F' && hash[i] < 'a') || hash[i] > 'f') {
             fprintf(stderr, "Not a hash value '%s'\n", hash);
-            return 0;
+            return -1;
         }
     }
-    if (fgetc(f) != ' ') {
+    if (fgetc(f) != ' ' || !fgets(filename, PATH_MAX, f)) {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
-    i = strlen(fgets(filename, PATH_MAX, f));
-    while (filename[--i] == '\n' || filename[i] == '\r')
-        filename[i] = 0;
+    i = strlen(filename);
+    while (i > 0 && (filename[i - 1] == '\n' || filename[i - 1] == '\r'))
+        filename[--i] = 0;
     return 1;
 }
-- 
2.43.0


From 5aad1c557e89620bd6e55536aa624beb695d6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 39/39] fix: gost12sum: stay inside empty lines

---
 gost12sum.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..9da3e2f 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -172,7 +172,7 @@ int main(int argc, char **argv)
                     "%s: WARNING %d of %d processed file(s) failed GOST hash sum check\n",
                     argv[0], failcount, count - errors);
         }
-        exit((failcount || errors) ? 1 : 0);
+        exit((failcount || errors || ferror(check_file)) ? 1 : 0);
     } else if (filenames_from_stdin) {
         char sum[MAX_HASH_TXT_BYTES + 1];
         char filename[PATH_MAX + 1], *end;
@@ -180,9 +180,8 @@ int main(int argc, char **argv)
             if (!fgets(filename, PATH_MAX, stdin))
                 break;
             for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
+                *--end = 0;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
@@ -261,8 +260,8 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
             goto nextline;
-- 
2.43.0

