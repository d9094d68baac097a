From b8f7dfdb01d670f82d8db97f5324b8b23223ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 1/2] fix: report allocation failure of the group order in the
 ECC private key check

ECC_GetParaN() returns NULL when memory runs out; BN_Cmp(key, NULL) then
yields -1 and an out-of-range private key passed the check.
---
 crypto/ecc/src/ecc_pkey.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/ecc/src/ecc_pkey.c b/crypto/ecc/src/ecc_pkey.c
index 23d755e..4af92a8 100644
--- a/crypto/ecc/src/ecc_pkey.c
+++ b/crypto/ecc/src/ecc_pkey.c
@@ -430,6 +430,10 @@ static int32_t EccPrvKeyCheck(const ECC_Pkey *pkey)
     }
     int32_t ret = CRYPT_SUCCESS;
     BN_BigNum *paraN = ECC_GetParaN(pkey->para);
+    if (paraN == NULL) {
+        BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
+        return CRYPT_MEM_ALLOC_FAIL;
+    }
     if (pkey->para->id == CRYPT_ECC_SM2) {
         (void)BN_SubLimb(paraN, paraN, 1);
         /* GB/T 32918.2-2016 for check sm2 prv key, 0 < key < n - 1 is valid */
-- 
2.43.0


From 510987f81ecda80fbaf7a9fc9fed26cb3e802c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 2/2] fix: take the library context lock when replacing the
 provider search path

---
 crypto/provider/src/mgr/crypt_provider.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/provider/src/mgr/crypt_provider.c b/crypto/provider/src/mgr/crypt_provider.c
index 959b812..681205d 100644
--- a/crypto/provider/src/mgr/crypt_provider.c
+++ b/crypto/provider/src/mgr/crypt_provider.c
@@ -447,8 +447,15 @@ int32_t CRYPT_EAL_ProviderSetLoadPath(CRYPT_EAL_LibCtx *libCtx, const char *sear
             return CRYPT_MEM_ALLOC_FAIL;
         }
     }
+    int32_t ret = BSL_SAL_ThreadWriteLock(localCtx->lock);
+    if (ret != BSL_SUCCESS) {
+        BSL_ERR_PUSH_ERROR(ret);
+        BSL_SAL_FREE(tempPath);
+        return ret;
+    }
     BSL_SAL_FREE(localCtx->searchProviderPath);
     localCtx->searchProviderPath = tempPath;
+    (void)BSL_SAL_ThreadUnlock(localCtx->lock);
     return CRYPT_SUCCESS;
 #else
     (void)libCtx;
-- 
2.43.0

