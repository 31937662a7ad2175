From fa01815b8b03fcd7c09dba89a103236eaa7a4b90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:12:35 +0000
Subject: [PATCH 1/5] fix: check the full DTLS record header length before
 parsing a classic header

A datagram whose last record starts with a byte of the form 001xxxxx was only
checked for the short DTLS 1.3 unified header length even when DTLS 1.3 is not
in use; the 13-byte header was then read past the received data, and past the
end of the receive buffer when the datagram filled it.
---
 tls/record/src/rec_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tls/record/src/rec_read.c b/tls/record/src/rec_read.c
index c15a9ef..66928cb 100644
--- a/tls/record/src/rec_read.c
+++ b/tls/record/src/rec_read.c
@@ -955,6 +955,12 @@ static int32_t DtlsGetRecordHeader(TLS_Ctx *ctx, const uint8_t *msg, uint32_t le
         return Dtls13GetRecordUnifiedHeader(ctx, msg, len, hdr);
     }
 #endif
+    /* The first byte may look like a DTLS 1.3 unified header although DTLS 1.3 is not in use, in which case only the
+     * shorter length has been checked so far. */
+    if (len < REC_DTLS_RECORD_HEADER_LEN) {
+        BSL_ERR_PUSH_ERROR(HITLS_REC_DECODE_ERROR);
+        return HITLS_REC_DECODE_ERROR;
+    }
     /* Parse the record header */
     hdr->type = msg[0];
     hdr->version = BSL_ByteToUint16(&msg[1]);
-- 
2.43.0


From bd352daa9054192cfac9caff3f6a98f38cc0a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:52 +0000
Subject: [PATCH 2/5] fix: consume the DTLS record number as soon as the record
 has been sent

---
 tls/record/src/rec_write.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tls/record/src/rec_write.c b/tls/record/src/rec_write.c
index 3772fe1..4762ff8 100644
--- a/tls/record/src/rec_write.c
+++ b/tls/record/src/rec_write.c
@@ -258,6 +258,12 @@ static int32_t DtlsTrySendMessage(TLS_Ctx *ctx, RecCtx *recordCtx, REC_Type reco
         return ret;
     }
 
+    /* The record is on the wire: consume its sequence number before anything else can fail, so that the number (and
+     * the AEAD nonce derived from it) is never used for a second record. */
+    recordCtx->lastWriteEpochSeq = epochSeq;
+    recordCtx->hasLastWriteEpochSeq = true;
+    /** Add the record sequence */
+    RecConnSetSeqNum(state, state->seq + 1);
 #if defined(HITLS_BSL_UIO_UDP)
     ret = RecDerefBufList(ctx);
     if (ret != HITLS_SUCCESS) {
@@ -269,10 +275,6 @@ static int32_t DtlsTrySendMessage(TLS_Ctx *ctx, RecCtx *recordCtx, REC_Type reco
         RecTryFreeRecBuf(ctx, true);
     }
 #endif
-    recordCtx->lastWriteEpochSeq = epochSeq;
-    recordCtx->hasLastWriteEpochSeq = true;
-    /** Add the record sequence */
-    RecConnSetSeqNum(state, state->seq + 1);
 
     return HITLS_SUCCESS;
 }
-- 
2.43.0


From 1b9676aa2be2221f626bff6b238b3d99fbbba057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:05 +0000
Subject: [PATCH 3/5] fix: do not wrap the microsecond sum in BSL_DateTimeAddUs

---
 bsl/sal/src/sal_time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsl/sal/src/sal_time.c b/bsl/sal/src/sal_time.c
index f51062c..0951b9c 100644
--- a/bsl/sal/src/sal_time.c
+++ b/bsl/sal/src/sal_time.c
@@ -205,8 +205,8 @@ int32_t BSL_DateTimeAddUs(BSL_TIME *dateR, const BSL_TIME *dateA, uint32_t us)
     }
 
     /* Convert the increased time to seconds */
-    uint32_t microSec = us + dateA->microSec;
-    uint32_t millSec = (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
+    uint32_t microSec = (us % BSL_SECOND_TRANSFER_RATIO) + dateA->microSec;
+    uint32_t millSec = (us / BSL_SECOND_TRANSFER_RATIO) + (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
     microSec %= BSL_SECOND_TRANSFER_RATIO;
     uint32_t second = millSec / BSL_SECOND_TRANSFER_RATIO;
     millSec %= BSL_SECOND_TRANSFER_RATIO;
-- 
2.43.0


From 746a68162544793a56cf81fcfc2f05fab3b1bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 4/5] fix: an empty label of a presented name no longer matches
 any label

MatchWithPartialWildcard skipped the comparison of an empty pattern label, so
with HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD the presented name ".com" matched
"foo.com" and "*..com" matched "foo.bar.com".
---
 pki/x509_common/src/hitls_x509_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pki/x509_common/src/hitls_x509_util.c b/pki/x509_common/src/hitls_x509_util.c
index 90c709e..78b4536 100644
--- a/pki/x509_common/src/hitls_x509_util.c
+++ b/pki/x509_common/src/hitls_x509_util.c
@@ -128,7 +128,7 @@ static int32_t MatchWithPartialWildcard(const char *pattern, const char *hostnam
             }
             labelCount++;
         } else {
-            if (pLen > 0 && BSL_SAL_StrcaseCmp(p, h) != 0) {
+            if (BSL_SAL_StrcaseCmp(p, h) != 0) {
                 return HITLS_X509_ERR_VFY_HOSTNAME_FAIL;
             }
         }
-- 
2.43.0


From 1133b9ad228e2e044b1a93d9d9052787e51e8377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:58 +0000
Subject: [PATCH 5/5] fix: RSA verification accepted signatures whose length is
 not that of the modulus

---
 crypto/rsa/src/rsa_encdec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/rsa/src/rsa_encdec.c b/crypto/rsa/src/rsa_encdec.c
index 5c87489..978cbf1 100644
--- a/crypto/rsa/src/rsa_encdec.c
+++ b/crypto/rsa/src/rsa_encdec.c
@@ -942,6 +942,10 @@ int32_t CRYPT_RSA_VerifyData(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t d
     }
     uint32_t bits = CRYPT_RSA_GetBits(ctx);
     uint32_t padLen = BN_BITS_TO_BYTES(bits);
+    if (signLen != padLen) { // RFC 8017 8.1.2 and 8.2.2: a signature has exactly the length of the modulus.
+        BSL_ERR_PUSH_ERROR(CRYPT_RSA_NOR_VERIFY_FAIL);
+        return CRYPT_RSA_NOR_VERIFY_FAIL;
+    }
     uint8_t *pad = BSL_SAL_Malloc(padLen);
     if (pad == NULL) {
         BSL_ERR_PUSH_ERROR(CRYPT_MEM_ALLOC_FAIL);
-- 
2.43.0

