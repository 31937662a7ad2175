/* Peer authentication: what exactly is signed and MACed. CertificateVerify, ServerKeyExchange signature, Finished value.
 * Hash, PRF, HMAC, HKDF and signature primitives are assumed contracts that record their arguments. */
/*@defaults
src: tls/handshake/common/src/hs_verify.c tls/handshake/common/src/hs_common.c tls/handshake/parse/src/parse_certificate_verify.c tls/handshake/parse/src/parse_server_key_exchange.c tls/handshake/parse/src/parse_common.c tls/alert/src/alert.c
def: VP_OWN_SAL_MEM VP_OWN_CLEANSE
unwind: 66
level: proof
assume: hash, PRF, HMAC, HKDF and signature verification primitives, key and scheme attribute queries are callee contracts
assume: allocations are served from blocks of sufficient fixed size; the requested size is checked against it
*/
#include "vp.h"
#include "hitls_build.h"
#include "tls.h"
#include "hs.h"
#include "hs_ctx.h"
#include "hs_msg.h"
#include "hs_common.h"
#include "hs_verify.h"
#include "hs_kx.h"
#include "transcript_hash.h"
#include "cert.h"
#include "cert_method.h"
#include "cert_mgr.h"
#include "crypt.h"
#include "parse_msg.h"
#include "parse_common.h"
#include "hitls_error.h"
#include "alert.h"
#include "security.h"
#include "crypt_algid.h"

#ifndef MSGMAX
#define MSGMAX 320
#endif
#ifndef POOL
#define POOL (64 + 64 + MSGMAX)
#endif
#ifndef BLK
#define BLK 8
#endif
static struct {
    uint32_t alerts, level, alert, verifies, frees, pools, prfs, hmacs, fins, chains, dumps;
    bool paramOk, hashOk, sigOk, pubOk, secOk, peerOk, args, macArgs, prfOk, keyOk, schemeInfo, skipPool;
    int32_t signAlgo, hashAlgo, keyType, pssMd, paraId, keyPara, chainRet;
    uint32_t digLen, k, lenSeen, poolOff, poolLen, hashLen;
    uint8_t atK, oldMac;
    uint16_t scheme, defScheme, askA, askB;
    uint32_t verBit;
    bool fromMsg;
    const uint8_t *sigSrc; uint32_t sigLen;
} G;
static TLS_Ctx c_ctx;
static HS_Ctx c_hs;
static VerifyCtx c_ver;
static KeyExchCtx c_kx;
static HS_Msg c_msg;
static CERT_Pair c_pair;
static CERT_MgrCtx c_mgr;
static uint8_t c_x509, c_enc, c_pub, c_sigObj, c_store1, c_store2;
static uint8_t c_dig[64], c_pool[POOL], c_pool2[MSGMAX], c_buf[MSGMAX], c_vdata[1024];
static uint16_t c_algs[8];
static TLS_SigSchemeInfo c_info;
static TLS_GroupInfo c_group;
static HsMsgCache c_blk[3];
static uint8_t c_crand[32], c_srand[32];
static uint8_t c_b0[8], c_b1[8], c_b2[8];

static void cb_alert(const TLS_Ctx *c, ALERT_Level l, ALERT_Description d) { (void)c; G.alerts++; G.level = l; G.alert = d; }
void *BSL_SAL_Malloc(uint32_t n)
{
    if (n == 0) return NULL;
    if (n <= MSGMAX && G.fromMsg) { G.pools++; return c_pool2; }
    VP_ASSERT(n <= sizeof(c_pool), "allocation fits");
    return c_pool;
}
void *BSL_SAL_Calloc(uint32_t a, uint32_t b)
{
    VP_ASSERT((uint64_t)a * b <= sizeof(c_pool), "allocation fits");
    return c_pool;
}
void *BSL_SAL_Dump(const void *s, uint32_t n) { if (s == NULL || n == 0) return NULL; G.dumps++; G.sigSrc = s; G.sigLen = n; return &c_sigObj; }
void BSL_SAL_Free(void *p) { (void)p; }
void BSL_SAL_ClearFree(void *p, uint32_t n) { (void)p; (void)n; }
void BSL_SAL_CleanseData(void *p, uint32_t n) { (void)p; (void)n; }
bool CFG_GetSignParamBySchemes(const HITLS_Ctx *c, HITLS_SignHashAlgo s, HITLS_SignAlgo *sa, HITLS_HashAlgo *ha)
{
    (void)c; G.scheme = s;
    if (!G.paramOk) return false;
    *sa = G.signAlgo; *ha = G.hashAlgo;
    return true;
}
int32_t VERIFY_CalcSessionHash(VerifyCtx *v, uint8_t *d, uint32_t *n)
{
    (void)v;
    if (!G.hashOk) return HITLS_CRYPT_ERR_DIGEST;
    memcpy(d, c_dig, 64);
    *n = G.digLen;
    return HITLS_SUCCESS;
}
int32_t SAL_CERT_X509Ctrl(HITLS_Config *cfg, HITLS_CERT_X509 *cert, HITLS_CERT_CtrlCmd cmd, void *in, void *out)
{
    (void)cfg; (void)in;
    if (cmd != CERT_CTRL_GET_PUB_KEY || cert != c_pair.cert || !G.pubOk) { if (cert != c_pair.cert) G.args = false; return HITLS_CERT_ERR_BUILD_CHAIN; }
    *(HITLS_CERT_Key **)out = (HITLS_CERT_Key *)&c_pub;
    return HITLS_SUCCESS;
}
int32_t SAL_CERT_KeyCtrl(HITLS_Config *cfg, HITLS_CERT_Key *key, HITLS_CERT_CtrlCmd cmd, void *in, void *out)
{
    (void)cfg; (void)in;
    if (key != (HITLS_CERT_Key *)&c_pub) G.args = false;
    if (cmd == CERT_KEY_CTRL_GET_TYPE) *(HITLS_CERT_KeyType *)out = G.keyType;
    if (cmd == CERT_KEY_CTRL_GET_PSS_MD) *(int32_t *)out = G.pssMd;
    if (cmd == CERT_KEY_CTRL_GET_PARAM_ID) *(int32_t *)out = G.keyPara;
    return HITLS_SUCCESS;
}
HITLS_SignHashAlgo SAL_CERT_GetDefaultSignHashAlgo(HITLS_CERT_KeyType t) { (void)t; return G.defScheme; }
void SAL_CERT_KeyFree(const CERT_MgrCtx *m, HITLS_CERT_Key *k) { (void)m; (void)k; G.frees++; }
const TLS_SigSchemeInfo *ConfigGetSignatureSchemeInfo(const HITLS_Config *c, uint16_t s) { (void)c; if (s != G.askA && s != G.askB) G.args = false; return G.schemeInfo ? &c_info : NULL; }
uint32_t MapVersion2VersionBit(bool dtls, uint16_t v) { (void)dtls; if (v != c_ctx.negotiatedInfo.version) G.args = false; return G.verBit; }
const TLS_GroupInfo *ConfigGetGroupInfo(const HITLS_Config *c, uint16_t g) { (void)c; (void)g; c_group.pubkeyLen = G.hashLen; return G.keyOk ? &c_group : NULL; }
int32_t SECURITY_SslCheck(const HITLS_Ctx *c, int32_t op, int32_t b, int32_t id, void *o)
{ (void)c; (void)b; (void)id; (void)o; return op == HITLS_SECURITY_SECOP_SIGALG_CHECK && !G.secOk ? SECURITY_ERR : SECURITY_SUCCESS; }

#define VER c_ctx.negotiatedInfo.version
#define IS13 (VER == HITLS_VERSION_TLS13 || VER == HITLS_VERSION_DTLS13)
#define TLCP (VER == HITLS_VERSION_TLCP_DTLCP11)
#define CFG c_ctx.config.tlsConfig
#define FATAL(n) (G.alerts == (n) && G.level == ALERT_LEVEL_FATAL)

/* ---- VERIFY_VerifySignData ---- */
static uint32_t blkSum(void) { return c_blk[0].dataSize + (c_blk[0].next ? c_blk[1].dataSize + (c_blk[1].next ? c_blk[2].dataSize : 0) : 0); }
static uint8_t expectedAt(uint32_t k)
{
    static const char cl[] = "TLS 1.3, client CertificateVerify", sl[] = "TLS 1.3, server CertificateVerify";
    if (IS13) {
        const char *label = c_ctx.isClient ? sl : cl;          /* the peer signed: a client checks the server's label */
        if (k < 64) return 0x20;
        if (k < 64 + 33) return (uint8_t)label[k - 64];
        if (k == 97) return 0;
        return c_dig[(k - 98) & 63];
    }
    if (TLCP) return c_dig[k & 63];
    if (k < c_blk[0].dataSize) return c_b0[k & 7];
    k -= c_blk[0].dataSize;
    if (k < c_blk[1].dataSize) return c_b1[k & 7];
    k -= c_blk[1].dataSize;
    return c_b2[k & 7];
}
static uint32_t expectedLen(void) { return IS13 ? 98 + G.digLen : TLCP ? G.digLen : blkSum(); }
int32_t SAL_CERT_VerifySign(HITLS_Ctx *c, HITLS_CERT_Key *key, CERT_SignParam *p)
{
    (void)c;
    G.verifies++;
    if (key != (HITLS_CERT_Key *)&c_pub || p->signAlgo != (HITLS_SignAlgo)G.signAlgo || p->hashAlgo != (HITLS_HashAlgo)G.hashAlgo) G.args = false;
    G.lenSeen = p->dataLen;
    if (G.fromMsg) { if (p->sign != c_pool2 || p->signLen != G.sigLen) G.args = false; if (p->signLen > 0 && p->sign[0] != G.oldMac) G.args = false; }
    else if (p->sign != &c_sigObj || p->signLen != G.sigLen) G.args = false;
    VP_ASSUME(G.k < p->dataLen && G.k < sizeof(c_pool));
    G.atK = p->data[G.k];
    return G.sigOk ? HITLS_SUCCESS : HITLS_CERT_ERR_VERIFY_CERT_CHAIN;
}
#define K_VERIFY_VerifySignData(REQ, ENS) \
    REQ("a signature", signData == c_buf && signDataLen > 0 && pubkey == (HITLS_CERT_Key *)&c_pub) \
    REQ("handshake data exists before TLS 1.3", blkSum() > 0 || IS13 || TLCP) \
    ENS("success only if the primitive accepts the peer's signature under the given key", VP_IMP(VP_RET == HITLS_SUCCESS, \
        G.verifies == 1 && G.sigOk && G.args && G.scheme == signScheme && G.sigSrc == signData && G.sigLen == signDataLen)) \
    ENS("the signed content is the transcript, for TLS 1.3 under the peer's context label", VP_IMP(G.verifies == 1, \
        G.lenSeen == expectedLen() && G.atK == expectedAt(G.k))) \
    ENS("a good signature is accepted", VP_IMP(G.paramOk && (G.hashOk || (!IS13 && !TLCP)) && G.sigOk, VP_RET == HITLS_SUCCESS && G.alerts == 0)) \
    ENS("anything else is refused with one fatal alert", VP_IMP(VP_RET != HITLS_SUCCESS, FATAL(1)))
int32_t VERIFY_VerifySignData(TLS_Ctx *ctx, HITLS_CERT_Key *pubkey, HITLS_SignHashAlgo signScheme, const uint8_t *signData, uint16_t signDataLen)
    VP_CONTRACT(K_VERIFY_VerifySignData, G, __CPROVER_object_whole(c_pool));

static void setup(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true; G.macArgs = true;
    c_ctx.hsCtx = &c_hs; c_hs.verifyCtx = &c_ver; c_hs.kxCtx = &c_kx;
    c_ctx.method.sendAlert = cb_alert;
    CFG.certMgrCtx = &c_mgr;
    c_ctx.isClient = vp_bool();
    VER = vp_u16();
    c_ctx.phaState = vp_range(0, 3);
    c_pair.cert = (HITLS_CERT_X509 *)&c_x509; c_pair.encCert = (HITLS_CERT_X509 *)&c_enc;
    G.paramOk = vp_bool(); G.hashOk = vp_bool(); G.sigOk = vp_bool(); G.pubOk = vp_bool(); G.secOk = vp_bool(); G.peerOk = vp_bool();
    G.schemeInfo = vp_bool(); G.prfOk = vp_bool(); G.keyOk = vp_bool();
    G.signAlgo = vp_i32(); G.hashAlgo = vp_i32(); G.keyType = vp_i32(); G.pssMd = vp_i32(); G.verBit = vp_u32(); G.keyPara = vp_i32();
    G.defScheme = vp_u16();
    c_info.paraId = vp_i32(); c_info.keyType = vp_i32(); c_info.certVersionBits = vp_u32(); c_info.hashAlgId = vp_i32();
    G.digLen = vp_range(1, 64);
    G.hashLen = vp_range(0, 64);
    G.k = vp_u32();
    c_ver.hashAlgo = vp_i32();
    VP_BYTES(c_dig, 64);
    VP_BYTES(c_b0, 8); VP_BYTES(c_b1, 8); VP_BYTES(c_b2, 8);
    c_ver.dataBuf = &c_blk[0];
    c_blk[0].data = c_b0; c_blk[0].dataSize = vp_range(0, BLK);
    c_blk[1].data = c_b1; c_blk[1].dataSize = vp_range(0, BLK);
    c_blk[2].data = c_b2; c_blk[2].dataSize = vp_range(0, BLK);
    /* the cache always ends with an empty block and has none before (transcript_hash.c) */
    VP_ASSUME(c_blk[0].dataSize > 0 || c_blk[1].dataSize == 0);
    VP_ASSUME(c_blk[1].dataSize > 0 || c_blk[2].dataSize == 0);
    c_blk[0].next = &c_blk[1]; c_blk[1].next = &c_blk[2]; c_blk[2].next = NULL;
    c_ver.verifyData = c_vdata; c_ver.verifyDataCapacity = 1024;
}
/*@unit
name: verify_signature_content13
solver: minisat2
entry: h_vsd13
enforce: VERIFY_VerifySignData
unwind: 100
def: MSGMAX=8 POOL=162 BLK=2
*/
void h_vsd13(void)
{
    setup();
    VP_ASSUME(IS13 || TLCP);
    TLS_Ctx *ctx = &c_ctx; HITLS_CERT_Key *pubkey = (HITLS_CERT_Key *)&c_pub; HITLS_SignHashAlgo signScheme = vp_u16();
    const uint8_t *signData = c_buf; uint16_t signDataLen = vp_u16();
    int32_t r;
    VP_CALL(K_VERIFY_VerifySignData, r, VERIFY_VerifySignData(ctx, pubkey, signScheme, signData, signDataLen));
    VP_REACH(r == HITLS_SUCCESS && IS13 && G.k > 100, "TLS 1.3");
    VP_REACH(r == HITLS_SUCCESS && TLCP, "TLCP");
    VP_REACH(r != HITLS_SUCCESS && G.verifies == 1, "refused");
}
/*@unit
name: verify_signature_content12
solver: minisat2
entry: h_vsd12
enforce: VERIFY_VerifySignData
level: bounded
bound: TLS 1.2 transcripts of at most three cached messages of at most 4 bytes
def: MSGMAX=8 POOL=12 BLK=4
*/
void h_vsd12(void)
{
    setup();
    VP_ASSUME(!IS13 && !TLCP);
    TLS_Ctx *ctx = &c_ctx; HITLS_CERT_Key *pubkey = (HITLS_CERT_Key *)&c_pub; HITLS_SignHashAlgo signScheme = vp_u16();
    const uint8_t *signData = c_buf; uint16_t signDataLen = vp_u16();
    int32_t r;
    VP_CALL(K_VERIFY_VerifySignData, r, VERIFY_VerifySignData(ctx, pubkey, signScheme, signData, signDataLen));
    VP_REACH(r == HITLS_SUCCESS && c_blk[2].dataSize > 0, "TLS 1.2");
}

/* ---- CertificateVerify message ---- */
#define SCHEME ((uint16_t)((c_buf[0] << 8) | c_buf[1]))
#define HASSCHEME (VER >= HITLS_VERSION_TLS12)
#define SIGOFF (HASSCHEME ? 4u : 2u)
#define SIGLEN ((uint32_t)((c_buf[SIGOFF - 2] << 8) | c_buf[SIGOFF - 1]))
#define USED (HASSCHEME && SCHEME != 0 ? SCHEME : G.defScheme)
static bool offered(uint16_t s)
{
    bool r = false;
    for (int i = 0; i < 8; i++) if ((uint32_t)i < CFG.signAlgorithmsSize && c_algs[i] == s) r = true;
    return r;
}
static bool peerOk(void)
{
    return c_hs.peerCert != NULL && G.pubOk && G.schemeInfo && c_info.keyType == G.keyType && (G.verBit & c_info.certVersionBits) != 0 &&
        (c_info.keyType != TLS_CERT_KEY_TYPE_RSA_PSS || G.pssMd == (int32_t)HITLS_HASH_BUTT || G.pssMd == c_info.hashAlgId);
}
static bool schemeOk(uint16_t s) { return offered(s) && peerOk() && G.secOk; }
static bool keyMatch(void) { return (G.schemeInfo ? c_info.keyType : (int32_t)TLS_CERT_KEY_TYPE_UNKNOWN) == G.keyType && (!IS13 || (G.schemeInfo && (c_info.paraId == CRYPT_PKEY_PARAID_MAX || G.keyPara == c_info.paraId))); }
#define K_ParseCertificateVerify(REQ, ENS) \
    REQ("message", buf == c_buf && bufLen <= MSGMAX && hsMsg == &c_msg) \
    ENS("accepted only with a well-formed, non-empty signature filling the message", VP_IMP(VP_RET == HITLS_SUCCESS, \
        bufLen >= 4 && SIGLEN > 0 && SIGLEN == bufLen - SIGOFF)) \
    ENS("accepted only under a scheme the own side offered and its policy allows", VP_IMP(VP_RET == HITLS_SUCCESS && HASSCHEME, schemeOk(SCHEME))) \
    ENS("accepted only if the scheme fits the certified key", VP_IMP(VP_RET == HITLS_SUCCESS, c_hs.peerCert != NULL && keyMatch() && G.scheme == USED && (HASSCHEME || G.defScheme != CERT_SIG_SCHEME_UNKNOWN))) \
    ENS("accepted only if the signature verifies under the peer certificate's key", VP_IMP(VP_RET == HITLS_SUCCESS, \
        G.verifies == 1 && G.sigOk && G.args && G.sigSrc == c_buf + SIGOFF && G.sigLen == SIGLEN)) \
    ENS("refusal is fatal", VP_IMP(VP_RET != HITLS_SUCCESS, G.alerts >= 1 && G.level == ALERT_LEVEL_FATAL)) \
    ENS("a valid CertificateVerify is accepted", VP_IMP(bufLen >= 4 && SIGLEN > 0 && SIGLEN == bufLen - SIGOFF && (!HASSCHEME || schemeOk(SCHEME)) && \
        c_hs.peerCert != NULL && keyMatch() && USED != CERT_SIG_SCHEME_UNKNOWN && G.pubOk && G.paramOk && G.hashOk && G.sigOk, VP_RET == HITLS_SUCCESS))
int32_t ParseCertificateVerify(TLS_Ctx *ctx, const uint8_t *buf, uint32_t bufLen, HS_Msg *hsMsg)
    VP_CONTRACT(K_ParseCertificateVerify, G, c_msg, c_ctx.peerInfo.peerSignHashAlg, __CPROVER_object_whole(c_pool));
/*@unit
name: parse_certificate_verify
entry: h_pcv
enforce: ParseCertificateVerify
*/
void h_pcv(void)
{
    setup();
    VP_ASSUME(blkSum() > 0);
    VP_BYTES(c_buf, 6);
    CFG.signAlgorithms = c_algs; CFG.signAlgorithmsSize = vp_range(0, 8);
    VP_BYTES(c_algs, 16);
    c_hs.peerCert = vp_bool() ? &c_pair : NULL;
    TLS_Ctx *ctx = &c_ctx; const uint8_t *buf = c_buf; uint32_t bufLen = vp_u32(); HS_Msg *hsMsg = &c_msg;
    c_msg.body.certificateVerify.sign = NULL;
    G.askA = SCHEME; G.askB = USED;
    int32_t r;
    VP_CALL(K_ParseCertificateVerify, r, ParseCertificateVerify(ctx, buf, bufLen, hsMsg));
    VP_REACH(r == HITLS_SUCCESS && IS13, "accepted 1.3"); VP_REACH(r == HITLS_SUCCESS && !HASSCHEME, "accepted 1.1/TLCP");
    VP_REACH(r != HITLS_SUCCESS && G.verifies == 1, "bad signature");
}

/* ---- ServerKeyExchange signature ---- */
static uint8_t skeAt(uint32_t k) { return k < 32 ? c_crand[k & 31] : k < 64 ? c_srand[(k - 32) & 31] : c_buf[k - 64 < MSGMAX ? k - 64 : 0]; }
#define ECLEN (4u + c_buf[3])
#define ECSCHEME ((uint16_t)(c_buf[ECLEN] << 8 | c_buf[ECLEN + 1]))
#define SKESIG (ECLEN + (TLCP ? 0u : 2u))
#define SKESIGLEN ((uint32_t)(c_buf[SKESIG] << 8 | c_buf[SKESIG + 1]))
#define ANON (c_ctx.negotiatedInfo.cipherSuiteInfo.authAlg == HITLS_AUTH_NULL)
#define K_ParseServerKeyExchange(REQ, ENS) \
    REQ("ECDHE", c_kx.keyExchAlgo == HITLS_KEY_EXCH_ECDHE && c_ctx.negotiatedInfo.cipherSuiteInfo.kxAlg == HITLS_KEY_EXCH_ECDHE) \
    REQ("message", data == c_buf && len <= MSGMAX && hsMsg == &c_msg) \
    ENS("unless anonymous, accepted only with a verified signature over both randoms and the parameters", VP_IMP(VP_RET == HITLS_SUCCESS && !ANON, \
        G.verifies == 1 && G.sigOk && G.args && c_hs.peerCert != NULL && G.lenSeen == 64 + ECLEN && G.atK == skeAt(G.k))) \
    ENS("the signature scheme is one the client offered and its policy allows", VP_IMP(VP_RET == HITLS_SUCCESS && !ANON && !TLCP, \
        schemeOk(ECSCHEME) && G.scheme == ECSCHEME)) \
    ENS("the signature fills the rest of the message", VP_IMP(VP_RET == HITLS_SUCCESS && !ANON, \
        SKESIG + 2 + SKESIGLEN == len && SKESIGLEN > 0)) \
    ENS("the curve is named and its public key has the right length", VP_IMP(VP_RET == HITLS_SUCCESS, c_buf[0] == 3 && c_buf[3] == (G.keyOk ? G.hashLen : 0) && len >= ECLEN)) \
    ENS("an anonymous exchange carries no signature", VP_IMP(VP_RET == HITLS_SUCCESS && ANON, len == ECLEN)) \
    ENS("refusal is fatal", VP_IMP(VP_RET != HITLS_SUCCESS, G.alerts >= 1 && G.level == ALERT_LEVEL_FATAL))
int32_t ParseServerKeyExchange(TLS_Ctx *ctx, const uint8_t *data, uint32_t len, HS_Msg *hsMsg)
    VP_CONTRACT(K_ParseServerKeyExchange, G, c_msg, c_group, c_ctx.peerInfo.peerSignHashAlg, __CPROVER_object_whole(c_pool), __CPROVER_object_whole(c_pool2));
/*@unit
name: parse_server_key_exchange
entry: h_ske
enforce: ParseServerKeyExchange
level: bounded
bound: ServerKeyExchange messages of at most 48 bytes (elliptic curve key exchange)
def: MSGMAX=48 POOL=112 BLK=2
*/
void h_ske(void)
{
    setup();
    G.fromMsg = true;
    VP_BYTES(c_buf, MSGMAX);
    CFG.signAlgorithms = c_algs; CFG.signAlgorithmsSize = vp_range(0, 8);
    VP_BYTES(c_algs, 16);
    VP_BYTES(c_crand, 32); VP_BYTES(c_srand, 32);
    c_hs.clientRandom = c_crand; c_hs.serverRandom = c_srand;
    c_hs.peerCert = vp_bool() ? &c_pair : NULL;
    c_ctx.negotiatedInfo.cipherSuiteInfo.authAlg = vp_range(0, 12);
    c_kx.keyExchAlgo = HITLS_KEY_EXCH_ECDHE;
    c_ctx.negotiatedInfo.cipherSuiteInfo.kxAlg = HITLS_KEY_EXCH_ECDHE;
    memset(&c_msg, 0, sizeof(c_msg));
    TLS_Ctx *ctx = &c_ctx; const uint8_t *data = c_buf; uint32_t len = vp_range(0, MSGMAX); HS_Msg *hsMsg = &c_msg;
    G.sigLen = len >= 4 && SKESIG + 2 <= len ? SKESIGLEN : 0;
    G.oldMac = len >= 4 && SKESIG + 2 < len ? c_buf[SKESIG + 2] : 0;
    G.hashLen = vp_range(1, 133);
    G.askA = len >= 4 && ECLEN + 2 <= len ? ECSCHEME : 0;
    G.askB = c_ctx.negotiatedInfo.cipherSuiteInfo.signScheme;
    int32_t r;
    VP_CALL(K_ParseServerKeyExchange, r, ParseServerKeyExchange(ctx, data, len, hsMsg));
    VP_REACH(r == HITLS_SUCCESS && !ANON && !TLCP, "signed"); VP_REACH(r == HITLS_SUCCESS && ANON, "anonymous");
}

/* ---- the Finished value ---- */
uint32_t SAL_CRYPT_DigestSize(HITLS_HashAlgo a) { (void)a; return G.hashLen; }
int32_t SAL_CRYPT_PRF(CRYPT_KeyDeriveParameters *p, uint8_t *out, uint32_t n)
{
    static const char cl[] = "client finished", sl[] = "server finished";
    G.prfs++;
    VP_ASSUME(G.k < 15);
    if (p->secret != c_hs.masterKey || p->secretLen != 48 || p->labelLen != 15 || p->label[G.k] != (uint8_t)(G.fromMsg ? cl : sl)[G.k] ||
        p->seedLen != G.digLen || p->seed[G.k & 7] != c_dig[G.k & 7] || p->hashAlgo != c_ver.hashAlgo || out != c_vdata || n != 12) G.macArgs = false;
    if (!G.prfOk) return HITLS_CRYPT_ERR_DIGEST;
    VP_BYTES(c_vdata, 12);
    return HITLS_SUCCESS;
}
static bool saved(const uint8_t *d, uint32_t n)
{
    bool eq = n == 12;
    for (int i = 0; i < 12; i++) if (d[i] != c_vdata[i]) eq = false;
    return eq;
}
#define NI c_ctx.negotiatedInfo
#define K_VERIFY_CalcVerifyData(REQ, ENS) \
    REQ("master secret", masterSecret == c_hs.masterKey && masterSecretLen == 48) \
    REQ("entry state", G.fromMsg == isClient) \
    ENS("Finished = PRF(master secret, role label, transcript hash)[12]", VP_IMP(VP_RET == HITLS_SUCCESS, \
        G.prfs == 1 && G.prfOk && G.hashOk && G.macArgs && c_ver.verifyDataSize == 12)) \
    ENS("it is remembered for secure renegotiation", VP_IMP(VP_RET == HITLS_SUCCESS, \
        isClient ? saved(NI.clientVerifyData, NI.clientVerifyDataSize) : saved(NI.serverVerifyData, NI.serverVerifyDataSize))) \
    ENS("works whenever the primitives do", VP_IMP(G.hashOk && G.prfOk, VP_RET == HITLS_SUCCESS))
int32_t VERIFY_CalcVerifyData(TLS_Ctx *ctx, bool isClient, const uint8_t *masterSecret, uint32_t masterSecretLen)
    VP_CONTRACT(K_VERIFY_CalcVerifyData, G, __CPROVER_object_whole(c_vdata), c_ver.verifyDataSize, c_ctx.negotiatedInfo);
/*@unit
name: finished_value12
entry: h_fv12
enforce: VERIFY_CalcVerifyData
*/
void h_fv12(void)
{
    setup();
    TLS_Ctx *ctx = &c_ctx; bool isClient = vp_bool(); const uint8_t *masterSecret = c_hs.masterKey; uint32_t masterSecretLen = 48;
    G.fromMsg = isClient;
    int32_t r;
    VP_CALL(K_VERIFY_CalcVerifyData, r, VERIFY_CalcVerifyData(ctx, isClient, masterSecret, masterSecretLen));
    VP_REACH(r == HITLS_SUCCESS, "calculated");
}
int32_t HS_TLS13DeriveFinishedKey(HITLS_Lib_Ctx *lc, const char *at, HITLS_HashAlgo h, uint8_t *base, uint32_t baseLen, uint8_t *fin, uint32_t finLen,
    const uint8_t *prefix, uint32_t prefixLen)
{
    (void)lc; (void)at; (void)prefix;
    G.fins++;
    const uint8_t *want = c_ctx.phaState == PHA_REQUESTED ? (G.fromMsg ? c_ctx.clientAppTrafficSecret : c_ctx.serverAppTrafficSecret)
        : (G.fromMsg ? c_hs.clientHsTrafficSecret : c_hs.serverHsTrafficSecret);
    if (base != want || baseLen != G.hashLen || finLen != G.hashLen || h != NI.cipherSuiteInfo.hashAlg || (prefixLen != 0) != (bool)IS_DTLS13_CTX(&c_ctx)) G.macArgs = false;
    if (!G.keyOk) return HITLS_CRYPT_ERR_HKDF_EXPAND;
    for (uint32_t i = 0; i < 64; i++) if (i < finLen) fin[i] = (uint8_t)(0xA5 ^ i);
    return HITLS_SUCCESS;
}
int32_t SAL_CRYPT_Hmac(HITLS_Lib_Ctx *lc, const char *at, HITLS_HashAlgo h, const uint8_t *key, uint32_t keyLen, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    (void)lc; (void)at;
    G.hmacs++;
    VP_ASSUME(G.k < 64);
    if (h != NI.cipherSuiteInfo.hashAlg || keyLen != G.hashLen || inLen != G.digLen || (G.k < inLen && in[G.k] != c_dig[G.k]) ||
        (G.k < keyLen && key[G.k] != (uint8_t)(0xA5 ^ G.k)) || out != c_vdata || *outLen != G.hashLen) G.macArgs = false;
    return G.prfOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_HMAC;
}
#define K_VERIFY_Tls13CalcVerifyData(REQ, ENS) \
    REQ("entry state", G.fromMsg == isClient) \
    ENS("Finished = HMAC(finished key of the sender's secret, transcript hash), full hash length", VP_IMP(VP_RET == HITLS_SUCCESS, \
        G.fins == 1 && G.hmacs == 1 && G.keyOk && G.hashOk && G.prfOk && G.macArgs && c_ver.verifyDataSize == G.hashLen && G.hashLen > 0)) \
    ENS("works whenever the primitives do", VP_IMP(G.hashOk && G.prfOk && G.keyOk && G.hashLen > 0, VP_RET == HITLS_SUCCESS))
int32_t VERIFY_Tls13CalcVerifyData(TLS_Ctx *ctx, bool isClient)
    VP_CONTRACT(K_VERIFY_Tls13CalcVerifyData, G, c_ver.verifyDataSize, c_ver.verifyData, c_ver.verifyDataCapacity);
/*@unit
name: finished_value13
entry: h_fv13
enforce: VERIFY_Tls13CalcVerifyData
*/
void h_fv13(void)
{
    setup();
    TLS_Ctx *ctx = &c_ctx; bool isClient = vp_bool();
    G.fromMsg = isClient;
    int32_t r;
    VP_CALL(K_VERIFY_Tls13CalcVerifyData, r, VERIFY_Tls13CalcVerifyData(ctx, isClient));
    VP_REACH(r == HITLS_SUCCESS && c_ctx.phaState == PHA_REQUESTED, "post-handshake"); VP_REACH(r == HITLS_SUCCESS && isClient, "client");
}
#define K_VERIFY_GetVerifyData(REQ, ENS) \
    ENS("returns exactly the stored value", VP_IMP(VP_RET == HITLS_SUCCESS, *verifyDataLen == c_ver.verifyDataSize && \
        VP_IMP(G.k < c_ver.verifyDataSize, verifyData[G.k < 64 ? G.k : 0] == c_vdata[G.k < 64 ? G.k : 0]))) \
    ENS("refuses only an oversized value", (VP_RET == HITLS_SUCCESS) == (c_ver.verifyDataSize <= 64))
int32_t VERIFY_GetVerifyData(const VerifyCtx *ctx, uint8_t *verifyData, uint32_t *verifyDataLen)
    VP_CONTRACT(K_VERIFY_GetVerifyData, __CPROVER_object_whole(c_dig), *verifyDataLen);
/*@unit
name: finished_value_get
entry: h_fvg
enforce: VERIFY_GetVerifyData
*/
void h_fvg(void)
{
    setup();
    c_ver.verifyDataSize = vp_u32();
    VP_BYTES(c_vdata, 64);
    const VerifyCtx *ctx = &c_ver; uint8_t *verifyData = c_dig; uint32_t n = 64; uint32_t *verifyDataLen = &n; int32_t r;
    VP_CALL(K_VERIFY_GetVerifyData, r, VERIFY_GetVerifyData(ctx, verifyData, verifyDataLen));
    VP_REACH(r == HITLS_SUCCESS && n == 64, "full");
}
