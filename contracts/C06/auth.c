/* Peer authentication: processing of Certificate, ClientKeyExchange, CertificateVerify and Finished, and the states the
 * handshake moves to. Certificate parsing/validation, PRF, HMAC and signature primitives are assumed contracts. */
/*@defaults
src: tls/alert/src/alert.c tls/handshake/sm/src/hs_sm.c tls/handshake/recv/src/recv_certificate.c tls/handshake/recv/src/recv_client_key_exchange.c tls/handshake/recv/src/recv_cert_verify.c tls/handshake/recv/src/recv_finished.c tls/handshake/common/src/hs_common.c
unwind: 40
level: proof
assume: certificate parsing, chain validation (SAL_CERT_VerifyChain, see C08), key usage query and signature verification are callee contracts
assume: session storage, key switching and retransmission services do not change the handshake state
*/
#include "vp.h"
#include "hitls_build.h"
#include "tls.h"
#include "hs.h"
#include "hs_ctx.h"
#include "hs_msg.h"
#include "hs_common.h"
#include "hs_verify.h"
#include "hs_extensions.h"
#include "hs_cert.h"
#include "cert.h"
#include "cert_mgr.h"
#include "hs_kx.h"
#include "recv_process.h"
#include "change_cipher_spec.h"
#include "session_mgr.h"
#include "crypt.h"
#include "rec.h"
#include "hitls_error.h"
#include "alert.h"

static struct {
    uint32_t alerts, level, alert;
    uint32_t parses, signChecks, encChecks, signChains, encChains, calcs, ccsReady, ccsActive, ccsExit, frees, switches;
    uint32_t ku;                                             /* key usages of the peer certificate (bit per command) */
    bool parseOk, checkOk, encOk, kuOk, sigAlgOk, chainOk, encChainOk, calcOk, swOk, kxOk, sessOk, expectOk, calcClient, calcKey, order;
    uint32_t ctype, old, oldAlerts, kxs;
    uint32_t k;
    uint8_t oldReadSub;
    bool swOut, swSecretC, swSecretS;
    uint32_t masters, keys, psks, pskLen, selects, inserts, hashLen, oldPha;
    bool masterOk, keysOk, isPsk;
} G;
static TLS_Ctx c_ctx;
static HS_Ctx c_hs;
static KeyExchCtx c_kx;
static VerifyCtx c_ver;
static HS_Msg c_msg;
static CERT_Pair c_pair;
static CERT_Item c_item;
static CERT_MgrCtx c_mgr;
static uint8_t c_x509, c_enc, c_reqA[8], c_reqB[8];
static bool finOk(void);
static PskInfo c_psk;
static uint8_t c_sess;
static uint8_t c_vdata[64], c_rdata[64];

static void cb_alert(const TLS_Ctx *c, ALERT_Level l, ALERT_Description d) { (void)c; G.alerts++; G.level = l; G.alert = d; }
static int32_t cb_ccs(TLS_Ctx *c, CCS_Cmd cmd)
{
    (void)c;
    if (cmd == CCS_CMD_RECV_READY) G.ccsReady++;
    if (cmd == CCS_CMD_RECV_ACTIVE_CIPHER_SPEC) G.ccsActive++;
    if (cmd == CCS_CMD_RECV_EXIT_READY) G.ccsExit++;
    return HITLS_SUCCESS;
}
void REC_Dtls13AckListClear(TLS_Ctx *c, REC_Dtls13AckListType t) { (void)c; (void)t; }
void RecTryFreeRecBuf(TLS_Ctx *c, bool o) { (void)c; (void)o; }
bool REC_RetransmitIsEmpty(const REC_Ctx *c) { (void)c; return vp_bool(); }
void REC_RetransmitListRemove(REC_Ctx *c, uint8_t t) { (void)c; (void)t; }
void REC_RetransmitListClean(REC_Ctx *c) { (void)c; }
int32_t REC_RetransmitListFlush(TLS_Ctx *c) { (void)c; return vp_bool() ? HITLS_SUCCESS : HITLS_REC_NORMAL_IO_BUSY; }
void HS_StopTimer(TLS_Ctx *c) { (void)c; }

/* ---- assumed certificate services ---- */
int32_t SAL_CERT_ParseCertChain(HITLS_Ctx *c, CERT_Item *item, CERT_Pair **p)
{
    (void)c;
    VP_ASSERT(item == &c_item, "the received certificate list is the one parsed");
    G.parses++;
    if (!G.parseOk) return HITLS_CERT_ERR_PARSE_MSG;
    *p = &c_pair;
    return HITLS_SUCCESS;
}
uint8_t CFG_GetCertTypeByCipherSuite(uint16_t s) { (void)s; return (uint8_t)G.ctype; }
int32_t HS_CheckCertInfo(HITLS_Ctx *c, const CERT_ExpectInfo *e, HITLS_CERT_X509 *cert, bool self, bool signCheck)
{
    bool sign = signCheck;
    if (self) G.expectOk = false;
    if (sign) {
        if (cert != c_pair.cert || e->signSchemeList != c->config.tlsConfig.signAlgorithms ||
            e->signSchemeNum != c->config.tlsConfig.signAlgorithmsSize ||
            e->certType != (c->isClient ? (CERT_Type)G.ctype : CERT_TYPE_UNKNOWN)) G.expectOk = false;
        G.signChecks++;
        return G.checkOk ? HITLS_SUCCESS : HITLS_CERT_ERR_NO_SIGN_SCHEME_MATCH;
    }
    if (cert != c_pair.encCert || e->certType != (CERT_Type)G.ctype) G.expectOk = false;
    G.encChecks++;
    return G.encOk ? HITLS_SUCCESS : HITLS_CERT_ERR_EXP_CERT;
}
#define KU_SIGN 1u
#define KU_KEYENC 2u
bool SAL_CERT_CheckCertKeyUsage(HITLS_Ctx *c, HITLS_CERT_X509 *cert, HITLS_CERT_CtrlCmd u)
{
    (void)c;
    if (cert != c_pair.cert) return false;
    if (u == CERT_KEY_CTRL_IS_DIGITAL_SIGN_USAGE) return (G.ku & KU_SIGN) != 0;
    if (u == CERT_KEY_CTRL_IS_KEYENC_USAGE) return (G.ku & KU_KEYENC) != 0;
    return vp_bool();
}
int32_t SAL_CERT_X509Ctrl(HITLS_Config *cfg, HITLS_CERT_X509 *cert, HITLS_CERT_CtrlCmd cmd, void *in, void *out)
{
    (void)cfg; (void)in; (void)cert;
    if (cmd == CERT_CTRL_GET_SIGN_ALGO) { *(int32_t *)out = G.sigAlgOk ? CERT_SIG_SCHEME_SM2_SM3 : 0; return HITLS_SUCCESS; }
    return HITLS_CERT_ERR_ENCODE;
}
int32_t SAL_CERT_VerifyCertChain(HITLS_Ctx *c, CERT_Pair *p, bool enc)
{
    (void)c;
    if (p != &c_pair || G.signChecks == 0) G.order = false;
    if (enc) { G.encChains++; return G.encChainOk ? HITLS_SUCCESS : HITLS_CERT_ERR_VERIFY_CERT_CHAIN; }
    G.signChains++;
    return G.chainOk ? HITLS_SUCCESS : HITLS_CERT_ERR_VERIFY_CERT_CHAIN;
}
void SAL_CERT_PairFree(CERT_MgrCtx *m, CERT_Pair *p) { (void)m; (void)p; G.frees++; }
int32_t VERIFY_CalcVerifyData(TLS_Ctx *c, bool isClient, const uint8_t *ms, uint32_t l)
{
    G.calcs++; G.calcClient = isClient; G.calcKey = ms == c->hsCtx->masterKey && l == MASTER_SECRET_LEN;
    return G.calcOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_DIGEST;
}
int32_t VERIFY_Tls13CalcVerifyData(TLS_Ctx *c, bool isClient)
{
    (void)c; G.calcs++; G.calcClient = isClient; G.calcKey = true;
    return G.calcOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_DIGEST;
}

#define VER c_ctx.negotiatedInfo.version
#define IS13 (VER == HITLS_VERSION_TLS13 || VER == HITLS_VERSION_DTLS13)
#define TLCP (VER == HITLS_VERSION_TLCP_DTLCP11)
#define CFG c_ctx.config.tlsConfig
#define KX c_ctx.negotiatedInfo.cipherSuiteInfo.kxAlg
#define CLIENT c_ctx.isClient
#define CERT c_msg.body.certificate
#define ST c_hs.state
#define FATAL(n) (G.alerts == (n) && G.level == ALERT_LEVEL_FATAL)

static bool needEnc(void) { return TLCP && (CLIENT || KX == HITLS_KEY_EXCH_ECDHE); }
static bool kuOk(void)
{
    if (TLCP || !CFG.needCheckKeyUsage) return true;
    if (IS13 || !CLIENT) return (G.ku & KU_SIGN) != 0;
    switch (KX) {
        case HITLS_KEY_EXCH_DHE: case HITLS_KEY_EXCH_ECDHE: case HITLS_KEY_EXCH_ECDHE_PSK: case HITLS_KEY_EXCH_DHE_PSK:
            return (G.ku & KU_SIGN) != 0;
        case HITLS_KEY_EXCH_RSA: case HITLS_KEY_EXCH_ECC: case HITLS_KEY_EXCH_RSA_PSK:
            return (G.ku & KU_KEYENC) != 0;
        default: return false;
    }
}
static bool certOk(void)
{
    if (!G.parseOk || !kuOk() || !G.checkOk) return false;
    if (CLIENT && (c_ctx.negotiatedInfo.cipherSuiteInfo.cipherSuite == HITLS_SM4_GCM_SM3 ||
        c_ctx.negotiatedInfo.cipherSuiteInfo.cipherSuite == HITLS_SM4_CCM_SM3) && !G.sigAlgOk) return false;
    return !needEnc() || (c_pair.encCert != NULL && G.encOk);
}
static bool chainOk(void) { return G.chainOk && (!needEnc() || G.encChainOk); }
#define OPTIONAL (!CLIENT && CFG.isSupportClientVerify && CFG.isSupportNoClientCert)
#define SKE_NEEDED ((KX == HITLS_KEY_EXCH_PSK || KX == HITLS_KEY_EXCH_RSA_PSK) || TLCP || \
    (KX != HITLS_KEY_EXCH_ECDH && KX != HITLS_KEY_EXCH_DH && KX != HITLS_KEY_EXCH_RSA))

#define K_CERT(ENS, NONEXT, NEXT, PRE) \
    ENS("an empty certificate list is accepted only by a server configured to allow it", VP_IMP((PRE) && CERT.certCount == 0 && VP_RET == HITLS_SUCCESS, \
        OPTIONAL && c_hs.peerCert == NULL && ST == (NONEXT))) \
    ENS("an allowed empty certificate list is accepted", VP_IMP((PRE) && CERT.certCount == 0 && OPTIONAL, VP_RET == HITLS_SUCCESS || (IS13 && !G.calcOk))) \
    ENS("a certificate is accepted only after parsing, usage and type checks", VP_IMP(CERT.certCount != 0 && VP_RET == HITLS_SUCCESS, \
        certOk() && G.parses == 1 && G.signChecks == 1 && G.expectOk && c_hs.peerCert == &c_pair)) \
    ENS("a certificate is accepted only if its chain verifies or verification is off", VP_IMP(CERT.certCount != 0 && VP_RET == HITLS_SUCCESS, \
        CFG.isSupportVerifyNone || (G.signChains == 1 && chainOk() && G.order && (!needEnc() || G.encChains == 1)))) \
    ENS("after a certificate the next step is the one that uses it", VP_IMP(CERT.certCount != 0 && VP_RET == HITLS_SUCCESS, ST == (NEXT))) \
    ENS("a good certificate is accepted", VP_IMP((PRE) && CERT.certCount != 0 && certOk() && (chainOk() || CFG.isSupportVerifyNone), VP_RET == HITLS_SUCCESS)) \
    ENS("a refused certificate is answered with one fatal alert and leaves the state", VP_IMP(VP_RET != HITLS_SUCCESS, FATAL(1) && ST == G.old)) \
    ENS("an accepted certificate raises no alert", VP_IMP(VP_RET == HITLS_SUCCESS, G.alerts == 0))

#define K_RecvCertificateProcess(REQ, ENS) \
    REQ("negotiated before TLS 1.3", !IS13) \
    K_CERT(ENS, TRY_RECV_CLIENT_KEY_EXCHANGE, CLIENT ? (SKE_NEEDED ? TRY_RECV_SERVER_KEY_EXCHANGE : TRY_RECV_CERTIFICATE_REQUEST) : TRY_RECV_CLIENT_KEY_EXCHANGE, true)
int32_t RecvCertificateProcess(TLS_Ctx *ctx, const HS_Msg *msg)
    VP_CONTRACT(K_RecvCertificateProcess, G, c_hs.state, c_hs.peerCert);

#define REQCTX_SAME (c_ctx.certificateReqCtxSize == CERT.certificateReqCtxSize)
#define REQCTX_PRE ((c_ctx.phaState == PHA_REQUESTED || CERT.certificateReqCtxSize == 0) && (c_ctx.certificateReqCtxSize == 0 || REQCTX_SAME))
static bool reqEq(void)
{
    bool r = true;
    for (int i = 0; i < 8; i++) if ((uint32_t)i < c_ctx.certificateReqCtxSize && c_reqA[i] != c_reqB[i]) r = false;
    return r;
}
#define EXTOK ((CERT.extensionTypeMask & ~(uint64_t)HS_EX_TYPE_TLS1_3_ALLOWED_OF_CERTIFICATE) == 0)
#define K_Tls13RecvCertificateProcess(REQ, ENS) \
    REQ("TLS 1.3", IS13) \
    K_CERT(ENS, TRY_RECV_FINISH, TRY_RECV_CERTIFICATE_VERIFY, REQCTX_PRE && EXTOK && (c_ctx.certificateReqCtxSize == 0 || reqEq())) \
    ENS("a certificate answers exactly the pending request", VP_IMP(VP_RET == HITLS_SUCCESS, REQCTX_PRE && (c_ctx.certificateReqCtxSize == 0 || reqEq()))) \
    ENS("unsolicited certificate extensions are refused", VP_IMP(VP_RET == HITLS_SUCCESS, EXTOK)) \
    ENS("without a certificate the client's Finished is expected under the client's key", VP_IMP(VP_RET == HITLS_SUCCESS && CERT.certCount == 0, \
        G.calcs == 1 && G.calcClient && G.calcOk))
int32_t Tls13RecvCertificateProcess(TLS_Ctx *ctx, const HS_Msg *msg)
    VP_CONTRACT(K_Tls13RecvCertificateProcess, G, c_hs.state, c_hs.peerCert, c_ctx.plainAlertForbid);

static void setup(void)
{
    memset(&G, 0, sizeof(G));
    c_ctx.hsCtx = &c_hs;
    c_hs.kxCtx = &c_kx;
    c_hs.verifyCtx = &c_ver;
    c_ctx.method.sendAlert = cb_alert;
    c_ctx.method.ctrlCCS = cb_ccs;
    c_ctx.recCtx = NULL;
    CFG.certMgrCtx = &c_mgr;
    G.expectOk = true; G.order = true;
    G.parseOk = vp_bool(); G.checkOk = vp_bool(); G.encOk = vp_bool(); G.sigAlgOk = vp_bool();
    G.chainOk = vp_bool(); G.encChainOk = vp_bool(); G.calcOk = vp_bool(); G.swOk = vp_bool(); G.kxOk = vp_bool(); G.sessOk = vp_bool();
    G.ku = vp_range(0, 3);
    G.ctype = vp_range(1, 4);
    c_ctx.isClient = vp_bool();
    c_ctx.state = vp_range(0, CM_STATE_END - 1);
    c_ctx.preState = vp_range(0, CM_STATE_END - 1);
    c_ctx.phaState = vp_range(0, 3);
    c_ctx.negotiatedInfo.version = vp_u16();
    c_ctx.negotiatedInfo.cipherSuiteInfo.cipherSuite = vp_u16();
    c_ctx.negotiatedInfo.isResume = vp_bool();
    c_ctx.negotiatedInfo.isTicket = vp_bool();
    KX = vp_range(0, 16);
    CFG.needCheckKeyUsage = vp_bool();
    CFG.isSupportClientVerify = vp_bool();
    CFG.isSupportNoClientCert = vp_bool();
    CFG.isSupportVerifyNone = vp_bool();
    CFG.signAlgorithmsSize = vp_u32();
    CFG.modeSupport = vp_u32();
    CFG.ticketNums = vp_u32();
    c_hs.sentTickets = vp_u32();
    c_hs.isNeedClientCert = vp_bool();
    c_hs.state = vp_range(0, 40);
    G.old = c_hs.state;
    c_pair.cert = (HITLS_CERT_X509 *)&c_x509;
    c_pair.encCert = vp_bool() ? (HITLS_CERT_X509 *)&c_enc : NULL;
    c_hs.peerCert = NULL;
}
static void cert_setup(void)
{
    setup();
    CERT.certCount = vp_u32();
    CERT.cert = CERT.certCount == 0 ? NULL : &c_item;
    CERT.extensionTypeMask = vp_u64();
    CERT.certificateReqCtxSize = vp_range(0, 8);
    CERT.certificateReqCtx = c_reqB;
    c_ctx.certificateReqCtxSize = vp_range(0, 8);
    c_ctx.certificateReqCtx = c_reqA;
    VP_BYTES(c_reqA, 8); VP_BYTES(c_reqB, 8);
}
/*@unit
name: auth_certificate
entry: h_cert
enforce: RecvCertificateProcess
*/
void h_cert(void)
{
    cert_setup();
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg;
    int32_t r;
    VP_CALL(K_RecvCertificateProcess, r, RecvCertificateProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && CERT.certCount != 0 && TLCP, "TLCP accepted");
    VP_REACH(r == HITLS_SUCCESS && CERT.certCount != 0 && CLIENT && !CFG.isSupportVerifyNone, "client accepts");
    VP_REACH(r == HITLS_SUCCESS && CERT.certCount == 0, "empty accepted");
    VP_REACH(r != HITLS_SUCCESS && G.signChains == 1, "chain refused");
}
/*@unit
name: auth_certificate13
entry: h_cert13
enforce: Tls13RecvCertificateProcess
*/
void h_cert13(void)
{
    cert_setup();
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg;
    int32_t r;
    VP_CALL(K_Tls13RecvCertificateProcess, r, Tls13RecvCertificateProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && CERT.certCount != 0 && c_ctx.certificateReqCtxSize > 0, "PHA certificate accepted");
    VP_REACH(r == HITLS_SUCCESS && CERT.certCount != 0 && CLIENT && !CFG.isSupportVerifyNone, "client accepts");
    VP_REACH(r == HITLS_SUCCESS && CERT.certCount == 0, "empty accepted");
    VP_REACH(r != HITLS_SUCCESS && G.signChains == 1, "chain refused");
}

/* ---- key exchange, CertificateVerify processing ---- */
int32_t HS_ProcessClientKxMsgEcdhe(TLS_Ctx *c, const ClientKeyExchangeMsg *m) { (void)c; (void)m; G.kxs++; return G.kxOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_CALC_SHARED_KEY; }
int32_t HS_ProcessClientKxMsgDhe(TLS_Ctx *c, const ClientKeyExchangeMsg *m) { (void)c; (void)m; G.kxs++; return G.kxOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_CALC_SHARED_KEY; }
int32_t HS_ProcessClientKxMsgRsa(TLS_Ctx *c, const ClientKeyExchangeMsg *m) { (void)c; (void)m; G.kxs++; return G.kxOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_CALC_SHARED_KEY; }
int32_t HS_ProcessClientKxMsgSm2(TLS_Ctx *c, const ClientKeyExchangeMsg *m) { (void)c; (void)m; G.kxs++; return G.kxOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_CALC_SHARED_KEY; }
int32_t HS_GenerateMasterSecret(TLS_Ctx *c) { (void)c; G.masters++; if (G.kxs == 0 && c_kx.keyExchAlgo != HITLS_KEY_EXCH_PSK) G.order = false; return G.masterOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_CALC_SHARED_KEY; }
int32_t HS_KeyEstablish(TLS_Ctx *c, bool isClient) { G.keys++; if (G.masters == 0 || isClient != c->isClient) G.order = false; return G.keysOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_CALC_SHARED_KEY; }
int32_t HS_SetSctpAuthKey(TLS_Ctx *c) { (void)c; return HITLS_SUCCESS; }
static uint32_t cb_psk(HITLS_Ctx *c, const uint8_t *identity, uint8_t *psk, uint32_t max)
{
    (void)c; (void)identity; (void)psk; (void)max;
    G.psks++;
    return G.pskLen;
}
int32_t ProcessCertCallback(TLS_Ctx *c) { (void)c; return G.kxOk ? HITLS_SUCCESS : HITLS_CALLBACK_CERT_RETRY; }
int32_t HS_SelectCertByInfo(HITLS_Ctx *c, CERT_ExpectInfo *i)
{
    G.selects++;
    if (i->signSchemeList != c->peerInfo.signatureAlgorithms || i->signSchemeNum != c->peerInfo.signatureAlgorithmsSize) G.expectOk = false;
    return vp_bool() ? HITLS_SUCCESS : HITLS_CERT_ERR_SELECT_CERTIFICATE;
}

#define PROVEN (c_hs.isNeedClientCert && c_hs.peerCert != NULL)
#define K_ServerRecvClientKxProcess(REQ, ENS) \
    REQ("server before TLS 1.3", !CLIENT && !IS13) \
    ENS("a client that sent a certificate must prove its key next", VP_IMP(VP_RET == HITLS_SUCCESS && PROVEN, \
        ST == TRY_RECV_CERTIFICATE_VERIFY && G.ccsReady == 0 && G.ccsActive == 0)) \
    ENS("otherwise its Finished is expected, keyed by the master secret, after ChangeCipherSpec", VP_IMP(VP_RET == HITLS_SUCCESS && !PROVEN, \
        ST == TRY_RECV_FINISH && G.calcs == 1 && G.calcClient && G.calcKey && G.calcOk && G.ccsReady == 1 && G.ccsActive == 1)) \
    ENS("no progress without a processed key exchange and established keys", VP_IMP(VP_RET == HITLS_SUCCESS, \
        (c_kx.keyExchAlgo == HITLS_KEY_EXCH_PSK || G.kxs == 1) && G.kxOk == (G.kxs == 1 || G.kxOk) && G.masters == 1 && G.keys == 1 && G.order && G.masterOk && G.keysOk)) \
    ENS("no progress without the pre-shared key", VP_IMP(VP_RET == HITLS_SUCCESS && G.isPsk, \
        G.psks == 1 && G.pskLen >= 1 && G.pskLen <= HS_PSK_MAX_LEN && c_psk.pskLen == G.pskLen)) \
    ENS("failure leaves the state and enables nothing", VP_IMP(VP_RET != HITLS_SUCCESS, ST == G.old && G.ccsReady == 0 && G.ccsActive == 0))
int32_t ServerRecvClientKxProcess(TLS_Ctx *ctx, const HS_Msg *msg)
    VP_CONTRACT(K_ServerRecvClientKxProcess, G, c_hs.state, c_psk);

#define K_ServerRecvClientCertVerifyProcess(REQ, ENS) \
    REQ("server before TLS 1.3", !CLIENT && !IS13) \
    ENS("after a valid CertificateVerify the Finished is expected, keyed by the master secret, after ChangeCipherSpec", VP_IMP(VP_RET == HITLS_SUCCESS, \
        ST == TRY_RECV_FINISH && G.calcs == 1 && G.calcClient && G.calcKey && G.calcOk && G.ccsReady == 1 && G.ccsActive == 1 && G.alerts == 0)) \
    ENS("failure leaves the state and enables nothing", VP_IMP(VP_RET != HITLS_SUCCESS, ST == G.old && G.ccsReady == 0 && G.ccsActive == 0 && FATAL(1)))
int32_t ServerRecvClientCertVerifyProcess(TLS_Ctx *ctx)
    VP_CONTRACT(K_ServerRecvClientCertVerifyProcess, G, c_hs.state);

#define K_Tls13RecvCertVerifyProcess(REQ, ENS) \
    REQ("TLS 1.3", IS13) \
    REQ("called with a fresh message or resumed after a callback retry", c_hs.readSubState == TLS_PROCESS_STATE_A || c_hs.readSubState == TLS_PROCESS_STATE_B) \
    REQ("entry state", G.oldReadSub == c_hs.readSubState) \
    ENS("the peer's Finished is expected next under the peer's key", VP_IMP(VP_RET == HITLS_SUCCESS, ST == TRY_RECV_FINISH && \
        VP_IMP(G.oldReadSub == TLS_PROCESS_STATE_A, G.calcs == 1 && G.calcOk && G.calcClient == !CLIENT))) \
    ENS("the verify data is calculated once", G.calcs == (G.oldReadSub == TLS_PROCESS_STATE_A)) \
    ENS("failure leaves the state", VP_IMP(VP_RET != HITLS_SUCCESS, ST == G.old))
int32_t Tls13RecvCertVerifyProcess(TLS_Ctx *ctx)
    VP_CONTRACT(K_Tls13RecvCertVerifyProcess, G, c_hs.state, c_hs.readSubState);

/*@unit
name: auth_client_key_exchange
entry: h_ckx
enforce: ServerRecvClientKxProcess
*/
void h_ckx(void)
{
    setup();
    CLIENT = false;
    G.masterOk = vp_bool(); G.keysOk = vp_bool(); G.pskLen = vp_u32();
    c_kx.keyExchAlgo = vp_range(0, 16);
    G.isPsk = KX == HITLS_KEY_EXCH_ECDHE_PSK || KX == HITLS_KEY_EXCH_DHE_PSK || KX == HITLS_KEY_EXCH_RSA_PSK || KX == HITLS_KEY_EXCH_PSK;
    c_kx.pskInfo = &c_psk;
    memset(&c_psk, 0, sizeof(c_psk));
    CFG.pskServerCb = vp_bool() ? cb_psk : NULL;
    c_hs.peerCert = vp_bool() ? &c_pair : NULL;
    c_msg.body.clientKeyExchange.pskIdentity = NULL;
    c_msg.body.clientKeyExchange.pskIdentitySize = 0;
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg;
    int32_t r;
    VP_CALL(K_ServerRecvClientKxProcess, r, ServerRecvClientKxProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && PROVEN, "certificate verify next");
    VP_REACH(r == HITLS_SUCCESS && !PROVEN && G.isPsk, "finished next");
    VP_REACH(r != HITLS_SUCCESS, "failure");
}
/*@unit
name: auth_client_cert_verify
entry: h_ccv
enforce: ServerRecvClientCertVerifyProcess
*/
void h_ccv(void)
{
    setup();
    CLIENT = false;
    TLS_Ctx *ctx = &c_ctx;
    int32_t r;
    VP_CALL(K_ServerRecvClientCertVerifyProcess, r, ServerRecvClientCertVerifyProcess(ctx));
    VP_REACH(r == HITLS_SUCCESS, "accepted");
}
/*@unit
name: auth_cert_verify13
entry: h_cv13
enforce: Tls13RecvCertVerifyProcess
*/
void h_cv13(void)
{
    setup();
    c_hs.readSubState = vp_range(0, 3);
    G.oldReadSub = c_hs.readSubState;
    TLS_Ctx *ctx = &c_ctx;
    int32_t r;
    VP_CALL(K_Tls13RecvCertVerifyProcess, r, Tls13RecvCertVerifyProcess(ctx));
    VP_REACH(r == HITLS_SUCCESS && G.selects == 1, "client certificate selected");
    VP_REACH(r == HITLS_SUCCESS && !CLIENT, "server");
}

/* ---- Finished ---- */
int32_t VERIFY_GetVerifyData(const VerifyCtx *v, uint8_t *d, uint32_t *n)   /* contract proved in verify.c */
{
    if (v->verifyDataSize > MAX_DIGEST_SIZE) return HITLS_MSG_HANDLE_INCORRECT_DIGEST_LEN;
    for (uint32_t i = 0; i < MAX_DIGEST_SIZE; i++) if (i < v->verifyDataSize) d[i] = v->verifyData[i];
    *n = v->verifyDataSize;
    return HITLS_SUCCESS;
}
int64_t BSL_SAL_CurrentSysTimeGet(void) { return vp_i64(); }
uint32_t SESSMGR_GetCacheMode(TLS_SessionMgr *m) { (void)m; return vp_u32(); }
uint64_t SESSMGR_GetTimeout(TLS_SessionMgr *m) { (void)m; return vp_u64(); }
void SESSMGR_ClearTimeout(HITLS_Config *c, uint64_t t) { (void)c; (void)t; }
void SESSMGR_InsertSession(TLS_SessionMgr *m, HITLS_Session *s, bool st) { (void)m; (void)s; (void)st; G.inserts++; if (!finOk()) G.order = false; }
int32_t SESSMGR_GernerateSessionId(TLS_Ctx *c, uint8_t *id, uint32_t n) { (void)c; (void)id; (void)n; return G.sessOk ? HITLS_SUCCESS : HITLS_SESS_ERR_SESSION_ID_GENRATE; }
HITLS_Session *HITLS_SESS_New(void) { return G.sessOk ? (HITLS_Session *)&c_sess : NULL; }
void HITLS_SESS_Free(HITLS_Session *s) { (void)s; }
void HITLS_SESS_UpRef(HITLS_Session *s) { (void)s; }
static int32_t sess(void) { return G.sessOk ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
int32_t HITLS_SESS_SetMasterKey(HITLS_Session *s, const uint8_t *k, uint32_t n) { (void)s; (void)n; if (k != c_hs.masterKey) G.order = false; return sess(); }
int32_t HITLS_SESS_SetProtocolVersion(HITLS_Session *s, uint16_t v) { (void)s; if (v != VER) G.order = false; return sess(); }
int32_t HITLS_SESS_SetCipherSuite(HITLS_Session *s, uint16_t v) { (void)s; if (v != c_ctx.negotiatedInfo.cipherSuiteInfo.cipherSuite) G.order = false; return sess(); }
int32_t HITLS_SESS_SetSessionIdCtx(HITLS_Session *s, uint8_t *p, uint32_t n) { (void)s; (void)p; (void)n; return sess(); }
int32_t HITLS_SESS_SetSessionId(HITLS_Session *s, uint8_t *p, uint32_t n) { (void)s; (void)p; (void)n; return sess(); }
int32_t HITLS_SESS_SetHaveExtMasterSecret(HITLS_Session *s, uint8_t v) { (void)s; if (v != (uint8_t)c_ctx.negotiatedInfo.isExtendedMasterSecret) G.order = false; return sess(); }
int32_t HITLS_SESS_SetTimeout(HITLS_Session *s, uint64_t t) { (void)s; (void)t; return sess(); }
int32_t SESS_SetPeerCert(HITLS_Session *s, CERT_Pair *p) { (void)s; (void)p; return sess(); }
int32_t SESS_SetTicket(HITLS_Session *s, uint8_t *t, uint32_t n) { (void)s; (void)t; (void)n; return sess(); }
int32_t SESS_SetHostName(HITLS_Session *s, uint32_t n, uint8_t *h) { (void)s; (void)h; (void)n; return sess(); }
uint32_t SAL_CRYPT_DigestSize(HITLS_HashAlgo a) { (void)a; return G.hashLen; }
HITLS_HASH_Ctx *SAL_CRYPT_DigestCopy(HITLS_HASH_Ctx *h) { (void)h; return G.kxOk ? (HITLS_HASH_Ctx *)&c_enc : NULL; }
void SAL_CRYPT_DigestFree(HITLS_HASH_Ctx *h) { (void)h; }
int32_t HS_SwitchTrafficKey(TLS_Ctx *c, uint8_t *s, uint32_t n, bool out)
{
    G.switches++; G.swOut = out;
    G.swSecretC = s == c->clientAppTrafficSecret; G.swSecretS = s == c->serverAppTrafficSecret;
    if (!finOk() || n != G.hashLen) G.order = false;
    return G.swOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_CALC_SHARED_KEY;
}
int32_t HS_TLS13DeriveResumptionMasterSecret(TLS_Ctx *c) { (void)c; if (!finOk()) G.order = false; return G.kxOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_HKDF_EXPAND; }
int32_t HS_TLS13CalcServerFinishProcessSecret(TLS_Ctx *c) { (void)c; if (!finOk()) G.order = false; return G.kxOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_HKDF_EXPAND; }

#define FIN c_msg.body.finished
#define RESUME c_ctx.negotiatedInfo.isResume
#define FLUSH_ONLY (c_ctx.preState == CM_STATE_TRANSPORTING && c_ctx.state == CM_STATE_HANDSHAKING)
static bool finOk(void)
{
    if (FIN.verifyDataSize == 0 || FIN.verifyDataSize != c_ver.verifyDataSize || FIN.verifyDataSize > MAX_DIGEST_SIZE) return false;
    bool eq = true;
    for (uint32_t i = 0; i < MAX_DIGEST_SIZE; i++) if (i < FIN.verifyDataSize && c_rdata[i] != c_vdata[i]) eq = false;
    return eq;
}
#define K_FIN(REQ, ENS, PRE) \
    REQ("message", FIN.verifyData == c_rdata && c_ver.verifyData == c_vdata && FIN.verifyDataSize <= 64) \
    ENS("Finished is accepted only if it equals the calculated verify data", VP_IMP((PRE) && VP_RET == HITLS_SUCCESS, finOk())) \
    ENS("a wrong Finished is refused with a fatal alert, no key switch, no stored session and no state change", VP_IMP((PRE) && !finOk(), \
        VP_RET != HITLS_SUCCESS && FATAL(1) && (G.alert == ALERT_DECRYPT_ERROR || G.alert == ALERT_DECODE_ERROR || \
            (c_ver.verifyDataSize > MAX_DIGEST_SIZE && G.alert == ALERT_INTERNAL_ERROR)) && \
        G.switches == 0 && G.inserts == 0 && ST == G.old && c_ctx.phaState == G.oldPha)) \
    ENS("nothing depends on Finished before it is verified", G.order) \
    ENS("failure leaves the state", VP_IMP(VP_RET != HITLS_SUCCESS, ST == G.old))
#define FIN_ASSIGNS G, c_hs.state, c_hs.sessionId, c_hs.sessionIdSize, c_hs.peerCert, c_ctx.session, c_ctx.phaState, c_ctx.phaHash, c_ctx.plainAlertForbid
#define SRV12 (RESUME ? TLS_CONNECTED : c_ctx.negotiatedInfo.isTicket ? TRY_SEND_NEW_SESSION_TICKET : TRY_SEND_CHANGE_CIPHER_SPEC)
#define CLI12 (RESUME ? TRY_SEND_CHANGE_CIPHER_SPEC : TLS_CONNECTED)
#define GOODFIN(PRE, NEXT) VP_IMP((PRE) && VP_RET == HITLS_SUCCESS, ST == (NEXT) && G.alerts == 0)

#define K_DtlsRecvFinishedProcess(REQ, ENS) \
    REQ("before TLS 1.3", !IS13) \
    K_FIN(REQ, ENS, !FLUSH_ONLY) \
    ENS("a verified Finished leads to the peer's second flight or the end", GOODFIN(!FLUSH_ONLY, CLIENT ? CLI12 : SRV12)) \
    ENS("a repeated Finished only retransmits", VP_IMP(FLUSH_ONLY, G.inserts == 0 && (ST == G.old || ST == TLS_CONNECTED)))
int32_t DtlsRecvFinishedProcess(TLS_Ctx *ctx, const HS_Msg *msg) VP_CONTRACT(K_DtlsRecvFinishedProcess, FIN_ASSIGNS);
#define K_Tls12ClientRecvFinishedProcess(REQ, ENS) \
    REQ("client before TLS 1.3", CLIENT && !IS13) \
    K_FIN(REQ, ENS, true) \
    ENS("a verified Finished leads to the own second flight or the end", GOODFIN(true, CLI12)) \
    ENS("no ChangeCipherSpec is accepted afterwards", VP_IMP(VP_RET == HITLS_SUCCESS, G.ccsExit >= 1))
int32_t Tls12ClientRecvFinishedProcess(TLS_Ctx *ctx, const HS_Msg *msg) VP_CONTRACT(K_Tls12ClientRecvFinishedProcess, FIN_ASSIGNS);
#define K_Tls12ServerRecvFinishedProcess(REQ, ENS) \
    REQ("server before TLS 1.3", !CLIENT && !IS13) \
    K_FIN(REQ, ENS, true) \
    ENS("a verified Finished leads to the own second flight or the end", GOODFIN(true, SRV12))
int32_t Tls12ServerRecvFinishedProcess(TLS_Ctx *ctx, const HS_Msg *msg) VP_CONTRACT(K_Tls12ServerRecvFinishedProcess, FIN_ASSIGNS);
#define K_Tls13ClientRecvFinishedProcess(REQ, ENS) \
    REQ("client in TLS 1.3", CLIENT && IS13) \
    K_FIN(REQ, ENS, true) \
    ENS("a verified server Finished switches reading to the server's application secret", VP_IMP(VP_RET == HITLS_SUCCESS, \
        G.switches == 1 && G.swOk && G.kxOk && !G.swOut && G.swSecretS)) \
    ENS("the client answers with its certificate if requested, else its Finished", GOODFIN(true, c_hs.isNeedClientCert ? TRY_SEND_CERTIFICATE : TRY_SEND_FINISH))
int32_t Tls13ClientRecvFinishedProcess(TLS_Ctx *ctx, const HS_Msg *msg) VP_CONTRACT(K_Tls13ClientRecvFinishedProcess, FIN_ASSIGNS);
#define K_Tls13ServerRecvFinishedProcess(REQ, ENS) \
    REQ("server in TLS 1.3", !CLIENT && IS13) \
    REQ("entry state", G.oldPha == c_ctx.phaState) \
    K_FIN(REQ, ENS, true) \
    ENS("a verified client Finished switches reading to the client's application secret, once", VP_IMP(VP_RET == HITLS_SUCCESS, \
        G.oldPha == PHA_REQUESTED ? G.switches == 0 && c_ctx.phaState == PHA_EXTENSION : G.switches == 1 && G.swOk && !G.swOut && G.swSecretC)) \
    ENS("plaintext alerts and ChangeCipherSpec are refused from now on", c_ctx.plainAlertForbid && G.ccsExit >= 1) \
    ENS("the handshake ends, or acknowledges, or sends tickets", GOODFIN(true, VER == HITLS_VERSION_DTLS13 ? \
        (G.oldPha == PHA_REQUESTED ? TLS_CONNECTED : TRY_SEND_ACK) : c_hs.sentTickets < CFG.ticketNums ? TRY_SEND_NEW_SESSION_TICKET : TLS_CONNECTED))
int32_t Tls13ServerRecvFinishedProcess(TLS_Ctx *ctx, const HS_Msg *msg) VP_CONTRACT(K_Tls13ServerRecvFinishedProcess, FIN_ASSIGNS);

static void fin_setup(void)
{
    setup();
    VP_BYTES(c_vdata, 64); VP_BYTES(c_rdata, 64);
    FIN.verifyData = c_rdata; FIN.verifyDataSize = vp_range(0, 64);
    c_ver.verifyData = c_vdata; c_ver.verifyDataSize = vp_u32();
    c_ctx.globalConfig = NULL;
    c_ctx.session = NULL;
    c_hs.sessionId = NULL;
    c_hs.sessionIdSize = vp_range(0, 32);
    c_hs.ticketSize = vp_u32();
    c_hs.ticket = NULL;
    c_ctx.negotiatedInfo.isSniStateOK = vp_bool();
    CFG.isKeepPeerCert = vp_bool();
    G.hashLen = vp_range(0, 64);
    G.oldPha = c_ctx.phaState;
}
/*@unit
name: finished_dtls12
entry: h_fin_d
enforce: DtlsRecvFinishedProcess
unwind: 65
*/
void h_fin_d(void)
{
    fin_setup();
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg; int32_t r;
    VP_CALL(K_DtlsRecvFinishedProcess, r, DtlsRecvFinishedProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && FIN.verifyDataSize == 12, "accepted"); VP_REACH(G.alert == ALERT_DECRYPT_ERROR, "refused");
}
/*@unit
name: finished_client12
entry: h_fin_c
enforce: Tls12ClientRecvFinishedProcess
unwind: 65
*/
void h_fin_c(void)
{
    fin_setup();
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg; int32_t r;
    VP_CALL(K_Tls12ClientRecvFinishedProcess, r, Tls12ClientRecvFinishedProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && FIN.verifyDataSize == 12, "accepted"); VP_REACH(G.alert == ALERT_DECRYPT_ERROR, "refused");
}
/*@unit
name: finished_server12
entry: h_fin_s
enforce: Tls12ServerRecvFinishedProcess
unwind: 65
*/
void h_fin_s(void)
{
    fin_setup();
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg; int32_t r;
    VP_CALL(K_Tls12ServerRecvFinishedProcess, r, Tls12ServerRecvFinishedProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && FIN.verifyDataSize == 12, "accepted"); VP_REACH(G.alert == ALERT_DECRYPT_ERROR, "refused");
}
/*@unit
name: finished_client13
entry: h_fin_c13
enforce: Tls13ClientRecvFinishedProcess
unwind: 65
*/
void h_fin_c13(void)
{
    fin_setup();
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg; int32_t r;
    VP_CALL(K_Tls13ClientRecvFinishedProcess, r, Tls13ClientRecvFinishedProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && FIN.verifyDataSize == 48, "accepted"); VP_REACH(G.alert == ALERT_DECRYPT_ERROR, "refused");
}
/*@unit
name: finished_server13
entry: h_fin_s13
enforce: Tls13ServerRecvFinishedProcess
unwind: 65
*/
void h_fin_s13(void)
{
    fin_setup();
    TLS_Ctx *ctx = &c_ctx; const HS_Msg *msg = &c_msg; int32_t r;
    VP_CALL(K_Tls13ServerRecvFinishedProcess, r, Tls13ServerRecvFinishedProcess(ctx, msg));
    VP_REACH(r == HITLS_SUCCESS && G.switches == 1, "accepted"); VP_REACH(r == HITLS_SUCCESS && G.oldPha == PHA_REQUESTED, "post-handshake");
    VP_REACH(G.alert == ALERT_DECRYPT_ERROR, "refused");
}
