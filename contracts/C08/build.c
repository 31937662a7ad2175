/* Building the chain up to a trusted root and running every stage of the verification on it. */
/*@defaults
src: pki/x509_verify/src/hitls_x509_verify.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
unwind: 7
object_bits: 10
level: proof
assume: issuer name and key identifier matching, trust store search, reference counting and list storage are callee contracts
*/
#include "vp.h"
#include "hitls_build.h"
#include "bsl_list.h"
#include "bsl_sal.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_errno.h"
#include "hitls_x509_local.h"
#include "hitls_cert_local.h"
#include "hitls_crl_local.h"
#include "hitls_x509_verify.h"
#include "bsl_errno.h"
#include "bsl_list_internal.h"

#define N 4
static struct {
    bool trusted[N], issued[N][N], selfNoName[N], selfSig[N], args, addOk;
    uint32_t tIss[N], added, add[6], cbs, stage, frees;
    int32_t buildRet, paramRet, extRet, crlRet, sigRet, hostRet, cbRet;
    uint32_t rootKind;
    int64_t now; int64_t seenTime; bool seenNull, crlNull; int64_t crlTime;
} G;
static HITLS_X509_StoreCtx c_st;
static HITLS_X509_Cert c_cert[N];
static BslListNode c_node[3];
static BslList c_in, c_out;
static HITLS_X509_Store *c_store;
static HITLS_X509_List *c_res;

static int32_t cb(int32_t e, HITLS_X509_StoreCtx *s) { (void)s; G.cbs++; return e == HITLS_PKI_SUCCESS ? G.cbRet : e; }
int32_t BSL_ERR_SetMark(void) { return BSL_SUCCESS; }
int32_t BSL_ERR_PopToMark(void) { return BSL_SUCCESS; }
static uint32_t idx(const HITLS_X509_Cert *c) { for (uint32_t i = 0; i < N; i++) if (c == &c_cert[i]) return i; G.args = false; return 0; }

int32_t HITLS_X509_StoreFindIssuerInTrust(HITLS_X509_Store *st, HITLS_X509_StoreCtx *ctx, HITLS_X509_Cert *cert, HITLS_X509_Cert **issue)
{
    uint32_t i = idx(cert);
    if (st != c_st.store || ctx != &c_st) G.args = false;
    if (!G.trusted[i]) return HITLS_X509_ERR_ISSUE_CERT_NOT_FOUND;
    *issue = &c_cert[G.tIss[i] & 3];
    return HITLS_PKI_SUCCESS;
}
bool HITLS_X509_CheckIssued(HITLS_X509_Cert *issue, HITLS_X509_Cert *subject) { return G.issued[idx(issue)][idx(subject)]; }
bool HITLS_X509_CheckIssuedWithoutName(HITLS_X509_Cert *issue, HITLS_X509_Cert *subject) { if (issue != subject) G.args = false; return G.selfNoName[idx(issue)]; }
bool HITLS_X509_CheckSelfSignedSignature(HITLS_X509_Cert *c) { return G.selfSig[idx(c)]; }
int32_t vp_cmp(HITLS_X509_Cert *a, HITLS_X509_Cert *b) { return a == b ? 0 : 1; }
int32_t vp_add(HITLS_X509_List *l, HITLS_X509_Cert *c)
{
    if (!G.addOk) return BSL_MALLOC_FAIL;
    if (l != &c_out) G.args = false;
    if (G.added < 6) G.add[G.added] = idx(c);
    G.added++;
    l->count++;
    return HITLS_PKI_SUCCESS;
}
void HITLS_X509_CertFree(HITLS_X509_Cert *c) { (void)c; G.frees++; }
void BSL_LIST_DeleteAll(BslList *l, BSL_LIST_PFUNC_FREE f) { (void)f; G.stage |= 64; if (l != &c_out) G.args = false; }
static void setup(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true; G.addOk = vp_bool();
    c_st.verifyCb = cb; c_st.store = (HITLS_X509_Store *)&c_store;
    c_st.verifyParam.flags = vp_u64(); c_st.verifyParam.maxDepth = vp_i32(); c_st.verifyParam.time = vp_i64();
    for (uint32_t i = 0; i < N; i++) {
        c_cert[i].isSelfIssued = vp_bool();
        G.trusted[i] = vp_bool(); G.tIss[i] = vp_range(0, 3); G.selfNoName[i] = vp_bool(); G.selfSig[i] = vp_bool();
        for (uint32_t j = 0; j < N; j++) G.issued[i][j] = vp_bool();
    }
    for (int i = 0; i < 3; i++) { c_node[i].data = &c_cert[i]; c_node[i].prev = i ? &c_node[i - 1] : NULL; c_node[i].next = i < 2 ? &c_node[i + 1] : NULL; }
    c_in.first = &c_node[0]; c_in.last = &c_node[2]; c_in.count = 3; c_in.curr = NULL;
    c_out.first = c_out.last = c_out.curr = NULL; c_out.count = 1;
}
#define PARTIAL ((c_st.verifyParam.flags & HITLS_X509_VFY_FLAG_PARTIAL_CHAIN) != 0)
/* the issuer the search yields for c: the trust store first, then the first other certificate of the input that issued it */
static uint32_t issuerOf(uint32_t c, bool useIn, bool *ok, bool *trust)
{
    *trust = false; *ok = true;
    if (G.trusted[c]) { *trust = true; return G.tIss[c] & 3; }
    if (useIn) for (uint32_t i = 0; i < 3; i++) if (i != c && G.issued[i][c]) return i;
    *ok = false;
    return 0;
}
static bool chainSound(HITLS_X509_Cert *cert, bool useIn, bool isVfy, HITLS_X509_Cert *root)
{
    uint32_t cur = (uint32_t)(cert - c_cert);
    bool r = true, ok, tr;
    for (uint32_t i = 0; i < 4; i++) {
        if (i < G.added) {
            uint32_t n = issuerOf(cur, useIn, &ok, &tr);
            if (!ok || G.add[i] != n) r = false;
            cur = n;
        }
    }
    if (root != NULL) {
        uint32_t n = issuerOf(cur, useIn, &ok, &tr);
        if (!ok || !tr || root != &c_cert[n]) r = false;
        if (!((isVfy && PARTIAL) || (c_cert[n].isSelfIssued && G.selfNoName[n]))) r = false;
    }
    return r;
}
#define K_X509_BuildChain(REQ, ENS) \
    REQ("arguments", storeCtx == &c_st && chain == &c_out && c_out.count == 1 && cert == &c_cert[0] && *root == NULL && c_st.verifyParam.maxDepth <= 4) \
    ENS("every certificate added was issued by the one after it, and a root comes from the trust store and is self-signed or an allowed partial anchor", \
        VP_IMP(VP_RET == HITLS_PKI_SUCCESS, chainSound(cert, certChain != NULL, isVfy, *root))) \
    ENS("depth limit", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, c_out.count + 1 <= c_st.verifyParam.maxDepth)) \
    ENS("a root is reported only on success", VP_IMP(VP_RET != HITLS_PKI_SUCCESS, *root == NULL)) \
    ENS("a trusted self-signed issuer is found as root", VP_IMP(G.trusted[0] && c_cert[G.tIss[0] & 3].isSelfIssued && G.selfNoName[G.tIss[0] & 3] && c_st.verifyParam.maxDepth >= 2, \
        VP_RET == HITLS_PKI_SUCCESS && *root == &c_cert[G.tIss[0] & 3])) \
    ENS("callees get their own arguments", G.args)
int32_t X509_BuildChain(bool isVfy, HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *certChain, HITLS_X509_Cert *cert, HITLS_X509_List *chain, HITLS_X509_Cert **root)
    VP_CONTRACT(K_X509_BuildChain, G, c_st, *root, c_out);
/*@unit
name: build_chain
entry: h_bc
enforce: X509_BuildChain
swap: X509_AddCertToChain:vp_add HITLS_X509_CertCmp:vp_cmp
level: bounded
bound: input chains of at most three certificates, four distinct certificates, maximum depth at most four
*/
void h_bc(void)
{
    setup();
    static HITLS_X509_Cert *rt; rt = NULL;
    bool isVfy = vp_bool(); HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_List *certChain = vp_bool() ? &c_in : NULL; HITLS_X509_Cert *cert = &c_cert[0];
    HITLS_X509_List *chain = &c_out; HITLS_X509_Cert **root = &rt; int32_t r;
    VP_ASSUME(c_st.verifyParam.maxDepth <= 4);
    VP_CALL(K_X509_BuildChain, r, X509_BuildChain(isVfy, storeCtx, certChain, cert, chain, root));
    VP_REACH(r == HITLS_PKI_SUCCESS && rt != NULL && G.added == 2, "root over two intermediates"); VP_REACH(r == HITLS_PKI_SUCCESS && rt == NULL, "untrusted root");
    VP_REACH(r == HITLS_X509_ERR_CHAIN_DEPTH_UP_LIMIT, "depth");
}

/* ---- a chain without a trusted root is refused ---- */
HITLS_X509_List *vp_newchain(HITLS_X509_Cert *c) { if (c != &c_cert[0]) G.args = false; return G.addOk ? &c_out : NULL; }
int32_t vp_build(bool isVfy, HITLS_X509_StoreCtx *s, HITLS_X509_List *in, HITLS_X509_Cert *c, HITLS_X509_List *chain, HITLS_X509_Cert **root)
{
    if (!isVfy || s != &c_st || in != &c_in || c != &c_cert[0] || chain != &c_out) G.args = false;
    if (G.rootKind == 1 && G.buildRet == HITLS_PKI_SUCCESS) *root = &c_cert[0];
    if (G.rootKind == 2 && G.buildRet == HITLS_PKI_SUCCESS) *root = &c_cert[1];
    return G.buildRet;
}
int32_t vp_param(HITLS_X509_StoreCtx *s, HITLS_X509_List *l) { if (s != &c_st || l != &c_out) G.args = false; G.stage |= 1; return G.paramRet; }
int32_t vp_ext(HITLS_X509_StoreCtx *s, HITLS_X509_List *l) { if (s != &c_st || l != &c_out) G.args = false; G.stage |= 2; return G.extRet; }
int32_t vp_crl(HITLS_X509_StoreCtx *s, HITLS_X509_List *l, int64_t *t)
{ if (s != &c_st || l != &c_out) G.args = false; G.stage |= 4; G.crlNull = t == NULL; if (t) G.crlTime = *t; return G.crlRet; }
int32_t vp_sig(HITLS_X509_StoreCtx *s, HITLS_X509_List *l, int64_t *t)
{ if (s != &c_st || l != &c_out) G.args = false; G.stage |= 8; G.seenNull = t == NULL; if (t) G.seenTime = *t; return G.sigRet; }
int32_t vp_host(HITLS_X509_StoreCtx *s, HITLS_X509_List *l) { if (s != &c_st || l != &c_out) G.args = false; G.stage |= 16; return G.hostRet; }
int64_t BSL_SAL_CurrentSysTimeGet(void) { return G.now; }
#define FL c_st.verifyParam.flags
#define USERT ((FL & HITLS_X509_VFY_FLAG_TIME) != 0)
#define NOTIME (!USERT && (FL & HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK) != 0)
#define BUILT (G.addOk && G.buildRet == HITLS_PKI_SUCCESS && G.rootKind != 0)
#define CLOCKOK (USERT || NOTIME || G.now > 0)
#define K_HITLS_X509_CertVerify(REQ, ENS) \
    REQ("entry state", G.stage == 0 && c_out.count == 1 && (chain == NULL || chain == &c_in) && (storeCtx == NULL || storeCtx == &c_st)) \
    ENS("accepted exactly if the chain reaches a trusted root and every stage accepts", (VP_RET == HITLS_PKI_SUCCESS) == (storeCtx != NULL && chain != NULL && c_in.count > 0 && \
        BUILT && G.paramRet == HITLS_PKI_SUCCESS && G.extRet == HITLS_PKI_SUCCESS && CLOCKOK && G.crlRet == HITLS_PKI_SUCCESS && G.sigRet == HITLS_PKI_SUCCESS && \
        G.hostRet == HITLS_PKI_SUCCESS && G.cbRet == HITLS_PKI_SUCCESS)) \
    ENS("every stage ran on the built chain", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, (G.stage & 31) == 31 && G.args)) \
    ENS("the time is the configured one, else the system time, else none only if disabled", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, \
        G.seenNull == NOTIME && G.crlNull == NOTIME && VP_IMP(!NOTIME, G.seenTime == (USERT ? c_st.verifyParam.time : G.now) && G.crlTime == G.seenTime))) \
    ENS("a distinct root is appended", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, G.added == (G.rootKind == 2 ? 1u : 0u) && VP_IMP(G.rootKind == 2, G.add[0] == 1))) \
    ENS("the built chain is released", VP_IMP(G.stage != 0, (G.stage & 64) != 0))
int32_t HITLS_X509_CertVerify(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *chain)
    VP_CONTRACT(K_HITLS_X509_CertVerify, G, c_st, c_out);
/*@unit
name: cert_verify
entry: h_cv
enforce: HITLS_X509_CertVerify
swap: X509_NewCertChain:vp_newchain X509_AddCertToChain:vp_add HITLS_X509_CertCmp:vp_cmp X509_BuildChain:vp_build
swap: HITLS_X509_VerifyParamAndExt:vp_param X509_CheckExt:vp_ext HITLS_X509_VerifyCrl:vp_crl X509_VerifyChainCert:vp_sig X509_CheckHost:vp_host
*/
void h_cv(void)
{
    setup();
    G.addOk = true;
    G.buildRet = vp_i32(); G.paramRet = vp_i32(); G.extRet = vp_i32(); G.crlRet = vp_i32(); G.sigRet = vp_i32(); G.hostRet = vp_i32(); G.cbRet = vp_i32();
    G.rootKind = vp_range(0, 2); G.now = vp_i64();
    c_in.count = vp_i32();
    VP_ASSUME(c_in.count >= 0);
    HITLS_X509_StoreCtx *storeCtx = vp_bool() ? &c_st : NULL; HITLS_X509_List *chain = vp_bool() ? &c_in : NULL; int32_t r;
    c_st.certChain = NULL;
    VP_CALL(K_HITLS_X509_CertVerify, r, HITLS_X509_CertVerify(storeCtx, chain));
    VP_REACH(r == HITLS_PKI_SUCCESS && !NOTIME, "verified"); VP_REACH(r != HITLS_PKI_SUCCESS && G.stage == (31 | 64), "refused late");
}
