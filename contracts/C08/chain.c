/* Certificate chain validation. Certificates are arbitrary objects; signature verification, name/AKI matching, trust store
 * search and calendar conversion are assumed contracts. Chains of at most four certificates. */
/*@defaults
src: pki/x509_verify/src/hitls_x509_verify.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
unwind: 9
level: bounded
bound: certificate chains of at most four certificates, extension and EKU lists of at most three entries
object_bits: 10
assume: signature verification, issuer name and key identifier matching, trust store search and calendar conversion are callee contracts
*/
#include "vp.h"
#include "hitls_build.h"
#include "bsl_list.h"
#include "bsl_obj.h"
#include "bsl_asn1.h"
#include "bsl_types.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_errno.h"
#include "hitls_x509_local.h"
#include "hitls_cert_local.h"
#include "hitls_crl_local.h"
#include "hitls_x509_verify.h"
#include "crypt_eal_pkey.h"
#include "crypt_errno.h"
#include "bsl_errno.h"
#include "bsl_list_internal.h"

#ifndef LEN
#define LEN 1
#endif
#ifndef NX
#define NX 2
#endif
#define N 4
static struct {
    int64_t start, end; bool startOk, endOk;
    bool algOk[N], sigOk[N], selfSigned[N];
    uint32_t n, sigCalls, cbs, k;
    bool args;
    uint32_t secBits[N];
    int32_t md[N]; bool mdOk[N];
    int32_t pkId[N];
    uint32_t calls, crlRet, order;
    bool builtOk, paramOk, extOk, crlOk, sigsOk, hostOk, timeSeen;
    int64_t now, timeVal;
    bool inTrust[N], found[N], selfNoName[N], selfSig[N], leafIsRoot;
    uint32_t refs, frees;
} G;
static HITLS_X509_StoreCtx c_st;
static HITLS_X509_Cert c_cert[N + 1];
static HITLS_X509_CertExt c_ext[N];
static uint8_t c_key[N + 1];
static int64_t c_t[2 * N];
static BslListNode c_node[N], c_eku[3], c_extn[N][3];
static BslList c_chain, c_ekul, c_extl[N];
static BSL_Buffer c_oid[3];
static uint8_t c_oidb[3];
static BslCid c_cid[3];
static HITLS_X509_ExtEntry c_ent[N][3];

static int32_t cb(int32_t e, HITLS_X509_StoreCtx *s) { (void)s; if (e != HITLS_PKI_SUCCESS) G.cbs++; return e; }
static void mkList(BslList *l, BslListNode *nodes, uint32_t n)
{
    for (uint32_t i = 0; i < N; i++) {
        if (i >= n) break;
        nodes[i].prev = i > 0 ? &nodes[i - 1] : NULL;
        nodes[i].next = i + 1 < n ? &nodes[i + 1] : NULL;
    }
    l->first = n > 0 ? &nodes[0] : NULL; l->last = n > 0 ? &nodes[n - 1] : NULL; l->curr = NULL; l->count = (int32_t)n;
}
static int idx(const HITLS_X509_Cert *c) { for (int i = 0; i < N; i++) if (c == &c_cert[i]) return i; return N; }
static int keyIdx(const void *p) { for (int i = 0; i < N; i++) if (p == &c_key[i]) return i; return N; }

int32_t BSL_SAL_DateToUtcTimeConvert(const BSL_TIME *t, int64_t *u)
{
    for (int i = 0; i < N; i++) {
        if (t == &c_cert[i].tbs.validTime.start) { *u = c_t[2 * i]; return G.startOk ? BSL_SUCCESS : BSL_SAL_ERR_BAD_PARAM; }
        if (t == &c_cert[i].tbs.validTime.end) { *u = c_t[2 * i + 1]; return G.endOk ? BSL_SUCCESS : BSL_SAL_ERR_BAD_PARAM; }
    }
    G.args = false;
    return BSL_SAL_ERR_BAD_PARAM;
}
static void setup(uint32_t maxn)
{
    memset(&G, 0, sizeof(G));
    G.args = true;
    c_st.verifyCb = cb;
    G.startOk = vp_bool(); G.endOk = vp_bool();
    G.n = LEN; (void)maxn;
    for (uint32_t i = 0; i < N; i++) {
        c_node[i].data = &c_cert[i];
        c_t[2 * i] = vp_i64(); c_t[2 * i + 1] = vp_i64();
        c_cert[i].tbs.ealPubKey = &c_key[i];
        c_cert[i].tbs.version = vp_i32();
        c_cert[i].isSelfIssued = vp_bool();
        c_cert[i].tbs.ext.extData = &c_ext[i];
        c_ext[i].extFlags = vp_u32(); c_ext[i].isCa = vp_bool(); c_ext[i].maxPathLen = vp_i32(); c_ext[i].keyUsage = vp_u32();
        c_ext[i].exKeyUsage.oidList = NULL;
        G.algOk[i] = vp_bool(); G.sigOk[i] = vp_bool(); G.selfSigned[i] = vp_bool();
        G.secBits[i] = vp_u32(); G.md[i] = vp_i32(); G.mdOk[i] = vp_bool(); G.pkId[i] = vp_i32();
    }
    mkList(&c_chain, c_node, G.n);
    c_st.verifyParam.flags = vp_u64();
    c_st.verifyParam.purpose = vp_i32();
    c_st.verifyParam.securityBits = vp_u32();
    c_st.certChain = &c_chain;
}

int32_t BSL_ERR_SetMark(void) { return BSL_SUCCESS; }
int32_t BSL_ERR_PopToMark(void) { return BSL_SUCCESS; }

/* ---- validity period ---- */
static bool timeOk(uint32_t i, const int64_t *t) { return t == NULL || (G.startOk && G.endOk && c_t[2 * i] <= *t && c_t[2 * i + 1] >= *t); }
#define K_HITLS_X509_CheckCertTime(REQ, ENS) \
    REQ("arguments", storeCtx == &c_st && cert == &c_cert[0]) \
    ENS("accepted exactly within notBefore..notAfter, both inclusive", (VP_RET == HITLS_PKI_SUCCESS) == timeOk(0, time)) \
    ENS("a violation is reported to the callback", VP_IMP(VP_RET != HITLS_PKI_SUCCESS, G.cbs == 1 && c_st.error == VP_RET)) \
    ENS("the right dates are used", G.args)
int32_t HITLS_X509_CheckCertTime(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_Cert *cert, int32_t depth, const int64_t *time)
    VP_CONTRACT(K_HITLS_X509_CheckCertTime, G, c_st);
/*@unit
name: cert_time
entry: h_ct
enforce: HITLS_X509_CheckCertTime
level: proof
*/
void h_ct(void)
{
    setup(N);
    static int64_t now; now = vp_i64();
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_Cert *cert = &c_cert[0]; int32_t depth = vp_i32(); const int64_t *time = vp_bool() ? &now : NULL;
    int32_t r;
    VP_CALL(K_HITLS_X509_CheckCertTime, r, HITLS_X509_CheckCertTime(storeCtx, cert, depth, time));
    VP_REACH(r == HITLS_PKI_SUCCESS && time != NULL, "valid"); VP_REACH(r != HITLS_PKI_SUCCESS, "invalid");
}

/* ---- CA flags, path length, key usage, purpose ---- */
#define BC HITLS_X509_EXT_FLAG_BCONS
#define V3 HITLS_X509_VERSION_3
static bool caOk(uint32_t d)
{
    bool ca = (c_ext[d].extFlags & BC) != 0 && c_ext[d].isCa;
    bool v3 = c_cert[d].tbs.version == V3;
    bool ku = (c_ext[d].extFlags & HITLS_X509_EXT_FLAG_KUSAGE) == 0 || (c_ext[d].keyUsage & 0x0004u) != 0;   /* keyCertSign */
    if (d == G.n - 1) return (!v3 || ca) && ku;
    return v3 && ca && ku;
}
/* RFC 5280 4.2.1.9: pathLen bounds the number of non-self-issued intermediates that follow below */
static bool pathOk(uint32_t d)
{
    int32_t below = 0;
    for (uint32_t j = 1; j < N; j++) if (j < d && !c_cert[j].isSelfIssued) below++;
    return c_ext[d].maxPathLen < 0 || below <= c_ext[d].maxPathLen;
}
#define KU_DS 0x0001u
static bool eku(BslCid c) { bool r = false; for (int i = 0; i < 3; i++) if (i < c_ekul.count && c_oid[i].data != NULL && c_oid[i].dataLen > 0 && c_cid[i] == c) r = true; return r; }
static bool eeOk(void)
{
    uint32_t m; BslCid e;
    bool enc = false;
    const HITLS_X509_CertExt *x = &c_ext[0];
    if (c_cert[0].tbs.ext.extData == NULL) return true;
    (void)enc;
    switch (c_st.verifyParam.purpose) {
        case 0: case HITLS_X509_VFY_PURPOSE_ANY: return true;
        case HITLS_X509_VFY_PURPOSE_TLS_SERVER:
            m = HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION | HITLS_X509_EXT_KU_KEY_ENCIPHERMENT | HITLS_X509_EXT_KU_DATA_ENCIPHERMENT |
                HITLS_X509_EXT_KU_KEY_AGREEMENT; e = BSL_CID_KP_SERVERAUTH; break;
        case HITLS_X509_VFY_PURPOSE_TLS_CLIENT:
            m = HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION | HITLS_X509_EXT_KU_KEY_ENCIPHERMENT | HITLS_X509_EXT_KU_DATA_ENCIPHERMENT |
                HITLS_X509_EXT_KU_KEY_AGREEMENT; e = BSL_CID_KP_CLIENTAUTH; break;
        case HITLS_X509_VFY_PURPOSE_EMAIL_SIGN: m = HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION; e = BSL_CID_KP_EMAILPROTECTION; break;
        case HITLS_X509_VFY_PURPOSE_EMAIL_ENCRYPT: m = HITLS_X509_EXT_KU_KEY_ENCIPHERMENT; e = BSL_CID_KP_EMAILPROTECTION; break;
        case HITLS_X509_VFY_PURPOSE_CODE_SIGN: m = HITLS_X509_EXT_KU_DIGITAL_SIGN; e = BSL_CID_KP_CODESIGNING; break;
        case HITLS_X509_VFY_PURPOSE_OCSP_SIGN: m = HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION; e = BSL_CID_KP_OCSPSIGNING; break;
        case HITLS_X509_VFY_PURPOSE_TIMESTAMPING: m = HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION; e = BSL_CID_KP_TIMESTAMPING; break;
        default: return false;
    }
    if ((x->extFlags & HITLS_X509_EXT_FLAG_KUSAGE) != 0 && (x->keyUsage & m) == 0) return false;
    if ((x->extFlags & HITLS_X509_EXT_FLAG_EXKUSAGE) != 0 && !(x->exKeyUsage.oidList != NULL && eku(e))) return false;
    return true;
}
static bool allCa(void)
{
    bool r = true;
    for (uint32_t d = 1; d < N; d++) if (d < G.n && (!caOk(d) || !pathOk(d))) r = false;
    return r;
}
BslCid BSL_OBJ_GetCidFromOidBuff(const uint8_t *b, uint32_t n)
{
    for (int i = 0; i < 3; i++) if (b == &c_oidb[i] && n == c_oid[i].dataLen) return c_cid[i];
    return BSL_CID_UNKNOWN;
}
#define K_X509_CheckExt(REQ, ENS) \
    REQ("chain", storeCtx == &c_st && chain == &c_chain) \
    ENS("accepted exactly if every issuer is an allowed CA within its path length and the leaf fits the purpose", \
        (VP_RET == HITLS_PKI_SUCCESS) == (allCa() && eeOk())) \
    ENS("a violation is reported to the callback", VP_IMP(VP_RET != HITLS_PKI_SUCCESS, G.cbs == 1 && c_st.error == VP_RET))
int32_t X509_CheckExt(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *chain)
    VP_CONTRACT(K_X509_CheckExt, G, c_st);
/*@unit
name: check_ext_4
entry: h_ce
enforce: X509_CheckExt
def: LEN=4 NX=2
*/
/*@unit
name: check_ext_3
entry: h_ce
enforce: X509_CheckExt
def: LEN=3 NX=3
*/
/*@unit
name: check_ext_2
entry: h_ce
enforce: X509_CheckExt
def: LEN=2 NX=0
*/
/*@unit
name: check_ext_1
entry: h_ce
enforce: X509_CheckExt
def: LEN=1 NX=1
*/
void h_ce(void)
{
    setup(N);
    if (vp_bool()) c_cert[0].tbs.ext.extData = NULL;
    for (int i = 0; i < 3; i++) { c_oid[i].data = vp_bool() ? &c_oidb[i] : NULL; c_oid[i].dataLen = vp_range(0, 8); c_cid[i] = vp_range(0, 5000); c_eku[i].data = &c_oid[i]; }
    mkList(&c_ekul, c_eku, NX);
    c_ext[0].exKeyUsage.oidList = vp_bool() ? &c_ekul : NULL;
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_List *chain = &c_chain;
    int32_t r;
    VP_CALL(K_X509_CheckExt, r, X509_CheckExt(storeCtx, chain));
    VP_REACH(r == HITLS_PKI_SUCCESS, "accepted");
#if LEN > 2
    VP_REACH(r == HITLS_X509_ERR_VFY_PATHLEN_EXCEEDED, "path length");
#endif
    VP_REACH(r == HITLS_X509_ERR_VFY_PURPOSE_UNMATCH, "purpose");
}

/* ---- signatures up the chain ---- */
int32_t HITLS_X509_CheckSignAlgConsistency(const HITLS_X509_Asn1AlgId *a, const HITLS_X509_Asn1AlgId *b)
{
    for (int i = 0; i < N; i++) if (a == &c_cert[i].tbs.signAlgId && b == &c_cert[i].signAlgId) return G.algOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH;
    G.args = false;
    return HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH;
}
bool HITLS_X509_IsSelfSigned(HITLS_X509_Cert *c) { return G.selfSigned[idx(c) & 3]; }
int32_t HITLS_X509_CheckSignature(const CRYPT_EAL_PkeyCtx *pk, uint8_t *raw, uint32_t len, const HITLS_X509_Asn1AlgId *alg, const BSL_ASN1_BitString *s)
{
    int k = keyIdx(pk), i;
    for (i = 0; i < N; i++) if (s == &c_cert[i].signature) break;
    G.sigCalls++;
    if (i == N || (uint32_t)i >= G.n) { G.args = false; return HITLS_X509_ERR_VFY_CERT_SIGN_FAIL; }
    /* the issuer's key: the next certificate, the root's own for the root */
    int want = i + 1 < (int)G.n ? i + 1 : i;
    if (k != want || raw != c_cert[i].tbs.tbsRawData || len != c_cert[i].tbs.tbsRawDataLen || alg->algId != c_cert[i].signAlgId.algId) G.args = false;
    G.order |= 1u << i;
    return G.sigOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_CERT_SIGN_FAIL;
}
static bool anchorOnly(void) { return (c_st.verifyParam.flags & HITLS_X509_VFY_FLAG_PARTIAL_CHAIN) != 0 && !G.selfSigned[(G.n - 1) & 3] && G.n > 1; }
static bool sigsOk(const int64_t *t)
{
    bool r = true;
    for (uint32_t i = 0; i < N; i++)
        if (i < G.n && (!timeOk(i, t) || (!(i == G.n - 1 && anchorOnly()) && (!G.algOk[i] || !G.sigOk[i])))) r = false;
    return r;
}
#define K_X509_VerifyChainCert(REQ, ENS) \
    REQ("chain", storeCtx == &c_st && chain == &c_chain) \
    ENS("accepted exactly if every certificate is in its validity period and correctly signed by the next one", \
        (VP_RET == HITLS_PKI_SUCCESS) == sigsOk(time)) \
    ENS("each signature is checked with its own issuer's key over its own contents", G.args) \
    ENS("all of them are checked", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, G.order == (1u << (G.n - (anchorOnly() ? 1 : 0))) - 1))
int32_t X509_VerifyChainCert(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *chain, int64_t *time)
    VP_CONTRACT(K_X509_VerifyChainCert, G, c_st);
/*@unit
name: verify_chain_cert_3a
entry: h_vcc
enforce: X509_VerifyChainCert
def: LEN=3 PARTIAL=0
*/
/*@unit
name: verify_chain_cert_3b
entry: h_vcc
enforce: X509_VerifyChainCert
def: LEN=3 PARTIAL=1
*/
/*@unit
name: verify_chain_cert_3c
entry: h_vcc
enforce: X509_VerifyChainCert
def: LEN=3 PARTIAL=2
*/
/*@unit
name: verify_chain_cert_2a
entry: h_vcc
enforce: X509_VerifyChainCert
def: LEN=2 PARTIAL=0
*/
/*@unit
name: verify_chain_cert_2b
entry: h_vcc
enforce: X509_VerifyChainCert
def: LEN=2 PARTIAL=1
*/
/*@unit
name: verify_chain_cert_1a
entry: h_vcc
enforce: X509_VerifyChainCert
def: LEN=1 PARTIAL=0
*/
void h_vcc(void)
{
    setup(N);
#if PARTIAL == 0
    c_st.verifyParam.flags = 0;
#else
    c_st.verifyParam.flags = HITLS_X509_VFY_FLAG_PARTIAL_CHAIN;
    G.selfSigned[LEN - 1] = PARTIAL == 2;
#endif
    static int64_t now; now = vp_i64();
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_List *chain = &c_chain; int64_t *time = vp_bool() ? &now : NULL;
    int32_t r;
    VP_CALL(K_X509_VerifyChainCert, r, X509_VerifyChainCert(storeCtx, chain, time));
    VP_REACH(r == HITLS_PKI_SUCCESS, "accepted");
    VP_REACH(r != HITLS_PKI_SUCCESS && (G.order & 1), "bad leaf");
}

/* ---- security strength, version and critical extensions ---- */
uint32_t CRYPT_EAL_PkeyGetSecurityBits(const CRYPT_EAL_PkeyCtx *p) { int k = keyIdx(p); return G.secBits[k & 3]; }
CRYPT_PKEY_AlgId CRYPT_EAL_PkeyGetId(const CRYPT_EAL_PkeyCtx *p) { int k = keyIdx(p); return (CRYPT_PKEY_AlgId)G.pkId[k & 3]; }
int32_t HITLS_X509_GetSignMdAlg(const HITLS_X509_Asn1AlgId *a, int32_t *v, uint32_t l)
{
    (void)l;
    for (int i = 0; i < N; i++) if (a == &c_cert[i].signAlgId) { *v = G.md[i]; return G.mdOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH; }
    G.args = false;
    return HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH;
}
static uint32_t mdBits(int32_t m)
{
    switch (m) {
        case CRYPT_MD_MD5: return 39; case CRYPT_MD_SHA1: return 63; case CRYPT_MD_SHA224: case CRYPT_MD_SHA3_224: return 112;
        case CRYPT_MD_SHA256: case CRYPT_MD_SM3: case CRYPT_MD_SHA3_256: return 128;
        case CRYPT_MD_SHA384: case CRYPT_MD_SHA3_384: return 192; case CRYPT_MD_SHA512: case CRYPT_MD_SHA3_512: return 256;
        default: return 0xffffffffu;
    }
}
static bool strengthOk(void)
{
    bool r = true;
    if ((c_st.verifyParam.flags & HITLS_X509_VFY_FLAG_SECBITS) == 0) return true;
    for (uint32_t i = 0; i < N; i++) if (i < G.n) {
        if (G.secBits[i] < c_st.verifyParam.securityBits) r = false;
        if (i + 1 < G.n && G.mdOk[i] && mdBits(G.md[i]) < c_st.verifyParam.securityBits) r = false;
    }
    return r;
}
static bool crlLite(void)
{
#ifdef HITLS_PKI_X509_VFY_CRL_LITE
    return true;
#else
    return (c_st.verifyParam.flags & HITLS_X509_VFY_FLAG_CRL_LITE) != 0;
#endif
}
static bool knownExt(BslCid c)
{
    return c == BSL_CID_CE_KEYUSAGE || c == BSL_CID_CE_BASICCONSTRAINTS || c == BSL_CID_CE_EXTKEYUSAGE || c == BSL_CID_CE_SUBJECTALTNAME ||
        c == BSL_CID_CE_AUTHORITYKEYIDENTIFIER || c == BSL_CID_CE_SUBJECTKEYIDENTIFIER ||
        (c == BSL_CID_CE_CRLDISTRIBUTIONPOINTS && !crlLite());
}
#define KUS (HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION | HITLS_X509_EXT_KU_KEY_CERT_SIGN | HITLS_X509_EXT_KU_CRL_SIGN)
#define KUE (HITLS_X509_EXT_KU_KEY_ENCIPHERMENT | HITLS_X509_EXT_KU_DATA_ENCIPHERMENT | HITLS_X509_EXT_KU_KEY_AGREEMENT | HITLS_X509_EXT_KU_ENCIPHER_ONLY | HITLS_X509_EXT_KU_DECIPHER_ONLY)
static bool pqOk(uint32_t i)
{
    if ((c_ext[i].extFlags & HITLS_X509_EXT_FLAG_KUSAGE) == 0) return true;
    switch (G.pkId[i]) {
        case CRYPT_PKEY_ML_DSA: case CRYPT_PKEY_SLH_DSA: case CRYPT_PKEY_COMPOSITE: return (c_ext[i].keyUsage & KUS) != 0 && (c_ext[i].keyUsage & KUE) == 0;
        case CRYPT_PKEY_ML_KEM: return c_ext[i].keyUsage == HITLS_X509_EXT_KU_KEY_ENCIPHERMENT;
        default: return true;
    }
}
static bool extsOk(void)
{
    bool r = true;
    for (uint32_t i = 0; i < N; i++) if (i < G.n) {
        if (c_cert[i].tbs.version < V3) { if (c_extl[i].count > 0) r = false; continue; }
        if (!pqOk(i)) r = false;
        for (int j = 0; j < 3; j++) if (j < c_extl[i].count && c_ent[i][j].critical && !knownExt(c_ent[i][j].cid)) r = false;
    }
    return r;
}
#define K_HITLS_X509_VerifyParamAndExt(REQ, ENS) \
    REQ("chain", storeCtx == &c_st && chain == &c_chain) \
    ENS("accepted exactly if strength, extension version, critical extensions and key usage rules hold for every certificate", \
        (VP_RET == HITLS_PKI_SUCCESS) == (strengthOk() && extsOk())) \
    ENS("each certificate's own algorithm is judged", G.args)
int32_t HITLS_X509_VerifyParamAndExt(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *chain)
    VP_CONTRACT(K_HITLS_X509_VerifyParamAndExt, G, c_st);
/*@unit
name: verify_param_ext_4
entry: h_vpe
enforce: HITLS_X509_VerifyParamAndExt
def: LEN=4 NX=2
restrict: HITLS_X509_TrvList.function_pointer_call.1/HITLS_X509_SecBitsCheck,HITLS_X509_HashAlgSecBitsCheck,HITLS_X509_CheckCertExt,HITLS_X509_CheckCertExtNode
*/
/*@unit
name: verify_param_ext_3
entry: h_vpe
enforce: HITLS_X509_VerifyParamAndExt
def: LEN=3 NX=3
restrict: HITLS_X509_TrvList.function_pointer_call.1/HITLS_X509_SecBitsCheck,HITLS_X509_HashAlgSecBitsCheck,HITLS_X509_CheckCertExt,HITLS_X509_CheckCertExtNode
*/
/*@unit
name: verify_param_ext_2
entry: h_vpe
enforce: HITLS_X509_VerifyParamAndExt
def: LEN=2 NX=0
restrict: HITLS_X509_TrvList.function_pointer_call.1/HITLS_X509_SecBitsCheck,HITLS_X509_HashAlgSecBitsCheck,HITLS_X509_CheckCertExt,HITLS_X509_CheckCertExtNode
*/
/*@unit
name: verify_param_ext_1
entry: h_vpe
enforce: HITLS_X509_VerifyParamAndExt
def: LEN=1 NX=1
restrict: HITLS_X509_TrvList.function_pointer_call.1/HITLS_X509_SecBitsCheck,HITLS_X509_HashAlgSecBitsCheck,HITLS_X509_CheckCertExt,HITLS_X509_CheckCertExtNode
*/
void h_vpe(void)
{
    setup(N);
    for (int i = 0; i < N; i++) {
        for (int j = 0; j < 3; j++) { c_ent[i][j].cid = vp_range(0, 5000); c_ent[i][j].critical = vp_bool(); c_extn[i][j].data = &c_ent[i][j]; }
        mkList(&c_extl[i], c_extn[i], NX);
        c_cert[i].tbs.ext.extList = &c_extl[i];
    }
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_List *chain = &c_chain;
    int32_t r;
    VP_CALL(K_HITLS_X509_VerifyParamAndExt, r, HITLS_X509_VerifyParamAndExt(storeCtx, chain));
    VP_REACH(r == HITLS_PKI_SUCCESS && (c_st.verifyParam.flags & HITLS_X509_VFY_FLAG_SECBITS) != 0 && c_st.verifyParam.securityBits == 128, "accepted");
#if NX > 0
    VP_REACH(r == HITLS_X509_ERR_PROCESS_CRITICALEXT, "critical");
#endif
}
