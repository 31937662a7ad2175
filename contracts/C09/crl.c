/* Revocation: with CRL checking on, a certificate passes only if a current, correctly signed CRL of its issuer does not list it.
 * Signature verification, name and key identifier matching and calendar conversion are assumed contracts. */
/*@defaults
src: pki/x509_verify/src/hitls_x509_verify.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
unwind: 9
level: bounded
bound: at most two CRLs with at most two revoked entries and two extensions, serial numbers of at most 4 bytes, chains of at most three certificates
object_bits: 10
restrict: HITLS_X509_TrvList.function_pointer_call.1/HITLS_X509_CheckCrlExtNode,HITLS_X509_CheckCertRevoked
assume: signature verification, issuer name and key identifier matching, CRL storage and calendar conversion are callee contracts
*/
#include "vp.h"
#include "hitls_build.h"
#include "bsl_list.h"
#include "bsl_sal.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_errno.h"
#include "hitls_x509_local.h"
#include "hitls_cert_local.h"
#include "hitls_crl_local.h"
#include "hitls_x509_verify.h"
#include "bsl_errno.h"
#include "bsl_list_internal.h"

#ifndef NCRL
#define NCRL 1
#endif
#ifndef NENT
#define NENT 1
#endif
#ifndef NEXT
#define NEXT 1
#endif
#ifndef LEN
#define LEN 2
#endif
static struct {
    bool startOk[2], endOk[2], nameOk[2], akiOk[2], algOk[2], keyAlgOk[2], sigOk[2], args, getOk;
    int64_t start[2], end[2];
    uint32_t cbs, k, calls, freed;
    int32_t ret[3];
    bool timeArg, seen[3];
} G;
static HITLS_X509_StoreCtx c_st;
static HITLS_X509_Cert c_cert[3];
static HITLS_X509_CertExt c_ext[3];
static HITLS_X509_Crl c_crl[2];
static HITLS_X509_CrlEntry c_ent[2][2];
static HITLS_X509_ExtEntry c_x[2][2];
static BslListNode n_crl[2], n_ent[2][2], n_x[2][2], n_chain[3];
static BslList l_crl, l_ent[2], l_x[2], l_chain;
static BSL_ASN1_List c_names[5];
static uint8_t c_key[3], c_serial[4], c_es[2][2][4];
static int64_t c_now;

static int32_t cb(int32_t e, HITLS_X509_StoreCtx *s) { (void)s; G.cbs++; return e; }
int32_t BSL_ERR_SetMark(void) { return BSL_SUCCESS; }
int32_t BSL_ERR_PopToMark(void) { return BSL_SUCCESS; }
static void mk(BslList *l, BslListNode *a, int n)
{
    for (int i = 0; i < 3; i++) if (i < n) { a[i].prev = i ? &a[i - 1] : NULL; a[i].next = i + 1 < n ? &a[i + 1] : NULL; }
    l->first = n ? &a[0] : NULL; l->last = n ? &a[n - 1] : NULL; l->curr = NULL; l->count = n;
}
int32_t BSL_SAL_DateToUtcTimeConvert(const BSL_TIME *t, int64_t *u)
{
    for (int i = 0; i < 2; i++) {
        if (t == &c_crl[i].tbs.validTime.start) { *u = G.start[i]; return G.startOk[i] ? BSL_SUCCESS : BSL_SAL_ERR_BAD_PARAM; }
        if (t == &c_crl[i].tbs.validTime.end) { *u = G.end[i]; return G.endOk[i] ? BSL_SUCCESS : BSL_SAL_ERR_BAD_PARAM; }
    }
    G.args = false;
    return BSL_SAL_ERR_BAD_PARAM;
}
int32_t HITLS_X509_CmpNameNode(BSL_ASN1_List *a, BSL_ASN1_List *b)
{
    for (int i = 0; i < 2; i++) if (a == &c_names[i] && b == c_cert[1].tbs.subjectName) return G.nameOk[i] ? 0 : 1;
    G.args = false;
    return 1;
}
int32_t HITLS_X509_CheckAki(HITLS_X509_Ext *ie, HITLS_X509_Ext *se, BSL_ASN1_List *iss, BSL_ASN1_Buffer *sn)
{
    for (int i = 0; i < 2; i++) if (ie == &c_cert[1].tbs.ext && se == &c_crl[i].tbs.crlExt && iss == c_cert[1].tbs.issuerName && sn == &c_cert[1].tbs.serialNum)
        return G.akiOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_AKI_SKI_NOT_MATCH;
    G.args = false;
    return HITLS_X509_ERR_VFY_AKI_SKI_NOT_MATCH;
}
int32_t HITLS_X509_CheckSignAlgConsistency(const HITLS_X509_Asn1AlgId *a, const HITLS_X509_Asn1AlgId *b)
{
    for (int i = 0; i < 2; i++) if (a == &c_crl[i].tbs.signAlgId && b == &c_crl[i].signAlgId) return G.algOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH;
    G.args = false;
    return HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH;
}
int32_t HITLS_X509_CheckAlg(CRYPT_EAL_PkeyCtx *pk, const HITLS_X509_Asn1AlgId *a)
{
    for (int i = 0; i < 2; i++) if (a == &c_crl[i].tbs.signAlgId && (uint8_t *)pk == &c_key[1]) return G.keyAlgOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH;
    G.args = false;
    return HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH;
}
int32_t HITLS_X509_CheckSignature(const CRYPT_EAL_PkeyCtx *pk, uint8_t *raw, uint32_t len, const HITLS_X509_Asn1AlgId *alg, const BSL_ASN1_BitString *s)
{
    for (int i = 0; i < 2; i++)
        if (s == &c_crl[i].signature && (const uint8_t *)pk == &c_key[1] && raw == c_crl[i].tbs.tbsRawData && len == c_crl[i].tbs.tbsRawDataLen && alg->algId == c_crl[i].signAlgId.algId)
            return G.sigOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_CRLSIGN_FAIL;
    G.args = false;
    return HITLS_X509_ERR_VFY_CRLSIGN_FAIL;
}
int32_t HITLS_X509_StoreGetCrlList(HITLS_X509_Store *s, HITLS_X509_List **l)
{
    if (s != c_st.store) G.args = false;
    *l = &l_crl;     /* also on failure: keeps the pointer a constant for the verifier */
    return G.getOk ? HITLS_PKI_SUCCESS : BSL_MALLOC_FAIL;
}
void HITLS_X509_CrlFree(HITLS_X509_Crl *c) { (void)c; }
void BSL_LIST_DeleteAll(BslList *l, BSL_LIST_PFUNC_FREE f) { (void)f; if (l != NULL) G.freed++; }

static void setup(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true; G.getOk = vp_bool();
    c_st.verifyCb = cb; c_st.crls = NULL;
    c_now = vp_i64();
#ifdef FLAGS
    c_st.verifyParam.flags = FLAGS;
#else
    c_st.verifyParam.flags = vp_u64();
#endif
    for (int i = 0; i < 3; i++) {
        c_cert[i].tbs.ealPubKey = &c_key[i]; c_cert[i].tbs.version = vp_i32();
        c_cert[i].tbs.ext.extData = &c_ext[i]; c_ext[i].extFlags = vp_u32(); c_ext[i].keyUsage = vp_u32();
        n_chain[i].data = &c_cert[i];
    }
    mk(&l_chain, n_chain, LEN);
    c_cert[1].tbs.subjectName = &c_names[2]; c_cert[1].tbs.issuerName = &c_names[3];
    c_cert[0].tbs.serialNum.tag = vp_u8(); c_cert[0].tbs.serialNum.len = vp_range(0, 4); c_cert[0].tbs.serialNum.buff = c_serial;
    VP_BYTES(c_serial, 4);
    for (int i = 0; i < 2; i++) {
        G.startOk[i] = vp_bool(); G.endOk[i] = vp_bool(); G.nameOk[i] = vp_bool(); G.akiOk[i] = vp_bool(); G.algOk[i] = vp_bool(); G.keyAlgOk[i] = vp_bool(); G.sigOk[i] = vp_bool();
        G.start[i] = vp_i64(); G.end[i] = vp_i64();
        c_crl[i].tbs.validTime.flag = vp_u8(); c_crl[i].tbs.version = vp_i32(); c_crl[i].tbs.issuerName = &c_names[i];
        for (int j = 0; j < 2; j++) {
            c_ent[i][j].serialNumber.tag = vp_u8(); c_ent[i][j].serialNumber.len = vp_range(0, 4); c_ent[i][j].serialNumber.buff = c_es[i][j];
            VP_BYTES(c_es[i][j], 4);
            n_ent[i][j].data = &c_ent[i][j];
            c_x[i][j].cid = vp_range(0, 5000); c_x[i][j].critical = vp_bool();
            n_x[i][j].data = &c_x[i][j];
        }
        mk(&l_ent[i], n_ent[i], NENT); mk(&l_x[i], n_x[i], NEXT);
        c_crl[i].tbs.revokedCerts = &l_ent[i]; c_crl[i].tbs.crlExt.extList = &l_x[i];
        n_crl[i].data = &c_crl[i];
    }
    mk(&l_crl, n_crl, NCRL);
}
static bool lite(void)
{
#ifdef HITLS_PKI_X509_VFY_CRL_LITE
    return true;
#else
    return (c_st.verifyParam.flags & HITLS_X509_VFY_FLAG_CRL_LITE) != 0;
#endif
}
static bool timeOk(int i, const int64_t *t)
{
    if (t == NULL) return true;
    if (!G.startOk[i] || G.start[i] > *t) return false;
    return (c_crl[i].tbs.validTime.flag & BSL_TIME_AFTER_SET) == 0 || (G.endOk[i] && G.end[i] >= *t);
}
/* the CRL belongs to the issuer and is current */
static bool applies(int i, const int64_t *t)
{
    return G.nameOk[i] && (c_cert[1].tbs.version != HITLS_X509_VERSION_3 || c_crl[i].tbs.version != 1 || G.akiOk[i]) && timeOk(i, t);
}
static bool listed(int i)
{
    bool r = false;
    for (int j = 0; j < NENT; j++) {
        bool eq = c_ent[i][j].serialNumber.tag == c_cert[0].tbs.serialNum.tag && c_ent[i][j].serialNumber.len == c_cert[0].tbs.serialNum.len;
        for (uint32_t b = 0; b < 4; b++) if (b < c_cert[0].tbs.serialNum.len && c_es[i][j][b] != c_serial[b]) eq = false;
        if (eq) r = true;
    }
    return r;
}
static bool good(int i)
{
    bool r = G.algOk[i] && G.keyAlgOk[i] && G.sigOk[i] && !listed(i);
    for (int j = 0; j < NEXT; j++) if (c_x[i][j].critical && c_x[i][j].cid != BSL_CID_CE_AUTHORITYKEYIDENTIFIER && c_x[i][j].cid != BSL_CID_CE_CRLNUMBER &&
        !(!lite() && (c_x[i][j].cid == BSL_CID_CE_ISSUINGDISTRIBUTIONPOINT || c_x[i][j].cid == BSL_CID_CE_DELTACRLINDICATOR))) r = false;
    return r;
}
static bool certOk(const int64_t *t)
{
    bool some = false, r = true;
    if ((c_ext[1].extFlags & HITLS_X509_EXT_FLAG_KUSAGE) != 0 && (c_ext[1].keyUsage & 0x0002u) == 0) return false;    /* cRLSign */
    for (int i = 0; i < NCRL; i++) if (applies(i, t)) { some = true; if (!good(i)) r = false; }
    return some && r;
}
#define CHECKED ((c_st.verifyParam.flags & (HITLS_X509_VFY_FLAG_CRL_ALL | HITLS_X509_VFY_FLAG_CRL_DEV)) != 0)
#ifdef WHICH
#define K_HITLS_X509_VerifyCrl(REQ, ENS) \
    REQ("chain", storeCtx == &c_st && chain == &l_chain) \
    ENS("no CRL is kept", VP_IMP(G.getOk, c_st.crls == NULL))
#else
#define K_HITLS_X509_VerifyCrl(REQ, ENS) \
    REQ("chain", storeCtx == &c_st && chain == &l_chain) \
    ENS("with CRL checking on, the leaf passes exactly if a current, valid CRL of its issuer exists and no such CRL lists it", \
        (VP_RET == HITLS_PKI_SUCCESS) == (!CHECKED || LEN == 1 || (G.getOk && certOk(time)))) \
    ENS("each check is made on the CRL and the issuer at hand", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, G.args)) \
    ENS("no CRL is kept", VP_IMP(G.getOk, c_st.crls == NULL))
#endif
int32_t HITLS_X509_VerifyCrl(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *chain, int64_t *time)
    VP_CONTRACT(K_HITLS_X509_VerifyCrl, G, c_st);
/*@unit
name: crl_one
entry: h_crl
enforce: HITLS_X509_VerifyCrl
def: NCRL=1 NENT=2 NEXT=2 LEN=2
*/
/*@unit
name: crl_two
entry: h_crl
enforce: HITLS_X509_VerifyCrl
def: NCRL=2 NENT=1 NEXT=1 LEN=2
*/
/*@unit
name: crl_none
entry: h_crl
enforce: HITLS_X509_VerifyCrl
def: NCRL=0 NENT=1 NEXT=1 LEN=2
*/
/*@unit
name: crl_single_cert
entry: h_crl
enforce: HITLS_X509_VerifyCrl
def: NCRL=1 NENT=1 NEXT=1 LEN=1
*/
/*@unit
name: crl_empty_lists
entry: h_crl
enforce: HITLS_X509_VerifyCrl
def: NCRL=1 NENT=0 NEXT=0 LEN=2
*/
void h_crl(void)
{
    setup();
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_List *chain = &l_chain; int64_t *time = vp_bool() ? &c_now : NULL; int32_t r;
    VP_CALL(K_HITLS_X509_VerifyCrl, r, HITLS_X509_VerifyCrl(storeCtx, chain, time));
#if NCRL > 0 && LEN > 1
    VP_REACH(r == HITLS_PKI_SUCCESS && CHECKED && time != NULL, "passes");
#if NENT > 0
    VP_REACH(r == HITLS_X509_ERR_VFY_CERT_REVOKED, "revoked");
#endif
#endif
    VP_REACH(r == HITLS_PKI_SUCCESS, "accepted");
}

/* ---- which certificates of the chain are checked ---- */
int32_t vp_lite(HITLS_X509_StoreCtx *s, HITLS_X509_Cert *cert, HITLS_X509_Cert *parent, int32_t depth, int64_t *time)
{
    if (s != &c_st || depth < 0 || depth > 1 || cert != &c_cert[depth] || parent != &c_cert[depth + 1] || (time != NULL) != G.timeArg || s->crls != &l_crl) G.args = false;
    else G.seen[depth] = true;
    G.calls++;
    return G.ret[depth & 1];
}
/*@unit
name: crl_which
entry: h_which
enforce: HITLS_X509_VerifyCrl
def: WHICH LEN=3
swap: HITLS_X509_CheckCertCrlLite:vp_lite HITLS_X509_CheckCertCrl:vp_lite
*/
void h_which(void)
{
    setup();
    G.ret[0] = vp_i32(); G.ret[1] = vp_i32();
    G.timeArg = vp_bool();
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_List *chain = &l_chain; int64_t *time = G.timeArg ? &c_now : NULL; int32_t r;
    VP_CALL(K_HITLS_X509_VerifyCrl, r, HITLS_X509_VerifyCrl(storeCtx, chain, time));
    bool all = (c_st.verifyParam.flags & HITLS_X509_VFY_FLAG_CRL_ALL) != 0;
    VP_ASSERT(!CHECKED || r != HITLS_PKI_SUCCESS || (G.seen[0] && G.ret[0] == HITLS_PKI_SUCCESS), "the leaf is checked");
    VP_ASSERT(!all || r != HITLS_PKI_SUCCESS || (G.seen[1] && G.ret[1] == HITLS_PKI_SUCCESS), "with CRL_ALL every issued certificate is checked");
    VP_ASSERT(!CHECKED || !G.getOk || G.ret[0] != HITLS_PKI_SUCCESS || G.ret[1] != HITLS_PKI_SUCCESS || r == HITLS_PKI_SUCCESS, "passes when all pass");
    VP_ASSERT(CHECKED || (r == HITLS_PKI_SUCCESS && G.calls == 0), "no check unless asked for");
    VP_ASSERT(G.args, "each certificate is paired with its issuer");
    VP_REACH(r == HITLS_PKI_SUCCESS && G.calls == 2, "both"); VP_REACH(r == HITLS_PKI_SUCCESS && G.calls == 1, "leaf only");
}

/* ---- one entry, one validity period ---- */
#ifdef ENTRY
static uint8_t b_s[2][32];
static bool sameSerial(void)
{
    if (c_cert[0].tbs.serialNum.tag != c_ent[0][0].serialNumber.tag || c_cert[0].tbs.serialNum.len != c_ent[0][0].serialNumber.len) return false;
    for (uint32_t i = 0; i < 32; i++) if (i < c_cert[0].tbs.serialNum.len && b_s[0][i] != b_s[1][i]) return false;
    return true;
}
#define K_HITLS_X509_CheckCertRevoked(REQ, ENS) \
    REQ("arguments", cert == &c_cert[0] && crlEntry == &c_ent[0][0]) \
    ENS("revoked exactly if the serial numbers are equal", (VP_RET == HITLS_PKI_SUCCESS) == !sameSerial())
int32_t HITLS_X509_CheckCertRevoked(HITLS_X509_Cert *cert, HITLS_X509_CrlEntry *crlEntry, int32_t depth) VP_CONTRACT(K_HITLS_X509_CheckCertRevoked, G);
/*@unit
name: crl_entry
entry: h_ent
enforce: HITLS_X509_CheckCertRevoked
def: ENTRY
unwind: 34
bound: serial numbers of at most 32 bytes
*/
void h_ent(void)
{
    setup();
    VP_BYTES(b_s, sizeof(b_s));
    c_cert[0].tbs.serialNum.buff = b_s[0]; c_cert[0].tbs.serialNum.len = vp_range(0, 32);
    c_ent[0][0].serialNumber.buff = b_s[1]; c_ent[0][0].serialNumber.len = vp_range(0, 32);
    HITLS_X509_Cert *cert = &c_cert[0]; HITLS_X509_CrlEntry *crlEntry = &c_ent[0][0]; int32_t depth = vp_i32(), r;
    VP_CALL(K_HITLS_X509_CheckCertRevoked, r, HITLS_X509_CheckCertRevoked(cert, crlEntry, depth));
    VP_REACH(r != HITLS_PKI_SUCCESS && cert->tbs.serialNum.len == 32, "revoked"); VP_REACH(r == HITLS_PKI_SUCCESS, "not");
}
#define K_HITLS_X509_CheckCrlTime(REQ, ENS) \
    REQ("arguments", storeCtx == &c_st && crl == &c_crl[0]) \
    ENS("current exactly if thisUpdate <= time and, where nextUpdate is set, time <= nextUpdate", (VP_RET == HITLS_PKI_SUCCESS) == timeOk(0, time)) \
    ENS("own arguments", G.args)
int32_t HITLS_X509_CheckCrlTime(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_Crl *crl, int32_t depth, const int64_t *time) VP_CONTRACT(K_HITLS_X509_CheckCrlTime, G, c_st);
/*@unit
name: crl_time
entry: h_ctm
enforce: HITLS_X509_CheckCrlTime
def: ENTRY
level: proof
*/
void h_ctm(void)
{
    setup();
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_Crl *crl = &c_crl[0]; int32_t depth = vp_i32(), r; const int64_t *time = vp_bool() ? &c_now : NULL;
    VP_CALL(K_HITLS_X509_CheckCrlTime, r, HITLS_X509_CheckCrlTime(storeCtx, crl, depth, time));
    VP_REACH(r != HITLS_PKI_SUCCESS, "stale"); VP_REACH(r == HITLS_PKI_SUCCESS && time != NULL, "current");
}
#endif
