/* Who issued whom: names, key identifiers, algorithms; and the signature check itself around the primitive. */
/*@defaults
src: pki/x509_cert/src/hitls_x509_cert.c
unwind: 6
object_bits: 10
level: proof
assume: public key operations, extension decoding and string canonicalisation are callee contracts
*/
#include "vp.h"
#include "hitls_build.h"
#include "bsl_list.h"
#include "bsl_sal.h"
#include "bsl_obj.h"
#include "bsl_obj_internal.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_errno.h"
#include "hitls_x509_local.h"
#include "hitls_cert_local.h"
#include "crypt_eal_pkey.h"
#include "crypt_errno.h"
#include "bsl_errno.h"
#include "bsl_list_internal.h"

static struct {
    bool args, dupOk;
    int32_t nameRet, akiRet, algRet, consRet, sigRet;
    int32_t skiRet, akiGet, issCmp;
    int32_t pkId, pad, padRet, md, mdRet, mgf, mgfRet, salt, saltRet, para, paraRet, setRet, hash, hashRet, vfyRet;
    BslCid asym;
    uint32_t cleared, dup, freed, verified, sets, pkcs, pss, uid;
} G;
static HITLS_X509_Cert c_a, c_b;
static uint8_t c_key, c_dup, c_raw;
static HITLS_X509_Asn1AlgId c_alg, c_alg2;
static BSL_ASN1_BitString c_sig;

int32_t BSL_ERR_SetMark(void) { return BSL_SUCCESS; }
int32_t BSL_ERR_PopToMark(void) { return BSL_SUCCESS; }

#ifdef ISSUED
static HITLS_X509_Cert *c_iss, *c_sub;
int32_t HITLS_X509_CmpNameNode(BSL_ASN1_List *a, BSL_ASN1_List *b) { if (a != c_iss->tbs.subjectName || b != c_sub->tbs.issuerName) G.args = false; return G.nameRet; }
int32_t HITLS_X509_CheckAki(HITLS_X509_Ext *ie, HITLS_X509_Ext *se, BSL_ASN1_List *iss, BSL_ASN1_Buffer *sn)
{ if (ie != &c_iss->tbs.ext || se != &c_sub->tbs.ext || iss != c_iss->tbs.issuerName || sn != &c_iss->tbs.serialNum) G.args = false; return G.akiRet; }
int32_t HITLS_X509_CheckAlg(CRYPT_EAL_PkeyCtx *k, const HITLS_X509_Asn1AlgId *s) { if (k != c_iss->tbs.ealPubKey || s != &c_sub->tbs.signAlgId) G.args = false; return G.algRet; }
int32_t HITLS_X509_CheckSignAlgConsistency(const HITLS_X509_Asn1AlgId *a, const HITLS_X509_Asn1AlgId *b) { if (a != &c_a.tbs.signAlgId || b != &c_a.signAlgId) G.args = false; return G.consRet; }
int32_t HITLS_X509_CheckSignature(const CRYPT_EAL_PkeyCtx *k, uint8_t *raw, uint32_t len, const HITLS_X509_Asn1AlgId *alg, const BSL_ASN1_BitString *s)
{
    if (k != c_a.tbs.ealPubKey || raw != c_a.tbs.tbsRawData || len != c_a.tbs.tbsRawDataLen || alg != &c_a.signAlgId || s != &c_a.signature) G.args = false;
    return G.sigRet;
}
static void setup(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true;
    G.nameRet = vp_i32(); G.akiRet = vp_i32(); G.algRet = vp_i32(); G.consRet = vp_i32(); G.sigRet = vp_i32();
    c_a.tbs.version = vp_i32(); c_b.tbs.version = vp_i32(); c_a.isSelfIssued = vp_bool();
    c_a.tbs.subjectName = (BSL_ASN1_List *)&c_alg; c_b.tbs.issuerName = (BSL_ASN1_List *)&c_alg2;
    c_a.tbs.issuerName = (BSL_ASN1_List *)&c_sig; c_b.tbs.subjectName = (BSL_ASN1_List *)&c_raw;
    c_a.tbs.ealPubKey = (CRYPT_EAL_PkeyCtx *)&c_key; c_b.tbs.ealPubKey = (CRYPT_EAL_PkeyCtx *)&c_dup;
    c_a.tbs.tbsRawData = &c_raw; c_a.tbs.tbsRawDataLen = vp_u32();
}
#define NONAME ((c_iss->tbs.version != HITLS_X509_VERSION_3 || c_sub->tbs.version != HITLS_X509_VERSION_3 || G.akiRet == HITLS_PKI_SUCCESS) && G.algRet == HITLS_PKI_SUCCESS)
#define K_HITLS_X509_CheckIssued(REQ, ENS) \
    REQ("certificates", issue == c_iss && subject == c_sub) \
    ENS("issuer exactly if the names, the key identifiers of version 3 certificates and the algorithm match", \
        VP_RET == (G.nameRet == 0 && NONAME)) \
    ENS("own arguments", G.args)
bool HITLS_X509_CheckIssued(HITLS_X509_Cert *issue, HITLS_X509_Cert *subject)
    VP_CONTRACT(K_HITLS_X509_CheckIssued, G);
/*@unit
name: check_issued
entry: h_ci
enforce: HITLS_X509_CheckIssued
def: ISSUED
*/
void h_ci(void)
{
    setup();
    c_iss = &c_a; c_sub = &c_b;
    HITLS_X509_Cert *issue = &c_a, *subject = &c_b; bool r;
    VP_CALL(K_HITLS_X509_CheckIssued, r, HITLS_X509_CheckIssued(issue, subject));
    VP_REACH(r, "yes"); VP_REACH(!r, "no");
}
#define SELFSIG (G.consRet == HITLS_PKI_SUCCESS && G.sigRet == HITLS_PKI_SUCCESS)
#define K_HITLS_X509_IsSelfSigned(REQ, ENS) \
    REQ("certificate", cert == &c_a && c_iss == &c_a && c_sub == &c_a) \
    ENS("self-signed exactly if self-issued, self-consistent and signed with its own key", VP_RET == (c_a.isSelfIssued && NONAME && SELFSIG)) \
    ENS("own arguments", G.args)
bool HITLS_X509_IsSelfSigned(HITLS_X509_Cert *cert) VP_CONTRACT(K_HITLS_X509_IsSelfSigned, G);
/*@unit
name: is_self_signed
entry: h_iss
enforce: HITLS_X509_IsSelfSigned
def: ISSUED
*/
void h_iss(void)
{
    setup();
    c_iss = &c_a; c_sub = &c_a;
    HITLS_X509_Cert *cert = &c_a; bool r;
    VP_CALL(K_HITLS_X509_IsSelfSigned, r, HITLS_X509_IsSelfSigned(cert));
    VP_REACH(r, "yes"); VP_REACH(!r, "no");
}
#define K_HITLS_X509_CheckSelfSignedSignature(REQ, ENS) \
    REQ("certificate", cert == &c_a) \
    ENS("accepted exactly if the own key verifies the own signature", VP_RET == SELFSIG) \
    ENS("own arguments", G.args)
bool HITLS_X509_CheckSelfSignedSignature(HITLS_X509_Cert *cert) VP_CONTRACT(K_HITLS_X509_CheckSelfSignedSignature, G);
/*@unit
name: self_signed_signature
entry: h_sss
enforce: HITLS_X509_CheckSelfSignedSignature
def: ISSUED
*/
void h_sss(void)
{
    setup();
    HITLS_X509_Cert *cert = &c_a; bool r;
    VP_CALL(K_HITLS_X509_CheckSelfSignedSignature, r, HITLS_X509_CheckSelfSignedSignature(cert));
    VP_REACH(r, "yes"); VP_REACH(!r, "no");
}
#endif

#ifdef COMMON
static BslListNode n_o[3], n_n[3], n_g[2];
static BslList l_o, l_n, l_g;
static HITLS_X509_NameNode c_o[2], c_n[2];
static uint8_t b_t[4][4], b_v[4][4], b_u[4][4], b_kid[2][8], b_sn[2][8];
static HITLS_X509_GeneralName c_gn[2];
static HITLS_X509_ExtAki c_aki;
static HITLS_X509_ExtSki c_ski;
static HITLS_X509_Ext c_ie, c_se;
static BSL_ASN1_Buffer c_sn;
static void mk(BslList *l, BslListNode *a, int n)
{
    for (int i = 0; i < 3; i++) if (i < n) { a[i].prev = i ? &a[i - 1] : NULL; a[i].next = i + 1 < n ? &a[i + 1] : NULL; }
    l->first = n ? &a[0] : NULL; l->last = n ? &a[n - 1] : NULL; l->curr = NULL; l->count = n;
}
int32_t X509_ExtCtrl(HITLS_X509_Ext *ext, int32_t cmd, void *val, uint32_t valLen)
{
    if (cmd == HITLS_X509_EXT_GET_SKI && ext == &c_ie && valLen == sizeof(HITLS_X509_ExtSki)) { *(HITLS_X509_ExtSki *)val = c_ski; return G.skiRet; }
    if (cmd == HITLS_X509_EXT_GET_AKI && ext == &c_se && valLen == sizeof(HITLS_X509_ExtAki)) { *(HITLS_X509_ExtAki *)val = c_aki; return G.akiGet; }
    G.args = false;
    return HITLS_X509_ERR_INVALID_PARAM;
}
void HITLS_X509_ClearAuthorityKeyId(HITLS_X509_ExtAki *a) { if (a->issuerName != NULL) G.cleared++; a->issuerName = NULL; }
int32_t vp_cmpname(BSL_ASN1_List *a, BSL_ASN1_List *b)
{
    if (a != (BSL_ASN1_List *)&c_raw || b != &l_n) G.args = false;
    return G.issCmp;
}
static bool eqb(const uint8_t *a, uint32_t al, const uint8_t *b, uint32_t bl)
{
    if (al != bl) return false;
    for (uint32_t i = 0; i < 8; i++) if (i < al && a[i] != b[i]) return false;
    return true;
}
static bool issOk(void)
{
    if (c_aki.issuerName == NULL) return true;
    for (int i = 0; i < 2; i++) if (c_gn[i].type == HITLS_X509_GN_DNNAME) return i == 0 || c_gn[0].type != HITLS_X509_GN_DNNAME ? G.issCmp == 0 : true;
    return false;
}
static bool akiOk(void)
{
    if (G.skiRet == HITLS_X509_ERR_EXT_NOT_FOUND) return true;
    if (G.skiRet != HITLS_PKI_SUCCESS) return false;
    if (G.akiGet == HITLS_X509_ERR_EXT_NOT_FOUND) return true;
    if (G.akiGet != HITLS_PKI_SUCCESS) return false;
    if (c_aki.kid.data != NULL && c_aki.kid.dataLen != 0 && !eqb(b_kid[0], c_ski.kid.dataLen, b_kid[1], c_aki.kid.dataLen)) return false;
    if (!issOk()) return false;
    if (c_aki.serialNum.data != NULL && c_aki.serialNum.dataLen != 0 && !eqb(b_sn[0], c_sn.len, b_sn[1], c_aki.serialNum.dataLen)) return false;
    return true;
}
#ifdef AKI
#define K_HITLS_X509_CheckAki(REQ, ENS) \
    REQ("arguments", issueExt == &c_ie && subjectExt == &c_se && issueName == &l_n && serialNum == &c_sn) \
    ENS("matches exactly if every identifier present on both sides agrees", (VP_RET == HITLS_PKI_SUCCESS) == akiOk()) \
    ENS("the decoded names are released once", VP_IMP(G.skiRet == HITLS_PKI_SUCCESS && G.akiGet == HITLS_PKI_SUCCESS && c_aki.issuerName != NULL, G.cleared == 1)) \
    ENS("own arguments", G.args)
int32_t HITLS_X509_CheckAki(HITLS_X509_Ext *issueExt, HITLS_X509_Ext *subjectExt, BSL_ASN1_List *issueName, BSL_ASN1_Buffer *serialNum)
    VP_CONTRACT(K_HITLS_X509_CheckAki, G);
/*@unit
name: check_aki
entry: h_aki
enforce: HITLS_X509_CheckAki
def: COMMON AKI
src: pki/x509_common/src/hitls_x509_common.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
swap: HITLS_X509_CmpNameNode:vp_cmpname
level: bounded
bound: key identifiers and serial numbers of at most 8 bytes, two general names
unwind: 10
*/
void h_aki(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true;
    G.skiRet = vp_i32(); G.akiGet = vp_i32(); G.issCmp = vp_i32();
    VP_BYTES(b_kid, sizeof(b_kid)); VP_BYTES(b_sn, sizeof(b_sn));
    c_ski.kid.data = b_kid[0]; c_ski.kid.dataLen = vp_range(0, 8);
    c_aki.kid.data = vp_bool() ? b_kid[1] : NULL; c_aki.kid.dataLen = vp_range(0, 8);
    c_sn.buff = b_sn[0]; c_sn.len = vp_range(0, 8);
    c_aki.serialNum.data = vp_bool() ? b_sn[1] : NULL; c_aki.serialNum.dataLen = vp_range(0, 8);
    for (int i = 0; i < 2; i++) { c_gn[i].type = vp_range(0, 10); c_gn[i].value.data = &c_raw; n_g[i].data = &c_gn[i]; }
    mk(&l_g, n_g, 2);
    c_aki.issuerName = vp_bool() ? &l_g : NULL;
    HITLS_X509_Ext *issueExt = &c_ie, *subjectExt = &c_se; BSL_ASN1_List *issueName = &l_n; BSL_ASN1_Buffer *serialNum = &c_sn; int32_t r;
    VP_CALL(K_HITLS_X509_CheckAki, r, HITLS_X509_CheckAki(issueExt, subjectExt, issueName, serialNum));
    VP_REACH(r == HITLS_PKI_SUCCESS && c_aki.issuerName != NULL && G.cleared, "match"); VP_REACH(r == HITLS_X509_ERR_VFY_AKI_SKI_NOT_MATCH, "mismatch");
}
#endif

/* ---- distinguished names ---- */
#ifdef NAME
static bool valEq(int i)
{
    if (c_o[i].nameValue.tag == c_n[i].nameValue.tag && eqb(b_v[i], c_o[i].nameValue.len, b_v[2 + i], c_n[i].nameValue.len)) return true;
    if (c_o[i].layer == 1) return false;
    return c_o[i].utf8Value.tag == c_n[i].utf8Value.tag && eqb(b_u[i], c_o[i].utf8Value.len, b_u[2 + i], c_n[i].utf8Value.len);
}
static bool namesEq(void)
{
    if (NO != NN) return false;
    for (int i = 0; i < NO; i++) {
        if (c_o[i].layer != c_n[i].layer || c_o[i].nameType.tag != c_n[i].nameType.tag || !eqb(b_t[i], c_o[i].nameType.len, b_t[2 + i], c_n[i].nameType.len) || !valEq(i)) return false;
    }
    return true;
}
#define K_HITLS_X509_CmpNameNode(REQ, ENS) \
    REQ("names", nameOri == &l_o && name == &l_n) \
    ENS("equal exactly if both names have the same components in the same order", (VP_RET == 0) == namesEq())
int32_t HITLS_X509_CmpNameNode(BSL_ASN1_List *nameOri, BSL_ASN1_List *name) VP_CONTRACT(K_HITLS_X509_CmpNameNode, G);
/*@unit
name: cmp_name_22
entry: h_cn
enforce: HITLS_X509_CmpNameNode
def: COMMON NAME NO=2 NN=2
src: pki/x509_common/src/hitls_x509_common.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
level: bounded
bound: names of two components of at most 4 bytes, with precomputed canonical values
unwind: 10
*/
/*@unit
name: cmp_name_12
entry: h_cn
enforce: HITLS_X509_CmpNameNode
def: COMMON NAME NO=1 NN=2
src: pki/x509_common/src/hitls_x509_common.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
level: bounded
bound: names of one and two components of at most 4 bytes, with precomputed canonical values
unwind: 10
*/
/*@unit
name: cmp_name_21
entry: h_cn
enforce: HITLS_X509_CmpNameNode
def: COMMON NAME NO=2 NN=1
src: pki/x509_common/src/hitls_x509_common.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
level: bounded
bound: names of two and one components of at most 4 bytes, with precomputed canonical values
unwind: 10
*/
static void node(HITLS_X509_NameNode *x, int i)
{
    x->layer = vp_u8();
    x->nameType.tag = vp_u8(); x->nameType.len = vp_range(0, 4); x->nameType.buff = b_t[i];
    x->nameValue.tag = vp_u8(); x->nameValue.len = vp_range(0, 4); x->nameValue.buff = b_v[i];
    x->utf8Value.tag = vp_u8(); x->utf8Value.len = vp_range(0, 4); x->utf8Value.buff = b_u[i];
    VP_ASSUME(x->layer == 1 || x->utf8Value.tag != 0);
}
void h_cn(void)
{
    memset(&G, 0, sizeof(G));
    VP_BYTES(b_t, sizeof(b_t)); VP_BYTES(b_v, sizeof(b_v)); VP_BYTES(b_u, sizeof(b_u));
    for (int i = 0; i < 2; i++) { node(&c_o[i], i); node(&c_n[i], 2 + i); n_o[i].data = &c_o[i]; n_n[i].data = &c_n[i]; }
    mk(&l_o, n_o, NO); mk(&l_n, n_n, NN);
    BSL_ASN1_List *nameOri = &l_o, *name = &l_n; int32_t r;
    VP_CALL(K_HITLS_X509_CmpNameNode, r, HITLS_X509_CmpNameNode(nameOri, name));
#if NO == NN
    VP_REACH(r == 0, "equal");
#endif
    VP_REACH(r != 0, "different");
}
#endif

/* ---- algorithms ---- */
#ifdef ALG
int32_t CRYPT_EAL_PkeyCtrl(CRYPT_EAL_PkeyCtx *k, int32_t opt, void *v, uint32_t l)
{
    if ((uint8_t *)k != &c_key && !((uint8_t *)k == &c_dup && G.dup)) G.args = false;
    switch (opt) {
        case CRYPT_CTRL_GET_RSA_PADDING: if (l != 4) G.args = false; *(int32_t *)v = G.pad; return G.padRet;
        case CRYPT_CTRL_GET_RSA_MD: if (l != 4) G.args = false; *(int32_t *)v = G.md; return G.mdRet;
        case CRYPT_CTRL_GET_RSA_MGF: if (l != 4) G.args = false; *(int32_t *)v = G.mgf; return G.mgfRet;
        case CRYPT_CTRL_GET_RSA_SALTLEN: if (l != 4) G.args = false; *(int32_t *)v = G.salt; return G.saltRet;
        case CRYPT_CTRL_GET_PARAID: if (l != 4) G.args = false; *(int32_t *)v = G.para; return G.paraRet;
        case CRYPT_CTRL_SET_RSA_EMSA_PKCSV15: if (*(int32_t *)v == G.hash) G.pkcs++; return G.setRet;
        case CRYPT_CTRL_SET_RSA_EMSA_PSS: G.pss++; return G.setRet;
        case CRYPT_CTRL_SET_SM2_USER_ID: if (v == c_alg.sm2UserId.data && l == c_alg.sm2UserId.dataLen) G.uid++; return G.setRet;
        default: G.sets++; return G.setRet;
    }
}
CRYPT_PKEY_AlgId CRYPT_EAL_PkeyGetId(const CRYPT_EAL_PkeyCtx *k) { if ((const uint8_t *)k != &c_key && (const uint8_t *)k != &c_dup) G.args = false; return (CRYPT_PKEY_AlgId)G.pkId; }
BslCid BSL_OBJ_GetAsymAlgIdFromSignId(BslCid c) { if (c != c_alg.algId) G.args = false; return G.asym; }
int32_t OBJ_GetHashIdFromSignId(BslCid c, int32_t *h) { if (c != c_alg.algId) G.args = false; *h = G.hash; return G.hashRet; }
CRYPT_EAL_PkeyCtx *CRYPT_EAL_PkeyDupCtx(const CRYPT_EAL_PkeyCtx *k) { if ((const uint8_t *)k != &c_key) G.args = false; if (!G.dupOk) return NULL; G.dup++; return (CRYPT_EAL_PkeyCtx *)&c_dup; }
void CRYPT_EAL_PkeyFreeCtx(CRYPT_EAL_PkeyCtx *k) { if ((uint8_t *)k == &c_dup) G.freed++; else if (k != NULL) G.args = false; }
int32_t CRYPT_EAL_PkeyVerify(const CRYPT_EAL_PkeyCtx *k, CRYPT_MD_AlgId id, const uint8_t *d, uint32_t n, const uint8_t *s, uint32_t sl)
{
    if ((const uint8_t *)k != &c_dup || d != &c_raw || n != c_a.tbs.tbsRawDataLen || s != c_sig.buff || sl != c_sig.len) G.args = false;
    if ((int32_t)id != (c_alg.algId == BSL_CID_RSASSAPSS ? (int32_t)c_alg.rsaPssParam.mdId : G.hash)) G.args = false;
    G.verified++;
    return G.vfyRet;
}
static void draw(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true; G.dupOk = vp_bool();
    G.pkId = vp_i32(); G.pad = vp_i32(); G.padRet = vp_i32(); G.md = vp_i32(); G.mdRet = vp_i32(); G.mgf = vp_i32(); G.mgfRet = vp_i32(); G.salt = vp_i32(); G.saltRet = vp_i32();
    G.para = vp_i32(); G.paraRet = vp_i32(); G.setRet = vp_i32(); G.hash = vp_i32(); G.hashRet = vp_i32(); G.vfyRet = vp_i32(); G.asym = (BslCid)vp_i32();
    c_alg.algId = (BslCid)vp_i32(); c_alg2.algId = (BslCid)vp_i32();
    c_alg.rsaPssParam.mdId = vp_i32(); c_alg.rsaPssParam.mgfId = vp_i32(); c_alg.rsaPssParam.saltLen = vp_i32();
    c_alg2.rsaPssParam.mdId = vp_i32(); c_alg2.rsaPssParam.mgfId = vp_i32(); c_alg2.rsaPssParam.saltLen = vp_i32();
}
static bool pssOk(void)
{
    return c_alg.algId == BSL_CID_RSASSAPSS && G.mdRet == CRYPT_SUCCESS && (G.md == CRYPT_MD_MAX || (G.md == (int32_t)c_alg.rsaPssParam.mdId && G.mgfRet == CRYPT_SUCCESS &&
        G.mgf == (int32_t)c_alg.rsaPssParam.mgfId && G.saltRet == CRYPT_SUCCESS && c_alg.rsaPssParam.saltLen >= G.salt));
}
static bool algOk(void)
{
    if (G.pkId == CRYPT_PKEY_MAX) return false;
    if (G.pkId == CRYPT_PKEY_RSA) {
        if (G.padRet != CRYPT_SUCCESS) return false;
        if (G.pad == CRYPT_EMSA_PSS) return pssOk();
    }
    if (G.asym == BSL_CID_UNKNOWN || G.pkId != (int32_t)G.asym) return false;
    if (G.pkId == CRYPT_PKEY_ML_DSA || G.pkId == CRYPT_PKEY_SLH_DSA || G.pkId == CRYPT_PKEY_COMPOSITE) return G.paraRet == CRYPT_SUCCESS && G.para == (int32_t)c_alg.algId;
    return true;
}
#define K_HITLS_X509_CheckAlg(REQ, ENS) \
    REQ("arguments", (uint8_t *)pubkey == &c_key && subAlg == &c_alg) \
    ENS("accepted exactly if the key's type and parameters fit the signature algorithm", (VP_RET == HITLS_PKI_SUCCESS) == algOk()) \
    ENS("own arguments", G.args)
int32_t HITLS_X509_CheckAlg(CRYPT_EAL_PkeyCtx *pubkey, const HITLS_X509_Asn1AlgId *subAlg) VP_CONTRACT(K_HITLS_X509_CheckAlg, G);
/*@unit
name: check_alg
entry: h_ca
enforce: HITLS_X509_CheckAlg
def: COMMON ALG
src: pki/x509_common/src/hitls_x509_common.c
*/
void h_ca(void)
{
    draw();
    CRYPT_EAL_PkeyCtx *pubkey = (CRYPT_EAL_PkeyCtx *)&c_key; const HITLS_X509_Asn1AlgId *subAlg = &c_alg; int32_t r;
    VP_CALL(K_HITLS_X509_CheckAlg, r, HITLS_X509_CheckAlg(pubkey, subAlg));
    VP_REACH(r == HITLS_PKI_SUCCESS && G.pkId == CRYPT_PKEY_RSA && G.pad == CRYPT_EMSA_PSS, "pss"); VP_REACH(r != HITLS_PKI_SUCCESS, "refused");
}
#define K_HITLS_X509_CheckSignAlgConsistency(REQ, ENS) \
    REQ("arguments", inner == &c_alg && outer == &c_alg2) \
    ENS("accepted exactly if the signed and the outer algorithm identifier agree", (VP_RET == HITLS_PKI_SUCCESS) == (inner->algId == outer->algId && \
        (inner->algId != BSL_CID_RSASSAPSS || (inner->rsaPssParam.mdId == outer->rsaPssParam.mdId && inner->rsaPssParam.mgfId == outer->rsaPssParam.mgfId && \
        inner->rsaPssParam.saltLen == outer->rsaPssParam.saltLen))))
int32_t HITLS_X509_CheckSignAlgConsistency(const HITLS_X509_Asn1AlgId *inner, const HITLS_X509_Asn1AlgId *outer) VP_CONTRACT(K_HITLS_X509_CheckSignAlgConsistency, G);
/*@unit
name: alg_consistency
entry: h_ac
enforce: HITLS_X509_CheckSignAlgConsistency
def: COMMON ALG
src: pki/x509_common/src/hitls_x509_common.c
*/
void h_ac(void)
{
    draw();
    const HITLS_X509_Asn1AlgId *inner = &c_alg, *outer = &c_alg2; int32_t r;
    VP_CALL(K_HITLS_X509_CheckSignAlgConsistency, r, HITLS_X509_CheckSignAlgConsistency(inner, outer));
    VP_REACH(r == HITLS_PKI_SUCCESS && inner->algId == BSL_CID_RSASSAPSS, "pss"); VP_REACH(r != HITLS_PKI_SUCCESS, "refused");
}
#define PQ (G.pkId == CRYPT_PKEY_ML_DSA || G.pkId == CRYPT_PKEY_SLH_DSA)
#define COMPALG (c_alg.algId >= BSL_CID_MLDSA44_RSA2048_PSS_SHA256 && c_alg.algId <= BSL_CID_MLDSA87_ECDSA_P521_SHA512)
#define K_HITLS_X509_CheckSignature(REQ, ENS) \
    REQ("arguments", (uint8_t *)pubKey == &c_key && rawData == &c_raw && alg == &c_alg && signature == &c_sig && rawDataLen == c_a.tbs.tbsRawDataLen) \
    ENS("accepted only if the primitive verified the whole contents with this key, hash and signature", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, \
        G.verified == 1 && G.vfyRet == CRYPT_SUCCESS && G.args && c_sig.unusedBits == 0)) \
    ENS("post-quantum keys only under their own parameter set", VP_IMP(VP_RET == HITLS_PKI_SUCCESS && (PQ || COMPALG), G.paraRet == CRYPT_SUCCESS && G.para == (int32_t)c_alg.algId)) \
    ENS("RSA padding follows the algorithm identifier", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, VP_IMP(c_alg.algId == BSL_CID_RSASSAPSS, G.pss == 1 && G.pkcs == 0 && G.setRet == CRYPT_SUCCESS) && \
        VP_IMP(c_alg.algId == BSL_CID_SHA256WITHRSAENCRYPTION || c_alg.algId == BSL_CID_SHA384WITHRSAENCRYPTION || c_alg.algId == BSL_CID_SHA512WITHRSAENCRYPTION, \
            G.pkcs == 1 && G.pss == 0 && G.setRet == CRYPT_SUCCESS))) \
    ENS("accepted when every step succeeds", VP_IMP(c_sig.unusedBits == 0 && G.hashRet == BSL_SUCCESS && G.dupOk && G.setRet == CRYPT_SUCCESS && G.paraRet == CRYPT_SUCCESS && \
        (!(PQ || COMPALG) || G.para == (int32_t)c_alg.algId) && G.vfyRet == CRYPT_SUCCESS, VP_RET == HITLS_PKI_SUCCESS)) \
    ENS("the key copy is released", G.freed == G.dup)
int32_t HITLS_X509_CheckSignature(const CRYPT_EAL_PkeyCtx *pubKey, uint8_t *rawData, uint32_t rawDataLen, const HITLS_X509_Asn1AlgId *alg, const BSL_ASN1_BitString *signature)
    VP_CONTRACT(K_HITLS_X509_CheckSignature, G);
/*@unit
name: check_signature
entry: h_cs
enforce: HITLS_X509_CheckSignature
def: COMMON ALG
src: pki/x509_common/src/hitls_x509_common.c
*/
void h_cs(void)
{
    draw();
    c_sig.unusedBits = vp_u8(); c_sig.buff = b_v[0]; c_sig.len = vp_u32();
    c_a.tbs.tbsRawDataLen = vp_u32();
    if (c_alg.algId != BSL_CID_RSASSAPSS) { c_alg.sm2UserId.data = vp_bool() ? b_v[1] : NULL; c_alg.sm2UserId.dataLen = vp_u32(); }
    const CRYPT_EAL_PkeyCtx *pubKey = (CRYPT_EAL_PkeyCtx *)&c_key; uint8_t *rawData = &c_raw; uint32_t rawDataLen = c_a.tbs.tbsRawDataLen;
    const HITLS_X509_Asn1AlgId *alg = &c_alg; const BSL_ASN1_BitString *signature = &c_sig; int32_t r;
    VP_CALL(K_HITLS_X509_CheckSignature, r, HITLS_X509_CheckSignature(pubKey, rawData, rawDataLen, alg, signature));
    VP_REACH(r == HITLS_PKI_SUCCESS && PQ, "pq"); VP_REACH(r == HITLS_PKI_SUCCESS && c_alg.algId == BSL_CID_RSASSAPSS, "pss"); VP_REACH(r != HITLS_PKI_SUCCESS && G.verified == 1, "bad signature");
}
#endif
#endif
