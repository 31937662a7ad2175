/* Looking an issuer up in the trust store, and identity of certificates. */
/*@defaults
unwind: 10
object_bits: 10
level: bounded
*/
#include "vp.h"
#include "hitls_build.h"
#include "bsl_list.h"
#include "bsl_sal.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_errno.h"
#include "hitls_x509_local.h"
#include "hitls_cert_local.h"
#include "hitls_x509_verify.h"
#include "bsl_errno.h"
#include "hitls_x509_store_local.h"
#include "bsl_list_internal.h"
static struct { bool args, iss[3], lockOk; int32_t locks, nameRet; } G;
static HITLS_X509_StoreCtx c_ctx;
static HITLS_X509_Store c_store;
static HITLS_X509_Cert c_cert[3], c_x, c_y;
static BslListNode n_c[3];
static BslList l_c;
static uint8_t c_raw[2][8], c_sig[2][8], c_lock;
int32_t BSL_SAL_ThreadReadLock(BSL_SAL_ThreadLockHandle l) { if ((uint8_t *)l != &c_lock) G.args = false; if (!G.lockOk) return BSL_SAL_ERR_UNKNOWN; G.locks++; return BSL_SUCCESS; }
int32_t BSL_SAL_ThreadUnlock(BSL_SAL_ThreadLockHandle l) { if ((uint8_t *)l != &c_lock) G.args = false; G.locks--; return BSL_SUCCESS; }
#ifdef FIND
bool HITLS_X509_CheckIssued(HITLS_X509_Cert *issue, HITLS_X509_Cert *subject)
{
    if (subject != &c_x) G.args = false;
    if (G.locks != 1) G.args = false;
    for (int i = 0; i < 3; i++) if (issue == &c_cert[i]) return G.iss[i];
    G.args = false;
    return false;
}
static int first(void) { for (int i = 0; i < 3; i++) if (G.iss[i]) return i; return -1; }
#define K_HITLS_X509_StoreFindIssuerInTrust(REQ, ENS) \
    REQ("arguments", store == &c_store && storeCtx == &c_ctx && cert == &c_x && issue != NULL && *issue == NULL) \
    ENS("finds exactly a stored certificate that issued this one", (VP_RET == HITLS_PKI_SUCCESS) == (G.lockOk && first() >= 0)) \
    ENS("the certificate found is from the store", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, first() >= 0 && *issue == &c_cert[first() & 3])) \
    ENS("nothing is reported otherwise", VP_IMP(VP_RET != HITLS_PKI_SUCCESS, *issue == NULL)) \
    ENS("read under the store lock, which is released", G.args && G.locks == 0)
int32_t HITLS_X509_StoreFindIssuerInTrust(HITLS_X509_Store *store, HITLS_X509_StoreCtx *storeCtx, HITLS_X509_Cert *cert, HITLS_X509_Cert **issue)
    VP_CONTRACT(K_HITLS_X509_StoreFindIssuerInTrust, G, *issue);
/*@unit
name: find_issuer
entry: h_fi
enforce: HITLS_X509_StoreFindIssuerInTrust
def: FIND OPENHITLSDIR="x"
src: pki/x509_verify/src/hitls_x509_store.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
bound: trust stores of three certificates, no CA path set
assume: a store without CA paths (on-demand loading from files is not modelled)
*/
void h_fi(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true; G.lockOk = vp_bool();
    for (int i = 0; i < 3; i++) { G.iss[i] = vp_bool(); n_c[i].data = &c_cert[i]; n_c[i].prev = i ? &n_c[i - 1] : NULL; n_c[i].next = i < 2 ? &n_c[i + 1] : NULL; }
    l_c.first = &n_c[0]; l_c.last = &n_c[2]; l_c.curr = NULL; l_c.count = 3;
    c_store.certs = &l_c; c_store.caPaths = NULL; c_store.rwLock = (BSL_SAL_ThreadLockHandle)&c_lock;
    static HITLS_X509_Cert *out; out = NULL;
    HITLS_X509_Store *store = &c_store; HITLS_X509_StoreCtx *storeCtx = &c_ctx; HITLS_X509_Cert *cert = &c_x; HITLS_X509_Cert **issue = &out; int32_t r;
    VP_CALL(K_HITLS_X509_StoreFindIssuerInTrust, r, HITLS_X509_StoreFindIssuerInTrust(store, storeCtx, cert, issue));
    VP_REACH(r == HITLS_PKI_SUCCESS && out == &c_cert[2], "last"); VP_REACH(r != HITLS_PKI_SUCCESS, "none");
}
#endif
#ifdef CMP
int32_t HITLS_X509_CmpNameNode(BSL_ASN1_List *a, BSL_ASN1_List *b) { if (a != c_x.tbs.subjectName || b != c_y.tbs.subjectName) G.args = false; return G.nameRet; }
static bool eqb(const uint8_t *a, uint32_t al, const uint8_t *b, uint32_t bl)
{
    if (al != bl) return false;
    for (uint32_t i = 0; i < 8; i++) if (i < al && a[i] != b[i]) return false;
    return true;
}
#define K_HITLS_X509_CertCmp(REQ, ENS) \
    REQ("arguments", certOri == &c_x && (cert == &c_y || cert == &c_x)) \
    ENS("the same exactly if name, signed contents, algorithm and signature are the same", (VP_RET == 0) == (cert == certOri || (G.nameRet == 0 && \
        eqb(c_raw[0], c_x.tbs.tbsRawDataLen, c_raw[1], c_y.tbs.tbsRawDataLen) && c_x.tbs.signAlgId.algId == c_y.tbs.signAlgId.algId && \
        eqb(c_sig[0], c_x.signature.len, c_sig[1], c_y.signature.len)))) \
    ENS("own arguments", G.args)
int32_t HITLS_X509_CertCmp(HITLS_X509_Cert *certOri, HITLS_X509_Cert *cert) VP_CONTRACT(K_HITLS_X509_CertCmp, G);
/*@unit
name: cert_cmp
entry: h_cc
enforce: HITLS_X509_CertCmp
def: CMP
src: pki/x509_verify/src/hitls_x509_verify.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
bound: certificate contents and signatures of at most 8 bytes
*/
void h_cc(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true; G.nameRet = vp_i32();
    VP_BYTES(c_raw, sizeof(c_raw)); VP_BYTES(c_sig, sizeof(c_sig));
    c_x.tbs.subjectName = (BSL_ASN1_List *)&n_c[0]; c_y.tbs.subjectName = (BSL_ASN1_List *)&n_c[1];
    c_x.tbs.tbsRawData = c_raw[0]; c_y.tbs.tbsRawData = c_raw[1]; c_x.tbs.tbsRawDataLen = vp_range(0, 8); c_y.tbs.tbsRawDataLen = vp_range(0, 8);
    c_x.signature.buff = c_sig[0]; c_y.signature.buff = c_sig[1]; c_x.signature.len = vp_range(0, 8); c_y.signature.len = vp_range(0, 8);
    c_x.tbs.signAlgId.algId = vp_i32(); c_y.tbs.signAlgId.algId = vp_i32();
    HITLS_X509_Cert *certOri = &c_x, *cert = vp_bool() ? &c_x : &c_y; int32_t r;
    VP_CALL(K_HITLS_X509_CertCmp, r, HITLS_X509_CertCmp(certOri, cert));
    VP_REACH(r == 0 && cert == &c_y, "equal"); VP_REACH(r != 0, "different");
}
#endif
