/* Text to address octets, and the identities configured on a store. */
/*@defaults
src: bsl/sal/src/sal_ip_util.c
level: bounded
object_bits: 10
solver: minisat2
*/
#define VP_OWN_SAL_MEM
#include "vp.h"
#include "hitls_build.h"
#include "bsl_errno.h"
#include "bsl_sal.h"
#include "bsl_list.h"
#include "bsl_list_internal.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_errno.h"
#include "hitls_x509_local.h"
#include "hitls_cert_local.h"
#include "hitls_x509_verify.h"
#ifndef MAXP
#define MAXP 8
#endif
static struct { uint32_t x; } G;

#ifdef PARSE
static char c_s[MAXP + 1];
static uint8_t c_out[16], c_want[16];
static int32_t c_len, lenS, g_len;
static bool c_ok;
int32_t SAL_ParseIp(const char *str, unsigned char *out, int32_t *outLen);
/* four decimal numbers up to 255, no superfluous zero, separated by single dots */
static bool dec4(int32_t from, int32_t to, uint8_t *o)
{
    int32_t v = 0, digits = 0, seg = 0; bool lead0 = false;
    for (int32_t i = 0; i <= MAXP; i++) {
        if (i < from || i > to) continue;
        if (i == to || c_s[i] == '.') {
            if (digits == 0 || digits > 3 || v > 255 || (lead0 && digits > 1) || seg > 3) return false;
            o[seg++] = (uint8_t)v; v = 0; digits = 0;
        } else {
            if (c_s[i] < '0' || c_s[i] > '9') return false;
            if (digits == 0) lead0 = c_s[i] == '0';
            if (digits < 4) { digits++; v = v * 10 + (c_s[i] - '0'); }
        }
    }
    return seg == 4;
}
static int32_t hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* groups of [from,to): returns how many 16-bit groups, -1 if malformed; the last may be dotted decimal */
static int32_t groups(int32_t from, int32_t to, bool v4, uint8_t *o)
{
    int32_t n = 0, digits = 0, v = 0, st = from; bool dot = false; uint8_t q[4];
    if (from == to) return 0;
    for (int32_t i = 0; i <= MAXP; i++) {
        if (i < from || i > to) continue;
        if (i == to || c_s[i] == ':') {
            if (dot) {
                if (i != to || !v4 || n > 6 || !dec4(st, to, q)) return -1;
                o[2 * n] = q[0]; o[2 * n + 1] = q[1]; o[2 * n + 2] = q[2]; o[2 * n + 3] = q[3];
                return n + 2;
            }
            if (digits == 0 || digits > 4 || n > 7) return -1;
            o[2 * n] = (uint8_t)(v >> 8); o[2 * n + 1] = (uint8_t)v; n++; v = 0; digits = 0; st = i + 1;
        } else if (c_s[i] == '.') dot = true;
        else {
            if (hexv(c_s[i]) < 0) return -1;
            if (digits < 5) { digits++; v = (v << 4 | hexv(c_s[i])) & 0xFFFF; }
        }
    }
    return n;
}
static bool ref6(void)
{
    uint8_t a[16], b[16]; int32_t p = lenS;
    for (int32_t i = MAXP - 1; i > 0; i--) if (i < lenS && c_s[i] == ':' && c_s[i - 1] == ':') p = i - 1;
    for (int i = 0; i < 16; i++) c_want[i] = a[i] = b[i] = 0;
    int32_t l = groups(0, p, p == lenS, a);
    if (p == lenS) { for (int i = 0; i < 16; i++) c_want[i] = a[i]; return l == 8; }
    int32_t r = groups(p + 2, lenS, true, b);
    if (l < 0 || r < 0 || l + r > 7) return false;
    for (int i = 0; i < 16; i++) { if (i < 2 * l) c_want[i] = a[i]; else if (i >= 16 - 2 * r) c_want[i] = b[i - 16 + 2 * r]; }
    return true;
}
static bool hasc(char c) { for (int32_t i = 0; i < MAXP; i++) if (i < lenS && c_s[i] == c) return true; return false; }
static bool outeq(int32_t n) { for (int i = 0; i < 16; i++) if (i < n && c_out[i] != c_want[i]) return false; return true; }
#define K_SAL_ParseIp(REQ, ENS) \
    REQ("text", (str == NULL || str == c_s) && (out == NULL || out == c_out) && (outLen == NULL || outLen == &c_len)) \
    ENS("accepted exactly the well formed addresses", (VP_RET == BSL_SUCCESS) == (str != NULL && out != NULL && outLen != NULL && c_ok && VP_OLD(g_len, c_len) >= WLEN)) \
    ENS("the octets the text denotes", VP_IMP(VP_RET == BSL_SUCCESS, c_len == WLEN && outeq(WLEN)))
int32_t SAL_ParseIp(const char *str, unsigned char *out, int32_t *outLen) VP_CONTRACT(K_SAL_ParseIp, G, c_out, c_len);
/*@unit
name: parse_ip4
entry: h_ip
enforce: SAL_ParseIp
def: PARSE WLEN=4 MAXP=16
unwind: 20
bound: texts of at most 16 characters (an IPv4 address has at most 15)
*/
/*@unit
name: parse_ip6
entry: h_ip
enforce: SAL_ParseIp
def: PARSE WLEN=16 MAXP=8
unwind: 18
bound: texts of at most 8 characters
*/
/*@unit
name: parse_ip6_groups
entry: h_ip
enforce: SAL_ParseIp
def: PARSE WLEN=16 MAXP=18 ALPHA
unwind: 22
bound: texts of at most 18 characters over '1' and ':'
tier: thorough
timeout: 800
*/
void h_ip(void)
{
#ifdef ALPHA
    for (int i = 0; i < MAXP; i++) c_s[i] = vp_bool() ? '1' : vp_bool() ? ':' : 0;
    c_s[MAXP] = 0;
#else
    VP_BYTES(c_s, MAXP); c_s[MAXP] = 0;
#endif
    lenS = MAXP;
    for (int32_t i = MAXP; i >= 0; i--) if (c_s[i] == 0) lenS = i;
    VP_ASSUME(hasc(':') == (WLEN == 16));
    if (WLEN == 4) c_ok = dec4(0, lenS, c_want); else c_ok = ref6();
    c_len = g_len = vp_i32();
    const char *str = vp_bool() ? c_s : NULL; unsigned char *out = vp_bool() ? c_out : NULL; int32_t *outLen = vp_bool() ? &c_len : NULL; int32_t r;
    VP_CALL(K_SAL_ParseIp, r, SAL_ParseIp(str, out, outLen));
    VP_REACH(r == BSL_SUCCESS, "accepted"); VP_REACH(r != BSL_SUCCESS && str != NULL && out != NULL && outLen != NULL && g_len >= 16, "refused");
}
#endif

#ifdef HOST
/* The identities configured on a store: each configured kind is required, any one of a kind suffices. */
#define NH 2
static struct { bool dnsOk[NH], uriOk[NH], srvOk[NH], ipSan, dupOk, ovr; uint32_t cbs, frees, clears; bool args; int32_t sanRet; } V;
static HITLS_X509_StoreCtx c_st;
static HITLS_X509_Cert c_cert, c_ca;
static HITLS_X509_GeneralName c_gn[2];
static BslListNode n_h[NH], n_u[NH], n_s[NH], n_c[2], n_gn[2];
static BslList l_h, l_u, l_s, l_c, l_gn;
static char c_h[NH][2], c_u[NH][2], c_sv[NH][2], c_dup[2], c_old[2];
static uint8_t c_ip[16], c_sanip[2][16];
static int32_t cb(int32_t e, HITLS_X509_StoreCtx *s) { (void)s; if (e != HITLS_PKI_SUCCESS) V.cbs++; return V.ovr ? HITLS_PKI_SUCCESS : e; }
static void mk(BslList *l, BslListNode *n, uint32_t cnt) { n[0].prev = n[1].next = NULL; n[0].next = cnt > 1 ? &n[1] : NULL; n[1].prev = &n[0]; l->first = cnt > 0 ? &n[0] : NULL; l->last = cnt > 0 ? &n[cnt - 1] : NULL; l->curr = NULL; l->count = (int32_t)cnt; }
int32_t HITLS_X509_VerifyIdentity(HITLS_X509_Cert *cert, uint32_t flags, uint32_t type, const char *val, uint32_t valLen)
{
    if (cert != &c_cert || flags != c_st.verifyParam.hostflags || valLen != 1) V.args = false;
    for (int i = 0; i < NH; i++) {
        if (type == HITLS_GEN_DNS && val == c_h[i]) return V.dnsOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_HOSTNAME_FAIL;
        if (type == HITLS_GEN_URI && val == c_u[i]) return V.uriOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_URI_ID_FAIL;
        if (type == HITLS_GEN_SRV && val == c_sv[i]) return V.srvOk[i] ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_VFY_SRV_ID_FAIL;
    }
    V.args = false;
    return HITLS_X509_ERR_VFY_HOSTNAME_FAIL;
}
int32_t HITLS_X509_CertCtrl(HITLS_X509_Cert *cert, int32_t cmd, void *val, uint32_t valLen)
{
    if (cert != &c_cert || cmd != HITLS_X509_EXT_GET_SAN || valLen != sizeof(HITLS_X509_ExtSan)) V.args = false;
    ((HITLS_X509_ExtSan *)val)->names = &l_gn;
    return V.sanRet;
}
void HITLS_X509_ClearSubjectAltName(HITLS_X509_ExtSan *s) { if (s->names != &l_gn) V.args = false; V.clears++; }
void *BSL_SAL_Malloc(uint32_t n) { if (n > 2) V.args = false; return V.dupOk ? c_dup : NULL; }
void *BSL_SAL_Calloc(uint32_t n, uint32_t k) { if (n * k > 2) V.args = false; return V.dupOk ? c_dup : NULL; }
void *BSL_SAL_Dump(const void *s, uint32_t n) { if (n > 2) V.args = false; (void)s; return V.dupOk ? c_dup : NULL; }
void BSL_SAL_Free(void *p) { if (p == c_old) V.frees++; }
static bool list(BslList *l, const bool *ok) { return l == NULL || l->count == 0 || (l->count > 0 && ok[0]) || (l->count > 1 && ok[1]); }
static bool ipOk(void)
{
    int32_t n = c_st.verifyParam.ipLen;
    if (c_st.verifyParam.ip == NULL) return true;
    if (V.sanRet != HITLS_PKI_SUCCESS) return false;
    for (int i = 0; i < 2; i++) if (c_gn[i].type == HITLS_X509_GN_IP && c_gn[i].value.dataLen == (uint32_t)n) {
        bool eq = true;
        for (int k = 0; k < 16; k++) if (k < n && c_sanip[i][k] != c_ip[k]) eq = false;
        if (eq) return true;
    }
    return false;
}
static bool needDup(void) { return c_st.verifyParam.hostnames != NULL && l_h.count > 0 && list(&l_h, V.dnsOk); }
#define ALL (list(c_st.verifyParam.hostnames, V.dnsOk) && list(c_st.verifyParam.uriIds, V.uriOk) && list(c_st.verifyParam.srvIds, V.srvOk) && ipOk())
#define K_X509_CheckHost(REQ, ENS) \
    REQ("store and chain", storeCtx == &c_st && chain == &l_c) \
    ENS("accepted only if every configured kind of identity matches the end certificate", VP_IMP(VP_RET == HITLS_PKI_SUCCESS && !V.ovr, ALL)) \
    ENS("a mismatch is always reported to the callback", VP_IMP(VP_RET == HITLS_PKI_SUCCESS && !ALL, V.cbs > 0)) \
    ENS("accepted if they match", VP_IMP(ALL && V.dupOk, VP_RET == HITLS_PKI_SUCCESS && V.cbs == 0)) \
    ENS("a peer name of an earlier verification is not kept", V.frees == 1 && c_st.verifyParam.peername != c_old) \
    ENS("the peer name is one that matched", VP_IMP(c_st.verifyParam.peername != NULL, c_st.verifyParam.peername == c_dup && needDup())) \
    ENS("own arguments", V.args)
static int32_t X509_CheckHost(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *chain) VP_CONTRACT(K_X509_CheckHost, G, V, c_dup, c_st);
#include "pki/x509_verify/src/hitls_x509_verify.c"
/*@unit
name: check_host
entry: h_ch
enforce: X509_CheckHost
def: HOST OVR=0
src: bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
restrict: VerifyCertCbk.function_pointer_call.1/cb
unwind: 18
bound: two identities of each kind, two subject alternative names
assume: whether a name matches is HITLS_X509_VerifyIdentity's contract
*/
/*@unit
name: check_host_override
entry: h_ch
enforce: X509_CheckHost
def: HOST OVR=1
src: bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
restrict: VerifyCertCbk.function_pointer_call.1/cb
unwind: 18
bound: two identities of each kind, two subject alternative names
assume: whether a name matches is HITLS_X509_VerifyIdentity's contract
*/
void h_ch(void)
{
    memset(&V, 0, sizeof(V));
    V.args = true; V.dupOk = vp_bool(); V.ovr = OVR; V.sanRet = vp_bool() ? HITLS_PKI_SUCCESS : HITLS_X509_ERR_EXT_NOT_FOUND;
    VP_BYTES(c_ip, 16);
    for (int i = 0; i < NH; i++) {
        V.dnsOk[i] = vp_bool(); V.uriOk[i] = vp_bool(); V.srvOk[i] = vp_bool();
        c_h[i][0] = c_u[i][0] = c_sv[i][0] = 'a'; c_h[i][1] = c_u[i][1] = c_sv[i][1] = 0;
        n_h[i].data = c_h[i]; n_u[i].data = c_u[i]; n_s[i].data = c_sv[i];
        VP_BYTES(c_sanip[i], 16);
        c_gn[i].type = vp_range(0, 12); c_gn[i].value.data = c_sanip[i]; c_gn[i].value.dataLen = vp_range(0, 16); n_gn[i].data = &c_gn[i];
    }
    c_old[0] = 'o'; c_old[1] = 0;
    n_c[0].data = &c_cert; n_c[1].data = &c_ca;
    mk(&l_c, n_c, 2); mk(&l_gn, n_gn, 2);
    mk(&l_h, n_h, vp_range(0, 2)); mk(&l_u, n_u, vp_range(0, 2)); mk(&l_s, n_s, vp_range(0, 2));
    memset(&c_st.verifyParam, 0, sizeof(c_st.verifyParam));
    c_st.verifyCb = cb;
    c_st.verifyParam.hostflags = vp_u32(); c_st.verifyParam.peername = c_old;
    c_st.verifyParam.hostnames = vp_bool() ? &l_h : NULL; c_st.verifyParam.uriIds = vp_bool() ? &l_u : NULL; c_st.verifyParam.srvIds = vp_bool() ? &l_s : NULL;
    c_st.verifyParam.ip = vp_bool() ? c_ip : NULL; c_st.verifyParam.ipLen = vp_bool() ? 4 : 16;
    HITLS_X509_StoreCtx *storeCtx = &c_st; HITLS_X509_List *chain = &l_c; int32_t r;
    VP_CALL(K_X509_CheckHost, r, X509_CheckHost(storeCtx, chain));
    VP_REACH(r == HITLS_PKI_SUCCESS && c_st.verifyParam.hostnames != NULL && c_st.verifyParam.ip != NULL, "accepted"); VP_REACH(V.cbs > 0, "refused");
}
#endif
