/* Host name and other identity matching. Names are arbitrary byte strings up to the stated length. */
/*@defaults
src: pki/x509_common/src/hitls_x509_util.c bsl/sal/src/sal_string.c
level: bounded
object_bits: 10
solver: minisat2
assume: extension decoding (CertCtrl) yields arbitrary names; allocation is a fixed buffer
*/
#define VP_OWN_SAL_MEM
#include "vp.h"
#include "hitls_build.h"
#include "bsl_list.h"
#include "bsl_sal.h"
#include "hitls_pki_x509.h"
#include "hitls_pki_cert.h"
#include "hitls_pki_errno.h"
#include "hitls_x509_local.h"
#include "hitls_cert_local.h"
#include "bsl_errno.h"
#include "bsl_list_internal.h"
#ifndef MAXP
#define MAXP 7
#endif
static struct { uint32_t x; } G;
static char c_p[MAXP + 1], c_h[MAXP + 1];
static uint32_t lenP, lenH;

void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
    return NULL;
}
#ifdef VP_CBMC
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* ctype table: only the digit class is used */
static const unsigned short c_tab[384] = {[128 + '0'] = 0x800, [128 + '1'] = 0x800, [128 + '2'] = 0x800, [128 + '3'] = 0x800, [128 + '4'] = 0x800, [128 + '5'] = 0x800, [128 + '6'] = 0x800, [128 + '7'] = 0x800, [128 + '8'] = 0x800, [128 + '9'] = 0x800};
static const unsigned short *c_tabp;
const unsigned short **__ctype_b_loc(void) { return &c_tabp; }
static void ctypeInit(void) { c_tabp = c_tab + 128; }
#else
static void ctypeInit(void) {}
#endif
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static uint32_t slen(const char *s, uint32_t max) { for (uint32_t i = 0; i <= max; i++) if (s[i] == 0) return i; return max; }
static bool eqi(const char *a, uint32_t al, const char *b, uint32_t bl)
{
    if (al != bl) return false;
    for (uint32_t i = 0; i < MAXP; i++) if (i < al && low(a[i]) != low(b[i])) return false;
    return true;
}
static uint32_t find(const char *s, uint32_t n, char c, uint32_t from) { for (uint32_t i = 0; i < MAXP; i++) if (i >= from && i < n && s[i] == c) return i; return n; }
/* RFC 9525: "*." stands for exactly one left-most label of a name of at least three labels; otherwise equality */
static bool single(const char *p, uint32_t pn, const char *h, uint32_t hn)
{
    if (find(p, pn, '*', 0) == pn) return eqi(p, pn, h, hn);
    if (pn < 2 || p[0] != '*' || p[1] != '.') return false;
    uint32_t d = find(h, hn, '.', 0);
    if (d == hn || find(h, hn, '.', d + 1) == hn) return false;
    return eqi(p + 1, pn - 1, h + d, hn - d);
}
/* RFC 6125: at most one '*', only in the left-most label, standing for any characters within that label */
static bool partial(const char *p, uint32_t pn, const char *h, uint32_t hn)
{
    uint32_t s = find(p, pn, '*', 0);
    if (s == pn) return eqi(p, pn, h, hn);
    if (find(p, pn, '*', s + 1) != pn) return false;
    uint32_t pd = find(p, pn, '.', 0), hd = find(h, hn, '.', 0);
    if (s > pd || hn == 0) return false;
    uint32_t suf = pd - s - 1;
    return hd >= s + suf && eqi(p, s, h, s) && eqi(p + s + 1, suf, h + hd - suf, suf) && eqi(p + pd, pn - pd, h + hd, hn - hd);
}
static bool match(uint32_t flags, const char *p, uint32_t pn, const char *h, uint32_t hn)
{ return (flags & HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD) != 0 ? partial(p, pn, h, hn) : single(p, pn, h, hn); }

#ifdef PATTERN
void *BSL_SAL_Malloc(uint32_t n) { (void)n; return NULL; }
void BSL_SAL_Free(void *p) { (void)p; }
#define K_HITLS_X509_MatchPattern(REQ, ENS) \
    REQ("names", (pattern == NULL || pattern == c_p) && (hostname == NULL || hostname == c_h)) \
    ENS("accepted exactly if the host name matches the presented name", (VP_RET == HITLS_PKI_SUCCESS) == (pattern != NULL && hostname != NULL && match(flags, c_p, lenP, c_h, lenH)))
int32_t HITLS_X509_MatchPattern(uint32_t flags, const char *pattern, const char *hostname) VP_CONTRACT(K_HITLS_X509_MatchPattern, G);
/*@unit
name: match_single
entry: h_mp
enforce: HITLS_X509_MatchPattern
def: PATTERN FL=0 MAXP=12
unwind: 16
bound: names of at most 12 characters
*/
/*@unit
name: match_partial
entry: h_mp
enforce: HITLS_X509_MatchPattern
def: PATTERN FL=1 MAXP=6
unwind: 10
bound: names of at most 6 characters
*/
/*@unit
name: match_flags
entry: h_mp
enforce: HITLS_X509_MatchPattern
def: PATTERN FL=2 MAXP=3
unwind: 7
bound: names of at most 3 characters
*/
void h_mp(void)
{
    VP_BYTES(c_p, MAXP); VP_BYTES(c_h, MAXP);
    c_p[MAXP] = c_h[MAXP] = 0;
    lenP = slen(c_p, MAXP); lenH = slen(c_h, MAXP);
    uint32_t flags = vp_u32(); const char *pattern = vp_bool() ? c_p : NULL, *hostname = vp_bool() ? c_h : NULL; int32_t r;
#if FL != 2
    flags = FL;     /* the other flag bits: match_flags */
#endif
    VP_CALL(K_HITLS_X509_MatchPattern, r, HITLS_X509_MatchPattern(flags, pattern, hostname));
    VP_REACH(r == HITLS_PKI_SUCCESS && c_p[0] == '*' && lenP >= 2 && lenH == MAXP, "wildcard"); VP_REACH(r == HITLS_PKI_SUCCESS && c_p[0] == 'A' && c_h[0] == 'a', "case");
    VP_REACH(r != HITLS_PKI_SUCCESS && pattern != NULL && hostname != NULL && lenP == lenH, "refused");
}
#endif

#ifdef IDENT
/* SAN of two general names, a CN, a reference identity */
#ifndef NS
#define NS 2
#endif
static struct { int32_t sanRet, cnRet, ipRet, ipLen; bool allocOk, sanNull; uint32_t cleared, frees, allocs; bool args; } V;
static HITLS_X509_Cert c_cert;
static HITLS_X509_GeneralName c_gn[NS];
static BslListNode n_gn[NS];
static BslList l_gn;
static char c_san[NS][MAXP + 1], c_cn[MAXP + 1], c_buf0[MAXP + 1], c_buf1[MAXP + 1], c_id[MAXP + 1];
static uint8_t c_ip[16], c_sanip[NS][16];
static uint32_t lenI, lenS[NS], lenC;
int32_t BSL_ERR_SetMark(void) { return BSL_SUCCESS; }
int32_t BSL_ERR_PopToMark(void) { return BSL_SUCCESS; }
void *BSL_SAL_Malloc(uint32_t n)
{
    if (n > MAXP + 1) V.args = false;
    if (!V.allocOk) return NULL;
    V.allocs++;
    return (V.allocs & 1) == 1 ? c_buf0 : c_buf1;
}
void BSL_SAL_Free(void *p) { if (p == c_buf0 || p == c_buf1) V.frees++; }
int32_t HITLS_X509_CertCtrl(HITLS_X509_Cert *cert, int32_t cmd, void *val, uint32_t valLen)
{
    if (cert != &c_cert) V.args = false;
    if (cmd == HITLS_X509_EXT_GET_SAN && valLen == sizeof(HITLS_X509_ExtSan)) { ((HITLS_X509_ExtSan *)val)->names = &l_gn; return V.sanRet; }
    if (cmd == HITLS_X509_GET_SUBJECT_CN_STR && valLen == sizeof(BSL_Buffer)) { ((BSL_Buffer *)val)->data = (uint8_t *)c_cn; ((BSL_Buffer *)val)->dataLen = lenC; return V.cnRet; }
    V.args = false;
    return HITLS_X509_ERR_INVALID_PARAM;
}
void HITLS_X509_ClearSubjectAltName(HITLS_X509_ExtSan *s) { if (s->names != &l_gn) V.args = false; V.cleared++; }
int32_t SAL_ParseIp(const char *str, unsigned char *out, int32_t *outLen)
{
    if (str != c_id || *outLen != 16) V.args = false;
    for (int i = 0; i < 16; i++) out[i] = c_ip[i]; *outLen = V.ipLen;
    return V.ipRet;
}
static bool nul(const char *s, uint32_t n) { for (uint32_t i = 0; i < MAXP; i++) if (i < n && s[i] == 0) return true; return false; }
static bool dnsOk(void)
{
    bool any = false, ok = false;
    if (V.sanRet != HITLS_PKI_SUCCESS && V.sanRet != HITLS_X509_ERR_EXT_NOT_FOUND) return false;
    if (V.sanRet == HITLS_PKI_SUCCESS) for (int i = 0; i < NS; i++) if (c_gn[i].type == HITLS_X509_GN_DNS) {
        any = true;
        if (!nul(c_san[i], lenS[i]) && match(FL, c_san[i], lenS[i], c_id, lenI)) ok = true;
    }
    if (any) return ok;
    return V.cnRet == HITLS_PKI_SUCCESS && !nul(c_cn, lenC) && match(FL, c_cn, lenC, c_id, lenI);
}
static bool ipOk(void)
{
    if (V.ipRet != BSL_SUCCESS || V.sanRet != HITLS_PKI_SUCCESS) return false;
    for (int i = 0; i < NS; i++) if (c_gn[i].type == HITLS_X509_GN_IP && c_gn[i].value.dataLen == (uint32_t)V.ipLen) {
        bool eq = true;
        for (int k = 0; k < 16; k++) if (k < V.ipLen && c_sanip[i][k] != c_ip[k]) eq = false;
        if (eq) return true;
    }
    return false;
}
/* "_service.domain": the service equal, the domain matching */
static bool srvSplit(const char *s, uint32_t n, uint32_t *dot)
{
    if (n == 0 || s[0] != '_') return false;
    *dot = find(s, n, '.', 1);
    return *dot != n && *dot != 1 && *dot + 1 < n;
}
static bool srvOk(void)
{
    uint32_t rd, pd;
    if (!srvSplit(c_id, lenI, &rd) || V.sanRet != HITLS_PKI_SUCCESS) return false;
    for (int i = 0; i < NS; i++) if (c_gn[i].type == HITLS_X509_GN_SRV && srvSplit(c_san[i], lenS[i], &pd)) {
        if (!eqi(c_san[i] + 1, pd - 1, c_id + 1, rd - 1) || nul(c_san[i] + pd + 1, lenS[i] - pd - 1)) continue;
        if (match(FL, c_san[i] + pd + 1, lenS[i] - pd - 1, c_id + rd + 1, lenI - rd - 1)) return true;
    }
    return false;
}
/* scheme ":" ["//"] [userinfo "@"] host [":" port] [path...]: scheme equal, host matching; ports ignored */
static bool uriSplit(const char *s, uint32_t n, uint32_t *sl, uint32_t *hs, uint32_t *hl)
{
    uint32_t c = find(s, n, ':', 0), b, e, at, pt;
    if (c == n || c == 0) return false;
    bool auth = c + 2 < n && s[c + 1] == '/' && s[c + 2] == '/';
    b = auth ? c + 3 : c + 1;
    e = n;
    for (uint32_t i = MAXP; i > 0; i--) { uint32_t j = i - 1; if (j >= b && j < n && (s[j] == '?' || s[j] == '#' || s[j] == '/' || (!auth && s[j] == ';'))) e = j; }
    at = e;
    for (uint32_t i = 0; i < MAXP; i++) if (i >= b && i < e && s[i] == '@') at = i;
    if (at != e) b = at + 1;
    pt = e;
    for (uint32_t i = MAXP; i > 0; i--) if (i - 1 >= b && i - 1 < e && s[i - 1] == ':') pt = i - 1;
    if (pt != e) {
        uint32_t v = 0;
        if (pt + 1 == e) return false;
        for (uint32_t i = 0; i < MAXP; i++) if (i > pt && i < e) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (uint32_t)(s[i] - '0'); }
        if (v > 65535) return false;
    }
    *sl = c; *hs = b; *hl = pt - b;
    return pt > b;
}
static bool uriOk(void)
{
    uint32_t rs, rh, rl, ps, ph, pl;
    if (!uriSplit(c_id, lenI, &rs, &rh, &rl) || V.sanRet != HITLS_PKI_SUCCESS) return false;
    for (int i = 0; i < NS; i++) if (c_gn[i].type == HITLS_X509_GN_URI && uriSplit(c_san[i], lenS[i], &ps, &ph, &pl)) {
        if (!eqi(c_san[i], ps, c_id, rs) || nul(c_san[i] + ph, pl)) continue;
        if (match(FL, c_san[i] + ph, pl, c_id + rh, rl)) return true;
    }
    return false;
}
#define WANT (TYPE == HITLS_GEN_DNS ? dnsOk() : TYPE == HITLS_GEN_IP ? ipOk() : TYPE == HITLS_GEN_SRV ? srvOk() : uriOk())
#define K_HITLS_X509_VerifyIdentity(REQ, ENS) \
    REQ("certificate and identity", cert == &c_cert && val == c_id && type == TYPE && flags == FL && V.frees == 0 && V.cleared == 0) \
    ENS("accepted only if a name of this kind in the certificate matches", VP_IMP(VP_RET == HITLS_PKI_SUCCESS, valLen == lenI && WANT)) \
    ENS("accepted if one matches", VP_IMP(valLen == lenI && lenI > 0 && V.allocOk && WANT, VP_RET == HITLS_PKI_SUCCESS)) \
    ENS("copies are released", V.frees == V.allocs) \
    ENS("own arguments", V.args)
int32_t HITLS_X509_VerifyIdentity(HITLS_X509_Cert *cert, uint32_t flags, uint32_t type, const char *val, uint32_t valLen)
    VP_CONTRACT(K_HITLS_X509_VerifyIdentity, G, V, c_buf0, c_buf1);
/*@unit
name: ident_dns
entry: h_id
enforce: HITLS_X509_VerifyIdentity
def: IDENT FL=0 MAXP=5 TYPE=HITLS_GEN_DNS
src: pki/x509_common/src/hitls_x509_util.c bsl/sal/src/sal_string.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
restrict: X509_VerifyHostnameWithSan.function_pointer_call.1/MatchWithSingleWildcard
restrict: X509_VerifyHostnameWithCn.function_pointer_call.1/MatchWithSingleWildcard
unwind: 9
bound: two subject alternative names and names of at most 5 characters
*/
/*@unit
name: ident_ip
entry: h_id
enforce: HITLS_X509_VerifyIdentity
def: IDENT FL=0 MAXP=4 TYPE=HITLS_GEN_IP
src: pki/x509_common/src/hitls_x509_util.c bsl/sal/src/sal_string.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
unwind: 18
bound: two subject alternative names
*/
/*@unit
name: ident_srv
entry: h_id
enforce: HITLS_X509_VerifyIdentity
def: IDENT FL=0 MAXP=7 NS=1 TYPE=HITLS_GEN_SRV
src: pki/x509_common/src/hitls_x509_util.c bsl/sal/src/sal_string.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
restrict: MatchHostView.function_pointer_call.1/MatchWithSingleWildcard
unwind: 11
bound: one subject alternative name and a reference identity of at most 7 characters
*/
/*@unit
name: ident_uri
entry: h_id
enforce: HITLS_X509_VerifyIdentity
def: IDENT FL=0 MAXP=6 NS=1 TYPE=HITLS_GEN_URI
src: pki/x509_common/src/hitls_x509_util.c bsl/sal/src/sal_string.c bsl/list/src/bsl_list.c bsl/list/src/bsl_list_ex.c bsl/list/src/bsl_list_internal.c
restrict: MatchHostView.function_pointer_call.1/MatchWithSingleWildcard
unwind: 11
bound: one subject alternative name and a reference identity of at most 6 characters
*/
void h_id(void)
{
    memset(&V, 0, sizeof(V));
    ctypeInit();
    V.args = true; V.sanRet = vp_i32(); V.cnRet = vp_i32(); V.ipRet = vp_i32(); V.ipLen = vp_bool() ? 4 : 16; V.allocOk = vp_bool();
    VP_BYTES(c_cn, MAXP + 1); VP_BYTES(c_id, MAXP + 1);
    if (TYPE == HITLS_GEN_IP) VP_BYTES(c_ip, 16);
    c_id[MAXP] = 0; c_cn[MAXP] = 0;
    lenI = slen(c_id, MAXP); lenC = slen(c_cn, MAXP);
    for (int i = 0; i < NS; i++) {
        if (TYPE == HITLS_GEN_IP) VP_BYTES(c_sanip[i], 16); else VP_BYTES(c_san[i], MAXP + 1);
        c_gn[i].type = vp_range(0, 12);
        lenS[i] = vp_range(0, TYPE == HITLS_GEN_IP ? 16 : MAXP);
        c_gn[i].value.data = TYPE == HITLS_GEN_IP ? c_sanip[i] : (uint8_t *)c_san[i]; c_gn[i].value.dataLen = lenS[i];
        n_gn[i].data = &c_gn[i];
    }
    n_gn[0].next = n_gn[0].prev = NULL;
#if NS > 1
    n_gn[0].next = &n_gn[1]; n_gn[1].next = NULL; n_gn[1].prev = &n_gn[0];
#endif
    l_gn.first = &n_gn[0]; l_gn.last = &n_gn[NS - 1]; l_gn.curr = NULL; l_gn.count = NS;
    HITLS_X509_Cert *cert = &c_cert; uint32_t flags = FL, type = TYPE; const char *val = c_id; uint32_t valLen = vp_range(0, MAXP + 2); int32_t r;
    VP_CALL(K_HITLS_X509_VerifyIdentity, r, HITLS_X509_VerifyIdentity(cert, flags, type, val, valLen));
    VP_REACH(r == HITLS_PKI_SUCCESS, "accepted"); VP_REACH(r != HITLS_PKI_SUCCESS && valLen == lenI && V.sanRet == HITLS_PKI_SUCCESS, "refused");
}
#endif
