/* ASN.1 definite-length TLV decoding and encoding: lengths, nesting, exact values. */
/*@defaults
src: bsl/asn1/src/bsl_asn1.c bsl/sal/src/sal_time.c bsl/sal/src/posix/posix_time.c
unwind: 6
level: proof
*/
#include "vp.h"
#include "bsl_sal.h"
#include "bsl_errno.h"
#include "bsl_asn1_internal.h"

#define HMAX 8
static uint8_t g_h[HMAX]; /* the first bytes of the input; the rest is never looked at by header decoding */
static uint8_t *in_of(uint32_t n)
{
    uint8_t *p = malloc(n);
    VP_ASSUME(p != NULL);
    VP_BYTES(g_h, HMAX);
    memcpy(p, g_h, n < HMAX ? n : HMAX);
    return p;
}
/* definite-length field at h[0..n): number of its octets (0: malformed or unsupported); *v its value */
static uint32_t len_field(const uint8_t *h, uint32_t n, uint64_t *v)
{
    *v = 0;
    if (n < 1) return 0;
    if (h[0] < 0x80) { *v = h[0]; return 1; }
    uint32_t k = h[0] & 0x7f;
    if (k == 0 || k > 4 || n < 1 + k) return 0;
    for (uint32_t i = 0; i < k; i++) *v = (*v << 8) | h[1 + i];
    return 1 + k;
}
static uint32_t lf(const uint8_t *h, uint32_t n) { uint64_t v; return len_field(h, n, &v); }
static uint64_t lv(const uint8_t *h, uint32_t n) { uint64_t v; len_field(h, n, &v); return v; }
#define CAP (0xFFFFFFFFull - 8) /* lengths this close to 2^32 may be refused */

static uint32_t g_n;
static uint8_t *g_p;

/*@unit
name: BSL_ASN1_DecodeLen
entry: h_len
enforce: BSL_ASN1_DecodeLen
*/
#define K_BSL_ASN1_DecodeLen(REQ, ENS) \
    ENS("content length only: accepted exactly when well formed and the content fits", VP_IMP(!completeLen, \
        (VP_RET == BSL_SUCCESS) == (lf(g_h, g_n) != 0 && lv(g_h, g_n) <= g_n - lf(g_h, g_n) && lv(g_h, g_n) < CAP) || lv(g_h, g_n) >= CAP)) \
    ENS("complete length: accepted only when the whole element fits", VP_IMP(completeLen && VP_RET == BSL_SUCCESS, \
        lf(g_h, g_n) != 0 && lv(g_h, g_n) + lf(g_h, g_n) <= g_n)) \
    ENS("the value is the encoded one", VP_IMP(VP_RET == BSL_SUCCESS, *len == lv(g_h, g_n) + (completeLen ? lf(g_h, g_n) : 0))) \
    ENS("exactly the length octets are consumed", VP_IMP(VP_RET == BSL_SUCCESS, *encode == g_p + lf(g_h, g_n) && *encLen == g_n - lf(g_h, g_n))) \
    ENS("nothing is consumed on error", VP_IMP(VP_RET != BSL_SUCCESS, *encode == g_p && *encLen == g_n))
int32_t BSL_ASN1_DecodeLen(uint8_t **encode, uint32_t *encLen, bool completeLen, uint32_t *len)
    VP_CONTRACT(K_BSL_ASN1_DecodeLen, *encode, *encLen, *len);
void h_len(void)
{
    uint32_t n = vp_u32();
    uint8_t *p = in_of(n);
    g_n = n; g_p = p;
    uint8_t **encode = &p;
    uint32_t *encLen = &n, l = 0, *len = &l;
    bool completeLen = vp_bool();
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodeLen, r, BSL_ASN1_DecodeLen(encode, encLen, completeLen, len));
    VP_REACH(r == BSL_SUCCESS && g_h[0] == 0x84, "four octets");
    VP_REACH(r == BSL_SUCCESS && g_h[0] == 0x7f && completeLen, "short form");
    VP_REACH(r != BSL_SUCCESS, "refused");
}

/*@unit
name: BSL_ASN1_DecodeItem
entry: h_item
enforce: BSL_ASN1_DecodeItem
*/
static bool tlv_ok(void)
{
    return g_n >= 1 && lf(g_h + 1, g_n - 1) != 0 && lv(g_h + 1, g_n - 1) <= g_n - 1 - lf(g_h + 1, g_n - 1);
}
#define VOFF (1 + lf(g_h + 1, g_n - 1))
#define VLEN lv(g_h + 1, g_n - 1)
#define K_BSL_ASN1_DecodeItem(REQ, ENS) \
    ENS("accepted exactly when the element is well formed and inside the input", (VP_RET == BSL_SUCCESS) == tlv_ok() || VLEN >= CAP) \
    ENS("never accepted when malformed", VP_IMP(VP_RET == BSL_SUCCESS, tlv_ok())) \
    ENS("tag, length and value are the encoded ones", VP_IMP(VP_RET == BSL_SUCCESS, asnItem->tag == g_h[0] && asnItem->len == VLEN && asnItem->buff == g_p + VOFF)) \
    ENS("exactly one element is consumed", VP_IMP(VP_RET == BSL_SUCCESS, *encode == g_p + VOFF + VLEN && *encLen == g_n - VOFF - VLEN)) \
    ENS("nothing is consumed on error", VP_IMP(VP_RET != BSL_SUCCESS, *encode == g_p && *encLen == g_n))
int32_t BSL_ASN1_DecodeItem(uint8_t **encode, uint32_t *encLen, BSL_ASN1_Buffer *asnItem)
    VP_CONTRACT(K_BSL_ASN1_DecodeItem, *encode, *encLen, *asnItem);
void h_item(void)
{
    uint32_t n = vp_u32();
    uint8_t *p = in_of(n);
    g_n = n; g_p = p;
    uint8_t **encode = &p;
    uint32_t *encLen = &n;
    BSL_ASN1_Buffer a, *asnItem = &a;
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodeItem, r, BSL_ASN1_DecodeItem(encode, encLen, asnItem));
    VP_REACH(r == BSL_SUCCESS && a.len > 70000, "long item");
    VP_REACH(r == BSL_SUCCESS && n == 0 && a.len == 0, "empty item at the end");
}

/*@unit
name: BSL_ASN1_DecodeTagLen
entry: h_taglen
enforce: BSL_ASN1_DecodeTagLen
*/
#define K_BSL_ASN1_DecodeTagLen(REQ, ENS) \
    ENS("accepted exactly when the tag matches and the element is inside the input", (VP_RET == BSL_SUCCESS) == (tlv_ok() && g_h[0] == tag) || VLEN >= CAP) \
    ENS("never accepted otherwise", VP_IMP(VP_RET == BSL_SUCCESS, tlv_ok() && g_h[0] == tag)) \
    ENS("the header is consumed and the value length reported", VP_IMP(VP_RET == BSL_SUCCESS, *valLen == VLEN && *encode == g_p + VOFF && *encLen == g_n - VOFF)) \
    ENS("nothing is consumed on error", VP_IMP(VP_RET != BSL_SUCCESS, *encode == g_p && *encLen == g_n))
int32_t BSL_ASN1_DecodeTagLen(uint8_t tag, uint8_t **encode, uint32_t *encLen, uint32_t *valLen)
    VP_CONTRACT(K_BSL_ASN1_DecodeTagLen, *encode, *encLen, *valLen);
void h_taglen(void)
{
    uint32_t n = vp_u32();
    uint8_t *p = in_of(n);
    g_n = n; g_p = p;
    uint8_t tag = vp_u8(), **encode = &p;
    uint32_t *encLen = &n, l = 0, *valLen = &l;
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodeTagLen, r, BSL_ASN1_DecodeTagLen(tag, encode, encLen, valLen));
    VP_REACH(r == BSL_SUCCESS && l > 0, "accepted");
}

/*@unit
name: BSL_ASN1_GetCompleteLen
entry: h_complete
enforce: BSL_ASN1_GetCompleteLen
*/
#define K_BSL_ASN1_GetCompleteLen(REQ, ENS) \
    ENS("the reported length is that of the whole first element, inside the input", VP_IMP(VP_RET == BSL_SUCCESS, tlv_ok() && *dataLen == VOFF + VLEN && *dataLen <= g_n)) \
    ENS("a well-formed first element is accepted", VP_IMP(tlv_ok() && VLEN < CAP, VP_RET == BSL_SUCCESS))
int32_t BSL_ASN1_GetCompleteLen(uint8_t *data, uint32_t *dataLen) VP_CONTRACT(K_BSL_ASN1_GetCompleteLen, *dataLen);
void h_complete(void)
{
    uint32_t n = vp_u32(), *dataLen = &n;
    uint8_t *data = in_of(n);
    g_n = n;
    int32_t r;
    VP_CALL(K_BSL_ASN1_GetCompleteLen, r, BSL_ASN1_GetCompleteLen(data, dataLen));
    VP_REACH(r == BSL_SUCCESS && n < g_n, "trailing data");
}

/*@unit
name: decode_primitive
entry: h_prim
enforce: BSL_ASN1_DecodePrimitiveItem
assume: integer contents of up to 6 octets (longer ones are refused before any octet is read)
*/
static union { bool b; int i; BSL_ASN1_BitString s; uint8_t raw[32]; } c_dec;
static uint64_t be_val(const uint8_t *p, uint32_t n) { uint64_t v = 0; for (uint32_t i = 0; i < n && i < 6; i++) v = (v << 8) | p[i]; return v; }
#define INTISH(t) ((t) == BSL_ASN1_TAG_INTEGER || (t) == BSL_ASN1_TAG_ENUMERATED)
#define K_BSL_ASN1_DecodePrimitiveItem(REQ, ENS) \
    ENS("BOOLEAN: one octet, true iff non-zero", VP_IMP(asn->tag == BSL_ASN1_TAG_BOOLEAN, \
        (VP_RET == BSL_SUCCESS) == (asn->len == 1) && VP_IMP(VP_RET == BSL_SUCCESS, c_dec.b == (asn->buff[0] != 0)))) \
    ENS("INTEGER: exactly the non-negative values that fit", VP_IMP(INTISH(asn->tag), \
        (VP_RET == BSL_SUCCESS) == (asn->len >= 1 && asn->len <= 4 && be_val(asn->buff, asn->len) <= 0x7fffffff) && \
        VP_IMP(VP_RET == BSL_SUCCESS, (uint64_t)c_dec.i == be_val(asn->buff, asn->len)))) \
    ENS("BIT STRING: at most 7 unused bits, content after the first octet", VP_IMP(asn->tag == BSL_ASN1_TAG_BITSTRING, \
        (VP_RET == BSL_SUCCESS) == (asn->len >= 1 && asn->buff[0] <= 7) && VP_IMP(VP_RET == BSL_SUCCESS, \
        c_dec.s.unusedBits == asn->buff[0] && c_dec.s.buff == asn->buff + 1 && c_dec.s.len == asn->len - 1))) \
    ENS("other types are refused", VP_IMP(asn->tag != BSL_ASN1_TAG_BOOLEAN && !INTISH(asn->tag) && asn->tag != BSL_ASN1_TAG_BITSTRING, VP_RET != BSL_SUCCESS))
int32_t BSL_ASN1_DecodePrimitiveItem(BSL_ASN1_Buffer *asn, void *decodeData) VP_CONTRACT(K_BSL_ASN1_DecodePrimitiveItem, c_dec);
void h_prim(void)
{
    BSL_ASN1_Buffer a, *asn = &a;
    a.tag = vp_u8();
    VP_ASSUME(a.tag != BSL_ASN1_TAG_UTCTIME && a.tag != BSL_ASN1_TAG_GENERALIZEDTIME && a.tag != BSL_ASN1_TAG_BMPSTRING);
    a.len = vp_range(0, 6);
    VP_BUF(a.buff, a.len, 6);
    void *decodeData = &c_dec;
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodePrimitiveItem, r, BSL_ASN1_DecodePrimitiveItem(asn, decodeData));
    VP_REACH(r == BSL_SUCCESS && a.tag == BSL_ASN1_TAG_INTEGER && c_dec.i == 0x7fffffff, "largest int");
}

/*@unit
name: BSL_ASN1_DecodeListItem
entry: h_list
enforce: BSL_ASN1_DecodeListItem
level: bounded
bound: lists of up to 7 octets (up to 3 elements), one layer
unwind: 5
*/
static struct { uint32_t n; const uint8_t *next; bool gap; bool bad; uint8_t tag; bool fail; } L;
static int32_t cb_list(uint32_t layer, BSL_ASN1_Buffer *asn, void *cbParam, BSL_ASN1_List *list)
{
    (void)cbParam; (void)list;
    uint32_t off = (uint32_t)(asn->buff - L.next);
    /* the element starts where the previous one ended */
    L.gap = L.gap || off < 2 || off > 6 || L.next[0] != asn->tag || lf(L.next + 1, off - 1) != off - 1 || lv(L.next + 1, off - 1) != asn->len;
    L.bad = L.bad || asn->tag != L.tag || layer != 1;
    L.next = asn->buff + asn->len;
    L.n++;
    if (vp_bool()) { L.fail = true; return BSL_ASN1_FAIL; }
    return BSL_SUCCESS;
}
#define K_BSL_ASN1_DecodeListItem(REQ, ENS) \
    ENS("every element is delivered once, in order, without gaps", !L.gap && !L.bad && L.next <= asn->buff + asn->len) \
    ENS("success means the whole content was consumed", VP_IMP(VP_RET == BSL_SUCCESS, !L.fail && L.next == asn->buff + asn->len))
int32_t BSL_ASN1_DecodeListItem(BSL_ASN1_DecodeListParam *param, BSL_ASN1_Buffer *asn, BSL_ASN1_ParseListAsnItem parseListItemCb,
    void *cbParam, BSL_ASN1_List *list) VP_CONTRACT(K_BSL_ASN1_DecodeListItem, L);
void h_list(void)
{
    memset(&L, 0, sizeof(L));
    L.tag = vp_u8();
    uint8_t tags[1] = { L.tag };
    BSL_ASN1_DecodeListParam prm = { 1, tags }, *param = &prm;
    BSL_ASN1_Buffer a, *asn = &a;
    a.tag = 0x30;
    a.len = vp_range(0, 7);
    VP_BUF(a.buff, a.len, 7);
    L.next = a.buff;
    BSL_ASN1_ParseListAsnItem parseListItemCb = cb_list;
    void *cbParam = NULL;
    uint8_t dummy;
    BSL_ASN1_List *list = (BSL_ASN1_List *)&dummy;
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodeListItem, r, BSL_ASN1_DecodeListItem(param, asn, parseListItemCb, cbParam, list));
    VP_REACH(r == BSL_SUCCESS && L.n == 3, "three elements");
    VP_REACH(r != BSL_SUCCESS && !L.fail && L.n == 1, "second element malformed");
}

/*@unit
name: BSL_ASN1_GetEncodeLen
entry: h_enclen
enforce: BSL_ASN1_GetEncodeLen
*/
static uint32_t len_octets(uint32_t n) { return n < 0x80 ? 1 : n < 0x100 ? 2 : n < 0x10000 ? 3 : n < 0x1000000 ? 4 : 5; }
#define K_BSL_ASN1_GetEncodeLen(REQ, ENS) \
    ENS("size of the shortest (DER) header plus content, or refused when it does not fit 32 bits", \
        (VP_RET == BSL_SUCCESS) == (1ull + len_octets(contentLen) + contentLen <= 0xFFFFFFFFull) && \
        VP_IMP(VP_RET == BSL_SUCCESS, *encodeLen == 1 + len_octets(contentLen) + contentLen))
int32_t BSL_ASN1_GetEncodeLen(uint32_t contentLen, uint32_t *encodeLen) VP_CONTRACT(K_BSL_ASN1_GetEncodeLen, *encodeLen);
void h_enclen(void)
{
    uint32_t contentLen = vp_u32(), e = 0, *encodeLen = &e;
    int32_t r;
    VP_CALL(K_BSL_ASN1_GetEncodeLen, r, BSL_ASN1_GetEncodeLen(contentLen, encodeLen));
    VP_REACH(r == BSL_SUCCESS && contentLen == 128, "128");
    VP_REACH(r != BSL_SUCCESS, "too long");
}

/*@unit
name: BSL_ASN1_EncodeLimb
entry: h_limb
enforce: BSL_ASN1_EncodeLimb
unwind: 10
*/
static uint32_t limb_octets(uint64_t v) { uint32_t n = 1; for (uint32_t i = 1; i < 8; i++) if ((v >> (8 * i)) != 0) n = i + 1; return n; }
static uint64_t limb_val(const uint8_t *p, uint32_t n) { uint64_t v = 0; for (uint32_t i = 0; i < n && i < 8; i++) v = (v << 8) | p[i]; return v; }
static BSL_ASN1_Buffer c_asn;
#define K_BSL_ASN1_EncodeLimb(REQ, ENS) \
    ENS("shortest big-endian form of the number", VP_IMP(INTISH(tag), VP_RET == BSL_SUCCESS && asn->tag == tag && \
        asn->len == limb_octets(limb) && limb_val(asn->buff, asn->len) == limb)) \
    ENS("only integer types", VP_IMP(!INTISH(tag), VP_RET != BSL_SUCCESS))
int32_t BSL_ASN1_EncodeLimb(uint8_t tag, uint64_t limb, BSL_ASN1_Buffer *asn) VP_CONTRACT(K_BSL_ASN1_EncodeLimb, *asn);
void h_limb(void)
{
    memset(&c_asn, 0, sizeof(c_asn));
    uint8_t tag = vp_u8();
    uint64_t limb = vp_u64();
    BSL_ASN1_Buffer *asn = &c_asn;
    int32_t r;
    VP_CALL(K_BSL_ASN1_EncodeLimb, r, BSL_ASN1_EncodeLimb(tag, limb, asn));
    VP_REACH(r == BSL_SUCCESS && limb == 0, "zero");
    VP_REACH(r == BSL_SUCCESS && asn->len == 8, "full");
}

/*@unit
name: decode_template_flat
entry: h_templ
enforce: BSL_ASN1_DecodeTemplate
level: bounded
bound: template SEQUENCE { INTEGER, OCTET STRING OPTIONAL, BOOLEAN }, every 10-octet input
unwind: 6
def: NIN=10 FLAT
*/
/*@unit
name: decode_template_nested
entry: h_templ
enforce: BSL_ASN1_DecodeTemplate
level: bounded
bound: template SEQUENCE { SET OPTIONAL { OCTET STRING }, SEQUENCE (header only) }, every 9-octet input
unwind: 6
def: NIN=9
*/
/*@unit
name: decode_template_leftover
entry: h_left
enforce: BSL_ASN1_DecodeTemplate
level: bounded
bound: template SEQUENCE { SET { OCTET STRING }, SEQUENCE (header only) }, every 10-octet input
unwind: 6
def: NIN=10 STRICT
*/
#ifndef NIN
#define NIN 10
#endif
/* reference reading of the template; offsets and lengths of the items (ABSENT: not encoded) */
#define ABSENT 0xFFFFFFFFu
static struct { bool ok; uint32_t off[3], len[3]; uint32_t end; } E;
static uint8_t g_in[NIN];
static bool tlv_at(uint32_t *pos, uint32_t end, uint8_t tag, uint32_t *off, uint32_t *len)
{
    if (*pos >= end || g_in[*pos] != tag) return false;
    uint64_t v;
    uint32_t k = len_field(g_in + *pos + 1, end - *pos - 1, &v);
    if (k == 0 || v > end - *pos - 1 - k) return false;
    *off = *pos + 1 + k;
    *len = (uint32_t)v;
    *pos = *off + *len;
    return true;
}
static void expect(uint32_t n)
{
    memset(&E, 0, sizeof(E));
    uint32_t pos = 0, o, l;
    if (!tlv_at(&pos, n, 0x30, &o, &l)) return;
    uint32_t end = o + l;
    pos = o;
#ifdef FLAT
    if (!tlv_at(&pos, end, 0x02, &E.off[0], &E.len[0])) return;
    if (E.len[0] > 0) { /* non-negative and minimal; a leading sign octet is dropped */
        uint8_t b0 = g_in[E.off[0]];
        if (b0 & 0x80) return;
        if (b0 == 0 && E.len[0] > 1) {
            if (!(g_in[E.off[0] + 1] & 0x80)) return;
            E.off[0]++;
            E.len[0]--;
        }
    }
#endif
    E.len[1] = ABSENT;
#ifdef FLAT
    if (pos < end && g_in[pos] == 0x04 && !tlv_at(&pos, end, 0x04, &E.off[1], &E.len[1])) return;
    if (!tlv_at(&pos, end, 0x01, &E.off[2], &E.len[2])) return;
#else
    if (pos < end && g_in[pos] == 0x31) {
        if (!tlv_at(&pos, end, 0x31, &o, &l)) return;
        pos = o;
        if (!tlv_at(&pos, o + l, 0x04, &E.off[1], &E.len[1])) return;
    }
    if (!tlv_at(&pos, end, 0x30, &E.off[2], &E.len[2])) return;
#endif
    E.end = pos;
    E.ok = true;
}
#ifdef FLAT
#define NOINT 0
#else
#define NOINT 1
#endif
static BSL_ASN1_Buffer c_arr[3];
static bool item_is(uint32_t i, uint8_t tag)
{
    const BSL_ASN1_Buffer *c = &c_arr[i - NOINT];
    if (E.len[i] == ABSENT) return c->tag == 0 && c->len == 0 && c->buff == NULL;
    return c->tag == tag && c->len == E.len[i] && c->buff == g_p + E.off[i];
}
#ifdef FLAT
#define LASTTAG 0x01
#else
#define LASTTAG 0x30
#endif
#ifdef STRICT
#define K_BSL_ASN1_DecodeTemplate(REQ, ENS) \
    ENS("the cursor stays inside the input", VP_IMP(VP_RET == BSL_SUCCESS, *encode >= g_p && *encode <= g_p + NIN && *encLen == (uint32_t)(g_p + NIN - *encode)))
#else
#define K_BSL_ASN1_DecodeTemplate(REQ, ENS) \
    ENS("exactly the inputs of that structure are accepted", (VP_RET == BSL_SUCCESS) == E.ok) \
    ENS("every item is the one encoded inside its enclosing element, absent optional items are marked absent", VP_IMP(VP_RET == BSL_SUCCESS, \
        (NOINT || item_is(0, 0x02)) && item_is(1, 0x04) && item_is(2, LASTTAG))) \
    ENS("the cursor moves past what was decoded", VP_IMP(VP_RET == BSL_SUCCESS, *encode == g_p + E.end && *encLen == g_n - E.end)) \
    ENS("nothing is consumed on error", VP_IMP(VP_RET != BSL_SUCCESS, *encode == g_p && *encLen == g_n))
#endif
int32_t BSL_ASN1_DecodeTemplate(BSL_ASN1_Template *templ, BSL_ASN1_DecTemplCallBack decTemlCb, uint8_t **encode, uint32_t *encLen,
    BSL_ASN1_Buffer *asnArr, uint32_t arrNum) VP_CONTRACT(K_BSL_ASN1_DecodeTemplate, *encode, *encLen, c_arr);
void h_templ(void)
{
    BSL_ASN1_TemplateItem it[] = {
        { BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 0 },
#ifdef FLAT
        { BSL_ASN1_TAG_INTEGER, 0, 1 },
        { BSL_ASN1_TAG_OCTETSTRING, BSL_ASN1_FLAG_OPTIONAL, 1 },
        { BSL_ASN1_TAG_BOOLEAN, 0, 1 },
#else
        { BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SET, BSL_ASN1_FLAG_OPTIONAL, 1 },
        { BSL_ASN1_TAG_OCTETSTRING, 0, 2 },
        { BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, BSL_ASN1_FLAG_HEADERONLY, 1 },
#endif
    };
    BSL_ASN1_Template tp = { it, sizeof(it) / sizeof(it[0]) }, *templ = &tp;
    BSL_ASN1_DecTemplCallBack decTemlCb = NULL;
    uint32_t n = NIN, *encLen = &n;
    VP_BYTES(g_in, NIN);
    uint8_t *p = malloc(NIN);
    VP_ASSUME(p != NULL);
    memcpy(p, g_in, NIN);
    g_n = n; g_p = p;
    expect(n);
    memset(c_arr, 0, sizeof(c_arr));
    uint8_t **encode = &p;
    BSL_ASN1_Buffer *asnArr = c_arr;
    uint32_t arrNum = 3;
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodeTemplate, r, BSL_ASN1_DecodeTemplate(templ, decTemlCb, encode, encLen, asnArr, arrNum));
    VP_REACH(r == BSL_SUCCESS && E.len[1] != ABSENT, "all items");
    VP_REACH(r == BSL_SUCCESS && E.len[1] == ABSENT, "optional absent");
}

void h_left(void)
{
    BSL_ASN1_TemplateItem it[] = {
        { BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 0 },
        { BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SET, 0, 1 },
        { BSL_ASN1_TAG_OCTETSTRING, 0, 2 },
        { BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, BSL_ASN1_FLAG_HEADERONLY, 1 },
    };
    BSL_ASN1_Template tp = { it, 4 }, *templ = &tp;
    BSL_ASN1_DecTemplCallBack decTemlCb = NULL;
    uint32_t n = NIN, *encLen = &n;
    VP_BYTES(g_in, NIN);
    uint8_t *p = malloc(NIN);
    VP_ASSUME(p != NULL);
    memcpy(p, g_in, NIN);
    g_n = n; g_p = p;
    memset(c_arr, 0, sizeof(c_arr));
    uint8_t **encode = &p;
    BSL_ASN1_Buffer *asnArr = c_arr;
    uint32_t arrNum = 3;
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodeTemplate, r, BSL_ASN1_DecodeTemplate(templ, decTemlCb, encode, encLen, asnArr, arrNum));
    uint32_t pos = 0, o = 0, l = 0;
    bool seq = tlv_at(&pos, NIN, 0x30, &o, &l);
    uint32_t end = o + l, so = 0, sl = 0;
    pos = o;
    bool set = seq && tlv_at(&pos, end, 0x31, &so, &sl);
    VP_ASSERT(VP_IMP(r == BSL_SUCCESS, set && c_arr[0].buff >= g_p + so && c_arr[0].buff + c_arr[0].len <= g_p + so + sl),
        "a field lies inside its enclosing element");
    VP_ASSERT(VP_IMP(r == BSL_SUCCESS, set && c_arr[1].buff >= g_p + so + sl && c_arr[1].buff + c_arr[1].len <= g_p + end),
        "the next field does not begin inside the previous constructed element");
    VP_REACH(r == BSL_SUCCESS, "decoded");
}

/*@unit
name: encode_integer_80
entry: h_enc_int
enforce: BSL_ASN1_EncodeTemplate
level: bounded
bound: INTEGER values given as 3 octets starting 80
unwind: 8
def: V0=128
*/
/*@unit
name: encode_integer_7f
entry: h_enc_int
enforce: BSL_ASN1_EncodeTemplate
level: bounded
bound: INTEGER values given as 3 octets starting 7f
unwind: 8
def: V0=127
*/
/*@unit
name: encode_integer_0080
entry: h_enc_int
enforce: BSL_ASN1_EncodeTemplate
level: bounded
bound: INTEGER values given as 3 octets starting 0080
unwind: 8
def: V0=0 V1=128
*/
/*@unit
name: encode_integer_007f
entry: h_enc_int
enforce: BSL_ASN1_EncodeTemplate
level: bounded
bound: INTEGER values given as 3 octets starting 007f
unwind: 8
def: V0=0 V1=127
*/
/*@unit
name: encode_integer_zero
entry: h_enc_int
enforce: BSL_ASN1_EncodeTemplate
level: bounded
bound: INTEGER values given as 3 octets starting zero
unwind: 8
def: V0=0 V1=0
*/
#ifndef V0
#define V0 0x80
#endif
static uint8_t g_v[3];
static uint8_t *c_out;
static bool enc_int_ok(const uint8_t *e, uint32_t n)
{
    uint32_t val = ((uint32_t)g_v[0] << 16) | ((uint32_t)g_v[1] << 8) | g_v[2];
    uint32_t k = val < 0x80 ? 1 : val < 0x8000 ? 2 : val < 0x800000 ? 3 : 4; /* shortest two's complement form */
    if (n != 2 + k || e[0] != 0x02 || e[1] != k) return false;
    uint64_t got = 0;
    for (uint32_t i = 0; i < k; i++) got = (got << 8) | e[2 + i];
    return got == val && !(e[2] & 0x80);
}
#define K_BSL_ASN1_EncodeTemplate(REQ, ENS) \
    ENS("shortest encoding of exactly the given non-negative value", VP_RET == BSL_SUCCESS && enc_int_ok(*encode, *encLen))
int32_t BSL_ASN1_EncodeTemplate(BSL_ASN1_Template *templ, BSL_ASN1_Buffer *asnArr, uint32_t arrNum, uint8_t **encode, uint32_t *encLen)
    VP_CONTRACT(K_BSL_ASN1_EncodeTemplate, *encode, *encLen);
void h_enc_int(void)
{
    BSL_ASN1_TemplateItem it[1] = {{ BSL_ASN1_TAG_INTEGER, 0, 0 }};
    BSL_ASN1_Template tp = { it, 1 }, *templ = &tp;
    uint8_t v[3];
    v[0] = V0;
#ifdef V1
    v[1] = V1;
    v[2] = V1 == 0 ? 0 : vp_u8();
#else
    v[1] = vp_u8();
    v[2] = vp_u8();
#endif
    g_v[0] = v[0]; g_v[1] = v[1]; g_v[2] = v[2];
    BSL_ASN1_Buffer arr[1] = {{ BSL_ASN1_TAG_INTEGER, 3, v }}, *asnArr = arr;
    uint32_t arrNum = 1, n = 0, *encLen = &n;
    c_out = NULL;
    uint8_t **encode = &c_out;
    int32_t r;
    VP_CALL(K_BSL_ASN1_EncodeTemplate, r, BSL_ASN1_EncodeTemplate(templ, asnArr, arrNum, encode, encLen));
    VP_REACH(r == BSL_SUCCESS, "encoded");
}

/*@unit
name: to_utf8_latin1
entry: h_utf8
enforce: BSL_ASN1_ToUtf8String
level: bounded
bound: TELETEXSTRING of 1 octet(s)
unwind: 8
def: UTAG=BSL_ASN1_TAG_TELETEXSTRING ULEN=1
*/
/*@unit
name: to_utf8_bmp
entry: h_utf8
enforce: BSL_ASN1_ToUtf8String
level: bounded
bound: BMPSTRING of 2 octet(s)
unwind: 8
def: UTAG=BSL_ASN1_TAG_BMPSTRING ULEN=2
*/
/*@unit
name: to_utf8_universal
entry: h_utf8
enforce: BSL_ASN1_ToUtf8String
level: bounded
bound: UNIVERSALSTRING of 4 octet(s)
unwind: 8
def: UTAG=BSL_ASN1_TAG_UNIVERSALSTRING ULEN=4
*/
/*@unit
name: to_utf8_bmp_ragged
entry: h_utf8
enforce: BSL_ASN1_ToUtf8String
level: bounded
bound: BMPSTRING of 3 octet(s)
unwind: 8
def: UTAG=BSL_ASN1_TAG_BMPSTRING ULEN=3
*/
/*@unit
name: to_utf8_universal_ragged
entry: h_utf8
enforce: BSL_ASN1_ToUtf8String
level: bounded
bound: UNIVERSALSTRING of 6 octet(s)
unwind: 8
def: UTAG=BSL_ASN1_TAG_UNIVERSALSTRING ULEN=6
*/
#ifndef UTAG
#define UTAG BSL_ASN1_TAG_BMPSTRING
#define ULEN 2
#endif
static uint32_t g_cp;
static bool utf8_is(const uint8_t *p, uint32_t n, uint32_t c)
{
    if (c < 0x80) return n == 1 && p[0] == c;
    if (c < 0x800) return n == 2 && p[0] == (0xC0 | (c >> 6)) && p[1] == (0x80 | (c & 63));
    if (c < 0x10000) return n == 3 && p[0] == (0xE0 | (c >> 12)) && p[1] == (0x80 | ((c >> 6) & 63)) && p[2] == (0x80 | (c & 63));
    return n == 4 && p[0] == (0xF0 | (c >> 18)) && p[1] == (0x80 | ((c >> 12) & 63)) && p[2] == (0x80 | ((c >> 6) & 63)) && p[3] == (0x80 | (c & 63));
}
static uint32_t char_size(uint8_t tag)
{
    return tag == BSL_ASN1_TAG_PRINTABLESTRING || tag == BSL_ASN1_TAG_IA5STRING || tag == BSL_ASN1_TAG_TELETEXSTRING ? 1 :
        tag == BSL_ASN1_TAG_BMPSTRING ? 2 : tag == BSL_ASN1_TAG_UNIVERSALSTRING ? 4 : 0;
}
static bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
#define K_BSL_ASN1_ToUtf8String(REQ, ENS) \
    ENS("one character: accepted exactly when a Unicode scalar value, and then encoded as that character", \
        VP_IMP(char_size(in->tag) != 0 && in->len == char_size(in->tag), (VP_RET == BSL_SUCCESS) == scalar(g_cp) && \
        VP_IMP(VP_RET == BSL_SUCCESS, out->tag == BSL_ASN1_TAG_UTF8STRING && utf8_is(out->buff, out->len, g_cp)))) \
    ENS("ragged lengths are refused", VP_IMP(char_size(in->tag) != 0 && in->len % char_size(in->tag) != 0, VP_RET != BSL_SUCCESS)) \
    ENS("other string types are refused", VP_IMP(char_size(in->tag) == 0 && in->tag != BSL_ASN1_TAG_UTF8STRING, VP_RET != BSL_SUCCESS))
int32_t BSL_ASN1_ToUtf8String(const BSL_ASN1_Buffer *in, BSL_ASN1_Buffer *out) VP_CONTRACT(K_BSL_ASN1_ToUtf8String, *out);
void h_utf8(void)
{
    BSL_ASN1_Buffer a, b, *in = &a, *out = &b;
    memset(&b, 0, sizeof(b));
    a.tag = UTAG;
    a.len = ULEN;
    VP_BUF(a.buff, ULEN, ULEN);
    g_cp = 0;
    for (uint32_t i = 0; i < a.len && i < 4; i++) g_cp = (g_cp << 8) | a.buff[i];
    int32_t r;
    VP_CALL(K_BSL_ASN1_ToUtf8String, r, BSL_ASN1_ToUtf8String(in, out));
    VP_REACH((r == BSL_SUCCESS) == (ULEN == char_size(UTAG)), "usual outcome");
}
