/* UTCTime / GeneralizedTime in certificates and CRLs (RFC 5280 4.1.2.5). */
/*@defaults
src: bsl/asn1/src/bsl_asn1.c bsl/sal/src/sal_time.c bsl/sal/src/posix/posix_time.c
unwind: 18
level: proof
*/
#include "vp.h"
#include "bsl_sal.h"
#include "bsl_errno.h"
#include "bsl_asn1_internal.h"
#include "sal_time.h"

static bool leap(uint32_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static uint32_t mdays(uint32_t y, uint32_t m)
{
    return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
static uint32_t two(const uint8_t *p) { return (uint32_t)(p[0] - '0') * 10 + (uint32_t)(p[1] - '0'); }
static bool digits(const uint8_t *p, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) if (p[i] < '0' || p[i] > '9') return false;
    return true;
}
/* the text denotes an existing date; *y its year */
static bool text_ok(const uint8_t *p, uint32_t len, bool utc)
{
    uint32_t n = utc ? 12 : 14;
    if (len != n && len != n + 1) return false;
    if (len == n + 1 && p[n] != 'Z') return false;
    if (!digits(p, n)) return false;
    uint32_t y = utc ? (two(p) < 50 ? 2000 : 1900) + two(p) : two(p) * 100 + two(p + 2);
    const uint8_t *q = p + n - 10;
    return y >= 1970 && two(q) >= 1 && two(q) <= 12 && two(q + 2) >= 1 && two(q + 2) <= mdays(y, two(q)) &&
        two(q + 4) < 24 && two(q + 6) < 60 && two(q + 8) < 60;
}
static bool date_is(const BSL_TIME *t, const uint8_t *p, bool utc)
{
    uint32_t y = utc ? (two(p) < 50 ? 2000 : 1900) + two(p) : two(p) * 100 + two(p + 2);
    const uint8_t *q = p + (utc ? 2 : 4);
    return t->year == y && t->month == two(q) && t->day == two(q + 2) && t->hour == two(q + 4) && t->minute == two(q + 6) &&
        t->second == two(q + 8);
}

/*@unit
name: decode_time
entry: h_dec
enforce: BSL_ASN1_DecodePrimitiveItem
*/
static BSL_TIME c_t;
#define K_BSL_ASN1_DecodePrimitiveItem(REQ, ENS) \
    ENS("accepts exactly well-formed existing dates", (VP_RET == BSL_SUCCESS) == text_ok(asn->buff, asn->len, asn->tag == BSL_ASN1_TAG_UTCTIME)) \
    ENS("the decoded date is the one written", VP_IMP(VP_RET == BSL_SUCCESS, date_is(&c_t, asn->buff, asn->tag == BSL_ASN1_TAG_UTCTIME)))
int32_t BSL_ASN1_DecodePrimitiveItem(BSL_ASN1_Buffer *asn, void *decodeData) VP_CONTRACT(K_BSL_ASN1_DecodePrimitiveItem, c_t);
void h_dec(void)
{
    BSL_ASN1_Buffer a, *asn = &a;
    a.tag = vp_bool() ? BSL_ASN1_TAG_UTCTIME : BSL_ASN1_TAG_GENERALIZEDTIME;
    a.len = vp_range(0, 16);
    VP_BUF(a.buff, a.len, 16);
    memset(&c_t, 0, sizeof(c_t));
    void *decodeData = &c_t;
    int32_t r;
    VP_CALL(K_BSL_ASN1_DecodePrimitiveItem, r, BSL_ASN1_DecodePrimitiveItem(asn, decodeData));
    VP_REACH(r == BSL_SUCCESS && a.tag == BSL_ASN1_TAG_UTCTIME && c_t.year == 1999, "utc");
    VP_REACH(r == BSL_SUCCESS && a.tag == BSL_ASN1_TAG_GENERALIZEDTIME && c_t.year == 2051 && a.len == 15, "generalized");
}

/*@unit
name: encode_utctime
entry: h_enc
enforce: BSL_ASN1_EncodeTemplate
def: TTAG=BSL_ASN1_TAG_UTCTIME
*/
/*@unit
name: encode_generalizedtime
entry: h_enc
enforce: BSL_ASN1_EncodeTemplate
def: TTAG=BSL_ASN1_TAG_GENERALIZEDTIME
*/
#ifndef TTAG
#define TTAG BSL_ASN1_TAG_UTCTIME
#endif
static BSL_TIME c_in;
static uint8_t *c_out;
static bool valid(const BSL_TIME *t)
{
    return t->year >= 1970 && t->month >= 1 && t->month <= 12 && t->day >= 1 && t->day <= mdays(t->year, t->month) &&
        t->hour < 24 && t->minute < 60 && t->second < 60 && t->millSec < 1000 && t->microSec < 1000;
}
static bool encodable(uint8_t tag)
{
    return valid(&c_in) && (tag == BSL_ASN1_TAG_UTCTIME ? c_in.year >= 2000 && c_in.year <= 2049 : c_in.year <= 9999);
}
static bool enc_ok(const uint8_t *e, uint32_t n, uint8_t tag)
{
    uint32_t want = tag == BSL_ASN1_TAG_UTCTIME ? 13 : 15;
    return n == want + 2 && e[0] == tag && e[1] == want && e[n - 1] == 'Z' && digits(e + 2, want - 1) &&
        date_is(&c_in, e + 2, tag == BSL_ASN1_TAG_UTCTIME);
}
#define K_BSL_ASN1_EncodeTemplate(REQ, ENS) \
    ENS("only existing dates the type can carry are encoded", (VP_RET == BSL_SUCCESS) == encodable(asnArr->tag)) \
    ENS("the encoding denotes the same date", VP_IMP(VP_RET == BSL_SUCCESS, enc_ok(*encode, *encLen, asnArr->tag)))
int32_t BSL_ASN1_EncodeTemplate(BSL_ASN1_Template *templ, BSL_ASN1_Buffer *asnArr, uint32_t arrNum, uint8_t **encode, uint32_t *encLen)
    VP_CONTRACT(K_BSL_ASN1_EncodeTemplate, *encode, *encLen);
void h_enc(void)
{
    VP_DRAW(c_in.year); VP_DRAW(c_in.month); VP_DRAW(c_in.day); VP_DRAW(c_in.hour); VP_DRAW(c_in.minute);
    VP_DRAW(c_in.second); VP_DRAW(c_in.millSec); VP_DRAW(c_in.microSec);
    uint8_t tag = TTAG;
    BSL_ASN1_TemplateItem it[1] = {{ tag, 0, 0 }};
    BSL_ASN1_Template tp = { it, 1 }, *templ = &tp;
    BSL_ASN1_Buffer arr[1], *asnArr = arr;
    arr[0].tag = tag;
    arr[0].len = sizeof(BSL_TIME);
    arr[0].buff = (uint8_t *)&c_in;
    uint32_t arrNum = 1, n = 0, *encLen = &n, r0;
    (void)r0;
    c_out = NULL;
    uint8_t **encode = &c_out;
    int32_t r;
    VP_CALL(K_BSL_ASN1_EncodeTemplate, r, BSL_ASN1_EncodeTemplate(templ, asnArr, arrNum, encode, encLen));
    VP_REACH(r == BSL_SUCCESS && c_in.year == (tag == BSL_ASN1_TAG_UTCTIME ? 2049 : 9999), "last year");
}
