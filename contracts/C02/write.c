/* Record numbers on the sending side: TlsRecordWrite, DtlsRecordWrite and everything they call in rec_write.c. */
/*@defaults
src: tls/record/src/rec_write.c tls/record/src/rec_conn.c tls/record/src/rec_alert.c
unwind: 5
unwindset: be.0:9
level: proof
assume: packet encryption (RecCryptoFunc) is arbitrary: may fail, any lengths
assume: transport (BSL_UIO_Write) may refuse, accept a part or accept all of what it is given
assume: the output buffer holds at most 48 bytes plus overhead (its contents are never inspected by the numbering code)
*/
#include "vp.h"
#include "hitls_build.h"
#include "tls.h"
#include "rec.h"
#include "record.h"
#include "rec_write.h"
#include "rec_crypto.h"
#include "rec_header.h"
#include "hitls_error.h"
#include "bsl_errno.h"
#include "bsl_bytes.h"
#include "bsl_uio.h"
#include "indicator.h"

static struct {
    uint32_t enc;       /* records protected in this call */
    bool encOk;
    uint64_t encSeq;    /* number they were protected under (TLS: 64 bit; DTLS: epoch||number) */
    uint64_t encSeq13;
    uint16_t encVer;
    RecConnState *encState;
    uint32_t sentCalls;
    bool handed;        /* the transport accepted at least one byte */
    bool handedAll;     /* ... all of them */
    uint8_t hdr[13];
    uint32_t accepted;
} G;
static uint64_t o_seq; static bool o_wrapped, o_pending;
static TLS_Ctx c_ctx;
static RecCtx c_rec;
static RecConnState c_cur;
static RecConnSuitInfo c_suite;
static RecBuf c_out;
#define OUTSZ 48

static uint32_t cb_cipherLen(const TLS_Ctx *c, RecConnSuitInfo *s, uint32_t n, bool r) { (void)c; (void)s; (void)r; return n == 0 && vp_bool() ? 0 : n + vp_range(0, 40); }
static int32_t cb_pre(TLS_Ctx *c, uint8_t type, const uint8_t *d, uint32_t n, RecordPlaintext *p)
{
    (void)c; (void)d;
    if (vp_bool()) return HITLS_REC_RECORD_OVERFLOW;
    p->recordType = vp_bool() ? type : REC_TYPE_APP; p->plainLen = n; p->plainData = NULL; p->isTlsInnerPlaintext = vp_bool();
    return HITLS_SUCCESS;
}
static int32_t cb_enc(TLS_Ctx *c, RecConnState *s, const REC_TextInput *m, uint8_t *out, uint32_t outLen)
{
    (void)c;
    G.enc++;
    G.encSeq = BSL_ByteToUint64(m->seq);
    G.encSeq13 = BSL_ByteToUint64(m->dtls13Seq);
    G.encVer = m->version;
    G.encState = s;
    VP_ASSERT(outLen <= OUTSZ && out + outLen <= c_out.buf + c_out.bufSize, "ciphertext stays inside the output buffer");
    if (vp_bool()) return HITLS_CRYPT_ERR_ENCRYPT;
    G.encOk = true;
    return HITLS_SUCCESS;
}
static const RecCryptoFunc c_funcs = { cb_cipherLen, NULL, NULL, NULL, cb_enc, cb_pre };
const RecCryptoFunc *RecGetCryptoFuncs(const RecConnSuitInfo *s) { (void)s; return &c_funcs; }
int32_t Dtls13CryptSequenceNumber(TLS_Ctx *c, RecConnSuitInfo *s, const uint8_t *ct, uint32_t cl, uint8_t *seq, uint8_t sl)
{ (void)c; (void)s; (void)ct; (void)cl; if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC; seq[0] = vp_u8(); if (sl == 2) seq[1] = vp_u8(); return HITLS_SUCCESS; }
bool BSL_UIO_GetUioChainTransportType(BSL_UIO *uio, const BSL_UIO_TransportType t) { (void)uio; (void)t; return vp_bool(); }
int32_t BSL_UIO_Ctrl(BSL_UIO *u, int32_t cmd, int32_t l, void *p) { (void)u; (void)cmd; (void)l; (void)p; return BSL_SUCCESS; }
int32_t BSL_UIO_Write(BSL_UIO *uio, const void *data, uint32_t len, uint32_t *writeLen)
{
    (void)uio;
    G.sentCalls++;
    if (len >= 13) memcpy(G.hdr, data, 13);
#ifdef STREAM
    VP_ASSUME(G.sentCalls <= 3);
#endif
    if (vp_bool()) return BSL_UIO_IO_EXCEPTION;
    uint32_t n = vp_u32();
    VP_ASSUME(n <= len);
    *writeLen = n;
    if (n > 0) G.handed = true;
    if (n == len) G.handedAll = true;
    G.accepted += n;
    return BSL_SUCCESS;
}
int32_t RecDerefBufList(TLS_Ctx *c) { (void)c; return vp_bool() ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
int32_t RecIoBufInit(TLS_Ctx *c, RecCtx *r, bool rd) { (void)c; (void)r; (void)rd; return vp_bool() ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
void RecTryFreeRecBuf(TLS_Ctx *c, bool o) { (void)c; (void)o; }
int32_t HITLS_KeyUpdate(HITLS_Ctx *c, uint32_t t) { (void)c; (void)t; return HITLS_SUCCESS; }
void INDICATOR_MessageIndicate(int32_t w, uint32_t v, int32_t t, const void *b, uint32_t n, HITLS_Ctx *c, void *a) { (void)w; (void)v; (void)t; (void)b; (void)n; (void)c; (void)a; }

#define PENDING (c_out.end > c_out.start)

#define K_TlsRecordWrite(REQ, ENS) \
    ENS("a record is protected under the current write number", VP_IMP(G.enc > 0, G.encSeq == o_seq && G.encState == &c_cur)) \
    ENS("at most one record is protected", G.enc <= 1) \
    ENS("a record sent completely consumes exactly one number", VP_IMP(VP_RET == HITLS_SUCCESS, c_cur.seq == o_seq + 1 && !PENDING)) \
    ENS("a record not sent completely consumes no number", VP_IMP(VP_RET != HITLS_SUCCESS, c_cur.seq == o_seq)) \
    ENS("nothing new is protected while a record is pending", VP_IMP(o_pending, G.enc == 0)) \
    ENS("a protected record stays pending until it is sent", VP_IMP((G.encOk || (o_pending && G.accepted == 0)) && VP_RET != HITLS_SUCCESS, PENDING)) \
    ENS("after the last number nothing is protected or sent", VP_IMP(o_wrapped, VP_RET != HITLS_SUCCESS && G.enc == 0 && G.sentCalls == 0)) \
    ENS("using the last number closes the sending side", VP_IMP(G.enc > 0 && o_seq == UINT64_MAX, c_cur.isWrapped)) \
    ENS("the closed state is permanent", VP_IMP(o_wrapped, c_cur.isWrapped))
int32_t TlsRecordWrite(TLS_Ctx *ctx, REC_Type recordType, const uint8_t *data, uint32_t num)
    VP_CONTRACT(K_TlsRecordWrite, __CPROVER_object_whole(c_out.buf), G, c_ctx, c_rec, c_cur, c_out, c_suite);

static uint64_t be(const uint8_t *p, uint32_t n) { uint64_t v = 0; for (uint32_t i = 0; i < n; i++) v = (v << 8) | p[i]; return v; }
#define IS13 (ctx->negotiatedInfo.version == HITLS_VERSION_DTLS13)
#define K_DtlsRecordWrite(REQ, ENS) \
    ENS("a record is protected under the current epoch and number", VP_IMP(G.enc > 0, \
        G.encSeq == (((uint64_t)c_cur.epoch << 48) | o_seq) && G.encState == &c_cur && VP_IMP(IS13 && c_cur.epoch > 0, G.encSeq13 == o_seq))) \
    ENS("at most one record is protected", G.enc <= 1) \
    ENS("numbers beyond 48 bits are refused", VP_IMP(o_seq > 0xFFFFFFFFFFFFULL, VP_RET != HITLS_SUCCESS && G.enc == 0 && G.sentCalls == 0)) \
    ENS("a record handed to the transport consumes its number", VP_IMP(G.handedAll, c_cur.seq == o_seq + 1)) \
    ENS("a record refused by the transport consumes no number", VP_IMP(!G.handed, c_cur.seq == o_seq)) \
    ENS("success means the record went out", VP_IMP(VP_RET == HITLS_SUCCESS, G.handedAll && G.encOk)) \
    ENS("no stale record stays in the output buffer", VP_IMP(G.sentCalls > 0, !PENDING)) \
    ENS("unprotected header carries the epoch and number used", VP_IMP(G.sentCalls > 0 && !(IS13 && c_cur.epoch > 0), \
        be(G.hdr + 3, 8) == (((uint64_t)c_cur.epoch << 48) | o_seq)))
int32_t DtlsRecordWrite(TLS_Ctx *ctx, REC_Type recordType, const uint8_t *data, uint32_t num)
    VP_CONTRACT(K_DtlsRecordWrite, __CPROVER_object_whole(c_out.buf), G, c_ctx, c_rec, c_cur, c_out, c_suite);

static void setup(void)
{
    memset(&G, 0, sizeof(G));
    c_ctx.recCtx = &c_rec;
    c_ctx.isClient = vp_bool();
    c_ctx.config.tlsConfig.modeSupport = vp_u32();
    c_ctx.config.tlsConfig.isAutoKeyUpdateEnabled = vp_bool();
    c_ctx.isKeyUpdateRequest = vp_bool();
    c_ctx.negotiatedInfo.peerCidEntry.cidLen = 0;
    c_rec.writeStates.currentState = &c_cur;
    c_rec.outBuf = &c_out;
    VP_DRAW(c_cur.seq);
    c_cur.isWrapped = vp_bool();
    c_cur.isEncryptThenMac = vp_bool();
    c_cur.suiteInfo = vp_bool() ? &c_suite : NULL;
    c_suite.cipherAlg = vp_u32();
    c_out.bufSize = OUTSZ;
    c_out.buf = malloc(OUTSZ);
    VP_ASSUME(c_out.buf != NULL);
    o_seq = c_cur.seq;
    o_wrapped = c_cur.isWrapped;
}
static void h_tls(uint16_t version)
{
    TLS_Ctx *ctx = &c_ctx;
    setup();
    ctx->negotiatedInfo.version = version;
    ctx->config.tlsConfig.originVersionMask = TLS_VERSION_MASK;
    ctx->config.tlsConfig.maxVersion = version ? version : HITLS_VERSION_TLS13;
    c_cur.epoch = 0;
    c_out.start = vp_range(0, OUTSZ);
    c_out.end = vp_range(0, OUTSZ);
    VP_ASSUME(c_out.start <= c_out.end);
    VP_ASSUME(VP_IMP(c_out.start == c_out.end, c_out.start == 0));
    o_pending = PENDING;
    uint8_t *data;
    VP_BUF(data, 32, 32);
    uint32_t num = vp_range(0, 32);
    REC_Type recordType = vp_u8();
    int32_t r;
    VP_CALL(K_TlsRecordWrite, r, TlsRecordWrite(ctx, recordType, data, num));
    VP_REACH(r == HITLS_SUCCESS && G.enc == 1 && o_seq == 12345, "sent");
    VP_REACH(r == HITLS_SUCCESS && o_pending, "resumed");
    VP_REACH(r != HITLS_SUCCESS && PENDING && G.enc == 1, "busy");
    VP_REACH(o_wrapped, "wrapped");
}
/*@unit
name: TlsRecordWrite_tls12
entry: h_tls12
enforce: TlsRecordWrite
def: STREAM
level: bounded
bound: a record leaves the output buffer in at most 3 partial writes
*/
void h_tls12(void) { h_tls(HITLS_VERSION_TLS12); }
/*@unit
name: TlsRecordWrite_tls13
entry: h_tls13
enforce: TlsRecordWrite
def: STREAM
level: bounded
bound: a record leaves the output buffer in at most 3 partial writes
*/
void h_tls13(void) { h_tls(HITLS_VERSION_TLS13); }

static void h_dtls(uint16_t version)
{
    TLS_Ctx *ctx = &c_ctx;
    setup();
    ctx->negotiatedInfo.version = version;
    ctx->config.tlsConfig.originVersionMask = DTLS_VERSION_MASK;
    ctx->config.tlsConfig.maxVersion = version;
    c_cur.epoch = vp_u16();
    c_out.start = c_out.end = 0;
    uint8_t *data;
    VP_BUF(data, 32, 32);
    uint32_t num = vp_range(0, 32);
    REC_Type recordType = vp_u8();
    int32_t r;
    VP_CALL(K_DtlsRecordWrite, r, DtlsRecordWrite(ctx, recordType, data, num));
    VP_REACH(r == HITLS_SUCCESS && o_seq == 12345 && c_cur.epoch == 2, "sent");
    VP_REACH(r != HITLS_SUCCESS && G.sentCalls == 1, "refused");
    VP_REACH(o_seq == (1ULL << 48), "wrapped");
}
/*@unit
name: DtlsRecordWrite_dtls12
entry: h_dtls12
enforce: DtlsRecordWrite
*/
void h_dtls12(void) { h_dtls(HITLS_VERSION_DTLS12); }
/*@unit
name: DtlsRecordWrite_dtls13
entry: h_dtls13
enforce: DtlsRecordWrite
*/
void h_dtls13(void) { h_dtls(HITLS_VERSION_DTLS13); }
