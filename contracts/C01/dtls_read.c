/* The whole datagram read path: DtlsRecordRead and everything it calls in rec_read.c, with the packet-protection
 * primitives, the transport and the plaintext queues replaced by executable assumed contracts. */
/*@defaults
src: tls/record/src/rec_read.c tls/record/src/rec_anti_replay.c tls/record/src/rec_conn.c tls/record/src/rec_alert.c
unwind: 5
level: bounded
bound: receive buffer of 40 bytes (every header form, several records per datagram), no connection id; record numbers, windows, epochs and all other state unbounded
weight: 5
assume: packet decryption (RecCryptoFunc.decrypt) may succeed or fail arbitrarily and, on success, leaves arbitrary plaintext of any length up to the buffer
assume: UIO, plaintext queues, ACK list and out-of-order record cache are arbitrary executable stand-ins; cached records carry arbitrary headers of the current epoch
assume: record numbers of an epoch stay below 2^47 (RFC 9147 caps them at 2^48-1)
*/
#include "vp.h"
#include "hitls_build.h"
#include "tls.h"
#include "rec.h"
#include "record.h"
#include "rec_read.h"
#include "rec_crypto.h"
#include "rec_anti_replay.h"
#include "hitls_error.h"
#include "bsl_errno.h"
#include "bsl_bytes.h"
#include "bsl_uio.h"
#include "indicator.h"

static bool vp_seen(uint64_t top, uint64_t window, uint64_t s)
{
    return s <= top && (top - s >= 64 || ((window >> (top - s)) & 1) != 0);
}

static struct {
    bool decOk;            /* packet protection accepted the record in this call */
    uint16_t decEpoch;     /* epoch and record number the protection was applied to */
    uint64_t decSeq;
    RecConnState *decState;
    bool delivered;        /* plaintext handed to the application, a queue or an alert/ACK handler */
    bool udp;
} G;
static uint64_t o_top, o_win, oo_top, oo_win; /* windows on entry: current epoch, previous epoch */
static uint64_t g_k;                          /* an arbitrary record number */

static TLS_Ctx c_ctx;
static RecCtx c_rec;
static RecConnState c_cur, c_out, c_pend;
static RecConnSuitInfo c_suite, c_suiteOut;
static RecBuf c_in;
static UnprocessedMsg c_cached;

/* ---- environment ---- */
static uint32_t cb_cipherLen(const TLS_Ctx *c, RecConnSuitInfo *s, uint32_t n, bool r) { (void)c; (void)s; (void)n; (void)r; return vp_range(0, 64); }
static int32_t cb_plainLen(TLS_Ctx *c, RecConnSuitInfo *s, uint32_t n, uint32_t *off, uint32_t *pl)
{ (void)c; (void)s; *off = 0; if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC; *pl = n; return HITLS_SUCCESS; }
static int32_t cb_decrypt(TLS_Ctx *c, RecConnState *state, const REC_TextInput *m, uint8_t *data, uint32_t *len)
{
    (void)c; (void)data;
    if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC;
    G.decOk = true;
    G.decEpoch = REC_EPOCH_GET(BSL_ByteToUint64(m->seq));
    G.decSeq = c->negotiatedInfo.version == HITLS_VERSION_DTLS13 ? BSL_ByteToUint64(m->dtls13Seq)
                                                                  : REC_SEQ_GET(BSL_ByteToUint64(m->seq));
    G.decState = state;
    uint32_t n = vp_u32();
    VP_ASSUME(n <= *len);
    *len = n;
    return HITLS_SUCCESS;
}
static int32_t cb_post(TLS_Ctx *c, RecConnSuitInfo *s, REC_TextInput *m, uint8_t *data, uint32_t *len)
{ (void)c; (void)s; (void)data; if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC; m->type = vp_u8(); uint32_t n = vp_u32(); VP_ASSUME(n <= *len); *len = n; return HITLS_SUCCESS; }
static const RecCryptoFunc c_funcs = { cb_cipherLen, cb_plainLen, cb_decrypt, cb_post, NULL, NULL };
const RecCryptoFunc *RecGetCryptoFuncs(const RecConnSuitInfo *s) { (void)s; return &c_funcs; }
int32_t Dtls13CryptSequenceNumber(TLS_Ctx *c, RecConnSuitInfo *s, const uint8_t *ct, uint32_t cl, uint8_t *seq, uint8_t sl)
{ (void)c; (void)s; (void)ct; (void)cl; if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC; seq[0] = vp_u8(); if (sl == 2) seq[1] = vp_u8(); return HITLS_SUCCESS; }

bool BSL_UIO_GetUioChainTransportType(BSL_UIO *uio, const BSL_UIO_TransportType t) { (void)uio; return t == BSL_UIO_UDP ? G.udp : !G.udp; }
int32_t BSL_UIO_Read(BSL_UIO *uio, void *data, uint32_t len, uint32_t *readLen)
{ (void)uio; (void)data; if (vp_bool()) return BSL_UIO_IO_EXCEPTION; uint32_t n = vp_u32(); VP_ASSUME(n <= len); *readLen = n; return BSL_SUCCESS; }
bool RecBufListEmpty(RecBufList *l) { (void)l; return true; }
int32_t RecBufListAddBuffer(RecBufList *l, RecBuf *b) { (void)l; (void)b; if (vp_bool()) return HITLS_MEMALLOC_FAIL; G.delivered = true; return HITLS_SUCCESS; }
int32_t RecBufListGetBuffer(RecBufList *l, uint8_t *b, uint32_t n, uint32_t *g, bool p) { (void)l; (void)b; (void)n; (void)p; *g = 0; return HITLS_SUCCESS; }
void RecBufClean(RecBuf *buf) { buf->start = 0; buf->end = 0; }
int32_t RecDerefBufList(TLS_Ctx *c) { (void)c; return vp_bool() ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
int32_t RecIoBufInit(TLS_Ctx *c, RecCtx *r, bool rd) { (void)c; (void)r; (void)rd; return vp_bool() ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
void RecTryFreeRecBuf(TLS_Ctx *c, bool o) { (void)c; (void)o; }
uint32_t RecGetInitBufferSize(const TLS_Ctx *c, bool r) { (void)c; (void)r; return 18432 + 13; }
int32_t UnprocessedMsgListAppend(UnprocessedMsg *l, const RecHdr *h, const uint8_t *b) { (void)l; (void)h; (void)b; return vp_bool() ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
UnprocessedMsg *UnprocessedMsgGet(UnprocessedMsg *l, uint16_t e, uint8_t t)
{ (void)l; (void)t; if (vp_bool() || REC_EPOCH_GET(c_cached.hdr.epochSeq) != e) return NULL; return &c_cached; }
void UnprocessedMsgFree(UnprocessedMsg *m) { (void)m; }
int32_t REC_Dtls13AckListAppend(TLS_Ctx *c, const RecordNumber *n) { (void)c; (void)n; return vp_bool() ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
void REC_Dtls13SetNeedSendRetransAck(TLS_Ctx *c) { (void)c; }
int32_t HITLS_KeyUpdate(HITLS_Ctx *c, uint32_t t) { (void)c; (void)t; return HITLS_SUCCESS; }
bool DTLS_CID_IsExpectedCid(const TLS_Ctx *c, const uint8_t *cid, uint8_t n) { (void)c; (void)cid; (void)n; return vp_bool(); }
void INDICATOR_MessageIndicate(int32_t w, uint32_t v, int32_t t, const void *b, uint32_t n, HITLS_Ctx *c, void *a) { (void)w; (void)v; (void)t; (void)b; (void)n; (void)c; (void)a; }
static bool cb_isRecvCCS(const TLS_Ctx *c) { (void)c; return vp_bool(); }
static int32_t cb_unexpected(HITLS_Ctx *c, uint32_t t, const uint8_t *d, uint32_t n, bool plain)
{ (void)c; (void)t; (void)d; (void)n; (void)plain; G.delivered = true; return vp_i32(); }
static void cb_alert(const TLS_Ctx *c, ALERT_Level l, ALERT_Description d) { (void)c; (void)l; (void)d; }
static void cb_clearAlert(TLS_Ctx *c, uint8_t t) { (void)c; (void)t; }

/* number recorded in the window of the state the record was unprotected with, before / after the call */
static bool old_seen(void)
{
    return G.decState == &c_cur ? vp_seen(o_top, o_win, G.decSeq) : vp_seen(oo_top, oo_win, G.decSeq);
}
static bool new_seen(void) { return G.decState != NULL && vp_seen(G.decState->window.top, G.decState->window.window, G.decSeq); }
static bool windows_unchanged(void)
{
    return c_cur.window.top == o_top && c_cur.window.window == o_win && c_out.window.top == oo_top && c_out.window.window == oo_win;
}
static bool got(int32_t ret) { return G.delivered || ret == HITLS_SUCCESS; }

#define K_DtlsRecordRead(REQ, ENS) \
    ENS("nothing reaches the caller from a record that was not unprotected successfully", VP_IMP(got(VP_RET), G.decOk)) \
    ENS("a protected record number that was delivered before is not delivered again", \
        VP_IMP(got(VP_RET) && G.udp && G.decEpoch != 0, !old_seen())) \
    ENS("a delivered record number is refused from then on", \
        VP_IMP(got(VP_RET) && G.udp && G.decEpoch != 0, new_seen())) \
    ENS("a record that fails authentication leaves the replay windows alone", VP_IMP(!G.decOk, windows_unchanged())) \
    ENS("DTLS 1.2: only records of the current read epoch are delivered", \
        VP_IMP(got(VP_RET) && ctx->negotiatedInfo.version != HITLS_VERSION_DTLS13, G.decEpoch == c_rec.readEpoch)) \
    ENS("no record number is ever forgotten", \
        VP_IMP(vp_seen(o_top, o_win, g_k), vp_seen(c_cur.window.top, c_cur.window.window, g_k)) && \
        VP_IMP(vp_seen(oo_top, oo_win, g_k), vp_seen(c_out.window.top, c_out.window.window, g_k)))
int32_t DtlsRecordRead(TLS_Ctx *ctx, REC_Type recordType, uint8_t *data, uint32_t *len, uint32_t bufSize)
    VP_CONTRACT(K_DtlsRecordRead, *len, __CPROVER_object_whole(data), G, c_ctx, c_rec, c_cur, c_out, c_in,
        c_cached);

#define INMAX 40
#ifndef INSZ
#define INSZ 40
#endif
static void setup(TLS_Ctx *ctx)
{
    memset(&G, 0, sizeof(G)); /* statics are arbitrary on entry */
    ctx->recCtx = &c_rec;
    ctx->isClient = vp_bool();
    ctx->config.tlsConfig.originVersionMask = DTLS_VERSION_MASK;
    ctx->config.tlsConfig.maxVersion = vp_bool() ? HITLS_VERSION_DTLS13 : HITLS_VERSION_DTLS12;
    ctx->config.tlsConfig.emptyRecordsNum = vp_u32();
    ctx->config.tlsConfig.modeSupport = vp_u32();
    ctx->config.tlsConfig.isAutoKeyUpdateEnabled = vp_bool();
    ctx->hsCtx = vp_bool() ? (HS_Ctx *)&c_in : NULL;
    ctx->peekFlag = vp_u8() & 1;
    ctx->isDtlsListen = vp_bool();
    ctx->negotiatedInfo.recordSizeLimit = vp_u16();
#ifdef WITH_CID
    ctx->negotiatedInfo.isCidNegotiated = true;
    ctx->negotiatedInfo.localCidEntry.cidLen = WITH_CID;
#else
    ctx->negotiatedInfo.isCidNegotiated = false;
    ctx->negotiatedInfo.localCidEntry.cidLen = 0;
#endif
    ctx->method.isRecvCCS = cb_isRecvCCS;
    ctx->method.sendAlert = cb_alert;
    ctx->method.clearAlert = cb_clearAlert;
    ctx->method.unexpectedMsgProcessCb = cb_unexpected;

    c_rec.inBuf = &c_in;
    c_rec.readEpoch = vp_u16();
    c_rec.readStates.currentState = &c_cur;
    c_rec.readStates.outdatedState = vp_bool() ? &c_out : NULL;
    c_rec.readStates.pendingState = vp_bool() ? &c_pend : NULL;
    c_rec.UnprocessedMsgList.head.next = c_rec.UnprocessedMsgList.head.prev = &c_rec.UnprocessedMsgList.head;
    c_rec.UnprocessedMsgList.count = 0;
    if (vp_bool()) {
        c_rec.UnprocessedMsgList.count = 1;
        c_rec.UnprocessedMsgList.head.next = c_rec.UnprocessedMsgList.head.prev = &c_cached.head;
        c_cached.head.next = c_cached.head.prev = &c_rec.UnprocessedMsgList.head;
        c_cached.hdr.epochSeq = vp_u64();
        c_cached.hdr.type = vp_u8();
        c_cached.hdr.bodyLen = vp_u16();
        VP_ASSUME(c_cached.hdr.bodyLen > 0);
        c_cached.recordBody = malloc(16);
        VP_ASSUME(c_cached.recordBody != NULL);
    }
    VP_DRAW(c_cur.window.top);
    VP_DRAW(c_cur.window.window);
    VP_DRAW(c_cur.seq);
    c_cur.epoch = c_rec.readEpoch;
    c_cur.decryptFailCount = vp_u64();
    c_cur.suiteInfo = (c_rec.readEpoch != 0) ? &c_suite : NULL;
    VP_DRAW(c_out.window.top);
    VP_DRAW(c_out.window.window);
    VP_DRAW(c_out.seq);
    c_out.epoch = (uint16_t)(c_rec.readEpoch - 1);
    c_out.suiteInfo = (c_out.epoch != 0) ? &c_suiteOut : NULL;
    VP_DRAW(c_pend.seq);
    VP_ASSUME(c_cur.window.top < (1ULL << 47) && c_out.window.top < (1ULL << 47));
    VP_ASSUME(c_cur.seq < (1ULL << 47) && c_out.seq < (1ULL << 47) && c_pend.seq < (1ULL << 47));
    c_suite.cipherAlg = vp_u32();

    c_in.bufSize = INSZ;
    c_in.buf = malloc(INSZ);
    VP_ASSUME(c_in.buf != NULL);
    VP_BYTES(c_in.buf, INMAX);
    c_in.end = vp_u32();
    c_in.start = vp_u32();
    VP_ASSUME(c_in.start <= c_in.end && c_in.end <= c_in.bufSize);
    G.udp = vp_bool();
    o_top = c_cur.window.top; o_win = c_cur.window.window;
    oo_top = c_out.window.top; oo_win = c_out.window.window;
    g_k = vp_u64();
}

/*@unit
name: DtlsRecordRead_dtls12
entry: h_dtls12
enforce: DtlsRecordRead
*/
void h_dtls12(void)
{
    TLS_Ctx *ctx = &c_ctx;
    setup(ctx);
    ctx->negotiatedInfo.version = HITLS_VERSION_DTLS12;
    uint8_t *data = malloc(64);
    VP_ASSUME(data != NULL);
    uint32_t outLen = 0, *len = &outLen, bufSize = vp_range(0, 64);
    REC_Type recordType = vp_u8();
    int32_t r;
    VP_CALL(K_DtlsRecordRead, r, DtlsRecordRead(ctx, recordType, data, len, bufSize));
    VP_REACH(r == HITLS_SUCCESS && G.decEpoch == 1 && G.decSeq == 77, "delivered");
    VP_REACH(r == HITLS_SUCCESS && G.decEpoch == 1 && G.decSeq < o_top, "late record delivered");
    VP_REACH(r == HITLS_REC_NORMAL_RECV_BUF_EMPTY && !G.decOk, "dropped");
    VP_REACH(G.delivered && r != HITLS_SUCCESS, "queued");
}

/*@unit
name: DtlsRecordRead_dtls13
entry: h_dtls13
enforce: DtlsRecordRead
unwindset: memcmp.0:10
*/
void h_dtls13(void)
{
    TLS_Ctx *ctx = &c_ctx;
    setup(ctx);
    ctx->negotiatedInfo.version = HITLS_VERSION_DTLS13;
    c_rec.UnprocessedMsgList.count = 0;
    uint8_t *data = malloc(64);
    VP_ASSUME(data != NULL);
    uint32_t outLen = 0, *len = &outLen, bufSize = vp_range(0, 64);
    REC_Type recordType = vp_u8();
    int32_t r;
    VP_CALL(K_DtlsRecordRead, r, DtlsRecordRead(ctx, recordType, data, len, bufSize));
    VP_REACH(r == HITLS_SUCCESS && G.decEpoch == 3 && G.decSeq == 77, "delivered");
    VP_REACH(G.delivered && G.decState == &c_out && r != HITLS_SUCCESS, "previous epoch");
    VP_REACH(!G.decOk, "dropped");
}
