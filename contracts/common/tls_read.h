/* Stream read path: TlsRecordRead and everything it calls in rec_read.c, over arbitrary peers and packet protection. */
#include "vp.h"
#include "hitls_build.h"
#include "tls.h"
#include "rec.h"
#include "record.h"
#include "rec_read.h"
#include "rec_crypto.h"
#include "rec_header.h"
#include "hitls_error.h"
#include "bsl_errno.h"
#include "bsl_bytes.h"
#include "bsl_uio.h"
#include "indicator.h"

static struct {
    uint32_t dec;          /* decryption attempts */
    bool decOk;
    uint64_t decSeq;
    uint32_t decLen;       /* protected length */
    uint32_t plainLen;     /* length of the content after unprotecting and removing padding */
    uint8_t hdrType, innerType;
    uint16_t hdrVer, hdrLen;
    bool delivered, queued, plainCb;
    uint32_t outLen;
    uint8_t alerts; ALERT_Description lastAlert;
    bool recvCcs;
    uint32_t addedEnd;
} G;
static uint64_t o_seq; static bool o_wrapped; static uint32_t o_empty;
static TLS_Ctx c_ctx;
static RecCtx c_rec;
static RecConnState c_cur;
static RecConnSuitInfo c_suite;
static RecBuf c_in;

static uint32_t cb_cipherLen(const TLS_Ctx *c, RecConnSuitInfo *s, uint32_t n, bool r) { (void)c; (void)s; (void)n; (void)r; return vp_range(0, 64); }
static int32_t cb_plainLen(TLS_Ctx *c, RecConnSuitInfo *s, uint32_t n, uint32_t *off, uint32_t *pl)
{ (void)c; (void)s; *off = 0; if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC; *pl = n; return HITLS_SUCCESS; }
static int32_t cb_decrypt(TLS_Ctx *c, RecConnState *state, const REC_TextInput *m, uint8_t *data, uint32_t *len)
{
    (void)c; (void)data; (void)state;
    G.dec++;
    G.decSeq = BSL_ByteToUint64(m->seq);
    G.decLen = m->textLen;
    G.hdrType = m->type; G.hdrVer = m->version;
    if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC;
    G.decOk = true;
    uint32_t n = vp_u32();
    VP_ASSUME(n <= *len);
    *len = n;
    G.plainLen = n;
    G.innerType = m->type;
    return HITLS_SUCCESS;
}
static int32_t cb_post(TLS_Ctx *c, RecConnSuitInfo *s, REC_TextInput *m, uint8_t *data, uint32_t *len)
{
    (void)c; (void)s; (void)data;
    if (vp_bool()) return HITLS_REC_BAD_RECORD_MAC;
    m->type = vp_u8();
    uint32_t n = vp_u32();
    VP_ASSUME(n <= *len);
    *len = n;
    G.plainLen = n;
    G.innerType = m->type;
    return HITLS_SUCCESS;
}
static const RecCryptoFunc c_funcs = { cb_cipherLen, cb_plainLen, cb_decrypt, cb_post, NULL, NULL };
const RecCryptoFunc *RecGetCryptoFuncs(const RecConnSuitInfo *s) { (void)s; return &c_funcs; }
int32_t Dtls13CryptSequenceNumber(TLS_Ctx *c, RecConnSuitInfo *s, const uint8_t *ct, uint32_t cl, uint8_t *seq, uint8_t sl)
{ (void)c; (void)s; (void)ct; (void)cl; (void)seq; (void)sl; return HITLS_REC_BAD_RECORD_MAC; }
bool BSL_UIO_GetUioChainTransportType(BSL_UIO *uio, const BSL_UIO_TransportType t) { (void)uio; return t == BSL_UIO_TCP; }
static uint32_t g_reads;
int32_t BSL_UIO_Read(BSL_UIO *uio, void *data, uint32_t len, uint32_t *readLen)
{
    (void)uio; (void)data;
    g_reads++;
    VP_ASSUME(g_reads <= 2);
    if (vp_bool()) return BSL_UIO_IO_EXCEPTION;
    uint32_t n = vp_u32();
    VP_ASSUME(n <= len);
    uint8_t b[6];
    VP_BYTES(b, 6); /* what arrives: only the first bytes can be part of a header */
    for (uint32_t i = 0; i < 6; i++) if (i < n) ((uint8_t *)data)[i] = b[i];
    *readLen = n;
    return BSL_SUCCESS;
}
bool RecBufListEmpty(RecBufList *l) { (void)l; return true; }
int32_t RecBufListAddBuffer(RecBufList *l, RecBuf *b) { (void)l; if (vp_bool()) return HITLS_MEMALLOC_FAIL; G.delivered = true; G.outLen = b->end; return HITLS_SUCCESS; }
int32_t RecBufListGetBuffer(RecBufList *l, uint8_t *b, uint32_t n, uint32_t *g, bool p) { (void)l; (void)b; (void)n; (void)p; *g = G.outLen; return HITLS_SUCCESS; }
void RecBufClean(RecBuf *buf) { buf->start = 0; buf->end = 0; }
int32_t RecBufResize(RecBuf *b, uint32_t n) { if (vp_bool()) return HITLS_MEMALLOC_FAIL; uint32_t l = b->end - b->start; uint8_t *p = malloc(n); VP_ASSUME(p != NULL); VP_ASSUME(l <= 5);
    for (uint32_t i = 0; i < 5; i++) if (i < l) p[i] = b->buf[b->start + i]; b->buf = p; b->end = l; b->start = 0; b->bufSize = n; return HITLS_SUCCESS; }
int32_t RecDerefBufList(TLS_Ctx *c) { (void)c; return HITLS_SUCCESS; }
int32_t RecIoBufInit(TLS_Ctx *c, RecCtx *r, bool rd) { (void)c; (void)r; (void)rd; return vp_bool() ? HITLS_SUCCESS : HITLS_MEMALLOC_FAIL; }
void RecTryFreeRecBuf(TLS_Ctx *c, bool o) { (void)c; (void)o; }
uint32_t RecGetInitBufferSize(const TLS_Ctx *c, bool r) { (void)c; (void)r; return 16384 + 2048 + 5; }
int32_t UnprocessedMsgListAppend(UnprocessedMsg *l, const RecHdr *h, const uint8_t *b) { (void)l; (void)h; (void)b; return HITLS_MEMALLOC_FAIL; }
UnprocessedMsg *UnprocessedMsgGet(UnprocessedMsg *l, uint16_t e, uint8_t t) { (void)l; (void)t; (void)e; return NULL; }
void UnprocessedMsgFree(UnprocessedMsg *m) { (void)m; }
int32_t REC_Dtls13AckListAppend(TLS_Ctx *c, const RecordNumber *n) { (void)c; (void)n; return HITLS_SUCCESS; }
void REC_Dtls13SetNeedSendRetransAck(TLS_Ctx *c) { (void)c; }
int32_t HITLS_KeyUpdate(HITLS_Ctx *c, uint32_t t) { (void)c; (void)t; return HITLS_SUCCESS; }
bool DTLS_CID_IsExpectedCid(const TLS_Ctx *c, const uint8_t *cid, uint8_t n) { (void)c; (void)cid; (void)n; return false; }
void INDICATOR_MessageIndicate(int32_t w, uint32_t v, int32_t t, const void *b, uint32_t n, HITLS_Ctx *c, void *a) { (void)w; (void)v; (void)t; (void)b; (void)n; (void)c; (void)a; }
static bool cb_isRecvCCS(const TLS_Ctx *c) { (void)c; return G.recvCcs; }
static int32_t cb_unexpected(HITLS_Ctx *c, uint32_t t, const uint8_t *d, uint32_t n, bool plain)
{ (void)c; (void)t; (void)d; if (plain) G.plainCb = true; else { G.delivered = true; G.outLen = n; } return vp_bool() ? HITLS_REC_NORMAL_RECV_UNEXPECT_MSG : HITLS_REC_ERR_RECV_UNEXPECTED_MSG; }
static void cb_alert(const TLS_Ctx *c, ALERT_Level l, ALERT_Description d) { (void)c; (void)l; G.alerts = 1; G.lastAlert = d; }
static void cb_clearAlert(TLS_Ctx *c, uint8_t t) { (void)c; (void)t; }

#ifndef INSZ
#define INSZ 40
#endif
static void setup(TLS_Ctx *ctx, uint16_t version)
{
    memset(&G, 0, sizeof(G));
    g_reads = 0;
    ctx->recCtx = &c_rec;
    ctx->recReadCb = NULL;
    ctx->isClient = vp_bool();
    ctx->negotiatedInfo.version = version;
    ctx->config.tlsConfig.originVersionMask = TLS_VERSION_MASK;
    ctx->config.tlsConfig.maxVersion = version;
    ctx->config.tlsConfig.emptyRecordsNum = vp_u32();
    ctx->config.tlsConfig.modeSupport = vp_u32();
    ctx->config.tlsConfig.readAhead = vp_u8() & 1;
    ctx->config.tlsConfig.recInbufferSize = 0;
    ctx->hsCtx = vp_bool() ? (HS_Ctx *)&c_in : NULL;
    ctx->peekFlag = vp_u8() & 1;
    ctx->negotiatedInfo.recordSizeLimit = vp_u16();
    ctx->negotiatedInfo.isCidNegotiated = false;
    ctx->method.isRecvCCS = cb_isRecvCCS;
    ctx->method.sendAlert = cb_alert;
    ctx->method.clearAlert = cb_clearAlert;
    ctx->method.unexpectedMsgProcessCb = cb_unexpected;
    G.recvCcs = vp_bool();
    c_rec.inBuf = &c_in;
    c_rec.readStates.currentState = &c_cur;
    c_rec.readStates.outdatedState = NULL;
    c_rec.readStates.pendingState = NULL;
    c_rec.emptyRecordCnt = vp_u32();
    VP_ASSUME(c_rec.emptyRecordCnt < 0x80000000u);
    VP_DRAW(c_cur.seq);
    c_cur.isWrapped = vp_bool();
    c_cur.epoch = 0;
    c_cur.suiteInfo = vp_bool() ? &c_suite : NULL;
    c_in.bufSize = INSZ;
    c_in.buf = malloc(INSZ);
    VP_ASSUME(c_in.buf != NULL);
    VP_BYTES(c_in.buf, INSZ);
    c_in.start = vp_u32();
    c_in.end = vp_u32();
    VP_ASSUME(c_in.start <= c_in.end && c_in.end <= INSZ);
    o_seq = c_cur.seq;
    o_wrapped = c_cur.isWrapped;
    o_empty = c_rec.emptyRecordCnt;
}
