/* Handshake message order and framing: which message type is accepted in which state (CheckHsMsgType, the only gate of
 * both the stream and the datagram read path) and which lengths a handshake header may announce (HS_ParseMsgHeader). */
/*@defaults
src: tls/handshake/parse/src/parse.c tls/handshake/common/src/hs_common.c tls/handshake/parse/src/parse_common.c
unwind: 18
level: proof
def: VP_OWN_SAL_MEM
assume: record-layer services called on a state change (ACK list, buffer release) have no effect on the handshake state
*/
#include "vp.h"
#include "hitls_build.h"
#include "tls.h"
#include "hs.h"
#include "hs_ctx.h"
#include "hs_msg.h"
#include "hs_common.h"
#include "parse.h"
#include "rec.h"
#include "record.h"
#include "hitls_error.h"
#include "alert.h"

static struct { uint32_t alerts; uint8_t level; uint32_t alert; bool ccs; uint32_t old; uint32_t oldState; uint32_t oldLen; uint8_t *oldBuf; uint8_t k; } G;
static TLS_Ctx c_ctx;
static HS_Ctx c_hs;
static KeyExchCtx c_kx;
static HS_MsgInfo c_info;
static uint8_t c_buf[32];
static uint8_t c_grown[40960];

static void cb_alert(const TLS_Ctx *c, ALERT_Level l, ALERT_Description d) { (void)c; G.alerts++; G.level = l; G.alert = d; }
static bool cb_ccs(const TLS_Ctx *c) { (void)c; return G.ccs; }
void REC_Dtls13AckListClear(TLS_Ctx *c, REC_Dtls13AckListType t) { (void)c; (void)t; }
void RecTryFreeRecBuf(TLS_Ctx *c, bool o) { (void)c; (void)o; }
bool REC_HasBufferedHsData(const TLS_Ctx *c) { (void)c; return vp_bool(); }
bool REC_RetransmitIsEmpty(const REC_Ctx *c) { (void)c; return vp_bool(); }

void *BSL_SAL_Calloc(uint32_t num, uint32_t size)
{
    if (vp_bool()) return NULL;
    VP_ASSERT((uint64_t)num * size <= sizeof(c_grown), "the message buffer is bounded");
    return c_grown;
}
void BSL_SAL_Free(void *p) { (void)p; }

/* ---- specification: expected message per receiving state, and the listed exceptions ---- */
static uint32_t expected(uint32_t s)
{
    switch (s) {
        case TRY_RECV_CLIENT_HELLO: return CLIENT_HELLO;
        case TRY_RECV_HELLO_VERIFY_REQUEST: return HELLO_VERIFY_REQUEST;
        case TRY_RECV_SERVER_HELLO: return SERVER_HELLO;
        case TRY_RECV_ENCRYPTED_EXTENSIONS: return ENCRYPTED_EXTENSIONS;
        case TRY_RECV_CERTIFICATE: return CERTIFICATE;
        case TRY_RECV_SERVER_KEY_EXCHANGE: return SERVER_KEY_EXCHANGE;
        case TRY_RECV_CERTIFICATE_REQUEST: return CERTIFICATE_REQUEST;
        case TRY_RECV_SERVER_HELLO_DONE: return SERVER_HELLO_DONE;
        case TRY_RECV_CLIENT_KEY_EXCHANGE: return CLIENT_KEY_EXCHANGE;
        case TRY_RECV_CERTIFICATE_VERIFY: return CERTIFICATE_VERIFY;
        case TRY_RECV_NEW_SESSION_TICKET: return NEW_SESSION_TICKET;
        case TRY_RECV_FINISH: return FINISHED;
        case TRY_RECV_KEY_UPDATE: return KEY_UPDATE;
        case TRY_RECV_HELLO_REQUEST: return HELLO_REQUEST;
        case TRY_RECV_NEW_CONNECTION_ID: return NEW_CONNECTION_ID;
        case TRY_RECV_REQUEST_CONNECTION_ID: return REQUEST_CONNECTION_ID;
        default: return 1000;
    }
}
static bool recvState(uint32_t s) { return expected(s) != 1000 || s == TRY_RECV_MSG; }
#define VER (c_ctx.negotiatedInfo.version > 0 ? c_ctx.negotiatedInfo.version : c_ctx.config.tlsConfig.maxVersion)
#define IS13V (VER == HITLS_VERSION_TLS13 || VER == HITLS_VERSION_DTLS13)
#define DGRAM ((c_ctx.config.tlsConfig.originVersionMask & DATAGRAM_VERSION_BITS) != 0)
#define POSTHS (c_ctx.state == CM_STATE_HANDSHAKING && c_ctx.preState == CM_STATE_TRANSPORTING)
#define KXOPT (c_kx.keyExchAlgo == HITLS_KEY_EXCH_PSK || c_kx.keyExchAlgo == HITLS_KEY_EXCH_RSA_PSK)
#define REFUSE 1001u
/* the state in which message m is then processed; REFUSE if it must be refused */
static uint32_t next(uint32_t s, uint32_t m)
{
    if (m == FINISHED && !IS13V && !POSTHS && !G.ccs) return REFUSE;
    if (m == expected(s)) return s;
    switch (s) {
        case TRY_RECV_HELLO_VERIFY_REQUEST: return DGRAM && m == SERVER_HELLO ? TRY_RECV_SERVER_HELLO : REFUSE;
        case TRY_RECV_SERVER_HELLO:
            return DGRAM && m == HELLO_VERIFY_REQUEST && !c_hs.haveHrr &&
                !(VER == HITLS_VERSION_DTLS13 && (c_ctx.config.tlsConfig.version & DTLS12_VERSION_BIT) == 0) ?
                TRY_RECV_HELLO_VERIFY_REQUEST : REFUSE;
        case TRY_RECV_SERVER_KEY_EXCHANGE:
            if (!KXOPT) return REFUSE;
            return m == CERTIFICATE_REQUEST ? TRY_RECV_CERTIFICATE_REQUEST : m == SERVER_HELLO_DONE ? TRY_RECV_SERVER_HELLO_DONE : REFUSE;
        case TRY_RECV_CERTIFICATE_REQUEST:
            if (IS13V) return m == CERTIFICATE ? TRY_RECV_CERTIFICATE : REFUSE;
            return m == SERVER_HELLO_DONE ? TRY_RECV_SERVER_HELLO_DONE : REFUSE;
        case TRY_RECV_MSG:
            if (c_ctx.negotiatedInfo.version != HITLS_VERSION_DTLS13 || !POSTHS) return REFUSE;
            switch (m) {
                case KEY_UPDATE: return TRY_RECV_KEY_UPDATE;
                case NEW_SESSION_TICKET: return c_ctx.isClient ? TRY_RECV_NEW_SESSION_TICKET : REFUSE;
                case CERTIFICATE_REQUEST: return c_ctx.isClient && c_ctx.phaState == PHA_EXTENSION ? TRY_RECV_CERTIFICATE_REQUEST : REFUSE;
                case CERTIFICATE: return !c_ctx.isClient && c_ctx.phaState == PHA_REQUESTED ? TRY_RECV_CERTIFICATE : REFUSE;
                case NEW_CONNECTION_ID: return c_ctx.negotiatedInfo.isCidNegotiated ? TRY_RECV_NEW_CONNECTION_ID : REFUSE;
                case REQUEST_CONNECTION_ID: return c_ctx.negotiatedInfo.isCidNegotiated ? TRY_RECV_REQUEST_CONNECTION_ID : REFUSE;
                default: return REFUSE;
            }
        default: return REFUSE;
    }
}
#define INHS (c_ctx.state == CM_STATE_HANDSHAKING || c_ctx.state == CM_STATE_RENEGOTIATION)
#define IGNORED(m) ((m) == HELLO_REQUEST && c_ctx.isClient && G.oldState != TRY_RECV_MSG)

#define K_CheckHsMsgType(REQ, ENS) \
    REQ("type 255 is refused before (contract of HS_ParseMsgHeader)", msgType < 255) \
    ENS("outside a handshake nothing is decided here", VP_IMP(!INHS, VP_RET == HITLS_SUCCESS && c_hs.state == G.oldState && G.alerts == 0)) \
    ENS("a client ignores HelloRequest", VP_IMP(INHS && IGNORED(msgType), VP_RET == HITLS_SUCCESS && c_hs.state == G.oldState)) \
    ENS("a message is accepted exactly when the state allows its type", VP_IMP(INHS && !IGNORED(msgType), \
        (VP_RET == HITLS_SUCCESS) == (next(G.oldState, msgType) != REFUSE))) \
    ENS("an accepted message is processed in the state for its type", VP_IMP(INHS && !IGNORED(msgType) && VP_RET == HITLS_SUCCESS, \
        c_hs.state == next(G.oldState, msgType) && G.alerts == 0)) \
    ENS("an unexpected message is answered with a fatal alert", VP_IMP(VP_RET != HITLS_SUCCESS, \
        VP_RET == HITLS_MSG_HANDLE_UNEXPECTED_MESSAGE && G.alerts == 1 && G.level == ALERT_LEVEL_FATAL && G.alert == ALERT_UNEXPECTED_MESSAGE && c_hs.state == G.oldState))
int32_t CheckHsMsgType(TLS_Ctx *ctx, HS_MsgType msgType) VP_CONTRACT(K_CheckHsMsgType, G, c_hs.state);

#define HDR (DGRAM ? 12u : 4u)
static uint32_t be3(const uint8_t *p) { return ((uint32_t)p[0] << 16) | ((uint32_t)p[1] << 8) | p[2]; }
static uint32_t maxLen(uint32_t t)
{
    switch (t) {
        case HELLO_REQUEST: case SERVER_HELLO_DONE: case END_OF_EARLY_DATA: return 0;
        case CLIENT_HELLO: return 131396;
        case SERVER_HELLO: return 65607;
        case HELLO_VERIFY_REQUEST: return 258;
        case SERVER_KEY_EXCHANGE: return 102400;
        case CLIENT_KEY_EXCHANGE: return 2048;
        case CERTIFICATE_VERIFY: return MAX_CERT_VERIFY_SIZE;
        case FINISHED: return 64;
        case ENCRYPTED_EXTENSIONS: return 20000;
        case KEY_UPDATE: case REQUEST_CONNECTION_ID: return 1;
        case NEW_CONNECTION_ID: return HITLS_NEW_CONNECTION_ID_MAX_SIZE;
        case CERTIFICATE: case CERTIFICATE_REQUEST: return c_ctx.config.tlsConfig.maxCertList == 0 ? HITLS_MAX_CERT_LIST_DEFAULT : c_ctx.config.tlsConfig.maxCertList;
        case NEW_SESSION_TICKET: return IS13V ? HITLS_SESSION_TICKET_MAX_SIZE_TLS13 : HITLS_SESSION_TICKET_MAX_SIZE_TLS12;
        default: return 0;
    }
}
#define DLEN be3(data + 1)
#define K_HS_ParseMsgHeader(REQ, ENS) \
    ENS("a short header is refused", VP_IMP(len < HDR, VP_RET != HITLS_SUCCESS)) \
    ENS("an unknown message type is refused", VP_IMP(len >= 1 && data[0] == 255, VP_RET != HITLS_SUCCESS)) \
    ENS("type and length are the ones on the wire", VP_IMP(VP_RET == HITLS_SUCCESS, hsMsgInfo->type == data[0] && hsMsgInfo->length == DLEN)) \
    ENS("the length limit of the message type is enforced", VP_IMP(VP_RET == HITLS_SUCCESS, DLEN <= maxLen(data[0]) && DLEN + HDR <= HITLS_HS_BUFFER_SIZE_LIMIT)) \
    ENS("the message buffer holds header and body", VP_IMP(VP_RET == HITLS_SUCCESS, hsMsgInfo->headerAndBodyLen == DLEN + HDR && \
        hsMsgInfo->rawMsg == c_hs.msgBuf && c_hs.bufferLen >= DLEN + HDR && c_hs.msgBuf[G.k] == data[G.k])) \
    ENS("stream: the type is checked against the state", VP_IMP(VP_RET == HITLS_SUCCESS && !DGRAM && INHS && !IGNORED(data[0]), next(G.oldState, data[0]) != REFUSE)) \
    ENS("stream: no fragments", VP_IMP(VP_RET == HITLS_SUCCESS && !DGRAM, hsMsgInfo->fragmentOffset == 0 && hsMsgInfo->sequence == 0)) \
    ENS("datagram: sequence number and fragment as on the wire", VP_IMP(VP_RET == HITLS_SUCCESS && DGRAM, hsMsgInfo->sequence == (((uint32_t)data[4] << 8) | data[5]) && \
        hsMsgInfo->fragmentOffset == be3(data + 6) && hsMsgInfo->fragmentLength == be3(data + 9))) \
    ENS("datagram: a fragment lies inside the message and is not empty", VP_IMP(VP_RET == HITLS_SUCCESS && DGRAM, \
        be3(data + 6) <= DLEN && be3(data + 9) <= DLEN - be3(data + 6) && (DLEN == 0 || be3(data + 9) > 0))) \
    ENS("a legal header is accepted", VP_IMP(len >= HDR && data[0] != 255 && DLEN <= maxLen(data[0]) && DLEN + HDR <= HITLS_HS_BUFFER_SIZE_LIMIT && \
        (DGRAM || !INHS || IGNORED(data[0]) || next(G.oldState, data[0]) != REFUSE) && \
        (!DGRAM || (be3(data + 6) <= DLEN && be3(data + 9) <= DLEN - be3(data + 6) && (DLEN == 0 || be3(data + 9) > 0))), \
        VP_RET == HITLS_SUCCESS || (VP_RET == HITLS_MEMALLOC_FAIL && c_hs.bufferLen == G.oldLen && c_hs.msgBuf == G.oldBuf)))
int32_t HS_ParseMsgHeader(TLS_Ctx *ctx, const uint8_t *data, uint32_t len, HS_MsgInfo *hsMsgInfo)
    VP_CONTRACT(K_HS_ParseMsgHeader, G, c_hs.state, c_hs.bufferLen, c_hs.msgBuf, c_info, __CPROVER_object_upto(c_grown, 32));

static void setup(void)
{
    memset(&G, 0, sizeof(G));


    memset(&c_info, 0, sizeof(c_info));
    c_ctx.hsCtx = &c_hs;
    c_hs.kxCtx = &c_kx;
    c_ctx.method.sendAlert = cb_alert;
    c_ctx.method.isRecvCCS = cb_ccs;
    G.ccs = vp_bool();
    c_ctx.isClient = vp_bool();
    c_hs.haveHrr = vp_bool();
    c_ctx.negotiatedInfo.isCidNegotiated = vp_bool();
    c_ctx.state = vp_range(0, CM_STATE_END - 1);
    c_ctx.preState = vp_range(0, CM_STATE_END - 1);
    c_ctx.phaState = vp_range(0, 4);
    c_ctx.config.tlsConfig.originVersionMask = vp_u32();
    c_ctx.config.tlsConfig.version = vp_u32();
    c_ctx.config.tlsConfig.maxVersion = vp_u16();
    c_ctx.config.tlsConfig.maxCertList = vp_u32();
    c_ctx.config.tlsConfig.modeSupport = vp_u32();
    c_ctx.negotiatedInfo.version = vp_u16();
    c_kx.keyExchAlgo = vp_range(0, 20);
    c_hs.state = vp_u32();
    VP_ASSUME(recvState(c_hs.state));
    G.oldState = c_hs.state;
    c_hs.bufferLen = sizeof(c_buf);
    c_hs.msgBuf = c_buf;
    G.oldLen = c_hs.bufferLen; G.oldBuf = c_hs.msgBuf;
}
/*@unit
name: order_type
entry: h_type
enforce: CheckHsMsgType
*/
void h_type(void)
{
    setup();
    TLS_Ctx *ctx = &c_ctx;
    HS_MsgType msgType = vp_range(0, 254);
    int32_t r;
    VP_CALL(K_CheckHsMsgType, r, CheckHsMsgType(ctx, msgType));
    VP_REACH(r == HITLS_SUCCESS && INHS && c_hs.state != G.oldState, "alternative message accepted");
    VP_REACH(r == HITLS_SUCCESS && INHS && msgType == FINISHED, "finished accepted");
    VP_REACH(r != HITLS_SUCCESS, "refused");
}
/*@unit
name: order_header_stream
entry: h_hdr
enforce: HS_ParseMsgHeader
solver: minisat2
def: STREAM VP_OWN_SAL_MEM
*/
/*@unit
name: order_header_datagram
entry: h_hdr
enforce: HS_ParseMsgHeader
solver: minisat2
*/
void h_hdr(void)
{
    setup();
    TLS_Ctx *ctx = &c_ctx;
    HS_MsgInfo *hsMsgInfo = &c_info;
#ifdef STREAM
    VP_ASSUME(!DGRAM && (VER == HITLS_VERSION_TLS12 || VER == HITLS_VERSION_TLS13 || VER == HITLS_VERSION_TLCP_DTLCP11));
#else
    VP_ASSUME(DGRAM && (VER == HITLS_VERSION_DTLS12 || VER == HITLS_VERSION_DTLS13 || VER == HITLS_VERSION_TLCP_DTLCP11));
#endif
    uint32_t len = vp_range(0, 12);
    uint8_t *data;
    VP_BYTES(c_buf, 12);
    G.k = vp_range(0, 11);
    data = c_buf;
    int32_t r;
    VP_CALL(K_HS_ParseMsgHeader, r, HS_ParseMsgHeader(ctx, data, len, hsMsgInfo));
    VP_REACH(r == HITLS_SUCCESS && c_info.length > 4096, "long message accepted");
    VP_REACH(r != HITLS_SUCCESS && len >= HDR, "refused");
}
