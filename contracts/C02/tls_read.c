/* Record numbers on the receiving side of a stream connection. */
/*@defaults
src: tls/record/src/rec_read.c tls/record/src/rec_anti_replay.c tls/record/src/rec_conn.c tls/record/src/rec_alert.c
unwind: 7
unwindset: StreamRead.0:13
level: bounded
bound: receive buffer of 12 bytes before growth, at most 2 transport reads per call; record numbers and all other state unbounded
def: INSZ=12
weight: 5
assume: packet decryption (RecCryptoFunc) is arbitrary
assume: buffer growth (RecBufResize) keeps the unread bytes
*/
#include "../common/tls_read.h"

#define K_TlsRecordRead(REQ, ENS) \
    ENS("a record is unprotected under the next expected number", VP_IMP(G.dec > 0, G.decSeq == o_seq && G.dec == 1)) \
    ENS("nothing is delivered from a record that did not authenticate", VP_IMP(VP_RET == HITLS_SUCCESS || G.delivered, G.decOk)) \
    ENS("a delivered record consumes exactly one number", VP_IMP(VP_RET == HITLS_SUCCESS || G.delivered, c_cur.seq == o_seq + 1)) \
    ENS("a record that does not authenticate consumes no number", VP_IMP(!G.decOk, c_cur.seq == o_seq)) \
    ENS("after the last number nothing is read", VP_IMP(o_wrapped, VP_RET != HITLS_SUCCESS && G.dec == 0 && !G.delivered)) \
    ENS("using the last number closes the receiving side", VP_IMP(G.dec > 0 && o_seq == UINT64_MAX, c_cur.isWrapped)) \
    ENS("a failed unprotection is an error", VP_IMP(G.dec > 0 && !G.decOk, VP_RET != HITLS_SUCCESS))
int32_t TlsRecordRead(TLS_Ctx *ctx, REC_Type recordType, uint8_t *data, uint32_t *readLen, uint32_t num)
    VP_CONTRACT(K_TlsRecordRead, *readLen, __CPROVER_object_whole(data), __CPROVER_object_whole(c_in.buf), G, g_reads, c_ctx, c_rec, c_cur, c_in, c_suite);

static void h_read(uint16_t version)
{
    TLS_Ctx *ctx = &c_ctx;
    setup(ctx, version);
    uint8_t *data = malloc(32);
    VP_ASSUME(data != NULL);
    uint32_t l = 0, *readLen = &l, num = vp_range(0, 32);
    REC_Type recordType = vp_u8();
    int32_t r;
    VP_CALL(K_TlsRecordRead, r, TlsRecordRead(ctx, recordType, data, readLen, num));
    VP_REACH(r == HITLS_SUCCESS && G.decOk && o_seq == 77, "delivered");
    VP_REACH(G.delivered && r != HITLS_SUCCESS, "queued or handed to a handler");
    VP_REACH(G.dec == 1 && !G.decOk, "authentication failed");
}
/*@unit
name: TlsRecordRead_tls12
entry: h_read12
enforce: TlsRecordRead
*/
void h_read12(void) { h_read(HITLS_VERSION_TLS12); }
/*@unit
name: TlsRecordRead_tls13
entry: h_read13
enforce: TlsRecordRead
*/
void h_read13(void) { h_read(HITLS_VERSION_TLS13); }
