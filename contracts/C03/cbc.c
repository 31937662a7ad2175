/* CBC record protection (RFC 5246 6.2.3.2, RFC 7366): what is accepted, what is authenticated, what is sent. */
/*@defaults
src: tls/record/src/rec_conn.c tls/alert/src/alert.c
object_bits: 10
unwind: 80
solver: minisat2
level: bounded
assume: the block cipher, hash and HMAC primitives are callee contracts: arbitrary outputs of the right length; records of the stated length
*/
#define VP_OWN_SAL_MEM
#define VP_OWN_CLEANSE
#include "vp.h"
#ifdef VP_CBMC
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#endif
#include "tls/record/src/rec_crypto_cbc.c"

#define MACLEN 20
#define IVL 16
#define TL (IVL + DL + (ETM ? MACLEN : 0))
static struct {
    uint32_t decs, encs, alerts, frees, rands, macs, pos, n2, encInLen, encOutLen, allocs, clears;
    bool args, randOk, encOk, hinitOk, initOk, finOk, decOk, inDone, allocOk, reinit;
    int32_t desc;
} G;
static TLS_Ctx c_ctx;
static RecCtx c_rec;
static RecConnState c_state;
static RecConnSuitInfo c_suite;
static REC_TextInput c_msg;
static uint8_t c_text[TL + 64], c_data[TL + 64], c_mac[64], c_ih[64], c_dec[DL + 1], c_in[TL + 64], c_out[TL + 64], c_pt[72], c_rnd[IVL];
static uint32_t g_len, g_i, g_n, g_clen;
static uint8_t c_d[3], c_hm;
static const uint8_t *g_macText;
static uint32_t g_macTextLen, g_macLen;
static bool g_padOk, g_preset;
static uint32_t g_at;
static uint8_t g_ivAt;
#define BLEN 64

static uint8_t be(uint64_t v, uint32_t n, uint32_t i) { return (uint8_t)(v >> (8 * (n - 1 - i))); }
static uint8_t hdrByte(uint32_t i, uint32_t len) { return i < 8 ? c_msg.seq[i] : i == 8 ? c_msg.type : i < 11 ? be(c_msg.version, 2, i - 9) : be(len, 2, i - 11); }
int32_t RecordSendAlertMsg(TLS_Ctx *ctx, ALERT_Level level, ALERT_Description d) { (void)ctx; (void)level; G.alerts++; G.desc = (int32_t)d; return HITLS_REC_BAD_RECORD_MAC; }
void BSL_SAL_CleanseData(void *p, uint32_t n) { (void)p; (void)n; }

/* HMAC: the transcript is header (13 bytes) and then exactly the text; the output is c_mac */
HITLS_HMAC_Ctx *SAL_CRYPT_HmacInit(HITLS_Lib_Ctx *l, const char *a, HITLS_HashAlgo h, const uint8_t *key, uint32_t len)
{
    (void)l; (void)a;
    if (h != HITLS_HASH_SHA1 || key != c_suite.macKey || len != MACLEN || G.reinit) G.args = false;
    G.pos = 0; G.inDone = true;
    return G.hinitOk ? (HITLS_HMAC_Ctx *)&c_hm : NULL;
}
int32_t SAL_CRYPT_HmacReInit(HITLS_HMAC_Ctx *c) { if (c != (HITLS_HMAC_Ctx *)&c_hm || !G.reinit) G.args = false; G.pos = 0; G.inDone = true; return G.hinitOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_HMAC; }
int32_t SAL_CRYPT_HmacUpdate(HITLS_HMAC_Ctx *c, const uint8_t *d, uint32_t n)
{
    if (c != (HITLS_HMAC_Ctx *)&c_hm || !G.inDone) G.args = false;
    if (G.pos < 13) {
        if (n > 13 - G.pos) { G.args = false; return HITLS_CRYPT_ERR_HMAC; }
        for (uint32_t i = 0; i < 13; i++) if (i < n && d[i] != hdrByte(G.pos + i, g_macTextLen)) G.args = false;
    } else if (d != g_macText + (G.pos - 13)) G.args = false;
    G.pos += n;
    return G.initOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_HMAC;
}
int32_t SAL_CRYPT_HmacFinal(HITLS_HMAC_Ctx *c, uint8_t *out, uint32_t *len)
{
    if (c != (HITLS_HMAC_Ctx *)&c_hm || !G.inDone || G.pos != 13 + g_macTextLen || *len < MACLEN) G.args = false;
    G.macs++;
    if (!G.finOk) return HITLS_CRYPT_ERR_HMAC;
    memcpy(out, c_mac, MACLEN); *len = g_macLen;
    return HITLS_SUCCESS;
}
int32_t SAL_CRYPT_Decrypt(HITLS_Lib_Ctx *l, const char *a, const HITLS_CipherParameters *p, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    (void)l; (void)a;
    G.decs++;
    if (p->ctx != &c_suite.ctx || p->key != c_suite.key || p->keyLen != c_suite.encKeyLen || p->algo != c_suite.cipherAlg || p->iv != c_text || p->ivLen != IVL ||
        in != c_text + IVL || inLen != DL || out != c_data || *outLen < DL) { G.args = false; return HITLS_CRYPT_ERR_DECRYPT; }
    if (!G.decOk) return HITLS_CRYPT_ERR_DECRYPT;
    memcpy(out, c_dec, DL); *outLen = DL;
    return HITLS_SUCCESS;
}
static uint32_t pad(void) { return c_dec[DL - 1]; }
static bool padOk(uint32_t extra)
{
    if (pad() + 1 + extra > DL) return false;
    for (uint32_t i = 0; i < DL; i++) if (i + 1 + pad() >= DL && c_dec[i] != pad()) return false;
    return true;
}

#ifdef DEC
static bool macAt(const uint8_t *p) { for (uint32_t i = 0; i < MACLEN; i++) if (p[i] != c_mac[i]) return false; return true; }
#if ETM
#define WANT (macAt(c_text + TL - MACLEN) && g_macLen == MACLEN && g_padOk)
#define OKS (G.hinitOk && G.initOk && G.finOk && G.decOk)
#define CONTENT (DL - 1 - pad())
#define MTE_ENS(ENS) \
    ENS("nothing is decrypted before the MAC of the received record verified", VP_IMP(G.decs > 0, G.macs == 1 && macAt(c_text + TL - MACLEN)))
#else
static bool macMatches(void) { uint32_t at = DL - MACLEN - 1 - pad(); for (uint32_t i = 0; i < MACLEN; i++) if (at + i < DL && c_dec[at + i] != c_mac[i]) return false; return true; }
#define WANT (g_padOk && macMatches())
#define OKS (G.decOk && G.initOk)
#define CONTENT (DL - MACLEN - 1 - pad())
#define MTE_ENS(ENS) \
    ENS("the MAC covers number, type, version, length and the content without the padding", VP_IMP(VP_RET == HITLS_SUCCESS, G.n2 == BLEN + 13 + CONTENT))
#endif
#define K_CbcDecrypt(REQ, ENS) \
    REQ("record", ctx == &c_ctx && state == &c_state && cryptMsg == &c_msg && data == c_data && dataLen == &g_len) \
    ENS("accepted only with a valid MAC and padding", VP_IMP(VP_RET == HITLS_SUCCESS, WANT && OKS)) \
    ENS("accepted if valid", VP_IMP(WANT && OKS, VP_RET == HITLS_SUCCESS)) \
    ENS("the content is the decrypted text without MAC and padding", VP_IMP(VP_RET == HITLS_SUCCESS, g_len == CONTENT && VP_IMP(g_i < DL, c_data[g_i] == c_dec[g_i]))) \
    ENS("every bad record looks the same", VP_IMP(VP_RET != HITLS_SUCCESS && OKS, G.alerts == 1 && G.desc == ALERT_BAD_RECORD_MAC)) \
    MTE_ENS(ENS) \
    ENS("own keys, text and contexts", G.args)
static int32_t CbcDecrypt(TLS_Ctx *ctx, RecConnState *state, const REC_TextInput *cryptMsg, uint8_t *data, uint32_t *dataLen)
    VP_CONTRACT(K_CbcDecrypt, G, c_data, g_len, c_suite);

#if !ETM
/* plain hash contexts: 0 the inner hash, 1 the outer, 2 the one that only burns time */
HITLS_HASH_Ctx *SAL_CRYPT_DigestInit(HITLS_Lib_Ctx *l, const char *a, HITLS_HashAlgo h) { (void)l; (void)a; if (h != HITLS_HASH_SHA1) G.args = false; return G.initOk ? (HITLS_HASH_Ctx *)&c_d[0] : NULL; }
HITLS_HASH_Ctx *SAL_CRYPT_DigestCopy(HITLS_HASH_Ctx *c) { if (c == NULL) return NULL; if (c != (HITLS_HASH_Ctx *)&c_d[0]) G.args = false; G.allocs++; return (HITLS_HASH_Ctx *)&c_d[G.allocs == 1 ? 1 : 2]; }
void SAL_CRYPT_DigestFree(HITLS_HASH_Ctx *c) { (void)c; G.frees++; }
int32_t SAL_CRYPT_DigestUpdate(HITLS_HASH_Ctx *c, const uint8_t *d, uint32_t n)
{
    if (n == 1) { /* the byte-wise part of the content */
        if (c == (HITLS_HASH_Ctx *)&c_d[0]) { if (G.pos < BLEN + 13 || d != c_data + (G.pos - BLEN - 13)) G.args = false; G.pos++; }
        else if (c != (HITLS_HASH_Ctx *)&c_d[2]) G.args = false;
        return HITLS_SUCCESS;
    }
    if (c == (HITLS_HASH_Ctx *)&c_d[0]) {
        if (G.pos < BLEN) {
            if (n != BLEN) G.args = false;
            for (uint32_t i = 0; i < BLEN; i++) if (d[i] != ((i < MACLEN ? c_suite.macKey[i] : 0) ^ 0x36)) G.args = false;
        } else if (G.pos < BLEN + 13) {
            if (n != 13) G.args = false;
            if (g_padOk) for (uint32_t i = 0; i < 13; i++) if (d[i] != hdrByte(i, CONTENT)) G.args = false;
        } else if (n > 0 && d != c_data + (G.pos - BLEN - 13)) G.args = false;
        G.pos += n;
    } else if (c == (HITLS_HASH_Ctx *)&c_d[1]) {
        if (n != BLEN + MACLEN) G.args = false;
        for (uint32_t i = 0; i < BLEN + MACLEN; i++) if (d[i] != (i < BLEN ? ((i < MACLEN ? c_suite.macKey[i] : 0) ^ 0x5c) : c_ih[i - BLEN])) G.args = false;
    }
    return HITLS_SUCCESS;
}
int32_t SAL_CRYPT_DigestFinal(HITLS_HASH_Ctx *c, uint8_t *out, uint32_t *len)
{
    if (c == (HITLS_HASH_Ctx *)&c_d[0]) { G.n2 = G.pos; memcpy(out, c_ih, MACLEN); }
    else if (c == (HITLS_HASH_Ctx *)&c_d[1]) memcpy(out, c_mac, MACLEN);
    else G.args = false;
    *len = MACLEN;
    return HITLS_SUCCESS;
}
#endif
#endif

static void setup(void)
{
    memset(&G, 0, sizeof(G));
    G.args = true;
    G.randOk = vp_bool(); G.encOk = vp_bool(); G.hinitOk = vp_bool(); G.initOk = vp_bool(); G.finOk = vp_bool(); G.decOk = vp_bool(); G.allocOk = vp_bool();
    VP_BYTES(c_mac, MACLEN); VP_BYTES(c_ih, MACLEN);
    c_ctx.recCtx = &c_rec; c_rec.readStates.currentState = &c_state; c_rec.writeStates.currentState = &c_state;
    c_state.suiteInfo = &c_suite; c_state.isEncryptThenMac = ETM;
    c_suite.macAlg = HITLS_MAC_1; c_suite.cipherAlg = HITLS_CIPHER_AES_128_CBC; c_suite.cipherType = HITLS_CBC_CIPHER;
    c_suite.ctx = NULL; G.reinit = vp_bool(); c_suite.macCtx = G.reinit ? (HITLS_HMAC_Ctx *)&c_hm : NULL;
    VP_BYTES(c_suite.macKey, MACLEN); VP_BYTES(c_suite.iv, IVL);
    c_suite.macKeyLen = MACLEN; c_suite.encKeyLen = 16; c_suite.fixedIvLength = IVL; c_suite.recordIvLength = IVL; c_suite.blockLength = 16; c_suite.macLen = MACLEN;
    c_suite.isExportIV = g_preset = vp_bool();
    g_at = vp_range(0, IVL - 1); g_ivAt = c_suite.iv[g_at];
    c_msg.type = vp_u8(); c_msg.version = vp_u16(); VP_BYTES(c_msg.seq, 8); c_msg.isEncryptThenMac = ETM; c_msg.negotiatedVersion = HITLS_VERSION_TLS12;
    g_i = vp_u32(); g_macLen = MACLEN;
}
#ifdef DEC
/*@unit
name: decrypt_mte
entry: h_dec
enforce: CbcDecrypt
def: DEC ETM=0 DL=32
unwind: 256
bound: records with 32 bytes of padded text
*/
/*@unit
name: decrypt_mte_255
entry: h_dec
enforce: CbcDecrypt
def: DEC ETM=0 DL=288 PAD=255
unwind: 310
weight: 5
bound: records with 288 bytes of text ending in the padding length 255
*/
/*@unit
name: decrypt_mte_64
entry: h_dec
enforce: CbcDecrypt
def: DEC ETM=0 DL=96 PAD=64
unwind: 256
bound: records with 96 bytes of text ending in the padding length 64
*/
/*@unit
name: decrypt_mte_long
entry: h_dec
enforce: CbcDecrypt
def: DEC ETM=0 DL=304
unwind: 310
tier: thorough
timeout: 850
bound: records with 304 bytes of padded text (every padding length)
*/
/*@unit
name: decrypt_etm
entry: h_dec
enforce: CbcDecrypt
def: DEC ETM=1 DL=48
unwind: 256
bound: records with 48 bytes of padded text
*/
/*@unit
name: decrypt_etm_255
entry: h_dec
enforce: CbcDecrypt
def: DEC ETM=1 DL=272 PAD=255
unwind: 310
bound: records with 272 bytes of text ending in the padding length 255
*/
void h_dec(void)
{
    setup();
    VP_BYTES(c_text, TL); VP_BYTES(c_dec, DL);
#ifdef PAD
    c_dec[DL - 1] = PAD;
#endif
    g_padOk = padOk(ETM ? 0 : MACLEN);
    c_msg.text = c_text; c_msg.textLen = TL;
    g_macText = c_text; g_macTextLen = TL - MACLEN;
    g_len = DL;
    if (ETM && vp_bool()) g_macLen = vp_range(0, 64);
    TLS_Ctx *ctx = &c_ctx; RecConnState *state = &c_state; const REC_TextInput *cryptMsg = &c_msg; uint8_t *data = c_data; uint32_t *dataLen = &g_len; int32_t r;
    VP_CALL(K_CbcDecrypt, r, CbcDecrypt(ctx, state, cryptMsg, data, dataLen));
    VP_REACH(r == HITLS_SUCCESS, "accepted");
#ifndef PAD
    VP_REACH(r == HITLS_SUCCESS && pad() == 0, "no padding"); VP_REACH(r == HITLS_SUCCESS && pad() == (ETM ? DL - 1 : DL - 1 - MACLEN), "all padding");
#endif
    VP_REACH(r != HITLS_SUCCESS && OKS, "refused");
}
#endif

#ifdef ENC
/* plaintext length of the record: g_n; padded text: content (|| MAC) || padding */
static uint32_t body(void) { return g_n + (ETM ? 0 : MACLEN); }
static uint32_t padLen(void) { return 15 - body() % 16; }
void *BSL_SAL_Calloc(uint32_t n, uint32_t s) { if (n * s > sizeof(c_pt) || n * s < g_clen - IVL) G.args = false; if (!G.allocOk) return NULL; G.allocs++; for (uint32_t i = 0; i < sizeof(c_pt); i++) c_pt[i] = 0; return c_pt; }
void BSL_SAL_Free(void *p) { if (p == c_pt) G.frees++; }
void BSL_SAL_ClearFree(void *p, uint32_t n) { (void)n; if (p == c_pt) { G.clears++; G.frees++; } }
int32_t SAL_CRYPT_Rand(HITLS_Lib_Ctx *l, uint8_t *b, uint32_t n)
{
    (void)l;
    if (b != c_suite.iv || n != IVL) G.args = false;
    G.rands++;
    for (uint32_t i = 0; i < IVL; i++) b[i] = c_rnd[i];
    return G.randOk ? HITLS_SUCCESS : HITLS_CRYPT_ERR_ENCRYPT;
}
int32_t SAL_CRYPT_Encrypt(HITLS_Lib_Ctx *l, const char *a, const HITLS_CipherParameters *p, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    (void)l; (void)a;
    G.encs++; G.encInLen = inLen; G.encOutLen = *outLen;
    if (p->ctx != &c_suite.ctx || p->key != c_suite.key || p->keyLen != c_suite.encKeyLen || p->iv != c_suite.iv || p->ivLen != IVL || out != c_out + IVL) G.args = false;
    if (inLen != body() + padLen() + 1) { G.args = false; return HITLS_CRYPT_ERR_ENCRYPT; }
    for (uint32_t i = 0; i < sizeof(c_pt); i++) if (i < inLen) {
        uint8_t w = i < g_n ? c_in[i] : i < body() ? c_mac[i - g_n] : (uint8_t)padLen();
        if (in[i] != w) G.args = false;
    }
    if (!G.encOk) return HITLS_CRYPT_ERR_ENCRYPT;
    out[0] = 0x5A;
    return HITLS_SUCCESS;
}
static bool macOut(void) { for (uint32_t i = 0; i < MACLEN; i++) if (c_out[g_clen - MACLEN + i] != c_mac[i]) return false; return true; }
#define OKE (G.allocOk && (g_preset || G.randOk) && G.encOk && G.hinitOk && G.initOk && G.finOk)
#define K_CbcEncrypt(REQ, ENS) \
    REQ("record", ctx == &c_ctx && state == &c_state && plainMsg == &c_msg && cipherText == c_out && cipherTextLen == g_clen) \
    ENS("sent only if every primitive succeeded, and then always", (VP_RET == HITLS_SUCCESS) == OKE) \
    ENS("content, MAC and padding are encrypted once", VP_IMP(VP_RET == HITLS_SUCCESS, G.encs == 1 && G.encInLen == body() + padLen() + 1 && G.encOutLen == G.encInLen)) \
    ENS("a fresh random initialisation vector starts the record, or one set in advance, used once", VP_IMP(VP_RET == HITLS_SUCCESS, G.rands == (g_preset ? 0 : 1) && !c_suite.isExportIV && c_out[g_at] == (g_preset ? g_ivAt : c_rnd[g_at]))) \
    ENS("encrypt-then-MAC: the MAC ends the record", VP_IMP(VP_RET == HITLS_SUCCESS && ETM, macOut())) \
    ENS("one MAC", VP_IMP(VP_RET == HITLS_SUCCESS, G.macs == 1)) \
    ENS("the plaintext copy is cleared and released", G.clears == G.allocs) \
    ENS("own keys and text", G.args)
static int32_t CbcEncrypt(TLS_Ctx *ctx, RecConnState *state, const REC_TextInput *plainMsg, uint8_t *cipherText, uint32_t cipherTextLen)
    VP_CONTRACT(K_CbcEncrypt, G, c_out, c_pt, c_suite);
/*@unit
name: encrypt_mte
entry: h_enc
enforce: CbcEncrypt
def: ENC ETM=0 DL=40 MAXN=17
unwind: 130
bound: at most 17 bytes of content
*/
/*@unit
name: encrypt_etm
entry: h_enc
enforce: CbcEncrypt
def: ENC ETM=1 DL=40 MAXN=17
unwind: 130
bound: at most 17 bytes of content
*/
void h_enc(void)
{
    setup();
    VP_BYTES(c_in, MAXN); VP_BYTES(c_rnd, IVL);
    g_n = vp_range(0, MAXN);
    c_msg.text = c_in; c_msg.textLen = g_n;
    g_clen = CbcCalCiphertextLen(&c_ctx, &c_suite, g_n, false);
    VP_ASSERT(g_clen == IVL + body() + padLen() + 1 + (ETM ? MACLEN : 0), "the record length counts IV, content, MAC and padding to whole blocks");
    if (ETM) { g_macText = c_out; g_macTextLen = g_clen - MACLEN; } else { g_macText = c_in; g_macTextLen = g_n; }
    TLS_Ctx *ctx = &c_ctx; RecConnState *state = &c_state; const REC_TextInput *plainMsg = &c_msg; uint8_t *cipherText = c_out; uint32_t cipherTextLen = g_clen; int32_t r;
    VP_CALL(K_CbcEncrypt, r, CbcEncrypt(ctx, state, plainMsg, cipherText, cipherTextLen));
    VP_REACH(r == HITLS_SUCCESS && padLen() == 0, "no padding bytes"); VP_REACH(r == HITLS_SUCCESS && padLen() == 15, "block of padding"); VP_REACH(r != HITLS_SUCCESS, "refused");
}
#endif

#ifdef MINLEN
static int32_t g_r;
static int32_t vp_dec(TLS_Ctx *ctx, RecConnState *state, const REC_TextInput *cryptMsg, uint8_t *data, uint32_t *dataLen)
{
    if (ctx != &c_ctx || state != &c_state || cryptMsg != &c_msg || data != c_data || dataLen != &g_len) G.args = false;
    G.decs++;
    return g_r;
}
static const RecCryptoFunc c_f = { .calCiphertextLen = CbcCalCiphertextLen, .decrypt = vp_dec };
static const RecCryptoFunc *vp_funcs(const RecConnSuitInfo *s) { if (s != &c_suite) G.args = false; return &c_f; }
const void *vp_keep(void) { return vp_funcs(NULL); }
/* the smallest record: IV, then MAC and one padding length byte, padded to whole blocks */
#define LEAST (ETM ? IVL + 16 + MACLEN : IVL + (MACLEN + 1 + 15) / 16 * 16)
#define K_RecConnDecrypt(REQ, ENS) \
    REQ("record", ctx == &c_ctx && state == &c_state && cryptMsg == &c_msg && data == c_data && dataLen == &g_len) \
    ENS("a record too short for IV, MAC and padding is refused unopened", VP_IMP(c_msg.textLen < LEAST, VP_RET != HITLS_SUCCESS && G.decs == 0 && G.alerts == 1 && G.desc == ALERT_BAD_RECORD_MAC)) \
    ENS("any other is opened", VP_IMP(c_msg.textLen >= LEAST, VP_RET == g_r && G.decs == 1)) \
    ENS("own arguments", G.args)
int32_t RecConnDecrypt(TLS_Ctx *ctx, RecConnState *state, const REC_TextInput *cryptMsg, uint8_t *data, uint32_t *dataLen)
    VP_CONTRACT(K_RecConnDecrypt, G, c_data, g_len, c_suite);
/*@unit
name: shortest_mte
entry: h_min
enforce: RecConnDecrypt
def: MINLEN ETM=0 DL=32
level: proof
restrict: RecConnDecrypt.function_pointer_call.1/CbcCalCiphertextLen
restrict: RecConnDecrypt.function_pointer_call.2/vp_dec
swap: RecGetCryptoFuncs:vp_funcs
*/
/*@unit
name: shortest_etm
entry: h_min
enforce: RecConnDecrypt
def: MINLEN ETM=1 DL=32
level: proof
restrict: RecConnDecrypt.function_pointer_call.1/CbcCalCiphertextLen
restrict: RecConnDecrypt.function_pointer_call.2/vp_dec
swap: RecGetCryptoFuncs:vp_funcs
*/
void h_min(void)
{
    setup();
    g_r = vp_i32();
    c_msg.text = c_text; c_msg.textLen = vp_u32(); g_len = vp_u32();
    TLS_Ctx *ctx = &c_ctx; RecConnState *state = &c_state; const REC_TextInput *cryptMsg = &c_msg; uint8_t *data = c_data; uint32_t *dataLen = &g_len; int32_t r;
    VP_CALL(K_RecConnDecrypt, r, RecConnDecrypt(ctx, state, cryptMsg, data, dataLen));
    VP_REACH(r == HITLS_SUCCESS, "opened"); VP_REACH(c_msg.textLen == 0, "empty");
}
#endif
