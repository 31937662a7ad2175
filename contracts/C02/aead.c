/* AEAD record protection: which nonce, additional data, key and text reach the cipher (RFC 5288, 7905, 8446 5.3, 9147 4). */
/*@defaults
unwind: 20
level: proof
assume: SAL_CRYPT_Encrypt / SAL_CRYPT_Decrypt are arbitrary: they may fail, and on success report any output length
assume: cipher suites have 12-byte nonces (4+8 explicit or 12+0), 16- or 8-byte tags, as every AEAD suite in the suite table has
*/
#include "vp.h"
#include "tls/record/src/rec_crypto_aead.c"

static struct {
    uint32_t calls, inLen, outLen;
    uint8_t iv[12], aad[13], aad_i;
    uint32_t ivLen, aadLen, keyLen;
    const uint8_t *key, *in;
    uint8_t *out;
    bool ok, alerted;
} G;
static uint32_t g_i; /* an arbitrary byte position of the additional data */
static TLS_Ctx c_ctx;
static RecConnState c_state;
static RecConnSuitInfo c_suite;
static REC_TextInput c_msg;

static int32_t record_call(const HITLS_CipherParameters *p, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    G.calls++;
    G.ivLen = p->ivLen;
    G.aadLen = p->aadLen;
    G.key = p->key; G.keyLen = p->keyLen;
    G.in = in; G.inLen = inLen;
    G.out = out; G.outLen = *outLen;
    if (p->ivLen == 12) memcpy(G.iv, p->iv, 12);
    memcpy(G.aad, p->aad, 13);
    G.aad_i = p->aad[g_i];
    if (vp_bool()) return HITLS_CRYPT_ERR_ENCRYPT;
    *outLen = vp_u32();
    G.ok = true;
    return HITLS_SUCCESS;
}
int32_t SAL_CRYPT_Encrypt(HITLS_Lib_Ctx *l, const char *a, const HITLS_CipherParameters *p, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{ (void)l; (void)a; return record_call(p, in, inLen, out, outLen); }
int32_t SAL_CRYPT_Decrypt(HITLS_Lib_Ctx *l, const char *a, const HITLS_CipherParameters *p, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{ (void)l; (void)a; return record_call(p, in, inLen, out, outLen); }
bool BSL_UIO_GetUioChainTransportType(BSL_UIO *uio, const BSL_UIO_TransportType t) { (void)uio; (void)t; return vp_bool(); }
int32_t RecordSendAlertMsg(TLS_Ctx *ctx, ALERT_Level level, ALERT_Description d) { (void)ctx; (void)level; (void)d; G.alerted = true; return HITLS_REC_BAD_RECORD_MAC; }
static void cb_alert(const TLS_Ctx *c, ALERT_Level l, ALERT_Description d) { (void)c; (void)l; (void)d; G.alerted = true; }

static uint8_t be(uint64_t v, uint32_t n, uint32_t i) { return (uint8_t)(v >> (8 * (n - 1 - i))); }

/* nonce: implicit part || explicit record number, or iv XOR padded record number; num[8] is the record number used */
static bool nonce_is(const RecConnSuitInfo *s, const uint8_t *num)
{
    for (uint32_t i = 0; i < 12; i++) {
        uint8_t want;
        if (s->recordIvLength != 0) {
            want = i < 4 ? s->iv[i] : num[i - 4];
        } else {
            want = s->iv[i] ^ (i < 4 ? 0 : num[i - 4]);
        }
        if (G.iv[i] != want) return false;
    }
    return G.ivLen == 12;
}
static bool aad_is_12(const REC_TextInput *m, uint32_t contentLen)
{
    if (G.aadLen != 13) return false;
    for (uint32_t i = 0; i < 8; i++) if (G.aad[i] != m->seq[i]) return false;
    return G.aad[8] == m->type && G.aad[9] == be(m->version, 2, 0) && G.aad[10] == be(m->version, 2, 1) &&
        G.aad[11] == be(contentLen, 2, 0) && G.aad[12] == be(contentLen, 2, 1);
}
static bool aad_is_13(const REC_TextInput *m, uint32_t cipherLen)
{
    return G.aadLen == 5 && G.aad[0] == m->type && G.aad[1] == be(m->version, 2, 0) && G.aad[2] == be(m->version, 2, 1) &&
        G.aad[3] == be(cipherLen, 2, 0) && G.aad[4] == be(cipherLen, 2, 1);
}
static bool aad_is_dtls13(const REC_TextInput *m)
{
    if (m->dtls13AadLen == 0 || m->dtls13AadLen > AEAD_AAD_MAX_SIZE) return true; /* not a header the writer or reader builds */
    if (G.aadLen != m->dtls13AadLen) return false;
    return g_i >= m->dtls13AadLen || G.aad_i == m->dtls13Aad[g_i];
}
static bool explicit_written(const uint8_t *out, const RecConnSuitInfo *s, const REC_TextInput *m)
{
    if (s->recordIvLength == 0) return true;
    for (uint32_t i = 0; i < 8; i++) if (out[i] != m->seq[i]) return false;
    return true;
}

#define K_AeadEncrypt(REQ, ENS) \
    ENS("at most one encryption per record", G.calls <= 1) \
    ENS("success only when the cipher succeeded with the whole record length", VP_IMP(VP_RET == HITLS_SUCCESS, G.ok && G.calls == 1)) \
    ENS("nonce is derived from the write IV and this record's number", VP_IMP(G.calls > 0, \
        nonce_is(state->suiteInfo, plainMsg->negotiatedVersion == HITLS_VERSION_DTLS13 ? plainMsg->dtls13Seq : plainMsg->seq))) \
    ENS("explicit nonce on the wire is the record number", VP_IMP(G.calls > 0, explicit_written(cipherText, state->suiteInfo, plainMsg))) \
    ENS("TLS 1.2: additional data binds number, type, version and content length", VP_IMP(G.calls > 0 && \
        plainMsg->negotiatedVersion != HITLS_VERSION_TLS13 && plainMsg->negotiatedVersion != HITLS_VERSION_DTLS13, aad_is_12(plainMsg, plainMsg->textLen))) \
    ENS("TLS 1.3: additional data is the record header", VP_IMP(G.calls > 0 && plainMsg->negotiatedVersion == HITLS_VERSION_TLS13, \
        aad_is_13(plainMsg, cipherTextLen))) \
    ENS("DTLS 1.3: additional data is the unified header", VP_IMP(G.calls > 0 && plainMsg->negotiatedVersion == HITLS_VERSION_DTLS13, aad_is_dtls13(plainMsg))) \
    ENS("key, text and destination are those of this record", VP_IMP(G.calls > 0, G.key == state->suiteInfo->key && \
        G.keyLen == state->suiteInfo->encKeyLen && G.in == plainMsg->text && G.inLen == plainMsg->textLen && \
        G.out == cipherText + state->suiteInfo->recordIvLength && G.outLen == cipherTextLen - state->suiteInfo->recordIvLength))
static int32_t AeadEncrypt(TLS_Ctx *ctx, RecConnState *state, const REC_TextInput *plainMsg, uint8_t *cipherText, uint32_t cipherTextLen)
    VP_CONTRACT(K_AeadEncrypt, __CPROVER_object_whole(cipherText), G, c_ctx, c_suite);

#define K_AeadDecrypt(REQ, ENS) \
    ENS("exactly one decryption attempt on success", VP_IMP(VP_RET == HITLS_SUCCESS, G.ok && G.calls == 1)) \
    ENS("a failed authentication is reported", VP_IMP(!G.ok, VP_RET != HITLS_SUCCESS)) \
    ENS("nonce is derived from the read IV and the record's number", VP_IMP(G.calls > 0, nonce_is(state->suiteInfo, \
        cryptMsg->negotiatedVersion == HITLS_VERSION_DTLS13 ? cryptMsg->dtls13Seq : state->suiteInfo->recordIvLength != 0 ? cryptMsg->text : cryptMsg->seq))) \
    ENS("TLS 1.2: additional data binds expected number, type, version and content length", VP_IMP(G.calls > 0 && \
        cryptMsg->negotiatedVersion != HITLS_VERSION_TLS13 && cryptMsg->negotiatedVersion != HITLS_VERSION_DTLS13, \
        aad_is_12(cryptMsg, cryptMsg->textLen - state->suiteInfo->recordIvLength - state->suiteInfo->macLen))) \
    ENS("TLS 1.3: additional data is the record header", VP_IMP(G.calls > 0 && cryptMsg->negotiatedVersion == HITLS_VERSION_TLS13, \
        aad_is_13(cryptMsg, cryptMsg->textLen))) \
    ENS("DTLS 1.3: additional data is the unified header", VP_IMP(G.calls > 0 && cryptMsg->negotiatedVersion == HITLS_VERSION_DTLS13, aad_is_dtls13(cryptMsg))) \
    ENS("key and text are those of this record", VP_IMP(G.calls > 0, G.key == state->suiteInfo->key && \
        G.keyLen == state->suiteInfo->encKeyLen && G.in == cryptMsg->text + state->suiteInfo->recordIvLength && \
        G.inLen == cryptMsg->textLen - state->suiteInfo->recordIvLength && G.out == data))
static int32_t AeadDecrypt(TLS_Ctx *ctx, RecConnState *state, const REC_TextInput *cryptMsg, uint8_t *data, uint32_t *dataLen)
    VP_CONTRACT(K_AeadDecrypt, *dataLen, __CPROVER_object_whole(data), G, c_ctx, c_suite);

#define TEXTMAX 18432 /* largest record body of any version */
static uint8_t *text_of(uint32_t n)
{
    uint8_t *t = malloc(n), h[16];
    VP_ASSUME(t != NULL);
    VP_BYTES(h, 16); /* the only part of the text anything but the cipher may look at */
    if (n >= 16) memcpy(t, h, 16);
    return t;
}
static void setup(uint32_t ver)
{
    memset(&G, 0, sizeof(G));
    memset(&c_msg, 0, sizeof(c_msg));
    c_ctx.method.sendAlert = cb_alert;
    c_state.suiteInfo = &c_suite;
    bool ex = vp_bool() && ver != HITLS_VERSION_TLS13 && ver != HITLS_VERSION_DTLS13;
    c_suite.fixedIvLength = ex ? 4 : 12;
    c_suite.recordIvLength = ex ? 8 : 0;
    c_suite.macLen = vp_bool() ? 16 : 8;
    c_suite.encKeyLen = vp_bool() ? 16 : 32;
    VP_BYTES(c_suite.iv, 12);
    c_msg.negotiatedVersion = ver;
    c_msg.version = vp_u16();
    c_msg.type = vp_u8();
    VP_BYTES(c_msg.seq, 8);
    VP_BYTES(c_msg.dtls13Seq, 8);
    VP_BYTES(c_msg.dtls13Aad, AEAD_AAD_MAX_SIZE);
#ifdef AADLEN
    c_msg.dtls13AadLen = AADLEN;
#else
    c_msg.dtls13AadLen = vp_range(1, AEAD_AAD_MAX_SIZE);
#endif
    g_i = vp_range(0, AEAD_AAD_MAX_SIZE - 1);
}
static void h_enc(uint32_t ver)
{
    TLS_Ctx *ctx = &c_ctx;
    RecConnState *state = &c_state;
    const REC_TextInput *plainMsg = &c_msg;
    setup(ver);
    c_msg.textLen = vp_u32();
    VP_ASSUME(c_msg.textLen <= TEXTMAX);
    c_msg.text = text_of(c_msg.textLen);
    uint32_t cipherTextLen = c_msg.textLen + c_suite.macLen + c_suite.recordIvLength;
    uint8_t *cipherText = malloc(cipherTextLen);
    VP_ASSUME(cipherText != NULL);
    int32_t r;
    VP_CALL(K_AeadEncrypt, r, AeadEncrypt(ctx, state, plainMsg, cipherText, cipherTextLen));
    VP_REACH(r == HITLS_SUCCESS && c_msg.textLen == 5, "encrypted");
    VP_REACH(r != HITLS_SUCCESS && G.calls == 1, "cipher failed");
}
static void h_dec(uint32_t ver)
{
    TLS_Ctx *ctx = &c_ctx;
    RecConnState *state = &c_state;
    const REC_TextInput *cryptMsg = &c_msg;
    setup(ver);
    c_msg.textLen = vp_u32();
    VP_ASSUME(c_msg.textLen <= TEXTMAX && c_msg.textLen >= (uint32_t)c_suite.macLen + c_suite.recordIvLength);
    c_msg.text = text_of(c_msg.textLen);
    uint8_t *data = malloc(TEXTMAX);
    VP_ASSUME(data != NULL);
    uint32_t l = TEXTMAX, *dataLen = &l;
    int32_t r;
    VP_CALL(K_AeadDecrypt, r, AeadDecrypt(ctx, state, cryptMsg, data, dataLen));
    VP_REACH(r == HITLS_SUCCESS && c_msg.textLen == 40, "decrypted");
    VP_REACH(r != HITLS_SUCCESS && G.calls == 1, "authentication failed");
}

/*@unit
name: AeadEncrypt_tls12
entry: h_enc12
enforce: AeadEncrypt
*/
void h_enc12(void) { h_enc(HITLS_VERSION_TLS12); VP_REACH(c_suite.recordIvLength == 8 && G.ok, "explicit"); VP_REACH(c_suite.recordIvLength == 0 && G.ok, "implicit"); }
/*@unit
name: AeadEncrypt_tls13
entry: h_enc13
enforce: AeadEncrypt
*/
void h_enc13(void) { h_enc(HITLS_VERSION_TLS13); }
/*@unit
name: AeadEncrypt_dtls13
entry: h_encd13
enforce: AeadEncrypt
def: AADLEN=5
*/
/*@unit
name: AeadEncrypt_dtls13_cid
entry: h_encd13
enforce: AeadEncrypt
def: AADLEN=21
*/
/*@unit
name: AeadEncrypt_dtls13_any_aad
entry: h_encd13
enforce: AeadEncrypt
tier: thorough
*/
void h_encd13(void) { h_enc(HITLS_VERSION_DTLS13); }
/*@unit
name: AeadDecrypt_tls12
entry: h_dec12
enforce: AeadDecrypt
*/
void h_dec12(void) { h_dec(HITLS_VERSION_TLS12); }
/*@unit
name: AeadDecrypt_tls13
entry: h_dec13
enforce: AeadDecrypt
*/
void h_dec13(void) { h_dec(HITLS_VERSION_TLS13); }
/*@unit
name: AeadDecrypt_dtls13
entry: h_decd13
enforce: AeadDecrypt
def: AADLEN=5
*/
/*@unit
name: AeadDecrypt_dtls13_cid
entry: h_decd13
enforce: AeadDecrypt
def: AADLEN=21
*/
/*@unit
name: AeadDecrypt_dtls13_any_aad
entry: h_decd13
enforce: AeadDecrypt
tier: thorough
*/
void h_decd13(void) { h_dec(HITLS_VERSION_DTLS13); }
