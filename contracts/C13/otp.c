/* One-time passwords (RFC 4226, RFC 6238): which counters are hashed, how the code is cut out, what is accepted. */
/*@defaults
src: auth/otp/src/otp.c auth/otp/src/otp_util.c
unwind: 12
level: bounded
bound: the truncated 31-bit value is one of 16 boundary values; everything else (counter, time, other HMAC bytes, algorithm) is arbitrary
assume: the HMAC callback is arbitrary (any failure, any output); BSL_PARAM lookup returns any parameter value
*/
#include "vp.h"
#include "bsl_errno.h"
#include "auth_errno.h"
#include "auth_params.h"
#include "auth_otp.h"
#include "bsl_params.h"
#include "crypt_errno.h"
#include "otp.h"

#define NMAX 3
static struct {
    uint32_t n, hmacLen, keyLen, msgLen;
    bool fail, params_ok, key_ok, alg_ok;
    uint64_t ctr[NMAX];
    char code[NMAX][11]; /* decimal digits of the 31-bit value, least significant first */
    uint64_t value;
    int32_t alg;
} G;
static HITLS_AUTH_OtpCtx c_ctx;
static TotpCtx c_totp;
static uint8_t c_key[16];
static BSL_Param c_par;
static uint8_t c_val[64];
static uint64_t g_T; /* expected time counter floor((now - T0) / X) */
static bool g_few; /* only four of the table values */
static bool g_before; /* now < T0 */

/* HMAC stand-in: an arbitrary MAC. The value at the position RFC 4226 5.3 names is one of a table (the decimal
 * conversion of all 2^31 values is beyond the solvers here: label bounded); every other byte is arbitrary. */
static uint32_t value31(void)
{
    static const uint32_t V[16] = { 0, 9, 999999, 1000000, 1000001, 9999999, 10000000, 99999999, 100000000, 0x7fffffff,
        0x7f000000, 1284755224, 907060870, 1000000007, 2000000000, 123456789 };
    uint8_t i = vp_u8();
    VP_ASSUME(i < 16 && (!g_few || i >= 12));
    return V[i];
}
static int32_t cb_hmac(CRYPT_EAL_LibCtx *l, const char *a, int32_t alg, const uint8_t *key, uint32_t keyLen,
    const uint8_t *input, uint32_t inputLen, uint8_t *hmac, uint32_t *hmacLen)
{
    (void)l; (void)a;
    G.alg_ok = G.alg_ok && alg == c_ctx.hashAlgId;
    G.key_ok = G.key_ok && key == c_key && keyLen == 16 && inputLen == 8;
    uint64_t c = 0;
    for (int i = 0; i < 8; i++) c = (c << 8) | input[i];
    uint32_t k = G.n < NMAX ? G.n : NMAX - 1;
    G.ctr[k] = c;
    G.n++;
    if (vp_bool()) { G.fail = true; return HITLS_AUTH_OTP_INVALID_INPUT; }
    uint32_t want = alg == HITLS_AUTH_OTP_CRYPTO_SHA1 ? 20 : alg == HITLS_AUTH_OTP_CRYPTO_SHA256 ? 32 : 64;
    G.alg_ok = G.alg_ok && *hmacLen >= want;
    uint8_t m[64];
    VP_BYTES(m, 64);
    uint32_t off = m[want - 1] & 15;
    uint32_t v = value31();
    VP_ASSUME((m[off] & 0x7f) == (v >> 24) && m[off + 1] == (uint8_t)(v >> 16) && m[off + 2] == (uint8_t)(v >> 8) && m[off + 3] == (uint8_t)v);
    for (int i = 0; i < 10; i++) { G.code[k][i] = (char)('0' + v % 10); v /= 10; }
    memcpy(hmac, m, want);
    *hmacLen = want;
    return HITLS_AUTH_SUCCESS;
}
const BSL_Param *BSL_PARAM_FindConstParam(const BSL_Param *param, int32_t key)
{
    (void)key;
    return G.params_ok ? param : NULL;
}
BSL_Param *BSL_PARAM_FindParam(BSL_Param *param, int32_t key)
{
    return param != NULL && param->key == key ? param : NULL;
}
int32_t BSL_PARAM_GetValue(const BSL_Param *param, int32_t key, uint32_t type, void *val, uint32_t *valLen)
{
    (void)param; (void)key; (void)type;
    if (vp_bool()) { G.fail = true; return BSL_PARAMS_MISMATCH; }
    VP_ASSUME(*valLen == 8 || *valLen == 4);
    if (*valLen == 8) memcpy(val, &G.value, 8);
    else { uint32_t v = (uint32_t)G.value; memcpy(val, &v, 4); }
    return BSL_SUCCESS;
}
int32_t BSL_PARAM_SetValue(BSL_Param *p, int32_t k, uint32_t t, void *v, uint32_t n) { (void)p; (void)k; (void)t; (void)v; (void)n; return BSL_SUCCESS; }
OtpCryptCb OtpCryptDefaultCb(void) { OtpCryptCb cb = { cb_hmac, NULL }; return cb; }

static void setup(int32_t proto, uint32_t digits)
{
    memset(&G, 0, sizeof(G));
    memset(&c_ctx, 0, sizeof(c_ctx));
    g_few = g_before = false;
    G.key_ok = G.alg_ok = true;
    G.params_ok = vp_bool();
    G.value = vp_u64();
    c_ctx.protocolType = proto;
    c_ctx.key.data = c_key;
    c_ctx.key.dataLen = 16;
    c_ctx.digits = digits;
    uint8_t a = vp_u8();
    c_ctx.hashAlgId = a == 0 ? HITLS_AUTH_OTP_CRYPTO_SHA1 : a == 1 ? HITLS_AUTH_OTP_CRYPTO_SHA256 : HITLS_AUTH_OTP_CRYPTO_SHA512;
    c_ctx.method.hmac = cb_hmac;
    c_ctx.ctx = proto == HITLS_AUTH_OTP_TOTP ? &c_totp : NULL;
}
/* now = T0 + T*X + rem with rem < X: every pair (now >= T0, X) has exactly one such form */
static void set_time(uint32_t step, uint64_t tmask)
{
    int64_t start = vp_i64();
    uint64_t T = vp_u64() & tmask;
    uint32_t rem = vp_u32();
    VP_ASSUME(rem < step && start >= 0 && start < (1LL << 40));
    c_totp.timeStepSize = step;
    c_totp.startOffset = start;
    c_totp.validWindow = 0;
    uint64_t back = vp_u64();
    g_before = vp_bool() && start > 0;
    if (g_before) {
        VP_ASSUME(back >= 1 && back <= (uint64_t)start);
        G.value = (uint64_t)start - back;
    } else {
        G.value = (uint64_t)start + T * step + rem;
    }
    g_T = T;
}
static bool code_is(const char *otp, uint32_t digits, uint32_t k)
{
    for (uint32_t i = 0; i < digits; i++) if (otp[i] != G.code[k][digits - 1 - i]) return false;
    return true;
}

/*@unit
name: hotp_gen_6
entry: h_gen6
enforce: HITLS_AUTH_OtpGen
*/
/*@unit
name: hotp_gen_7
entry: h_gen7
enforce: HITLS_AUTH_OtpGen
*/
/*@unit
name: hotp_gen_8
entry: h_gen8
enforce: HITLS_AUTH_OtpGen
*/
#define K_HITLS_AUTH_OtpGen(REQ, ENS) \
    ENS("a code is produced only from one successful HMAC under the context's key and algorithm", \
        VP_IMP(VP_RET == HITLS_AUTH_SUCCESS, G.n == 1 && !G.fail && G.key_ok && G.alg_ok)) \
    ENS("HOTP hashes the 8-byte big-endian counter", VP_IMP(G.n > 0 && ctx->protocolType == HITLS_AUTH_OTP_HOTP, G.ctr[0] == G.value)) \
    ENS("TOTP hashes floor((now - T0) / X)", VP_IMP(G.n > 0 && ctx->protocolType == HITLS_AUTH_OTP_TOTP, !g_before && G.ctr[0] == g_T)) \
    ENS("a time before T0 is refused", VP_IMP(ctx->protocolType == HITLS_AUTH_OTP_TOTP && g_before, VP_RET != HITLS_AUTH_SUCCESS)) \
    ENS("the code is the low digits of the dynamically truncated value", \
        VP_IMP(VP_RET == HITLS_AUTH_SUCCESS, code_is(otp, ctx->digits, 0))) \
    ENS("the reported length is the digit count", VP_IMP(VP_RET == HITLS_AUTH_SUCCESS, *otpLen == ctx->digits)) \
    ENS("a short buffer is refused", VP_IMP(g_len < ctx->digits, VP_RET != HITLS_AUTH_SUCCESS && G.n == 0)) \
    ENS("otherwise the call succeeds", VP_IMP(g_len >= ctx->digits && G.params_ok && !G.fail && !(ctx->protocolType == HITLS_AUTH_OTP_TOTP && g_before), \
        VP_RET == HITLS_AUTH_SUCCESS))
static uint32_t g_len;
int32_t HITLS_AUTH_OtpGen(HITLS_AUTH_OtpCtx *ctx, const BSL_Param *param, char *otp, uint32_t *otpLen)
    VP_CONTRACT(K_HITLS_AUTH_OtpGen, __CPROVER_object_whole(otp), *otpLen, G);

static void gen(uint32_t digits, uint32_t step, uint64_t tmask)
{
    setup(step == 0 ? HITLS_AUTH_OTP_HOTP : HITLS_AUTH_OTP_TOTP, digits);
    if (step != 0) set_time(step, tmask);
    HITLS_AUTH_OtpCtx *ctx = &c_ctx;
    BSL_Param p = {0}, *param = &p;
    uint32_t len = vp_range(0, 9), *otpLen = &len;
    g_len = len;
    char *otp = malloc(len);
    VP_ASSUME(otp != NULL);
    int32_t r;
    VP_CALL(K_HITLS_AUTH_OtpGen, r, HITLS_AUTH_OtpGen(ctx, param, otp, otpLen));
    VP_REACH(r == HITLS_AUTH_SUCCESS && otp[0] == '9', "code");
    VP_REACH(r != HITLS_AUTH_SUCCESS && G.n == 1, "hmac failed");
}
void h_gen6(void) { gen(6, 0, 0); }
void h_gen7(void) { gen(7, 0, 0); }
void h_gen8(void) { gen(8, 0, 0); }

/*@unit
name: totp_gen_30
entry: h_totp30
enforce: HITLS_AUTH_OtpGen
bound: default step of 30 s, time counters below 2^20 (and 2^60 in steps of 2^40), start offsets below 2^40
*/
/*@unit
name: totp_gen_odd
entry: h_totp_odd
enforce: HITLS_AUTH_OtpGen
*/
void h_totp30(void) { gen(6, 30, 0xFFFFF); }
void h_totp_odd(void) { gen(8, 61, 0x3F000000000000F); }

/*@unit
name: hotp_validate
entry: h_hval
enforce: HITLS_AUTH_OtpValidate
*/
/*@unit
name: totp_validate_w0
entry: h_tval0
enforce: HITLS_AUTH_OtpValidate
*/
/*@unit
name: totp_validate_w1
entry: h_tval1
enforce: HITLS_AUTH_OtpValidate
bound: acceptance window of 1 step (three codes), step 30 s, counters below 2^10, SHA-256, four code values
*/
static uint32_t g_w, g_otpLen;
static bool g_hasMatched;
static bool hit(const char *otp, uint32_t k) { return G.n > k && !(G.fail && G.n == k + 1) && code_is(otp, c_ctx.digits, k); }
static uint64_t want_ctr(uint32_t k) { return c_ctx.protocolType == HITLS_AUTH_OTP_HOTP ? G.value : g_T - g_w + k; }
#define K_HITLS_AUTH_OtpValidate(REQ, ENS) \
    ENS("the window is scanned in order from T-w, one counter per HMAC", G.n <= 2 * g_w + 1 && VP_IMP(G.n > 0, G.ctr[0] == want_ctr(0)) && \
        VP_IMP(G.n > 1, G.ctr[1] == want_ctr(1)) && VP_IMP(G.n > 2, G.ctr[2] == want_ctr(2))) \
    ENS("accepted only if the code equals that of a counter in the window", VP_IMP(VP_RET == HITLS_AUTH_SUCCESS, \
        G.n > 0 && g_otpLen == ctx->digits && hit(otp, G.n - 1) && G.key_ok && G.alg_ok)) \
    ENS("the matched counter is reported", VP_IMP(VP_RET == HITLS_AUTH_SUCCESS && matched != NULL, *matched == want_ctr(G.n - 1))) \
    ENS("a code equal to that of a counter in the window is accepted", VP_IMP(VP_RET != HITLS_AUTH_SUCCESS && g_otpLen == ctx->digits && \
        G.params_ok && !g_before && !G.fail, G.n == 2 * g_w + 1 && !hit(otp, 0) && !hit(otp, 1) && !hit(otp, 2))) \
    ENS("a code of the wrong length is refused", VP_IMP(g_otpLen != ctx->digits, VP_RET != HITLS_AUTH_SUCCESS))
int32_t HITLS_AUTH_OtpValidate(HITLS_AUTH_OtpCtx *ctx, const BSL_Param *param, const char *otp, const uint32_t otpLen, uint64_t *matched)
    VP_CONTRACT(K_HITLS_AUTH_OtpValidate, *matched, G);

static void val(uint32_t digits, uint32_t step, uint32_t w)
{
    setup(step == 0 ? HITLS_AUTH_OTP_HOTP : HITLS_AUTH_OTP_TOTP, digits);
    g_few = w > 0;
    g_before = false;
    if (step != 0) set_time(step, w > 0 ? 0x3FF : 0xFFFFF);
    if (w > 0) c_ctx.hashAlgId = HITLS_AUTH_OTP_CRYPTO_SHA256;
    c_totp.validWindow = g_w = w;
    HITLS_AUTH_OtpCtx *ctx = &c_ctx;
    BSL_Param p = {0}, *param = &p;
    uint32_t otpLen = vp_range(0, 12);
    char *otp;
    VP_BUF(otp, otpLen, 12);
    g_otpLen = otpLen;
    uint64_t m = 0, *matched = &m;
    int32_t r;
    VP_CALL(K_HITLS_AUTH_OtpValidate, r, HITLS_AUTH_OtpValidate(ctx, param, otp, otpLen, matched));
    VP_REACH(r == HITLS_AUTH_SUCCESS && G.n == 2 * w + 1, "accepted at the end of the window");
    VP_REACH(r != HITLS_AUTH_SUCCESS && G.n == 2 * w + 1 && !G.fail, "refused");
}
void h_hval(void) { val(8, 0, 0); }
void h_tval0(void) { val(7, 30, 0); }
void h_tval1(void) { val(6, 30, 1); }

/*@unit
name: OtpCtxCtrl
entry: h_ctrl
enforce: HITLS_AUTH_OtpCtxCtrl
level: proof
*/
static HITLS_AUTH_OtpCtx g_old;
static TotpCtx g_oldT;
static bool otp_inv(const HITLS_AUTH_OtpCtx *c, const TotpCtx *t)
{
    return c->digits >= 6 && c->digits <= 8 && (c->hashAlgId == HITLS_AUTH_OTP_CRYPTO_SHA1 ||
        c->hashAlgId == HITLS_AUTH_OTP_CRYPTO_SHA256 || c->hashAlgId == HITLS_AUTH_OTP_CRYPTO_SHA512) &&
        t->timeStepSize != 0 && t->validWindow <= 10;
}
#define K_HITLS_AUTH_OtpCtxCtrl(REQ, ENS) \
    REQ("configuration valid", otp_inv(&c_ctx, &c_totp)) \
    ENS("no call leaves digits, hash, step or window outside the documented ranges", otp_inv(&c_ctx, &c_totp)) \
    ENS("a rejected call changes nothing", VP_IMP(VP_RET != HITLS_AUTH_SUCCESS, c_ctx.digits == g_old.digits && \
        c_ctx.hashAlgId == g_old.hashAlgId && c_totp.timeStepSize == g_oldT.timeStepSize && c_totp.startOffset == g_oldT.startOffset && \
        c_totp.validWindow == g_oldT.validWindow)) \
    ENS("an accepted digit count, step or window is the requested one", VP_IMP(VP_RET == HITLS_AUTH_SUCCESS, \
        VP_IMP(cmd == HITLS_AUTH_OTP_SET_CTX_DIGITS, c_ctx.digits == (uint32_t)G.value) && \
        VP_IMP(cmd == HITLS_AUTH_OTP_SET_CTX_HASHALGID, c_ctx.hashAlgId == (int32_t)G.value) && \
        VP_IMP(cmd == HITLS_AUTH_OTP_SET_CTX_TOTP_TIMESTEPSIZE, c_totp.timeStepSize == (uint32_t)G.value) && \
        VP_IMP(cmd == HITLS_AUTH_OTP_SET_CTX_TOTP_STARTOFFSET, c_totp.startOffset == (int64_t)G.value) && \
        VP_IMP(cmd == HITLS_AUTH_OTP_SET_CTX_TOTP_VALIDWINDOW, c_totp.validWindow == (uint32_t)G.value))) \
    ENS("time parameters of a HOTP context are refused", VP_IMP(c_ctx.protocolType == HITLS_AUTH_OTP_HOTP && \
        (cmd == HITLS_AUTH_OTP_SET_CTX_TOTP_TIMESTEPSIZE || cmd == HITLS_AUTH_OTP_SET_CTX_TOTP_STARTOFFSET || \
        cmd == HITLS_AUTH_OTP_SET_CTX_TOTP_VALIDWINDOW), VP_RET != HITLS_AUTH_SUCCESS))
int32_t HITLS_AUTH_OtpCtxCtrl(HITLS_AUTH_OtpCtx *ctx, int32_t cmd, void *param, uint32_t paramLen)
    VP_CONTRACT(K_HITLS_AUTH_OtpCtxCtrl, c_ctx, c_totp, G, c_par, c_val);
void h_ctrl(void)
{
    setup(vp_bool() ? HITLS_AUTH_OTP_HOTP : HITLS_AUTH_OTP_TOTP, vp_range(6, 8));
    VP_DRAW(c_totp.timeStepSize);
    VP_DRAW(c_totp.startOffset);
    VP_DRAW(c_totp.validWindow);
    VP_ASSUME(otp_inv(&c_ctx, &c_totp));
    g_old = c_ctx;
    g_oldT = c_totp;
    HITLS_AUTH_OtpCtx *ctx = &c_ctx;
    int32_t cmd = vp_i32();
    c_par.key = vp_i32();
    c_par.valueType = vp_u32();
    c_par.value = c_val;
    c_par.valueLen = 64;
    void *param = &c_par;
    uint32_t paramLen = vp_u32();
    int32_t r;
    VP_CALL(K_HITLS_AUTH_OtpCtxCtrl, r, HITLS_AUTH_OtpCtxCtrl(ctx, cmd, param, paramLen));
    VP_REACH(r == HITLS_AUTH_SUCCESS && cmd == HITLS_AUTH_OTP_SET_CTX_TOTP_VALIDWINDOW, "window set");
    VP_REACH(r == HITLS_AUTH_SUCCESS && cmd == HITLS_AUTH_OTP_SET_CTX_DIGITS, "digits set");
}

/*@unit
name: OtpInit
entry: h_init
enforce: HITLS_AUTH_OtpInit
level: bounded
bound: keys of up to 24 bytes
unwind: 26
def: VP_ALLOC_FAIL
*/
#define KMAX 24
static bool g_rndFail, g_null;
static uint8_t g_rnd[KMAX], g_keyCopy[KMAX];
static uint32_t g_i;
static int32_t cb_random(uint8_t *buf, uint32_t len)
{
    VP_BYTES(g_rnd, KMAX);
    if (vp_bool()) { g_rndFail = true; return CRYPT_NO_REGIST_RAND; }
    for (uint32_t i = 0; i < len && i < KMAX; i++) buf[i] = g_rnd[i];
    return CRYPT_SUCCESS;
}
#define K_HITLS_AUTH_OtpInit(REQ, ENS) \
    ENS("secrets shorter than 128 bits are refused", VP_IMP(keyLen < 16, VP_RET != HITLS_AUTH_SUCCESS)) \
    ENS("the installed secret is the caller's, or the random one", VP_IMP(VP_RET == HITLS_AUTH_SUCCESS, ctx->key.data != NULL && \
        ctx->key.dataLen == keyLen && VP_IMP(g_i < keyLen, ctx->key.data[g_i] == (g_null ? g_rnd[g_i] : g_keyCopy[g_i])))) \
    ENS("no secret is installed when the random source fails", VP_IMP(g_rndFail, VP_RET != HITLS_AUTH_SUCCESS && ctx->key.data == NULL))
int32_t HITLS_AUTH_OtpInit(HITLS_AUTH_OtpCtx *ctx, uint8_t *key, uint32_t keyLen)
    VP_CONTRACT(K_HITLS_AUTH_OtpInit, c_ctx, g_rnd, g_rndFail);
void h_init(void)
{
    memset(&c_ctx, 0, sizeof(c_ctx));
    g_rndFail = false;
    c_ctx.method.random = cb_random;
    g_i = vp_range(0, KMAX - 1);
    HITLS_AUTH_OtpCtx *ctx = &c_ctx;
    uint32_t keyLen = vp_range(0, KMAX);
    uint8_t *key;
    VP_BYTES(g_keyCopy, KMAX);
    key = malloc(keyLen);
    VP_ASSUME(key != NULL);
    memcpy(key, g_keyCopy, keyLen);
    g_null = vp_bool();
    if (g_null) key = NULL;
    int32_t r;
    VP_CALL(K_HITLS_AUTH_OtpInit, r, HITLS_AUTH_OtpInit(ctx, key, keyLen));
    VP_REACH(r == HITLS_AUTH_SUCCESS && g_null, "random secret");
}
