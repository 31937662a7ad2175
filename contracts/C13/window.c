/* TOTP acceptance window: with codes that identify their counter, a code is accepted exactly when its counter lies in
 * [T - w, T + w], and the matched counter is reported. */
/*@defaults
src: auth/otp/src/otp.c auth/otp/src/otp_util.c
unwind: 24
level: bounded
assume: the HMAC callback separates the presented counter from the others
*/
#include "vp.h"
#include "bsl_errno.h"
#include "auth_errno.h"
#include "auth_params.h"
#include "auth_otp.h"
#include "bsl_params.h"
#include "crypt_errno.h"
#include "otp.h"

static struct { uint64_t m, value, T; uint32_t n, w; } G;
static HITLS_AUTH_OtpCtx c_ctx;
static TotpCtx c_totp;
static uint8_t c_key[16];
static int32_t cb_hmac(CRYPT_EAL_LibCtx *l, const char *a, int32_t alg, const uint8_t *key, uint32_t keyLen,
    const uint8_t *input, uint32_t inputLen, uint8_t *hmac, uint32_t *hmacLen)
{
    (void)l; (void)a; (void)alg; (void)key; (void)keyLen; (void)inputLen;
    uint64_t c = 0;
    for (int i = 0; i < 8; i++) c = (c << 8) | input[i];
    G.n++;
    memset(hmac, 0, 20);
    hmac[3] = c == G.m ? 7 : 6;        /* truncation offset 0: the code is 000007 for counter m, else 000006 */
    *hmacLen = 20;
    return HITLS_AUTH_SUCCESS;
}
const BSL_Param *BSL_PARAM_FindConstParam(const BSL_Param *param, int32_t key) { (void)key; return param; }
BSL_Param *BSL_PARAM_FindParam(BSL_Param *param, int32_t key) { (void)key; return param; }
int32_t BSL_PARAM_GetValue(const BSL_Param *param, int32_t key, uint32_t type, void *val, uint32_t *valLen)
{
    (void)param; (void)key; (void)type; (void)valLen;
    memcpy(val, &G.value, 8);
    return BSL_SUCCESS;
}
int32_t BSL_PARAM_SetValue(BSL_Param *p, int32_t k, uint32_t t, void *v, uint32_t n) { (void)p; (void)k; (void)t; (void)v; (void)n; return BSL_SUCCESS; }
OtpCryptCb OtpCryptDefaultCb(void) { OtpCryptCb cb = { cb_hmac, NULL }; return cb; }

#define INWIN (G.m + G.w >= G.T && G.m <= G.T + G.w)
#define K_HITLS_AUTH_OtpValidate(REQ, ENS) \
    ENS("a code is accepted exactly when its counter lies in the acceptance window", (VP_RET == HITLS_AUTH_SUCCESS) == INWIN) \
    ENS("the matched counter is reported", VP_IMP(VP_RET == HITLS_AUTH_SUCCESS, *matched == G.m))
int32_t HITLS_AUTH_OtpValidate(HITLS_AUTH_OtpCtx *ctx, const BSL_Param *param, const char *otp, const uint32_t otpLen, uint64_t *matched)
    VP_CONTRACT(K_HITLS_AUTH_OtpValidate, *matched, G);
static void win(uint64_t T, uint32_t w)
{
    memset(&G, 0, sizeof(G));
    memset(&c_ctx, 0, sizeof(c_ctx));
    G.T = T; G.w = w; G.m = vp_u64();
    c_ctx.protocolType = HITLS_AUTH_OTP_TOTP;
    c_ctx.key.data = c_key; c_ctx.key.dataLen = 16;
    c_ctx.digits = 6;
    c_ctx.hashAlgId = HITLS_AUTH_OTP_CRYPTO_SHA1;
    c_ctx.method.hmac = cb_hmac;
    c_ctx.ctx = &c_totp;
    c_totp.timeStepSize = 30; c_totp.startOffset = 1000; c_totp.validWindow = w;
    G.value = 1000 + T * 30 + 17;
    HITLS_AUTH_OtpCtx *ctx = &c_ctx;
    BSL_Param p = {0}; const BSL_Param *param = &p;
    const char *otp = "000007"; const uint32_t otpLen = 6;
    uint64_t m = 0, *matched = &m;
    int32_t r;
    VP_CALL(K_HITLS_AUTH_OtpValidate, r, HITLS_AUTH_OtpValidate(ctx, param, otp, otpLen, matched));
    VP_REACH(r == HITLS_AUTH_SUCCESS && G.n == 2 * w + 1, "top of the window");
    VP_REACH(r == HITLS_AUTH_SUCCESS && G.n == 1, "bottom of the window");
    VP_REACH(r != HITLS_AUTH_SUCCESS, "outside");
}
/*@unit
name: totp_window_2
entry: h_w2
enforce: HITLS_AUTH_OtpValidate
bound: window of 2 steps at one fixed time, SHA-1, six digits; the presented counter is arbitrary
*/
/*@unit
name: totp_window_3
entry: h_w3
enforce: HITLS_AUTH_OtpValidate
bound: window of 3 steps at one fixed time, SHA-1, six digits; the presented counter is arbitrary
*/
/*@unit
name: totp_window_10
entry: h_w10
enforce: HITLS_AUTH_OtpValidate
bound: window of 10 steps at one fixed time, SHA-1, six digits; the presented counter is arbitrary
*/
/*@unit
name: totp_window_large_time
entry: h_wl
enforce: HITLS_AUTH_OtpValidate
bound: window of 1 step at a time counter beyond 32 bits, SHA-1, six digits; the presented counter is arbitrary
*/
void h_w2(void) { win(57000000, 2); }
void h_w3(void) { win(0x7fffffff, 3); }
void h_w10(void) { win(10, 10); }
void h_wl(void) { win(0x123456789abULL, 1); }
