/* GCM: the verdict of the finalisation, down to the tag computed from the authenticated state. */
/*@defaults
src: crypto/modes/src/modes.c
object_bits: 8
unwind: 34
solver: minisat2
assume: GHASH and the block cipher are callee contracts: an arbitrary value of the authenticated state at the end of the message
*/
/*@unit
name: gcm_final
entry: h_gcm
enforce: MODES_GCM_Final
swap: GcmPad:PadC
functions: MODES_GCM_Final GetTag MODES_AeadCheckTag ConstTimeMemcmp
*/
/*@unit
name: gcm_taglen
entry: h_taglen
enforce: SetTagLen
functions: SetTagLen
*/
#define VP_OWN_SAL_MEM
#define VP_OWN_CLEANSE
#include "vp.h"
#ifdef VP_CBMC
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#endif
#include "crypto/modes/src/modes_gcm.c"
void BSL_SAL_CleanseData(void *p, uint32_t n) { (void)p; (void)n; }
void *BSL_SAL_Malloc(uint32_t n) { (void)n; return NULL; }
void *BSL_SAL_Calloc(uint32_t a, uint32_t b) { (void)a; (void)b; return NULL; }
void BSL_SAL_Free(void *p) { (void)p; }
static MODES_GCM_Ctx c_g;
static const MODES_GCM_Ctx z_g;
static uint8_t c_hash[16], c_gh[16], c_out[4];
static uint32_t g_outLen, g_cnt, g_val, g_len, g_k;
static bool g_outOk, g_enc, g_padArgs;
static uint32_t g_pads;
static uint8_t g_oldTl;
/* the last, possibly partial, block and the lengths are absorbed here */
void PadC(const MODES_CipherGCMCtx *ctx, uint8_t *ghash, uint8_t *remCt)
{
    g_pads++;
    if (ctx != &c_g.gcmCtx) g_padArgs = false;
    for (uint32_t i = 0; i < 16; i++) {
        if (ghash[i] != c_gh[i]) g_padArgs = false;
        ghash[i] = c_hash[i];
    }
    (void)remCt;
}
static bool same(uint32_t n)
{
    bool e = true;
    for (uint32_t i = 0; i < 16; i++) {
        if (i < n && (uint8_t)(c_hash[i] ^ c_g.gcmCtx.ek0[i]) != c_g.vfyTag[i]) e = false;
    }
    return e;
}
#define K_GCM(REQ, ENS) \
    REQ("ctx", c_g.vfyTagLen <= 16 && c_g.gcmCtx.tagLen >= 4 && c_g.gcmCtx.tagLen <= 16) \
    ENS("decryption succeeds exactly when a tag of the agreed length is set and equals the computed one", VP_IMP(!g_enc && g_outOk, (VP_RET == CRYPT_SUCCESS) == (c_g.vfyTagLen == c_g.gcmCtx.tagLen && same(c_g.vfyTagLen)))) \
    ENS("a message without a tag is never accepted", VP_IMP(!g_enc && c_g.vfyTagLen == 0, VP_RET != CRYPT_SUCCESS)) \
    ENS("the tag is computed from the state of this message", VP_IMP(!g_enc && VP_RET == CRYPT_SUCCESS, g_pads == 1 && g_padArgs)) \
    ENS("encryption has no tag to verify", VP_IMP(g_enc && g_outOk, VP_RET == CRYPT_SUCCESS && g_pads == 0)) \
    ENS("the authenticated state is not disturbed", VP_IMP(g_k < 16, c_g.gcmCtx.ghash[g_k] == c_gh[g_k])) \
    ENS("no output at finalisation", VP_IMP(g_outOk, g_outLen == 0))
int32_t MODES_GCM_Final(MODES_GCM_Ctx *modeCtx, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_GCM, __CPROVER_object_whole(&c_g); g_outLen; g_pads; g_padArgs);
void h_gcm(void)
{
    c_g = z_g;
    VP_BYTES(c_hash, 16); VP_BYTES(c_gh, 16);
    for (uint32_t i = 0; i < 16; i++) { c_g.gcmCtx.ek0[i] = vp_u8(); c_g.vfyTag[i] = vp_u8(); c_g.gcmCtx.ghash[i] = c_gh[i]; }
    c_g.vfyTagLen = vp_range(0, 16); c_g.gcmCtx.tagLen = (uint8_t)vp_range(4, 16);
    g_enc = vp_bool(); c_g.enc = g_enc; g_outOk = vp_bool(); g_outLen = vp_u32(); g_pads = 0; g_padArgs = true; g_k = vp_u32();
    int32_t r;
    VP_CALL(K_GCM, r, MODES_GCM_Final(&c_g, g_outOk ? c_out : NULL, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && !g_enc && c_g.vfyTagLen == 16, "accepted");
    VP_REACH(r == CRYPT_SUCCESS && !g_enc && c_g.vfyTagLen == 4, "short tag accepted");
    VP_REACH(r != CRYPT_SUCCESS && !g_enc && g_pads == 1, "wrong tag");
}
#define K_TL(REQ, ENS) \
    REQ("tag length", true) \
    ENS("only the tag lengths of SP 800-38D", (VP_RET == CRYPT_SUCCESS) == (g_outOk && g_len == 4 && (g_val == 4 || g_val == 8 || (g_val >= 12 && g_val <= 16)))) \
    ENS("the one set is the one asked for", c_g.gcmCtx.tagLen == (VP_RET == CRYPT_SUCCESS ? g_val : g_oldTl))
int32_t SetTagLen(MODES_CipherGCMCtx *ctx, const uint32_t *val, uint32_t len)
    VP_CONTRACT(K_TL, __CPROVER_object_whole(&c_g));
void h_taglen(void)
{
    c_g = z_g;
    g_oldTl = vp_u8(); c_g.gcmCtx.tagLen = g_oldTl; g_val = vp_u32(); g_len = vp_u32(); g_outOk = vp_bool();
    int32_t r;
    VP_CALL(K_TL, r, SetTagLen(&c_g.gcmCtx, g_outOk ? &g_val : NULL, g_len));
    VP_REACH(r == CRYPT_SUCCESS && g_val == 13, "set");
    VP_REACH(r != CRYPT_SUCCESS, "refused");
}
