/* Block-cipher modes: padding, the held-back block, and the AEAD verdict. */
/*@defaults
src:
object_bits: 8
unwind: 34
solver: cadical
assume: the block cipher is a callee contract: an arbitrary result for the bytes it is given, recorded with where it was asked to write
*/
/*@unit
name: unpad_rule
entry: h_unpad
enforce: MODES_BlockUnPadding
functions: MODES_BlockUnPadding UnPaddingISO7816 UnPaddingX923 UnPaddingPkcs
*/
/*@unit
name: pad_rule
entry: h_pad
enforce: MODES_BlockPadding
functions: MODES_BlockPadding IfXts
*/
/*@unit
name: pad_then_unpad
entry: h_round
enforce: MODES_BlockUnPadding
functions: MODES_BlockPadding MODES_BlockUnPadding
*/
/*@unit
name: final_block
entry: h_final
enforce: MODES_CipherFinal
replace:
functions: MODES_CipherFinal
restrict: MODES_CipherFinal.function_pointer_call.1/blkC
restrict: MODES_CipherFinal.function_pointer_call.2/blkC
*/
/*@unit
name: update_stream_16
solver: minisat2
entry: h_update
def: BSV=16
enforce: MODES_CipherUpdate
functions: MODES_CipherUpdate MODES_CipherUpdateCache
restrict: MODES_CipherUpdate.function_pointer_call.1/blkC
restrict: MODES_CipherUpdate.function_pointer_call.2/blkC
restrict: MODES_CipherUpdateCache.function_pointer_call.1/blkC
restrict: MODES_CipherUpdateCache.function_pointer_call.2/blkC
*/
/*@unit
name: update_stream_8
solver: minisat2
entry: h_update
def: BSV=8
enforce: MODES_CipherUpdate
functions: MODES_CipherUpdate MODES_CipherUpdateCache
restrict: MODES_CipherUpdate.function_pointer_call.1/blkC
restrict: MODES_CipherUpdate.function_pointer_call.2/blkC
restrict: MODES_CipherUpdateCache.function_pointer_call.1/blkC
restrict: MODES_CipherUpdateCache.function_pointer_call.2/blkC
*/
/*@unit
name: set_tag
entry: h_settag
enforce: MODES_SetVfyTag
*/
/*@unit
name: check_tag
entry: h_checktag
enforce: MODES_AeadCheckTag
functions: MODES_AeadCheckTag ConstTimeMemcmp
restrict: MODES_AeadCheckTag.function_pointer_call.1/tagC
*/
#define VP_OWN_SAL_MEM
#define VP_OWN_CLEANSE
#include "vp.h"
#ifdef VP_CBMC
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#endif
#include "crypto/modes/src/modes.c"
void BSL_SAL_CleanseData(void *p, uint32_t n) { (void)p; (void)n; }
void *BSL_SAL_Malloc(uint32_t n) { (void)n; return NULL; }
void *BSL_SAL_Calloc(uint32_t a, uint32_t b) { (void)a; (void)b; return NULL; }
void BSL_SAL_Free(void *p) { (void)p; }

#define BS 16 /* the largest cipher block */
static uint8_t c_blk[32], c_old[32], c_dec[32], c_out[20], c_tag[16], c_vfy[16], c_newTag[16];
static uint32_t g_bs, g_len, g_oldLen, g_k, g_outLen, g_oldOut;
static int32_t g_pad;
static uint8_t g_dl, g_oldDl;
static struct {
    uint32_t calls, len[2];
    const uint8_t *in[2];
    uint8_t *out[2];
    int32_t ret[2];
    bool args;
    uint8_t byte;
} G;
static const __typeof__(G) z_G;

/* ---- what well-formed padding is (ISO/IEC 7816-4, ANSI X9.23, PKCS#7), n = block length, len = data bytes before it */
static bool well(int32_t t, const uint8_t *b, uint32_t n, uint32_t len)
{
    bool ok = len < n;
    for (uint32_t i = 0; i < BS; i++) {
        if (i >= n || i < len) continue;
        if (t == CRYPT_PADDING_ISO7816 && b[i] != (i == len ? 0x80 : 0)) ok = false;
        if (t == CRYPT_PADDING_X923 && b[i] != (i == n - 1 ? n - len : 0)) ok = false;
        if ((t == CRYPT_PADDING_PKCS5 || t == CRYPT_PADDING_PKCS7) && b[i] != n - len) ok = false;
        if (t == CRYPT_PADDING_ZEROS && b[i] != 0) ok = false;
    }
    return ok;
}
static bool counted(int32_t t) { return t == CRYPT_PADDING_ISO7816 || t == CRYPT_PADDING_X923 || t == CRYPT_PADDING_PKCS5 || t == CRYPT_PADDING_PKCS7; }
static bool some(int32_t t, const uint8_t *b, uint32_t n)
{
    bool ok = false;
    for (uint32_t l = 0; l < BS; l++) {
        if (l < n && well(t, b, n, l)) ok = true;
    }
    return ok;
}
#define K_UNPAD(REQ, ENS) \
    REQ("block", g_bs >= 1 && g_bs <= BS) \
    ENS("accepts exactly a block that ends in well-formed padding", !counted(g_pad) || (VP_RET == CRYPT_SUCCESS) == some(g_pad, c_blk, g_bs)) \
    ENS("the length returned is the one the padding delimits", VP_IMP(counted(g_pad) && VP_RET == CRYPT_SUCCESS, well(g_pad, c_blk, g_bs, g_len))) \
    ENS("never longer than the block", VP_IMP(counted(g_pad) && VP_RET == CRYPT_SUCCESS, g_len < g_bs)) \
    ENS("without a removable padding the length stays", VP_IMP(!counted(g_pad) || VP_RET != CRYPT_SUCCESS, g_len == g_oldLen)) \
    ENS("without a removable padding it succeeds", VP_IMP(!counted(g_pad), VP_RET == CRYPT_SUCCESS))
int32_t MODES_BlockUnPadding(int32_t padding, const uint8_t *pad, uint32_t padLen, uint32_t *dataLen)
    VP_CONTRACT(K_UNPAD, g_len);

#define K_PAD(REQ, ENS) \
    REQ("block", g_dl == g_oldDl && g_bs >= 1 && g_bs <= BS && g_oldDl < g_bs) \
    ENS("a padded block is full and well formed", VP_IMP(VP_RET == CRYPT_SUCCESS && g_pad != CRYPT_PADDING_NONE, g_dl == g_bs && well(g_pad, c_blk, g_bs, g_oldDl))) \
    ENS("the data is untouched", VP_IMP(g_k < g_oldDl, c_blk[g_k] == c_old[g_k])) \
    ENS("without padding the block is left as it is", VP_IMP(g_pad == CRYPT_PADDING_NONE, g_dl == g_oldDl && VP_IMP(g_k < 32, c_blk[g_k] == c_old[g_k]))) \
    ENS("without padding a partial block is refused, except by XTS", VP_IMP(g_pad == CRYPT_PADDING_NONE, (VP_RET == CRYPT_SUCCESS) == (g_oldDl == 0 || IfXts((CRYPT_CIPHER_AlgId)algId)))) \
    ENS("a defined padding is applied", VP_IMP(counted(g_pad) || g_pad == CRYPT_PADDING_ZEROS, VP_RET == CRYPT_SUCCESS)) \
    ENS("an undefined one is refused", VP_IMP(!counted(g_pad) && g_pad != CRYPT_PADDING_ZEROS && g_pad != CRYPT_PADDING_NONE, VP_RET != CRYPT_SUCCESS))
int32_t MODES_BlockPadding(int32_t algId, int32_t padding, uint8_t blockSize, uint8_t *data, uint8_t *dataLen)
    VP_CONTRACT(K_PAD, g_dl; __CPROVER_object_whole(c_blk));
void h_unpad(void)
{
    VP_BYTES(c_blk, 32);
    g_bs = vp_range(1, BS); g_pad = vp_i32(); g_len = vp_u32(); g_oldLen = g_len;
    int32_t r;
    VP_CALL(K_UNPAD, r, MODES_BlockUnPadding(g_pad, c_blk, g_bs, &g_len));
    VP_REACH(r == CRYPT_SUCCESS && g_pad == CRYPT_PADDING_PKCS7 && g_len == 0, "full PKCS7 block");
    VP_REACH(r == CRYPT_SUCCESS && g_pad == CRYPT_PADDING_ISO7816 && g_len == 3, "ISO7816");
    VP_REACH(r == CRYPT_SUCCESS && g_pad == CRYPT_PADDING_X923 && g_bs == 16, "X923");
    VP_REACH(r != CRYPT_SUCCESS, "refused");
}
static void blk(void)
{
    VP_BYTES(c_blk, 32);
    for (uint32_t i = 0; i < 32; i++) c_old[i] = c_blk[i];
    g_bs = vp_range(1, BS); g_pad = vp_i32(); g_k = vp_u32();
    g_dl = vp_u8(); VP_ASSUME(g_dl < g_bs); g_oldDl = g_dl;
}
void h_pad(void)
{
    blk();
    int32_t algId = vp_i32();
    int32_t r;
    VP_CALL(K_PAD, r, MODES_BlockPadding(algId, g_pad, (uint8_t)g_bs, c_blk, &g_dl));
    VP_REACH(r == CRYPT_SUCCESS && g_pad == CRYPT_PADDING_X923 && g_oldDl == g_bs - 1, "one byte of X923");
    VP_REACH(r == CRYPT_SUCCESS && g_pad == CRYPT_PADDING_ISO7816 && g_oldDl == 0, "a whole block of ISO7816");
    VP_REACH(r != CRYPT_SUCCESS && g_pad == CRYPT_PADDING_NONE, "partial block without padding");
}
void h_round(void)
{
    blk();
    int32_t algId = 0;
    VP_ASSUME(counted(g_pad));
    int32_t p = MODES_BlockPadding(algId, g_pad, (uint8_t)g_bs, c_blk, &g_dl);
    g_len = g_dl; g_oldLen = g_len;
    int32_t r;
    VP_CALL(K_UNPAD, r, MODES_BlockUnPadding(g_pad, c_blk, g_bs, &g_len));
    VP_ASSERT(p == CRYPT_SUCCESS && r == CRYPT_SUCCESS && g_len == g_oldDl, "unpadding a padded block gives back its length");
    VP_ASSERT(g_k >= g_oldDl || c_blk[g_k] == c_old[g_k], "and its bytes");
}


/* ---- the final block ---- */
static MODES_CipherCtx c_m;
static const MODES_CipherCtx z_m;
static bool g_enc;
static uint8_t c_ref[20];
int32_t blkC(MODES_CipherCommonCtx *ctx, const uint8_t *in, uint8_t *out, uint32_t len)
{
    uint32_t c = G.calls++;
    if (ctx != &c_m.commonCtx || c > 1) { G.args = false; return CRYPT_SUCCESS; }
    G.in[c] = in; G.out[c] = out; G.len[c] = len;
    if (in == c_m.data && g_k < 32) G.byte = in[g_k];
    if (len % g_bs != 0) return CRYPT_MODE_ERR_INPUT_LEN; /* the block modes' own contract */
    if (in == c_m.data && !g_enc && out != c_out) {
        for (uint32_t i = 0; i < 32; i++) out[i] = c_dec[i];
    }
    return G.ret[c];
}
#define FULL (g_pad != CRYPT_PADDING_NONE)
#define DECLEN (counted(g_pad) ? g_outLen : g_oldDl)
#define K_FINAL(REQ, ENS) \
    REQ("ctx", g_bs >= 1 && g_bs <= BS && g_oldDl <= g_bs && (!g_enc || g_oldDl < g_bs) && !IfXts(c_m.algId)) \
    ENS("the cipher runs at most once, on the held block and nothing else", G.calls <= 1 && G.args && VP_IMP(G.calls == 1, G.in[0] == c_m.data)) \
    ENS("encryption pads and writes one whole block", VP_IMP(g_enc && FULL && VP_RET == CRYPT_SUCCESS, G.calls == 1 && G.len[0] == g_bs && G.out[0] == c_out && g_outLen == g_bs && well(g_pad, c_m.data, g_bs, g_oldDl))) \
    ENS("it keeps the data bytes", VP_IMP(g_enc && FULL && VP_RET == CRYPT_SUCCESS && g_k < g_oldDl, G.byte == c_old[g_k])) \
    ENS("it never writes more than the caller's buffer holds", VP_IMP(g_enc && FULL && g_oldOut < g_bs, VP_RET != CRYPT_SUCCESS && G.calls == 0)) \
    ENS("without padding nothing may be left over", VP_IMP(g_enc && !FULL, (VP_RET == CRYPT_SUCCESS) == (g_oldDl == 0) && G.calls == 0)) \
    ENS("nothing held, nothing produced", VP_IMP(VP_RET == CRYPT_SUCCESS && g_oldDl == 0 && (!g_enc || !FULL), g_outLen == 0 && G.calls == 0)) \
    ENS("encryption succeeds when it can", VP_IMP(g_enc && FULL && (counted(g_pad) || g_pad == CRYPT_PADDING_ZEROS) && g_oldOut >= g_bs && G.ret[0] == CRYPT_SUCCESS, VP_RET == CRYPT_SUCCESS)) \
    ENS("a failed cipher is a failed call", VP_IMP(G.calls == 1 && G.ret[0] != CRYPT_SUCCESS, VP_RET != CRYPT_SUCCESS)) \
    ENS("decryption succeeds only on a whole block", VP_IMP(!g_enc && g_oldDl != 0 && VP_RET == CRYPT_SUCCESS, g_oldDl == g_bs && G.calls == 1 && G.len[0] == g_bs)) \
    ENS("with padding only if the block ends in it", VP_IMP(!g_enc && g_oldDl == g_bs && counted(g_pad) && VP_RET == CRYPT_SUCCESS, well(g_pad, c_dec, g_bs, g_outLen))) \
    ENS("it succeeds when the padding is well formed and the data fits", VP_IMP(!g_enc && g_oldDl == g_bs && G.ret[0] == CRYPT_SUCCESS && g_oldOut >= g_bs, (VP_RET == CRYPT_SUCCESS) == (!counted(g_pad) || some(g_pad, c_dec, g_bs)))) \
    ENS("it releases exactly the unpadded bytes", VP_IMP(!g_enc && g_oldDl != 0 && VP_RET == CRYPT_SUCCESS, g_outLen == DECLEN && g_outLen <= g_oldOut && VP_IMP(g_k < 20, c_out[g_k] == (g_k < g_outLen ? c_dec[g_k] : c_ref[g_k])))) \
    ENS("a refused block releases nothing", VP_IMP(!g_enc && VP_RET != CRYPT_SUCCESS && g_k < 20, c_out[g_k] == c_ref[g_k] && g_outLen == g_oldOut)) \
    ENS("the block is consumed", VP_IMP(VP_RET == CRYPT_SUCCESS, c_m.dataLen == 0))
int32_t MODES_CipherFinal(MODES_CipherCtx *modeCtx, void *blockUpdate, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_FINAL, __CPROVER_object_whole(&c_m); __CPROVER_object_whole(c_out); g_outLen; __CPROVER_object_whole(&G));
static void mctx(void)
{
    c_m = z_m; G = z_G; G.args = true;
    G.ret[0] = vp_i32(); G.ret[1] = vp_i32();
    VP_BYTES(c_old, 32); VP_BYTES(c_dec, 32); VP_BYTES(c_ref, 20);
    for (uint32_t i = 0; i < 32; i++) c_m.data[i] = c_old[i];
    for (uint32_t i = 0; i < 20; i++) c_out[i] = c_ref[i];
    g_bs = vp_range(1, BS); g_k = vp_u32(); g_outLen = vp_u32(); g_oldOut = g_outLen;
    g_pad = vp_range(0, CRYPT_PADDING_MAX_COUNT); g_enc = vp_bool();
    g_oldDl = vp_u8(); VP_ASSUME(g_oldDl <= g_bs && (!g_enc || g_oldDl < g_bs));
    c_m.commonCtx.blockSize = (uint8_t)g_bs; c_m.pad = (CRYPT_PaddingType)g_pad; c_m.enc = g_enc; c_m.dataLen = g_oldDl;
}
void h_final(void)
{
    mctx();
    int32_t r;
    VP_CALL(K_FINAL, r, MODES_CipherFinal(&c_m, (void *)blkC, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && g_enc && g_pad == CRYPT_PADDING_PKCS7 && g_oldDl == 0, "a block of padding only");
    VP_REACH(r == CRYPT_SUCCESS && !g_enc && g_pad == CRYPT_PADDING_PKCS7 && g_outLen == 5, "unpadded data");
    VP_REACH(r != CRYPT_SUCCESS && !g_enc && G.calls == 1 && G.ret[0] == CRYPT_SUCCESS, "bad padding");
    VP_REACH(r == CRYPT_SUCCESS && !g_enc && g_oldDl == 0, "nothing held");
}

/* ---- the stream: cached bytes followed by the input, whatever the chunking ---- */
static uint8_t *c_in;
static uint32_t g_n;
#define TOTAL ((uint64_t)g_oldDl + g_n)
#define HELD ((uint32_t)(g_enc || !FULL ? TOTAL % g_bs : (TOTAL == 0 ? 0 : (TOTAL - 1) % g_bs + 1)))
#define DONE (TOTAL - HELD)
/* byte k of the stream */
static uint8_t strm(uint64_t k) { return k < g_oldDl ? c_old[k] : c_in[k - g_oldDl]; }
#define FROMCACHE (g_oldDl > 0 && DONE > 0)
#define K_UPD(REQ, ENS) \
    REQ("ctx", g_bs >= 1 && g_bs <= BS && g_oldDl <= g_bs && (g_oldDl < g_bs || (!g_enc && FULL))) \
    ENS("the length produced is the whole blocks of the stream so far, less the block held back for the padding", VP_IMP(VP_RET == CRYPT_SUCCESS, g_outLen == DONE)) \
    ENS("the length held is the rest", VP_IMP(VP_RET == CRYPT_SUCCESS, c_m.dataLen == HELD)) \
    ENS("the bytes held are the last of the stream", VP_IMP(VP_RET == CRYPT_SUCCESS && g_k < HELD, c_m.data[g_k] == strm(DONE + g_k))) \
    ENS("the cipher sees every other byte once, in order", VP_IMP(VP_RET == CRYPT_SUCCESS, G.args && G.calls == (FROMCACHE ? 1 : 0) + (DONE > (FROMCACHE ? g_bs : 0) ? 1 : 0))) \
    ENS("the completed block first", VP_IMP(VP_RET == CRYPT_SUCCESS && FROMCACHE, G.in[0] == c_m.data && G.len[0] == g_bs && G.out[0] == c_out && VP_IMP(g_k < g_bs, G.byte == strm(g_k)))) \
    ENS("then the whole blocks of the input after it", VP_IMP(VP_RET == CRYPT_SUCCESS && FROMCACHE && DONE > g_bs, G.in[1] == c_in + (g_bs - g_oldDl) && G.len[1] == DONE - g_bs && G.out[1] == c_out + g_bs)) \
    ENS("or the whole blocks of the input alone", VP_IMP(VP_RET == CRYPT_SUCCESS && !FROMCACHE && DONE > 0, G.in[0] == c_in && G.len[0] == DONE && G.out[0] == c_out)) \
    ENS("it never writes more than the caller's buffer holds", VP_IMP(VP_RET == CRYPT_SUCCESS, DONE <= g_oldOut)) \
    ENS("it succeeds when the buffer suffices and the cipher does", VP_IMP(DONE <= g_oldOut && G.ret[0] == CRYPT_SUCCESS && G.ret[1] == CRYPT_SUCCESS && TOTAL <= UINT32_MAX, VP_RET == CRYPT_SUCCESS)) \
    ENS("a failed cipher is a failed call", VP_IMP((G.calls >= 1 && G.ret[0] != CRYPT_SUCCESS) || (G.calls == 2 && G.ret[1] != CRYPT_SUCCESS), VP_RET != CRYPT_SUCCESS)) \
    ENS("what the cipher writes stays in the buffer", VP_IMP(G.calls >= 1, (uint64_t)(G.out[0] - c_out) + G.len[0] <= g_oldOut) && VP_IMP(G.calls == 2, (uint64_t)(G.out[1] - c_out) + G.len[1] <= g_oldOut))
int32_t MODES_CipherUpdate(MODES_CipherCtx *modeCtx, void *blockUpdate, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_UPD, __CPROVER_object_whole(&c_m); g_outLen; __CPROVER_object_whole(&G));
void h_update(void)
{
    mctx();
    VP_ASSUME(g_oldDl < g_bs || (!g_enc && FULL));
    g_n = vp_u32();
    c_in = malloc(g_n);
    VP_ASSUME(c_in != NULL);
#ifndef VP_CBMC
    for (uint32_t i = 0; i < g_n; i++) c_in[i] = (uint8_t)(i * 7 + 3);
#endif
#ifdef BSV
    VP_ASSUME(g_bs == BSV);
    g_bs = BSV;
    c_m.commonCtx.blockSize = BSV;
#endif
    int32_t r;
    VP_CALL(K_UPD, r, MODES_CipherUpdate(&c_m, (void *)blkC, c_in, g_n, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && g_enc && G.calls == 2 && g_n > 99, "cache and input");
    VP_REACH(r == CRYPT_SUCCESS && !g_enc && FULL && g_n % g_bs == 0 && g_n > 64, "held back");
    VP_REACH(r == CRYPT_SUCCESS && G.calls == 0 && g_n > 0, "all cached");
    VP_REACH(r != CRYPT_SUCCESS, "refused");
}

/* ---- the tag set for verification ---- */
static uint32_t g_vlen, g_oldVlen, g_nlen, g_max;
static bool g_null, g_enc2, g_ctxOk, g_outOk;
#define K_SETTAG(REQ, ENS) \
    REQ("buffers", g_max <= 16) \
    ENS("a tag is set only for decryption, present and of at most the largest size", (VP_RET == CRYPT_SUCCESS) == (!g_enc2 && !g_null && g_nlen > 0 && g_nlen <= g_max)) \
    ENS("the tag set is the caller's", VP_IMP(VP_RET == CRYPT_SUCCESS, g_vlen == g_nlen && VP_IMP(g_k < g_nlen, c_vfy[g_k] == c_newTag[g_k]))) \
    ENS("otherwise the one set before stays", VP_IMP(VP_RET != CRYPT_SUCCESS, g_vlen == g_oldVlen && VP_IMP(g_k < 16, c_vfy[g_k] == c_old[g_k])))
int32_t MODES_SetVfyTag(uint8_t *vfyTag, uint32_t *vfyTagLen, uint32_t maxTagLen, const uint8_t *tag, uint32_t inputTagLen, bool enc)
    VP_CONTRACT(K_SETTAG, g_vlen; __CPROVER_object_whole(c_vfy));
static void tags(void)
{
    VP_BYTES(c_vfy, 16); VP_BYTES(c_newTag, 16); VP_BYTES(c_tag, 16);
    for (uint32_t i = 0; i < 16; i++) c_old[i] = c_vfy[i];
    g_k = vp_u32(); g_vlen = vp_range(0, 16); g_oldVlen = g_vlen; g_nlen = vp_u32(); g_max = vp_range(0, 16);
}
void h_settag(void)
{
    tags();
    g_null = vp_bool();
    g_enc2 = vp_bool();
    int32_t r;
    VP_CALL(K_SETTAG, r, MODES_SetVfyTag(c_vfy, &g_vlen, g_max, g_null ? NULL : c_newTag, g_nlen, g_enc2));
    VP_REACH(r == CRYPT_SUCCESS && g_nlen == 16, "set");
    VP_REACH(r != CRYPT_SUCCESS, "refused");
}
static uint8_t c_buf[16], c_actx;
int32_t tagC(void *ctx, uint8_t *val, uint32_t len)
{
    G.calls++;
    if (ctx != &c_actx || val != c_buf || len != g_vlen) G.args = false;
    if (G.ret[0] == CRYPT_SUCCESS) {
        for (uint32_t i = 0; i < 16; i++) { if (i < len) val[i] = c_tag[i]; }
    }
    return G.ret[0];
}
static bool same(uint32_t n) { bool e = true; for (uint32_t i = 0; i < 16; i++) { if (i < n && c_tag[i] != c_vfy[i]) e = false; } return e; }
#define K_CHKTAG(REQ, ENS) \
    REQ("tag", g_vlen <= 16) \
    ENS("decryption succeeds exactly when the computed tag equals the one set, every byte of it", VP_IMP(!g_enc2 && g_ctxOk && g_outOk, (VP_RET == CRYPT_SUCCESS) == (G.calls == 1 && G.args && G.ret[0] == CRYPT_SUCCESS && same(g_vlen)))) \
    ENS("encryption has no tag to verify", VP_IMP(g_enc2 && g_ctxOk && g_outOk, VP_RET == CRYPT_SUCCESS && G.calls == 0)) \
    ENS("no output at finalisation", VP_IMP(g_ctxOk && g_outOk, g_outLen == 0)) \
    ENS("a missing argument is refused", VP_IMP(!g_ctxOk || !g_outOk, VP_RET != CRYPT_SUCCESS))
int32_t MODES_AeadCheckTag(bool enc, void *ctx, uint8_t *out, uint32_t *outLen, const uint8_t *vfyTag, uint32_t vfyTagLen, uint8_t *tagBuf, MODES_AeadGetTag getTag)
    VP_CONTRACT(K_CHKTAG, g_outLen; __CPROVER_object_whole(c_buf); __CPROVER_object_whole(&G));
void h_checktag(void)
{
    tags(); G = z_G; G.args = true; G.ret[0] = vp_i32();
    g_enc2 = vp_bool(); g_outLen = vp_u32();
    g_ctxOk = vp_bool(); g_outOk = vp_bool();
    int32_t r;
    VP_CALL(K_CHKTAG, r, MODES_AeadCheckTag(g_enc2, g_ctxOk ? &c_actx : NULL, g_outOk ? c_out : NULL, &g_outLen, c_vfy, g_vlen, c_buf, tagC));
    VP_REACH(r == CRYPT_SUCCESS && !g_enc2 && g_vlen == 16, "tag accepted");
    VP_REACH(r != CRYPT_SUCCESS && !g_enc2 && G.calls == 1 && G.ret[0] == CRYPT_SUCCESS, "tag refused");
}
