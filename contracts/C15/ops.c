/* RSA operations: which bytes go through the key operation, and whose verdict is returned. */
/*@defaults
src:
object_bits: 9
solver: minisat2
unwind: 140
assume: big-number arithmetic is a callee contract (arbitrary results); the encodings are proved in padding.c
*/
#define VP_OWN_SAL_MEM
#define VP_OWN_CLEANSE
#include "vp.h"
#ifdef VP_CBMC
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#endif
#include "crypto/rsa/src/rsa_encdec.c"

static struct {
    uint32_t allocs, frees, enc, dec, checks, sets, bins, cmps, exps, outs, bnDestroys;
    int32_t cmp, verdict, encRet, setRet, binRet, expRet, outRet;
    bool allocOk, args;
    const uint8_t *pad;
    int kind;
} G;
static const __typeof__(G) z_G;
static const CRYPT_RSA_Ctx z_rsa;
static CRYPT_RSA_Ctx c_rsa;
static CRYPT_RSA_PubKey c_pub;
static CRYPT_RSA_PrvKey c_prv;
static uint8_t c_heap[16], c_sig[16], c_data[64], c_out[16], c_lbl[2];
static uint32_t g_bits, g_sigLen, g_dataLen, g_hLen, g_outLen, g_oldLen, g_lblLen;
static uint8_t c_mdCtx, c_mgfCtx;
enum { K_NONE, K_V15, K_PSS, K_ISO, K_OAEP, K_T2, K_T2TLS, K_UNPACK };

void *BSL_SAL_Malloc(uint32_t n) { (void)n; G.allocs++; return G.allocOk ? c_heap : NULL; }
void *BSL_SAL_Calloc(uint32_t a, uint32_t b) { (void)a; (void)b; return NULL; }
void BSL_SAL_Free(void *p) { (void)p; G.frees++; }
void BSL_SAL_ClearFree(void *p, uint32_t n) { (void)p; (void)n; G.frees++; }
void BSL_SAL_CleanseData(void *p, uint32_t n) { (void)p; (void)n; }
uint32_t CRYPT_RSA_GetBits(const CRYPT_RSA_Ctx *c) { (void)c; return g_bits; }
uint32_t CRYPT_GetMdSizeById(CRYPT_MD_AlgId id) { (void)id; return g_hLen; }
#define KB ((g_bits + 7) / 8)
static int32_t verdict(int k, bool ok) { G.checks++; G.kind = k; if (!ok) G.args = false; return G.verdict; }
int32_t CRYPT_RSA_VerifyPkcsV15Type1(CRYPT_MD_AlgId id, const uint8_t *pad, uint32_t padLen, const uint8_t *data, uint32_t dataLen)
{
    return verdict(K_V15, id == c_rsa.pad.para.pkcsv15.mdId && pad == c_heap && padLen == KB && data == c_data && dataLen == g_dataLen);
}
int32_t CRYPT_RSA_VerifyPss(CRYPT_RSA_Ctx *ctx, const EAL_MdMethod *h, const EAL_MdMethod *m, uint32_t saltLen, const uint8_t *data, uint32_t dataLen, const uint8_t *pad, uint32_t padLen)
{
    return verdict(K_PSS, ctx == &c_rsa && h == &c_rsa.pad.para.pss.mdMeth && m == &c_rsa.pad.para.pss.mgfMeth && saltLen == (uint32_t)c_rsa.pad.para.pss.saltLen &&
        pad == c_heap && padLen == KB && data == c_data && dataLen == g_dataLen);
}
int32_t CRYPT_RSA_VerifyIso9796_2(const uint8_t *d, uint32_t n, const uint8_t *pad, uint32_t padLen)
{
    return verdict(K_ISO, d == c_data && n == g_dataLen && pad == c_heap && padLen == KB);
}
int32_t CRYPT_RSA_VerifyPkcs1Oaep(RSA_PadingPara *p, const uint8_t *in, uint32_t inLen, const uint8_t *param, uint32_t paramLen, uint8_t *msg, uint32_t *msgLen)
{
    return verdict(K_OAEP, p == &c_rsa.pad.para.oaep && in == c_heap && inLen == KB && param == c_rsa.label.data && paramLen == c_rsa.label.len && msg == c_out && msgLen == &g_outLen);
}
int32_t CRYPT_RSA_VerifyPkcsV15Type2(const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen) { return verdict(K_T2, in == c_heap && inLen == KB && out == c_out && outLen == &g_outLen); }
int32_t CRYPT_RSA_VerifyPkcsV15Type2TLS(const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen) { return verdict(K_T2TLS, in == c_heap && inLen == KB && out == c_out && outLen == &g_outLen); }
int32_t CRYPT_RSA_UnPackPkcsV15Type1(CRYPT_MD_AlgId id, const uint8_t *em, uint32_t emLen, uint8_t *out, uint32_t *outLen)
{
    return verdict(K_UNPACK, id == c_rsa.pad.para.pkcsv15.mdId && em == c_heap && emLen == KB && out == c_out && outLen == &g_outLen);
}
static int32_t setPad(int k, bool ok) { G.sets++; G.kind = k; if (!ok) G.args = false; return G.setRet; }
int32_t CRYPT_RSA_SetPkcsV15Type1(CRYPT_MD_AlgId id, const uint8_t *data, uint32_t dataLen, uint8_t *pad, uint32_t padLen)
{
    return setPad(K_V15, id == c_rsa.pad.para.pkcsv15.mdId && pad == c_heap && padLen == KB && data == c_data && dataLen == g_dataLen);
}
int32_t CRYPT_RSA_SetPss(CRYPT_RSA_Ctx *ctx, const EAL_MdMethod *h, const EAL_MdMethod *m, uint32_t saltLen, const uint8_t *data, uint32_t dataLen, uint8_t *pad, uint32_t padLen)
{
    return setPad(K_PSS, ctx == &c_rsa && h == &c_rsa.pad.para.pss.mdMeth && m == &c_rsa.pad.para.pss.mgfMeth && saltLen == (uint32_t)c_rsa.pad.para.pss.saltLen &&
        pad == c_heap && padLen == KB && data == c_data && dataLen == g_dataLen);
}
int32_t CRYPT_RSA_SetIso9796_2(const uint8_t *d, uint32_t n, uint8_t *pad, uint32_t padLen) { return setPad(K_ISO, d == c_data && n == g_dataLen && pad == c_heap && padLen == KB); }
int32_t CRYPT_RSA_SetPkcsV15Type2(void *l, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t outLen) { (void)l; return setPad(K_T2, in == c_data && inLen == g_dataLen && out == c_heap && outLen == KB); }
int32_t CRYPT_RSA_SetPkcs1Oaep(CRYPT_RSA_Ctx *ctx, const uint8_t *in, uint32_t inLen, uint8_t *pad, uint32_t padLen) { return setPad(K_OAEP, ctx == &c_rsa && in == c_data && inLen == g_dataLen && pad == c_heap && padLen == KB); }

/* key operations as callee contracts (their own contract: unit public_op) */
int32_t PubEncC(const CRYPT_RSA_Ctx *ctx, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    G.enc++;
    if (ctx != &c_rsa || *outLen < KB) G.args = false;
    G.pad = in;
    (void)inLen;
    if (G.encRet != CRYPT_SUCCESS) return G.encRet;
    if (out == c_heap && (in != c_sig || inLen != g_sigLen)) G.args = false;
    if (out == c_out && (in != c_heap || inLen != KB)) G.args = false;
    *outLen = KB;
    return CRYPT_SUCCESS;
}
int32_t PrvDecC(const CRYPT_RSA_Ctx *ctx, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    G.dec++;
    if (ctx != &c_rsa || *outLen < KB) G.args = false;
    if (G.encRet != CRYPT_SUCCESS) return G.encRet;
    if (out == c_heap && (in != c_sig || inLen != g_sigLen)) G.args = false;
    if (out == c_out && (in != c_heap || inLen != KB)) G.args = false;
    *outLen = KB;
    return CRYPT_SUCCESS;
}
static void draw(void)
{
    G = z_G;
    c_rsa = z_rsa;
    G.args = true;
    G.allocOk = vp_bool(); G.verdict = vp_i32(); G.encRet = vp_i32(); G.setRet = vp_i32();
    g_bits = vp_range(512, 16384); g_sigLen = vp_u32(); g_dataLen = vp_u32(); g_hLen = vp_range(0, 64); g_outLen = vp_u32(); g_oldLen = g_outLen;
    c_rsa.pubKey = vp_bool() ? &c_pub : NULL;
    c_rsa.prvKey = vp_bool() ? &c_prv : NULL;
    c_rsa.pad.type = (RSA_PadType)vp_range(0, 8);
    if (c_rsa.pad.type == EMSA_PKCSV15 || c_rsa.pad.type == RSAES_PKCSV15) {
        c_rsa.pad.para.pkcsv15.mdId = (CRYPT_MD_AlgId)vp_i32();
    } else {
        c_rsa.pad.para.pss.saltLen = vp_i32();
        c_rsa.pad.para.pss.mdMeth.id = vp_i32();
        c_rsa.pad.para.pss.mdMeth.mdSize = (uint16_t)g_hLen;
    }
    c_rsa.label.data = c_lbl; c_rsa.label.len = vp_range(0, 2);
}
#ifdef C_VERIFY
/*@unit
name: verify_data
def: C_VERIFY
entry: h_verify
enforce: CRYPT_RSA_VerifyData
swap: CRYPT_RSA_PubEnc:PubEncC
*/
static bool vOk(int t)
{
    if (c_rsa.pad.type != (RSA_PadType)t || G.kind != (t == EMSA_PKCSV15 ? K_V15 : t == EMSA_PSS ? K_PSS : K_ISO)) return false;
    return t == EMSA_ISO9796_2 ? g_dataLen == KB - 2 && KB >= g_hLen + 2 : g_dataLen == g_hLen;
}
#define K_VD(REQ, ENS) \
  ENS("a signature verifies only if it has the length of the modulus and its public-key image passes the check of the configured padding over that digest", \
      VP_IMP(VP_RET == CRYPT_SUCCESS, c_rsa.pubKey != NULL && g_sigLen == KB && G.enc == 1 && G.encRet == CRYPT_SUCCESS && G.checks == 1 && G.verdict == CRYPT_SUCCESS && G.args && \
      (vOk(EMSA_PKCSV15) || vOk(EMSA_PSS) || vOk(EMSA_ISO9796_2)))) \
  ENS("a signature that passes is accepted", VP_IMP(G.enc == 1 && G.encRet == CRYPT_SUCCESS && G.checks == 1, VP_RET == G.verdict)) \
  ENS("a signature of the right length over a digest of the right length is checked", VP_IMP(c_rsa.pubKey != NULL && G.allocOk && g_sigLen == KB && \
      ((c_rsa.pad.type == EMSA_PKCSV15 && g_dataLen == g_hLen) || (c_rsa.pad.type == EMSA_PSS && g_dataLen == g_hLen && c_rsa.pad.para.pss.mdMeth.id != 0)) && G.encRet == CRYPT_SUCCESS, G.checks == 1))
int32_t CRYPT_RSA_VerifyData(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t dataLen, const uint8_t *sign, uint32_t signLen)
    VP_CONTRACT(K_VD, __CPROVER_object_whole(&G));
void h_verify(void)
{
    int32_t r;
    draw();
    VP_CALL(K_VD, r, CRYPT_RSA_VerifyData(&c_rsa, c_data, g_dataLen, c_sig, g_sigLen));
    VP_REACH(r == CRYPT_SUCCESS && c_rsa.pad.type == EMSA_PSS, "PSS accepted");
    VP_REACH(r == CRYPT_SUCCESS && c_rsa.pad.type == EMSA_PKCSV15, "PKCS1 accepted");
}
#endif
#ifdef C_SIGN
/*@unit
name: sign_data
def: C_SIGN
entry: h_sign
enforce: CRYPT_RSA_SignData
swap: CRYPT_RSA_PrvDec:PrvDecC
*/
#define K_SD(REQ, ENS) \
  ENS("a signature is produced only over the configured encoding of a digest of the right length", \
      VP_IMP(VP_RET == CRYPT_SUCCESS, c_rsa.prvKey != NULL && g_oldLen >= KB && G.sets == 1 && G.setRet == CRYPT_SUCCESS && G.dec == 1 && G.encRet == CRYPT_SUCCESS && G.args && g_outLen == KB && \
      ((c_rsa.pad.type == EMSA_PKCSV15 && G.kind == K_V15 && g_dataLen == g_hLen) || (c_rsa.pad.type == EMSA_PSS && G.kind == K_PSS && g_dataLen == g_hLen) || \
       (c_rsa.pad.type == EMSA_ISO9796_2 && G.kind == K_ISO && g_dataLen == KB - 2)))) \
  ENS("nothing that could not be encoded goes through the private key", VP_IMP(G.sets != 1 || G.setRet != CRYPT_SUCCESS, G.dec == 0))
int32_t CRYPT_RSA_SignData(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t dataLen, uint8_t *sign, uint32_t *signLen)
    VP_CONTRACT(K_SD, __CPROVER_object_whole(&G); g_outLen);
void h_sign(void)
{
    int32_t r;
    draw();
    VP_CALL(K_SD, r, CRYPT_RSA_SignData(&c_rsa, c_data, g_dataLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && c_rsa.pad.type == EMSA_PSS, "signed");
}
#endif
#ifdef C_DEC
/*@unit
name: decrypt
def: C_DEC
entry: h_dec
enforce: CRYPT_RSA_Decrypt
swap: CRYPT_RSA_PrvDec:PrvDecC
*/
#define K_DEC(REQ, ENS) \
  REQ("padding modes that check the encoding", c_rsa.pad.type != RSA_NO_PAD) \
  ENS("a plaintext is released only by the configured check over the private-key image of the ciphertext", \
      VP_IMP(VP_RET == CRYPT_SUCCESS, c_rsa.prvKey != NULL && G.dec == 1 && G.encRet == CRYPT_SUCCESS && G.checks == 1 && G.verdict == CRYPT_SUCCESS && G.args && \
      ((c_rsa.pad.type == RSAES_OAEP && G.kind == K_OAEP) || (c_rsa.pad.type == RSAES_PKCSV15 && G.kind == K_T2) || (c_rsa.pad.type == RSAES_PKCSV15_TLS && G.kind == K_T2TLS)))) \
  ENS("the verdict of the check is returned", VP_IMP(G.checks == 1, VP_RET == G.verdict))
int32_t CRYPT_RSA_Decrypt(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t dataLen, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_DEC, __CPROVER_object_whole(&G); g_outLen);
void h_dec(void)
{
    int32_t r;
    draw();
    VP_ASSUME(c_rsa.pad.type != RSA_NO_PAD);
    VP_CALL(K_DEC, r, CRYPT_RSA_Decrypt(&c_rsa, c_sig, g_sigLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && c_rsa.pad.type == RSAES_OAEP, "OAEP");
    VP_REACH(r == CRYPT_SUCCESS && c_rsa.pad.type == RSAES_PKCSV15_TLS, "TLS");
}
#endif
#ifdef C_ENC
/*@unit
name: encrypt
def: C_ENC
entry: h_enc
enforce: CRYPT_RSA_Encrypt
swap: CRYPT_RSA_PubEnc:PubEncC
*/
#define K_ENC(REQ, ENS) \
  REQ("padding modes that encode", c_rsa.pad.type != RSA_NO_PAD) \
  ENS("only a message in the configured encoding is encrypted", \
      VP_IMP(VP_RET == CRYPT_SUCCESS, c_rsa.pubKey != NULL && G.sets == 1 && G.setRet == CRYPT_SUCCESS && G.enc == 1 && G.encRet == CRYPT_SUCCESS && G.pad == c_heap && \
      ((c_rsa.pad.type == RSAES_OAEP && G.kind == K_OAEP) || ((c_rsa.pad.type == RSAES_PKCSV15 || c_rsa.pad.type == RSAES_PKCSV15_TLS) && G.kind == K_T2)))) \
  ENS("nothing that could not be encoded is encrypted", VP_IMP(G.sets != 1 || G.setRet != CRYPT_SUCCESS, G.enc == 0))
int32_t CRYPT_RSA_Encrypt(CRYPT_RSA_Ctx *ctx, const uint8_t *data, uint32_t dataLen, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_ENC, __CPROVER_object_whole(&G); g_outLen);
void h_enc(void)
{
    int32_t r;
    draw();
    VP_ASSUME(c_rsa.pad.type != RSA_NO_PAD);
    VP_CALL(K_ENC, r, CRYPT_RSA_Encrypt(&c_rsa, c_data, g_dataLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && c_rsa.pad.type == RSAES_OAEP, "OAEP");
}
#endif
#ifdef C_PUB
/*@unit
name: public_op
def: C_PUB
entry: h_pub
enforce: CRYPT_RSA_PubEnc
*/
/* big numbers are opaque; identities are checked */
static uint8_t b_in, b_res, b_n, b_e, b_mont, b_opt;
static bool g_c1, g_c2, g_optOk;
BN_BigNum *BN_Create(uint32_t bits) { if (bits == g_bits + 1) return g_c1 ? (BN_BigNum *)&b_res : NULL; if (bits != g_bits) G.args = false; return g_c2 ? (BN_BigNum *)&b_in : NULL; }
void BN_Destroy(BN_BigNum *a) { (void)a; G.bnDestroys++; }
BN_Optimizer *BN_OptimizerCreate(void) { return g_optOk ? (BN_Optimizer *)&b_opt : NULL; }
void BN_OptimizerDestroy(BN_Optimizer *o) { (void)o; }
int32_t BN_Bin2Bn(BN_BigNum *r, const uint8_t *b, uint32_t n) { G.bins++; if (r != (BN_BigNum *)&b_in || b != c_sig || n != g_sigLen) G.args = false; return G.binRet; }
int32_t BN_Cmp(const BN_BigNum *a, const BN_BigNum *b) { G.cmps++; if (a != (BN_BigNum *)&b_in || b != (BN_BigNum *)&b_n) G.args = false; return G.cmp; }
int32_t BN_MontExp(BN_BigNum *r, const BN_BigNum *a, const BN_BigNum *e, BN_Mont *m, BN_Optimizer *o)
{
    G.exps++;
    if (r != (BN_BigNum *)&b_res || a != (BN_BigNum *)&b_in || e != (BN_BigNum *)&b_e || m != (BN_Mont *)&b_mont || o != (BN_Optimizer *)&b_opt) G.args = false;
    return G.expRet;
}
int32_t BN_Bn2BinFixZero(const BN_BigNum *a, uint8_t *bin, uint32_t n) { G.outs++; if (a != (BN_BigNum *)&b_res || bin != c_out || n != KB) G.args = false; return G.outRet; }
#define K_PE(REQ, ENS) \
  ENS("the public-key image is input^e mod n of an input below n, written over exactly the modulus length", \
      VP_IMP(VP_RET == CRYPT_SUCCESS, c_rsa.pubKey != NULL && g_oldLen >= KB && G.bins == 1 && G.cmps == 1 && G.cmp < 0 && G.exps == 1 && G.outs == 1 && G.args && g_outLen == KB && \
      G.binRet == CRYPT_SUCCESS && G.expRet == CRYPT_SUCCESS && G.outRet == CRYPT_SUCCESS)) \
  ENS("an input not below n is refused before the exponentiation", VP_IMP(G.cmps == 1 && G.cmp >= 0, VP_RET != CRYPT_SUCCESS && G.exps == 0)) \
  ENS("a valid input succeeds", VP_IMP(c_rsa.pubKey != NULL && g_oldLen >= KB && g_c1 && g_c2 && g_optOk && G.binRet == CRYPT_SUCCESS && G.cmp < 0 && G.expRet == CRYPT_SUCCESS && G.outRet == CRYPT_SUCCESS, VP_RET == CRYPT_SUCCESS))
int32_t CRYPT_RSA_PubEnc(const CRYPT_RSA_Ctx *ctx, const uint8_t *input, uint32_t inputLen, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_PE, __CPROVER_object_whole(&G); g_outLen);
void h_pub(void)
{
    int32_t r;
    draw();
    c_pub.n = (BN_BigNum *)&b_n; c_pub.e = (BN_BigNum *)&b_e; c_pub.mont = (BN_Mont *)&b_mont;
    G.cmp = vp_i32(); G.binRet = vp_i32(); G.expRet = vp_i32(); G.outRet = vp_i32();
    g_c1 = vp_bool(); g_c2 = vp_bool(); g_optOk = vp_bool();
    VP_CALL(K_PE, r, CRYPT_RSA_PubEnc(&c_rsa, c_sig, g_sigLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS, "done");
    VP_REACH(G.cmps == 1 && G.cmp == 0, "input equal to n");
}
#endif
