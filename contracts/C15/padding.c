/* RSA message encodings (RFC 8017): EMSA-PKCS1-v1_5, EMSA-PSS, EME-PKCS1-v1_5, EME-OAEP. */
/*@defaults
src:
object_bits: 9
solver: minisat2
level: bounded
assume: hash, mask generation and random generation are callee contracts: they may fail, and on success yield arbitrary output of the requested length
*/
#define VP_OWN_SAL_MEM
#define VP_OWN_CLEANSE
#include "vp.h"
#ifdef VP_CBMC
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
void *memmove(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
void *memset(void *d, int c, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = (char)c; return d; }
int memcmp(const void *a, const void *b, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char *)a)[i] != ((const unsigned char *)b)[i]) return 1; return 0; }
#endif
#include "crypto/rsa/src/rsa_padding.c"

#ifndef BUF
#define BUF 100
#endif
static struct { uint32_t allocs, frees, rnd, hashes, mgfs, rnd1; bool allocOk, rndOk, hashOk, mgfOk, args; } G;
static const __typeof__(G) z_G;
static const CRYPT_RSA_Ctx z_rsa;
static const RSA_PadingPara z_para;
static uint8_t c_heap[BUF], c_heap2[BUF];
static uint8_t c_data[BUF], c_pad[BUF], c_out[BUF], c_old[BUF], c_rnd[BUF], c_rnd1[2], c_hash[BUF], c_m1[BUF], c_m2[BUF], c_exp[BUF];
static uint32_t g_padLen, g_dataLen, g_outLen, g_k, g_oldLen;
static int32_t g_id;

void *BSL_SAL_Malloc(uint32_t n)
{
    G.allocs++;
    if (!G.allocOk || n > BUF) return NULL;
    return G.allocs == 1 ? c_heap : c_heap2;
}
void *BSL_SAL_Dump(const void *s, uint32_t n)
{
    if (s == NULL || n == 0) return NULL;
    uint8_t *p = BSL_SAL_Malloc(n);
    if (p == NULL) return NULL;
    for (uint32_t i = 0; i < BUF; i++) if (i < n) p[i] = ((const uint8_t *)s)[i];
    return p;
}
void *BSL_SAL_Calloc(uint32_t a, uint32_t b) { (void)a; (void)b; return NULL; }
void BSL_SAL_Free(void *p) { (void)p; G.frees++; }
void BSL_SAL_ClearFree(void *p, uint32_t n) { (void)p; (void)n; G.frees++; }
void BSL_SAL_CleanseData(void *p, uint32_t n) { for (uint32_t i = 0; i < BUF; i++) if (i < n) ((uint8_t *)p)[i] = 0; }

/* random bytes are c_rnd; single replacement bytes c_rnd1 (the second attempt at one position is not zero) */
int32_t CRYPT_RandEx(void *lib, uint8_t *p, uint32_t n)
{
    (void)lib;
    if (!G.rndOk) return CRYPT_NO_REGIST_RAND;
#ifdef TYPE2
    if (n == 1 && G.rnd > 0) { *p = c_rnd1[G.rnd1 & 1]; G.rnd1++; return CRYPT_SUCCESS; }
#endif
    G.rnd++;
    for (uint32_t i = 0; i < BUF; i++) if (i < n) p[i] = c_rnd[i];
    return CRYPT_SUCCESS;
}

/* ---------------------------------------------------------------- EMSA-PKCS1-v1_5 */
#ifdef TYPE1
#define T(n, ...) static const uint8_t n[] = { __VA_ARGS__ };
T(t_md5, 0x30, 0x20, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10)
T(t_sha1, 0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14)
T(t_sha2, 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20)
T(t_sm3, 0x30, 0x30, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 0x01, 0x83, 0x11, 0x05, 0x00, 0x04, 0x20)
static bool sha2(int32_t id) { return id == CRYPT_MD_SHA224 || id == CRYPT_MD_SHA256 || id == CRYPT_MD_SHA384 || id == CRYPT_MD_SHA512; }
static uint32_t tLen(int32_t id)
{
    return id == CRYPT_MD_MD5 ? 18 : id == CRYPT_MD_SHA1 ? 15 : id == CRYPT_MD_SM3 ? 18 : sha2(id) ? 19 : 0;
}
/* DigestInfo prefix (RFC 8017 9.2 note 1): the SHA-2 ones differ in length octets and the last arc */
static uint8_t tByte(int32_t id, uint32_t i)
{
    if (id == CRYPT_MD_MD5) return t_md5[i];
    if (id == CRYPT_MD_SHA1) return t_sha1[i];
    if (id == CRYPT_MD_SM3) return t_sm3[i];
    uint8_t h = id == CRYPT_MD_SHA224 ? 28 : id == CRYPT_MD_SHA256 ? 32 : id == CRYPT_MD_SHA384 ? 48 : 64;
    if (i == 1) return (uint8_t)(17 + h);
    if (i == 14) return id == CRYPT_MD_SHA224 ? 4 : id == CRYPT_MD_SHA256 ? 1 : id == CRYPT_MD_SHA384 ? 2 : 3;
    if (i == 18) return h;
    return t_sha2[i];
}
static uint8_t emByte(int32_t id, uint32_t padLen, uint32_t dataLen, uint32_t i)
{
    uint32_t t = tLen(id), ps = padLen - dataLen - t - 3;
    if (i == 0) return 0;
    if (i == 1) return 1;
    if (i < 2 + ps) return 0xff;
    if (i == 2 + ps) return 0;
    if (i < 3 + ps + t) return tByte(id, i - 3 - ps);
    return c_data[i - 3 - ps - t];
}
static bool t1Ok(void) { return tLen(g_id) != 0 && g_dataLen != 0 && g_padLen >= tLen(g_id) + g_dataLen + 11; }
static void draw1(void)
{
    G = z_G;
    G.allocOk = true;
    g_id = vp_i32();
    VP_BYTES(c_data, sizeof(c_data)); VP_BYTES(c_pad, sizeof(c_pad)); VP_BYTES(c_out, sizeof(c_out));
    g_padLen = vp_range(PADMIN, PADMAX); g_dataLen = vp_range(DATAMIN, DATAMAX); g_k = vp_range(0, PADMAX - 1); g_outLen = vp_range(0, BUF);
}
#endif

#ifdef C_T1SET
/*@unit
name: pkcs1_encode_small
keep: crypto/rsa/src/rsa_padding.c .*TInfo
def: TYPE1 C_T1SET PADMIN=1 PADMAX=34 DATAMIN=0 DATAMAX=4
entry: h_t1set
enforce: CRYPT_RSA_SetPkcsV15Type1
unwind: 102
bound: encoded messages of at most 34 bytes, digests of at most 4
*/
/*@unit
name: pkcs1_encode_sha256
tier: thorough
keep: crypto/rsa/src/rsa_padding.c .*TInfo
def: TYPE1 C_T1SET PADMIN=96 PADMAX=96 DATAMIN=32 DATAMAX=32
entry: h_t1set
enforce: CRYPT_RSA_SetPkcsV15Type1
unwind: 102
bound: 96-byte encoded messages, 32-byte digests
*/
/*@unit
name: pkcs1_encode_sha512
keep: crypto/rsa/src/rsa_padding.c .*TInfo
def: TYPE1 C_T1SET PADMIN=96 PADMAX=96 DATAMIN=64 DATAMAX=64
entry: h_t1set
enforce: CRYPT_RSA_SetPkcsV15Type1
unwind: 102
bound: 96-byte encoded messages, 64-byte digests
*/
#define K_T1(REQ, ENS) \
  ENS("a message is encoded exactly if the hash is known and at least eight padding bytes fit", (VP_RET == CRYPT_SUCCESS) == t1Ok()) \
  ENS("the encoding is 00 01 FF..FF 00 DigestInfo prefix of that hash and the digest", VP_IMP(VP_RET == CRYPT_SUCCESS && g_k < g_padLen, c_pad[g_k] == emByte(g_id, g_padLen, g_dataLen, g_k)))
int32_t CRYPT_RSA_SetPkcsV15Type1(CRYPT_MD_AlgId hashId, const uint8_t *data, uint32_t dataLen, uint8_t *pad, uint32_t padLen)
    VP_CONTRACT(K_T1, __CPROVER_object_whole(c_pad));
void h_t1set(void)
{
    draw1();
    int32_t r;
    VP_CALL(K_T1, r, CRYPT_RSA_SetPkcsV15Type1(g_id, c_data, g_dataLen, c_pad, g_padLen));
    VP_REACH(r == CRYPT_SUCCESS && g_id == CRYPT_MD_SHA384, "encoded");
    #if PADMIN == 1
    VP_REACH(r == CRYPT_RSA_BUFF_LEN_NOT_ENOUGH, "too short");
#endif
}
#endif

#ifdef C_T1VER
/*@unit
name: pkcs1_verify_small
keep: crypto/rsa/src/rsa_padding.c .*TInfo
def: TYPE1 C_T1VER PADMIN=1 PADMAX=34 DATAMIN=0 DATAMAX=4
entry: h_t1ver
enforce: CRYPT_RSA_VerifyPkcsV15Type1
unwind: 102
bound: encoded messages of at most 34 bytes, digests of at most 4
*/
/*@unit
name: pkcs1_verify_sha256
keep: crypto/rsa/src/rsa_padding.c .*TInfo
def: TYPE1 C_T1VER PADMIN=96 PADMAX=96 DATAMIN=32 DATAMAX=32
entry: h_t1ver
enforce: CRYPT_RSA_VerifyPkcsV15Type1
unwind: 102
bound: 96-byte encoded messages, 32-byte digests
*/
/*@unit
name: pkcs1_verify_sha512
tier: thorough
keep: crypto/rsa/src/rsa_padding.c .*TInfo
def: TYPE1 C_T1VER PADMIN=96 PADMAX=96 DATAMIN=64 DATAMAX=64
entry: h_t1ver
enforce: CRYPT_RSA_VerifyPkcsV15Type1
unwind: 102
bound: 96-byte encoded messages, 64-byte digests
*/
static bool g_eq;
#define K_T1V(REQ, ENS) \
  ENS("a signature encoding is accepted exactly if it is the one encoding of that hash and digest, byte for byte", \
      VP_IMP(G.allocOk, (VP_RET == CRYPT_SUCCESS) == (t1Ok() && g_eq))) \
  ENS("without memory nothing is accepted", VP_IMP(!G.allocOk, VP_RET != CRYPT_SUCCESS))
int32_t CRYPT_RSA_VerifyPkcsV15Type1(CRYPT_MD_AlgId hashId, const uint8_t *pad, uint32_t padLen, const uint8_t *data, uint32_t dataLen)
    VP_CONTRACT(K_T1V, __CPROVER_object_whole(c_heap); __CPROVER_object_whole(&G));
void h_t1ver(void)
{
    draw1();
    G.allocOk = vp_bool();
    g_eq = false;
    if (t1Ok()) {
        g_eq = true;
        for (uint32_t i = 0; i < PADMAX; i++) if (i < g_padLen && c_pad[i] != emByte(g_id, g_padLen, g_dataLen, i)) g_eq = false;
    }
    int32_t r;
    VP_CALL(K_T1V, r, CRYPT_RSA_VerifyPkcsV15Type1(g_id, c_pad, g_padLen, c_data, g_dataLen));
    VP_REACH(r == CRYPT_SUCCESS && g_id == CRYPT_MD_SHA256, "accepted");
    VP_REACH(r == CRYPT_RSA_NOR_VERIFY_FAIL, "refused");
}
#endif

#ifdef C_T1UN
/*@unit
name: pkcs1_recover
def: TYPE1 C_T1UN BUF=28 HMAX=20 PADMIN=1 PADMAX=28 DATAMIN=0 DATAMAX=20
entry: h_t1un
enforce: CRYPT_RSA_UnPackPkcsV15Type1
swap: CRYPT_RSA_VerifyPkcsV15Type1:VerifyType1C
unwind: 30
bound: encoded messages of at most 28 bytes, digests of at most 20
*/
static uint32_t g_h;
static bool g_eq;
uint32_t CRYPT_GetMdSizeById(CRYPT_MD_AlgId id) { (void)id; return g_h; }
int32_t VerifyType1C(CRYPT_MD_AlgId hashId, const uint8_t *pad, uint32_t padLen, const uint8_t *data, uint32_t dataLen)
{
    G.hashes++;
    if ((int32_t)hashId != g_id || pad != c_pad || padLen != g_padLen || data != c_pad + (g_padLen - g_h) || dataLen != g_h) G.args = false;
    return g_eq ? CRYPT_SUCCESS : CRYPT_RSA_NOR_VERIFY_FAIL;
}
#define K_T1U(REQ, ENS) \
  ENS("a digest is recovered exactly from the well-formed encodings that fit the output", (VP_RET == CRYPT_SUCCESS) == (g_h != 0 && g_h <= g_padLen && g_eq && g_oldLen >= g_h)) \
  ENS("the encoding was checked against its own trailing digest", VP_IMP(VP_RET == CRYPT_SUCCESS, G.hashes == 1 && G.args)) \
  ENS("the recovered bytes are the digest", VP_IMP(VP_RET == CRYPT_SUCCESS, g_outLen == g_h && VP_IMP(g_k < g_h, c_out[g_k] == c_pad[g_padLen - g_h + g_k]))) \
  ENS("a refusal releases nothing", VP_IMP(VP_RET != CRYPT_SUCCESS, g_outLen == g_oldLen && c_out[g_k] == c_old[g_k]))
int32_t CRYPT_RSA_UnPackPkcsV15Type1(CRYPT_MD_AlgId mdId, const uint8_t *emMsg, uint32_t emLen, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_T1U, __CPROVER_object_whole(&G); __CPROVER_object_whole(c_out); g_outLen);
void h_t1un(void)
{
    draw1();
    G.args = true;
    for (uint32_t i = 0; i < sizeof(c_out); i++) c_old[i] = c_out[i];
    g_oldLen = g_outLen;
    g_h = vp_range(0, HMAX);
    g_eq = vp_bool();
    int32_t r;
    VP_CALL(K_T1U, r, CRYPT_RSA_UnPackPkcsV15Type1(g_id, c_pad, g_padLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS, "recovered");
    VP_REACH(r == CRYPT_RSA_NOR_VERIFY_FAIL, "refused");
}
#endif

/* ---------------------------------------------------------------- EME-PKCS1-v1_5 */
#ifdef TYPE2
static uint32_t g_zero;   /* index of the first zero at or after 2; g_padLen if none */
static bool t2Ok(void) { return c_pad[0] == 0 && c_pad[1] == 2 && g_zero < g_padLen && g_zero >= 10 && g_padLen - g_zero - 1 <= g_oldLen; }
static void draw2(void)
{
    G = z_G;
    VP_BYTES(c_data, PADMAX); VP_BYTES(c_pad, PADMAX); VP_BYTES(c_out, PADMAX); VP_BYTES(c_rnd, PADMAX); VP_BYTES(c_rnd1, 2);
    for (uint32_t i = 0; i < PADMAX; i++) c_old[i] = c_out[i];
    #ifdef C_T2SET
    g_padLen = PADMAX;
#else
    g_padLen = vp_range(2, PADMAX);
#endif
    g_k = vp_range(0, PADMAX - 1); g_outLen = vp_range(0, PADMAX); g_oldLen = g_outLen;
    g_zero = g_padLen;
    for (uint32_t i = PADMAX; i-- > 2;) if (i < g_padLen && c_pad[i] == 0) g_zero = i;
}
#endif
#ifdef C_T2VER
/*@unit
name: pkcs1_decrypt
def: TYPE2 C_T2VER PADMAX=40
entry: h_t2ver
enforce: CRYPT_RSA_VerifyPkcsV15Type2
unwind: 42
bound: encoded messages of at most 40 bytes
*/
#define K_T2V(REQ, ENS) \
  ENS("a message is released exactly for 00 02, at least eight nonzero bytes, 00, message, and only if it fits", (VP_RET == CRYPT_SUCCESS) == t2Ok()) \
  ENS("the released message is what follows the separator", VP_IMP(VP_RET == CRYPT_SUCCESS, g_outLen == g_padLen - g_zero - 1 && VP_IMP(g_k < g_outLen, c_out[g_k] == c_pad[g_zero + 1 + g_k]))) \
  ENS("a refusal releases nothing", VP_IMP(VP_RET != CRYPT_SUCCESS, g_outLen == g_oldLen && c_out[g_k] == c_old[g_k]))
int32_t CRYPT_RSA_VerifyPkcsV15Type2(const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_T2V, __CPROVER_object_whole(c_out); g_outLen);
void h_t2ver(void)
{
    draw2();
    int32_t r;
    VP_CALL(K_T2V, r, CRYPT_RSA_VerifyPkcsV15Type2(c_pad, g_padLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && g_outLen == 0, "empty message");
    VP_REACH(r == CRYPT_SUCCESS && g_outLen > 5, "message");
    VP_REACH(r != CRYPT_SUCCESS, "refused");
}
#endif
#ifdef C_T2TLS
/*@unit
name: pkcs1_decrypt_tls
def: TYPE2 C_T2TLS PADMAX=40
entry: h_t2tls
enforce: CRYPT_RSA_VerifyPkcsV15Type2TLS
unwind: 42
bound: encoded messages of at most 40 bytes
*/
#define K_T2T(REQ, ENS) \
  ENS("a message is released exactly for 00 02, at least eight nonzero bytes, 00, message, and only if it fits", (VP_RET == CRYPT_SUCCESS) == t2Ok()) \
  ENS("the released message is what follows the separator", VP_IMP(VP_RET == CRYPT_SUCCESS, g_outLen == g_padLen - g_zero - 1 && VP_IMP(g_k < g_outLen, c_out[g_k] == c_pad[g_zero + 1 + g_k]))) \
  ENS("a refusal releases nothing", VP_IMP(VP_RET != CRYPT_SUCCESS, g_outLen == g_oldLen && VP_IMP(g_k < g_oldLen, c_out[g_k] == 0))) \
  ENS("nothing is written past the output", VP_IMP(g_k >= g_oldLen, c_out[g_k] == c_old[g_k]))
int32_t CRYPT_RSA_VerifyPkcsV15Type2TLS(const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
    VP_CONTRACT(K_T2T, __CPROVER_object_whole(c_out); g_outLen);
void h_t2tls(void)
{
    draw2();
    int32_t r;
    VP_CALL(K_T2T, r, CRYPT_RSA_VerifyPkcsV15Type2TLS(c_pad, g_padLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && g_outLen > 5, "message");
    VP_REACH(r != CRYPT_SUCCESS, "refused");
}
#endif
#ifdef C_T2SET
/*@unit
name: pkcs1_encrypt
def: RNDFIX TYPE2 C_T2SET PADMAX=18 BUF=18
entry: h_t2set
enforce: CRYPT_RSA_SetPkcsV15Type2
unwind: 22
unwindset: CRYPT_RSA_SetPkcsV15Type2.0:3
bound: three-byte messages, 18-byte encoded messages; a zero padding byte is replaced after at most two draws
*/
/*@unit
name: pkcs1_encrypt_any
tier: thorough
def: TYPE2 C_T2SET PADMAX=18 BUF=18
entry: h_t2set
enforce: CRYPT_RSA_SetPkcsV15Type2
unwind: 22
unwindset: CRYPT_RSA_SetPkcsV15Type2.0:3
bound: 18-byte encoded messages; a zero padding byte is replaced after at most two draws
*/
static bool t2Fits(void) { return g_dataLen + 11 <= g_padLen; }
static uint32_t psLen(void) { return g_padLen - g_dataLen - 3; }
#define K_T2S(REQ, ENS) \
  ENS("a message is encoded exactly if at least eight padding bytes fit and randomness is available", (VP_RET == CRYPT_SUCCESS) == (t2Fits() && G.rndOk)) \
  ENS("the encoding is 00 02, nonzero padding, 00, the message", VP_IMP(VP_RET == CRYPT_SUCCESS && g_k < g_padLen, \
      g_k == 0 ? c_pad[g_k] == 0 : g_k == 1 ? c_pad[g_k] == 2 : g_k < 2 + psLen() ? c_pad[g_k] != 0 : g_k == 2 + psLen() ? c_pad[g_k] == 0 : c_pad[g_k] == c_data[g_k - 3 - psLen()])) \
  ENS("the padding is the random bytes", VP_IMP(VP_RET == CRYPT_SUCCESS && g_k >= 2 && g_k < 2 + psLen() && c_rnd[g_k - 2] != 0, c_pad[g_k] == c_rnd[g_k - 2]))
int32_t CRYPT_RSA_SetPkcsV15Type2(void *libCtx, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t outLen)
    VP_CONTRACT(K_T2S, __CPROVER_object_whole(c_pad); __CPROVER_object_whole(&G));
void h_t2set(void)
{
    draw2();
    G.rndOk = vp_bool();
#ifdef RNDFIX
    g_dataLen = 3;
#else
    g_dataLen = vp_range(0, PADMAX);
#endif
    VP_ASSUME(c_rnd1[1] != 0);
    int32_t r;
    VP_CALL(K_T2S, r, CRYPT_RSA_SetPkcsV15Type2(NULL, c_data, g_dataLen, c_pad, g_padLen));
    VP_REACH(r == CRYPT_SUCCESS && G.rnd1 > 1, "encoded with replaced zeros");
    VP_REACH(r != CRYPT_SUCCESS, "refused");
}
#endif

/* ---------------------------------------------------------------- EME-OAEP */
#ifdef OAEP
#define HL 4
#define OMAX 20
static RSA_PadingPara c_para;
static CRYPT_RSA_Ctx c_rsa;
static uint8_t c_label[3];
static uint32_t g_labelLen, g_dbLen, g_one;
static uint8_t c_seed[HL], c_db[OMAX];
static uint8_t c_mdCtx, c_mgfCtx;
static bool g_lh;
int32_t CRYPT_CalcHash(void *prov, const EAL_MdMethod *m, const CRYPT_ConstData *d, uint32_t n, uint8_t *out, uint32_t *len)
{
    if (prov != &c_mdCtx || m == NULL || m->id != 1 || n != 1 || d[0].data != c_label || d[0].len != g_labelLen || *len < HL) G.args = false;
    G.hashes++;
    if (!G.hashOk) return CRYPT_MEM_ALLOC_FAIL;
    for (uint32_t i = 0; i < HL; i++) out[i] = c_hash[i];
    *len = HL;
    return CRYPT_SUCCESS;
}
#endif
#ifdef C_OADEC
/*@unit
name: oaep_decrypt
def: OAEP C_OADEC BUF=20
entry: h_oadec
enforce: CRYPT_RSA_VerifyPkcs1Oaep
unwind: 24
bound: encoded messages of at most 20 bytes, 4-byte hashes
*/
int32_t CRYPT_Mgf1(void *prov, const EAL_MdMethod *m, const uint8_t *seed, const uint32_t seedLen, uint8_t *mask, uint32_t maskLen)
{
    if (prov != &c_mgfCtx || m == NULL || m->id != 2) G.args = false;
    G.mgfs++;
    if (!G.mgfOk) return CRYPT_MEM_ALLOC_FAIL;
    if (G.mgfs == 1) { /* seed mask from the masked DB */
        if (seed != c_pad + 1 + HL || seedLen != g_dbLen || maskLen != HL) G.args = false;
        for (uint32_t i = 0; i < HL; i++) mask[i] = c_m1[i];
        return CRYPT_SUCCESS;
    }
    if (seedLen != HL || maskLen != g_dbLen) G.args = false;
    for (uint32_t i = 0; i < HL; i++) if (seed[i] != c_seed[i]) G.args = false;
    for (uint32_t i = 0; i < OMAX; i++) if (i < maskLen) mask[i] = c_m2[i];
    return CRYPT_SUCCESS;
}
static bool oaOk(void) { return g_padLen >= 2 * HL + 2 && c_pad[0] == 0 && g_lh && g_one < g_dbLen && g_oldLen >= g_dbLen - g_one - 1 && G.hashOk && G.mgfOk && G.allocOk && g_oldLen != 0; }
#define K_OAD(REQ, ENS) \
  ENS("a message is released exactly for 00, a matching label hash, zeros, 01, message, and only if it fits", (VP_RET == CRYPT_SUCCESS) == oaOk()) \
  ENS("the released message is what follows the 01", VP_IMP(VP_RET == CRYPT_SUCCESS, g_outLen == g_dbLen - g_one - 1 && VP_IMP(g_k < g_outLen, c_out[g_k] == c_db[g_one + 1 + g_k]))) \
  ENS("a refusal releases nothing", VP_IMP(VP_RET != CRYPT_SUCCESS, g_outLen == g_oldLen && c_out[g_k] == c_old[g_k])) \
  ENS("the masks are taken from the masked DB and the unmasked seed, the hash over the label", G.args)
int32_t CRYPT_RSA_VerifyPkcs1Oaep(RSA_PadingPara *pad, const uint8_t *in, uint32_t inLen, const uint8_t *param, uint32_t paramLen, uint8_t *msg, uint32_t *msgLen)
    VP_CONTRACT(K_OAD, __CPROVER_object_whole(c_heap); __CPROVER_object_whole(&G); __CPROVER_object_whole(c_out); g_outLen);
void h_oadec(void)
{
    G = z_G;
    G.args = true;
    G.allocOk = vp_bool(); G.hashOk = vp_bool(); G.mgfOk = vp_bool();
    VP_BYTES(c_pad, OMAX); VP_BYTES(c_out, OMAX); VP_BYTES(c_hash, HL); VP_BYTES(c_m1, HL); VP_BYTES(c_m2, OMAX);
    for (uint32_t i = 0; i < OMAX; i++) c_old[i] = c_out[i];
    c_para = z_para;
    c_para.mdMeth.id = 1; c_para.mdMeth.mdSize = HL; c_para.mgfMeth.id = 2; c_para.mdProvCtx = &c_mdCtx; c_para.mgfProvCtx = &c_mgfCtx;
    g_labelLen = vp_range(0, 3);
    g_padLen = vp_range(1, OMAX); g_outLen = vp_range(0, OMAX); g_oldLen = g_outLen; g_k = vp_range(0, OMAX - 1);
    g_dbLen = g_padLen > HL + 1 ? g_padLen - HL - 1 : 0;
    for (uint32_t i = 0; i < HL; i++) c_seed[i] = (uint8_t)(c_pad[1 + i] ^ c_m1[i]);
    for (uint32_t i = 0; i + HL + 1 < OMAX; i++) c_db[i] = (uint8_t)(c_pad[HL + 1 + i] ^ c_m2[i]);
    g_lh = true;
    for (uint32_t i = 0; i < HL; i++) if (c_db[i] != c_hash[i]) g_lh = false;
    g_one = g_dbLen;   /* first nonzero byte after the label hash, if it is 01 */
    for (uint32_t i = OMAX; i-- > HL;) if (i < g_dbLen && c_db[i] != 0) g_one = c_db[i] == 1 ? i : g_dbLen;
    int32_t r;
    VP_CALL(K_OAD, r, CRYPT_RSA_VerifyPkcs1Oaep(&c_para, c_pad, g_padLen, c_label, g_labelLen, c_out, &g_outLen));
    VP_REACH(r == CRYPT_SUCCESS && g_outLen == 0, "empty message");
    VP_REACH(r == CRYPT_SUCCESS && g_outLen > 5, "message");
    VP_REACH(r == CRYPT_RSA_NOR_VERIFY_FAIL, "refused");
}
#endif
#ifdef C_OAENC
/*@unit
name: oaep_encrypt
def: OAEP C_OAENC BUF=20
entry: h_oaenc
enforce: CRYPT_RSA_SetPkcs1Oaep
unwind: 24
bound: encoded messages of at most 20 bytes, 4-byte hashes
*/
int32_t CRYPT_Mgf1(void *prov, const EAL_MdMethod *m, const uint8_t *seed, const uint32_t seedLen, uint8_t *mask, uint32_t maskLen)
{
    if (prov != &c_mgfCtx || m == NULL || m->id != 2) G.args = false;
    G.mgfs++;
    if (!G.mgfOk) return CRYPT_MEM_ALLOC_FAIL;
    if (G.mgfs == 1) { /* DB mask from the random seed */
        if (seedLen != HL || maskLen != g_dbLen) G.args = false;
        for (uint32_t i = 0; i < HL; i++) if (seed[i] != c_rnd[i]) G.args = false;
        for (uint32_t i = 0; i < OMAX; i++) if (i < maskLen) mask[i] = c_m2[i];
        return CRYPT_SUCCESS;
    }
    if (seed != c_pad + 1 + HL || seedLen != g_dbLen || maskLen != HL) G.args = false;
    for (uint32_t i = 0; i < OMAX; i++) if (i < g_dbLen && seed[i] != c_exp[1 + HL + i]) G.args = false;
    for (uint32_t i = 0; i < HL; i++) mask[i] = c_m1[i];
    return CRYPT_SUCCESS;
}
static bool oaFits(void) { return g_dataLen + 2 * HL + 2 <= g_padLen; }
#define K_OAE(REQ, ENS) \
  ENS("a message is encoded exactly if it fits", (VP_RET == CRYPT_SUCCESS) == (oaFits() && G.rndOk && G.hashOk && G.mgfOk && G.allocOk)) \
  ENS("the encoding is 00, masked random seed, masked label hash, zeros, 01, message", VP_IMP(VP_RET == CRYPT_SUCCESS && g_k < g_padLen, c_pad[g_k] == c_exp[g_k])) \
  ENS("masks, hash and seed are taken over the right bytes", G.args && VP_IMP(VP_RET == CRYPT_SUCCESS, G.mgfs == 2 && G.hashes == 1 && G.rnd == 1))
int32_t CRYPT_RSA_SetPkcs1Oaep(CRYPT_RSA_Ctx *ctx, const uint8_t *in, uint32_t inLen, uint8_t *pad, uint32_t padLen)
    VP_CONTRACT(K_OAE, __CPROVER_object_whole(c_heap); __CPROVER_object_whole(&G); __CPROVER_object_whole(c_pad));
void h_oaenc(void)
{
    G = z_G;
    c_rsa = z_rsa;
    G.args = true;
    G.allocOk = vp_bool(); G.hashOk = vp_bool(); G.mgfOk = vp_bool(); G.rndOk = vp_bool();
    VP_BYTES(c_data, OMAX); VP_BYTES(c_hash, HL); VP_BYTES(c_m1, HL); VP_BYTES(c_m2, OMAX); VP_BYTES(c_rnd, HL);
    RSA_PadingPara *p = &c_rsa.pad.para.oaep;
    p->mdMeth.id = 1; p->mdMeth.mdSize = HL; p->mgfMeth.id = 2; p->mdProvCtx = &c_mdCtx; p->mgfProvCtx = &c_mgfCtx;
    g_labelLen = vp_range(0, 3);
    c_rsa.label.data = c_label; c_rsa.label.len = g_labelLen;
    g_padLen = vp_range(0, OMAX); g_dataLen = vp_range(0, OMAX); g_k = vp_range(0, OMAX - 1);
    g_dbLen = g_padLen > HL + 1 ? g_padLen - HL - 1 : 0;
    if (oaFits()) {
        for (uint32_t i = 0; i < OMAX; i++) {
            if (i == 0) { c_exp[i] = 0; continue; }
            if (i <= HL) { c_exp[i] = (uint8_t)(c_rnd[i - 1] ^ c_m1[i - 1]); continue; }
            uint32_t j = i - 1 - HL;
            uint8_t b = j < HL ? c_hash[j] : i + g_dataLen + 1 < g_padLen ? 0 : i + g_dataLen + 1 == g_padLen ? 1 : i < g_padLen ? c_data[i + g_dataLen - g_padLen] : 0;
            c_exp[i] = (uint8_t)(b ^ c_m2[j]);
        }
    }
    int32_t r;
    VP_CALL(K_OAE, r, CRYPT_RSA_SetPkcs1Oaep(&c_rsa, c_data, g_dataLen, c_pad, g_padLen));
    VP_REACH(r == CRYPT_SUCCESS && g_dataLen > 5, "encoded");
    VP_REACH(r == CRYPT_RSA_ERR_ENC_BITS, "too long");
}
#endif

/* ---------------------------------------------------------------- EMSA-PSS */
#ifdef PSS
#ifndef HL
#define HL 20
#endif
#define KB (BN_BITS_TO_BYTES(BITS))
#define MS ((BITS - 1) % 8)
#define EML (MS == 0 ? KB - 1 : KB)
#define OFF (KB - EML)
#define DBL (EML - HL - 1)
static CRYPT_RSA_Ctx c_rsa;
static EAL_MdMethod c_md, c_mgf;
static uint8_t c_mdCtx, c_mgfCtx;
static uint8_t c_db[DBL];
static int32_t g_salt;
static uint32_t g_sLen;
static bool g_sOk;
uint32_t CRYPT_RSA_GetBits(const CRYPT_RSA_Ctx *ctx) { (void)ctx; return BITS; }
int32_t CRYPT_CalcHash(void *prov, const EAL_MdMethod *m, const CRYPT_ConstData *d, uint32_t n, uint8_t *out, uint32_t *len)
{
    G.hashes++;
    if (prov != &c_mdCtx || m != &c_md || n != 3 || *len < HL || d[0].len != 8 || d[1].data != c_data || d[1].len != HL || d[2].len != g_sLen) { G.args = false; return CRYPT_NULL_INPUT; }
    for (uint32_t i = 0; i < 8; i++) if (d[0].data[i] != 0) G.args = false;
#ifdef C_PSSVER
    for (uint32_t i = 0; i < DBL; i++) if (i < g_sLen && d[2].data[i] != c_db[DBL - g_sLen + i]) G.args = false;
#else
    for (uint32_t i = 0; i < DBL; i++) if (i < g_sLen && d[2].data[i] != c_rnd[i]) G.args = false;
#endif
    if (!G.hashOk) return CRYPT_MEM_ALLOC_FAIL;
    for (uint32_t i = 0; i < HL; i++) out[i] = c_hash[i];
    *len = HL;
    return CRYPT_SUCCESS;
}
int32_t CRYPT_Mgf1(void *prov, const EAL_MdMethod *m, const uint8_t *seed, const uint32_t seedLen, uint8_t *mask, uint32_t maskLen)
{
    G.mgfs++;
    if (prov != &c_mgfCtx || m != &c_mgf || seedLen != HL || maskLen != DBL || seed != c_pad + OFF + DBL) { G.args = false; return CRYPT_NULL_INPUT; }
#ifndef C_PSSVER
    for (uint32_t i = 0; i < HL; i++) if (seed[i] != c_hash[i]) G.args = false;
#endif
    if (!G.mgfOk) return CRYPT_MEM_ALLOC_FAIL;
    for (uint32_t i = 0; i < DBL; i++) mask[i] = c_m1[i];
    return CRYPT_SUCCESS;
}
static void drawp(void)
{
    G = z_G;
    c_rsa = z_rsa;
    G.args = true;
    G.hashOk = vp_bool(); G.mgfOk = vp_bool(); G.allocOk = vp_bool();
    VP_BYTES(c_data, HL); VP_BYTES(c_pad, KB); VP_BYTES(c_hash, HL); VP_BYTES(c_m1, DBL);
    c_md.id = 1; c_md.mdSize = HL; c_mgf.id = 2; c_mgf.mdSize = HL;
    c_rsa.pad.para.pss.mdMeth = c_md;
    c_rsa.pad.para.pss.mdProvCtx = &c_mdCtx; c_rsa.pad.para.pss.mgfProvCtx = &c_mgfCtx;
    g_padLen = vp_range(0, KB + 1); g_dataLen = vp_range(0, HL + 1); g_k = vp_range(0, KB - 1);
#ifdef SALT
    g_salt = SALT;
#else
    g_salt = vp_i32();
#endif
}
#endif
#ifdef C_PSSVER
/*@unit
name: pss_verify_hashlen
def: PSS C_PSSVER BITS=512 HL=20 SALT=-1
entry: h_pssver
enforce: CRYPT_RSA_VerifyPss
unwind: 102
bound: 512-bit modulus, 20-byte hashes, salt length parameter -1 (hash length)
*/
/*@unit
name: pss_verify_any
def: PSS C_PSSVER BITS=512 HL=58 
entry: h_pssver
enforce: CRYPT_RSA_VerifyPss
unwind: 102
bound: 512-bit modulus, 58-byte hashes; salt length parameter arbitrary
*/
/*@unit
name: pss_verify_513
def: PSS C_PSSVER BITS=513 HL=58 
entry: h_pssver
enforce: CRYPT_RSA_VerifyPss
unwind: 102
bound: 513-bit modulus, 58-byte hashes; salt length parameter arbitrary
*/
static bool g_hEq;
static uint32_t g_first;
static bool pssOk(void)
{
    return g_padLen == KB && g_dataLen == HL && c_pad[KB - 1] == 0xbc && (OFF == 0 || c_pad[0] == 0) &&
        (MS == 0 || (c_pad[0] >> MS) == 0) && g_sOk && g_hEq;
}
#define K_PV(REQ, ENS) \
  ENS("a signature encoding is accepted exactly if it is trailer, unused bits, zeros, 01, a salt of the asked length and the hash over eight zeros, digest and salt", \
      VP_IMP(G.hashOk && G.mgfOk && G.allocOk, (VP_RET == CRYPT_SUCCESS) == pssOk())) \
  ENS("if a primitive fails nothing is accepted", VP_IMP(!(G.hashOk && G.mgfOk && G.allocOk), VP_RET != CRYPT_SUCCESS)) \
  ENS("mask and hash are taken over the right bytes", VP_IMP(VP_RET == CRYPT_SUCCESS, G.args))
int32_t CRYPT_RSA_VerifyPss(CRYPT_RSA_Ctx *ctx, const EAL_MdMethod *hashMethod, const EAL_MdMethod *mgfMethod,
    uint32_t saltLen, const uint8_t *data, uint32_t dataLen, const uint8_t *pad, uint32_t padLen)
    VP_CONTRACT(K_PV, __CPROVER_object_whole(c_heap); __CPROVER_object_whole(c_heap2); __CPROVER_object_whole(&G));
void h_pssver(void)
{
    drawp();
    for (uint32_t i = 0; i < DBL; i++) c_db[i] = (uint8_t)(c_pad[OFF + i] ^ c_m1[i]);
    if (MS != 0) c_db[0] &= (uint8_t)((1u << MS) - 1);
    g_first = DBL;
    for (uint32_t i = DBL; i-- > 0;) if (c_db[i] != 0) g_first = i;
    /* zeros up to the first nonzero byte, which is 01; the salt is the rest */
    g_sOk = g_first < DBL && c_db[g_first] == 1;
    g_sLen = DBL - g_first - 1;
    if (g_salt == CRYPT_RSA_SALTLEN_TYPE_HASHLEN) g_sOk = g_sOk && g_sLen == HL;
    else if (g_salt == CRYPT_RSA_SALTLEN_TYPE_MAXLEN) g_sOk = g_sOk && g_sLen == KB - HL - 2;
    else if (g_salt != CRYPT_RSA_SALTLEN_TYPE_AUTOLEN) g_sOk = g_sOk && g_sLen == (uint32_t)g_salt;
    g_hEq = true;
    for (uint32_t i = 0; i < HL; i++) if (c_pad[OFF + DBL + i] != c_hash[i]) g_hEq = false;
    int32_t r;
    VP_CALL(K_PV, r, CRYPT_RSA_VerifyPss(&c_rsa, &c_md, &c_mgf, (uint32_t)g_salt, c_data, g_dataLen, c_pad, g_padLen));
    #ifndef SALT
    VP_REACH(r == CRYPT_SUCCESS && g_salt == CRYPT_RSA_SALTLEN_TYPE_AUTOLEN, "accepted, any salt");
    VP_REACH(r == CRYPT_SUCCESS && g_salt >= 0, "accepted, given length");
#else
    VP_REACH(r == CRYPT_SUCCESS, "accepted");
#endif
    VP_REACH(r == CRYPT_RSA_NOR_VERIFY_FAIL, "refused");
}
#endif
#ifdef C_PSSSET
/*@unit
name: pss_sign_hashlen
def: PSS C_PSSSET BITS=512 HL=20 SALT=-1
entry: h_pssset
enforce: CRYPT_RSA_SetPss
unwind: 102
bound: 512-bit modulus, 20-byte hashes, salt length parameter -1 (hash length)
*/
/*@unit
name: pss_sign_any
def: PSS C_PSSSET BITS=512 HL=58 
entry: h_pssset
enforce: CRYPT_RSA_SetPss
unwind: 102
bound: 512-bit modulus, 58-byte hashes; salt length parameter arbitrary
*/
/*@unit
name: pss_sign_513
def: PSS C_PSSSET BITS=513 HL=58 
entry: h_pssset
enforce: CRYPT_RSA_SetPss
unwind: 102
bound: 513-bit modulus, 58-byte hashes; salt length parameter arbitrary
*/
#define K_PS(REQ, ENS) \
  ENS("an encoding is produced only if digest, hash, salt and two bytes fit", VP_IMP(VP_RET == CRYPT_SUCCESS, g_padLen == KB && g_dataLen == HL && g_sLen + HL + 2 <= EML)) \
  ENS("a fitting message is encoded", VP_IMP(g_padLen == KB && g_dataLen == HL && g_salt >= -3 && g_sLen + HL + 2 <= EML && G.hashOk && G.mgfOk && G.allocOk && G.rndOk, VP_RET == CRYPT_SUCCESS)) \
  ENS("the encoding is masked zeros, 01, random salt, the hash over eight zeros, digest and salt, and the trailer", VP_IMP(VP_RET == CRYPT_SUCCESS, c_pad[g_k] == c_exp[g_k])) \
  ENS("mask and hash are taken over the right bytes and the salt is random", VP_IMP(VP_RET == CRYPT_SUCCESS, G.args && G.hashes == 1 && G.mgfs == 1 && G.rnd == (g_salt != 0 ? 1 : 0)))
int32_t CRYPT_RSA_SetPss(CRYPT_RSA_Ctx *ctx, const EAL_MdMethod *hashMethod, const EAL_MdMethod *mgfMethod,
    uint32_t saltLen, const uint8_t *data, uint32_t dataLen, uint8_t *pad, uint32_t padLen)
    VP_CONTRACT(K_PS, __CPROVER_object_whole(c_heap); __CPROVER_object_whole(c_heap2); __CPROVER_object_whole(&G); __CPROVER_object_whole(c_pad); __CPROVER_object_whole(&c_rsa));
void h_pssset(void)
{
    drawp();
    G.rndOk = vp_bool();
    VP_BYTES(c_rnd, KB);
    g_sLen = g_salt == CRYPT_RSA_SALTLEN_TYPE_HASHLEN ? HL : g_salt == CRYPT_RSA_SALTLEN_TYPE_MAXLEN || g_salt == CRYPT_RSA_SALTLEN_TYPE_AUTOLEN ? KB - HL - 2 : (uint32_t)g_salt;
    for (uint32_t i = 0; i < KB; i++) {
        if (i < OFF) { c_exp[i] = 0; continue; }
        uint32_t j = i - OFF;
        if (j == EML - 1) { c_exp[i] = 0xbc; continue; }
        if (j >= DBL) { c_exp[i] = c_hash[j - DBL]; continue; }
        uint8_t b = 0;
        if (g_sLen <= DBL - 1) b = j < DBL - g_sLen - 1 ? 0 : j == DBL - g_sLen - 1 ? 1 : c_rnd[j - (DBL - g_sLen)];
        c_exp[i] = (uint8_t)(b ^ c_m1[j]);
        if (j == 0 && MS != 0) c_exp[i] &= (uint8_t)((1u << MS) - 1);
    }
    int32_t r;
    VP_CALL(K_PS, r, CRYPT_RSA_SetPss(&c_rsa, &c_md, &c_mgf, (uint32_t)g_salt, c_data, g_dataLen, c_pad, g_padLen));
    VP_REACH(r == CRYPT_SUCCESS, "encoded");
#ifndef SALT
    VP_REACH(r == CRYPT_RSA_ERR_PSS_SALT_LEN, "too long");
#endif
}
#endif
