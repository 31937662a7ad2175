/*
 * vp.h - vocabulary of the contract units.
 *
 * One unit file is compiled twice from the same text:
 *   -DVP_CBMC    : goto-cc; the contract clauses become __CPROVER_requires/ensures on the declaration of the
 *                  real function and goto-instrument --dfcc enforces them on its real body.
 *   (otherwise)  : gcc + ASan/UBSan; the same clauses are evaluated around the real call, on the inputs of a
 *                  counterexample (file named by $VP_REPLAY). Used only to replay a verifier counterexample.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_CBMC

#define VP_REQ(label, e) __CPROVER_requires(e)
#define VP_ENS(label, e) __CPROVER_ensures(e)
#define VP_RET __CPROVER_return_value
/* Contract of function F, given by macro K(REQ, ENS), on a (re)declaration of the real function. */
#define VP_CONTRACT(K, ...) K(VP_REQ, VP_ENS) __CPROVER_assigns(__VA_ARGS__)
#define VP_CALL(K, lhs, call) lhs = call
#define VP_CALLV(K, call) call
/* value on entry: the verifier's own old(); natively the ghost the unit saved before the call */
#define VP_OLD(ghost, e) __CPROVER_old(e)

#define VP_ASSUME(e) __CPROVER_assume(e)
#define VP_ASSERT(e, label) __CPROVER_assert((e), "VP:" label)
/* vacuity guard: must be violated (= reachable) on every run */
#define VP_REACH(c, label) do { if (c) __CPROVER_assert(0, "REACH:" label); } while (0)
/* draw an arbitrary value of the type of x (recorded, so that a counterexample replays) */
#define VP_DRAW(x) do { __typeof__(x) vp_t_; (x) = vp_t_; __CPROVER_input("nd", (x)); } while (0)

#else /* native replay */

#include <stdio.h>
void vp_next(void *dst, size_t n);
void vp_fail(const char *label);
void vp_invalid(const char *label);
extern int vp_quiet;
#define VP_N_REQ(label, e) if (!(e)) vp_invalid(label);
#define VP_N_ENS(label, e) if (!(e)) vp_fail(label);
#define VP_N_SKIP(label, e)
#define VP_RET vp_ret
#define VP_CALL(K, lhs, call) do { K(VP_N_REQ, VP_N_SKIP) __typeof__(lhs) vp_ret = (call); (void)vp_ret; \
        K(VP_N_SKIP, VP_N_ENS) lhs = vp_ret; } while (0)
#define VP_CALLV(K, call) do { K(VP_N_REQ, VP_N_SKIP) (call); K(VP_N_SKIP, VP_N_ENS) } while (0)
#define VP_CONTRACT(K, ...)
#define VP_OLD(ghost, e) (ghost)
#define VP_ASSUME(e) do { if (!(e)) vp_invalid(#e); } while (0)
#define VP_ASSERT(e, label) do { if (!(e)) vp_fail(label); } while (0)
#define VP_REACH(c, label) do { } while (0)
#define VP_DRAW(x) vp_next(&(x), sizeof(x))

#endif

#define VP_IMP(a, b) (!(a) || (b))

/* scalar draws */
static inline uint8_t vp_u8(void) { uint8_t v; VP_DRAW(v); return v; }
static inline uint16_t vp_u16(void) { uint16_t v; VP_DRAW(v); return v; }
static inline uint32_t vp_u32(void) { uint32_t v; VP_DRAW(v); return v; }
static inline uint64_t vp_u64(void) { uint64_t v; VP_DRAW(v); return v; }
static inline int32_t vp_i32(void) { int32_t v; VP_DRAW(v); return v; }
static inline int64_t vp_i64(void) { int64_t v; VP_DRAW(v); return v; }
static inline bool vp_bool(void) { uint8_t v; VP_DRAW(v); return (v & 1) != 0; }
static inline uint32_t vp_range(uint32_t lo, uint32_t hi)
{
    uint32_t v = vp_u32();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}

/* fill dst (n bytes, n a constant) with arbitrary bytes */
#define VP_BYTES(dst, n) do { struct { uint8_t b[n]; } vp_b_; VP_DRAW(vp_b_); memcpy((dst), vp_b_.b, (n)); } while (0)

/* exact-size heap block of len <= max bytes holding arbitrary bytes (max a constant); out-of-bounds accesses by the
 * code under contract are then failed obligations (CBMC) or ASan reports (replay). */
#define VP_BUF(var, len, max) do { \
        struct { uint8_t b[max]; } vp_b_; VP_DRAW(vp_b_); \
        var = (void *)malloc(len); VP_ASSUME(var != NULL); \
        memcpy(var, vp_b_.b, len); } while (0)

#endif
