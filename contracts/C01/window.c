/* Sliding replay window. Abstraction: seen(w, s) = "record number s must not be delivered any more". */
/*@defaults
src: tls/record/src/rec_anti_replay.c
unwind: 3
*/
#include "vp.h"
#include "rec_anti_replay.h"

static bool vp_seen(uint64_t top, uint64_t window, uint64_t s)
{
    return s <= top && (top - s >= 64 || ((window >> (top - s)) & 1) != 0);
}
/* record numbers: 48-bit on the wire (DTLS 1.2); 64-bit reconstructed numbers never exceed 2^63 */
#define SEQ_MAX (1ULL << 63)

static uint64_t g_top, g_win, g_k; /* state on entry; an arbitrary record number */

/*@unit
name: RecAntiReplayCheck
entry: h_check
enforce: RecAntiReplayCheck
*/
#define K_RecAntiReplayCheck(REQ, ENS) \
    ENS("reports exactly the numbers already delivered or older than the window", VP_RET == vp_seen(w->top, w->window, seq))
bool RecAntiReplayCheck(const RecSlidWindow *w, uint64_t seq)
    VP_CONTRACT(K_RecAntiReplayCheck);

void h_check(void)
{
    RecSlidWindow win, *w = &win;
    VP_DRAW(win.top);
    VP_DRAW(win.window);
    uint64_t seq = vp_u64();
    bool r;
    VP_CALL(K_RecAntiReplayCheck, r, RecAntiReplayCheck(w, seq));
    VP_REACH(r && seq + 3 == w->top, "replay inside window");
    VP_REACH(!r && seq < w->top, "late but fresh");
}

/*@unit
name: RecAntiReplayUpdate
entry: h_update
enforce: RecAntiReplayUpdate
*/
#define K_RecAntiReplayUpdate(REQ, ENS) \
    REQ("record numbers in range", seq < SEQ_MAX && w->top < SEQ_MAX) \
    ENS("the recorded number is refused afterwards", vp_seen(w->top, w->window, seq)) \
    ENS("nothing already refused becomes acceptable", \
        VP_IMP(vp_seen(VP_OLD(g_top, w->top), VP_OLD(g_win, w->window), g_k), vp_seen(w->top, w->window, g_k))) \
    ENS("no other number inside the window becomes refused", \
        VP_IMP(vp_seen(w->top, w->window, g_k), \
            g_k == seq || vp_seen(VP_OLD(g_top, w->top), VP_OLD(g_win, w->window), g_k) || g_k + 64 <= w->top)) \
    ENS("the window's right edge is the largest number recorded", \
        w->top == (seq > VP_OLD(g_top, w->top) ? seq : VP_OLD(g_top, w->top)))
void RecAntiReplayUpdate(RecSlidWindow *w, uint64_t seq)
    VP_CONTRACT(K_RecAntiReplayUpdate, w->top, w->window);

void h_update(void)
{
    RecSlidWindow win, *w = &win;
    VP_DRAW(win.top);
    VP_DRAW(win.window);
    uint64_t seq = vp_u64();
    g_k = vp_u64();
    g_top = w->top;
    g_win = w->window;
    VP_CALLV(K_RecAntiReplayUpdate, RecAntiReplayUpdate(w, seq));
    VP_REACH(w->top > g_top + 5 && w->top < g_top + 60, "window slid");
    VP_REACH(w->top == g_top && w->window != g_win, "bit set");
}

/*@unit
name: RecAntiReplayReset
entry: h_reset
enforce: RecAntiReplayReset
*/
#define K_RecAntiReplayReset(REQ, ENS) \
    ENS("a new epoch refuses nothing", !vp_seen(w->top, w->window, g_k))
void RecAntiReplayReset(RecSlidWindow *w)
    VP_CONTRACT(K_RecAntiReplayReset, w->top, w->window);

void h_reset(void)
{
    RecSlidWindow win, *w = &win;
    VP_DRAW(win.top);
    VP_DRAW(win.window);
    g_k = vp_u64();
    VP_CALLV(K_RecAntiReplayReset, RecAntiReplayReset(w));
    VP_REACH(1, "end");
}
