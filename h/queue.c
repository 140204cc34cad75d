/* C20: circular queues against a bounded deque. */
#include "mc.h"
#include "fast/queue.h"
FQ_TYPEDEF(q1, int, 1); FQ_TYPEDEF(q2, int, 2); FQ_TYPEDEF(q3, int, 3); FQ_TYPEDEF(q4, int, 4); FQ_TYPEDEF(q5, int, 5); FQ_TYPEDEF(q7, int, 7);
FQ_DYN_TYPEDEF(qd, int);
typedef struct { int x; char pad[9]; } big; FQ_DYN_TYPEDEF(qb, big);
static int model[64], mh, mn;
#define BODY(Q_, cap, VAL, GET, TY, depth) do { \
    mn = mh = 0; int v_ = 1; \
    for (int d_ = 0; d_ < (depth); d_++) { \
        int c_ = mc_choose(d_ > 5 ? 2 : 3); mc_op(); \
        if (c_ == 0) { mc_site("FQ_ENQ"); TY e_ = VAL(v_); int r_ = FQ_ENQ(Q_, e_); mc_note("enq %d -> %d", v_, r_); MC_ASSERT(!!r_ == (mn < (cap)), "enq", "enqueue answers %d with %d of %d queued", r_, mn, (int)(cap)); if (r_) model[mn++] = v_; v_++; } \
        else if (c_ == 1) { mc_site("FQ_DEQ"); TY e_ = VAL(-1); int r_ = FQ_DEQ(Q_, e_); mc_note("deq -> %d", r_); MC_ASSERT(!!r_ == (mn > 0), "deq", "dequeue answers %d with %d queued", r_, mn); if (r_) { MC_ASSERT(GET(e_) == model[0], "fifo", "got %d, expected %d", GET(e_), model[0]); memmove(model, model + 1, (--mn) * sizeof(int)); } else MC_ASSERT(GET(e_) == -1, "deq", "a failed dequeue changes the result"); } \
        else { mc_site("FQ_RESET"); FQ_RESET(Q_); mn = 0; mc_note("reset"); } \
        MC_ASSERT(FQ_SIZE(Q_) == (uint32_t)mn, "size", "size %u, expected %d", FQ_SIZE(Q_), mn); \
        MC_ASSERT(!!FQ_EMPTY_P(Q_) == (mn == 0), "empty", "empty answers %d with %d queued", FQ_EMPTY_P(Q_), mn); \
        MC_ASSERT(!!FQ_FULL_P(Q_) == (mn == (cap)), "full", "full answers %d with %d of %d queued", FQ_FULL_P(Q_), mn, (int)(cap)); \
        uint64_t h_ = mc_mix(mn, cap); for (int k_ = 0; k_ < mn; k_++) h_ = mc_mix(h_, model[k_] - model[0]); mc_state(mc_mix(h_, (Q_)->q.rd)); \
    } } while (0)
#define IV(v) (v)
#define IG(e) (e)
#define BV(v) (big){ .x = (v), .pad = "abc" }
#define BG(e) (e).x
#define DEP(n) ((n) + mc_tier() * 3)
#define ST(N) static void r_##N(long depth) { struct { char g1[64]; q##N q; char g2[64]; } *s = malloc(sizeof *s); memset(s, 0xcd, sizeof *s); FQ_INIT(&s->q, N); BODY(&s->q, N - 1, IV, IG, int, DEP((int)depth)); for (int i = 0; i < 64; i++) MC_ASSERT((s->g1[i] & 0xff) == 0xcd && (s->g2[i] & 0xff) == 0xcd, "bounds", "queue writes outside its storage"); FQ_FINI(&s->q); free(s); }
ST(1) ST(2) ST(3) ST(4) ST(5) ST(7)
static void r_d(long arg) { int n = arg & 15; qd q; mc_site("FQ_DYN_INIT"); FQ_DYN_INIT(&q, n); BODY(&q, n - 1, IV, IG, int, DEP((int)(arg >> 4))); FQ_DYN_FINI(&q); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); }
static void r_b(long arg) { int n = arg & 15; qb q; mc_site("FQ_DYN_INIT"); FQ_DYN_INIT(&q, n); BODY(&q, n - 1, BV, BG, big, DEP((int)(arg >> 4))); FQ_DYN_FINI(&q); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); }
/* long queues: filled, drained, and wrapped around at every kind of position */
static void r_long(long k)
{
    int a = mc_choose((int)k - 2) + 3, d = mc_choose(4) - 1; uint32_t slots = (1u << a) + d, cap = slots - 1, step[] = { cap, 1 + cap / 2, 1 + cap / 3, cap - 1 }, s = step[mc_choose(4)];
    qd q; mc_op(); mc_note("%u slots, %u at a time", slots, s); mc_site("long queue"); FQ_DYN_INIT(&q, slots); uint32_t in = 0, out = 0;
    for (int round = 0; round < 4; round++) {
        for (uint32_t i = 0; i < s; i++) {
            int full = in - out == cap, e = (int)in, r = FQ_ENQ(&q, e); MC_ASSERT(!!r == !full, "enq", "enqueue answers %d with %u of %u queued", r, in - out, cap); if (r) in++;
            MC_ASSERT(FQ_SIZE(&q) == in - out && !FQ_EMPTY_P(&q) && !!FQ_FULL_P(&q) == (in - out == cap), "size", "size %u, expected %u of %u", FQ_SIZE(&q), in - out, cap);
        }
        uint32_t left = round == 3 ? 0 : round == 1 ? 1 : (in - out) / 2;
        while (in - out > left) { int e = -1, r = FQ_DEQ(&q, e); MC_ASSERT(r && e == (int)out, "fifo", "got %d (answer %d), expected %u", e, r, out); out++; MC_ASSERT(FQ_SIZE(&q) == in - out && !!FQ_EMPTY_P(&q) == (in == out), "size", "size %u, expected %u", FQ_SIZE(&q), in - out); }
    }
    int e = -1; MC_ASSERT(!FQ_DEQ(&q, e) && e == -1, "deq", "an empty queue gives something"); mc_state(mc_mix(slots, s)); FQ_DYN_FINI(&q); MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
const mc_scenario mc_scenarios[] = { { "size 1", r_1, 6, 0, 2, 0 }, { "size 2", r_2, 12, 0, 4, 0 }, { "size 3", r_3, 12, 0, 4, 0 }, { "size 4", r_4, 12, 0, 4, 0 }, { "size 5", r_5, 13, 0, 4, 0 }, { "size 7", r_7, 14, 0, 4, 0 },
  { "long queues", r_long, 18, 0, 2, 0 }, { "dyn 2", r_d, 2 | 11 << 4, 0, 4, 0 }, { "dyn 3", r_d, 3 | 11 << 4, 0, 4, 0 }, { "dyn 6", r_d, 6 | 12 << 4, 0, 4, 0 }, { "dyn big elements 3", r_b, 3 | 11 << 4, 0, 4, 0 }, { 0 } };
