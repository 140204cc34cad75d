/* C01, C02, C03: lock-free queues, every interleaving and permitted stale read */
#include "mc11.h"
#include "lin.h"
#include <errno.h>
#include <stdlib.h>
#include <assert.h>
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; mc_fail("assert", "assertion failed: %s", e); }

/* a thread's program: letters, see each property */
typedef struct { const char *name; int sz, off, pre; const char *prog[5]; int preempt, stale, tier, flags; } conf;
#define U MC11_UNBOUNDED
MC11_H static const conf *C;
MC11_H static long nextv;

#if defined(P_C01)
#include "fast/spsc_bounded_queue.h"
typedef struct { long a, b; } item;
SPSCQ_TYPEDEF(q1, item, 1); SPSCQ_TYPEDEF(q2, item, 2); SPSCQ_TYPEDEF(q3, item, 3); SPSCQ_TYPEDEF(q4, item, 4); SPSCQ_DYN_TYPEDEF(qd, item);
MC11_H static void *Q;
#define DEF(n, T) static int enq_##n(item x) { T *q = Q; return SPSCQ_ENQ(q, x); } \
  static int deq_##n(item *x) { T *q = Q; item y = { -1, -1 }; int r = SPSCQ_DEQ(q, y); *x = y; return r; } \
  static long info_##n(void) { T *q = Q; return (long)SPSCQ_SIZE(q) | !!SPSCQ_FULL_P(q) << 8 | !!SPSCQ_EMPTY_P(q) << 9; }
DEF(2, q2) DEF(3, q3) DEF(4, q4) DEF(d, qd)
#define SEL(f, ...) (C->sz == 2 ? f##_2(__VA_ARGS__) : C->sz == 3 ? f##_3(__VA_ARGS__) : C->sz == 4 ? f##_4(__VA_ARGS__) : f##_d(__VA_ARGS__))
static int xenq(long v) { item x = { v, v * 3 + 1 }; return SEL(enq, x); }
static int xdeq(long *v) { item x; int r = SEL(deq, &x); if (r) { MC_ASSERT(x.b == x.a * 3 + 1, "torn", "item %ld comes with the contents of another", x.a); *v = x.a; } return r; }
static int dynsz(void) { return C->sz - 10; }
static int mkq(void)
{
    if (C->sz == 2) { q2 *q = malloc(sizeof *q); Q = q; SPSCQ_INIT(q, 2); return 1; }
    if (C->sz == 3) { q3 *q = malloc(sizeof *q); Q = q; SPSCQ_INIT(q, 3); return 2; }
    if (C->sz == 4) { q4 *q = malloc(sizeof *q); Q = q; SPSCQ_INIT(q, 4); return 3; }
    qd *q = malloc(sizeof *q); Q = q; SPSCQ_DYN_INIT(q, dynsz()); return dynsz() - 1;
}
static void delq(void) { if (C->sz > 10) { qd *q = Q; SPSCQ_DYN_FINI(q); } free(Q); }
static void quiet(int n, int cap)
{
    long i = SEL(info);
    MC_ASSERT((i & 255) == n, "size", "size says %ld, the queue holds %d", i & 255, n);
    MC_ASSERT(!!(i & 256) == (n == cap), "full-p", "full predicate is %d with %d of %d items", !!(i & 256), n, cap);
    MC_ASSERT(!!(i & 512) == (n == 0), "empty-p", "empty predicate is %d with %d items", !!(i & 512), n);
}
static void resetq(void) { if (C->sz == 2) { q2 *q = Q; SPSCQ_RESET(q); } else if (C->sz == 3) { q3 *q = Q; SPSCQ_RESET(q); } else if (C->sz == 4) { q4 *q = Q; SPSCQ_RESET(q); } else { qd *q = Q; SPSCQ_RESET(q); } }
#elif defined(P_C02)
#include "fast/mpmc_bounded_queue.h"
typedef struct { long a, b; } item;
MPMC_QUEUE_TYPE(mq, item);
MC11_H static mq *Q;
static int xenq(long v) { item x = { v, v * 3 + 1 }; mq *q = Q; return MPMC_QUEUE_ENQ(q, x); }
static int chk(item y, long *v) { MC_ASSERT(y.b == y.a * 3 + 1, "torn", "item %ld comes with the contents of another", y.a); *v = y.a; return 1; }
static int xdeq(long *v) { mq *q = Q; item y = { -1, -1 }; int r = MPMC_QUEUE_DEQ(q, y); return r ? chk(y, v) : 0; }
static void wenq(long v) { item x = { v, v * 3 + 1 }; mq *q = Q; MPMC_QUEUE_ENQ_WAIT(q, x); }
static void wdeq(long *v) { mq *q = Q; item y = { -1, -1 }; MPMC_QUEUE_DEQ_WAIT(q, y); chk(y, v); }
static int mkq(void) { Q = MPMC_QUEUE_NEW(mq, C->sz); int n = 1; while (n < C->sz) n *= 2; return n; }
static void delq(void) { mq *q = Q; MPMC_QUEUE_DEL(q); MC_ASSERT(q == 0, "del", "deleting leaves the pointer"); }
static void quiet(int n, int cap)
{
    mq *q = Q;
    MC_ASSERT((int)MPMC_QUEUE_SIZE(q) == n, "size", "size says %d, the queue holds %d", (int)MPMC_QUEUE_SIZE(q), n);
    MC_ASSERT(!!MPMC_QUEUE_FULL_P(q) == (n == cap), "full-p", "full predicate with %d of %d items", n, cap);
    MC_ASSERT(!!MPMC_QUEUE_EMPTY_P(q) == (n == 0), "empty-p", "empty predicate with %d items", n);
    MC_ASSERT((int)MPMC_QUEUE_CAP(q) == cap, "cap", "capacity says %d, not %d", (int)MPMC_QUEUE_CAP(q), cap);
}
static void resetq(void) { mq *q = Q; MPMC_QUEUE_RESET(q); }
#elif defined(P_C03)
#include "fast/ringbuf.h"
/* letters: single/multi is the configuration's flags; digits after a letter are the batch size
   E/D one item; B/K bulk; U/R burst */
MC11_H static rte_ring *Q;
typedef struct { long v, w; } payload;
static void *box(long v) { payload *p = malloc(sizeof *p); p->v = v; p->w = v * 7; return p; }
static long unbox(void *x) { payload *p = x; long v = p->v; MC_ASSERT(p->w == v * 7, "torn", "item %ld is not what was put in", v); free(p); return v; }
static int xenqn(const long *v, int n, int how)
{
    void *t[LMAXB]; for (int i = 0; i < n; i++) t[i] = box(v[i]);
    int r, sp = C->flags & RING_F_SP_ENQ, dflt = C->flags & 16;
    if (how == 0) r = dflt ? rte_ring_enqueue(Q, t[0]) : sp ? rte_ring_sp_enqueue(Q, t[0]) : rte_ring_mp_enqueue(Q, t[0]);
    else if (how == 1) r = dflt ? rte_ring_enqueue_bulk(Q, t, n) : sp ? rte_ring_sp_enqueue_bulk(Q, t, n) : rte_ring_mp_enqueue_bulk(Q, t, n);
    else r = dflt ? rte_ring_enqueue_burst(Q, t, n) : sp ? rte_ring_sp_enqueue_burst(Q, t, n) : rte_ring_mp_enqueue_burst(Q, t, n);
    int got = r;
    if (how < 2) { MC_ASSERT(r == n || r == -ENOBUFS, "enq-return", "all-or-nothing enqueue of %d returns %d", n, r); if (r < 0) got = 0; }
    else MC_ASSERT(r >= 0 && r <= n, "enq-return", "enqueue of up to %d returns %d", n, r);
    for (int i = got; i < n; i++) free(t[i]);
    return got;
}
static int xdeqn(long *v, int n, int how)
{
    void *t[LMAXB + 1]; for (int i = 0; i <= LMAXB; i++) t[i] = &t[0];
    int r, sc = C->flags & RING_F_SC_DEQ, dflt = C->flags & 16;
    if (how == 0) r = dflt ? rte_ring_dequeue(Q, t) : sc ? rte_ring_sc_dequeue(Q, t) : rte_ring_mc_dequeue(Q, t);
    else if (how == 1) r = dflt ? rte_ring_dequeue_bulk(Q, t, n) : sc ? rte_ring_sc_dequeue_bulk(Q, t, n) : rte_ring_mc_dequeue_bulk(Q, t, n);
    else r = dflt ? rte_ring_dequeue_burst(Q, t, n) : sc ? rte_ring_sc_dequeue_burst(Q, t, n) : rte_ring_mc_dequeue_burst(Q, t, n);
    int got = r;
    if (how < 2) { MC_ASSERT(r == n || r == -ENOENT, "deq-return", "all-or-nothing dequeue of %d returns %d", n, r); if (r < 0) got = 0; }
    else MC_ASSERT(r >= 0 && r <= n, "deq-return", "dequeue of up to %d returns %d", n, r);
    for (int i = got; i <= LMAXB; i++) MC_ASSERT(t[i] == &t[0], "deq-table", "dequeue of %d writes entry %d of the table", got, i);
    for (int i = 0; i < got; i++) v[i] = unbox(t[i]);
    return got;
}
static int mkq(void)
{
    int n = 1; while (n < C->sz) n *= 2;
    if (C->flags & 32) {
        size_t sz = rte_ring_size(n) + 24, left = sz; char *m = malloc(0x40 + sz); char *a = (char *)(((uintptr_t)m + 63) & ~63ul);
        MC_ASSERT(a == m + (a - m), "x", "x");
        size_t tiny = rte_ring_size(n) - 1;
        MC_ASSERT(rte_ring_create_from(C->sz, C->flags & 3, a, &tiny) == 0, "create-from", "a ring is made in too little memory");
        Q = rte_ring_create_from(C->sz, C->flags & 3, a, &left);
        MC_ASSERT(Q && left == 24, "create-from", "ring from memory: %p, %zu left of %zu", (void *)Q, left, sz);
    } else Q = rte_ring_create(C->sz, C->flags & 3);
    return n - 1;
}
static void delq(void) { if (!(C->flags & 32)) rte_ring_destroy(Q); }
static void quiet(int n, int cap)
{
    MC_ASSERT((int)rte_ring_count(Q) == n, "size", "count says %d, the ring holds %d", rte_ring_count(Q), n);
    MC_ASSERT((int)rte_ring_free_count(Q) == cap - n, "free", "free count says %d, not %d", rte_ring_free_count(Q), cap - n);
    MC_ASSERT(!!rte_ring_full(Q) == (n == cap), "full-p", "full predicate with %d of %d items", n, cap);
    MC_ASSERT(!!rte_ring_empty(Q) == (n == 0), "empty-p", "empty predicate with %d items", n);
}
#endif

static void thread(void *arg)
{
    const char *p = arg;
    while (*p) {
        char c = *p++;
        int n = 1; if (*p >= '0' && *p <= '9') n = *p++ - '0';
        lop *o;
#if defined(P_C03)
        int how = c == 'E' || c == 'D' ? 0 : c == 'B' || c == 'K' ? 1 : 2;
        if (c == 'E' || c == 'B' || c == 'U') {
            o = lin_op(0, n, how < 2);
            for (int i = 0; i < n; i++) o->v[i] = ++nextv;
            o->b = mc11_begin(); int g = xenqn(o->v, n, how); o->e = mc11_event(); o->got = g;
        } else {
            o = lin_op(1, n, how < 2);
            long v[LMAXB];
            o->b = mc11_begin(); int g = xdeqn(v, n, how); o->e = mc11_event(); o->got = g;
            for (int i = 0; i < g; i++) o->v[i] = v[i];
        }
#else
        if (c == 'E') { o = lin_op(0, 1, 1); long v = o->v[0] = ++nextv; o->b = mc11_begin(); int g = xenq(v); o->e = mc11_event(); o->got = g; }
        else if (c == 'D') { o = lin_op(1, 1, 1); long v = 0; o->b = mc11_begin(); int g = xdeq(&v); o->e = mc11_event(); o->got = g; o->v[0] = v; }
#ifdef P_C02
        else if (c == 'W') { o = lin_op(0, 1, 1); long v = o->v[0] = ++nextv; o->b = mc11_begin(); wenq(v); o->e = mc11_event(); o->got = 1; }
        else if (c == 'V') { o = lin_op(1, 1, 1); long v = 0; o->b = mc11_begin(); wdeq(&v); o->e = mc11_event(); o->got = 1; o->v[0] = v; }
#endif
#endif
    }
}
static void run(long arg);
static const conf confs[];
static void run(long arg)
{
    C = &confs[arg];
    nextv = 0;
    int cap = mkq();
    lin_reset(cap);
    for (int i = 0; i < C->off; i++) { thread("E"); thread("D"); MC_ASSERT(H_[hn - 1].got == 1 && H_[hn - 2].got == 1 && H_[hn - 1].v[0] == H_[hn - 2].v[0], "serial", "an item put into an empty queue does not come out"); hn = 0; }
    for (int i = 0; i < C->pre; i++) { thread("E"); MC_ASSERT(H_[0].got == 1, "serial", "enqueue says full with %d of %d items", i, cap); lq0[lq0n++] = H_[0].v[0]; hn = 0; }
    quiet(C->pre, cap);
    if (C->pre == cap) { thread("E"); MC_ASSERT(H_[0].got == 0, "serial", "enqueue into a full queue succeeds"); hn = 0; }
    if (C->pre == 0) { thread("D"); MC_ASSERT(H_[0].got == 0, "serial", "dequeue from an empty queue succeeds"); hn = 0; }
    mc11_config(C->preempt, C->stale);
    for (int i = 0; i < 5 && C->prog[i]; i++) mc11_go(thread, (void *)C->prog[i]);
    mc11_run();
    int n = C->pre;
    for (int i = 0; i < hn; i++) n += H_[i].kind ? -H_[i].got : H_[i].got;
    MC_ASSERT(n >= 0 && n <= cap, "count", "more items are taken than were put in, or more are in than fit");
    quiet(n, cap);
    for (int i = 0; i < n; i++) thread("D");
    lin_check();
    thread("D"); MC_ASSERT(H_[hn - 1].got == 0, "serial", "dequeue from an emptied queue succeeds");
    quiet(0, cap);
    delq();
}
#ifdef P_C02
#define NORESET 1
#endif
static const conf confs[] = {
#if defined(P_C01)
#define Z(s, o, p, e, d, st, t) { #s "." #o "." #p " " e "|" d, s, o, p, { e, d }, U, st, t, 0 }
#define ZZ(s, o, p, t) Z(s, o, p, "E", "D", 9, t), Z(s, o, p, "EE", "DD", 9, t), Z(s, o, p, "EEE", "DDD", 9, t), Z(s, o, p, "EEEE", "DDDD", 9, t)
 ZZ(2, 0, 0, 0), ZZ(2, 0, 1, 0), ZZ(2, 1, 0, 0), ZZ(2, 1, 1, 0),
 ZZ(3, 0, 0, 0), ZZ(3, 0, 1, 0), ZZ(3, 0, 2, 0), ZZ(3, 1, 0, 0), ZZ(3, 1, 1, 0), ZZ(3, 1, 2, 0), ZZ(3, 2, 0, 0), ZZ(3, 2, 1, 0), ZZ(3, 2, 2, 0),
 ZZ(4, 0, 0, 0), ZZ(4, 2, 1, 0), ZZ(4, 3, 2, 0), ZZ(4, 1, 3, 0), ZZ(4, 3, 3, 0), ZZ(4, 2, 2, 0),
 ZZ(12, 0, 0, 0), ZZ(12, 1, 1, 0), ZZ(13, 0, 2, 0), ZZ(13, 2, 1, 0), ZZ(15, 4, 3, 0), ZZ(15, 3, 0, 0),
 Z(2, 0, 0, "EEEEE", "DDDDD", 9, 1), Z(3, 1, 1, "EEEEE", "DDDDD", 9, 1), Z(4, 2, 2, "EEEEE", "DDDDD", 9, 1), Z(3, 2, 1, "EEEEEE", "DDDDDD", 9, 1),
#elif defined(P_C02)
#define Z2(s, o, p, a, b, pr, st, t) { #s "." #o "." #p " " a "|" b, s, o, p, { a, b }, pr, st, t, 0 }
#define Z3(s, o, p, a, b, c, pr, st, t) { #s "." #o "." #p " " a "|" b "|" c, s, o, p, { a, b, c }, pr, st, t, 0 }
#define Z4(s, o, p, a, b, c, d, pr, st, t) { #s "." #o "." #p " " a "|" b "|" c "|" d, s, o, p, { a, b, c, d }, pr, st, t, 0 }
#define ZZ(s, o, p, t) Z2(s, o, p, "E", "D", U, 9, t), Z2(s, o, p, "EE", "DD", U, 9, t), Z2(s, o, p, "ED", "ED", U, 2, t), Z2(s, o, p, "ED", "DE", U, 2, t), Z2(s, o, p, "DE", "DE", U, 2, t), Z2(s, o, p, "EE", "E", U, 2, t), Z2(s, o, p, "DD", "D", U, 2, t), \
  Z3(s, o, p, "E", "E", "D", U, 1, t), Z3(s, o, p, "E", "D", "D", U, 1, t), Z3(s, o, p, "E", "E", "E", U, 0, t), Z3(s, o, p, "D", "D", "D", U, 0, t)
 ZZ(1, 0, 0, 0), ZZ(1, 1, 1, 0), ZZ(2, 0, 0, 0), ZZ(2, 1, 1, 0), ZZ(2, 1, 2, 0), ZZ(3, 3, 2, 0), ZZ(4, 2, 4, 0),
 Z2(1, 0, 0, "W", "V", U, 9, 0), Z2(1, 0, 0, "WW", "VV", U, 2, 0), Z2(2, 1, 0, "WWW", "VVV", U, 1, 0), Z2(1, 1, 1, "VW", "VW", U, 2, 0), Z2(2, 1, 0, "WV", "WV", U, 2, 0),
 Z3(1, 0, 0, "W", "W", "VV", U, 1, 0), Z3(2, 1, 0, "WW", "V", "V", U, 1, 0), Z3(1, 0, 0, "WW", "V", "V", U, 1, 0), Z3(2, 3, 0, "W", "W", "VV", U, 1, 0), Z3(1, 0, 0, "E", "W", "VD", U, 1, 0),
 Z4(1, 0, 0, "E", "E", "D", "D", U, 0, 0), Z4(2, 1, 1, "E", "E", "D", "D", U, 0, 0), Z4(2, 1, 2, "E", "E", "D", "D", U, 0, 0), Z4(1, 0, 0, "W", "W", "V", "V", U, 1, 0),
 Z3(2, 0, 0, "ED", "ED", "ED", 3, 1, 0), Z3(2, 1, 1, "EE", "DD", "ED", U, 0, 0), Z3(1, 0, 0, "EE", "DD", "ED", U, 0, 0),
 Z3(2, 0, 0, "ED", "ED", "ED", U, 0, 0), Z3(1, 0, 0, "ED", "DE", "ED", U, 0, 0), Z4(2, 0, 1, "EE", "E", "D", "DD", U, 0, 0), Z4(2, 1, 2, "D", "D", "E", "EE", U, 0, 0), Z4(4, 3, 1, "E", "E", "E", "D", U, 0, 0), Z4(4, 3, 3, "E", "D", "D", "D", U, 0, 0), Z3(2, 1, 0, "WV", "WV", "WV", U, 0, 0), Z3(1, 0, 1, "E", "W", "VV", U, 0, 0),
 Z4(2, 0, 1, "EE", "ED", "DE", "DD", U, 0, 1), Z4(1, 0, 1, "EE", "ED", "DE", "DD", U, 0, 1), Z3(2, 1, 1, "EDE", "DED", "EED", U, 0, 1),
 Z3(2, 0, 0, "EE", "EE", "DDD", U, 0, 1), Z3(1, 0, 0, "EE", "DD", "DD", U, 1, 1), Z4(1, 0, 0, "E", "E", "D", "D", U, 1, 1), Z4(2, 1, 1, "E", "E", "D", "D", U, 1, 1), Z2(2, 1, 1, "EEE", "DDD", U, 9, 1), Z3(2, 1, 0, "ED", "ED", "ED", 4, 1, 1), Z2(1, 0, 0, "EDED", "DEDE", U, 1, 1),
#elif defined(P_C03)
#define Z2(f, s, o, p, a, b, pr, st, t) { #f ":" #s "." #o "." #p " " a "|" b, s, o, p, { a, b }, pr, st, t, f }
#define Z3(f, s, o, p, a, b, c, pr, st, t) { #f ":" #s "." #o "." #p " " a "|" b "|" c, s, o, p, { a, b, c }, pr, st, t, f }
#define Z4(f, s, o, p, a, b, c, d, pr, st, t) { #f ":" #s "." #o "." #p " " a "|" b "|" c "|" d, s, o, p, { a, b, c, d }, pr, st, t, f }
 /* one producer, one consumer under every variant */
#define V2(f, t) Z2(f, 2, 0, 0, "EE", "DD", U, 2, t), Z2(f, 4, 2, 2, "EE", "DD", U, 2, t), Z2(f, 4, 1, 1, "B2E", "K2D", U, 2, t), Z2(f, 4, 3, 2, "U3", "R3", U, 9, t), Z2(f, 4, 2, 1, "U3U2", "R2R3", U, 2, t), Z2(f, 4, 0, 3, "B2B1", "K2K1", U, 2, t), Z2(f, 8, 6, 4, "U6", "R7", U, 2, t), Z2(f, 8, 0, 0, "B5", "R5R5", U, 2, t), Z2(f, 2, 1, 1, "EE", "DD", U, 2, t)
 V2(0, 0), V2(1, 0), V2(2, 0), V2(3, 0), V2(16, 0), V2(19, 0), V2(49, 0),
 /* several producers */
#define P2(f, t) Z2(f, 2, 0, 0, "E", "E", U, 2, t), Z2(f, 4, 3, 1, "B2", "B2", U, 2, t), Z2(f, 4, 0, 0, "U2", "U2", U, 2, t), Z2(f, 4, 1, 0, "EE", "E", U, 2, t), Z3(f, 4, 0, 0, "E", "E", "D", U, 1, t), Z3(f, 4, 3, 2, "E", "E", "D", U, 1, t), Z3(f, 2, 1, 1, "E", "E", "D", U, 1, t), Z3(f, 4, 1, 1, "B2", "E", "R3", U, 1, t)
 P2(0, 0), P2(2, 0), P2(16, 0), P2(34, 0),
 /* several consumers */
#define C2(f, t) Z2(f, 2, 0, 1, "D", "D", U, 2, t), Z2(f, 4, 3, 3, "K2", "K2", U, 2, t), Z2(f, 4, 0, 3, "R2", "R2", U, 2, t), Z2(f, 4, 1, 2, "DD", "D", U, 2, t), Z3(f, 4, 0, 1, "E", "D", "D", U, 1, t), Z3(f, 4, 3, 3, "E", "D", "D", U, 1, t), Z3(f, 2, 1, 0, "E", "D", "D", U, 1, t), Z3(f, 4, 1, 2, "U2", "D", "K2", U, 1, t)
 C2(0, 0), C2(1, 0), C2(16, 0), C2(33, 0),
 Z3(0, 4, 1, 1, "ED", "ED", "ED", 2, 1, 0), Z4(0, 4, 2, 1, "E", "E", "D", "D", U, 0, 0), Z4(0, 2, 0, 1, "E", "E", "D", "D", U, 0, 0), Z2(0, 4, 1, 1, "ED", "DE", U, 2, 0), Z3(0, 4, 1, 0, "E", "ED", "D", 3, 2, 0),
 Z3(0, 4, 1, 1, "ED", "ED", "ED", U, 0, 1), Z4(0, 4, 2, 1, "EE", "E", "D", "D", U, 0, 0), Z4(0, 4, 3, 2, "B2", "U2", "K2", "R2", U, 0, 0), Z4(0, 8, 6, 3, "B3", "U2", "K2", "R3", U, 0, 0), Z3(0, 4, 0, 0, "E", "E", "E", U, 0, 0), Z4(1, 4, 3, 2, "U2U2", "D", "K2", "R2", U, 0, 0), Z4(2, 4, 3, 2, "U2", "B2", "E", "R2R2", U, 0, 0),
 Z4(0, 4, 2, 1, "EE", "ED", "DE", "DD", U, 0, 1), Z4(0, 4, 3, 2, "B2U2", "U2", "K2R2", "R2", U, 0, 1),
 Z3(0, 4, 1, 1, "ED", "ED", "ED", 3, 1, 1), Z4(0, 4, 2, 1, "E", "E", "D", "D", 3, 1, 1), Z3(0, 4, 0, 0, "EE", "E", "DD", U, 1, 1), Z3(0, 4, 0, 2, "E", "DD", "D", U, 2, 1), Z3(0, 4, 2, 2, "U2", "U2", "R3", U, 1, 1), Z3(0, 4, 2, 2, "U2", "R2", "R2", U, 1, 1), Z2(0, 4, 1, 1, "EDED", "DEDE", 4, 2, 1),
#endif
 { 0 } };

/* one thread: every operation sequence */
static void seq(long arg)
{
    static conf c; c.sz = arg & 255; c.flags = (arg >> 8) & 255; c.off = c.pre = 0; C = &c;
    int depth = arg >> 16;
    nextv = 0;
    int cap = mkq(); lin_reset(cap);
    int n = 0; long first = 1, last = 0;
    for (int i = 0; i < depth; i++) {
#if defined(P_C03)
        int k = mc_choose(10);
        char b[3] = { "EDBBUUKKRR"[k], "112323" "2323"[k], 0 };
        int big = mc_choose(2); if (big && k >= 2) b[1] += 3;
        if (big && k < 2) mc_prune();
        int isdeq = b[0] == 'D' || b[0] == 'K' || b[0] == 'R', req = b[0] == 'E' || b[0] == 'D' ? 1 : b[1] - '0';
        if (b[0] == 'E' || b[0] == 'D') b[1] = 0;
#else
        int k = mc_choose(3);
        char b[2] = { "EDX"[k], 0 };
        int isdeq = k == 1, req = 1;
        if (k == 2) { resetq(); n = 0; first = last + 1; quiet(0, cap); mc_op(); mc_state(mc_mix(c.sz, n)); continue; }
#endif
        hn = 0; nextv = last;
        thread(b);
        int av = isdeq ? n : cap - n, got = H_[0].got;
        int exact = H_[0].exact, want = req <= av ? req : exact ? 0 : av;
        MC_ASSERT(got == want, "serial", "%s of %d with %d of %d items transfers %d, not %d", isdeq ? "dequeue" : "enqueue", req, n, cap, got, want);
        if (isdeq) { for (int j = 0; j < got; j++) MC_ASSERT(H_[0].v[j] == first + j, "serial-order", "item %ld comes out, not %ld", H_[0].v[j], first + j); first += got; n -= got; }
        else { last += got; n += got; }
        quiet(n, cap);
        mc_op(); mc_state(mc_mix(mc_mix(c.sz * 37 + c.flags, n), last * 8 + i));
    }
    while (n > 0) { hn = 0; thread("D"); MC_ASSERT(H_[0].got == 1 && H_[0].v[0] == first, "serial-order", "draining"); first++; n--; }
    delq();
}
#if defined(P_C01)
#define SEQS { "one thread, size 2", seq, 2 | 8 << 16, 0 }, { "one thread, size 3", seq, 3 | 8 << 16, 0 }, { "one thread, size 4", seq, 4 | 9 << 16, 0 }, { "one thread, dynamic 5", seq, 15 | 10 << 16, 0 },
#elif defined(P_C02)
#define SEQS { "one thread, size 1", seq, 1 | 8 << 16, 0 }, { "one thread, size 2", seq, 2 | 9 << 16, 0 }, { "one thread, size 3", seq, 3 | 10 << 16, 0 },
#else
#define SEQS { "one thread, multi, 8", seq, 8 | 4 << 16, 0 }, { "one thread, single, 8", seq, 8 | 3 << 8 | 4 << 16, 0 }, { "one thread, defaults, 4", seq, 4 | 16 << 8 | 4 << 16, 0 }, { "one thread, defaults single, 16", seq, 16 | 19 << 8 | 4 << 16, 0 }, { "one thread, from memory, 6", seq, 6 | 49 << 8 | 4 << 16, 0 },
#endif
#define NCONF (sizeof confs / sizeof confs[0] - 1)
static const mc_scenario seqs[] = { SEQS };
#define NSEQ (sizeof seqs / sizeof seqs[0])
mc_scenario scenarios[NCONF + NSEQ + 1] __asm__("mc_scenarios");
__attribute__((constructor)) static void fill(void)
{
    for (size_t i = 0; i < NSEQ; i++) scenarios[i] = seqs[i];
    for (size_t i = 0; i < NCONF; i++) scenarios[NSEQ + i] = (mc_scenario){ confs[i].name, run, (long)i, confs[i].tier, 0, 0 };
}
