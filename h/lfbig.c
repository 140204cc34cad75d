// C01-C03, one thread: capacities around the sizes of the counters that could hold them, and (C03) the ring's
// counters going round, which takes four thousand million items to reach.
#include "mc.h"
#include <assert.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
typedef struct { long a, b; } item;
static long first, last; static int n, cap;
static const int SZ[] = { 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072 };
#define NSZ (int)(sizeof SZ / sizeof *SZ)
#if defined(P_C01)
#include "fast/spsc_bounded_queue.h"
SPSCQ_DYN_TYPEDEF(qd, item); SPSCQ_TYPEDEF(qs, item, 66000);
#define OPS(T) static int put_##T(void *p, item x) { T *q = p; return SPSCQ_ENQ(q, x); } static int get_##T(void *p, item *x) { T *q = p; item y = { -1, -1 }; int r = SPSCQ_DEQ(q, y); *x = y; return r; } \
  static void look_##T(void *p) { T *q = p; MC_ASSERT((long)SPSCQ_SIZE(q) == n, "size", "size says %ld, the queue of %d holds %d", (long)SPSCQ_SIZE(q), cap, n); MC_ASSERT(!!SPSCQ_FULL_P(q) == (n == cap), "full-p", "full predicate with %d of %d items", n, cap); MC_ASSERT(!!SPSCQ_EMPTY_P(q) == (n == 0), "empty-p", "empty predicate with %d items", n); }
OPS(qd) OPS(qs)
static int st; static void *Q;
static void mk(int sz) { if (st) { qs *q = malloc(sizeof *q); Q = q; SPSCQ_INIT(q, 66000); cap = 65999; } else { qd *q = malloc(sizeof *q); Q = q; SPSCQ_DYN_INIT(q, sz); cap = sz - 1; } }
static void del(void) { if (!st) { qd *q = Q; SPSCQ_DYN_FINI(q); } free(Q); }
static int put1(long v) { item x = { v, ~v }; return st ? put_qs(Q, x) : put_qd(Q, x); }
static int get1(long *v) { item x; int r = st ? get_qs(Q, &x) : get_qd(Q, &x); if (r) MC_ASSERT(x.b == ~x.a, "torn", "item %ld comes with the contents of another", x.a); *v = x.a; return r; }
static void look(void) { if (st) look_qs(Q); else look_qd(Q); }
#elif defined(P_C02)
#include "fast/mpmc_bounded_queue.h"
MPMC_QUEUE_TYPE(mq, item);
static mq *Q; static int st;
static void mk(int sz) { Q = MPMC_QUEUE_NEW(mq, sz); cap = 1; while (cap < sz) cap *= 2; }
static void del(void) { MPMC_QUEUE_DEL(Q); }
static int put1(long v) { item x = { v, ~v }; mq *q = Q; if (st) { if (n == cap) return 0; MPMC_QUEUE_ENQ_WAIT(q, x); return 1; } return MPMC_QUEUE_ENQ(q, x); }
static int get1(long *v) { mq *q = Q; item y = { -1, -1 }; int r = 1; if (st) { if (!n) return 0; MPMC_QUEUE_DEQ_WAIT(q, y); } else r = MPMC_QUEUE_DEQ(q, y); if (r) MC_ASSERT(y.b == ~y.a, "torn", "item %ld comes with the contents of another", y.a); *v = y.a; return r; }
static void look(void) { mq *q = Q; MC_ASSERT((long)MPMC_QUEUE_SIZE(q) == n, "size", "size says %ld, the queue of %d holds %d", (long)MPMC_QUEUE_SIZE(q), cap, n); MC_ASSERT((long)MPMC_QUEUE_CAP(q) == cap, "cap", "capacity says %ld, not %d", (long)MPMC_QUEUE_CAP(q), cap); MC_ASSERT(!!MPMC_QUEUE_FULL_P(q) == (n == cap), "full-p", "full predicate with %d of %d items", n, cap); MC_ASSERT(!!MPMC_QUEUE_EMPTY_P(q) == (n == 0), "empty-p", "empty predicate with %d items", n); }
#else
#include "fast/ringbuf.h"
static rte_ring *Q; static int st;
static void mk(int sz) { cap = 1; while (cap < sz) cap *= 2; Q = rte_ring_create(sz, st & 3); cap--; }
static void del(void) { rte_ring_destroy(Q); }
#define BOX(v) ((void *)(uintptr_t)(0x1000 + (v) * 3))
static int put1(long v) { int r = rte_ring_enqueue(Q, BOX(v)); MC_ASSERT(r == 1 || r == -ENOBUFS, "enq-return", "enqueue returns %d", r); return r == 1; }
static int get1(long *v) { void *p = (void *)1; int r = rte_ring_dequeue(Q, &p); MC_ASSERT(r == 1 || r == -ENOENT, "deq-return", "dequeue returns %d", r); *v = ((long)(uintptr_t)p - 0x1000) / 3; return r == 1; }
static void look(void) { MC_ASSERT((int)rte_ring_count(Q) == n, "size", "count says %d, the ring of %d holds %d", rte_ring_count(Q), cap, n); MC_ASSERT((int)rte_ring_free_count(Q) == cap - n, "free", "free count says %d, not %d", rte_ring_free_count(Q), cap - n); MC_ASSERT(!!rte_ring_full(Q) == (n == cap), "full-p", "full predicate with %d of %d items", n, cap); MC_ASSERT(!!rte_ring_empty(Q) == (n == 0), "empty-p", "empty predicate with %d items", n); }
#endif
static void put(int k) { mc_site("enqueue"); for (int i = 0; i < k; i++) { int w = n < cap, r = put1(last); MC_ASSERT(!!r == w, "large", "enqueue with %d of %d items answers %d", n, cap, r); last += w; n += w; look(); } mc_ops(k); }
static void get(int k) { mc_site("dequeue"); for (int i = 0; i < k; i++) { long v = -1; int w = n > 0, r = get1(&v); MC_ASSERT(!!r == w && (!w || v == first), "large", "dequeue with %d of %d items answers %d, item %ld, expected %ld", n, cap, r, v, first); first += w; n -= w; look(); } mc_ops(k); }
static void large(long arg)
{
    (void)arg; st = mc_choose(arg ? (int)arg : 2); int z = mc_choose(NSZ);
#ifdef P_C01
    if (st && z) mc_prune();
#endif
    first = last = n = 0; mk(SZ[z]); look();
    put(cap + 2); get(cap / 2); put(cap + 1); get(cap + 2); put(3); get(4); mc_state(mc_mix(cap, last * 4 + st)); del();
}
#ifdef WRAPAROUND
#define RS 32
static char *mem, *snap; static size_t msz;
static void *tab[RS * 2];
static void put_n(int c, int b) { int mp = c & 1, kind = c >> 1; /* 0 one, 1 bulk, 2 burst */
    for (int i = 0; i < b; i++) tab[i] = BOX(last + i); int r = kind == 0 ? mp ? rte_ring_mp_enqueue(Q, tab[0]) : rte_ring_sp_enqueue(Q, tab[0]) : kind == 1 ? mp ? rte_ring_mp_enqueue_bulk(Q, tab, b) : rte_ring_sp_enqueue_bulk(Q, tab, b) : mp ? rte_ring_mp_enqueue_burst(Q, tab, b) : rte_ring_sp_enqueue_burst(Q, tab, b);
    int av = cap - n, w = b <= av ? b : kind < 2 ? -ENOBUFS : av; MC_ASSERT(r == w, "wrap-enq", "enqueue kind %d of %d with %d of %d items returns %d, expected %d", c, b, n, cap, r, w); if (w > 0) { n += w; last += w; } }
static void get_n(int c, int b) { int mp = c & 1, kind = c >> 1; memset(tab, 0, sizeof tab);
    int r = kind == 0 ? mp ? rte_ring_mc_dequeue(Q, tab) : rte_ring_sc_dequeue(Q, tab) : kind == 1 ? mp ? rte_ring_mc_dequeue_bulk(Q, tab, b) : rte_ring_sc_dequeue_bulk(Q, tab, b) : mp ? rte_ring_mc_dequeue_burst(Q, tab, b) : rte_ring_sc_dequeue_burst(Q, tab, b);
    int w = b <= n ? b : kind < 2 ? -ENOENT : n; MC_ASSERT(r == w, "wrap-deq", "dequeue kind %d of %d with %d of %d items returns %d, expected %d", c, b, n, cap, r, w); if (w > 0) { for (int i = 0; i < w; i++) MC_ASSERT(tab[i] == BOX(first + i), "wrap-order", "item %d of %d is not the one put in", i, w); n -= w; first += w; } for (int i = w > 0 ? w : 0; i < RS * 2; i++) MC_ASSERT(!tab[i], "wrap-table", "entry %d of the table written", i); }
/* the counters just before they go round; reached the long way, through the public operations */
__attribute__((constructor)) static void position(void)
{
    msz = rte_ring_size(RS); mem = aligned_alloc(64, (msz + 63) & ~(size_t)63); snap = malloc(msz); size_t left = msz; Q = rte_ring_create_from(RS, RING_F_SP_ENQ | RING_F_SC_DEQ, mem, &left); cap = RS - 1; void *t[RS]; uint64_t at = 0, end = (1ull << 32) - 2 * RS;
    for (int i = 0; i < RS; i++) t[i] = BOX(i); for (; at + cap <= end; at += cap) { rte_ring_sp_enqueue_bulk(Q, t, cap); rte_ring_sc_dequeue_bulk(Q, t, cap); } for (; at < end; at++) { rte_ring_sp_enqueue(Q, t[0]); rte_ring_sc_dequeue(Q, t); } memcpy(snap, mem, msz);
    last = 0;
}
static void wrapped(long arg)
{
    static const int BN[] = { 1, 2, 7, 16, 31 }, FI[] = { 0, 1, 15, 16, 30, 31 }; memcpy(mem, snap, msz); Q = (rte_ring *)mem; cap = RS - 1; n = 0; first = last = 0; int off = mc_choose((2 * RS + 2) ), fill = FI[mc_choose(6)];
    mc_site("around the counters' end"); for (int i = 0; i < off; i++) { put_n(0, 1); get_n(0, 1); } for (int i = 0; i < fill; i++) put_n(i & 1, 1); look();
    for (int d = 0; d < (int)arg; d++) { int dir = mc_choose(2), c = mc_choose(6), b = c < 2 ? 1 : BN[mc_choose(5)]; mc_note("%s kind %d of %d", dir ? "dequeue" : "enqueue", c, b); if (dir) get_n(c, b); else put_n(c, b); mc_op(); look(); mc_state(mc_mix(off * 64 + n, d)); }
    while (n) { get_n(n & 1, 1); look(); } MC_ASSERT(rte_ring_sc_dequeue(Q, tab) == -ENOENT, "wrap-empty", "an item from an emptied ring");
}
const mc_scenario mc_scenarios[] = { { "counters going round, 2 operations", wrapped, 2, -1, 2, 0 }, { "counters going round, 3 operations", wrapped, 3, 1, 3, 0 }, { 0 } };
#else
const mc_scenario mc_scenarios[] = { { "large capacities", large, 
#ifdef P_C03
4
#else
2
#endif
, 0, 2, 0 }, { 0 } };
#endif
