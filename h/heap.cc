/* C24: minheap against a multiset. */
#include "mc.h"
#include <algorithm>
struct E { int key, id; };
template <class T> static inline void swap(T *h, int i, int j) { T t = h[i]; h[i] = h[j]; h[j] = t; }
#include "utils/minheap.h"
struct C { static bool lt(const E &a, const E &b) { return a.key < b.key; } static bool gt(const E &a, const E &b) { return a.key > b.key; } };
static E *mem; static int cap, n, nid; static E M[32];
typedef minheap<E, C> heap;
static void take(const E &e, int must_be_min, const char *what)
{
    int mn = 1 << 30, at = -1;
    for (int i = 0; i < n; i++) { mn = std::min(mn, M[i].key); if (M[i].id == e.id && M[i].key == e.key) at = i; }
    MC_ASSERT(at >= 0, "element", "%s hands out something that is not in the heap", what);
    if (must_be_min) MC_ASSERT(e.key == mn, "min", "%s hands out key %d, the least is %d", what, e.key, mn);
    M[at] = M[--n];
}
static void drain(heap &h)
{
    int last = -1; E e; mc_site("removemin");
    while (n) { MC_ASSERT(h.heapsize() == n, "size", "size %d, expected %d", h.heapsize(), n); MC_ASSERT(h.removemin(e), "removemin", "refused with %d elements", n); mc_op(); MC_ASSERT(e.key >= last, "order", "key %d after %d", e.key, last); last = e.key; take(e, 1, "removemin"); }
    MC_ASSERT(!h.removemin(e) && h.heapsize() == 0, "removemin", "an element from an empty heap");
}
static void check(heap &h)
{
    MC_ASSERT(h.heapsize() == n, "size", "size %d, expected %d", h.heapsize(), n);
    uint64_t x = n; for (int i = 0; i < n; i++) x = mc_mix(x, mem[i].key); mc_state(x);
}
static void ops(long arg)
{
    cap = (int)(arg & 15); int depth = (int)(arg >> 4 & 15) + mc_tier(), nk = (int)(arg >> 8 & 15), pre = (int)(arg >> 12); n = nid = 0;
    mem = (E *)malloc(sizeof(E) * (cap ? cap : 1)); memset(mem, 0x5a, sizeof(E) * cap);
    for (int i = 0; i < pre; i++) { E e = { mc_choose(nk), nid++ }; mem[i] = e; M[n++] = e; }
    mc_site("construction");
    heap h(mem, pre, cap); check(h);
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(nk + 2 + n + 2); mc_op();
        if (c < nk) { E e = { c, nid++ }; mc_site("insert"); mc_note("insert %d", c); bool r = h.insert(e); MC_ASSERT(r == (n < cap), "insert", "insert answers %d with %d of %d", r, n, cap); if (r) M[n++] = e; }
        else if (c == nk) { E e = { -1, -1 }; mc_site("removemin"); mc_note("removemin"); bool r = h.removemin(e); MC_ASSERT(r == (n > 0), "removemin", "answers %d with %d elements", r, n); if (r) take(e, 1, "removemin"); }
        else if (c == nk + 1) break;
        else { int p = c - nk - 2 == n ? n : c - nk - 2; if (c - nk - 2 == n + 1) p = -1; E e = { -1, -1 }; mc_site("remove"); mc_note("remove at %d of %d", p, n); E want = p >= 0 && p < n ? mem[p] : E{ -1, -1 }; bool r = h.remove(p, e); MC_ASSERT(r == (p >= 0 && p < n), "remove", "answers %d for position %d of %d", r, p, n); if (r) { MC_ASSERT(e.id == want.id, "remove", "removes another element than that at the position"); take(e, 0, "remove"); } }
        check(h);
    }
    drain(h);
    free(mem);
}
/* big heaps: filled in several orders by insertion or at construction, some removed by position, drained */
static void r_big(long k)
{
    int a = mc_choose((int)k - 2) + 3, d = mc_choose(3) - 1, how = mc_choose(2), pat = mc_choose(5); int N = (1 << a) + d; mc_op(); mc_note("%d elements, pattern %d, %s", N, pat, how ? "inserted" : "given at construction"); mc_site("big heap");
    cap = N; mem = (E *)malloc(sizeof(E) * N); unsigned char *in = (unsigned char *)calloc(N, 1); int *key = (int *)malloc(sizeof(int) * N); uint32_t x = 12345;
    for (int i = 0; i < N; i++) { x = x * 1664525u + 1013904223u; key[i] = pat == 0 ? i : pat == 1 ? N - i : pat == 2 ? (int)(x >> 8) : pat == 3 ? (int)(x >> 28) : (i * 7919) % N; }
    if (!how) for (int i = 0; i < N; i++) { mem[i] = E{ key[i], i }; in[i] = 1; }
    heap h(mem, how ? 0 : N, cap);
    if (how) for (int i = 0; i < N; i++) { E e = { key[i], i }; MC_ASSERT(h.insert(e), "big-insert", "refuses element %d of %d", i, N); in[i] = 1; }
    E ex = { 0, N }; MC_ASSERT(!h.insert(ex) && h.heapsize() == N, "big-full", "takes more than %d elements (%d)", N, h.heapsize());
    int left = N; E e;
    auto got = [&](const char *what) { MC_ASSERT(e.id >= 0 && e.id < N && in[e.id] && e.key == key[e.id], "big-element", "%s of %d hands out something not in the heap", what, N); in[e.id] = 0; left--; };
    for (int i = 0; i < 60 && left > 1; i++) { int p = i % 4 == 0 ? left - 1 : i % 4 == 1 ? left / 2 : i % 4 == 2 ? (int)((long)left * (i + 3) / 64) : left - 1 - i % left; E want = mem[p]; MC_ASSERT(h.remove(p, e) && e.id == want.id && e.key == want.key, "big-remove", "removing at %d of %d: wrong element", p, left); got("remove"); }
    for (int i = 0; i < 20 && i < N; i++) { int id = (int)((long)i * N / 20); if (in[id] || left == N) continue; key[id] = i % 2 ? -i : key[id] / 2; E n2 = { key[id], id }; MC_ASSERT(h.insert(n2), "big-insert", "refuses an element with %d of %d", left, N); in[id] = 1; left++; }
    int last = -1000000;
    while (left) { MC_ASSERT(h.heapsize() == left && h.removemin(e), "big-removemin", "refuses with %d left (size %d)", left, h.heapsize()); MC_ASSERT(e.key >= last, "big-order", "key %d after %d with %d left of %d", e.key, last, left, N); last = e.key; got("removemin"); }
    MC_ASSERT(!h.removemin(e) && h.heapsize() == 0, "big-removemin", "an element from an empty heap"); mc_state(mc_mix(N, pat * 2 + how)); free(mem); free(in); free(key);
}
const mc_scenario mc_scenarios[] = { { "cap 5", ops, 5 | 6 << 4 | 3 << 8, 0, 2, 0 }, { "big heaps", r_big, 18, 0, 2, 0 }, { "cap 3", ops, 3 | 7 << 4 | 2 << 8, 0, 2, 0 }, { "cap 1", ops, 1 | 7 << 4 | 2 << 8, 0, 2, 0 }, { "built from 4", ops, 6 | 3 << 4 | 4 << 8 | 4 << 12, 0, 2, 0 }, { "built from 6", ops, 7 | 2 << 4 | 4 << 8 | 6 << 12, 0, 2, 0 }, { "built from 8", ops, 9 | 2 << 4 | 3 << 8 | 8 << 12, 0, 2, 0 }, { "built from 10", ops, 10 | 1 << 4 | 2 << 8 | 10 << 12, 0, 2, 0 }, { "built from 12", ops, 12 | 1 << 4 | 2 << 8 | 12 << 12, 0, 4, 0 }, { "built from 14", ops, 14 | 1 << 4 | 2 << 8 | 14 << 12, 0, 4, 0 }, { 0 } };
