/* C18: every sequence of vector operations in the bounds against a plain sequence. */
#include "mc.h"
#include <assert.h>
#include "fast/vect.h"

#ifdef BIGELEM
typedef struct { uint32_t a; uint16_t b; } __attribute__((packed)) E;
static E mk(int v) { E e = { (uint32_t)v * 2654435761u, (uint16_t)(v * 77) }; return e; }
static int eq(E e, int v) { E x = mk(v); return e.a == x.a && e.b == x.b; }
static int cmp(const void *x, const void *y) { for (int i = 0; i < 64; i++) { int a = eq(*(const E *)x, i), b = eq(*(const E *)y, i); if (a || b) return b - a; } mc_fail("sort-arg", "comparison called on something not in the vector"); }
#else
typedef int E;
static E mk(int v) { return v; }
static int eq(E e, int v) { return e == v; }
static int cmp(const void *x, const void *y) { int a = *(const E *)x, b = *(const E *)y; return (a > b) - (a < b); }
#endif
VECT_TYPEDEF(vec, E);

static vec V[2]; static int M[2][200], n[2], nextv, minc[2];
static uint32_t lcg; static size_t rnd(void) { lcg = lcg * 1103515245u + 12345; return lcg >> 8; }
static size_t crnd(void) { return (size_t)mc_choose(6); }

static void check(int i)
{
    MC_ASSERT(VECT_LEN(&V[i]) == (size_t)n[i], "len", "length %zu, expected %d", VECT_LEN(&V[i]), n[i]);
    MC_ASSERT(VECT_CAPACITY(&V[i]) >= (size_t)n[i], "cap", "capacity %zu below the length %d", VECT_CAPACITY(&V[i]), n[i]);
    if (V[i].arr) MC_ASSERT(mc_block_size(V[i].arr) >= VECT_CAPACITY(&V[i]) * sizeof(E), "storage", "storage of %zu bytes for capacity %zu", mc_block_size(V[i].arr), VECT_CAPACITY(&V[i]));
    for (int k = 0; k < n[i]; k++) MC_ASSERT(eq(VECT_ELEM(&V[i], k), M[i][k]), "elem", "element %d of %d is wrong", k, n[i]);
    if (n[i]) {
        MC_ASSERT(eq(VECT_FIRST_ELEM(&V[i]), M[i][0]) && eq(VECT_LAST_ELEM(&V[i]), M[i][n[i] - 1]) && eq(VECT_TOP(&V[i]), M[i][n[i] - 1]), "ends", "first or last element wrong");
        E *p; int k = 0; size_t j;
        VECT_FOR_EACH(&V[i], p) { MC_ASSERT(k < n[i] && eq(*p, M[i][k]), "foreach", "iteration wrong at %d", k); k++; }
        MC_ASSERT(k == n[i], "foreach", "iteration visits %d of %d", k, n[i]);
        k = 0; VECT_FOR_EACHi(&V[i], j, p) { MC_ASSERT(j == (size_t)k && eq(*p, M[i][k]), "foreachi", "iteration wrong at %d", k); k++; }
        MC_ASSERT(k == n[i], "foreachi", "iteration visits %d of %d", k, n[i]);
    }
}
static uint64_t hs(void) { uint64_t h = 1; for (int i = 0; i < 2; i++) { h = mc_mix(h, n[i]); for (int k = 0; k < n[i]; k++) h = mc_mix(h, M[i][k]); h = mc_mix(h, VECT_CAPACITY(&V[i])); } return h; }
static int icmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }

static void step(int nops)
{
    int i = 0, o;
    static const char *nm[] = { "push_back", "push_front", "pop_back", "pop_front", "append_vect", "copy", "swap", "reserve", "ensure", "sort", "reset", "pop", "append_self", "shuffle", "sample", "rand_elem", "init_from", "copy_rev", "fini", "push_w" };
    o = mc_choose(nops);
    mc_site("vector %s", nm[o]); mc_op();
    switch (o) {
    case 0: { int v = nextv++; E e = mk(v); VECT_PUSH_BACK(&V[i], e); M[i][n[i]++] = v; mc_note("push_back %d", v); break; }
    case 1: { int v = 30 - nextv++; E e = mk(v); VECT_PUSH_FRONT(&V[i], e); memmove(&M[i][1], &M[i][0], n[i] * sizeof(int)); M[i][0] = v; n[i]++; mc_note("push_front %d", v); break; }
    case 2: if (!n[i]) mc_prune(); { E e = VECT_POP_BACK(&V[i]); n[i]--; mc_note("pop_back"); MC_ASSERT(eq(e, M[i][n[i]]), "pop_back", "wrong element"); break; }
    case 3: if (!n[i]) mc_prune(); { E e = VECT_POP_FRONT(&V[i]); mc_note("pop_front"); MC_ASSERT(eq(e, M[i][0]), "pop_front", "wrong element"); n[i]--; memmove(&M[i][0], &M[i][1], n[i] * sizeof(int)); break; }
    case 4: VECT_APPEND_VECT(&V[0], &V[1]); memcpy(&M[0][n[0]], M[1], n[1] * sizeof(int)); n[0] += n[1]; mc_note("append other"); break;
    case 5: VECT_COPY(&V[1], &V[0]); memcpy(M[1], M[0], sizeof M[0]); n[1] = n[0]; mc_note("copy to other"); break;
    case 6: VECT_SWAP(&V[0], &V[1]); { int t[200]; memcpy(t, M[0], sizeof t); memcpy(M[0], M[1], sizeof t); memcpy(M[1], t, sizeof t); int x = n[0]; n[0] = n[1]; n[1] = x; } mc_note("swap"); break;
    case 7: { size_t w = (size_t[]){ 1, n[i], n[i] + 1, 2 * n[i] + 3, VECT_CAPACITY(&V[i]), VECT_CAPACITY(&V[i]) + 1 }[mc_choose(6)]; mc_note("reserve %zu", w); VECT_RESERVE(&V[i], w); MC_ASSERT(VECT_CAPACITY(&V[i]) >= w, "reserve", "capacity %zu after reserving %zu", VECT_CAPACITY(&V[i]), w); break; }
    case 8: { int x = mc_choose(4); mc_note("ensure %d", x); VECT_ENSURE(&V[i], x); MC_ASSERT(VECT_CAPACITY(&V[i]) >= (size_t)n[i] + x, "ensure", "capacity %zu after ensuring %d more than %d", VECT_CAPACITY(&V[i]), x, n[i]);
        for (int k = 0; k < x; k++) { int v = nextv++; VECT_GET_NEXT(&V[i]) = mk(v); M[i][n[i]++] = v; } break; }
    case 9: VECT_SORT(&V[i], cmp); qsort(M[i], n[i], sizeof(int), icmp); mc_note("sort"); break;
    case 10: VECT_RESET(&V[i]); n[i] = 0; mc_note("reset"); break;
    case 11: if (!n[i]) mc_prune(); VECT_POP(&V[i]); n[i]--; mc_note("pop"); break;
    case 12: if (n[0] > 40) mc_prune(); VECT_APPEND_VECT(&V[0], &V[0]); memcpy(&M[0][n[0]], M[0], n[0] * sizeof(int)); n[0] *= 2; mc_note("append self"); break;
    case 13: { lcg = 7 + mc_choose(2); VECT_SHUFFLE(&V[i], rnd); mc_note("shuffle"); /* any permutation */
        int used[200] = { 0 }, nm2[200]; for (int k = 0; k < n[i]; k++) { int j; for (j = 0; j < n[i]; j++) if (!used[j] && eq(VECT_ELEM(&V[i], k), M[i][j])) break; MC_ASSERT(j < n[i], "shuffle", "shuffling changes the elements"); used[j] = 1; nm2[k] = M[i][j]; } memcpy(M[i], nm2, n[i] * sizeof(int)); break; }
    case 14: { size_t k = mc_choose(5); lcg = 3; int r = VECT_SAMPLE(&V[1], &V[0], k, rnd); mc_note("sample %zu -> %d", k, r); MC_ASSERT(r == (k < (size_t)n[0]), "sample", "sampling %zu of %d gives %d", k, n[0], r); if (!r) break; MC_ASSERT(VECT_LEN(&V[1]) == k, "sample", "%zu samples instead of %zu", VECT_LEN(&V[1]), k);
        int used[200] = { 0 }; n[1] = (int)k; for (size_t q = 0; q < k; q++) { int j; for (j = 0; j < n[0]; j++) if (!used[j] && eq(VECT_ELEM(&V[1], q), M[0][j])) break; MC_ASSERT(j < n[0], "sample", "sample %zu is not an element (or taken twice)", q); used[j] = 1; M[1][q] = M[0][j]; } break; }
    case 15: if (!n[i]) mc_prune(); { E e = VECT_RAND_ELEM(&V[i], rnd); int j; for (j = 0; j < n[i]; j++) if (eq(e, M[i][j])) break; MC_ASSERT(j < n[i], "rand_elem", "not an element"); break; }
    case 16: { vec t; VECT_INIT_FROM(&t, &V[0]); VECT_FINI(&V[1]); V[1] = t; memcpy(M[1], M[0], sizeof M[0]); n[1] = n[0]; mc_note("init other from this"); break; }
    case 17: VECT_COPY(&V[0], &V[1]); memcpy(M[0], M[1], sizeof M[0]); n[0] = n[1]; mc_note("copy from other"); break;
    case 18: VECT_FINI(&V[0]); MC_ASSERT(VECT_LEN(&V[0]) == 0, "fini", "length after fini"); VECT_INIT(&V[0], 2); n[0] = 0; mc_note("fini, init"); break;
    case 19: { int v = nextv++; E e = mk(v); VECT_PUSH_BACK(&V[1], e); M[1][n[1]++] = v; mc_note("push_back on other %d", v); break; }
    }
    check(0); check(1); mc_state(hs());
}
static void run(long arg)
{
    int depth = (int)(arg & 15), c0 = (int)(arg >> 4) & 15, pre = (int)(arg >> 8) & 31, nops = (int)(arg >> 16);
    n[0] = n[1] = 0; nextv = 1; lcg = 1;
    VECT_INIT(&V[0], c0 & 7 ? c0 & 7 : 0); VECT_INIT(&V[1], 1);
    MC_ASSERT(VECT_CAPACITY(&V[0]) >= (size_t)(c0 & 7), "init", "capacity %zu after asking for %d", VECT_CAPACITY(&V[0]), c0 & 7);
    for (int k = 0; k < pre; k++) { E e = mk(nextv); VECT_PUSH_BACK(&V[0], e); M[0][n[0]++] = nextv++; }
    check(0); check(1);
    for (int d = 0; d < depth + mc_tier(); d++) step(nops);
    VECT_FINI(&V[0]); VECT_FINI(&V[1]);
    MC_ASSERT(mc_live_blocks() == 0, "leak", "%zu blocks left", mc_live_blocks());
}
/* sampling and shuffling: every answer of the random number generator */
static void r_rand(long arg)
{
    n[0] = n[1] = 0; nextv = 1;
    VECT_INIT(&V[0], 1); VECT_INIT(&V[1], 1 + mc_choose(3));
    int sz = mc_choose(5);
    for (int k = 0; k < sz; k++) { E e = mk(nextv); VECT_PUSH_BACK(&V[0], e); M[0][n[0]++] = nextv++; }
    mc_op();
    if (arg == 0) {
        size_t k = mc_choose(5); mc_site("VECT_SAMPLE");
        int r = VECT_SAMPLE(&V[1], &V[0], k, crnd);
        MC_ASSERT(r == (k < (size_t)n[0]), "sample", "sampling %zu of %d gives %d", k, n[0], r);
        if (r) {
            MC_ASSERT(VECT_LEN(&V[1]) == k && VECT_CAPACITY(&V[1]) >= k, "sample", "%zu samples instead of %zu", VECT_LEN(&V[1]), k);
            int used[8] = { 0 };
            for (size_t q = 0; q < k; q++) { int j; for (j = 0; j < n[0]; j++) if (!used[j] && eq(VECT_ELEM(&V[1], q), M[0][j])) break; MC_ASSERT(j < n[0], "sample", "sample %zu is not an element (or taken twice)", q); used[j] = 1; }
        }
        check(0);
    } else {
        mc_site("VECT_SHUFFLE"); VECT_SHUFFLE(&V[0], crnd);
        MC_ASSERT(VECT_LEN(&V[0]) == (size_t)sz, "shuffle", "length changed");
        int used[8] = { 0 };
        for (int q = 0; q < sz; q++) { int j; for (j = 0; j < sz; j++) if (!used[j] && eq(VECT_ELEM(&V[0], q), M[0][j])) break; MC_ASSERT(j < sz, "shuffle", "not a permutation"); used[j] = 1; mc_state(mc_mix(q, j)); }
    }
    VECT_FINI(&V[0]); VECT_FINI(&V[1]);
    MC_ASSERT(mc_live_blocks() == 0, "leak", "%zu blocks left", mc_live_blocks());
}
/* vectors around powers of two */
static int gv(size_t i) { return (int)((i * 7919) % 1000003); }
static void bchk(vec *v, size_t cnt, size_t shift, const char *what)
{
    MC_ASSERT(VECT_LEN(v) == cnt && VECT_CAPACITY(v) >= cnt, "big-len", "%s: length %zu, capacity %zu, expected %zu elements", what, VECT_LEN(v), VECT_CAPACITY(v), cnt);
    MC_ASSERT(!v->arr || mc_block_size(v->arr) >= VECT_CAPACITY(v) * sizeof(E), "big-storage", "%s: storage of %zu bytes for capacity %zu", what, v->arr ? mc_block_size(v->arr) : 0, VECT_CAPACITY(v));
    for (size_t k = 0; k < cnt; k++) MC_ASSERT(eq(VECT_ELEM(v, k), gv(k + shift)), "big-elem", "%s: element %zu of %zu is wrong", what, k, cnt);
    E *p; size_t k = 0; VECT_FOR_EACH(v, p) { MC_ASSERT(k < cnt && eq(*p, gv(k + shift)), "big-each", "%s: iteration wrong at %zu", what, k); k++; }
    MC_ASSERT(k == cnt, "big-each", "%s: iteration visits %zu of %zu", what, k, cnt);
}
static int ecmp(const void *x, const void *y) { int c = memcmp(x, y, sizeof(E)); return c; }
static void r_big(long k)
{
    int a = mc_choose((int)k - 2) + 3, d = mc_choose(3) - 1, o = mc_choose(6), cap = (int[]){ 1, 0, 3 }[mc_choose(3)];
    size_t sz = (size_t)((1l << a) + d); vec v, w; mc_op(); mc_note("%zu elements, first capacity %d, case %d", sz, cap, o); mc_site("big vector case %d", o);
    VECT_INIT(&v, cap); VECT_INIT(&w, 1);
    if (o == 1 && sz > 5000) mc_prune();
    if (o == 1) { for (size_t i = sz; i-- > 0;) { E e = mk(gv(i)); VECT_PUSH_FRONT(&v, e); } }
    else if (o == 2) { VECT_RESERVE(&v, sz); MC_ASSERT(VECT_CAPACITY(&v) >= sz, "big-reserve", "capacity %zu after reserving %zu", VECT_CAPACITY(&v), sz); VECT_ENSURE(&v, sz); for (size_t i = 0; i < sz; i++) VECT_GET_NEXT(&v) = mk(gv(i)); }
    else for (size_t i = 0; i < sz; i++) { E e = mk(gv(i)); VECT_PUSH_BACK(&v, e); }
    bchk(&v, sz, 0, "filled");
    switch (o) {
    case 0: for (size_t i = sz; i-- > 0;) { E e = VECT_POP_BACK(&v); MC_ASSERT(eq(e, gv(i)) && VECT_LEN(&v) == i, "big-pop", "pop_back gives a wrong element with %zu left", i); } break;
    case 1: for (size_t i = 0; i < sz && i < 40; i++) { E e = VECT_POP_FRONT(&v); MC_ASSERT(eq(e, gv(i)), "big-pop", "pop_front gives a wrong element"); } bchk(&v, sz > 40 ? sz - 40 : 0, 40, "pop_front"); break;
    case 2: { vec t; VECT_INIT_FROM(&t, &v); bchk(&t, sz, 0, "init_from"); VECT_FINI(&t); VECT_COPY(&w, &v); bchk(&w, sz, 0, "copy"); bchk(&v, sz, 0, "copied"); break; }
    case 3: { for (size_t i = 0; i < 5; i++) { E e = mk(gv(i)); VECT_PUSH_BACK(&w, e); } VECT_RESET(&w); for (size_t i = 0; i < 7; i++) { E e = mk(gv(i)); VECT_PUSH_BACK(&w, e); }
        vec u; VECT_INIT(&u, 1); for (size_t i = 7; i < sz; i++) { E e = mk(gv(i)); VECT_PUSH_BACK(&u, e); } VECT_APPEND_VECT(&w, &u); bchk(&w, sz > 7 ? sz : 7, 0, "append"); VECT_FINI(&u); VECT_SWAP(&v, &w); bchk(&v, sz > 7 ? sz : 7, 0, "swap"); bchk(&w, sz, 0, "swap"); break; }
    case 4: { /* sort; shuffle: the same elements, in an order that moved (n! orders, one of which is the old one) */
        VECT_SORT(&v, ecmp); for (size_t i = 1; i < sz; i++) MC_ASSERT(ecmp(&VECT_ELEM(&v, i - 1), &VECT_ELEM(&v, i)) <= 0, "big-sort", "not in order at %zu", i);
        VECT_COPY(&w, &v); lcg = 5; VECT_SHUFFLE(&v, rnd); MC_ASSERT(VECT_LEN(&v) == sz, "big-shuffle", "length changed"); size_t same = 0;
        if (sz >= 100) { /* every part of a big vector takes part: no long run of elements stays in its place */ for (size_t i = 0; i < sz; i++) { same = !ecmp(&VECT_ELEM(&v, i), &VECT_ELEM(&w, i)) ? same + 1 : 0; MC_ASSERT(same < 50, "big-shuffle", "elements %zu to %zu of %zu were not moved by shuffling", i - same + 1, i, sz); } }
        VECT_SORT(&v, ecmp); for (size_t i = 0; i < sz; i++) MC_ASSERT(!ecmp(&VECT_ELEM(&v, i), &VECT_ELEM(&w, i)), "big-shuffle", "shuffling changes the elements"); break; }
    case 5: { size_t q = mc_choose(3) == 0 ? sz / 2 : 20; lcg = 3; if (q >= sz) q = sz - 1; int r = VECT_SAMPLE(&w, &v, q, rnd); MC_ASSERT(r && VECT_LEN(&w) == q, "big-sample", "sampling %zu of %zu gives %d, %zu elements", q, sz, r, VECT_LEN(&w)); bchk(&v, sz, 0, "sampled");
        unsigned char *used = calloc(sz, 1); uint32_t *pos = calloc(1000003, 4); size_t top = 0; for (size_t i = 0; i < sz; i++) pos[gv(i)] = (uint32_t)i + 1;
        for (size_t i = 0; i < q; i++) { size_t j = sz;
#ifdef BIGELEM
            uint32_t x = VECT_ELEM(&w, i).a * 244002641u; /* the inverse of 2654435761 */ if (x < 1000003 && pos[x] && eq(VECT_ELEM(&w, i), (int)x)) j = pos[x] - 1;
#else
            int x = VECT_ELEM(&w, i); if (x >= 0 && x < 1000003 && pos[x]) j = pos[x] - 1;
#endif
            MC_ASSERT(j < sz && !used[j], "big-sample", "sample %zu of %zu is not an element, or taken twice", i, q); used[j] = 1; if (j > top) top = j; }
        free(used); free(pos);
        if (q >= 20) MC_ASSERT(top >= sz / 4, "big-sample", "%zu samples of %zu elements, none beyond element %zu", q, sz, top); break; }
    }
    mc_state(mc_mix(sz, o)); VECT_FINI(&v); VECT_FINI(&w);
    MC_ASSERT(mc_live_blocks() == 0, "leak", "%zu blocks left", mc_live_blocks());
}
/* with every answer of the generator equally likely, every order and every choice of k comes up equally often */
static int od[8], odn, odp, odM, odbad; static size_t ornd(void) { if (odp >= 7) { odbad = 1; return 0; } if (odp >= odn) { od[odn++] = 0; } return (size_t)od[odp++]; }
static void r_fair(long arg)
{
    int sz = 1 + mc_choose(4), k = arg ? 0 : mc_choose(sz); static long cnt[4096]; memset(cnt, 0, sizeof cnt); odM = 12; odn = odbad = 0; long runs = 0; vec v, w; VECT_INIT(&v, 1); VECT_INIT(&w, 1); mc_op(); mc_site(arg ? "VECT_SHUFFLE" : "VECT_SAMPLE"); int digits = -1;
    for (;;) {
        VECT_RESET(&v); for (int i = 0; i < sz; i++) { E e = mk(i + 1); VECT_PUSH_BACK(&v, e); }
        odp = 0; if (arg) VECT_SHUFFLE(&v, ornd); else (void)VECT_SAMPLE(&w, &v, (size_t)k, ornd);
        if (digits < 0) digits = odp; if (odbad || odp != digits) mc_prune(); /* takes more answers than a fair walk needs: not enumerated */
        int code = 0; if (arg) for (int i = 0; i < sz; i++) { for (int q = 1; q <= sz; q++) if (eq(VECT_ELEM(&v, i), q)) code = code * 5 + q; } else for (int i = 0; i < k; i++) { for (int q = 1; q <= sz; q++) if (eq(VECT_ELEM(&w, i), q)) code |= 1 << q; }
        cnt[code]++; runs++;
        int i = digits - 1; while (i >= 0 && ++od[i] == odM) od[i--] = 0; if (i < 0) break;
    }
    long kinds = 0, ways = 1; if (arg) for (int i = 2; i <= sz; i++) ways *= i; else { for (int i = 0; i < k; i++) ways = ways * (sz - i) / (i + 1); }
    for (int i = 0; i < 4096; i++) if (cnt[i]) { kinds++; MC_ASSERT(cnt[i] * ways == runs, "fair", "%s of %d: one outcome comes up %ld times in %ld instead of %ld", arg ? "shuffling" : "sampling", sz, cnt[i], runs, runs / ways); }
    MC_ASSERT(kinds == ways, "fair", "%s of %d: %ld outcomes instead of %ld", arg ? "shuffling" : "sampling", sz, kinds, ways); mc_state(mc_mix(sz * 8 + k, arg)); VECT_FINI(&v); VECT_FINI(&w);
}
#define A(d, c, p, o) ((d) | (c) << 4 | (p) << 8 | (o) << 16)
const mc_scenario mc_scenarios[] = {
    { "all ops, cap 1", run, A(4, 1, 0, 20), 0, 2, MC_F_LEAK }, { "all ops, cap 2, 3 in", run, A(4, 2, 3, 20), 0, 2, MC_F_LEAK }, { "all ops, default cap, 15 in", run, A(4, 0, 15, 20), 0, 2, MC_F_LEAK }, { "all ops, cap 4, 4 in", run, A(4, 4, 4, 20), 0, 2, MC_F_LEAK },
    { "main ops deep, cap 1", run, A(6, 1, 0, 7), 0, 2, MC_F_LEAK }, { "main ops deep, cap 3", run, A(6, 3, 2, 7), 0, 2, MC_F_LEAK },
    { "sizes around powers of two", r_big, 17, 0, 2, MC_F_LEAK }, { "fair sampling", r_fair, 0, 0, 1, MC_F_LEAK }, { "fair shuffle", r_fair, 1, 0, 1, MC_F_LEAK }, { "every sampling", r_rand, 0, 0, 2, MC_F_LEAK }, { "every shuffle", r_rand, 1, 0, 2, MC_F_LEAK },
    { 0 } };
