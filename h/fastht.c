/* C10: every operation sequence on the real fast hash table against a map model */
#ifdef NOSIMD
#include "hashtable/fast-ht.c"
#include "mc.h"
#else
#include "mc.h"
#include <errno.h>
#include "utils/fast-ht.h"
#endif

static uint64_t saltbase, nsalt;
int __wrap_getentropy(void *p, size_t n)
{
    uint64_t v = saltbase + nsalt++ * 0x9e3779b97f4a7c15ull;
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = v >> (8 * (i & 7));
    return 0;
}

#define NK 40
static uint64_t key[NK];
static void *val[NK];            /* model: 0 = absent */
static int nops_done;

/* keys 0..5 are operated on; the rest is filler */
static void mkkeys(int set)
{
    static const uint64_t A[] = { 0x101, 0x201, 0x100, 0x2ff, 0x302, 0x1ff };        /* shared tag 1, tag 0, tag ff */
    static const uint64_t B[] = { 0x8000000000000001ull, 1, 0xffffffffffffff01ull, 0x0100000000000000ull, 0xffffffffffffffffull, 0xff };
    static const uint64_t C[] = { 0x700, 0x600, 0x500, 0x400, 0x300, 0x200 };         /* all tag 0 */
    const uint64_t *s = set == 0 ? A : set == 1 ? B : C;
    for (int i = 0; i < 6; i++) key[i] = s[i];
    for (int i = 6; i < NK; i++) key[i] = set == 2 ? ((uint64_t)(i + 10) << 8) : ((uint64_t)(i + 10) << 8) | (i % 3 ? i : 1);
}
static int msize(void) { int n = 0; for (int i = 0; i < NK; i++) n += val[i] != 0; return n; }
static void verify(ht *h, int filled)
{
    for (int i = 0; i < filled + 6; i++) {
        void *r = (void *)8; int ok = ht_find(h, key[i], &r); mc_op();
        if (val[i]) MC_ASSERT(ok && r == val[i], "find", "key %#llx has value %p, find says %d %p", (unsigned long long)key[i], val[i], ok, r);
        else MC_ASSERT(!ok, "find-absent", "key %#llx is absent, find says %d", (unsigned long long)key[i], ok);
    }
    MC_ASSERT((int)h->nodes == msize(), "size", "table reports %llu keys, has %d", (unsigned long long)h->nodes, msize());
    MC_ASSERT(ht_find(h, 0xdeadbeef01ull, 0) == 0, "find-foreign", "a key never added is found");
}

static const struct { uint32_t size, maxfill; int fill; int set; uint64_t salt; } CFG[] = {
    { 1, 1000, 0, 0, 1 }, { 1, 1000, 4, 0, 1 }, { 1, 1000, 6, 0, 7 }, { 1, 1000, 10, 0, 1 }, { 1, 1000, 13, 2, 1 },
    { 2, 40, 0, 0, 3 }, { 2, 90, 5, 1, 9 }, { 4, 60, 2, 1, 0x8000000000000000ull }, { 1, 1000, 5, 2, 2 }, { 1, 1, 0, 1, 0 }, { 0, 0, 3, 0, 5 }, { 3, 85, 12, 0, 11 },
};
#define NCFG ((int)(sizeof CFG / sizeof CFG[0]))

/* arg: depth*10 + number of keys */
static void run(long arg)
{
    int depth = arg / 10, nk = arg % 10;
    int c = mc_choose(NCFG), nv = 1;
    mkkeys(CFG[c].set); saltbase = CFG[c].salt; nsalt = 0; memset(val, 0, sizeof val);
    mc_note("ht_new(size %u, maxfill %u), %d other keys, key set %d", CFG[c].size, CFG[c].maxfill, CFG[c].fill, CFG[c].set);
    mc_site("ht_new");
    ht *h = ht_new(CFG[c].size, CFG[c].maxfill);
    MC_ASSERT(h, "new", "no table");
    for (int i = 6; i < 6 + CFG[c].fill; i++) { val[i] = (void *)(uintptr_t)(0x1000 + i); MC_ASSERT(ht_probe(h, key[i], val[i]) == 0, "fill", "adding new key %d reports a duplicate", i); }
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(4 * nk), fresh = mc_fresh(), op = o / nk, k = o % nk;
        void *v = (void *)(uintptr_t)(0x10 * nv++), *r = (void *)8;
        mc_op();
        if (op == 0) {
            mc_site("probe %#llx", (unsigned long long)key[k]); mc_note("probe(%#llx, %p)", (unsigned long long)key[k], v);
            r = ht_probe(h, key[k], v);
            if (val[k]) MC_ASSERT(r == val[k], "probe-dup", "probe of existing key %#llx returns %p, stored value is %p", (unsigned long long)key[k], r, val[k]);
            else { MC_ASSERT(r == 0, "probe-new", "probe of new key %#llx returns %p", (unsigned long long)key[k], r); val[k] = v; }
        } else if (op == 1) {
            mc_site("remove %#llx", (unsigned long long)key[k]); mc_note("remove(%#llx)", (unsigned long long)key[k]);
            int ok = ht_remove(h, key[k], d == 1 ? 0 : &r);
            if (val[k]) { MC_ASSERT(ok && (d == 1 || r == val[k]), "remove", "remove of key %#llx: %d %p, value was %p", (unsigned long long)key[k], ok, r, val[k]); val[k] = 0; }
            else MC_ASSERT(!ok, "remove-absent", "remove of absent key %#llx succeeds", (unsigned long long)key[k]);
        } else if (op == 2) {
            mc_site("replace %#llx", (unsigned long long)key[k]); mc_note("replace(%#llx, %p)", (unsigned long long)key[k], v);
            int ok = ht_replace(h, key[k], v);
            MC_ASSERT(!ok == !val[k], "replace", "replace of key %#llx returns %d", (unsigned long long)key[k], ok);
            if (val[k]) val[k] = v;
        } else {
            mc_site("find %#llx", (unsigned long long)key[k]); mc_note("find(%#llx)", (unsigned long long)key[k]);
            int ok = ht_find(h, key[k], d == 1 ? 0 : &r);
            if (val[k]) MC_ASSERT(ok && (d == 1 || r == val[k]), "find", "find of key %#llx: %d %p", (unsigned long long)key[k], ok, r);
            else MC_ASSERT(!ok, "find-absent", "find of absent key %#llx succeeds", (unsigned long long)key[k]);
        }
        if (fresh) { mc_site("verify"); verify(h, CFG[c].fill); uint64_t x = mc_mix(c, d); for (int i = 0; i < nk; i++) x = mc_mix(x, (uint64_t)val[i]); mc_state(mc_mix(x, h->n)); }
    }
    mc_site("ht_del");
    ht_del(h);
}

/* growing by n keys, one at a time, and shrinking again in a chosen order */
static void grow(long arg)
{
    int c = mc_choose(4), order = mc_choose(3), n = (int)arg;
    static const struct { uint32_t size, maxfill; } G[] = { { 1, 1 }, { 2, 50 }, { 4, 85 }, { 8, 100 } };
    saltbase = 17 * order; nsalt = 0;
    int tagmode = mc_choose(3);
    mc_note("grow to %d keys from size %u maxfill %u, removal order %d, tags %d", n, G[c].size, G[c].maxfill, order, tagmode);
    ht *h = ht_new(G[c].size, G[c].maxfill);
    #define KEY(i) (tagmode == 0 ? ((uint64_t)((i) + 1) << 8) : tagmode == 1 ? (uint64_t)(i) + 1 : (((uint64_t)(i) + 1) * 0x9e3779b97f4a7c15ull))
    for (int i = 0; i < n; i++) {
        mc_site("grow probe %d", i); mc_op();
        MC_ASSERT(ht_probe(h, KEY(i), (void *)(uintptr_t)(i + 1)) == 0, "grow-new", "new key %d reported as duplicate", i);
        for (int j = 0; j <= i; j++) { void *v = 0; MC_ASSERT(ht_find(h, KEY(j), &v) && v == (void *)(uintptr_t)(j + 1), "grow-find", "after adding %d keys, key %d is not found", i + 1, j); }
        MC_ASSERT((int)h->nodes == i + 1, "grow-size", "size %llu after adding %d keys", (unsigned long long)h->nodes, i + 1);
        mc_state(mc_mix(mc_mix(c * 3 + order, i), tagmode));
    }
    uint64_t n0 = h->n;
    for (int i = 0; i < n; i++) {
        int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n; void *v = 0;
        if (order == 2 && n % 7 == 0) k = i;
        mc_op();
        MC_ASSERT(ht_remove(h, KEY(k), &v) && v == (void *)(uintptr_t)(k + 1), "grow-remove", "key %d cannot be removed", k);
        MC_ASSERT(!ht_find(h, KEY(k), 0), "grow-removed", "removed key %d is still found", k);
        MC_ASSERT((int)h->nodes == n - 1 - i, "grow-size", "size %llu, expected %d", (unsigned long long)h->nodes, n - 1 - i);
    }
    /* a table whose content stays bounded stays bounded */
    for (int i = 0; i < 3000; i++) { ht_probe(h, KEY(i % n), (void *)1); ht_remove(h, KEY(i % n), 0); }
    MC_ASSERT(h->n <= 2 * n0, "grow-churn", "adding and removing one key over and over grew the table from %llu to %llu buckets", (unsigned long long)n0, (unsigned long long)h->n);
    ht_del(h);
}

/* many keys: numbers around powers of two, five kinds of key, tables of several first sizes */
static void r_bight(long K)
{
    int a = mc_choose((int)K - 2) + 3, d = mc_choose(3) - 1, N = (1 << a) + d, km = mc_choose(5), c = mc_choose(4); saltbase = 77 * c + km; nsalt = 0;
    static const struct { uint32_t size, fill; } G[] = { { 1, 85 }, { 0, 0 }, { 70000, 85 }, { 100, 10 } };
    #define BK(i) (km == 0 ? (uint64_t)(i) + 1 : km == 1 ? ((uint64_t)(i) + 1) << 8 : km == 2 ? ((uint64_t)(i) + 1) * 0x9e3779b97f4a7c15ull : km == 3 ? ((uint64_t)(i) + 1) << 40 : ~(uint64_t)(i))
    #define BV(i) ((void *)((uintptr_t)(i) * 16 + 1))
    mc_op(); mc_note("%d keys of kind %d, size %u", N, km, G[c].size); mc_site("big table"); ht *h = ht_new(G[c].size, G[c].fill); unsigned char *in = calloc(N, 1); uint64_t cnt = 0, n0 = h->n;
    MC_ASSERT((h->n & (h->n - 1)) == 0 && h->n >= G[c].size, "big-size", "a table of %u has %llu buckets", G[c].size, (unsigned long long)h->n);
    for (int i = 0; i < N; i++) { MC_ASSERT(ht_probe(h, BK(i), BV(i)) == 0, "big-new", "new key %d of %d reported as duplicate", i, N); in[i] = 1; cnt++; if ((i & 63) == 5) { void *v = 0; MC_ASSERT(ht_find(h, BK(i / 3), &v) && v == BV(i / 3), "big-find", "key %d lost after %d", i / 3, i); } }
    for (int round = 0; round < 3; round++) {
        if (round == 1) for (int i = 0; i < N; i++) { void *v = 0; if (i % 3 == 0) { MC_ASSERT(ht_remove(h, BK(i), &v) && v == BV(i), "big-remove", "key %d cannot be removed", i); in[i] = 0; cnt--; } else if (i % 3 == 1) { MC_ASSERT(ht_replace(h, BK(i), BV(i + 3)), "big-replace", "key %d cannot be replaced", i); in[i] = 2; } else MC_ASSERT(ht_probe(h, BK(i), BV(0)) == BV(i), "big-dup", "key %d added again", i); }
        if (round == 2) for (int i = N - 1; i >= 0; i--) if (!in[i]) { MC_ASSERT(ht_probe(h, BK(i), BV(i)) == 0, "big-new", "removed key %d reported as duplicate", i); in[i] = 1; cnt++; }
        for (int i = 0; i < N; i++) { void *v = 0; int r = ht_find(h, BK(i), &v); if (in[i]) MC_ASSERT(r && v == (in[i] == 2 ? BV(i + 3) : BV(i)), "big-find", "round %d: key %d of %d has value %p (found: %d)", round, i, N, v, r); else MC_ASSERT(!r && !ht_replace(h, BK(i), BV(0)) && !ht_remove(h, BK(i), 0), "big-absent", "round %d: removed key %d is found", round, i); }
        MC_ASSERT(!ht_find(h, km == 4 ? 1 : BK(N + 3) + (km == 3), 0), "big-absent", "a key never added is found"); MC_ASSERT(h->nodes == cnt, "big-nodes", "round %d: %llu keys counted, there are %llu", round, (unsigned long long)h->nodes, (unsigned long long)cnt);
        uint64_t f = 0, nn = 0; for (uint64_t i = 0; i < h->n; i++) { f += h->b[i].nodes > 0; nn += h->b[i].nodes; MC_ASSERT(h->b[i].nodes <= h->maxn && h->b[i].bags <= h->bagmax, "big-max", "a bucket of %u keys in %u bags; at most %u in %u are claimed", h->b[i].nodes, h->b[i].bags, (unsigned)h->maxn, (unsigned)h->bagmax); }
        MC_ASSERT(f == h->fill && nn == cnt, "big-fill", "%llu buckets counted as filled, there are %llu", (unsigned long long)h->fill, (unsigned long long)f);
        if (N >= 1000) MC_ASSERT(h->fill * 100 / h->n <= (G[c].fill ? G[c].fill : FILLPCT), "big-full", "%llu of %llu buckets filled, no split", (unsigned long long)h->fill, (unsigned long long)h->n);
        if (N >= 1000) MC_ASSERT(h->maxn <= 60, "big-spread", "%d keys, %u in one of %llu buckets", N, (unsigned)h->maxn, (unsigned long long)h->n);
    }
    (void)n0; mc_state(mc_mix(N, km * 4 + c)); ht_del(h); free(in);
}

/* up to seven keys share one bag */
static void bags(long arg)
{
    (void)arg; int n = 1 + mc_choose(21), mode = mc_choose(2);
    saltbase = 1; nsalt = 0;
    ht *h = ht_new(1, 1000);
    mc_note("%d keys in one bucket", n);
    for (int i = 0; i < n; i++) { mc_op(); ht_probe(h, ((uint64_t)(i + 1) << 8) | (mode ? i : 0), (void *)1); }
    MC_ASSERT(h->bagmax <= (uint32_t)(n + 6) / 7, "bags", "%d keys take %u bags of 7", n, h->bagmax);
    mc_state(n * 2 + mode);
    ht_del(h);
}

const mc_scenario mc_scenarios[] = {
    { "sequences-4keys", run, 54, -1, 3, MC_F_LEAK },
    { "sequences-6keys", run, 46, -1, 3, MC_F_LEAK },
    { "sequences-2keys-deep", run, 62, 0, 3, MC_F_LEAK },
    { "numbers of keys around powers of two", r_bight, 16, 0, 2, MC_F_LEAK }, { "grow", grow, 60, 0, 1, MC_F_LEAK },
    { "bags", bags, 0, 0, 1, MC_F_LEAK },
    { "sequences-6keys-deep", run, 56, 1, 3, MC_F_LEAK },
    { "sequences-3keys-deep", run, 63, 1, 3, MC_F_LEAK },
    { "grow-big", grow, 400, 1, 1, MC_F_LEAK },
    { 0 }
};
