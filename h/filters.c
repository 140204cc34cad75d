/* C11 bloom filters, C12 bloom files, C13 xor filters, C14 xor files, C15 atomic save */
#include "fsfault.h"
#include "utils/bloom.h"
#include "utils/xorfilter.h"
#include <math.h>

static uint64_t saltbase, nsalt;
int __wrap_getentropy(void *p, size_t n)
{
    uint64_t v = saltbase + nsalt++ * 0x9e3779b97f4a7c15ull;
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = v >> (8 * (i & 7));
    return 0;
}
/* the temporary name of a save is not a source of nondeterminism we care for */

enum { COUNTING, STANDARD, SCALABLE };
static const char *KIND[] = { "counting", "standard", "scalable" };
static const double E[] = { 0.5, 0.1, 0.01 };
static Bloom *mkbloom(int kind, int n, double e) { return kind == COUNTING ? Counting_bloom_new(n, e) : Standard_bloom_new(n, e, kind == SCALABLE); }
static uint64_t VAL(int i) { static const uint64_t v[] = { 0, 1, 0xffffffffffffffffull, 0x8000000000000000ull, 0x12345678abcdefull }; return i < 5 ? v[i] : (uint64_t)i * 0x9e3779b97f4a7c15ull; }

/* arg: depth*10 + values */
static void bloom_seq(long arg)
{
    int depth = arg / 10, nv = arg % 10, cnt[10] = { 0 };
    int kind = mc_choose(3), n = 1 + mc_choose(3), e = mc_choose(3);
    saltbase = (uint64_t)mc_choose(2) * 0xfedcba9876543211ull; nsalt = 0;
    Bloom *b = mkbloom(kind, n, E[e]);
    MC_ASSERT(b, "new", "no filter");
    mc_note("%s filter n=%d e=%g salt=%#llx", KIND[kind], n, E[e], (unsigned long long)saltbase);
    for (int i = 0; i < nv; i++) MC_ASSERT(!Bloom_find(b, VAL(i)), "empty", "an empty %s filter reports %#llx present", KIND[kind], (unsigned long long)VAL(i));
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(nv * (kind == COUNTING ? 2 : 1)), fresh = mc_fresh(), v = o % nv;
        mc_op();
        if (o < nv) { mc_site("%s probe", KIND[kind]); mc_note("add %#llx", (unsigned long long)VAL(v)); Bloom_probe(b, VAL(v)); cnt[v]++; }
        else {
            mc_site("%s remove", KIND[kind]); mc_note("remove %#llx", (unsigned long long)VAL(v));
            int f = Bloom_find(b, VAL(v));
            if (f && !cnt[v]) mc_prune();   /* a false positive: removing it is the caller's mistake */
            int r = Bloom_remove(b, VAL(v));
            MC_ASSERT(!r == !f, "remove", "removing %#llx, %spresent, returns %d", (unsigned long long)VAL(v), f ? "" : "not ", r);
            if (f) cnt[v]--;
        }
        if (fresh) {
            uint64_t h = mc_mix(kind * 9 + e, n);
            for (int i = 0; i < nv; i++) { mc_op(); if (cnt[i]) MC_ASSERT(Bloom_find(b, VAL(i)), "false-negative", "%s filter: %#llx was added %d times more than removed, but is reported absent", KIND[kind], (unsigned long long)VAL(i), cnt[i]); h = mc_mix(h, cnt[i]); }
            int any = 0; for (int i = 0; i < nv; i++) any |= cnt[i];
            if (!any) for (int i = 0; i < nv; i++) MC_ASSERT(!Bloom_find(b, VAL(i)), "empty-again", "a %s filter emptied again reports %#llx present", KIND[kind], (unsigned long long)VAL(i));
            mc_state(h);
        }
    }
    Bloom_delete(b);
}

/* counters at their limit */
static void bloom_saturate(long arg)
{
    static const int N[] = { 1, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 1024 };
    int n = N[mc_choose(12)], rem = mc_choose(3), e = mc_choose(3), other = mc_choose(4), nn = 1 + mc_choose(2) * 9;
    (void)arg; saltbase = 3; nsalt = 0;
    Bloom *b = Counting_bloom_new(nn, E[e]);
    mc_note("add one element %d times, %d others, removals mode %d", n, other, rem);
    mc_site("counting saturate");
    for (int i = 0; i < other; i++) Bloom_probe(b, VAL(10 + i));
    for (int i = 1; i <= n; i++) { Bloom_probe(b, VAL(7)); mc_op(); MC_ASSERT(Bloom_find(b, VAL(7)), "saturate", "after adding an element %d times it is reported absent", i); for (int j = 0; j < other; j++) MC_ASSERT(Bloom_find(b, VAL(10 + j)), "saturate-other", "after adding another element %d times an element is reported absent", i); }
    int r = rem == 0 ? n - 1 : rem == 1 ? n / 2 : n;
    for (int i = 1; i <= r; i++) {
        Bloom_remove(b, VAL(7)); mc_op();
        if (i < n) MC_ASSERT(Bloom_find(b, VAL(7)), "unsaturate", "element added %d times and removed %d times is reported absent", n, i);
        for (int j = 0; j < other; j++) MC_ASSERT(Bloom_find(b, VAL(10 + j)), "unsaturate-other", "removing another element %d times made an element absent", i);
    }
    mc_state(mc_mix(n, mc_mix(rem * 16 + other, e)));
    Bloom_delete(b);
}

/* long runs: scalable filters past every growth step */
static void bloom_grow(long arg)
{
    int kind = mc_choose(3), n = 1 + mc_choose(3) * 5, e = mc_choose(3); saltbase = mc_choose(4) * 0x1111111111111111ull; nsalt = 0;
    int N = kind == SCALABLE ? (int)arg : 200, mul = mc_choose(2);
    mc_note("%s filter n=%d e=%g: add %d elements", KIND[kind], n, E[e], N);
    Bloom *b = mkbloom(kind, n, E[e]);
    for (int i = 0; i < N; i++) {
        mc_site("grow %s", KIND[kind]); mc_op();
        uint64_t v = mul ? (uint64_t)i : VAL(100 + i);
        Bloom_probe(b, v);
        MC_ASSERT(Bloom_find(b, v), "grow-new", "element %d is absent right after it was added", i);
        if (i < 300 || i % 97 == 0) for (int j = 0; j <= i; j++) MC_ASSERT(Bloom_find(b, mul ? (uint64_t)j : VAL(100 + j)), "grow-old", "after adding element %d, element %d is reported absent", i, j);
        if (i % 16 == 0) mc_state(mc_mix(mc_mix(kind * 3 + e, n), i));
    }
    char buf[20000]; MC_ASSERT(Bloom_desc(b, buf, sizeof buf) == buf && strlen(buf) > 10 && Bloom_name(b), "desc", "no description");
    Bloom_delete(b);
}

#ifdef P_C11
/* big filters: sizes around powers of two */
static void bloom_big(long K)
{
    int kind = mc_choose(3), a = mc_choose((int)K - 2) + 3, d = mc_choose(3) - 1, N = (1 << a) + d, e = mc_choose(3), set = mc_choose(3); saltbase = 0x1234 * (unsigned)a + 5; nsalt = 0;
    mc_op(); mc_note("%s filter for %d elements, e=%g, key set %d", KIND[kind], N, E[e], set); mc_site("big %s", KIND[kind]);
    #define BV(i) (set == 0 ? (uint64_t)(i) : set == 1 ? VAL(100 + (i)) : ((uint64_t)(i) << 40 | 7))
    Bloom *b = mkbloom(kind, N, E[e]); MC_ASSERT(b, "new", "no filter");
    for (int i = 0; i < 50; i++) MC_ASSERT(!Bloom_find(b, BV(i * 3)), "big-empty", "an empty filter reports an element present");
    for (int i = 0; i < N; i++) { Bloom_probe(b, BV(i)); MC_ASSERT(Bloom_find(b, BV(i)), "big-new", "element %d of %d is absent right after it was added", i, N); }
    for (int i = 0; i < N; i++) MC_ASSERT(Bloom_find(b, BV(i)), "big-old", "element %d of %d is reported absent", i, N);
    if (kind == COUNTING) { for (int i = 0; i < N; i += 2) MC_ASSERT(Bloom_remove(b, BV(i)), "big-remove", "element %d of %d cannot be removed", i, N); for (int i = 1; i < N; i += 2) MC_ASSERT(Bloom_find(b, BV(i)), "big-removed", "removing others made element %d of %d absent", i, N); for (int i = 1; i < N; i += 2) Bloom_remove(b, BV(i)); for (int i = 0; i < N; i++) MC_ASSERT(!Bloom_find(b, BV(i)), "big-emptied", "an emptied filter of %d reports element %d present", N, i); }
    else if (kind == SCALABLE) { for (int i = N; i < 3 * N; i++) Bloom_probe(b, BV(i)); for (int i = 0; i < 3 * N; i++) MC_ASSERT(Bloom_find(b, BV(i)), "big-grown", "element %d of %d is reported absent in a filter made for %d", i, 3 * N, N); }
    mc_state(mc_mix(kind * 9 + e * 3 + set, N)); Bloom_delete(b);
}
#endif
static char path[300];
#ifndef P_C11
#ifndef P_C13
#define IMG (1 << 22)
static unsigned char img[IMG], img2[IMG];
#endif
#endif

static Bloom *some_bloom(int kind, int n, int e, int fill)
{
    saltbase = 77 + fill; nsalt = 0;
    Bloom *b = mkbloom(kind, n, E[e]);
    for (int i = 0; i < fill; i++) Bloom_probe(b, VAL(i));
    return b;
}
#ifdef P_C12
static void same(Bloom *a, Bloom *b, int nval, const char *how)
{
    MC_ASSERT(Bloom_eq(a, b), "not-equal", "filter loaded by %s differs from the one saved", how);
    MC_ASSERT(a->typ == b->typ && a->n == b->n && a->e == b->e, "params", "filter loaded by %s: kind %d n %llu e %g, saved kind %d n %llu e %g", how, b->typ, (unsigned long long)b->n, b->e, a->typ, (unsigned long long)a->n, a->e);
    MC_ASSERT(!strcmp(Bloom_name(a), Bloom_name(b)), "name", "filter loaded by %s has another name", how);
    for (int i = 0; i < nval; i++) { mc_op(); MC_ASSERT(!Bloom_find(a, VAL(i)) == !Bloom_find(b, VAL(i)), "query", "filter loaded by %s answers differently for %#llx", how, (unsigned long long)VAL(i)); }
}
/* arg: damage kinds */
static void bloom_file(long arg)
{
    int kind = mc_choose(3), n = 1 + mc_choose(2) * 7, e = mc_choose(2) + (arg ? 1 : 0), fill = mc_choose(3);
    if (fill == 2) fill = kind == SCALABLE ? 40 : 5;
    snprintf(path, sizeof path, "%s/f", mc_scratch());
    Bloom *b = some_bloom(kind, n, e, fill);
    mc_site("marshal");
    fs_begin(0, 0);
    int r = Bloom_marshal(b, path);
    fs_end();
    MC_ASSERT(r == 0, "marshal", "saving fails with %d", r);
    MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "save-leak", "saving leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
    long sz = fs_get(path, img, sizeof img);
    MC_ASSERT(sz > 0 && sz < (long)sizeof img, "size", "file of %ld bytes", sz);
    int op = mc_choose(4);
    if (op == 0) {           /* undamaged, both ways */
        for (int mm = 0; mm < 2; mm++) {
            Bloom *c = 0;
            mc_site("unmarshal mmap=%d", mm); mc_note("save %s filter n=%d with %d elements, load with mmap=%d", KIND[kind], n, fill, mm);
            fs_begin(0, 0);
            r = Bloom_unmarshal(&c, path, mm ? BLOOM_BITMAP_MMAP : 0);
            fs_on = 0;
            MC_ASSERT(r == 0 && c, "unmarshal", "loading an intact file (mmap=%d) fails with %d", mm, r);
            same(b, c, 60, mm ? "mapping" : "reading");
            if (!mm) {       /* it goes on working */
                int more = kind == SCALABLE ? 60 : 6;
                for (int i = 0; i < more; i++) { Bloom_probe(c, VAL(200 + i)); MC_ASSERT(Bloom_find(c, VAL(200 + i)), "use", "a loaded filter loses an element added to it"); }
                for (int i = 0; i < fill; i++) MC_ASSERT(Bloom_find(c, VAL(i)), "use-old", "a loaded filter loses an old element when used");
                if (kind == COUNTING && fill) { MC_ASSERT(Bloom_remove(c, VAL(0)), "use-remove", "a loaded filter cannot remove"); for (int i = 1; i < fill; i++) MC_ASSERT(Bloom_find(c, VAL(i)), "use-removed", "a loaded filter loses an element by removing another"); }
            }
            mc_site("delete loaded mmap=%d", mm);
            fs_on = 1; Bloom_delete(c); fs_on = 0;
            MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "load-leak", "loading and deleting (mmap=%d) leaves %d descriptors and %d mappings", mm, fs_openfds, fs_maps);
        }
        mc_state(mc_hash(0, img, sz));
    } else {
        long at, nsz = sz;
        int mm = mc_choose(2);
        memcpy(img2, img, sz);
        if (op == 1) { at = mc_choose((int)sz); int bit = mc_choose(8); img2[at] ^= 1 << bit; mc_note("%s filter file of %ld bytes: bit %d of byte %ld flipped, load with mmap=%d", KIND[kind], sz, bit, at, mm); }
        else if (op == 2) { nsz = mc_choose((int)sz); at = nsz; mc_note("%s filter file cut from %ld to %ld bytes, load with mmap=%d", KIND[kind], sz, nsz, mm); }
        else { int extra = 1 + mc_choose(70); memset(img2 + sz, 0, extra); nsz = sz + extra; at = sz; mc_note("file with %d bytes appended", extra); }
        fs_put(path, img2, nsz);
        Bloom *c = 0;
        mc_site("unmarshal damaged op=%d", op);
        fs_begin(0, 0);
        r = Bloom_unmarshal(&c, path, mm ? BLOOM_BITMAP_MMAP : 0);
        fs_on = 0; mc_op();
        MC_ASSERT(r < 0 || (r == 0 && Bloom_eq(b, c)), "damaged-accepted", "a %s filter file damaged at byte %ld (kind of damage %d) is accepted", KIND[kind], at, op);
        if (r == 0) MC_ASSERT(b->n == c->n && b->e == c->e && b->typ == c->typ, "damaged-params", "a file damaged at byte %ld loads with other parameters", at);
        if (r == 0) { fs_on = 1; Bloom_delete(c); fs_on = 0; }
        MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "refuse-leak", "refusing a damaged file leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
        mc_state(mc_mix(mc_mix(at, nsz), kind));
    }
    Bloom_delete(b);
    unlink(path);
    MC_ASSERT(fs_count(mc_scratch()) == 0, "stray", "saving leaves stray files behind");
}
/* big files */
static void bloom_bigfile(long K)
{
    int kind = mc_choose(3), a = mc_choose((int)K - 2) + 3, d = mc_choose(3) - 1, N = (1 << a) + d, e = mc_choose(2) * 2; saltbase = 77; nsalt = 0; Bloom *x = mkbloom(kind, N, E[e]); snprintf(path, sizeof path, "%s/f", mc_scratch());
    int fill = kind == SCALABLE ? 2 * N : N; for (int i = 0; i < fill; i++) Bloom_probe(x, VAL(i + 10));
    mc_op(); mc_note("%s filter of %d", KIND[kind], N); mc_site("marshal"); fs_begin(0, 0); int r = Bloom_marshal(x, path); fs_end(); MC_ASSERT(r == 0, "marshal", "saving fails with %d", r); MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "save-leak", "saving leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
    long sz = fs_get(path, img, sizeof img); MC_ASSERT(sz > 0 && sz < (long)sizeof img, "size", "file of %ld bytes", sz);
    int op = mc_choose(3), mm = mc_choose(2); Bloom *c = 0;
    if (op == 0) {
        mc_site("unmarshal big mmap=%d", mm); fs_begin(0, 0); r = Bloom_unmarshal(&c, path, mm ? BLOOM_BITMAP_MMAP : 0); fs_on = 0; MC_ASSERT(r == 0 && c, "unmarshal", "loading an intact file of %ld bytes (mmap=%d) fails with %d", sz, mm, r);
        for (int i = 0; i < 3 * N + 3000; i++) { uint64_t k = VAL(i + 10); MC_ASSERT(!Bloom_find(x, k) == !Bloom_find(c, k), "big-query", "the filter of %d loaded (mmap=%d) answers differently for key %d", N, mm, i); if (i < N) MC_ASSERT(Bloom_find(c, k), "big-missing", "the filter of %d loaded (mmap=%d) lacks element %d", N, mm, i); }
        MC_ASSERT(Bloom_eq(x, c), "not-equal", "the filter loaded differs from the one saved"); if (!mm) { for (int i = 0; i < 300; i++) Bloom_probe(c, VAL(500000 + i)); for (int i = 0; i < N; i++) MC_ASSERT(Bloom_find(c, VAL(i + 10)), "big-use", "a loaded filter loses element %d when used", i); }
        fs_on = 1; Bloom_delete(c); fs_on = 0; MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "load-leak", "loading and deleting (mmap=%d) leaves %d descriptors and %d mappings", mm, fs_openfds, fs_maps);
    } else {
        long at[12] = { 0, 31, 32, 63, 64, 200, 4095, 4096, sz / 2, sz - 1, sz - 33, 65536 }, p = at[mc_choose(12)]; if (p >= sz) mc_prune(); memcpy(img2, img, sz); long nsz = sz; if (op == 1) img2[p] ^= 0x10; else nsz = p; fs_put(path, img2, nsz); mc_note("%s byte %ld of %ld, load with mmap=%d", op == 1 ? "damaged" : "cut at", p, sz, mm);
        mc_site("unmarshal big damaged op=%d", op); fs_begin(0, 0); r = Bloom_unmarshal(&c, path, mm ? BLOOM_BITMAP_MMAP : 0); fs_on = 0;
        MC_ASSERT(r < 0 || (r == 0 && Bloom_eq(x, c)), "big-damaged", "a filter file of %ld bytes %s byte %ld is accepted (mmap=%d)", sz, op == 1 ? "damaged at" : "cut at", p, mm); if (r == 0) { fs_on = 1; Bloom_delete(c); fs_on = 0; }
        MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "refuse-leak", "refusing a damaged file leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
    }
    mc_state(mc_mix(mc_mix(N, op * 2 + mm), kind * 2 + e)); Bloom_delete(x); unlink(path); MC_ASSERT(fs_count(mc_scratch()) == 0, "stray", "saving leaves stray files behind");
}
#endif

/* ------------------------------------------------------------- xor filters */
static uint64_t KEY(int set, int i)
{
    switch (set) {
    case 0: return i;
    case 1: return (uint64_t)i << 32;
    case 2: return 0xffffffffffffffffull - i;
    case 3: return (uint64_t)(i + 1) * 0x9e3779b97f4a7c15ull;
    default: return i < 64 ? 1ull << i : ~(uint64_t)i;
    }
}
#ifdef P_C13
static void xor_build(long arg)
{
    int n = 1 + mc_choose((int)arg), set = mc_choose(5), is16 = mc_choose(2);
    saltbase = mc_choose(6) * 0x0123456789abcdefull; nsalt = 0;
    uint64_t *k = (uint64_t *)malloc(n * sizeof *k);
    for (int i = 0; i < n; i++) k[i] = KEY(set, i);
    mc_note("build %d-bit filter of %d keys, key set %d", is16 ? 16 : 8, n, set);
    mc_site("build n=%d", n);
    Xorfilter *x = is16 ? Xorfilter_new16(k, n) : Xorfilter_new8(k, n);
    MC_ASSERT(x, "build", "no filter for %d distinct keys of set %d", n, set);
    for (int i = 0; i < n; i++) { mc_op(); MC_ASSERT(k[i] == KEY(set, i), "keys", "building changes the keys"); MC_ASSERT(Xorfilter_contains(x, k[i]), "missing", "key %#llx of %d is not in the %d-bit filter built from it", (unsigned long long)k[i], n, is16 ? 16 : 8); }
    int fp = 0; for (int i = 0; i < 4096; i++) fp += !!Xorfilter_contains(x, 0x5555000000000000ull + i * 77);
    MC_ASSERT(fp < (is16 ? 60 : 400), "accepts-all", "%d of 4096 foreign keys are accepted by the %d-bit filter", fp, is16 ? 16 : 8);
    MC_ASSERT(Xorfilter_bpe(x) > 0, "bpe", "bits per entry");
    free(k);
    Xorfilter_delete(x);
    mc_state(mc_mix(n * 10 + set * 2 + is16, saltbase));
}
/* every subset of a small universe */
static void xor_subset(long arg)
{
    uint64_t k[16]; int n = 0, is16 = mc_choose(2), set = mc_choose(5);
    saltbase = 99; nsalt = 0;
    for (int i = 0; i < arg; i++) if (mc_choose(2)) k[n++] = KEY(set, i);
    if (n == 0) { mc_trivial(); return; }
    mc_note("subset of %d keys from set %d", n, set);
    uint64_t *kk = (uint64_t *)malloc(n * 8); memcpy(kk, k, n * 8);
    mc_site("build subset n=%d", n);
    Xorfilter *x = is16 ? Xorfilter_new16(kk, n) : Xorfilter_new8(kk, n);
    MC_ASSERT(x, "build", "no filter for %d distinct keys", n);
    for (int i = 0; i < n; i++) { mc_op(); MC_ASSERT(Xorfilter_contains(x, k[i]), "missing", "key %#llx is not in the filter", (unsigned long long)k[i]); }
    free(kk); Xorfilter_delete(x);
    uint64_t h = set * 2 + is16; for (int i = 0; i < n; i++) h = mc_mix(h, k[i]); mc_state(h);
}
/* big filters */
static void xor_big(long K)
{
    int a = mc_choose((int)K - 2) + 3, d = mc_choose(3) - 1, n = (1 << a) + d, set = mc_choose(5), is16 = mc_choose(2); saltbase = mc_choose(2) * 0x0123456789abcdefull; nsalt = 0;
    uint64_t *k = (uint64_t *)malloc(n * sizeof *k); for (int i = 0; i < n; i++) k[i] = KEY(set, i);
    mc_op(); mc_note("%d-bit filter of %d keys, key set %d", is16 ? 16 : 8, n, set); mc_site("big xor filter"); Xorfilter *x = is16 ? Xorfilter_new16(k, n) : Xorfilter_new8(k, n); MC_ASSERT(x, "build", "no filter for %d distinct keys of set %d", n, set);
    for (int i = 0; i < n; i++) { MC_ASSERT(k[i] == KEY(set, i), "keys", "building changes the keys"); MC_ASSERT(Xorfilter_contains(x, k[i]), "missing", "key %d of %d is not in the %d-bit filter built from it", i, n, is16 ? 16 : 8); }
    int fp = 0; int probes = n < 1000 ? 10 : is16 ? 400000 : 40000; for (int i = 0; i < probes; i++) fp += !!Xorfilter_contains(x, 0x5555000000000000ull + i * 77ull);
    if (n >= 1000) MC_ASSERT(fp < (is16 ? 30 : 300), "big-accepts", "%d of %d foreign keys are accepted by the %d-bit filter of %d", fp, probes, is16 ? 16 : 8, n);
    free(k); Xorfilter_delete(x); mc_state(mc_mix(n * 10 + set * 2 + is16, saltbase));
}
#endif
static Xorfilter *some_xor(int n, int is16, int set)
{
    uint64_t k[64]; for (int i = 0; i < n; i++) k[i] = KEY(set, i);
    saltbase = 5 + set; nsalt = 0;
    return is16 ? Xorfilter_new16(k, n) : Xorfilter_new8(k, n);
}
#ifdef P_C14
static void xor_file(long arg)
{
    static const int N[] = { 1, 3, 20, 60 };
    int n = N[mc_choose(arg ? 4 : 2) + (arg ? 0 : 1)], is16 = mc_choose(2);
    snprintf(path, sizeof path, "%s/f", mc_scratch());
    Xorfilter *x = some_xor(n, is16, 3);
    mc_site("marshal");
    fs_begin(0, 0); int r = Xorfilter_marshal(x, path); fs_end();
    MC_ASSERT(r == 0, "marshal", "saving fails with %d", r);
    MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "save-leak", "saving leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
    long sz = fs_get(path, img, sizeof img);
    int op = mc_choose(4);
    if (op == 0) {
        for (int mm = 0; mm < 2; mm++) {
            Xorfilter *c = 0;
            mc_site("unmarshal mmap=%d", mm); mc_note("save %d-bit filter of %d keys, load with mmap=%d", is16 ? 16 : 8, n, mm);
            fs_begin(0, 0); r = Xorfilter_unmarshal(&c, path, mm ? XORFILTER_MMAP : 0); fs_on = 0;
            MC_ASSERT(r == 0 && c, "unmarshal", "loading an intact file (mmap=%d) fails with %d", mm, r);
            for (int i = 0; i < 3000; i++) { mc_op(); uint64_t k = i < 100 ? KEY(3, i) : VAL(i); MC_ASSERT(!Xorfilter_contains(x, k) == !Xorfilter_contains(c, k), "query", "the filter loaded (mmap=%d) answers differently for key %d", mm, i); }
            MC_ASSERT(Xorfilter_bpe(x) == Xorfilter_bpe(c), "bpe", "bits per entry differ");
            fs_on = 1; Xorfilter_delete(c); fs_on = 0;
            MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "load-leak", "loading and deleting (mmap=%d) leaves %d descriptors and %d mappings", mm, fs_openfds, fs_maps);
        }
        mc_state(mc_hash(0, img, sz));
    } else {
        long at, nsz = sz; int mm = mc_choose(2);
        memcpy(img2, img, sz);
        if (op == 1) { at = mc_choose((int)sz); int bit = mc_choose(8); img2[at] ^= 1 << bit; mc_note("bit %d of byte %ld of %ld flipped", bit, at, sz); }
        else if (op == 2) { nsz = mc_choose((int)sz); at = nsz; mc_note("file cut from %ld to %ld bytes", sz, nsz); }
        else { int extra = 1 + mc_choose(70); memset(img2 + sz, 0, extra); nsz = sz + extra; at = sz; mc_note("%d bytes appended", extra); }
        fs_put(path, img2, nsz);
        Xorfilter *c = 0;
        mc_site("unmarshal damaged op=%d", op);
        fs_begin(0, 0); r = Xorfilter_unmarshal(&c, path, mm ? XORFILTER_MMAP : 0); fs_on = 0; mc_op();
        MC_ASSERT(r < 0, "damaged-accepted", "a filter file damaged at byte %ld (kind of damage %d) gives %d", at, op, r);
        MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "refuse-leak", "refusing a damaged file leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
        mc_state(mc_mix(mc_mix(at, nsz), is16));
    }
    Xorfilter_delete(x);
    unlink(path);
    MC_ASSERT(fs_count(mc_scratch()) == 0, "stray", "saving leaves stray files behind");
}
/* big files */
static void xor_bigfile(long K)
{
    int a = mc_choose((int)K - 2) + 3, d = mc_choose(3) - 1, N = (1 << a) + d, is16 = mc_choose(2); snprintf(path, sizeof path, "%s/f", mc_scratch()); static uint64_t keys[(1 << 18) + 8]; for (int i = 0; i < N; i++) keys[i] = KEY(3, i); saltbase = 9; nsalt = 0;
    Xorfilter *x = is16 ? Xorfilter_new16(keys, N) : Xorfilter_new8(keys, N); MC_ASSERT(x, "build", "no filter for %d keys", N);
    mc_op(); mc_note("%d-bit filter of %d", is16 ? 16 : 8, N); mc_site("marshal"); fs_begin(0, 0); int r = Xorfilter_marshal(x, path); fs_end(); MC_ASSERT(r == 0, "marshal", "saving fails with %d", r); MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "save-leak", "saving leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
    long sz = fs_get(path, img, sizeof img); MC_ASSERT(sz > 0 && sz < (long)sizeof img, "size", "file of %ld bytes", sz);
    int op = mc_choose(3), mm = mc_choose(2); Xorfilter *c = 0;
    if (op == 0) {
        mc_site("unmarshal big mmap=%d", mm); fs_begin(0, 0); r = Xorfilter_unmarshal(&c, path, mm ? XORFILTER_MMAP : 0); fs_on = 0; MC_ASSERT(r == 0 && c, "unmarshal", "loading an intact file of %ld bytes (mmap=%d) fails with %d", sz, mm, r);
        for (int i = 0; i < 3 * N + 3000; i++) { uint64_t k = KEY(3, i); MC_ASSERT(!Xorfilter_contains(x, k) == !Xorfilter_contains(c, k), "big-query", "the filter of %d loaded (mmap=%d) answers differently for key %d", N, mm, i); if (i < N) MC_ASSERT(Xorfilter_contains(c, k), "big-missing", "the filter of %d loaded (mmap=%d) lacks element %d", N, mm, i); }
        
        fs_on = 1; Xorfilter_delete(c); fs_on = 0; MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "load-leak", "loading and deleting (mmap=%d) leaves %d descriptors and %d mappings", mm, fs_openfds, fs_maps);
    } else {
        long at[12] = { 0, 31, 32, 63, 64, 200, 4095, 4096, sz / 2, sz - 1, sz - 33, 65536 }, p = at[mc_choose(12)]; if (p >= sz) mc_prune(); memcpy(img2, img, sz); long nsz = sz; if (op == 1) img2[p] ^= 0x10; else nsz = p; fs_put(path, img2, nsz); mc_note("%s byte %ld of %ld, load with mmap=%d", op == 1 ? "damaged" : "cut at", p, sz, mm);
        mc_site("unmarshal big damaged op=%d", op); fs_begin(0, 0); r = Xorfilter_unmarshal(&c, path, mm ? XORFILTER_MMAP : 0); fs_on = 0;
        MC_ASSERT(r < 0 , "big-damaged", "a filter file of %ld bytes %s byte %ld is accepted (mmap=%d)", sz, op == 1 ? "damaged at" : "cut at", p, mm); if (r == 0) { fs_on = 1; Xorfilter_delete(c); fs_on = 0; }
        MC_ASSERT(fs_openfds == 0 && fs_maps == 0, "refuse-leak", "refusing a damaged file leaves %d descriptors and %d mappings", fs_openfds, fs_maps);
    }
    mc_state(mc_mix(mc_mix(N, op * 2 + mm), is16)); Xorfilter_delete(x); unlink(path); MC_ASSERT(fs_count(mc_scratch()) == 0, "stray", "saving leaves stray files behind");
}
#endif

/* ------------------------------------------------------------- crash and fault enumeration of a save */
#ifdef P_C15
static int big;
static void *mk(int what, int which)
{
    if (what < 3) return some_bloom(what, big ? 20000 : 4, 1, which ? (what == SCALABLE ? 30 : 3) : 2);
    if (big) { static uint64_t k[30000]; for (int i = 0; i < 30000; i++) k[i] = KEY(which, i); saltbase = 5 + which; nsalt = 0; return what == 4 ? Xorfilter_new16(k, which ? 30000 : 20000) : Xorfilter_new8(k, which ? 30000 : 20000); }
    return some_xor(which ? 40 : 9, what - 3, which);
}
static int save(int what, void *f) { return what < 3 ? Bloom_marshal((Bloom *)f, path) : Xorfilter_marshal((Xorfilter *)f, path); }
static void del(int what, void *f) { if (what < 3) Bloom_delete((Bloom *)f); else Xorfilter_delete((Xorfilter *)f); }
static int loads_as(int what, void *f)
{
    if (what < 3) { Bloom *c = 0; if (Bloom_unmarshal(&c, path, 0) != 0) return 0; int r = Bloom_eq((Bloom *)f, c); Bloom_delete(c); return r; }
    Xorfilter *c = 0; if (Xorfilter_unmarshal(&c, path, 0) != 0) return 0;
    int ok = 1; for (int i = 0; i < 2000 && ok; i++) { uint64_t k = i < 64 ? KEY(i & 1, i / 2) : VAL(i); ok = !Xorfilter_contains(c, k) == !Xorfilter_contains((Xorfilter *)f, k); }
    Xorfilter_delete(c); return ok;
}
static void *g_old, *g_new; static int g_what, g_had;
/* arg: number of faults */
static void atomic_save(long arg)
{
    fs_fresh(); big = arg >= 10; arg %= 10;
    int what = mc_choose(5), had = mc_choose(2);
    g_what = what; g_had = had;
    snprintf(path, sizeof path, "%s/target", mc_scratch());
    void *old = mk(what, 0), *nw = mk(what, 1);
    g_old = old; g_new = nw;
    if (had) MC_ASSERT(save(what, old) == 0, "first-save", "first save fails");
    int nf0 = fs_dir_fds();
    mc_note("save over %s; kind %d", had ? "an older filter" : "nothing", what);
    volatile int crashed = 0, r = 0;
    mc_site("save");
    fs_begin((int)arg, 1);
    if (setjmp(fs_crash) == 0) r = save(what, nw); else crashed = 1;
    fs_on = 0;
    int isold = 0, isnew = 0;
    struct stat st;
    if (crashed) {
        int dirty = fs_isdirty(path);
        mc_note("target after the crash has %s content", dirty ? "unsynced" : "synced");
        /* what was not synced may be lost: whole, zeroes, or cut to nothing */
        int torn = dirty ? 1 + mc_choose(3) : 0;
        if (torn == 2 && stat(path, &st) == 0) { char z[1] = { 0 }; int fd = open(path, O_WRONLY | O_TRUNC); if (fd >= 0) { if (ftruncate(fd, st.st_size)) {} if (write(fd, z, 1)) {} close(fd); } mc_note("unsynced content lost: zeroes"); }
        if (torn == 3) { if (truncate(path, 0)) {} mc_note("unsynced content lost: empty file"); }
        if (stat(path, &st) == 0) { isold = loads_as(what, old); isnew = loads_as(what, nw); MC_ASSERT(isnew || (had && isold), "torn", "after a %s the target is neither the old nor the new filter", fs_where); }
        else MC_ASSERT(!had, "lost", "after a %s the target is gone", fs_where);
    } else {
        isold = stat(path, &st) == 0 && loads_as(what, old); isnew = stat(path, &st) == 0 && loads_as(what, nw);
        if (r == 0) MC_ASSERT(isnew, "success-not-new", "saving reports success (%s) but the target is not the new filter", fs_where);
        else {
            MC_ASSERT(r < 0, "positive-error", "saving returns %d (%s)", r, fs_where);
            if (had) MC_ASSERT(isold || isnew, "fail-lost", "saving failed (%s) and the target is neither the old nor the new filter", fs_where);
            else MC_ASSERT(stat(path, &st) != 0 || isnew, "fail-fragment", "saving failed (%s) and left a fragment as target", fs_where);
            MC_ASSERT(fs_count(mc_scratch()) <= had + (strstr(fs_where, "unlink") != 0), "fail-stray", "a failed save (%s) leaves its temporary file", fs_where);
        }
        if (!fs_faulted) MC_ASSERT(r == 0, "save", "saving fails with %d without any fault", r);
        if (r == 0) MC_ASSERT(fs_faulted == 0 || isnew, "swallowed", "a failed call (%s) is reported as success", fs_where);
        if (r == 0) MC_ASSERT(!strstr(fs_where, "sync") && !strstr(fs_where, "ftruncate") && !strstr(fs_where, "rename") && !strstr(fs_where, "mmap"), "ignored", "%s, yet saving reports success", fs_where);
        if (r == 0) MC_ASSERT(!fs_isdirty(path), "unsynced", "saving reports success but the target's content was never synced");
        MC_ASSERT(fs_dir_fds() == nf0, "fd-leak", "saving (%s) leaves a descriptor open", fs_where);
        MC_ASSERT(fs_maps == 0, "map-leak", "saving (%s) leaves a mapping", fs_where);
    }
    mc_state(mc_mix(mc_hash(what * 2 + had, fs_where, strlen(fs_where)), isnew));
    if (crashed) { /* the dead process's memory and descriptors are not our concern */
        for (int fd = 3; fd < 64; fd++) { char l[64], t[300]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, t, sizeof t - 1); if (k > 0) { t[k] = 0; if (!strncmp(t, mc_scratch(), strlen(mc_scratch()))) close(fd); } }
        for (int i = 0; i < fs_nmap; i++) munmap(fs_map[i].a, fs_map[i].n);
        mc_track_reset(1);
        return;
    }
    del(what, old); del(what, nw);
}
#endif

const mc_scenario mc_scenarios[] = {
#if defined P_C11
    { "sequences-4values", bloom_seq, 54, -1, 5, MC_F_LEAK },
    { "sizes around powers of two", bloom_big, 18, -1, 3, MC_F_LEAK }, { "sizes around bigger powers of two", bloom_big, 20, 1, 3, MC_F_LEAK },
    { "saturation", bloom_saturate, 0, 0, 2, MC_F_LEAK },
    { "growth", bloom_grow, 600, -1, 3, MC_F_LEAK },
    { "sequences-5values", bloom_seq, 65, 1, 5, MC_F_LEAK },
    { "growth-long", bloom_grow, 12000, 1, 3, MC_F_LEAK },
#elif defined P_C12
    { "big files", bloom_bigfile, 16, 0, 3, MC_F_LEAK },
    { "file", bloom_file, 0, 0, 5, MC_F_LEAK },
    { "file-larger", bloom_file, 1, 1, 5, MC_F_LEAK },
#elif defined P_C13
    { "sizes", xor_build, 120, -1, 2, MC_F_LEAK },
    { "sizes around powers of two", xor_big, 16, -1, 3, MC_F_LEAK }, { "sizes around bigger powers of two", xor_big, 20, 1, 3, MC_F_LEAK },
    { "subsets", xor_subset, 11, -1, 4, MC_F_LEAK },
    { "sizes-deep", xor_build, 600, 1, 2, MC_F_LEAK },
    { "subsets-deep", xor_subset, 15, 1, 4, MC_F_LEAK },
#elif defined P_C14
    { "big files", xor_bigfile, 18, 0, 3, MC_F_LEAK },
    { "file", xor_file, 0, -1, 3, MC_F_LEAK },
    { "file-larger", xor_file, 1, 1, 3, MC_F_LEAK },
#elif defined P_C15
    { "one-fault, big filters", atomic_save, 11, 0, 3, MC_F_LEAK },
    { "one-fault", atomic_save, 1, 0, 3, MC_F_LEAK },
    { "two-faults", atomic_save, 2, 0, 3, MC_F_LEAK },
    { "three-faults", atomic_save, 3, 1, 3, MC_F_LEAK },
#endif
    { 0 }
};
