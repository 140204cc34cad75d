/* C16 pools, C17 arenas: every alloc/free sequence in the bounds on the real allocators. */
#include "mc.h"
#include <errno.h>
#include "utils/mempool.h"
#include "utils/arena.h"

#define MAXB 24
typedef struct { unsigned char *p; size_t n; int tag; } blk;
static blk B[MAXB]; static int nb;
static int tagc;

static void fillb(blk *b) { for (size_t i = 0; i < b->n; i++) b->p[i] = (unsigned char)(b->tag * 37 + i); }
static void checkall(void)
{
    for (int k = 0; k < nb; k++) for (size_t i = 0; i < B[k].n; i++)
        MC_ASSERT(B[k].p[i] == (unsigned char)(B[k].tag * 37 + i), "content", "byte %zu of live block %d (size %zu) changed", i, k, B[k].n);
}
static void addblk(void *p, size_t n, size_t align)
{
    MC_ASSERT(((uintptr_t)p & (align - 1)) == 0, "align", "block %p of size %zu is not aligned to %zu", p, n, align);
    for (int k = 0; k < nb; k++) MC_ASSERT(n == 0 || B[k].n == 0 || (unsigned char *)p + n <= B[k].p || B[k].p + B[k].n <= (unsigned char *)p, "overlap", "block of size %zu overlaps live block %d", n, k);
    MC_ASSERT(nb < MAXB, "internal", "too many blocks");
    B[nb].p = p; B[nb].n = n; B[nb].tag = ++tagc; fillb(&B[nb]); nb++;
}

#ifdef P_C16
static const unsigned sizes[] = { 16, 1, 8, 17, 24, 40, 64, 100 };
static int failing; static uint64_t under;         /* blocks taken from the layer below and not given back */
static void *t_alloc(void *c, size_t n) { MC_ASSERT(c == &under, "context", "allocator called with a wrong context"); if (failing) { if (mc_choose(2)) return 0; } void *p = malloc(n); if (p) { memset(p, 0xd7, n); under++; } return p; }
static void t_free(void *c, void *p) { MC_ASSERT(c == &under, "context", "allocator called with a wrong context"); MC_ASSERT(mc_is_live(p), "badfree", "pool releases memory it does not own"); under--; free(p); }

static void drive(mempool *a, unsigned bs, uint64_t bound, unsigned units, int depth)
{
    int peak = 0, everfail = 0;
    unsigned real = mempool_block_size(a);
    MC_ASSERT(real >= bs, "blocksize", "block size %u for objects of %u", real, bs);
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(2 + nb);
        if (c == 0) break;
        if (c == 1) {
            uint64_t u0 = under;
            mc_site("mempool_alloc"); mc_op();
            void *p = mempool_alloc(a);
            mc_note("alloc -> %s", p ? "block" : "none");
            if (!p) {
                if (bound) MC_ASSERT((uint64_t)nb == bound, "exhausted", "pool of %llu blocks refuses with %d in use", (unsigned long long)bound, nb);
                else { MC_ASSERT(failing, "exhausted", "unbounded pool refuses a block"); everfail = 1; }
            } else {
                MC_ASSERT(!bound || (uint64_t)nb < bound, "limit", "pool of %llu blocks hands out block %d", (unsigned long long)bound, nb + 1);
                addblk(p, real, 8);
                if (nb > peak) peak = nb;
            }
            if (!bound && !everfail && units) MC_ASSERT(under <= u0 + 1, "growth", "more than one chunk taken for a block");
        } else {
            int k = c - 2;
            mc_site("mempool_free"); mc_op(); mc_note("free %d", k);
            mempool_free(a, B[k].p);
            B[k] = B[--nb];
        }
        checkall();
        MC_ASSERT(mempool_block_size(a) == real && mempool_total_blocks(a) == bound, "bookkeeping", "pool's own data changed");
        uint64_t h = mc_mix(bs, nb); h = mc_mix(h, bound); for (int k = 0; k < nb; k++) h = mc_mix(h, (uint64_t)(B[k].p - B[0].p)); mc_state(h);
    }
    if (!bound && units && !failing) MC_ASSERT(under <= 2 + (uint64_t)(peak + units - 1) / units, "reuse", "%llu chunks of %u units taken for at most %d blocks at a time", (unsigned long long)under, units, peak);
    /* drain a bounded pool completely: exactly the promised number */
    if (bound && bound <= MAXB && mc_choose(2)) {
        mc_site("mempool_alloc");
        while ((uint64_t)nb < bound) { void *p = mempool_alloc(a); MC_ASSERT(p, "exhausted", "pool of %llu blocks refuses with %d in use", (unsigned long long)bound, nb); addblk(p, real, 8); }
        MC_ASSERT(!mempool_alloc(a), "limit", "pool hands out more than %llu blocks", (unsigned long long)bound);
        checkall();
    }
}

/* pools on an allocator. arg: bs index | kind<<4 (0 init, 1 new) | fail<<8 */
static void r_pool(long arg)
{
    unsigned bs = sizes[arg & 15]; int isnew = (arg >> 4) & 1; int fail = (arg >> 8) & 1, os = (arg >> 9) & 1;
    nb = 0; tagc = 0; under = 0; failing = fail;
    unsigned max = mc_choose(5); unsigned mu = max ? 0 : 1 + mc_choose(3);
    if (os && !max) { mu = mc_choose(2) ? 0 : 3; }
    memmgr m = { .alloc = t_alloc, .free = t_free, .context = &under }, *pm = os ? 0 : &m;
    mempool st, *a = 0;
    mc_site("mempool_%s", isnew ? "new" : "init"); mc_note("%s bs=%u max=%u units=%u", isnew ? "new" : "init", bs, max, mu);
    int r = isnew ? mempool_new(&a, pm, bs, max, mu) : mempool_init(&st, pm, bs, max, mu);
    if (r) { MC_ASSERT(fail && r < 0, "init", "creating a pool gives %d", r); MC_ASSERT(under == 0, "leak", "failed creation keeps %llu blocks", (unsigned long long)under); return; }
    if (!isnew) a = &st;
    MC_ASSERT(mempool_total_blocks(a) == max, "total", "limit %u for a pool of %u", mempool_total_blocks(a), max);
    if (mc_choose(8) == 7) {       /* invalid arguments are refused */
        memmgr bad = { 0 }; mempool x, *px = 0;
        MC_ASSERT(mempool_init(0, 0, 8, 1, 1) == -EINVAL && mempool_new(0, 0, 8, 1, 1) == -EINVAL && mempool_init(&x, &bad, 8, 1, 1) == -EINVAL && mempool_new(&px, &bad, 8, 1, 1) == -EINVAL, "einval", "invalid arguments accepted");
    }
    else drive(a, bs, max, os ? 0 : mu, (fail || os ? 6 : 7) + mc_tier());
    mc_site("mempool_delete");
    if (isnew) mempool_delete(a); else mempool_fini(a);
    MC_ASSERT(under == 0, "leak", "%llu blocks of the lower layer not released", (unsigned long long)under);
}
/* pools in caller-supplied memory */
static void r_mem(long arg)
{
    unsigned bs = sizes[arg & 15]; int isnew = (arg >> 4) & 1;
    nb = 0; tagc = 0; under = 0; failing = 0;
    int off = mc_choose(8); unsigned n = mc_choose(mc_tier() ? 400 : 260);
    unsigned char *raw = malloc(n + off + 1); memset(raw, 0xe1, n + off);
    unsigned char *mem = raw + off;
    raw[n + off] = 0x5c;
    mempool st, *a = 0;
    mc_site("mempool_%s_from_mem", isnew ? "new" : "init"); mc_note("%u bytes at offset %d, objects of %u", n, off, bs);
    unsigned char *exact = realloc(raw, n + off ? n + off : 1);   /* bounds-checked exactly */
    mem = exact + off;
    int r = isnew ? mempool_new_from_mem(&a, bs, mem, n) : mempool_init_from_mem(&st, bs, mem, n);
    if (!isnew) a = &st;
    mc_op();
    unsigned rbs = bs < 16 ? 16 : (bs + 7) / 8 * 8;
    unsigned ovh = 8 + 24 + 8 + 8 + (isnew ? sizeof(mempool) : 0);
    if (r) { MC_ASSERT(r < 0, "init", "result %d", r); MC_ASSERT(n < ovh + rbs, "refused", "%u bytes refused for objects of %u", n, bs); }
    else {
        unsigned tot = mempool_total_blocks(a);
        MC_ASSERT(tot >= 1, "total", "a pool of no blocks");
        MC_ASSERT((uint64_t)tot * mempool_block_size(a) + 24 <= n, "total", "%u blocks promised from %u bytes", tot, n);
        MC_ASSERT((uint64_t)tot * rbs + ovh + rbs >= n, "total", "only %u blocks from %u bytes", tot, n);
        /* take all, check, release in some order, take again */
        while (1) {
            void *p = mempool_alloc(a);
            if (!p) break;
            MC_ASSERT((unsigned char *)p >= mem && (unsigned char *)p + mempool_block_size(a) <= mem + n, "outside", "a block lies outside the memory given");
            addblk(p, mempool_block_size(a), 8);
            MC_ASSERT((unsigned)nb <= tot, "limit", "more than %u blocks", tot);
            mc_op();
        }
        MC_ASSERT((unsigned)nb == tot, "exhausted", "pool of %u blocks gives only %d", tot, nb);
        checkall();
        MC_ASSERT(mempool_total_blocks(a) == tot, "bookkeeping", "pool's own data changed");
        int k0 = nb, rot = mc_choose(nb < 3 ? nb : 3);
        for (int i = 0; i < k0; i++) { int k = (i == 0 ? rot : 0) % nb; mempool_free(a, B[k].p); B[k] = B[--nb]; checkall(); }
        for (int i = 0; i < k0; i++) { void *p = mempool_alloc(a); MC_ASSERT(p, "exhausted", "released block not reusable"); addblk(p, mempool_block_size(a), 8); }
        MC_ASSERT(!mempool_alloc(a), "limit", "more than %u blocks", tot);
        checkall();
        mc_state(mc_mix(mc_mix(n, bs), off * 2 + isnew));
        if (isnew) mempool_delete(a); else mempool_fini(a);
    }
    free(exact);
    if (mc_choose(16) == 15) {
        char t[64]; mempool *q;
        MC_ASSERT(mempool_init_from_mem(0, 8, t, 64) == -EINVAL && mempool_init_from_mem(&st, 8, 0, 64) == -EINVAL && mempool_new_from_mem(0, 8, t, 64) == -EINVAL && mempool_new_from_mem(&q, 8, 0, 64) == -EINVAL, "einval", "invalid arguments accepted");
    }
}
/* sequences in a small caller-supplied pool */
static void r_memseq(long arg)
{
    nb = 0; tagc = 0; under = 0; failing = 0;
    int isnew = mc_choose(2); unsigned bs = sizes[mc_choose(4)]; unsigned want = 1 + mc_choose(4);
    unsigned rbs = bs < 16 ? 16 : (bs + 7) / 8 * 8, n = rbs * want + 40 + (isnew ? sizeof(mempool) : 0);
    void *mem = malloc(n); memset(mem, 0xe1, n);
    mempool st, *a = 0; mc_site("mempool_from_mem");
    int r = isnew ? mempool_new_from_mem(&a, bs, mem, n) : mempool_init_from_mem(&st, bs, mem, n);
    MC_ASSERT(r == 0, "init", "%u bytes refused for %u blocks", n, want);
    if (!isnew) a = &st;
    drive(a, bs, mempool_total_blocks(a), 0, 8 + (int)arg);
    if (isnew) mempool_delete(a); else mempool_fini(a);
    free(mem);
}
/* a pool stacked on a pool */
static void r_stack(long arg)
{
    nb = 0; tagc = 0; under = 0; failing = 0;
    memmgr m = { .alloc = t_alloc, .free = t_free, .context = &under }, m2;
    mempool lo; MC_ASSERT(mempool_init(&lo, &m, 512, 0, 2) == 0, "init", "init");
    MC_ASSERT(mempool_make_memmgr(&m2, &lo) == &m2, "memmgr", "wrong result");
    void *p = m2.alloc(m2.context, 100); MC_ASSERT(p, "memmgr", "stacked allocator refuses"); memset(p, 0x3b, 512);
    mempool hi; mc_site("stacked");
    MC_ASSERT(mempool_init(&hi, &m2, 16, 0, 1 + mc_choose(8)) == 0, "init", "stacked init");
    drive(&hi, 16, 0, 0, 7 + (int)arg);
    for (int i = 0; i < 512; i++) MC_ASSERT(((unsigned char *)p)[i] == 0x3b, "content", "a block of the lower pool changed");
    mempool_fini(&hi);
    m2.free(m2.context, p);
    mempool_fini(&lo);
    MC_ASSERT(under == 0, "leak", "lower layer not released");
}
/* big pools: block sizes and numbers of units around powers of two; the layer below hands out address space only */
#include <sys/mman.h>
static struct { unsigned char *p; size_t n; } R[64]; static int nr;
static void *h_alloc(void *c, size_t n) { (void)c; MC_ASSERT(nr < 64 && n < (size_t)1 << 44, "huge", "the pool asks for %zu bytes", n); size_t up = (n + 4095) & ~(size_t)4095; void *p = mmap(0, up, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0; R[nr].p = p; R[nr].n = n; nr++; return p; }
static void h_free(void *c, void *p) { (void)c; for (int i = 0; i < nr; i++) if (R[i].p == p) { munmap(p, (R[i].n + 4095) & ~(size_t)4095); R[i] = R[--nr]; return; } mc_fail("badfree", "pool releases memory it does not own"); }
static void r_bigpool(long arg)
{
    static const unsigned BS[] = { 16, 24, 1000, 4096, 65528, 65536, 65537, 1 << 20, (1 << 24) - 8, 1u << 27 };
    unsigned bs = BS[mc_choose(10)], u = (1u << (mc_choose(13) * 2 + 1)) + mc_choose(3) - 1; int bounded = mc_choose(2); nr = 0; (void)arg;
    if (!u) mc_prune(); if ((uint64_t)bs * u >= (uint64_t)1 << 40) mc_prune();
    memmgr m = { .alloc = h_alloc, .free = h_free, .context = &under }; mempool *a = 0; mc_op(); mc_note("objects of %u, %s %u", bs, bounded ? "at most" : "taken by", u); mc_site("big pool");
    int r = mempool_new(&a, &m, bs, bounded ? u : 0, bounded ? (mc_choose(2) ? 2 : 0) : u); MC_ASSERT(r == 0, "init", "creating a pool gives %d", r);
    unsigned rbs = mempool_block_size(a); MC_ASSERT(rbs >= bs, "blocksize", "block size %u for objects of %u", rbs, bs);
    size_t got = 0, most = rbs < 5000 ? 70000 : rbs < 1 << 20 ? 50 : rbs < 1 << 25 ? 4 : 2, lim = bounded ? u : 3ul * u + 2 > 1500 ? u + 2ul : 1500; static unsigned char *P[70010]; if (lim > most) lim = most; if (!bounded && lim > 60 * (size_t)u) lim = 60ul * u;
    for (; got < lim; got++) {
        unsigned char *p = mempool_alloc(a); int in = 0; MC_ASSERT(p, "exhausted", "pool of %u objects of %u gives only %zu", u, bs, got); MC_ASSERT(((uintptr_t)p & 7) == 0, "align", "block %p is not aligned", (void *)p);
        for (int i = 0; i < nr; i++) if (p >= R[i].p && p + rbs <= R[i].p + R[i].n) in = 1;
        MC_ASSERT(in, "outside", "block %zu of objects of %u, %u units, lies outside the memory the pool took", got, bs, u);
        memset(p, (int)(got * 7 + 1), bs < 64 ? bs : 64); p[bs - 1] = (unsigned char)got; P[got] = p;
    }
    if (bounded && lim == u) MC_ASSERT(!mempool_alloc(a), "limit", "pool hands out more than %u blocks", u);
    for (size_t i = 0; i < got; i++) MC_ASSERT(P[i][bs < 64 ? 0 : 1] == (unsigned char)(i * 7 + 1) && P[i][bs - 1] == (unsigned char)i, "content", "block %zu of %zu changed", i, got);
    for (size_t i = 0; i < got; i += 2) mempool_free(a, P[i]);
    for (size_t i = 1; i < got; i += 2) MC_ASSERT(P[i][bs < 64 ? 0 : 1] == (unsigned char)(i * 7 + 1) && P[i][bs - 1] == (unsigned char)i, "content", "block %zu of %zu changed after releases", i, got);
    int n0 = nr; for (size_t i = 0; i < got; i += 2) MC_ASSERT(mempool_alloc(a), "exhausted", "released block not reusable"); MC_ASSERT(nr == n0, "reuse", "takes new memory though blocks were released");
    mc_state(mc_mix(bs, u * 2ull + bounded)); mempool_delete(a); MC_ASSERT(nr == 0, "leak", "%d chunks not released", nr);
}
/* sizes at the end of the range */
static void r_limit(long arg)
{
    unsigned bs = UINT32_MAX - mc_choose(20); mempool st, *a = 0; int how = mc_choose(4), max = mc_choose(3); nr = 0; (void)arg; mc_op(); mc_note("objects of %u, way %d", bs, how); mc_site("pool of huge objects");
    memmgr m = { .alloc = h_alloc, .free = h_free, .context = &under }; static uint64_t mem[64];
    int r = how == 0 ? mempool_init(&st, &m, bs, max, 1) : how == 1 ? mempool_new(&a, &m, bs, max, 1) : how == 2 ? mempool_init_from_mem(&st, bs, mem, sizeof mem) : mempool_new_from_mem(&a, bs, mem, sizeof mem);
    if (how == 0 || how == 2) a = &st;
    if (r == 0) { MC_ASSERT(how < 2, "total", "blocks of %u promised from %zu bytes", bs, sizeof mem); MC_ASSERT(mempool_block_size(a) >= bs, "blocksize", "block size %u for objects of %u", mempool_block_size(a), bs); size_t most = 0; for (int q = 0; q < nr; q++) if (R[q].n > most) most = R[q].n; MC_ASSERT(most >= (uint64_t)bs * (max ? max : 1), "outside", "the pool took %zu bytes for blocks of %u", most, bs);
        if (how) mempool_delete(a); else mempool_fini(a); }
    else MC_ASSERT(r < 0, "init", "result %d", r);
    MC_ASSERT(nr == 0, "leak", "%d chunks not released", nr); mc_state(mc_mix(bs, how * 4 + max));
}
const mc_scenario mc_scenarios[] = {
    { "big pools", r_bigpool, 0, 0, 2, 0 }, { "huge objects", r_limit, 0, 0, 1, 0 },
    { "init bs16", r_pool, 0, 0, 3, MC_F_LEAK }, { "init bs1", r_pool, 1, 0, 3, MC_F_LEAK }, { "init bs17", r_pool, 3, 0, 3, MC_F_LEAK }, { "init bs24", r_pool, 4, 0, 3, MC_F_LEAK }, { "init bs100", r_pool, 7, 0, 3, MC_F_LEAK },
    { "new bs8", r_pool, 16 | 2, 0, 3, MC_F_LEAK }, { "new bs40", r_pool, 16 | 5, 0, 3, MC_F_LEAK }, { "new bs64", r_pool, 16 | 6, 0, 3, MC_F_LEAK },
    { "os init", r_pool, 512 | 4, 0, 3, MC_F_LEAK }, { "os new", r_pool, 512 | 16 | 1, 0, 3, MC_F_LEAK },
    { "failing init", r_pool, 256 | 0, 0, 3, MC_F_LEAK }, { "failing new", r_pool, 256 | 16 | 0, 0, 3, MC_F_LEAK },
    { "mem bs16", r_mem, 0, 0, 2, MC_F_LEAK }, { "mem bs1", r_mem, 1, 0, 2, MC_F_LEAK }, { "mem bs17", r_mem, 3, 0, 2, MC_F_LEAK }, { "mem bs64", r_mem, 6, 0, 2, MC_F_LEAK }, { "mem bs100", r_mem, 7, 0, 2, MC_F_LEAK },
    { "new mem bs16", r_mem, 16, 0, 2, MC_F_LEAK }, { "new mem bs24", r_mem, 16 | 4, 0, 2, MC_F_LEAK }, { "new mem bs40", r_mem, 16 | 5, 0, 2, MC_F_LEAK },
    { "mem sequences", r_memseq, 0, 0, 3, MC_F_LEAK }, { "mem sequences deep", r_memseq, 1, 1, 3, MC_F_LEAK }, { "stacked", r_stack, 0, 0, 3, MC_F_LEAK }, { "stacked deep", r_stack, 1, 1, 3, MC_F_LEAK },
    { 0 } };
#endif

#ifdef P_C17
static void r_arena(long cs)
{
    nb = 0; tagc = 0;
    mc_set_alloc_limit(1 << 22);
    size_t c = cs ? cs : 128 * 1024;
    const size_t req[] = { 8, 0, 1, 7, 9, 16, 17, c / 2, c > 8 ? c - 8 : 3, c - 1, c, c + 1, 2 * c + 3, 33,
        SIZE_MAX, SIZE_MAX - 6, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX - 40, SIZE_MAX / 16, SIZE_MAX / 16 + 1, SIZE_MAX / 16 + 9, (size_t)1 << 60, ((size_t)1 << 60) + 8, (size_t)1 << 63 };
    enum { NR = sizeof req / sizeof req[0] };
    arena_t a = 0;
    mc_site("arena_new");
    MC_ASSERT(arena_new(&a, cs) == 0 && a, "new", "no arena");
    int depth = 4 + mc_tier(); static size_t total; total = 0;
    for (int d = 0; d < depth; d++) {
        int k = mc_choose(NR + 2);
        if (k == NR) break;
        if (k == NR + 1) {
            mc_site("arena_strdup"); const char *s = "a string kept in the arena"; char *p = arena_strdup(a, s); mc_op();
            MC_ASSERT(p && !strcmp(p, s), "strdup", "wrong copy");
            addblk(p, strlen(s) + 1, 8); checkall(); continue;
        }
        size_t n = req[k];
        mc_site("arena_alloc"); mc_note("alloc %zu", n); mc_op();
        size_t b0 = mc_live_bytes();
        void *p = arena_alloc(a, n);
        if (n > (size_t)1 << 22) MC_ASSERT(!p, "huge", "a request of %zu bytes is granted", n);
        else { MC_ASSERT(p, "refused", "a request of %zu bytes is refused", n); total += n; addblk(p, n, 8); }
        (void)b0;
        checkall();
        uint64_t h = cs; for (int i = 0; i < nb; i++) h = mc_mix(h, B[i].n); mc_state(h);
    }
    mc_site("arena_delete");
    arena_delete(a);
    MC_ASSERT(mc_live_blocks() == 0, "leak", "%zu blocks left after deleting the arena", mc_live_blocks());
}
/* many small requests: the chunk boundary is met at every phase */
static void r_many(long cs)
{
    nb = 0; tagc = 0;
    size_t sz[3]; static const size_t cand[] = { 8, 1, 3, 12, 16, 20, 24, 40 };
    for (int i = 0; i < 3; i++) sz[i] = cand[mc_choose(8)];
    arena_t a; MC_ASSERT(arena_new(&a, cs) == 0, "new", "no arena");
    mc_site("arena_alloc");
    for (int i = 0; i < MAXB; i++) { void *p = arena_alloc(a, sz[i % 3]); mc_op(); MC_ASSERT(p, "refused", "request refused"); addblk(p, sz[i % 3], 8); checkall(); }
    mc_state(mc_mix(mc_mix(cs, sz[0]), sz[1] * 100 + sz[2]));
    arena_delete(a);
    MC_ASSERT(mc_live_blocks() == 0, "leak", "%zu blocks left after deleting the arena", mc_live_blocks());
}
/* failing lower layer */
static void r_oom(long cs)
{
    nb = 0; tagc = 0;
    int fail_at = mc_choose(4);
    arena_t a = (arena_t)8;
    mc_site("arena_new under memory shortage"); mc_oom_at(fail_at);
    int r = arena_new(&a, cs);
    if (fail_at == 0) { MC_ASSERT(r == -ENOMEM, "new", "result %d without memory", r); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); return; }
    MC_ASSERT(r == 0, "new", "result %d", r);
    int nf = 0;
    for (int i = 0; i < 6; i++) {
        size_t n = (size_t)8 << mc_choose(4); mc_op();
        void *p = arena_alloc(a, n);
        if (!p) { nf++; MC_ASSERT(mc_oom_fired(), "refused", "request refused"); } else addblk(p, n, 8);
        checkall();
    }
    MC_ASSERT(nf <= 1, "refused", "requests refused after one failure");
    arena_delete(a);
    MC_ASSERT(arena_alloc(0, 8) == 0 && arena_new(0, 8) == -EINVAL, "einval", "invalid arguments accepted");
    MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
/* the arena behind a memory manager interface */
static void r_mgr(long cs)
{
    nb = 0; tagc = 0; arena_t a; MC_ASSERT(arena_new(&a, cs) == 0, "new", "no arena");
    memmgr m; arena_memmgr(&m, a); mc_site("arena_memmgr");
    for (int i = 0; i < 5; i++) { size_t n = 1 + 13 * mc_choose(5); void *p = memmgr_alloc(&m, n); mc_op(); MC_ASSERT(p, "refused", "request refused"); addblk(p, n, 8); checkall(); }
    arena_delete(a); MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
/* big chunks, filled to the last byte; then more */
static void r_fillchunk(long k)
{
    nb = 0; tagc = 0; int a = mc_choose((int)k - 2) + 3, d = mc_choose(3) - 1, def = mc_choose(2); size_t cs = def ? 0 : (size_t)((1l << a) + d), c = def ? 128 * 1024 : cs; if (def && (a > 3 || d)) mc_prune();
    size_t rest = (size_t[]){ 0, 8, 16, 24, 40, 64 }[mc_choose(6)], mid = mc_choose(3); if (rest > c) mc_prune();
    arena_t ar = 0; MC_ASSERT(arena_new(&ar, cs) == 0, "new", "no arena"); mc_op(); mc_note("chunk %zu, %zu left", c, rest); mc_site("arena_alloc");
    size_t first = (c - rest) / 8 * 8, q[3] = { first, first / 2, 8 };
    size_t one = mid == 0 ? q[0] : q[mid]; if (one) { void *p = arena_alloc(ar, one); MC_ASSERT(p, "refused", "a request of %zu bytes is refused", one); addblk(p, one, 8); }
    if (mid && first > one) { size_t n = first - one; void *p = arena_alloc(ar, n); MC_ASSERT(p, "refused", "a request of %zu bytes is refused", n); addblk(p, n, 8); }
    for (int i = 0; i < 12; i++) { size_t n = i < 9 ? 8 : c / 2 + i; void *p = arena_alloc(ar, n); mc_op(); MC_ASSERT(p, "refused", "a request of %zu bytes is refused", n); addblk(p, n, 8); }
    checkall(); mc_state(mc_mix(c, rest * 4 + mid)); arena_delete(ar); MC_ASSERT(mc_live_blocks() == 0, "leak", "%zu blocks left after deleting the arena", mc_live_blocks());
}
/* requests around powers of two, and at the end of the range */
static void r_req(long k)
{
    nb = 0; tagc = 0; (void)k; mc_set_alloc_limit((size_t)1 << 26); arena_t ar = 0; size_t cs = (size_t[]){ 1, 64, 0, 5000 }[mc_choose(4)]; MC_ASSERT(arena_new(&ar, cs) == 0, "new", "no arena"); mc_site("arena_alloc");
    void *p0 = arena_alloc(ar, 24); MC_ASSERT(p0, "refused", "a request of 24 bytes is refused"); addblk(p0, 24, 8);
    int a = mc_choose(65); size_t n; if (a == 64) n = SIZE_MAX - mc_choose(120); else n = ((size_t)1 << a) + mc_choose(19) - 9; mc_op(); mc_note("chunk %zu, alloc %zu", cs, n);
    for (int i = 0; i < 2; i++) { void *p = arena_alloc(ar, n); if (n < (size_t)1 << 21) MC_ASSERT(p, "refused", "a request of %zu bytes is refused", n); if (n > (size_t)1 << 26) MC_ASSERT(!p, "huge", "a request of %zu bytes is granted", n); if (p) addblk(p, n, 8); }
    void *p = arena_alloc(ar, 40); MC_ASSERT(p, "refused", "a request of 40 bytes is refused"); addblk(p, 40, 8); checkall(); mc_state(mc_mix(cs, n)); arena_delete(ar); MC_ASSERT(mc_live_blocks() == 0, "leak", "%zu blocks left after deleting the arena", mc_live_blocks());
}
const mc_scenario mc_scenarios[] = {
    { "big chunks", r_fillchunk, 22, 0, 2, 0 }, { "requests of every size", r_req, 0, 0, 2, 0 },
    { "chunk 1", r_arena, 1, 0, 2, 0 }, { "chunk 8", r_arena, 8, 0, 2, 0 }, { "chunk 10", r_arena, 10, 0, 2, 0 }, { "chunk 64", r_arena, 64, 0, 2, 0 }, { "chunk 100", r_arena, 100, 0, 2, 0 }, { "chunk 1000", r_arena, 1000, 0, 2, 0 },
    { "many 16", r_many, 16, 0, 2, 0 }, { "many 50", r_many, 50, 0, 2, 0 }, { "many 64", r_many, 64, 0, 2, 0 }, { "many 4096", r_many, 4096, 0, 2, 0 },
    { "shortage 32", r_oom, 32, 0, 2, 0 }, { "shortage 64", r_oom, 64, 0, 2, 0 }, { "memmgr 40", r_mgr, 40, 0, 2, 0 },
    { 0 } };
#endif
