/* C65: whatever memory manager a container is given, all its memory comes from it and goes back to it.
   Hash tables and pools on every manager the library makes (malloc, xmalloc, pool, arena) and on one that
   keeps books, hands out blocks of its own store and fails at a chosen request. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "utils/hashtab.h"
#include "utils/mempool.h"
#include "utils/arena.h"

/* ---- the book-keeping manager: every block from a store of its own, never from malloc ---- */
#define NB 512
typedef struct { unsigned char *p; size_t n; int live; } blk;
typedef struct { int magic; unsigned char *base; size_t cap, used; blk b[NB]; int nb, live, fail_at, nreq, refused, nfree; int nofree; } book;
static unsigned char store[1 << 20] __attribute__((aligned(64)));
static book bk, bk2;

static void *t_alloc(void *c, size_t n)
{
    book *k = (book *)c;
    MC_ASSERT((k == &bk || k == &bk2) && k->magic == 0x5eed, "context", "the manager's allocator is called with another context");
    MC_ASSERT(n > 0, "size0", "a block of no bytes is asked for");
    int q = k->nreq++;
    if (k->fail_at >= 0 && q >= k->fail_at) { k->refused++; return 0; }
    size_t at = (k->used + 15) / 16 * 16 + 16;
    MC_ASSERT(at + n + 32 < k->cap && k->nb < NB, "harness", "book-keeping store is full");
    blk *b = &k->b[k->nb++];
    b->p = k->base + at; b->n = n; b->live = 1; k->live++;
    memset(b->p - 16, 0xa5, 16); memset(b->p, 0xe7, n); memset(b->p + n, 0xa5, 16);
    k->used = at + n + 16;
    return b->p;
}
static void t_free(void *c, void *p)
{
    book *k = (book *)c;
    MC_ASSERT((k == &bk || k == &bk2) && k->magic == 0x5eed, "context", "the manager's release is called with another context");
    k->nfree++;
    for (int i = 0; i < k->nb; i++) if (k->b[i].p == p) {
        MC_ASSERT(k->b[i].live, "double-free", "a block of %zu bytes is given back twice", k->b[i].n);
        k->b[i].live = 0; k->live--;
        for (int j = 0; j < 16; j++) MC_ASSERT(k->b[i].p[-1 - j] == 0xa5 && k->b[i].p[k->b[i].n + j] == 0xa5, "overrun", "bytes next to a block of %zu bytes were written", k->b[i].n);
        memset(p, 0xdd, k->b[i].n);
        return;
    }
    MC_ASSERT(0, "foreign-free", "memory that did not come from the manager is given back to it");
}
static void books(book *k)
{
    for (int i = 0; i < k->nb; i++) for (int j = 0; j < 16; j++)
        MC_ASSERT(k->b[i].p[-1 - j] == 0xa5 && k->b[i].p[k->b[i].n + j] == 0xa5, "overrun", "bytes next to a block of %zu bytes were written", k->b[i].n);
    for (int i = 0; i < k->nb; i++) if (!k->b[i].live && !k->nofree) for (size_t j = 0; j < k->b[i].n; j++)
        MC_ASSERT(k->b[i].p[j] == 0xdd, "use-after-free", "byte %zu of a block given back was written", j);
}
static void opening(book *k, int half, int nofree) { memset(k, 0, sizeof *k); k->magic = 0x5eed; k->base = store + half * (sizeof store / 2); k->cap = sizeof store / 2; k->fail_at = -1; k->nofree = nofree; }

/* ---- a manager of each kind ---- */
enum { M_BOOK, M_NOFREE, M_MALLOC, M_XMALLOC, M_POOL, M_ARENA, M_BOOKPOOL, NM };
static const char *MN[] = { "book-keeping manager", "manager without release", "malloc manager", "xmalloc manager", "pool's manager", "arena's manager", "manager of a pool on the book-keeping manager" };
static mempool pool; static arena_t ar; static int pool_up;
static void mgr_make(memmgr *m, int kind)
{
    memset(m, 0x11, sizeof *m); opening(&bk, 0, kind == M_NOFREE); pool_up = 0; ar = 0;
    mc_note("%s", MN[kind]); mc_site("make %s", MN[kind]); mc_op();
    memmgr *r = 0; int x = 0;
    switch (kind) {
        case M_BOOK:    r = memmgr_init(m, t_alloc, t_free, &bk); break;
        case M_NOFREE:  r = memmgr_init(m, t_alloc, 0, &bk); break;
        case M_MALLOC:  r = malloc_memmgr(m); break;
        case M_XMALLOC: r = xmalloc_memmgr(m); break;
        case M_POOL:    x = mempool_init(&pool, 0, 4096, 0, 4); pool_up = 1; r = mempool_make_memmgr(m, &pool); break;
        case M_ARENA:   x = arena_new(&ar, 4096); r = arena_memmgr(m, ar); break;
        default:        { memmgr low; memmgr_init(&low, t_alloc, t_free, &bk); x = mempool_init(&pool, &low, 4096, 0, 4); memset(&low, 0x33, sizeof low); pool_up = 1; r = mempool_make_memmgr(m, &pool); }
    }
    MC_ASSERT(x == 0 && r == m && memmgr_valid_p(m), "init", "cannot make the %s", MN[kind]);
}
static void mgr_end(int kind, const char *what)
{
    if (kind == M_BOOK) MC_ASSERT(bk.live == 0, "outstanding", "%s is gone, %d blocks of its manager were never given back", what, bk.live);
    if (pool_up) { mempool_fini(&pool); pool_up = 0; }
    if (kind == M_BOOKPOOL) MC_ASSERT(bk.live == 0, "outstanding", "the pool is gone, %d blocks of its manager were never given back", bk.live);
    if (ar) { arena_delete(ar); ar = 0; }
    books(&bk);
}

/* ---- managers used directly: every sequence of take and give back ---- */
static const size_t SZ[] = { 1, 8, 24, 100, 4000 };
static void direct(long depth)
{
    int kind = mc_choose(NM); memmgr m; size_t live0 = mc_live_blocks(); mgr_make(&m, kind);
    struct { unsigned char *p; size_t n; int tag; } a[8]; int na = 0, tag = 1, own = 0;
    if (kind == M_BOOK) { MC_ASSERT(memmgr_init(0, t_alloc, t_free, &bk) == 0 && malloc_memmgr(0) == 0 && xmalloc_memmgr(0) == 0, "init-null", "a manager is made out of nothing"); }
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(5 + 1 + na), fresh = mc_fresh(); mc_op();
        if (o == 5) {   /* malloc's own manager takes 0 back like free() does */
            if (kind == M_MALLOC || kind == M_XMALLOC) { mc_note("give back nothing"); memmgr_free(&m, NULL); } else { mc_trivial(); return mgr_end(M_ARENA, ""); }
        } else if (o < 5) {
            mc_note("take %zu", SZ[o]); mc_site("alloc %zu", SZ[o]);
            unsigned char *p = (unsigned char *)memmgr_alloc(&m, SZ[o]);
            MC_ASSERT(p && ((uintptr_t)p & 7) == 0, "alloc", "%s: no aligned block of %zu bytes (%p)", MN[kind], SZ[o], (void *)p);
            if (kind == M_BOOK || kind == M_NOFREE) MC_ASSERT(bk.nreq == ++own && p == bk.b[bk.nb - 1].p && bk.b[bk.nb - 1].n == SZ[o], "passes", "the request was not passed on as made");
            if (kind == M_MALLOC || kind == M_XMALLOC) MC_ASSERT(mc_block_size(p) == SZ[o], "malloc", "a block of %zu bytes asked for is one of %zu", SZ[o], mc_block_size(p));
            a[na].p = p; a[na].n = SZ[o]; a[na].tag = tag++; memset(p, a[na].tag, SZ[o]); na++;
        } else {
            int k = o - 6; mc_note("give back block %d", k); mc_site("free");
            int f0 = bk.nfree; size_t l0 = mc_live_blocks(); memmgr_free(&m, a[k].p);
            if (kind == M_BOOK) MC_ASSERT(bk.nfree == f0 + 1, "passes", "the release was not passed on");
            if (kind == M_MALLOC || kind == M_XMALLOC) MC_ASSERT(mc_live_blocks() == l0 - 1, "malloc-free", "the block was not released");
            if (kind == M_NOFREE || kind == M_ARENA) for (size_t j = 0; j < a[k].n; j++) MC_ASSERT(a[k].p[j] == a[k].tag, "no-release", "a manager without release changes a block given back");
            a[k] = a[--na];
        }
        for (int i = 0; i < na; i++) for (size_t j = 0; j < a[i].n; j++) MC_ASSERT(a[i].p[j] == a[i].tag, "content", "%s: a block changed while it was held", MN[kind]);
        if (kind != M_MALLOC && kind != M_XMALLOC && kind != M_POOL && kind != M_ARENA) MC_ASSERT(mc_live_blocks() == live0, "malloc-used", "memory was taken from malloc although a manager was given");
        if (fresh) mc_state(mc_mix(kind * 16 + na, na ? a[na - 1].n * 8 + d : d));
    }
    for (int i = 0; i < na; i++) memmgr_free(&m, a[i].p);
    mgr_end(kind, "everything");
    MC_ASSERT(mc_live_blocks() == live0, "leak", "memory is left over");
}
/* malloc fails: the malloc manager says so, the xmalloc manager ends the program with a message */
static void refuse(long arg)
{
    (void)arg; int x = mc_choose(2), s = mc_choose(5), before = mc_choose(3); memmgr m; mc_op();
    mc_note("%s, %d served, then malloc(%zu) fails", x ? "xmalloc" : "malloc", before, SZ[s]); mc_site("refuse");
    x ? xmalloc_memmgr(&m) : malloc_memmgr(&m);
    if (!x) {
        void *b[3]; for (int i = 0; i < before; i++) b[i] = memmgr_alloc(&m, 10);
        mc_oom_at(0); void *p = memmgr_alloc(&m, SZ[s]); mc_oom_at(-1);
        MC_ASSERT(p == 0, "enomem", "malloc failed and its manager returns %p", p);
        for (int i = 0; i < before; i++) memmgr_free(&m, b[i]);
        return;
    }
    int pp[2]; if (pipe(pp)) abort(); fflush(stdout); fflush(stderr);
    pid_t c = fork(); if (c < 0) abort();
    if (c == 0) {
        dup2(pp[1], 2); close(pp[0]); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
        for (int i = 0; i < before; i++) if (!memmgr_alloc(&m, 10)) _exit(77);
        mc_oom_at(0); (void)memmgr_alloc(&m, SZ[s]); _exit(76);
    }
    close(pp[1]); char t[4096]; size_t n = 0; ssize_t k; while ((k = read(pp[0], t + n, sizeof t - 1 - n)) > 0) n += k; t[n] = 0; close(pp[0]);
    int st = 0; waitpid(c, &st, 0);
    MC_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) != 76 && WEXITSTATUS(st) != 77 && WEXITSTATUS(st) != 0, "xmalloc", "the allocator that cannot fail %s (status %#x)", WIFEXITED(st) && WEXITSTATUS(st) == 76 ? "returned when malloc failed" : "did not end the program in order", st);
    char num[32]; snprintf(num, sizeof num, "%zu", SZ[s]);
    MC_ASSERT(n > 0 && strstr(t, num), "xmalloc-message", "the message on exit does not name the size: '%s'", t);
}

/* ---- hash table on each manager; the book-keeping one may fail from its k-th request on ---- */
typedef struct { int key, dt; } item;
static int cmpf(const void *a, const void *b) { return ((const item *)a)->key - ((const item *)b)->key; }
static uint32_t hashf(const void *a) { return ((const item *)a)->key * 5; }
static void dtorf(void *p) { ((item *)p)->dt++; }
static int nvis; static void vis(void *c, const void *p) { (void)c; (void)p; nvis++; }

static void table(long arg)
{
    int depth = arg % 100, nk = arg / 100; int kind = mc_choose(NM); int fa = kind == M_BOOK ? mc_choose(8) - 1 : -1;
    memmgr m; size_t live0 = mc_live_blocks(); mgr_make(&m, kind); bk.fail_at = fa; if (fa >= 0) mc_note("every request from number %d on fails", fa);
    size_t live1 = mc_live_blocks();
    hash_table_policy p; memset(&p, 0, sizeof p); p.hash = hashf; p.cmp = cmpf; p.dtor = dtorf; p.logsize = 1; p.fillmax = 30; p.mem = m;
    int mall = kind == M_MALLOC || kind == M_XMALLOC || kind == M_POOL || kind == M_ARENA;
    hash_table_t t = 0; item it[40]; int ni = 0; item *model[8]; memset(it, 0, sizeof it); memset(model, 0, sizeof model);
    mc_site("new"); int r = hash_table_new(&t, &p);
    memset(&p, 0x77, sizeof p); memset(&m, 0x77, sizeof m);     /* the table keeps its own copy */
    if (bk.refused) { MC_ASSERT(r == -ENOMEM, "new-nomem", "the manager is out of memory, new says %d", r); MC_ASSERT(bk.live == 0, "new-leak", "creation failed, %d blocks were not given back", bk.live); mgr_end(kind, "the table"); return; }
    MC_ASSERT(r == 0 && t, "new", "cannot create: %d", r);
    int max = kind == M_POOL || kind == M_BOOKPOOL ? 60 : 1000; (void)max;
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(4 * nk + 3), fresh = mc_fresh(), k = o / 4; item q = { k, 0 }; int f0 = bk.refused; mc_op();
        if (o >= 4 * nk) {
            int sorted = o - 4 * nk; mc_site("iterate %d", sorted); mc_note("iterate %d", sorted);
            hash_table_iter_t i = 0; item q0 = { 0, 0 };
            r = sorted == 2 ? hash_table_bucket_iter_new(&i, t, &q0) : hash_table_iter_new(&i, t, sorted);
            if (bk.refused > f0) MC_ASSERT(r == -ENOMEM, "iter-nomem", "the manager is out of memory, the iterator says %d", r);
            else {
                MC_ASSERT(r == 0 && i, "iter", "no iterator: %d", r); int n = 0, tot = 0; for (int j = 0; j < nk; j++) tot += model[j] != 0;
                for (int e = hash_table_iter_first(i); e == 0; e = hash_table_iter_next(i)) n++;
                if (sorted < 2) MC_ASSERT(n == tot, "iter-count", "iteration yields %d items of %d", n, tot);
                hash_table_iter_delete(i);
            }
        } else if (o % 4 == 3) {
            mc_site("remove"); mc_note("remove k%d", k); void *v = 0; r = hash_table_remove(t, &q, &v);
            MC_ASSERT((r == 0) == (model[k] != 0) && (!model[k] || (v == model[k] && model[k]->dt == 1)), "remove", "remove of key %d: %d", k, r); model[k] = 0;
        } else {
            item *n = &it[ni++]; n->key = k; const char *N[] = { "insert", "probe", "replace" }; int w = o % 4; mc_site("%s", N[w]); mc_note("%s k%d", N[w], k);
            int had = model[k] != 0; void *x = 0;
            if (w == 0) { r = hash_table_insert(t, n); if (had) MC_ASSERT(r == -EEXIST, "insert-dup", "insert of existing key says %d", r); }
            else if (w == 1) { x = hash_table_probe(t, n); r = x ? 0 : -ENOMEM; if (had) MC_ASSERT(x == model[k], "probe-dup", "probe of existing key hands back another item"); }
            else { r = hash_table_replace(t, n); if (had) { MC_ASSERT(r == 0 && model[k]->dt == 1, "replace", "replace of existing key: %d", r); model[k] = n; } }
            if (!had) {
                if (r == 0) { model[k] = n; if (w == 1) MC_ASSERT(x == n, "probe", "probe of new key hands back another item"); }
                else MC_ASSERT(bk.refused > f0 && r == -ENOMEM, "add", "%s of a new key says %d, the manager refused %d requests", N[w], r, bk.refused - f0);
            }
        }
        if (!mall) MC_ASSERT(mc_live_blocks() == live1, "malloc-used", "memory was taken from malloc although a manager was given");
        if (kind == M_NOFREE || kind == M_BOOK) books(&bk);
        int n = 0; for (int j = 0; j < nk; j++) { item z = { j, 0 }; void *v = 0; int f = hash_table_lookup(t, &z, &v); MC_ASSERT(model[j] ? f > 0 && v == model[j] && model[j]->dt == 0 : f == 0, "lookup", "key %d: lookup says %d", j, f); n += model[j] != 0; }
        nvis = 0; hash_table_apply(t, vis, 0); MC_ASSERT(nvis == n, "apply", "the table yields %d items of %d", nvis, n);
        if (fresh) { uint64_t h = kind * 16 + fa + 1; for (int j = 0; j < nk; j++) h = mc_mix(h, model[j] ? model[j] - it + 1 : 0); mc_state(h); }
    }
    mc_site("delete"); hash_table_delete(t); mc_op();
    for (int j = 0; j < ni; j++) MC_ASSERT(it[j].dt <= 1, "dtor", "the destructor of an item ran %d times", it[j].dt);
    for (int j = 0; j < nk; j++) if (model[j]) MC_ASSERT(model[j]->dt == 1, "dtor", "the destructor of a stored item ran %d times", model[j]->dt);
    mgr_end(kind, "the table");
    MC_ASSERT(mc_live_blocks() == live0, "leak", "memory is left over");
}

/* ---- pool on the book-keeping manager, and a pool of small blocks carved from a pool of large ones ---- */
static void pools(long depth)
{
    static const unsigned BS[] = { 1, 24, 100 };
    int isnew = mc_choose(2), bs = BS[mc_choose(3)], lim = mc_choose(2) ? 3 : 0, units = 1 + mc_choose(2), two = mc_choose(2), fa = mc_choose(6) - 1;
    size_t live0 = mc_live_blocks(); opening(&bk, 0, 0); opening(&bk2, 1, 0); bk.fail_at = fa;
    memmgr low, up; mempool big, st, *a = 0; int r; memmgr_init(&low, t_alloc, t_free, &bk);
    mc_note("%s blocks of %d, limit %d, %d at a time, %s, fails from %d", isnew ? "new" : "init", bs, lim, units, two ? "on a pool" : "on the manager", fa); mc_op();
    if (two) {
        mc_site("lower pool"); r = mempool_init(&big, &low, 2048, 0, 1);
        if (bk.refused) { MC_ASSERT(r == -ENOMEM && bk.live == 0, "lower-nomem", "the manager is out of memory: init says %d, %d blocks kept", r, bk.live); return; }
        MC_ASSERT(r == 0, "lower", "no lower pool: %d", r); mempool_make_memmgr(&up, &big);
    } else up = low;
    mc_site("pool"); r = isnew ? mempool_new(&a, &up, bs, lim, units) : mempool_init(&st, &up, bs, lim, units);
    memset(&up, 0x77, sizeof up);
    if (!isnew) a = &st;
    if (bk.refused) { MC_ASSERT(r == -ENOMEM, "nomem", "the manager is out of memory, the pool says %d", r); goto done; }
    MC_ASSERT(r == 0 && a, "pool", "no pool: %d", r);
    {
        struct { unsigned char *p; int tag; } b[10]; int nb = 0, tag = 1;
        for (int d = 0; d < depth; d++) {
            int o = mc_choose(1 + nb), fresh = mc_fresh(); mc_op();
            if (o == 0) {
                int f0 = bk.refused; mc_site("alloc"); mc_note("take"); unsigned char *p = (unsigned char *)mempool_alloc(a);
                if (!p) MC_ASSERT(bk.refused > f0 || (lim && nb >= lim), "refuses", "a pool with %d blocks in use refuses", nb);
                else { MC_ASSERT(!lim || nb < lim, "limit", "a pool of %d blocks hands out another", lim); b[nb].p = p; b[nb].tag = tag++; memset(p, b[nb].tag, bs); nb++; }
            } else { mc_site("free"); mc_note("give back %d", o - 1); mempool_free(a, b[o - 1].p); b[o - 1] = b[--nb]; }
            for (int i = 0; i < nb; i++) {
                int in = 0; for (int j = 0; j < bk.nb; j++) in |= bk.b[j].live && b[i].p >= bk.b[j].p && b[i].p + bs <= bk.b[j].p + bk.b[j].n;
                MC_ASSERT(in, "elsewhere", "a block the pool hands out is not within memory of its manager");
                for (int j = 0; j < bs; j++) MC_ASSERT(b[i].p[j] == b[i].tag, "content", "a block changed while it was held");
            }
            books(&bk); MC_ASSERT(mc_live_blocks() == live0, "malloc-used", "memory was taken from malloc although a manager was given");
            if (fresh) mc_state(mc_mix(nb, bk.live * 64 + bk.refused));
        }
    }
    mc_site("delete"); isnew ? mempool_delete(a) : mempool_fini(a);
done:
    if (two) { int up0 = bk.live; mempool_fini(&big); (void)up0; }
    else if (r != 0 && !isnew) { /* nothing was made */ }
    MC_ASSERT(bk.live == 0, "outstanding", "the pool is gone, %d blocks of its manager were never given back", bk.live);
    books(&bk); MC_ASSERT(mc_live_blocks() == live0, "leak", "memory is left over");
}

const mc_scenario mc_scenarios[] = {
    { "direct", direct, 5, -1, 2, MC_F_LEAK },
    { "direct-deep", direct, 7, 1, 2, MC_F_LEAK },
    { "refuse", refuse, 0, 0, 2, 0 },
    { "table-3keys", table, 304, -1, 2, MC_F_LEAK },
    { "table-5keys", table, 504, 0, 2, MC_F_LEAK },
    { "table-3keys-deep", table, 306, 1, 3, MC_F_LEAK },
    { "pools", pools, 7, -1, 3, MC_F_LEAK },
    { "pools-deep", pools, 11, 1, 3, MC_F_LEAK },
    { 0 }
};
