/* C08/C09/C58(hashtab): every operation sequence on the real hash table against a map model */
#include "mc.h"
#include <errno.h>
#include "utils/hashtab.h"

#define MAXITEM 32
typedef struct item { int key; int id; int dtor; int intab; } item;
static item   it[MAXITEM];
static int    nit;
static item  *model[8];
static int    nkeys;
static const uint32_t *hv;

/* hash values: full collision (0,1), collide in small tables only (2), distinct buckets (3,4) */
static const uint32_t HV_A[] = { 0, 0, 4, 1, 0x80000002u };
static const uint32_t HV_B[] = { 7, 7, 7, 7, 7 };
static const uint32_t HV_C[] = { 0, 1, 2, 3, 4 };
static const uint32_t HV_D[] = { 0, 8, 16, 8, 0 };

static uint32_t rnd;
uint32_t __wrap_arc4random(void) { return rnd; }

static uint32_t h(const void *p) { return hv[((const item *)p)->key]; }
static int cmp(const void *a, const void *b) { int x = ((const item *)a)->key, y = ((const item *)b)->key; return x < y ? -1 : x > y; }
static void dtor(void *p)
{
    item *i = (item *)p;
    MC_ASSERT(i >= it && i < it + MAXITEM, "dtor-arg", "destructor called with something that was never stored");
    i->dtor++;
}
static item *mk(int key)
{
    item *i = &it[nit]; MC_ASSERT(nit < MAXITEM, "harness", "items");
    i->key = key; i->id = nit++; i->dtor = 0; i->intab = 0;
    return i;
}
static void gone(item *i, int exp)
{
    i->intab = 0;
    MC_ASSERT(i->dtor == exp, "dtor-count", "item %d of key %d left the table, its destructor ran %d times", i->id, i->key, i->dtor);
}

/* a locking policy that reports misuse */
static int held, nlocks;
static void lk_lock(void *o) { int *l = (int *)o; MC_ASSERT(l && *l == 0, "lock-twice", "a lock is taken again by the thread that holds it (%d)", l ? *l : -1); *l = 1; held++; }
static void lk_unlock(void *o) { int *l = (int *)o; MC_ASSERT(l && *l == 1, "unlock-free", "a lock that is not held is released"); *l = 0; held--; }
static void lk_del(void *o) { nlocks--; free(o); }
static void lk_create(struct lockmgr *m) { int *l = (int *)calloc(1, sizeof *l); if (!l) abort(); nlocks++; m->lock = lk_lock; m->unlock = lk_unlock; m->dtor = lk_del; m->create = lk_create; m->opaq = l; }

typedef struct { int n; int seen[MAXITEM]; int order[64]; } visit;
static void appf(void *c, const void *p)
{
    visit *v = (visit *)c; const item *i = (const item *)p;
    MC_ASSERT(i >= it && i < it + MAXITEM, "apply-arg", "function applied to something that was never stored");
    v->seen[i->id]++; if (v->n < 64) v->order[v->n] = i->id; v->n++;
}
static int pred(void *c, const void *p)
{
    visit *v = (visit *)c; const item *i = (const item *)p;
    MC_ASSERT(i >= it && i < it + MAXITEM, "remove_if-arg", "predicate called with something that was never stored");
    v->n++; v->seen[i->id]++;
    return v->order[0] & (1 << i->key);
}
static int msize(void) { int n = 0; for (int k = 0; k < nkeys; k++) n += model[k] != 0; return n; }
static void check_visit(visit *v, const char *what)
{
    MC_ASSERT(v->n == msize(), "visit-count", "%s visited %d items of %d", what, v->n, msize());
    for (int k = 0; k < nkeys; k++) if (model[k])
        MC_ASSERT(v->seen[model[k]->id] == 1, "visit-item", "%s visited item %d (key %d) %d times", what, model[k]->id, k, v->seen[model[k]->id]);
}
/* what the statistics must say; chains are looked at through the bucket iterator */
static int s_ins, s_look, s_fail, s_rep, s_del; static size_t s_size, s_size0, s_max; static int s_splits;
static void verify(hash_table_t t);
static void counted(hash_table_t t, const char *what)
{
    hash_table_stat st; memset(&st, 0xee, sizeof st);
    MC_ASSERT(hash_table_stats(t, &st) == &st && (int)st.nodes == msize(), "stats-nodes", "statistics count %zu nodes, the table holds %d", st.nodes, msize());
    MC_ASSERT(st.inserts == s_ins && st.replaces == s_rep && st.deletes == s_del, "stats-changes", "after %s statistics count %d inserts, %d replaces, %d deletes; there were %d, %d, %d", what, st.inserts, st.replaces, st.deletes, s_ins, s_rep, s_del);
    MC_ASSERT(st.lookups == s_look && st.failed_lookups == s_fail, "stats-lookups", "after %s statistics count %d lookups and %d failed ones; there were %d and %d", what, st.lookups, st.failed_lookups, s_look, s_fail);
    MC_ASSERT(st.size >= s_size && (st.size & (st.size - 1)) == 0 && st.size == s_size0 << st.splits, "stats-size", "a table made with %zu buckets has %zu after %d splits", s_size0, st.size, st.splits);
    int split = st.size != s_size;
    if (split) { s_size = st.size; s_splits = st.splits; s_max = 0; }
    int fill = 0; size_t chain = 0, seen[8] = { 0 };
    for (int k = 0; k < nkeys; k++) if (model[k] && !seen[k]) {
        item q = { k, -1, 0, 0 }; hash_table_iter_t i = 0; size_t n = 0;
        MC_ASSERT(hash_table_bucket_iter_new(&i, t, &q) == 0 && i, "bucket_iter_new", "no iterator");
        for (int r = hash_table_iter_first(i); r == 0; r = hash_table_iter_next(i)) { const item *x = (const item *)hash_table_iter_item(i); seen[x->key] = 1; n++; }
        hash_table_iter_delete(i); fill++; if (n > chain) chain = n;
    }
    if (chain > s_max) s_max = chain;
    MC_ASSERT((int)st.fill == fill, "stats-fill", "after %s statistics count %zu buckets with items, there are %d", what, st.fill, fill);
    MC_ASSERT(st.maxchainlen >= chain && st.maxchainlen <= s_max, "stats-chain", "after %s statistics put the longest chain at %zu; it is %zu and was never longer than %zu", what, st.maxchainlen, chain, s_max);
}
static void verify(hash_table_t t)
{
    for (int k = 0; k < nkeys; k++) {
        item q = { k, -1, 0, 0 }; void *r = &q;
        int ok = hash_table_lookup(t, &q, &r);
        mc_op(); if (model[k]) s_look++; else s_fail++;
        if (model[k]) MC_ASSERT(ok > 0 && r == model[k], "lookup", "key %d is in the table as item %d, lookup says %d %p", k, model[k]->id, ok, r);
        else MC_ASSERT(ok == 0 && r == 0, "lookup-absent", "key %d is not in the table, lookup says %d", k, ok);
    }
    counted(t, "looking every key up");
    for (int i = 0; i < nit; i++) if (it[i].intab) MC_ASSERT(it[i].dtor == 0, "dtor-early", "item %d is in the table but its destructor ran", i);
}
static void traverse(hash_table_t t)
{
    visit v; memset(&v, 0, sizeof v);
    hash_table_apply(t, appf, &v); check_visit(&v, "apply");
    mc_op();
    for (int sorted = 0; sorted < 2; sorted++) {
        hash_table_iter_t i = 0;
        mc_site("iterator sorted=%d", sorted);
        MC_ASSERT(hash_table_iter_new(&i, t, sorted) == 0 && i, "iter_new", "no iterator");
        for (int round = 0; round < 2; round++) {
            memset(&v, 0, sizeof v);
            int r = hash_table_iter_first(i);
            if (msize() == 0) MC_ASSERT(r != 0 && hash_table_iter_item(i) == 0, "iter-empty", "iterator over an empty table yields something");
            while (r == 0) {
                const item *x = (const item *)hash_table_iter_item(i);
                MC_ASSERT(x, "iter-item", "iterator has a position but no item");
                appf(&v, x); mc_op();
                MC_ASSERT(v.n <= 40, "iter-endless", "iteration does not end");
                if (round == 0 && sorted == 0 && v.n == 1 && msize() > 2) { /* restart in the middle */ }
                r = hash_table_iter_next(i);
            }
            MC_ASSERT(hash_table_iter_item(i) == 0, "iter-eof", "exhausted iterator still has an item");
            check_visit(&v, sorted ? "sorted iteration" : "iteration");
            if (sorted) for (int k = 1; k < v.n; k++) MC_ASSERT(cmp(&it[v.order[k-1]], &it[v.order[k]]) < 0, "iter-sorted", "sorted iteration yields key %d before key %d", it[v.order[k-1]].key, it[v.order[k]].key);
            MC_ASSERT(hash_table_iter_next(i) != 0, "iter-past", "stepping past the end succeeds");
        }
        hash_table_iter_delete(i);
    }
    for (int k = 0; k < nkeys; k++) {
        item q = { k, -1, 0, 0 };
        hash_table_iter_t i = 0;
        mc_site("bucket iterator key=%d", k);
        MC_ASSERT(hash_table_bucket_iter_new(&i, t, &q) == 0 && i, "bucket_iter_new", "no iterator");
        memset(&v, 0, sizeof v);
        int r = hash_table_iter_first(i);
        while (r == 0) {
            const item *x = (const item *)hash_table_iter_item(i);
            MC_ASSERT(x, "bucket-item", "bucket iterator has a position but no item");
            appf(&v, x); mc_op();
            MC_ASSERT(v.n <= 40, "bucket-endless", "bucket iteration does not end");
            MC_ASSERT(model[x->key] == x && v.seen[x->id] == 1, "bucket-item-once", "bucket iteration yields item %d wrongly", x->id);
            r = hash_table_iter_next(i);
        }
        if (model[k]) MC_ASSERT(v.seen[model[k]->id] == 1, "bucket-miss", "iterating the bucket of key %d does not yield its item", k);
        hash_table_iter_delete(i);
    }
}
static void nothing(hash_table_t t)
{
    item zz = { 0, -1, 0, 0 }; void *vv = 0; visit v; hash_table_stat s; memset(&v, 0, sizeof v); mc_site("null arguments");
    MC_ASSERT(hash_table_insert(0, &zz) == -EINVAL && hash_table_insert(t, 0) == -EINVAL && hash_table_replace(0, &zz) == -EINVAL && hash_table_replace(t, 0) == -EINVAL && !hash_table_probe(0, &zz) && !hash_table_probe(t, 0), "einval", "adding to no table, or nothing, is accepted");
    MC_ASSERT(hash_table_lookup(0, &zz, &vv) <= 0 && hash_table_lookup(t, 0, &vv) <= 0 && vv == 0 && hash_table_remove(0, &zz, &vv) < 0 && hash_table_remove(t, 0, &vv) < 0 && vv == 0, "einval", "something is found in no table, or nothing in a table");
    MC_ASSERT(hash_table_remove_if(0, pred, &v) == -EINVAL && hash_table_remove_if(t, 0, &v) == -EINVAL && !hash_table_stats(0, &s) && !hash_table_stats(t, 0), "einval", "conditional remove or statistics of nothing are accepted");
    hash_table_apply(0, appf, &v); hash_table_apply(t, 0, &v); hash_table_delete(0);
    MC_ASSERT(v.n == 0, "einval", "a function was applied to nothing");
}
static uint64_t mhash(int ops, int cfg) { uint64_t x = mc_mix(ops, cfg); for (int k = 0; k < nkeys; k++) x = mc_mix(x, model[k] ? model[k]->id + 1 : 0); return x; }

#ifdef P_C09
#define TRAV 1
#else
#define TRAV 0
#endif

static const struct { const uint32_t *hv; int logsize, fillmax; uint32_t rnd; int lock; } CFG[] = {
    { HV_A, 1, 10, 0, 0 }, { HV_A, 1, 80, 3, 1 }, { HV_B, 1, 10, 0, 0 }, { HV_C, 2, 40, 0xffffffffu, 0 },
    { HV_D, 1, 40, 1, 1 }, { HV_C, 1, 80, 0x80000001u, 0 }, { HV_A, 10, 80, 5, 0 }, { HV_D, 2, 10, 6, 0 },
};
#define NCFG ((int)(sizeof CFG / sizeof CFG[0]))

/* arg: depth*100 + keys*10 + ops-kind  (kind 0: all operations, 1: mutators only, 2: with conditional remove) */
static void run(long arg)
{
    int depth = arg / 100, kind = arg % 10;
    nkeys = (arg / 10) % 10;
    int c = mc_choose(NCFG);
    hv = CFG[c].hv; rnd = CFG[c].rnd; nit = 0; held = nlocks = 0; memset(model, 0, sizeof model);
    hash_table_policy p; memset(&p, 0, sizeof p);
    p.hash = h; p.cmp = cmp; p.dtor = dtor; p.fillmax = CFG[c].fillmax; p.logsize = CFG[c].logsize;
    malloc_memmgr(&p.mem); if (CFG[c].lock) { p.lock.create = lk_create; p.lock.lock = lk_lock; p.lock.unlock = lk_unlock; p.lock.dtor = lk_del; }
    hash_table_t t = 0;
    mc_note("new table: logsize %d fillmax %d random %#x lock %d hash set %d", CFG[c].logsize, CFG[c].fillmax, rnd, CFG[c].lock, c);
    MC_ASSERT(hash_table_new(&t, &p) == 0, "new", "cannot create");
    s_ins = s_look = s_fail = s_rep = s_del = s_splits = 0; s_max = 0; s_size = s_size0 = (size_t)1 << CFG[c].logsize;
    static const int NOPS[] = { 5, 3, 4 };
    int nops = NOPS[kind];
    for (int d = 0; d < depth; d++) {
        int nrem = kind == 2 ? 3 : 0;
        int o = mc_choose(nops * nkeys + nrem), fresh = mc_fresh();
        int op = o < nops * nkeys ? o / nkeys : 9, k = o % nkeys;
        if (kind != 0 && op == 3) op = 4;
        item q = { k, -1, 0, 0 };
        mc_op();
        if (op == 9) {
            int mask[] = { 0x15, 0xff, 0x02 };
            visit v; memset(&v, 0, sizeof v); v.order[0] = mask[o - nops * nkeys];
            mc_site("remove_if mask %#x", v.order[0]); mc_note("remove_if(key in %#x)", v.order[0]);
            int exp = 0, tot = msize();
            int r = hash_table_remove_if(t, pred, &v);
            MC_ASSERT(v.n == tot, "remove_if-visits", "conditional remove asked %d times for %d items", v.n, tot);
            for (int j = 0; j < nkeys; j++) if (model[j] && (v.order[0] & (1 << j))) { exp++; s_del++; gone(model[j], 1); model[j] = 0; }
            MC_ASSERT(r == exp, "remove_if-count", "conditional remove reports %d, should remove %d", r, exp);
        } else if (op == 0) {
            item *n = mk(k); mc_site("insert k%d", k); mc_note("insert(k%d) -> item %d", k, n->id);
            int r = hash_table_insert(t, n);
            if (model[k]) { MC_ASSERT(r == -EEXIST, "insert-dup", "insert of existing key %d returns %d", k, r); MC_ASSERT(n->dtor == 0, "dtor-refused", "destructor ran on a refused item"); }
            else { MC_ASSERT(r == 0, "insert", "insert of new key %d returns %d", k, r); model[k] = n; n->intab = 1; s_ins++; }
        } else if (op == 1) {
            item *n = mk(k); mc_site("replace k%d", k); mc_note("replace(k%d) -> item %d", k, n->id);
            int r = hash_table_replace(t, n);
            MC_ASSERT(r == 0, "replace", "replace of key %d returns %d", k, r);
            if (model[k]) { gone(model[k], 1); s_rep++; } else s_ins++;
            model[k] = n; n->intab = 1;
        } else if (op == 2) {
            mc_site("remove k%d", k); mc_note("remove(k%d)", k);
            void *r0 = 0; int r = hash_table_remove(t, &q, (d & 1) ? 0 : &r0);
            if (model[k]) { MC_ASSERT(r == 0, "remove", "remove of key %d returns %d", k, r); if (!(d & 1)) MC_ASSERT(r0 == model[k], "remove-item", "remove hands back the wrong item"); gone(model[k], 1); model[k] = 0; s_del++; }
            else MC_ASSERT(r < 0, "remove-absent", "remove of absent key %d returns %d", k, r);
        } else if (op == 4) {
            item *n = mk(k); mc_site("probe k%d", k); mc_note("probe(k%d) -> item %d", k, n->id);
            void *r = hash_table_probe(t, n);
            if (model[k]) { MC_ASSERT(r == model[k], "probe-dup", "probe of existing key %d does not return the stored item", k); MC_ASSERT(n->dtor == 0, "dtor-refused", "destructor ran on a refused item"); }
            else { MC_ASSERT(r == n, "probe", "probe of new key %d does not return the new item", k); model[k] = n; n->intab = 1; s_ins++; }
        } else {
            mc_site("lookup k%d", k); mc_note("lookup(k%d)", k);
            void *r0 = (void *)1; int r = hash_table_lookup(t, &q, &r0); if (model[k]) s_look++; else s_fail++;
            if (model[k]) MC_ASSERT(r > 0 && r0 == model[k], "lookup", "lookup of key %d: %d %p", k, r, r0);
            else MC_ASSERT(r == 0 && r0 == 0, "lookup-absent", "lookup of absent key %d: %d", k, r);
        }
        MC_ASSERT(held == 0, "lock-held", "%d locks are still held after the operation", held);
        if (!TRAV) counted(t, "the operation");
        if (fresh) { mc_site("verify"); if (TRAV) traverse(t); else { if (d == 1) nothing(t); verify(t); } mc_state(mhash(d, c)); }
    }
    mc_site("delete");
    hash_table_delete(t); mc_op();
    MC_ASSERT(held == 0 && nlocks == 0, "lock-left", "table deleted, %d locks held, %d locks not deleted", held, nlocks);
    for (int i = 0; i < nit; i++) if (it[i].intab) MC_ASSERT(it[i].dtor == 1, "delete-dtor", "table deleted, destructor of stored item %d ran %d times", i, it[i].dtor);
        else MC_ASSERT(it[i].dtor <= 1, "delete-dtor2", "destructor of item %d ran %d times", i, it[i].dtor);
}

/* big tables: sizes around powers of two, four kinds of hash function, short to long chains */
typedef struct { int key, dtor, seen; } bitem;
static bitem *BI; static int bkind, bN;
static uint32_t bh(const void *p) { uint32_t k = (uint32_t)((const bitem *)p)->key; return bkind == 0 ? k : bkind == 1 ? k * 2654435761u : bkind == 2 ? k % 5 * 0x01000100u : bkind == 3 ? k << 20 | k >> 12 : 42; }
static int bcmp_(const void *a, const void *b) { int x = ((const bitem *)a)->key, y = ((const bitem *)b)->key; return x < y ? -1 : x > y; }
static void bdtor(void *p) { bitem *i = (bitem *)p; MC_ASSERT(i >= BI && i < BI + 2 * bN, "big-dtor", "destructor called with something that was never stored"); i->dtor++; }
static int bpred(void *c, const void *p) { ++*(int *)c; return ((const bitem *)p)->key % 4 == 1; }
static void bapp(void *c, const void *p) { ++*(int *)c; bitem *i = (bitem *)(uintptr_t)p; MC_ASSERT(i >= BI && i < BI + 2 * bN, "big-apply", "function applied to something that was never stored"); i->seen++; }
static void r_bigtab(long K)
{
    int huge = K == 0, a = huge ? 16 : mc_choose((int)K - 2) + 3, d = mc_choose(3) - 1, c = huge ? mc_choose(2) : mc_choose(4); bN = (1 << a) + d; bkind = huge ? 1 : mc_choose(5); if (bkind == 2 && bN > 5000) mc_prune(); if (bkind == 4 && bN > 1100) mc_prune(); if (bkind == 3 && bN > 9000) mc_prune();
    static const int LS[] = { 1, 3, 10, 1 }, FM[] = { 10, 80, 80, 50 };
    BI = calloc(2 * (size_t)bN, sizeof *BI); unsigned char *in = calloc(bN, 1); /* 0 absent, 1 first item, 2 second item */ rnd = c * 0x12345671u; held = nlocks = 0;
    for (int i = 0; i < 2 * bN; i++) BI[i].key = i % bN;
    hash_table_policy p; memset(&p, 0, sizeof p); p.hash = bh; p.cmp = bcmp_; p.dtor = bdtor; p.fillmax = FM[c]; p.logsize = LS[c]; malloc_memmgr(&p.mem); if (c == 3) { p.lock.create = lk_create; p.lock.lock = lk_lock; p.lock.unlock = lk_unlock; p.lock.dtor = lk_del; }
    hash_table_t t = 0; mc_op(); mc_note("%d items, hash %d, policy %d", bN, bkind, c); mc_site("big table"); MC_ASSERT(hash_table_new(&t, &p) == 0, "new", "cannot create");
    size_t nodes = 0; int ins = 0, del = 0, rep = 0, look = 0, fail = 0; hash_table_stat st;
    for (int i = 0; i < bN; i++) { if (i % 3) MC_ASSERT(hash_table_insert(t, &BI[i]) == 0, "big-insert", "insert of new key %d of %d", i, bN); else MC_ASSERT(hash_table_probe(t, &BI[i]) == &BI[i], "big-probe", "probe of new key %d of %d", i, bN); in[i] = 1; nodes++; ins++; if ((i & 255) == 7) { void *r = 0; MC_ASSERT(hash_table_lookup(t, &BI[i / 2], &r) > 0 && r == &BI[i / 2], "big-lookup", "key %d lost after %d inserts", i / 2, i); look++; } }
    for (int round = 0; round < 4; round++) {
        if (round == 1) for (int i = 0; i < bN; i++) { if (i % 5 == 0) { MC_ASSERT(hash_table_remove(t, &BI[i], 0) == 0, "big-remove", "remove of key %d", i); in[i] = 0; nodes--; del++; } else if (i % 5 == 1) { MC_ASSERT(hash_table_replace(t, &BI[bN + i]) == 0, "big-replace", "replace of key %d", i); in[i] = 2; rep++; } else if (i % 5 == 2) MC_ASSERT(hash_table_insert(t, &BI[bN + i]) == -EEXIST, "big-dup", "key %d inserted again", i); }
        if (round == 2) { int asked = 0, want = 0, r = hash_table_remove_if(t, bpred, &asked); MC_ASSERT(asked == (int)nodes, "big-remove_if", "conditional remove asked %d times for %zu items", asked, nodes); for (int i = 0; i < bN; i++) if (in[i] && i % 4 == 1) { in[i] = 0; want++; nodes--; del++; } MC_ASSERT(r == want, "big-remove_if", "conditional remove reports %d, should remove %d", r, want); }
        if (round == 3) for (int i = bN - 1; i >= 0; i--) if (!in[i] && i % 2) { bitem *x = &BI[bN + i]; if (x->dtor) continue; MC_ASSERT(hash_table_insert(t, x) == 0, "big-insert", "key %d not inserted again", i); in[i] = 2; nodes++; ins++; }
        for (int i = 0; i < bN; i++) { void *r = 0; int ok = hash_table_lookup(t, &BI[i], &r); if (in[i]) { look++; MC_ASSERT(ok > 0 && r == &BI[in[i] == 1 ? i : bN + i], "big-lookup", "round %d: key %d of %d is not found", round, i, bN); } else { fail++; MC_ASSERT(ok == 0 && !r, "big-absent", "round %d: removed key %d is found", round, i); } }
        bitem no = { bN + 5, 0, 0 }; void *r = 0; MC_ASSERT(hash_table_lookup(t, &no, &r) == 0, "big-absent", "a key never stored is found"); fail++;
        MC_ASSERT(hash_table_stats(t, &st) && st.nodes == nodes && st.inserts == ins && st.deletes == del && st.replaces == rep && st.lookups == look && st.failed_lookups == fail, "big-stats", "round %d: statistics say %zu nodes, %d inserts, %d deletes, %d replaces, %d, %d lookups; expected %zu, %d, %d, %d, %d, %d", round, (size_t)st.nodes, (int)st.inserts, (int)st.deletes, (int)st.replaces, (int)st.lookups, (int)st.failed_lookups, nodes, ins, del, rep, look, fail);
        MC_ASSERT(st.size == (size_t)1 << (LS[c] + st.splits) && st.fill <= st.nodes && st.fill <= st.size && st.maxchainlen * st.fill >= nodes, "big-stats", "size %zu after %d splits, fill %zu, longest chain %zu for %zu nodes", (size_t)st.size, (int)st.splits, (size_t)st.fill, (size_t)st.maxchainlen, nodes);
        for (int w = 0; w < 3; w++) {
            int n = 0; if (!TRAV && w == 1 && bN > 3000) continue; for (int i = 0; i < 2 * bN; i++) BI[i].seen = 0;
            if (w == 2) hash_table_apply(t, bapp, &n);
            else { hash_table_iter_t it_ = 0; int last = -1; MC_ASSERT(hash_table_iter_new(&it_, t, w) == 0 && it_, "big-iter", "no iterator"); for (int q = hash_table_iter_first(it_); q == 0; q = hash_table_iter_next(it_)) { const bitem *x = (const bitem *)hash_table_iter_item(it_); MC_ASSERT(x && n <= bN, "big-iter", "iteration goes wrong after %d items", n); bapp(&n, x); if (w == 1) { MC_ASSERT(x->key > last, "big-sorted", "sorted iteration yields %d after %d", x->key, last); last = x->key; } } hash_table_iter_delete(it_); }
            MC_ASSERT(n == (int)nodes, "big-visit", "way %d visits %d items of %zu", w, n, nodes); for (int i = 0; i < bN; i++) MC_ASSERT(BI[i].seen == (in[i] == 1) && BI[bN + i].seen == (in[i] == 2), "big-visit", "way %d visits key %d wrongly", w, i);
        }
        if (TRAV) for (int i = 0; i < bN; i += bN / 7 + 1) { hash_table_iter_t it_ = 0; int n = 0, f = 0; MC_ASSERT(hash_table_bucket_iter_new(&it_, t, &BI[i]) == 0 && it_, "big-bucket", "no iterator"); for (int q = hash_table_iter_first(it_); q == 0; q = hash_table_iter_next(it_)) { const bitem *x = (const bitem *)hash_table_iter_item(it_); MC_ASSERT(x && n <= bN, "big-bucket", "bucket iteration goes wrong after %d items", n); n++; f += x->key == i; if (in[i]) MC_ASSERT((size_t)n <= st.maxchainlen, "big-bucket", "a bucket of more than %zu items", (size_t)st.maxchainlen); } hash_table_iter_delete(it_); MC_ASSERT(f == (in[i] != 0), "big-bucket", "the bucket of key %d yields it %d times", i, f);
            for (int k = 0; k < bN; k++) if (in[k] && bh(&BI[k]) == bh(&BI[i])) { n--; } MC_ASSERT(n >= 0, "big-bucket", "the bucket of key %d leaves out %d items of the same hash", i, -n); }
    }
    hash_table_delete(t); MC_ASSERT(held == 0 && nlocks == 0, "lock-left", "table deleted, %d locks held, %d locks not deleted", held, nlocks);
    for (int i = 0; i < bN; i++) { MC_ASSERT(BI[i].dtor == 1, "big-dtor", "destructor of item %d ran %d times", i, BI[i].dtor); MC_ASSERT(BI[bN + i].dtor <= 1 && (in[i] != 2 || BI[bN + i].dtor == 1), "big-dtor", "destructor of second item %d ran %d times", i, BI[bN + i].dtor); }
    mc_state(mc_mix(bN, bkind * 4 + c)); free(BI); free(in);
}

const mc_scenario mc_scenarios[] = {
    { "65536 items", r_bigtab, 0, 0, 2, MC_F_LEAK }, { "sizes around powers of two", r_bigtab, 15, 0, 2, MC_F_LEAK }, { "sizes around bigger powers of two", r_bigtab, 17, 1, 2, MC_F_LEAK },
#ifdef P_C09
    { "traverse-5keys", run, 452, 0, 2, MC_F_LEAK },
    { "traverse-3keys-deep", run, 531, 0, 3, MC_F_LEAK },
    { "traverse-5keys-deep", run, 551, 1, 3, MC_F_LEAK },
#else
    { "all-ops-5keys", run, 450, -1, 3, MC_F_LEAK },
    { "mutate-3keys-deep", run, 631, 0, 3, MC_F_LEAK },
    { "conditional-4keys", run, 442, 0, 3, MC_F_LEAK },
    { "all-ops-5keys-deep", run, 550, 1, 3, MC_F_LEAK },
    { "mutate-3keys-deeper", run, 731, 1, 3, MC_F_LEAK },
    { "conditional-4keys-deep", run, 542, 1, 3, MC_F_LEAK },
#endif
    { 0 }
};
