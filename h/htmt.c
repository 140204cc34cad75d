/* C07: the hash table with a mutex locking policy under every interleaving */
#include "mc11.h"
#include <errno.h>
#include <stdlib.h>
#include "utils/hashtab.h"
#include "utils/lockmgr.h"
#include "utils/memmgr.h"
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; mc_fail("assert", "assertion failed: %s", e); }
uint32_t arc4random(void) { return 0; }
#define U MC11_UNBOUNDED
#define NOTS __attribute__((no_sanitize("thread")))
#define MAXI 40
#define MAXO 16
typedef struct { int key, id, dtors, given; } item;
MC11_H static item it[MAXI]; MC11_H static int nit;
MC11_H static const uint32_t *hv;
/* a, b: same hash; c: same bucket as a in small tables only; d, e, f: other buckets */
static const uint32_t HV[2][6] = { { 0, 0, 4, 1, 2, 3 }, { 5, 5, 1, 0, 2, 7 } };
NOTS static uint32_t hfn(const void *p) { return hv[((const item *)p)->key]; }
NOTS static int cmpf(const void *a, const void *b) { return ((const item *)a)->key - ((const item *)b)->key; }
NOTS static void dtor(void *p) { item *i = p; MC_ASSERT(i >= it && i < it + MAXI, "dtor-arg", "destructor called with something that was never stored"); i->dtors++; }
NOTS static item *mk(int k) { MC_ASSERT(nit < MAXI, "engine", "items"); item *i = &it[nit]; i->key = k; i->id = nit++; i->dtors = 0; i->given = 0; return i; }

typedef struct { char op; int key, arg, res, b, e, tid; } lop;    /* arg: the item offered; res: return value or item found, -1 none */
MC11_H static lop H[MAXO]; MC11_H static int hn, start[6], nstart; MC11_H static unsigned char bef[MAXO][MAXO];
typedef struct { const char *name; const char *pre, *prog[4]; int logsize, fillmax, dt, hvi, preempt, tier; } conf;
MC11_H static const conf *C;
static hash_table_t tab;
NOTS static int pred(void *c, const void *p) { return ((const item *)p)->key == *(int *)c; }
NOTS static void app(void *c, const void *p) { lop *o = c; const item *i = p; MC_ASSERT(i >= it && i < it + nit, "apply-arg", "function applied to something that was never stored"); if (i->key == o->key) { MC_ASSERT(o->res == -1, "apply-twice", "one traversal meets key %d twice", i->key); o->res = i->id; } }
NOTS static lop *newop(char op, int key) { MC_ASSERT(hn < MAXO, "engine", "history"); lop *o = &H[hn++]; o->op = op; o->key = key; o->arg = -1; o->res = -1; o->tid = mc11_self(); return o; }
NOTS static int idof(const void *p) { const item *i = p; if (!i) return -1; MC_ASSERT(i >= it && i < it + nit, "result", "the table returns something that was never stored"); return i->id; }
NOTS static void one(char op, int key)
{
    lop *o = newop(op, key); item probe; probe.key = key; void *p = 0; int r;
    item *x = op == 'I' || op == 'P' || op == 'R' ? mk(key) : 0;
    if (x) o->arg = x->id;
    o->b = mc11_begin();
    switch (op) {
    case 'I': o->res = hash_table_insert(tab, x); break;
    case 'P': o->res = idof(hash_table_probe(tab, x)); break;
    case 'R': o->res = hash_table_replace(tab, x); break;
    case 'L': r = hash_table_lookup(tab, &probe, &p); o->res = idof(p); MC_ASSERT((r != 0) == (p != 0) && r >= 0, "lookup", "lookup returns %d and %s item", r, p ? "an" : "no"); break;
    case 'X': r = hash_table_remove(tab, &probe, C->dt ? 0 : &p); MC_ASSERT(r == 0 || r == -ENOENT, "remove", "remove returns %d", r); o->res = r ? -1 : C->dt ? -2 : idof(p); if (r == 0 && !C->dt) MC_ASSERT(p != 0, "remove", "a removed item is not returned"); break;
    case 'M': r = hash_table_remove_if(tab, pred, &key); MC_ASSERT(r == 0 || r == 1, "remove_if", "%d items of one key are removed", r); o->res = r ? -2 : -1; break;
    case 'A': hash_table_apply(tab, app, o); break;
    case 'S': { hash_table_stat st; hash_table_stats(tab, &st); break; }
    default: break;
    }
    o->e = mc11_event();
    if (op == 'P' && o->res < 0) mc_fail("probe", "probe fails");
}
NOTS static void thread(void *a) { for (const char *p = a; *p; p += 2) one(p[0], p[1] - 'a'); }
/* a linear order of the operations on one key; -1: nothing stored */
NOTS static int rec(int key, unsigned done, int cur, int fin)
{
    int all = 1;
    for (int i = 0; i < hn; i++) {
        lop *o = &H[i]; if (o->key != key || done >> i & 1 || o->op == 'S') continue;
        all = 0; int ok = 1, nx = cur;
        for (int j = 0; j < hn && ok; j++) if (j != i && H[j].key == key && H[j].op != 'S' && !(done >> j & 1) && bef[j][i]) ok = 0;
        if (!ok) continue;
        switch (o->op) {
        case 'I': ok = cur < 0 ? o->res == 0 : o->res == -EEXIST; if (cur < 0) nx = o->arg; break;
        case 'P': if (cur < 0) { nx = o->arg; ok = o->res == o->arg; } else ok = o->res == cur; break;
        case 'R': ok = o->res == 0; nx = o->arg; break;
        case 'L': case 'A': ok = o->res == cur; break;
        default: ok = cur < 0 ? o->res == -1 : o->res == cur || o->res == -2; nx = -1; break;
        }
        if (ok && rec(key, done | 1u << i, nx, fin)) return 1;
    }
    return all && cur == fin;
}
NOTS static void check(void)
{
    int fin[6];
    for (int i = 0; i < hn; i++) for (int j = 0; j < hn; j++) bef[i][j] = i != j && mc11_time(H[i].e) < mc11_time(H[j].b);
    for (int k = 0; k < 6; k++) {
        item p; p.key = k; void *q = 0; hash_table_lookup(tab, &p, &q); fin[k] = idof(q);
        if (!rec(k, 0, start[k], fin[k])) {
            char b[500]; int n = 0;
            for (int i = 0; i < hn && n < 480; i++) if (H[i].key == k) n += snprintf(b + n, sizeof b - n, " T%d:%c%c(%d)=%d", H[i].tid, H[i].op, 'a' + k, H[i].arg, H[i].res);
            mc_fail("history", "no order of the operations on key %c explains (from item %d to item %d):%s", 'a' + k, start[k], fin[k], b);
        }
    }
    /* each stored item once in the traversals, the statistics agree, every item destroyed once it is out */
    int want = 0, n = 0, ins = 0, del = 0; for (int k = 0; k < 6; k++) want += fin[k] >= 0;
    for (int s = 0; s < 2; s++) {
        hash_table_iter_t i; void *p; unsigned seen = 0; int last = -1; n = 0; MC_ASSERT(hash_table_iter_new(&i, tab, s) == 0, "iter", "no iterator");
        for (hash_table_iter_first(i); (p = hash_table_iter_item(i)); hash_table_iter_next(i)) { item *x = p; MC_ASSERT(fin[x->key] == x->id && !(seen >> x->key & 1), "iter", "a traversal afterwards meets item %d of key %d", x->id, x->key); seen |= 1u << x->key; if (s) MC_ASSERT(x->key > last, "iter", "not sorted"); last = x->key; if (++n > 20) break; }
        hash_table_iter_delete(i); MC_ASSERT(n == want, "iter", "a traversal afterwards meets %d items of %d", n, want);
    }
    hash_table_stat st; hash_table_stats(tab, &st);
    for (int i = 0; i < hn; i++) { lop *o = &H[i]; ins += (o->op == 'I' && o->res == 0); del += (o->op == 'X' || o->op == 'M') && o->res != -1; }
    MC_ASSERT((int)st.nodes == want, "stats", "%zu nodes in the statistics, %d in the table", st.nodes, want);
    MC_ASSERT(st.deletes == del, "stats", "%d deletions in the statistics, %d happened", st.deletes, del);
    MC_ASSERT(st.inserts == want - nstart + del + nstart, "stats", "%d insertions in the statistics, %d happened", st.inserts, want + del);
    MC_ASSERT(st.fill <= st.nodes && st.fill <= st.size && (st.nodes == 0 || st.fill > 0), "stats", "%zu of %zu buckets filled by %zu nodes", st.fill, st.size, st.nodes);
    if (C->dt) for (int i = 0; i < nit; i++) {
        int in = fin[it[i].key] == i; MC_ASSERT(!in || it[i].dtors == 0, "dtor", "item %d is in the table, its destructor ran", i); MC_ASSERT(it[i].dtors <= 1, "dtor", "the destructor of item %d ran %d times", i, it[i].dtors);
    }
}
static const conf confs[];
NOTS static void go(const conf *cf)
{
    C = cf; nit = hn = nstart = 0; hv = HV[C->hvi]; for (int k = 0; k < 6; k++) start[k] = -1;
    hash_table_policy po; memset(&po, 0, sizeof po); po.hash = hfn; po.cmp = cmpf; po.dtor = C->dt ? dtor : 0; po.fillmax = C->fillmax; po.logsize = C->logsize; po.lock = Mutex_locker;
    memmgr_init_default(&po.mem);
    MC_ASSERT(hash_table_new(&tab, &po) == 0, "new", "no table");
    for (const char *p = C->pre; *p; p++) { one('I', *p - 'a'); MC_ASSERT(H[hn - 1].res == 0, "serial", "insert fails"); start[*p - 'a'] = H[hn - 1].arg; nstart++; hn--; }
    mc11_config(C->preempt, 0);
    for (int i = 0; i < 4 && C->prog[i]; i++) mc11_go(thread, (void *)C->prog[i]);
    mc11_run();
    check();
    hash_table_delete(tab);
    if (C->dt) for (int i = 0; i < nit; i++) { int used = i < nstart; for (int j = 0; j < hn; j++) if (H[j].arg == i) used = H[j].op == 'I' ? H[j].res == 0 : H[j].op == 'P' ? H[j].res == i : 1; MC_ASSERT(it[i].dtors == used, "dtor", "the destructor of item %d ran %d times, due %d", i, it[i].dtors, used); }
    MC_ASSERT(mc11_sync_left() == 0, "sync-left", "%d locks are left after the table is deleted", mc11_sync_left());
    mc_op();
}
NOTS static void run(long arg) { go(&confs[arg]); }
#define Z(pre, lg, fm, dt, hvi, pr, t, ...) { #pre " 2^" #lg " fill " #fm " dtor " #dt " hash " #hvi " " #__VA_ARGS__, pre, { __VA_ARGS__ }, lg, fm, dt, hvi, pr, t }
/* a table that does not grow (fillmax 99), and one that grows with each further bucket in use (fillmax 1) */
#define BOTH(pre, dt, pr, t, ...) Z(pre, 2, 99, dt, 0, pr, t, __VA_ARGS__), Z(pre, 1, 30, dt, 0, pr, t, __VA_ARGS__)
static const conf confs[] = {
 /* pairs on one key, on a colliding key and on another bucket */
 BOTH("", 0, U, 0, "Ia", "Ia"), BOTH("", 0, U, 0, "Ia", "Ib"), BOTH("", 0, U, 0, "Ia", "Id"), BOTH("", 0, U, 0, "Ia", "Pa"), BOTH("", 1, U, 0, "Ra", "Ra"), BOTH("a", 1, U, 0, "Ra", "Ra"), BOTH("a", 0, U, 0, "Xa", "Xa"), BOTH("ab", 0, U, 0, "Xa", "Xb"), BOTH("a", 0, U, 0, "Ra", "La"), BOTH("a", 0, U, 0, "Xa", "La"), BOTH("a", 1, U, 0, "Xa", "Ia"), BOTH("a", 1, U, 0, "Xa", "Pa"), BOTH("a", 1, U, 0, "Ma", "Xa"), BOTH("ab", 1, U, 0, "Ma", "Ib"), BOTH("ad", 0, U, 0, "Aa", "Xa"), BOTH("ad", 0, U, 0, "Aa", "Ie"), BOTH("a", 0, U, 0, "Id", "Xd"), BOTH("a", 0, U, 0, "Ie", "Sa", "Lb"),
 /* longer programs, two threads */
 BOTH("", 0, U, 0, "IaXaIa", "IaXaLa"), BOTH("a", 1, U, 0, "XaPaRa", "PaXaPa"), BOTH("", 0, U, 0, "IaIdLb", "IbIeLa"), BOTH("a", 0, U, 0, "IdIeIf", "LaXaLd"), BOTH("ad", 1, U, 0, "XaIeXd", "LaRdMe"), BOTH("", 0, U, 0, "PaPbPc", "PcPbPa"), BOTH("abc", 0, U, 0, "XaXbXc", "XcXbXa"), BOTH("abd", 0, U, 0, "AaIeAe", "XaIfMb"), BOTH("a", 0, U, 0, "LaLbLc", "IbIcId"), BOTH("", 1, U, 0, "RaRaXa", "RaXaRa"),
 /* three threads */
 BOTH("", 0, U, 0, "Ia", "Ia", "La"), BOTH("", 0, U, 0, "IaXa", "IaXa", "La"), BOTH("a", 0, U, 0, "IdIe", "LaXa", "IfLd"), BOTH("a", 1, U, 0, "Xa", "RaLa", "Pa"), BOTH("ab", 0, U, 0, "XaIa", "XbIb", "LaLb"), BOTH("a", 0, U, 0, "Id", "Ie", "XaIf"), BOTH("ad", 1, U, 0, "Ma", "AdIe", "XdId"), BOTH("", 0, U, 0, "IaId", "IbIe", "LaLe"),
 /* hash values of the other kind */
 Z("", 1, 30, 0, 1, U, 0, "IaIcId", "IbIeIf"), Z("ac", 2, 30, 1, 1, U, 0, "XaIdXc", "LaIeRc"), Z("a", 3, 99, 0, 1, U, 0, "IcXaId", "XdLaIa"),
 BOTH("", 0, U, 1, "IaXaIa", "IaXaLa", "PaLa"), BOTH("a", 1, U, 1, "IdIeXa", "LaXaIf", "PaLdXd"), BOTH("", 0, U, 1, "IaId", "IbIe", "IcIf"), BOTH("", 0, U, 1, "Ia", "Id", "Ie", "Lf"), BOTH("ad", 0, U, 1, "XaIa", "MdId", "AaIe"), BOTH("a", 1, U, 1, "IdIeIfXa", "XaIaXdLe"), BOTH("", 0, U, 1, "IaXb", "IbXa", "LaLb", "PaLb"),
 { 0 } };
/* every program: nt threads with n operations each, drawn from all operations on up to three keys */
static const char *const OPS[] = { "Ia", "Xa", "La", "Pa", "Ra", "Id", "Xd", "Ib", "Xb", "Ma", "Aa", "Ld", "Rd", "Pb", "Ie", "Lb" };
static const conf GEN[] = { Z("", 2, 99, 0, 0, U, 0, 0), Z("", 1, 30, 0, 0, U, 0, 0), Z("a", 1, 30, 0, 0, U, 0, 0), Z("ad", 2, 99, 1, 0, U, 0, 0), Z("ab", 1, 60, 1, 0, U, 0, 0) };
NOTS static void gen(long arg)
{
    static conf c; static char prog[4][8]; int nt = arg & 15, n = arg >> 4 & 15, nops = arg >> 8 & 255; int last = 0;
    c = GEN[mc_choose(5)];
    for (int t = 0; t < nt; t++) {
        int id = 0; prog[t][0] = 0;
        for (int i = 0; i < n; i++) { int o = mc_choose(nops); id = id * nops + o; strcat(prog[t], OPS[o]); }
        if (id < last) mc_prune();        /* threads are interchangeable */
        last = id; c.prog[t] = prog[t];
    }
    for (int t = nt; t < 4; t++) c.prog[t] = 0;
    go(&c);
}
#define NCONF (sizeof confs / sizeof confs[0] - 1)
#define G(nt, n, ops) nt | n << 4 | ops << 8
static const mc_scenario extra[] = { { "every program, 2 threads, 1 operation", gen, G(2, 1, 16), 0, 2, MC_F_LEAK }, { "every program, 3 threads, 1 operation", gen, G(3, 1, 14), 0, 3, MC_F_LEAK }, { "every program, 2 threads, 2 operations", gen, G(2, 2, 12), 0, 3, MC_F_LEAK }, { "every program, 4 threads, 1 operation", gen, G(4, 1, 8), 0, 3, MC_F_LEAK },
    { "every program, 3 threads, 2 operations", gen, G(3, 2, 6), 1, 3, MC_F_LEAK }, { "every program, 2 threads, 3 operations", gen, G(2, 3, 7), 1, 3, MC_F_LEAK }, { "every program, 2 threads, 2 of all operations", gen, G(2, 2, 16), 1, 3, MC_F_LEAK } };
#define NEX (sizeof extra / sizeof extra[0])
mc_scenario scen[NCONF + NEX + 1] __asm__("mc_scenarios");
__attribute__((constructor)) static void ctor(void)
{
    for (unsigned i = 0; i < NCONF; i++) scen[i] = (mc_scenario){ confs[i].name, run, i, confs[i].tier, 0, MC_F_LEAK };
    for (unsigned i = 0; i < NEX; i++) scen[NCONF + i] = extra[i];
}
