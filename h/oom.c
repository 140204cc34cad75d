/* C58: each allocation of each operation sequence failing in turn, on the real containers and text functions. */
#include "mc.h"
#include "fsfault.h"
#include <errno.h>
#include <fts.h>
#include "utils/hashtab.h"
#include "utils/bloom.h"
#include "utils/xorfilter.h"
#include "utils/gstring.h"
#include "utils/mempool.h"
#include "utils/arena.h"
#include "utils/pack.h"
#include "utils/utils.h"
#include "utils/xxhash.h"
#include "fast/bitset.h"

static uint64_t nsalt;
int __wrap_getentropy(void *p, size_t n) { uint64_t v = 7 + nsalt++ * 0x9e3779b97f4a7c15ull; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = v >> (8 * (i & 7)); return 0; }
uint32_t __wrap_arc4random(void) { return 3; }

/* one operation with at most one run of failures in it: none, the k-th allocation, or the k-th and all after it */
static int planned;
static void begin(int K) { int c = mc_choose(1 + 2 * K); planned = c > 0; mc_op(); if (!c) { mc_oom_run(1); mc_oom_at(1 << 30); } else { mc_oom_run(c > K ? 1 << 20 : 1); mc_oom_at((c - 1) % K); mc_note("allocation %d%s fails", (c - 1) % K, c > K ? " and every later one" : ""); } }
static int end(void) { int f = mc_oom_fired(); mc_oom_at(-1); if (planned && !f) mc_prune(); return f; }

/* ---- hash tables ---- */
typedef struct { int key, id, dtor, in; } item;
static item it[32]; static int nit; static item *model[5]; static uint32_t hv[5];
static uint32_t h(const void *p) { return hv[((const item *)p)->key]; }
static int cmp(const void *a, const void *b) { int x = ((const item *)a)->key, y = ((const item *)b)->key; return x < y ? -1 : x > y; }
static void dtor(void *p) { ((item *)p)->dtor++; }
static int cnt; static unsigned seen;
static void visit(void *c, const void *p) { (void)c; cnt++; seen |= 1u << ((const item *)p)->key; }
static unsigned mset(void) { unsigned m = 0; for (int k = 0; k < 5; k++) if (model[k]) m |= 1u << k; return m; }
static void hverify(hash_table_t t)
{
    mc_site("verify"); cnt = 0; seen = 0; hash_table_apply(t, visit, 0);
    MC_ASSERT(seen == mset() && cnt == __builtin_popcount(mset()), "table", "the table holds %d items, keys %#x, expected keys %#x", cnt, seen, mset());
    for (int k = 0; k < 5; k++) { item q = { k, -1, 0, 0 }; void *r = &q; int ok = hash_table_lookup(t, &q, &r); MC_ASSERT(model[k] ? ok > 0 && r == model[k] : !ok, "lookup", "lookup of key %d: %d", k, ok); }
    hash_table_stat st; hash_table_stats(t, &st); MC_ASSERT((int)st.nodes == cnt, "stats", "statistics count %zu, the table holds %d", st.nodes, cnt);
}
/* arg: depth */
static void r_hash(long depth)
{
    static const uint32_t HS[3][5] = { { 0, 0, 4, 1, 0x80000002u }, { 7, 7, 7, 7, 7 }, { 0, 1, 2, 3, 4 } };
    int hs = mc_choose(3), lg = 1 + mc_choose(2), fm = mc_choose(2) ? 80 : 10; memcpy(hv, HS[hs], sizeof hv); nit = 0; memset(model, 0, sizeof model);
    hash_table_policy p; memset(&p, 0, sizeof p); p.hash = h; p.cmp = cmp; p.dtor = dtor; p.fillmax = fm; p.logsize = lg; malloc_memmgr(&p.mem);
    hash_table_t t = 0; mc_site("hash_table_new"); begin(3); int r = hash_table_new(&t, &p); int f = end();
    if (f) { MC_ASSERT(r < 0 || t, "new", "creation gives %d and no table", r); if (r < 0) { MC_ASSERT(r == -ENOMEM, "new", "creation gives %d", r); return; } } else MC_ASSERT(r == 0, "new", "creation gives %d", r);
    int pre = mc_choose(4);         /* items already there */
    for (int i = 0; i < pre; i++) { item *n = &it[nit++]; *n = (item){ i, i, 0, 1 }; model[i] = n; MC_ASSERT(hash_table_insert(t, n) == 0, "insert", "prefill"); }
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(6), k = op < 4 ? pre + mc_choose(2) : 0; if (k > 4) mc_prune(); if (op < 4 && mc_choose(2)) k = 0;
        item *n = &it[nit++]; *n = (item){ k, nit, 0, 0 }; item q = *n;
        mc_note("op %d key %d", op, k);
        if (op == 0) { mc_site("hash_table_insert"); begin(3); r = hash_table_insert(t, n); f = end();
            if (model[k]) MC_ASSERT(r == -EEXIST || (f && r < 0), "insert-dup", "%d", r); else { MC_ASSERT(r == 0 || (f && r == -ENOMEM), "insert", "insert gives %d%s", r, f ? " without memory" : ""); if (!r) { model[k] = n; n->in = 1; } } }
        else if (op == 1) { mc_site("hash_table_replace"); begin(3); r = hash_table_replace(t, n); f = end();
            MC_ASSERT(r == 0 || (f && r < 0), "replace", "replace gives %d", r); if (!r) { if (model[k]) { MC_ASSERT(model[k]->dtor == 1, "dtor", "the replaced item's destructor ran %d times", model[k]->dtor); model[k]->in = 0; } model[k] = n; n->in = 1; } }
        else if (op == 2) { mc_site("hash_table_probe"); begin(3); void *x = hash_table_probe(t, n); f = end();
            if (model[k]) MC_ASSERT(x == model[k] || (f && !x), "probe-dup", "probe gives the wrong item"); else { MC_ASSERT(x == n || (f && !x), "probe", "probe gives the wrong item"); if (x) { model[k] = n; n->in = 1; } } }
        else if (op == 3) { mc_site("hash_table_remove"); begin(1); r = hash_table_remove(t, &q, 0); end(); MC_ASSERT(model[k] ? r == 0 : r < 0, "remove", "remove gives %d", r); if (model[k]) { model[k]->in = 0; model[k] = 0; } }
        else { hash_table_iter_t i = 0; mc_site("hash_table_iter_new %s", op == 4 ? "plain" : "sorted"); begin(3); r = hash_table_iter_new(&i, t, op == 5); f = end();
            MC_ASSERT(r == 0 || f, "iter", "no iterator: %d", r); if (r == 0) { cnt = 0; seen = 0; int last = -1; for (int e = hash_table_iter_first(i); e == 0; e = hash_table_iter_next(i)) { const item *x = hash_table_iter_item(i); MC_ASSERT(x && cnt < 10, "iter", "endless or empty"); if (op == 5) MC_ASSERT(x->key > last, "iter-sort", "not sorted"); last = x->key; visit(0, x); } MC_ASSERT(seen == mset() && cnt == __builtin_popcount(mset()), "iter", "iteration visits %d items, keys %#x", cnt, seen); hash_table_iter_delete(i); } else MC_ASSERT(r < 0, "iter", "result %d", r); }
        MC_ASSERT(n->in || n->dtor == 0, "dtor", "the destructor ran on an item that was refused");
        hverify(t); uint64_t x = mc_mix(hs * 8 + lg * 4 + (fm == 10), pre); for (int j = 0; j < 5; j++) x = mc_mix(x, model[j] ? model[j]->id : -1); mc_state(mc_mix(x, f));
    }
    mc_site("hash_table_delete"); hash_table_delete(t);
    for (int i = 0; i < nit; i++) MC_ASSERT(it[i].dtor <= 1 && (!it[i].in || it[i].dtor == 1), "delete", "item %d: destructor ran %d times", i, it[i].dtor);
}

/* ---- bloom filters ---- */
static uint64_t VAL(int i) { return (uint64_t)i * 0x9e3779b97f4a7c15ull; }
static void bverify(Bloom *b, const int *have, int n, const char *what) { for (int i = 0; i < n; i++) if (have[i]) MC_ASSERT(Bloom_find(b, VAL(i)), "bloom-lost", "%s: element %d was added and is reported absent", what, i); }
static void put_f(const char *f, char *o) { snprintf(o, 600, "%s/%s", mc_scratch(), f); }
/* arg: 0 creation and use, 1 save and load */
static void r_bloom(long arg)
{
    int kind = mc_choose(3), n = 1 + mc_choose(2) * 3, have[24] = { 0 }; double e = mc_choose(2) ? 0.5 : 0.01; nsalt = 0;
    mc_site("bloom new, kind %d", kind); if (arg) { planned = 0; mc_oom_at(1 << 30); } else begin(5);
    Bloom *b = kind == 0 ? Counting_bloom_new(n, e) : Standard_bloom_new(n, e, kind == 2); int f = end();
    if (f) { if (!b) { return; } } else MC_ASSERT(b, "bloom-new", "no filter");
    if (!arg) {
        if (mc_choose(2)) { Bloom o; mc_site("bloom init, kind %d", kind); begin(4); Bloom *r = kind == 0 ? Counting_bloom_init(&o, n, e) : Standard_bloom_init(&o, n, e, kind == 2); int g = end(); MC_ASSERT(r == &o || (g && !r), "bloom-init", "result"); if (r) { Bloom_probe(r, 5); MC_ASSERT(Bloom_find(r, 5), "bloom-lost", "5"); Bloom_fini(r); } }
        int m = kind == 2 ? 20 : 4, at = mc_choose(m);
        for (int i = 0; i < m; i++) { mc_site("Bloom_probe %d", i); if (i == at) begin(3); else { planned = 0; mc_oom_at(1 << 30); } Bloom_probe(b, VAL(i)); f = end(); have[i] = 1; mc_op(); bverify(b, have, m, "after adding"); mc_state(mc_mix(mc_mix(kind, i), at * 2 + f)); }
        if (kind == 0) { mc_site("Bloom_remove"); MC_ASSERT(Bloom_remove(b, VAL(1)), "bloom-remove", "an element that is there is not removed"); have[1] = 0; bverify(b, have, m, "after removing"); }
        Bloom_delete(b); return;
    }
    int m = kind == 2 ? 12 : 4; for (int i = 0; i < m; i++) { Bloom_probe(b, VAL(i)); have[i] = 1; }
    char fn[620]; put_f("b", fn); unlink(fn); mc_site("Bloom_marshal"); begin(2); int r = Bloom_marshal(b, fn); f = end(); MC_ASSERT(r == 0 || (f && r == -ENOMEM), "bloom-save", "saving gives %d", r);
    if (r) { MC_ASSERT(access(fn, F_OK) != 0, "bloom-save", "a failed save leaves a file"); Bloom_delete(b); return; }
    int mm = mc_choose(2); Bloom *c = (Bloom *)8; int fds = fs_dir_fds(); mc_site("Bloom_unmarshal mmap=%d", mm); begin(8); r = Bloom_unmarshal(&c, fn, mm ? BLOOM_BITMAP_MMAP : 0); f = end();
    MC_ASSERT(r == 0 || (f && r == -ENOMEM), "bloom-load", "loading gives %d%s", r, f ? " without memory" : ""); MC_ASSERT(fs_dir_fds() == fds, "bloom-fd", "a descriptor is left open");
    if (!r) { MC_ASSERT(Bloom_eq(b, c), "bloom-load", "the loaded filter differs"); bverify(c, have, m, "loaded"); Bloom_delete(c); }
    mc_state(mc_mix(kind * 2 + mm, r)); Bloom_delete(b); unlink(fn);
}
static void r_xor(long arg)
{
    static const int N[] = { 1, 2, 3, 5, 10, 50 }; int n = N[mc_choose(6)], w16 = mc_choose(2); uint64_t keys[50]; for (int i = 0; i < n; i++) keys[i] = VAL(i + 1); nsalt = 0;
    mc_site("Xorfilter_new%d of %d", w16 ? 16 : 8, n); if (arg) { planned = 0; mc_oom_at(1 << 30); } else begin(7);
    Xorfilter *x = w16 ? Xorfilter_new16(keys, n) : Xorfilter_new8(keys, n); int f = end(); MC_ASSERT(x || f, "xor-new", "no filter for %d keys", n); mc_state(mc_mix(n * 2 + w16, !x)); if (!x) return;
    for (int i = 0; i < n; i++) MC_ASSERT(Xorfilter_contains(x, keys[i]), "xor-lost", "key %d of %d is reported absent", i, n);
    if (arg) {
        char fn[620]; put_f("x", fn); unlink(fn); mc_site("Xorfilter_marshal"); begin(2); int r = Xorfilter_marshal(x, fn); f = end(); MC_ASSERT(r == 0 || (f && r == -ENOMEM), "xor-save", "saving gives %d", r);
        if (!r) { int mm = mc_choose(2), fds = fs_dir_fds(); Xorfilter *y = 0; mc_site("Xorfilter_unmarshal mmap=%d", mm); begin(4); r = Xorfilter_unmarshal(&y, fn, mm ? XORFILTER_MMAP : 0); f = end(); MC_ASSERT(r == 0 || (f && r == -ENOMEM), "xor-load", "loading gives %d", r); MC_ASSERT(fs_dir_fds() == fds, "xor-fd", "a descriptor is left open");
            if (!r) { for (int i = 0; i < n; i++) MC_ASSERT(Xorfilter_contains(y, keys[i]), "xor-lost", "loaded: key %d of %d is reported absent", i, n); Xorfilter_delete(y); } mc_state(mc_mix(n * 4 + w16 * 2 + mm, r)); }
        unlink(fn);
    }
    Xorfilter_delete(x);
}

/* ---- growable strings ---- */
static void gok(gstr *g, const char *what) { MC_ASSERT(g->str && g->cap > g->len && mc_block_size(g->str) >= g->cap && g->str[g->len] == 0, "gstr-state", "%s: the string is not in order (length %zu capacity %zu storage %zu)", what, g->len, g->cap, mc_block_size(g->str)); }
static void gis(gstr *g, const char *s, size_t n, const char *what) { gok(g, what); MC_ASSERT(g->len == n && !memcmp(g->str, s, n), "gstr-text", "%s: the text has changed to \"%.100s\"", what, g->str); }
static const char *vfind(void *c, const char *k) { (void)c; return k[0] == 'L' ? "0123456789012345678901234567890123456789012345678901234567890123456789" : k[0] == 'S' ? "v" : 0; }
static void r_gstr(long depth)
{
    gstr g[2]; char m[2][4000]; size_t n[2];
    static const char *LIT[] = { "", "abc", "0123456789012345678901234567890123456789012345678901234567890123456789" };
    for (int i = 0; i < 2; i++) {
        int k = mc_choose(3), how = i ? 0 : mc_choose(3); gstr *q; n[i] = strlen(LIT[k]); memcpy(m[i], LIT[k], n[i] + 1); mc_site("gstr init kind %d", how); memset(&g[i], 0x5a, sizeof g[i]); gstr src; if (how == 2) { gstr_init_from(&src, LIT[k]); }
        begin(2); if (how == 0) q = gstr_init_from(&g[i], LIT[k]); else if (how == 1) { q = gstr_init(&g[i], n[i]); n[i] = 0; } else q = gstr_dup(&g[i], &src); int f = end(); if (how == 2) gstr_fini(&src);
        MC_ASSERT(q == &g[i] || (f && !q), "gstr-init", "creation gives another string"); if (!q) { if (i) gstr_fini(&g[0]); return; } gis(&g[i], m[i], n[i], "new string");
    }
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(9), f; static const char *nm[] = { "append_str", "append_ch", "append", "append self", "copy", "readline", "varexp", "escape", "unescape" }; mc_site("gstr %s", nm[op]); mc_note("%s", nm[op]);
        char *t = m[0]; size_t l = n[0]; if (l > 1200) mc_prune(); t[l] = 0;
        if (op == 0) { int k = mc_choose(3); begin(2); size_t r = gstr_append_str(&g[0], LIT[k]); f = end(); if (f && r == (size_t)-1) gis(&g[0], t, l, "failed append_str"); else { memcpy(t + l, LIT[k], strlen(LIT[k])); n[0] += strlen(LIT[k]); MC_ASSERT(r == n[0], "gstr-ret", "append_str gives %zd", (ssize_t)r); } }
        else if (op == 1) { int left = (int)(g[0].cap - g[0].len); begin(2); int r = gstr_append_ch(&g[0], 'q'); f = end(); (void)left; if (f && r == -1) gis(&g[0], t, l, "failed append_ch"); else { t[n[0]++] = 'q'; MC_ASSERT(r == (int)n[0], "gstr-ret", "append_ch gives %d", r); } }
        else if (op == 2 || op == 3) { int s = op == 2; begin(2); int r = gstr_append(&g[0], &g[s]); f = end(); if (f && r == -1) gis(&g[0], t, l, "failed append"); else { memmove(t + l, m[s], n[s]); n[0] = l + (s ? n[1] : l); MC_ASSERT(r == (int)n[0], "gstr-ret", "append gives %d", r); } }
        else if (op == 4) { begin(2); gstr *q = gstr_copy(&g[0], &g[1]); f = end(); if (f && !q) gis(&g[0], t, l, "failed copy"); else { MC_ASSERT(q == &g[0], "gstr-ret", "copy gives another string"); memcpy(t, m[1], n[1]); n[0] = n[1]; } }
        else if (op == 5) { char line[200]; memset(line, 'w', sizeof line); line[150] = '\n'; static FILE *fp; char fn[620]; put_f("l", fn); if (!fp) { fs_put(fn, line, 151); fp = fopen(fn, "r"); if (!fp) abort(); } rewind(fp); fgetc(fp); rewind(fp); mc_site("gstr readline"); begin(3); int r = gstr_readline(&g[0], fp, "\n"); f = end();
            if (f && r < 0) { gok(&g[0], "failed readline"); n[0] = g[0].len; memcpy(t, g[0].str, n[0]); for (size_t i = 0; i < n[0]; i++) MC_ASSERT(t[i] == 'w', "gstr-text", "a failed readline leaves other text"); } else { MC_ASSERT(r == 150, "gstr-ret", "readline gives %d", r); memset(t, 'w', 150); n[0] = 150; } }
        else if (op == 6) { static const char *V[] = { "a${L}b", "$S-x", "${S}${L}${L}", "${LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL}" }; int k = mc_choose(4); gstr_truncate(&g[0], 0); if (gstr_append_str(&g[0], V[k]) == (size_t)-1) mc_fail("gstr-ret", "append"); char ex[400] = ""; const char *L = vfind(0, "L"); if (k == 0) snprintf(ex, sizeof ex, "a%sb", L); else if (k == 1) strcpy(ex, "$S-x"); else if (k == 2) snprintf(ex, sizeof ex, "v%s%s", L, L); else strcpy(ex, L);
            if (k == 1) { gstr_truncate(&g[0], 0); gstr_append_str(&g[0], "${S}-x"); strcpy(ex, "v-x"); }
            begin(5); int r = gstr_varexp(&g[0], vfind, 0); f = end(); if (f && r == -ENOMEM) { gok(&g[0], "failed varexp"); n[0] = g[0].len; memcpy(t, g[0].str, n[0]); } else { MC_ASSERT(r == 0, "gstr-ret", "varexp gives %d", r); n[0] = strlen(ex); memcpy(t, ex, n[0]); } }
        else if (op == 7) { char ex[4800]; size_t z = 0; for (size_t i = 0; i < l; i++) { if (t[i] == 'b' || t[i] == 'q') { z += sprintf(ex + z, "\\0%3.3o", t[i]); } else { if (t[i] == '\\') ex[z++] = '\\'; ex[z++] = t[i]; } } if (z > 1500) mc_prune(); begin(4); gstr *q = gstr_escape(&g[0], "bq", '\\'); f = end(); if (f && !q) gis(&g[0], t, l, "failed escape"); else { MC_ASSERT(q == &g[0], "gstr-ret", "escape gives another string"); gok(q, "escape"); MC_ASSERT(q->len == z && !memcmp(q->str, ex, z), "gstr-text", "escape gives \"%.100s\"", q->str); n[0] = z; memcpy(t, ex, z); } }
        else { begin(2); gstr *q = gstr_unescape(&g[0], '\\'); f = end(); if (!q) { MC_ASSERT(f, "gstr-ret", "unescape fails"); gok(&g[0], "failed unescape"); } n[0] = g[0].len; memcpy(t, g[0].str, n[0]); }
        gis(&g[0], m[0], n[0], nm[op]); gis(&g[1], m[1], n[1], "the other string"); mc_state(mc_mix(mc_hash(op, m[0], n[0]), f * 8 + d));
    }
    gstr_fini(&g[0]); gstr_fini(&g[1]);
}

/* ---- splitting, unpacking, pools, arenas and small ones ---- */
static void r_split(long arg)
{
    int n = mc_choose(arg), sqz = mc_choose(2); char s[400], o[400]; size_t l = 0; for (int i = 0; i < n; i++) { s[l++] = 'a' + i % 26; if (i < n - 1) s[l++] = ','; } s[l] = 0; memcpy(o, s, l + 1);
    int sz = -1; mc_site("strsplit of %d tokens", n); begin(4); char **v = strsplit(&sz, s, ",", sqz); int f = end(); MC_ASSERT(v || f, "split", "no result"); mc_state(mc_mix(n * 2 + sqz, !v));
    if (v) { MC_ASSERT(sz == n, "split", "%d tokens, expected %d", sz, n); for (int i = 0; i < n; i++) MC_ASSERT(v[i][0] == 'a' + i % 26, "split", "token %d is \"%s\"", i, v[i]); free(v); }
}
static void r_unpack(long arg)
{
    (void)arg; static const char T[] = "bBsSiIlL"; char t = T[mc_choose(8)]; int n = 1 + mc_choose(3), be = mc_choose(2), two = mc_choose(2); char fmt[40]; snprintf(fmt, sizeof fmt, "%s* %c%s", be ? "> " : "< ", t, two ? " z" : "");
    uint8_t buf[200]; uint64_t src[8] = { 0x0102030405060708ull, 0x1112131415161718ull, 0x2122232425262728ull, 0x3132333435363738ull };
    mc_site("Pack %s", fmt); ssize_t r = Pack(buf, sizeof buf, fmt, (uint32_t)n, src, "text"); MC_ASSERT(r > 0, "pack", "Pack gives %zd", r);
    uint32_t m = 0; void *va = 0; char *st = 0; mc_site("Unpack %s", fmt); begin(3); ssize_t q = Unpack(buf, (size_t)r, fmt, &m, &va, &st); int f = end(); MC_ASSERT(q == r || (f && q == -ENOMEM), "unpack", "Unpack gives %zd", q);
    if (q > 0) { size_t w = t == 'b' || t == 'B' ? 1 : t == 's' || t == 'S' ? 2 : t == 'i' || t == 'I' ? 4 : 8; MC_ASSERT(m == (uint32_t)n && !memcmp(va, src, w * n), "unpack", "values differ"); if (two) MC_ASSERT(!strcmp(st, "text"), "unpack", "text differs"); }
    free(va); free(st); mc_state(mc_mix(t * 8 + n, q < 0));
}
static void r_pool(long depth)
{
    memmgr mm; malloc_memmgr(&mm); mempool st, *a = 0; int isnew = mc_choose(2), max = mc_choose(3), os = mc_choose(2); unsigned char *b[12]; int nb = 0, tag[12], tg = 0;
    mc_site("mempool creation"); begin(3); int r = isnew ? mempool_new(&a, os ? 0 : &mm, 24, max, max ? 0 : 2) : mempool_init(&st, os ? 0 : &mm, 24, max, max ? 0 : 2); int f = end(); MC_ASSERT(r == 0 || (f && r == -ENOMEM), "pool-new", "creation gives %d", r); if (r) return; if (!isnew) a = &st;
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(1 + nb); if (!o) { mc_site("mempool_alloc"); begin(2); unsigned char *p = mempool_alloc(a); f = end(); MC_ASSERT(p || f || (max && nb >= max), "pool-refuse", "a block is refused with %d in use", nb); if (p) { tag[nb] = ++tg; memset(p, tg, 24); b[nb++] = p; } } else { mc_site("mempool_free"); mempool_free(a, b[o - 1]); nb--; b[o - 1] = b[nb]; tag[o - 1] = tag[nb]; }
        for (int i = 0; i < nb; i++) for (int j = 0; j < 24; j++) MC_ASSERT(b[i][j] == tag[i], "pool-text", "a live block has changed"); mc_state(mc_mix(mc_mix(max, isnew * 2 + os), nb * 64 + d * 4 + f));
    }
    if (isnew) mempool_delete(a); else mempool_fini(a);
}
static void r_arena(long depth)
{
    arena_t a = 0; static const size_t S[] = { 8, 100, 3000 }; mc_site("arena_new"); int cs = mc_choose(2) ? 64 : 4096; begin(3); int r = arena_new(&a, cs); int f = end(); MC_ASSERT(r == 0 || (f && r == -ENOMEM), "arena-new", "creation gives %d", r); if (r) return;
    unsigned char *b[12]; size_t n[12]; int nb = 0; for (int d = 0; d < depth; d++) { size_t s = S[mc_choose(3)]; mc_site("arena_alloc %zu", s); begin(2); unsigned char *p = arena_alloc(a, s); f = end(); MC_ASSERT(p || f, "arena-refuse", "a request is refused"); if (p) { n[nb] = s; memset(p, nb + 1, s); b[nb++] = p; } for (int i = 0; i < nb; i++) for (size_t j = 0; j < n[i]; j++) MC_ASSERT(b[i][j] == i + 1, "arena-text", "a live block has changed"); mc_state(mc_mix(cs, nb * 64 + d * 4 + f)); }
    arena_delete(a);
}
static void r_small(long arg)
{
    (void)arg; int w = mc_choose(3);
    if (w == 0) { mc_site("XXH createState"); begin(1); XXH64_state_t *s = XXH64_createState(); int f = end(); MC_ASSERT(s || f, "xxh", "no state"); if (s) XXH64_freeState(s); begin(1); XXH32_state_t *q = XXH32_createState(); f = end(); MC_ASSERT(q || f, "xxh", "no state"); if (q) XXH32_freeState(q); }
    else { int n = mc_choose(3) * 65; mc_site("bitset_new"); begin(1); bitset *b = bitset_new(n); int f = end(); MC_ASSERT(b || f, "bitset", "no set"); if (b) { if (n) bitset_set(b, n - 1); if (w == 2) { mc_site("bitset_dup"); begin(1); bitset *c = bitset_dup(b); f = end(); MC_ASSERT(c || f, "bitset", "no copy"); if (c) { MC_ASSERT(!n || bitset_isset(c, n - 1), "bitset", "copy differs"); bitset_del(c); } MC_ASSERT(!n || bitset_isset(b, n - 1), "bitset", "the set changed"); } bitset_del(b); } }
    mc_state(w);
}

/* ---- file tree walks ---- */
static FTS *open_walk; static char tree[600];
static void after(void) { if (open_walk) { fts_close(open_walk); open_walk = 0; } if (tree[0] && chdir(tree)) {} }
static int names(const FTSENT **a, const FTSENT **b) { return strcmp((*a)->fts_name, (*b)->fts_name); }
static void r_fts(long arg)
{
    static const char *ALL = "\nt D\nt/a F\nt/b D\nt/b/c F\nt/b/d D\nt/b/d DP\nt/b/e F\nt/b DP\nt/f F\nt DP\n";
    static int built[2]; snprintf(tree, sizeof tree, "%s/w%ld", mc_scratch(), arg); if (built[arg]) { if (chdir(tree)) abort(); }
    else { built[arg] = 1; mc_after = after; mkdir(tree, 0755); if (chdir(tree)) abort(); mkdir("t", 0755); mkdir("t/b", 0755); mkdir("t/b/d", 0755); fs_put("t/a", "1", 1); fs_put("t/b/c", "1", 1); fs_put("t/b/e", "1", 1); fs_put("t/f", "1", 1);
        if (arg & 1) { mkdir("t/m", 0755); for (int i = 0; i < 60; i++) { char q[600]; memset(q, 'n', 220); snprintf(q, sizeof q, "t/m/%03d%0200d", i, 0); fs_put(q, "1", 1); } } }
    int o = mc_choose(4), c = mc_choose(2), kids = mc_choose(2), f; int opts = o & 1 ? FTS_LOGICAL : FTS_PHYSICAL; if (o & 2) opts |= FTS_NOCHDIR; char *argv[] = { "t", 0 }; int fds = fs_dir_fds(); char seenp[30000] = "\n"; size_t z = 1; int nent = 0;
    mc_site("fts walk"); mc_note("options %#x order %d children %d", opts, c, kids); begin(arg & 1 ? 200 : 40); errno = 0; FTS *sp = fts_open(argv, opts, c ? names : 0); open_walk = sp; int e = errno; 
    if (!sp) { f = end(); MC_ASSERT(f && e == ENOMEM, "fts-open", "fts_open fails: %d", e); return; }
    FTSENT *p; int past = 0; while ((errno = 0, p = fts_read(sp))) { mc_op(); if (++nent > 300) mc_fail("fts-endless", "the walk does not end"); static const char *N[] = { "?", "D", "DC", "DEFAULT", "DNR", "DOT", "DP", "ERR", "F", "INIT", "NS", "NSOK", "SL", "SLNONE", "W" }; if (strncmp(p->fts_path, "t/m", 3)) z += snprintf(seenp + z, sizeof seenp - z, "%s %s\n", p->fts_path, N[p->fts_info]); else { struct stat st; MC_ASSERT(p->fts_info == FTS_D || p->fts_info == FTS_DP ||(p->fts_info == FTS_F && stat(p->fts_accpath, &st) == 0), "fts-entry", "%s is wrong", p->fts_path); }
        if (kids && p->fts_info == FTS_D) { errno = 0; FTSENT *k = fts_children(sp, 0); int ke = errno; if (!k && ke == ENOMEM) past = 1; (void)k; } }
    e = errno; f = end(); mc_site("fts_close"); open_walk = 0; MC_ASSERT(fts_close(sp) == 0, "fts-close", "closing fails: %s", strerror(errno)); char cwd[700]; MC_ASSERT(getcwd(cwd, sizeof cwd) && !strcmp(cwd, tree), "fts-cwd", "the working directory is %s, was %s", cwd, tree); MC_ASSERT(fs_dir_fds() == fds, "fts-fd", "a descriptor is left open");
    if (!f) MC_ASSERT(e == 0, "fts-end", "errno %d at the end of a walk", e);
    /* each line is one of the expected ones, none twice; all of them unless the end reports an error */
    int lines = 0; for (char *s = seenp + 1; *s; s = strchr(s, '\n') + 1) { char one[1300]; size_t l = (size_t)(strchr(s, '\n') + 1 - s); memcpy(one, s - 1, l + 1); one[l + 1] = 0; lines++; MC_ASSERT(strstr(ALL, one) || (f && (strstr(one, " ERR") || strstr(one, " DNR") || strstr(one, " NS"))), "fts-entry", "unexpected entry%s", one); MC_ASSERT(!strstr(s, one), "fts-twice", "entry twice%s", one); }
    MC_ASSERT(lines == 10 || (f && (e != 0 || past || strstr(seenp, " ERR"))), "fts-lost", "%d entries of 10, and errno %d at the end", lines, e);
    mc_state(mc_hash(opts * 4 + c * 2 + kids, seenp, z));
}
const mc_scenario mc_scenarios[] = {
    { "hash table", r_hash, 3, -1, 2, MC_F_LEAK }, { "hash table deep", r_hash, 4, 1, 3, MC_F_LEAK }, { "bloom filter", r_bloom, 0, 0, 2, MC_F_LEAK }, { "bloom file", r_bloom, 1, 0, 2, MC_F_LEAK }, { "xor filter", r_xor, 0, 0, 1, MC_F_LEAK }, { "xor file", r_xor, 1, 0, 1, MC_F_LEAK },
    { "growable string", r_gstr, 3, -1, 2, MC_F_LEAK }, { "growable string deep", r_gstr, 4, 1, 3, MC_F_LEAK }, { "splitting", r_split, 70, 0, 1, MC_F_LEAK }, { "unpacking", r_unpack, 0, 0, 1, MC_F_LEAK }, { "pool", r_pool, 8, 0, 2, MC_F_LEAK }, { "arena", r_arena, 5, 0, 2, MC_F_LEAK }, { "states and bit sets", r_small, 0, 0, 0, MC_F_LEAK },
    { "walk", r_fts, 0, 0, 1, MC_F_LEAK }, { "walk of a large directory", r_fts, 1, 0, 1, MC_F_LEAK },
    { 0 } };
