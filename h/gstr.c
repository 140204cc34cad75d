/* C22 growable strings, C23 variable expansion, C30 escapes: every sequence/template in the bounds against plain models. */
#include "mc.h"
#include <ctype.h>
#include <errno.h>
#include "utils/gstring.h"

typedef struct { char s[1200]; int n; } mstr;
static void ckg(const gstr *g, const mstr *m, const char *what)
{
    MC_ASSERT(g->len == (size_t)m->n, "len", "%s: length %zu, expected %d", what, g->len, m->n);
    MC_ASSERT(g->cap > g->len, "cap", "%s: capacity %zu with length %zu", what, g->cap, g->len);
    MC_ASSERT(mc_block_size(g->str) >= g->cap, "storage", "%s: storage of %zu bytes for capacity %zu", what, mc_block_size(g->str), g->cap);
    MC_ASSERT(!memcmp(g->str, m->s, m->n), "bytes", "%s: contents differ", what);
    MC_ASSERT(g->str[g->len] == 0, "nul", "%s: not terminated", what);
    MC_ASSERT((gstr_len)((gstr *)g) == g->len && (gstr_str)((gstr *)g) == g->str && (gstr_cap)((gstr *)g) == g->cap && gstr_len(g) == g->len && gstr_str(g) == g->str && gstr_cap(g) == g->cap, "access", "accessors disagree");
}
static void madd(mstr *m, const char *s, int n) { memcpy(m->s + m->n, s, n); m->n += n; }

/* lengths around every power of two up to 2^k */
static int biglen(int k) { int a = mc_choose(k - 2) + 3, d = mc_choose(3) - 1; return (1 << a) + d; }
static void ckb(const gstr *g, const char *b, int n, const char *what)
{
    MC_ASSERT(g->len == (size_t)n && g->cap > g->len && mc_block_size(g->str) >= g->cap, "len", "%s: length %zu, capacity %zu, expected %d", what, g->len, g->cap, n);
    MC_ASSERT(!memcmp(g->str, b, n) && !g->str[n], "bytes", "%s: contents of %d differ", what, n);
}
static char big[300000], big2[300000];

#ifdef P_C22
static gstr G[2]; static mstr M[2];
static int has0(const mstr *m) { return memchr(m->s, 0, m->n) != 0; }
static void mtrim(mstr *m) { int a = 0, b = m->n; while (a < b && isspace((unsigned char)m->s[a])) a++; while (b > a && isspace((unsigned char)m->s[b - 1])) b--; memmove(m->s, m->s + a, b - a); m->n = b - a; }
static const char *LIT[] = { "x", "", "ab\n", "0123456", "\"", "'", " \t", "\r\n", "\xff\xa0z", "012345678901234567890123456789012345678901234567890123456789012" };
static void step(int nop, int nlit)
{
    int o = mc_choose(nop), i = 0, r; gstr *g = &G[0]; mstr *m = &M[0];
    static const char *nm[] = { "append_str", "append_ch", "append", "truncate", "copy", "trim", "unquote", "chop", "chop_if", "reset", "swap", "dup", "eq", "append_self", "copy_rev", "null", "finalize", "init_from" };
    mc_site("gstr_%s", nm[o]); mc_op(); (void)i;
    if (m->n > 600) mc_prune();
    switch (o) {
    case 0: { int k = mc_choose(nlit); size_t q = gstr_append_str(g, LIT[k]); madd(m, LIT[k], (int)strlen(LIT[k])); mc_note("append_str %d", k); MC_ASSERT(q == (size_t)m->n, "ret", "append_str returns %zu", q); break; }
    case 1: { static const char C[] = { 'q', ' ', '\n', '"', 0, (char)0x80 }; int k = mc_choose(6); r = gstr_append_ch(g, C[k]); madd(m, &C[k], 1); mc_note("append_ch %d", C[k]); MC_ASSERT(r == m->n, "ret", "append_ch returns %d", r); break; }
    case 2: r = gstr_append(g, &G[1]); madd(m, M[1].s, M[1].n); mc_note("append other"); MC_ASSERT(r == m->n, "ret", "append returns %d", r); break;
    case 3: { int k = mc_choose(5); size_t n = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (m->n ? m->n - 1 : 0) : k == 3 ? m->n : m->n + 5; r = gstr_truncate(g, n); if ((int)n < m->n) m->n = (int)n; mc_note("truncate %zu", n); MC_ASSERT(r == m->n, "ret", "truncate returns %d", r); break; }
    case 4: { gstr *q = gstr_copy(g, &G[1]); *m = M[1]; mc_note("copy from other"); MC_ASSERT(q == g, "ret", "copy returns another string"); break; }
    case 5: if (has0(m)) mc_prune(); { gstr *q = gstr_trim(g); mtrim(m); mc_note("trim"); MC_ASSERT(q == g, "ret", "trim returns another string"); break; }
    case 6: { r = gstr_unquote(g); int q = m->n ? m->s[0] : 0; int e = 0; if (q == '"' || q == '\'') { if (m->n < 2 || m->s[m->n - 1] != q) e = -1; else { e = q; m->n -= 2; memmove(m->s, m->s + 1, m->n); } } mc_note("unquote -> %d", r); MC_ASSERT(e < 0 ? r < 0 : r == e, "ret", "unquote returns %d, expected %d", r, e); break; }
    case 7: { int c = 0; if (m->n && m->s[m->n - 1] == '\n') { m->n--; c = 1; } if (m->n && m->s[m->n - 1] == '\r') { m->n--; c = 1; } r = gstr_chop(g); mc_note("chop -> %d", r); if (c) MC_ASSERT(r != 0, "ret", "chop returns %d after removing", r); if (!c && !m->n) MC_ASSERT(r == 0, "ret", "chop of an empty string returns %d", r); break; }
    case 8: { const char *set = mc_choose(2) ? "\n" : "x\"\xff"; int c = m->n ? m->s[m->n - 1] : 0, c0 = 0; if (c && strchr(set, c)) { c0 = c; m->n--; } int z = m->n + !!c0; r = gstr_chop_if(g, set); mc_note("chop_if -> %d", r); if (c0) MC_ASSERT((char)r == (char)c0, "ret", "chop_if returns %d, removed %d", r, c0); if (!z) MC_ASSERT(r == 0, "ret", "chop_if of an empty string returns %d", r); break; }
    case 9: gstr_reset(g); m->n = 0; mc_note("reset"); break;
    case 10: { gstr t = G[0]; G[0] = G[1]; G[1] = t; static mstr x; x = M[0]; M[0] = M[1]; M[1] = x; mc_note("swap"); break; }
    case 11: { gstr t; gstr *q = gstr_dup(&t, g); MC_ASSERT(q == &t && t.str != g->str, "dup", "not an independent string"); gstr_fini(&G[1]); G[1] = t; M[1] = *m; mc_note("dup into other"); break; }
    case 12: { int e = m->n == M[1].n && !memcmp(m->s, M[1].s, m->n); r = gstr_eq(g, &G[1]); MC_ASSERT(!!r == e, "eq", "comparison says %d", r); if (!has0(m)) { mstr z = *m; z.s[z.n] = 0; MC_ASSERT(gstr_eq_str(g, z.s), "eq_str", "not equal to its own text"); z.s[z.n] = 'k'; z.s[z.n + 1] = 0; MC_ASSERT(!gstr_eq_str(g, z.s), "eq_str", "equal to a longer text"); if (z.n) { z.s[z.n] = 0; z.s[z.n - 1] ^= 1; MC_ASSERT(!gstr_eq_str(g, z.s), "eq_str", "equal to another text"); } }
        MC_ASSERT(gstr_firstch(g) == (m->n ? m->s[0] : 0) && gstr_lastch(g) == (m->n ? m->s[m->n - 1] : 0), "ends", "first/last character wrong"); for (int k = 0; k < m->n; k++) MC_ASSERT(gstr_ch(g, k) == m->s[k], "ch", "character %d wrong", k); break; }
    case 13: r = gstr_append(g, g); { mstr x = *m; madd(m, x.s, x.n); } mc_note("append self"); MC_ASSERT(r == m->n, "ret", "append returns %d", r); break;
    case 14: gstr_copy(&G[1], g); M[1] = *m; mc_note("copy to other"); break;
    case 15: MC_ASSERT(gstr_append_str(g, 0) == (size_t)m->n && gstr_append(g, 0) == m->n, "null", "appending nothing"); break;
    case 16: { char *p = gstr_finalize(g); MC_ASSERT(!memcmp(p, m->s, m->n) && p[m->n] == 0, "finalize", "text differs"); free(p); gstr_init(g, 3); m->n = 0; mc_note("finalize"); break; }
    case 17: { int k = mc_choose(nlit); gstr_fini(g); MC_ASSERT(gstr_init_from(g, LIT[k]) == g, "ret", "init"); m->n = 0; madd(m, LIT[k], (int)strlen(LIT[k])); mc_note("init_from %d", k); break; }
    }
    ckg(&G[0], &M[0], "string"); ckg(&G[1], &M[1], "other string");
    mc_state(mc_mix(mc_hash(G[0].cap, M[0].s, M[0].n), mc_hash(G[1].cap, M[1].s, M[1].n)));
}
static void run(long arg)
{
    int depth = (int)(arg & 15) + mc_tier(), sz = (int)(arg >> 4 & 255), nop = (int)(arg >> 12 & 31), nlit = (int)(arg >> 17 & 15);
    M[0].n = M[1].n = 0;
    MC_ASSERT(gstr_init(&G[0], sz) == &G[0], "ret", "init"); MC_ASSERT(G[0].cap > (size_t)sz, "init", "capacity %zu for %d", G[0].cap, sz);
    if (mc_choose(2)) { gstr_init_from(&G[1], "0123456"); madd(&M[1], "0123456", 7); } else gstr_init_from(&G[1], 0);
    ckg(&G[0], &M[0], "string"); ckg(&G[1], &M[1], "other string");
    for (int d = 0; d < depth; d++) step(nop, nlit);
    gstr_fini(&G[0]); gstr_fini(&G[1]);
    MC_ASSERT(!mc_live_blocks(), "leak", "%zu blocks left", mc_live_blocks());
}
/* reading lines: every short stream */
static void r_line(long sz)
{
    static const char A[] = { 'a', '\n', ';', (char)0xff, ' ' };
    char b[16]; int n = mc_choose(mc_tier() ? 9 : 8); for (int i = 0; i < n; i++) b[i] = A[mc_choose(5)];
    const char *tok = ((const char *[]){ "\n", ";\n", "\xff" })[mc_choose(3)];
    FILE *fp = n ? fmemopen(b, n, "r") : fopen("/dev/null", "r");
    gstr g; gstr_init(&g, sz); mc_site("gstr_readline"); int p = 0;
    for (int k = 0; k < n + 2; k++) {
        mstr m = { .n = 0 }; while (p < n && !strchr(tok, b[p])) madd(&m, &b[p++], 1); if (p < n) p++;
        int r = gstr_readline(&g, fp, tok); mc_op();
        MC_ASSERT(r == m.n, "readline", "returns %d for a line of %d", r, m.n);
        ckg(&g, &m, "line");
    }
    mc_state(mc_hash(sz, b, n));
    fclose(fp); gstr_fini(&g);
    MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
/* long lines around every growth point */
static void r_long(long sz)
{
    static char b[200]; int n = mc_choose(150), tail = mc_choose(2); for (int i = 0; i < n; i++) b[i] = (char)('a' + i % 26); b[n] = '\n'; memcpy(b + n + 1, "zz", 2);
    FILE *fp = fmemopen(b, n + 1 + 2 * tail, "r"); gstr g; gstr_init(&g, sz); mc_site("gstr_readline"); mstr m = { .n = 0 }; madd(&m, b, n);
    int r = gstr_readline(&g, fp, "\n"); mc_op(); MC_ASSERT(r == n, "readline", "returns %d for a line of %d", r, n); ckg(&g, &m, "line");
    r = gstr_readline(&g, fp, "\n"); m.n = 0; madd(&m, "zz", 2 * tail); MC_ASSERT(r == m.n, "readline", "returns %d for a line of %d", r, m.n); ckg(&g, &m, "line");
    mc_state(mc_mix(n, sz * 2 + tail)); fclose(fp); gstr_fini(&g);
}
/* growth by one operation from every length to every length */
static void r_grow(long arg)
{
    int a = mc_choose(70), b = mc_choose(70), how = mc_choose(5); static char t[100]; memset(t, 'k', sizeof t);
    gstr g, h; mstr m = { .n = 0 }; t[a] = 0; gstr_init_from(&g, t); madd(&m, t, a); t[a] = 'k'; memset(t, 'm', b); t[b] = 0; gstr_init_from(&h, t); mc_site("growth"); mc_op();
    switch (how) { case 0: gstr_append_str(&g, t); madd(&m, t, b); break; case 1: gstr_append(&g, &h); madd(&m, t, b); break; case 2: gstr_copy(&g, &h); m.n = 0; madd(&m, t, b); break; case 3: for (int i = 0; i < b; i++) gstr_append_ch(&g, 'm'); madd(&m, t, b); break; case 4: gstr_append(&g, &g); { mstr x = m; madd(&m, x.s, x.n); } break; }
    ckg(&g, &m, "string"); mc_state(mc_mix(a, b * 8 + how)); gstr_fini(&g); gstr_fini(&h); MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
/* the same operations on long strings */
static void r_big(long k)
{
    int how = mc_choose(9), n = biglen((int)k), m = mc_choose(3) == 0 ? n : mc_choose(2) ? 1 : 100; for (int i = 0; i < n; i++) big[i] = (char)('a' + i % 23); big[n] = 0; gstr g; mc_op(); mc_site("long strings"); int len = n;
    switch (how) {
    case 0: gstr_init_from(&g, big); memset(big + n, 'q', m); big[n + m] = 0; strcpy(big2, big + n); MC_ASSERT(gstr_append_str(&g, big2) == (size_t)(n + m), "ret", "append"); len = n + m; break;
    case 1: gstr_init(&g, 1); for (int i = 0; i < n; i++) MC_ASSERT(gstr_append_ch(&g, big[i]) == i + 1, "ret", "append_ch"); break;
    case 2: { char *p = big2; memset(p, ' ', m); memcpy(p + m, big, n); memset(p + m + n, '\t', m); p[n + 2 * m] = 0; gstr_init_from(&g, p); gstr_trim(&g); break; }
    case 3: { int at = mc_choose(2) ? n / 2 : n - 2; char *p = big2; sprintf(p, "\"%s\"", big); p[at] = 0; p[at] = '\''; gstr_init_from(&g, p); MC_ASSERT(gstr_unquote(&g) == '"', "ret", "unquote"); big[at - 1] = '\''; break; }
    case 4: case 5: { gstr h; gstr_init_from(&h, big); memset(big2, 'z', m); big2[m] = 0; gstr_init_from(&g, how == 4 ? big2 : "0123456789"); MC_ASSERT(gstr_copy(&g, &h) == &g, "ret", "copy"); MC_ASSERT(gstr_eq(&g, &h), "eq", "equal strings differ"); h.str[n - 1] ^= 1; MC_ASSERT(!gstr_eq(&g, &h), "eq", "different strings are equal"); gstr_fini(&h); break; }
    case 6: gstr_init_from(&g, big); { gstr h; gstr_dup(&h, &g); gstr_fini(&g); g = h; } gstr_truncate(&g, n - 1); len = n - 1; big[len] = 0; break;
    case 7: gstr_init_from(&g, big); MC_ASSERT(gstr_append(&g, &g) == 2 * n, "ret", "append"); memcpy(big + n, big, n); len = 2 * n; break;
    case 8: { int nl = mc_choose(3), t = 0; char *p = big2; memcpy(p, big, n); t = n; if (nl) p[t++] = '\n'; if (nl == 2) { memcpy(p + t, big, n); t += n; } FILE *fp = fmemopen(p, t, "r"); gstr_init(&g, m); int r = gstr_readline(&g, fp, "\n"); MC_ASSERT(r == n, "readline", "returns %d for a line of %d", r, n); ckb(&g, big, n, "line"); r = gstr_readline(&g, fp, "\n"); MC_ASSERT(r == (nl == 2 ? n : 0), "readline", "returns %d for the second line of %d", r, n); if (nl < 2) len = 0; fclose(fp); break; }
    }
    ckb(&g, big, len, "long string"); gstr_fini(&g); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); mc_state(mc_mix(how, n * 128 + m));
}
#define A(d, s, o, l) ((d) | (s) << 4 | (o) << 12 | (l) << 17)
const mc_scenario mc_scenarios[] = { { "long strings", r_big, 16, -1, 2, 0 }, { "longer strings", r_big, 17, 1, 2, 0 }, { "all, size 1", run, A(3, 1, 18, 10), 0, 2, 0 }, { "all, size 7", run, A(3, 7, 18, 10), 0, 2, 0 }, { "main, size 2", run, A(4, 2, 12, 6), 0, 2, 0 }, { "main, size 3", run, A(4, 3, 12, 6), 0, 2, 0 }, { "main, default", run, A(4, 0, 12, 10), 0, 2, 0 },
  { "lines, size 1", r_line, 1, 0, 3, 0 }, { "lines, size 3", r_line, 3, 0, 3, 0 }, { "long lines, size 1", r_long, 1, 0, 1, 0 }, { "long lines, size 7", r_long, 7, 0, 1, 0 }, { "long lines, size 63", r_long, 63, 0, 1, 0 }, { "growth", r_grow, 0, 0, 1, 0 }, { 0 } };
#endif

#ifdef P_C23
static char longv[200];
static int finds; static char firstbad[64];
static const char *look(const char *k)
{
    static char out[8][700]; static int o; char *p = out[o++ & 7];
    if (strchr(k, '-') || !strcmp(k, "bb")) return 0;
    if (!strcmp(k, "a")) return "";
    if (!strcmp(k, "b")) return "$a\\${a}\\";
    if (!strcmp(k, "a b")) { memset(longv, 'L', 150); longv[150] = '\\'; longv[151] = 0; return longv; }
    sprintf(p, "<%s>", k); return p;
}
static int cookie;
static const char *find(void *c, const char *k) { MC_ASSERT(c == &cookie, "cookie", "lookup called with another cookie"); finds++; return look(k); }
/* reference: result code, expansion in m */
static int ref(const char *s, mstr *m)
{
    m->n = 0; int prev = 0;
    for (; *s; ) {
        if (*s != '$') { madd(m, s, 1); prev = *s++; continue; }
        if (prev == '\\') { m->s[m->n - 1] = '$'; prev = *s++; continue; }
        char k[64]; int n = 0; s++;
        if (*s == '{') { s++; while (*s && *s != '}') k[n++] = *s++; if (!*s) { return -EINVAL; } s++; }
        else while (*s && (isalnum((unsigned char)*s) || strchr("$#@?*!<>%^&-_|:.", *s))) k[n++] = *s++;
        k[n] = 0; prev = '$';
        if (!n) return -EINVAL;
        const char *v = look(k); if (!v) return -ENOENT;
        madd(m, v, (int)strlen(v));
    }
    return 0;
}
static void doit(const char *t)
{
    gstr g; mstr m; mc_op(); gstr_init_from(&g, t); mc_site("gstr_varexp"); mc_note("<%s>", t);
    int e = ref(t, &m), r = gstr_varexp(&g, find, &cookie);
    MC_ASSERT(r == e, "result", "expanding <%s> gives %d, expected %d", t, r, e);
    if (e) m.n = 0;
    MC_ASSERT(g.len == (size_t)m.n && !memcmp(g.str, m.s, m.n), "expansion", "expanding <%s> gives <%s>", t, g.str);
    ckg(&g, &m, "expansion");
    gstr_append_str(&g, "more"); madd(&m, "more", 4); ckg(&g, &m, "expansion");
    gstr_fini(&g); MC_ASSERT(!mc_live_blocks(), "leak", "expanding <%s> leaks %zu blocks", t, mc_live_blocks());
    mc_state(mc_hash(e, m.s, m.n));
}
static void run(long arg)
{
    static const char A[] = "$a{}b \\-\xe9"; static const char B[] = "${}\\a"; const char *al = arg & 16 ? B : A; int na = (int)strlen(al);
    int n = mc_choose((int)(arg & 15) + 1 + mc_tier()); char t[20]; for (int i = 0; i < n; i++) t[i] = al[mc_choose(na)]; t[n] = 0;
    doit(t);
}
/* every single character inside and after a name */
static void chars(long arg)
{
    int c = 1 + mc_choose(255), f = mc_choose(6); char t[32];
    static const char *F[] = { "$x%cy", "${x%cy}", "%c$x", "$x%c$y", "$%c", "\\%c$x" };
    sprintf(t, F[f], c); doit(t);
}
/* long names and long texts around the buffer sizes */
static void longer(long arg)
{
    int n = mc_choose(140), f = mc_choose(3); static char t[400]; char *p = t;
    if (f == 0) { *p++ = '$'; memset(p, 'x', n % 60); p += n % 60; } else if (f == 1) { p += sprintf(p, "${"); memset(p, 'y', n % 60); p += n % 60; *p++ = '}'; } else { memset(p, 'z', n); p += n; p += sprintf(p, "$q${a b}$q"); }
    strcpy(p, " tail"); doit(t);
}
/* long names, long values and long texts, around every power of two */
static int nlen, nfound, vlen; static char *lval;
static const char *lfind(void *c, const char *k) { MC_ASSERT(c == &cookie, "cookie", "lookup called with another cookie"); size_t z = strlen(k); MC_ASSERT((int)z == nlen, "name", "a name of %d characters is looked up with %zu", nlen, z); for (int i = 0; i < nlen; i++) MC_ASSERT(k[i] == 'a' + i % 23, "name", "character %d of a name of %d is wrong", i, nlen); nfound++; return lval; }
static void r_big(long k)
{
    int br = mc_choose(2), what = mc_choose(3), n = biglen((int)k), pre = mc_choose(2) ? 70 : 0, rep = 1 + mc_choose(3); nlen = what == 0 ? n : 5; vlen = what == 1 ? n : 3; if (what == 2) pre = n; mc_op(); mc_site("gstr_varexp, long");
    lval = malloc(vlen + 1); memset(lval, 'V', vlen); lval[vlen] = 0; char *p = big, *q = big2; nfound = 0;
    for (int r = 0; r < rep; r++) { memset(p, '.', pre); p += pre; memset(q, '.', pre); q += pre; *p++ = '$'; if (br) *p++ = '{'; for (int i = 0; i < nlen; i++) *p++ = (char)('a' + i % 23); *p++ = br ? '}' : '/'; memcpy(q, lval, vlen); q += vlen; if (!br) *q++ = '/'; } *p = *q = 0;
    gstr g; gstr_init_from(&g, big); int e = gstr_varexp(&g, lfind, &cookie); MC_ASSERT(e == 0 && nfound == rep, "result", "expanding a name of %d with a value of %d gives %d", nlen, vlen, e); ckb(&g, big2, (int)(q - big2), "long expansion");
    gstr_fini(&g); free(lval); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); mc_state(mc_mix(mc_mix(n, what), rep * 4 + br * 2 + !!pre));
}
const mc_scenario mc_scenarios[] = { { "long names, values and texts", r_big, 15, 0, 2, 0 }, { "templates", run, 6, 0, 3, 0 }, { "syntax", run, 9 | 16, 0, 3, 0 }, { "characters", chars, 0, 0, 1, 0 }, { "long", longer, 0, 0, 1, 0 }, { 0 } };
#endif

#ifdef P_C30
static const char *SETS[] = { "\a\b\f\n\r\t\v", "abc", "\x80\xff\xc3", "019x", "", "\x01\x1f\"' $", "\x7f\t" };
static const int ESC[] = { '\\', '|', '%', '^' };
static void doit(const char *s, int n, const char *set, int esc)
{
    gstr g; mstr m = { .n = 0 }, src = { .n = 0 }; mc_op(); char z[16]; memcpy(z, s, n); z[n] = 0; madd(&src, s, n);
    gstr_init_from(&g, z); mc_site("gstr_escape");
    for (int i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i]; char b[8]; static const char *mn = "\aa\bb\ff\nn\rr\tt\vv"; const char *q;
        if (c == esc) { b[0] = b[1] = (char)esc; madd(&m, b, 2); }
        else if (strchr(set, c)) { b[0] = (char)esc; if (c >= 7 && c <= 13 && (q = strchr(mn, c))) { b[1] = q[1]; madd(&m, b, 2); } else { sprintf(b + 1, "0%03o", c); madd(&m, b, 5); } }
        else madd(&m, s + i, 1);
    }
    gstr *r = gstr_escape(&g, set, esc); MC_ASSERT(r == &g, "ret", "another string returned");
    ckg(&g, &m, "escaped text");
    mc_site("gstr_unescape"); r = gstr_unescape(&g, esc); MC_ASSERT(r == &g, "ret", "another string returned");
    ckg(&g, &src, "text escaped and unescaped");
    gstr_fini(&g); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); mc_state(mc_hash(esc, m.s, m.n));
}
static void all2(long k) { char s[4]; int set = mc_choose(7), esc = ESC[k], n = mc_choose(3); for (int i = 0; i < n; i++) s[i] = (char)(1 + mc_choose(255)); doit(s, n, SETS[set], esc); }
static void seqs(long k) { static const char A[] = { 'a', '\n', '\\', '0', (char)0xff, '7', '|', 'x' }; char s[10]; int set = mc_choose(7), esc = ESC[k], n = mc_choose(6 + mc_tier()); for (int i = 0; i < n; i++) s[i] = A[mc_choose(8)]; doit(s, n, SETS[set], esc); }
static void everyset(long k) { /* one-character escape sets */ char set[2] = { (char)(1 + mc_choose(255)), 0 }, s[4]; int esc = ESC[k]; if ((unsigned char)set[0] == esc) mc_prune(); s[0] = set[0]; s[1] = (char)(set[0] + 1 ? set[0] + 1 : 1); s[2] = (char)esc; doit(s, 3, set, esc); }
static void longs(long k) { static char t[64]; int n = mc_choose(40), f = mc_choose(3); gstr g, h; for (int i = 0; i < n; i++) t[i] = f == 0 ? '\x02' : f == 1 ? '|' : 'q'; t[n] = 0; gstr_init_from(&g, t); gstr_dup(&h, &g); mc_site("gstr_escape"); mc_op(); gstr_escape(&g, "\x02", '|'); MC_ASSERT(g.len == (size_t)n * (f == 0 ? 5 : f == 1 ? 2 : 1), "len", "escaped length %zu", g.len); gstr_unescape(&g, '|'); MC_ASSERT(gstr_eq(&g, &h), "bytes", "round trip of %d characters differs", n); gstr_fini(&g); gstr_fini(&h); }
static void r_big(long k)
{   /* long texts, mixed, there and back */
    int n = biglen((int)k), mix = mc_choose(4), every = ((const int[]){ 1, 3, 50, 100000 })[mix], z = 0; for (int i = 0; i < n; i++) { big[i] = i % every == 0 ? (i / every % 2 ? '|' : 2) : (char)('a' + i % 25); if (big[i] == '|') { big2[z++] = '|'; big2[z++] = '|'; } else if (big[i] == 2) { memcpy(big2 + z, "|0002", 5); z += 5; } else big2[z++] = big[i]; } big[n] = 0; mc_op();
    gstr g; gstr_init_from(&g, big); mc_site("gstr_escape"); MC_ASSERT(gstr_escape(&g, "\x02", '|') == &g, "ret", "escape"); ckb(&g, big2, z, "long escaped text"); mc_site("gstr_unescape"); gstr_unescape(&g, '|'); ckb(&g, big, n, "long text there and back"); gstr_fini(&g); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); mc_state(mc_mix(n, mix));
}
/* unescaping every text: reference grammar */
static void unesc(long len)
{
    static const char A[] = { '|', '0', '1', '7', '8', 'x', 'a', 'F', 'n', 'g', (char)0xfe, 'e', '2' }; char s[12]; int n = mc_choose((int)len + 1 + mc_tier()); for (int i = 0; i < n; i++) s[i] = A[mc_choose(13)]; s[n] = 0;
    mstr m = { .n = 0 }; const char *p = s, *end = s + n; int vague = 0;
    while (p < end) {
        if (*p != '|') { madd(&m, p++, 1); continue; }
        p++; char c = p < end ? *p++ : 0, v; int k, x = 0;
        switch (c) {
        case 0: v = '|'; break; case 'a': v = '\a'; break; case 'b': v = '\b'; break; case 'e': case 'E': v = 27; break; case 'f': v = '\f'; break; case 'n': v = '\n'; break; case 'r': v = '\r'; break; case 't': v = '\t'; break; case 'v': v = '\v'; break;
        case '0': for (k = 0; k < 3 && p < end && *p >= '0' && *p <= '7'; k++) x = x * 8 + *p++ - '0'; v = (char)x; break;
        case 'x': for (k = 0; k < 2 && p < end && isxdigit((unsigned char)*p); k++, p++) x = x * 16 + (isdigit((unsigned char)*p) ? *p - '0' : tolower(*p) - 'a' + 10); if (!k) vague = 1; v = (char)x; break;
        default: if (isdigit((unsigned char)c)) { p--; for (k = 0; k < 3 && p < end && isdigit((unsigned char)*p); k++) x = x * 10 + *p++ - '0'; v = (char)x; } else v = c;
        }
        madd(&m, &v, 1);
    }
    gstr g; gstr_init_from(&g, s); mc_site("gstr_unescape"); mc_op(); mc_note("<%s>", s);
    gstr_unescape(&g, '|');
    if (!vague) ckg(&g, &m, "unescaped text"); else MC_ASSERT(g.len <= (size_t)n && g.str[g.len] == 0, "len", "unescaped text longer than its source");
    gstr_fini(&g); MC_ASSERT(!mc_live_blocks(), "leak", "leak"); mc_state(mc_hash(vague, m.s, m.n));
}
static void hexall(long x) { int v = mc_choose(256), up = mc_choose(3); char s[16]; mc_op(); sprintf(s, up == 0 ? "|x%02x!" : up == 1 ? "|x%02X!" : "|0%03o!", v); gstr g; gstr_init_from(&g, s); mc_site("gstr_unescape"); gstr_unescape(&g, '|'); MC_ASSERT(g.len == 2 && (unsigned char)g.str[0] == v && g.str[1] == '!', "value", "%s unescapes to byte %d", s, (unsigned char)g.str[0]); gstr_fini(&g); mc_state(v * 3 + up); }
const mc_scenario mc_scenarios[] = { { "all pairs, backslash", all2, 0, 0, 3, 0 }, { "all pairs, bar", all2, 1, 0, 3, 0 }, { "sequences, backslash", seqs, 0, 0, 3, 0 }, { "sequences, bar", seqs, 1, 0, 3, 0 }, { "sequences, percent", seqs, 2, 0, 3, 0 }, { "every set", everyset, 0, 0, 1, 0 }, { "every set, caret", everyset, 3, 0, 1, 0 }, { "lengths", longs, 0, 0, 1, 0 }, { "long texts", r_big, 15, 0, 1, 0 }, { "unescape", unesc, 5, 0, 3, 0 }, { "numeric", hexall, 0, 0, 1, 0 }, { 0 } };
#endif
