/* C34 numbers, C35 split, C36 quoted split, C37 trim/unquote/copy: every input in the bounds against reference models. */
#include "mc.h"
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include "utils/utils.h"
typedef unsigned __int128 u128;
/* lengths around every power of two up to 2^k */
static int biglen(int k) { int a = mc_choose(k - 2) + 3, d = mc_choose(3) - 1; return (1 << a) + d; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }

#ifdef P_C34
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : -1; }
/* 0 ok, else error; *end first character not used */
static int ref_u64(const char *s0, int base, uint64_t *v, int *end)
{
    const char *s = s0; *v = 0; *end = 0; if (base < 0 || base == 1 || base > 36) return -EINVAL;
    while (sp((unsigned char)*s)) s++; if (!*s) { *end = (int)(s - s0); return 0; }
    int neg = *s == '-'; if (*s == '-' || *s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; } else if (!base) base = *s == '0' ? 8 : 10;
    u128 a = 0; for (; *s; s++) { int d = dig((unsigned char)*s); *end = (int)(s - s0); if (d < 0) return -EINVAL; if (d >= base) break; a = a * base + d; if (a > ~0ull) return -ERANGE; }
    *end = (int)(s - s0); *v = neg ? -(uint64_t)a : (uint64_t)a; return 0;
}
static int ref_size(const char *s, int base, uint64_t *v)
{
    int e, r = ref_u64(s, base, v, &e); if (r) return r; s += e; if (!*s) return 0;
    uint64_t m = 1; static const char U[] = "kMGTPE"; int c = *s++ == 'K' ? 'k' : s[-1];
    if (c == 'B') { } else { const char *q = strchr(U, c); if (!q || !c) return -EINVAL; m = 1ull << 10 * (q - U + 1); if (*s == 'B') s++; else if (*s == 'b') { m /= 8; s++; } }
    if (*s && !sp((unsigned char)*s)) return -EINVAL;
    u128 a = (u128)*v * m; if (a > ~0ull) return -ERANGE; *v = (uint64_t)a; return 0;
}
static void one(const char *t, int base)
{
    char *s = strdup(t); const char *end = (const char *)1; uint64_t v = 0x5a5a, w; int e, x = ref_u64(s, base, &w, &e); mc_site("strtou64");
    int r = strtou64(s, &end, base, &v); mc_op();
    MC_ASSERT(r == x, "u64-ret", "\"%s\" base %d returns %d, expected %d", s, base, r, x);
    if (base >= 0 && base != 1 && base <= 36) MC_ASSERT(end == s + e, "u64-end", "\"%s\" base %d stops at %d, expected %d", s, base, (int)(end - s), e);
    if (!r) MC_ASSERT(v == w, "u64-val", "\"%s\" base %d is %llu, expected %llu", s, base, (unsigned long long)v, (unsigned long long)w);
    uint64_t v2 = 0; int r2 = strtou64(s, 0, base, &v2); MC_ASSERT(r2 == r && (r || v2 == v), "u64-noend", "\"%s\" differs without end pointer", s);
    mc_site("strtosize"); x = ref_size(s, base, &w); v = 0x5a5a; r = strtosize(s, base, &v); mc_op();
    MC_ASSERT((r < 0) == (x < 0) && r <= 0, "size-ret", "size \"%s\" base %d returns %d, expected %d", s, base, r, x);
    if (!r) MC_ASSERT(v == w, "size-val", "size \"%s\" base %d is %llu, expected %llu", s, base, (unsigned long long)v, (unsigned long long)w);
    if (r && x == -ERANGE) MC_ASSERT(r == -ERANGE, "size-err", "size \"%s\" base %d returns %d", s, base, r);
    mc_state(mc_hash(base, t, strlen(t))); free(s);
}
static void r_txt(long arg)
{
    static const char AL[] = "0x79 a-+zK.\xe9" "1BkbTE"; static const int B[] = { 0, 10, 16, 8, 2, 36, 35, 1, -1, 37 };
    char s[12]; int b = B[mc_choose((int)(arg >> 8))], n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4 & 15); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; s[n] = 0; one(s, b);
}
static void fmt(char *o, u128 v, int base, int up) { char t[140]; int n = 0; do { int d = (int)(v % base); t[n++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v); while (n) *o++ = t[--n]; *o = 0; }
static void r_lim(long arg)
{   /* every base, every value near a power of two and near the largest, every following character */
    char s[200], *p = s; int base = 2 + mc_choose(35), up = mc_choose(2), pre = mc_choose(4), sh = mc_choose(66), dl = mc_choose(5) - 2, tail = mc_choose(4); (void)arg;
    u128 v = sh == 65 ? ((u128)1 << 64) * base : (u128)1 << sh; v += dl; if (dl < 0 && sh == 0) v = 0;
    if (pre == 1) *p++ = ' '; if (pre == 2) *p++ = '-'; if (pre == 3) { *p++ = '0'; if (base == 16) *p++ = 'x'; }
    fmt(p, v, base, up); strcat(s, ((const char *[]){ "", "0", "!", "~z" })[tail]); one(s, base);
    if (base == 10 && pre != 3) one(s, 0); if (base == 8 && pre == 3) one(s, 0); if (base == 16 && pre == 3) one(s, 0);
}
static void r_cut(long arg)
{   /* around the cut-off digit of every base: the largest value with each digit changed */
    char s[200], t[8]; int base = 2 + mc_choose(35); (void)arg; fmt(s, ~0ull, base, 0); int n = (int)strlen(s), at = n - 1 - mc_choose(n < 3 ? n : 3), d = mc_choose(base); fmt(t, d, base, 0); s[at] = t[0]; int ex = mc_choose(2); if (ex) strcat(s, "0"); one(s, base);
}
static void r_suf(long arg)
{
    static const char AL[] = "kKMGTPEBb x\tZ"; char s[64]; int base = ((const int[]){ 10, 0, 16 })[mc_choose(3)];
    int nv = 4 + 6 * 7, w = mc_choose(nv); u128 v; if (w < 4) v = (u128[]){ 0, 1, 7, 1023 }[w]; else { int k = (w - 4) / 7, dd = (w - 4) % 7 - 3; v = ((u128)1 << (64 - 10 * (k + 1))) + dd; }
    fmt(s, v, base ? base : 10, 0); int n = mc_choose((int)arg + mc_tier()), L = (int)strlen(s); for (int i = 0; i < n; i++) s[L + i] = AL[mc_choose(13)]; s[L + n] = 0; one(s, base);
    if (base) return; char z[72]; sprintf(z, " -%s", s); one(z, 0); sprintf(z, "0%s", s); one(z, 0);
}
static void r_bits(long arg)
{   /* multiples of one eighth: bit suffixes at their own overflow limit */
    static const char U[] = "kKMGTPE"; char s[64]; int u = mc_choose(7), k = u == 0 ? 0 : u - 1; uint64_t m = (1ull << 10 * (k + 1)) / 8; int d = mc_choose(9) - 4, half = mc_choose(3); (void)arg;
    uint64_t v = ~0ull / m; if (half) v = ~0ull / m / 2 + (half == 2) * (~0ull / m / 3); v += d; sprintf(s, "%llu%c%s", (unsigned long long)v, U[u], mc_choose(2) ? "b" : mc_choose(2) ? "B " : ""); one(s, 10);
}
/* the shown value equals the count to the shown precision */
static void hum(uint64_t n)
{
    char b[64]; mc_site("humanize_size"); char *q = humanize_size(b, sizeof b, n); mc_op(); MC_ASSERT(q == b, "hum-ret", "returns another buffer");
    char *e; uint64_t ip = strtoull(b, &e, 10); int nd = 0; uint64_t f = 0; if (*e == '.') { e++; while (isdigit((unsigned char)*e)) { f = f * 10 + *e++ - '0'; nd++; } }
    static const char *U[] = { "bytes", "kB", "MB", "GB", "TB", "PB", "EB" }; int u = -1; MC_ASSERT(*e == ' ', "hum-form", "\"%s\"", b); for (int i = 0; i < 7; i++) if (!strcmp(e + 1, U[i])) u = i; MC_ASSERT(u >= 0 && nd <= 3, "hum-form", "\"%s\" for %llu", b, (unsigned long long)n);
    u128 p10 = 1; for (int i = 0; i < nd; i++) p10 *= 10; u128 unit = (u128)1 << 10 * u, shown = ((u128)ip * p10 + f) * unit, real = (u128)n * p10, df = shown > real ? shown - real : real - shown;
    MC_ASSERT(nd || df == 0, "hum-exact", "%llu shown as \"%s\"", (unsigned long long)n, b);
    MC_ASSERT(df < unit, "hum-val", "%llu shown as \"%s\"", (unsigned long long)n, b);
    MC_ASSERT(u == 0 ? n <= 1024 : ip >= 1 && (u == 6 || n <= (1ull << 10 * (u + 1))), "hum-unit", "%llu shown as \"%s\"", (unsigned long long)n, b);
    int L = (int)strlen(b); for (int z = 0; z <= L + 1; z++) { char *o = malloc(z); humanize_size(o, z, n); mc_op(); if (z) MC_ASSERT(strlen(o) < (size_t)z && !strncmp(o, b, strlen(o)) && (int)strlen(o) == (z - 1 < L ? z - 1 : L), "hum-size", "buffer of %d for \"%s\"", z, b); free(o); }
    mc_state(n);
}
static void r_hum(long arg) { (void)arg; int k = mc_choose(7), d = mc_choose(5) - 2, m = mc_choose(4); uint64_t u = 1ull << 10 * k; uint64_t v = (m == 0 ? 1 : m == 1 ? 2 : m == 2 ? 15 : k == 6 ? 16 : 1023) * u + (uint64_t)(int64_t)d; hum(v); }
static void r_frac(long arg) { (void)arg; int k = 1 + mc_choose(6), c = mc_choose(101), d = mc_choose(3) - 1; uint64_t u = 1ull << 10 * k; hum(u * (1 + 6 * mc_choose(2)) + (uint64_t)((u128)u * c / 100) + (uint64_t)(int64_t)d); }
static void r_any2(long arg)
{   /* every character, and every pair of characters, after a number */
    static const char *const N[] = { "1", "0x1f", "8", "0" }; char s[16]; int a = mc_choose(256), b = a ? mc_choose(256) : 0, k = mc_choose((int)arg); sprintf(s, "%s", N[k]); int L = (int)strlen(s); s[L] = (char)a; s[L + 1] = (char)b; s[L + 2] = 0; one(s, k == 1 ? 16 : 10); if (k == 3) one(s, 0);
}
static void r_zeros(long arg)
{   /* long texts of leading blanks and zeros change nothing */
    static char s[9000]; int n = biglen((int)arg), w = mc_choose(3), base = ((const int[]){ 10, 0, 16, 2, 36 })[mc_choose(5)]; memset(s, w == 0 ? ' ' : '0', n); strcpy(s + n, w == 1 ? "17" : w == 2 ? "17k" : "1010"); one(s, base);
}
const mc_scenario mc_scenarios[] = {
    { "every pair of characters after a number", r_any2, 4, 0, 2, 0 }, { "long texts", r_zeros, 12, 0, 1, 0 },
    { "numbers, 12 characters up to 4, 10 bases", r_txt, 5 | 12 << 4 | 10 << 8, 0, 3, 0 }, { "numbers, 6 characters up to 7, 4 bases", r_txt, 7 | 6 << 4 | 4 << 8, 0, 3, 0 }, { "numbers, 12 characters up to 5", r_txt, 6 | 12 << 4 | 6 << 8, 1, 3, 0 },
    { "values near powers of two in every base", r_lim, 0, 0, 2, 0 }, { "cut-off digits", r_cut, 0, 0, 1, 0 }, { "sizes with every suffix text", r_suf, 4, 0, 2, 0 }, { "bit and byte suffixes at their limit", r_bits, 0, 0, 1, 0 },
    { "human sizes near units", r_hum, 0, 0, 1, 0 }, { "human sizes at every hundredth", r_frac, 0, 0, 1, 0 }, { 0 } };
#endif

#ifdef P_C35
static int isd(const char *d, int c) { return c && strchr(d, c); }
/* reference: fields; the last one is left out when empty. squeezed: blanks around dropped, runs count once, nothing but delimiters gives nothing */
static int ref_split(const char *s0, const char *d, int sq, char out[][40], int max)
{
    char s[128]; int n = (int)strlen(s0), a = 0; if (sq) { while (a < n && sp((unsigned char)s0[a])) a++; while (n > a && sp((unsigned char)s0[n - 1])) n--; }
    memcpy(s, s0 + a, n - a); s[n -= a] = 0;
    int k = 0, l = 0, any = 0; for (int i = 0; i < n; i++) any |= !isd(d, s[i]); if (sq && !any) return 0;
    for (int i = 0; i <= n; i++) { if (i == n && !l) break; if (i == n || isd(d, s[i])) { if (sq && i < n && i && isd(d, s[i - 1])) continue; if (k < max) out[k][l] = 0; k++; l = 0; } else { if (k < max) out[k][l] = s[i]; l++; } }
    return k;
}
static void split1(const char *t, const char *d, int maxf)
{
    static char want[100][40]; int L = (int)strlen(t);
    for (int sq = 0; sq < 2; sq++) {
        int w = ref_split(t, d, sq, want, 100);
        char *s = strdup(t); int n = -5; mc_site("strsplit"); char **v = strsplit(&n, s, d, sq); mc_op();
        MC_ASSERT(v && n == w, "split-n", "\"%s\" at \"%s\"%s gives %d fields, expected %d", t, d, sq ? " squeezed" : "", n, w);
        for (int i = 0; i < n; i++) { MC_ASSERT(v[i] >= s && v[i] <= s + L, "split-ptr", "field %d outside the string", i); MC_ASSERT(!strcmp(v[i], want[i]), "split-val", "\"%s\" at \"%s\"%s: field %d is \"%s\", expected \"%s\"", t, d, sq ? " squeezed" : "", i, v[i], want[i]); }
        free(v); free(s);
        for (int z = 0; z <= w + 1 && z <= maxf; z++) {
            s = strdup(t); v = malloc(z * sizeof *v); mc_site("strsplit_quick"); int r = strsplit_quick(v, z, s, d, sq); mc_op();
            if (z < w) MC_ASSERT(r < 0, "quick-full", "\"%s\" at \"%s\" into %d slots returns %d", t, d, z, r);
            else { MC_ASSERT(r == w, "quick-n", "\"%s\" at \"%s\"%s into %d slots gives %d fields, expected %d", t, d, sq ? " squeezed" : "", z, r, w); for (int i = 0; i < r; i++) MC_ASSERT(!strcmp(v[i], want[i]), "quick-val", "\"%s\" at \"%s\": field %d is \"%s\", expected \"%s\"", t, d, i, v[i], want[i]); }
            free(v); free(s);
        }
        MC_ASSERT(!mc_live_blocks(), "leak", "%zu blocks left", mc_live_blocks());
    }
    mc_state(mc_hash(mc_hash(1, t, L), d, strlen(d)));
}
static const char *DL[] = { ",", ",;", " ", " ,", "\t ", "\xff,", "", "a" };
static void r_split(long arg)
{
    static const char AL[] = "a,; b\t\xff\n"; char s[12]; const char *d = DL[mc_choose((int)(arg >> 8))]; int n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4 & 15); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; s[n] = 0; split1(s, d, 10);
}
static void r_many(long arg)
{   /* growth of the array: many fields, a change of shape at every place */
    char s[128]; int k = mc_choose((int)arg), shape = mc_choose(4), at = shape ? mc_choose(k + 1) : 0, L = 0;
    for (int i = 0; i < k; i++) { if (i) s[L++] = ','; if (shape == 1 && i == at) s[L++] = ','; if (!(shape == 2 && i == at)) s[L++] = 'a'; if (shape == 3 && i == at) s[L++] = 'b'; } s[L] = 0; split1(s, ",", 100);
}
static void r_anyd(long arg) { char d[2] = { (char)(1 + mc_choose(255)), 0 }, s[8]; int o = 1 + (((unsigned char)d[0] + 63) & 255); if (o > 255) o = 3; (void)arg; sprintf(s, "x%cy%c%cz", d[0], o == 0 ? 'q' : o, d[0]); split1(s, d, 10); }
static char big[400000], bigw[400000];
static void r_big(long k)
{   /* thousands of fields, and fields of thousands of characters */
    int n = biglen((int)k), fl = mc_choose(2) ? 1 : 3, sq = mc_choose(2), one_ = mc_choose(2), nf = one_ ? 3 : n, z = 0; mc_op();
    for (int i = 0; i < nf; i++) { if (i) { big[z++] = ','; if (sq) big[z++] = ';'; } int m = one_ && i == 1 ? n : fl; for (int j = 0; j < m; j++) big[z++] = (char)('a' + (i + j) % 25); } big[z] = 0;
    for (int quick = 0; quick < 3; quick++) {
        memcpy(bigw, big, z + 1); char *s = strdup(big), **v; int r; if (quick) { v = malloc((nf - (quick == 2)) * sizeof *v); r = strsplit_quick(v, nf - (quick == 2), s, ",;", sq); if (quick == 2) { MC_ASSERT(r < 0, "quick-full", "%d fields into %d slots gives %d", nf, nf - 1, r); free(v); free(s); continue; } } else { r = -5; v = strsplit(&r, s, ",;", sq); MC_ASSERT(v, "split-n", "no result for %d fields", nf); }
        MC_ASSERT(r == nf, "split-n", "%d fields of %d characters give %d", nf, one_ ? n : fl, r);
        for (int i = 0, at = 0; i < nf; i++) { int m = one_ && i == 1 ? n : fl; MC_ASSERT(v[i] == s + at && (int)strlen(v[i]) == m && !memcmp(v[i], bigw + at, m), "split-val", "field %d of %d is wrong", i, nf); at += m + 1 + sq; }
        free(v); free(s);
    }
    MC_ASSERT(!mc_live_blocks(), "leak", "%zu blocks left", mc_live_blocks()); mc_state(mc_mix(n * 8 + fl, sq * 2 + one_));
}
const mc_scenario mc_scenarios[] = {
    { "many and long fields", r_big, 15, 0, 1, 0 }, { "texts, 8 characters, up to 4, 8 delimiter sets", r_split, 5 | 8 << 4 | 8 << 8, 0, 3, 0 }, { "texts, 4 characters, up to 7", r_split, 8 | 4 << 4 | 4 << 8, 0, 3, 0 }, { "texts, 6 characters, up to 7", r_split, 8 | 6 << 4 | 6 << 8, 1, 4, 0 },
    { "many fields", r_many, 40, 0, 1, 0 }, { "every delimiter", r_anyd, 0, 0, 1, 0 }, { 0 } };
#endif

#ifdef P_C36
static char want[40][60];
/* a word is a run of unquoted characters and quoted parts; blanks outside quotes end it */
static int ref_args(const char *s)
{
    int k = 0, l = 0, in = 0, q = 0; for (; *s; s++) { if (q) { if (*s == q) q = 0; else want[k][l++] = *s; continue; } if (sp((unsigned char)*s)) { if (in) { want[k++][l] = 0; l = in = 0; } continue; } in = 1; if (*s == '"' || *s == '\'') q = *s; else want[k][l++] = *s; }
    if (q) return -1; if (in) want[k++][l] = 0; return k;
}
static void args1(const char *t)
{
    int w = ref_args(t), L = (int)strlen(t); for (int z = 0; z <= (w < 0 ? 3 : w + 1); z++) {
        char *s = strdup(t), **v = malloc(z * sizeof *v); mc_site("strsplitargs"); int r = strsplitargs(v, z, s); mc_op();
        if (w < 0) MC_ASSERT(r < 0 && (r == -EINVAL || r == -ENOSPC), "args-quote", "unbalanced <%s> returns %d", t, r); else if (z < w) MC_ASSERT(r == -ENOSPC, "args-full", "<%s> into %d slots returns %d", t, z, r);
        else { MC_ASSERT(r == w, "args-n", "<%s> gives %d words, expected %d", t, r, w); for (int i = 0; i < r; i++) { MC_ASSERT(v[i] >= s && v[i] <= s + L, "args-ptr", "word outside the text"); MC_ASSERT(!strcmp(v[i], want[i]), "args-val", "<%s>: word %d is <%s>, expected <%s>", t, i, v[i], want[i]); } }
        free(v); free(s);
    }
    if (w < 0) { char *s = strdup(t), *v[40]; int r = strsplitargs(v, 40, s); MC_ASSERT(r == -EINVAL, "args-quote", "unbalanced <%s> returns %d", t, r); free(s); }
    mc_state(mc_hash(3, t, L));
}
/* separators end a field outside quotes; inside, a quote of the same kind after a backslash stands for itself; an empty last field is left out */
static int ref_csv(const char *s0, const char *sep)
{
    int k = 0, l = 0, q = 0; for (const char *s = s0; *s; s++) {
        if (*s == '\'' || *s == '"') { if (q == *s) { if (s > s0 && s[-1] == '\\') want[k][l - 1] = *s; else q = 0; } else if (q) want[k][l++] = *s; else q = *s; continue; }
        if (!q && strchr(sep, *s)) { want[k++][l] = 0; l = 0; continue; } want[k][l++] = *s; }
    if (q) return -1; if (l) want[k++][l] = 0; return k;
}
static void csv1(const char *t, const char *sep)
{
    int w = ref_csv(t, sep ? sep : ","), L = (int)strlen(t); for (int z = 0; z <= (w < 0 ? 3 : w + 1); z++) {
        char *s = strdup(t), **v = malloc(z * sizeof *v); mc_site("strsplit_csv"); int r = strsplit_csv(v, z, s, sep); mc_op();
        if (w < 0) MC_ASSERT(r == -EINVAL || r == -ENOSPC, "csv-quote", "unbalanced <%s> returns %d", t, r); else if (z < w) MC_ASSERT(r == -ENOSPC, "csv-full", "<%s> into %d slots returns %d", t, z, r);
        else { MC_ASSERT(r == w, "csv-n", "<%s> gives %d fields, expected %d", t, r, w); for (int i = 0; i < r; i++) { MC_ASSERT(v[i] >= s && v[i] <= s + L, "csv-ptr", "field outside the text"); MC_ASSERT(!strcmp(v[i], want[i]), "csv-val", "<%s>: field %d is <%s>, expected <%s>", t, i, v[i], want[i]); } }
        free(v); free(s);
    }
    if (w < 0) { char *s = strdup(t), *v[40]; int r = strsplit_csv(v, 40, s, sep); MC_ASSERT(r == -EINVAL, "csv-quote", "unbalanced <%s> returns %d", t, r); free(s); }
    mc_state(mc_hash(mc_hash(4, t, L), sep ? sep : "", sep ? strlen(sep) : 0));
}
static void r_args(long arg) { static const char AL[] = "a '\"\tb\xa0\n\\"; char s[12]; int n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; s[n] = 0; args1(s); }
static void r_csv(long arg) { static const char AL[] = "a,\"'\\; \xff"; static const char *SP[] = { 0, ",;", " ", "\xff," }; const char *sep = SP[mc_choose((int)(arg >> 8))]; char s[12]; int n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4 & 15); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; s[n] = 0; csv1(s, sep); }
static void r_anysep(long arg) { int c = 1 + mc_choose(255); if (c == '"' || c == '\'' || c == '\\') mc_prune(); char d[2] = { (char)c, 0 }, s[16]; sprintf(s, "x%cy\"%c\"%cz", c, c, c ^ 64 ? c ^ 64 : 1); (void)arg; if (strchr("\"'\\", s[6])) s[6] = 'm'; csv1(s, d); }
static void r_blank(long arg) { static const char W[] = " \t\n\v\f\r"; char s[16]; int n = 0; (void)arg; s[n++] = 'a'; for (int m = mc_choose(3); m >= 0; m--) s[n++] = W[mc_choose(6)]; if (mc_choose(2)) s[n++] = '"'; s[n++] = W[mc_choose(6)]; if (mc_choose(2)) s[n++] = '"'; s[n++] = 'b'; if (mc_choose(2)) s[n++] = W[mc_choose(6)]; s[n] = 0; args1(s); }
static char big[200000];
static void r_big(long k)
{   /* many words and long words, plain and quoted, as command lines and as records */
    int n = biglen((int)k), csv = mc_choose(2), one_ = mc_choose(2), q = mc_choose(2), nf = one_ ? 3 : n, z = 0; mc_op();
    for (int i = 0; i < nf; i++) { if (i) big[z++] = csv ? ',' : ' '; if (q) big[z++] = '"'; int m = one_ && i == 1 ? n : 2; for (int j = 0; j < m; j++) big[z++] = (char)('a' + (i + j) % 25); if (q) big[z++] = '"'; } big[z] = 0;
    for (int less = 0; less < 2; less++) {
        char *s = strdup(big), **v = malloc((nf - less) * sizeof *v); int r = csv ? strsplit_csv(v, nf - less, s, 0) : strsplitargs(v, nf - less, s); MC_ASSERT(r == (less ? -ENOSPC : nf), "big-n", "%d words of %d characters into %d slots give %d", nf, one_ ? n : 2, nf - less, r);
        if (!less) for (int i = 0; i < nf; i++) { int m = one_ && i == 1 ? n : 2; MC_ASSERT((int)strlen(v[i]) == m, "big-val", "word %d of %d has %zu characters, expected %d", i, nf, strlen(v[i]), m); for (int j = 0; j < m; j++) MC_ASSERT(v[i][j] == 'a' + (i + j) % 25, "big-val", "word %d of %d is wrong", i, nf); }
        free(v); free(s);
    }
    MC_ASSERT(!mc_live_blocks(), "leak", "%zu blocks left", mc_live_blocks()); mc_state(mc_mix(n, csv * 4 + one_ * 2 + q));
}
const mc_scenario mc_scenarios[] = {
    { "every blank", r_blank, 0, 0, 2, 0 }, { "many and long words", r_big, 14, 0, 1, 0 }, { "command lines, 9 characters, up to 5", r_args, 6 | 9 << 4, 0, 3, 0 }, { "command lines, 4 characters, up to 8", r_args, 9 | 4 << 4, 0, 3, 0 }, { "command lines, 6 characters, up to 8", r_args, 9 | 6 << 4, 1, 4, 0 },
    { "CSV, 8 characters, up to 5, 4 separator sets", r_csv, 6 | 8 << 4 | 4 << 8, 0, 3, 0 }, { "CSV, 5 characters, up to 7", r_csv, 8 | 5 << 4 | 1 << 8, 0, 3, 0 }, { "CSV, 6 characters, up to 8", r_csv, 9 | 6 << 4 | 2 << 8, 1, 4, 0 },
    { "every separator", r_anysep, 0, 0, 1, 0 }, { 0 } };
#endif

#ifdef P_C37
static void t1(const char *t)
{
    int n = (int)strlen(t), a = 0, b = n; while (a < b && sp((unsigned char)t[a])) a++; while (b > a && sp((unsigned char)t[b - 1])) b--;
    char *s = strdup(t); mc_site("strtrim"); char *r = strtrim(s); mc_op(); MC_ASSERT(r >= s && r <= s + n, "trim-ptr", "outside the string"); MC_ASSERT((int)strlen(r) == b - a && !memcmp(r, t + a, b - a), "trim", "<%s> trims to <%s>", t, r); free(s);
    s = strdup(t); char *p = 0; mc_site("strunquote"); int q = t[0] == '"' || t[0] == '\'' ? t[0] : 0, ok = q && n >= 2 && t[n - 1] == q, z = strunquote(s, &p); mc_op();
    if (!q) MC_ASSERT(z == 0 && !strcmp(s, t), "unq-none", "<%s> without quote returns %d", t, z); else if (!ok) MC_ASSERT(z < 0, "unq-bad", "unbalanced <%s> returns %d", t, z);
    else { MC_ASSERT(z == q, "unq-ret", "<%s> returns %d", t, z); MC_ASSERT(p >= s && p <= s + n && (int)strlen(p) == n - 2 && !memcmp(p, t + 1, n - 2), "unq", "<%s> unquotes to <%s>", t, p); }
    free(s); s = strdup(t); MC_ASSERT(strunquote(s, 0) == z, "unq-nil", "differs without result pointer"); free(s);
    s = strdup(t); for (int d = 1; d <= n + 2; d++) { char *o = malloc(d); memset(o, 0x55, d); mc_site("strcopy"); ssize_t c = strcopy(o, d, s); mc_op(); if (d > n) MC_ASSERT(c == n && !strcmp(o, t), "copy", "<%s> into %d returns %zd", t, d, c); else MC_ASSERT(c < 0 && (int)strlen(o) == d - 1 && !memcmp(o, t, d - 1), "copy-trunc", "<%s> into %d returns %zd", t, d, c); for (int i = n + 1; i < d; i++) MC_ASSERT(o[i] == 0x55, "copy-over", "writes past the end"); free(o); }
    free(s); MC_ASSERT(!mc_live_blocks(), "leak", "%zu blocks left", mc_live_blocks()); mc_state(mc_hash(n, t, n));
}
static void r_t(long arg) { static const char AL[] = "a '\"\t\n\xa0" "b\\"; char s[12]; int n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; s[n] = 0; t1(s); }
static void r_b(long arg) { char s[6]; int n = 1 + mc_choose(5); memset(s, " x\""[mc_choose(3)], 5); s[n] = 0; s[mc_choose(n)] = (char)(1 + mc_choose(255)); (void)arg; t1(s); }
static void r_l(long arg) { char s[300]; int n = mc_choose((int)arg), a = mc_choose(4), b = mc_choose(4); for (int i = 0; i < n; i++) s[i] = i < a || i >= n - b ? ' ' : (char)('a' + i % 26); s[n] = 0; t1(s); MC_ASSERT(strtrim(0) == 0 && strunquote(0, 0) == 0, "null", "null string"); }
static void r_big(long k)
{
    static char b[20000]; int n = biglen((int)k), f = mc_choose(5); int a = f == 0 ? 0 : f == 1 ? n / 2 : f == 2 ? n - 1 : f == 3 ? 3 : 0, e = f == 3 ? n / 2 : f == 4 ? n / 3 : 0;
    for (int i = 0; i < n; i++) b[i] = i < a || i >= n - e ? " \t\n"[i % 3] : (char)('a' + i % 26); b[n] = 0; if (n <= 600) t1(b); else { char *s = strdup(b); char *r = strtrim(s); MC_ASSERT((int)strlen(r) == n - a - e && !memcmp(r, b + a, n - a - e), "trim", "a text of %d with %d and %d blanks trims to %zu", n, a, e, strlen(r)); free(s); }
    int c = mc_choose(n > 600 ? 4 : 3) - 1; char *o = malloc(n + 2), *s = strdup(b); if (c == 2) c = -n / 2; ssize_t r = strcopy(o, n + c, s); MC_ASSERT(c == 1 ? r == n && !strcmp(o, b) : r < 0 && (int)strlen(o) == n + c - 1 && !memcmp(o, b, n + c - 1), "copy", "a text of %d into %d returns %zd", n, n + c, r); free(o);
    s[0] = s[n - 1] = '\''; char *p = 0; MC_ASSERT(strunquote(s, &p) == '\'' && p == s + 1 && (int)strlen(p) == n - 2 && !memcmp(p, b + 1, n - 2), "unq", "a quoted text of %d", n); free(s); mc_op(); mc_state(mc_mix(n, f * 8 + c + 1)); MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
const mc_scenario mc_scenarios[] = {
    { "texts around powers of two", r_big, 14, 0, 1, 0 }, { "texts, 9 characters, up to 5", r_t, 6 | 9 << 4, 0, 3, 0 }, { "texts, 4 characters, up to 8", r_t, 9 | 4 << 4, 0, 3, 0 }, { "texts, 6 characters, up to 8", r_t, 9 | 6 << 4, 1, 4, 0 },
    { "every character at every place", r_b, 0, 0, 2, 0 }, { "long texts", r_l, 80, 0, 1, 0 }, { 0 } };
#endif
