/* C61: stand-ins for C library functions (strlcpy, strcasecmp, strncasecmp, ftw) and fletcher32; C62: the growable byte buffer. */
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#ifdef P_C62
#include "fast/buf.h"
static void ck(fast_buf *b, const unsigned char *m, size_t n, const char *what)
{
    MC_ASSERT(fast_buf_len(b) == n, "len", "after %s the length is %zu, not %zu", what, fast_buf_len(b), n);
    MC_ASSERT(fast_buf_cap(b) >= n, "cap", "after %s the capacity is %zu, below the length %zu", what, fast_buf_cap(b), n);
    unsigned char *p = fast_buf_ptr(b);
    MC_ASSERT(p && mc_block_size(p) >= fast_buf_cap(b), "block", "after %s the block has %zu bytes for a capacity of %zu", what, mc_block_size(p), fast_buf_cap(b));
    for (size_t i = 0; i < n; i++) MC_ASSERT(p[i] == m[i], "data", "after %s byte %zu of %zu is %d, not %d", what, i, n, p[i], m[i]);
    for (size_t i = n; i < fast_buf_cap(b); i++) p[i] = 0x77;            /* what lies behind is free to use */
}
static void r_buf(long depth)
{
    static const size_t SZ[] = { 0, 1, 2, 3, 8 }, NB[] = { 0, 1, 2, 3, 7, 130 }; static unsigned char m[8192], src[300];
    fast_buf b; size_t n = 0; unsigned seq = 1; uint64_t h;
    memset(&b, 0x5a, sizeof b);
    size_t sz = SZ[mc_choose(5)]; mc_site("fast_buf_init");
    MC_ASSERT(fast_buf_init(&b, sz) == &b, "ret", "init returns another buffer"); mc_op();
    MC_ASSERT(fast_buf_cap(&b) >= sz && fast_buf_cap(&b) > 0, "init", "a buffer of %zu has capacity %zu", sz, fast_buf_cap(&b));
    ck(&b, m, 0, "init");
    h = fast_buf_cap(&b);
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(8); mc_op();
        if (op == 0) { mc_site("append_byte"); m[n++] = (unsigned char)seq; MC_ASSERT(fast_buf_append_byte(&b, (unsigned char)seq++) == &b, "ret", "another buffer"); ck(&b, m, n, "append_byte"); }
        else if (op == 1) { size_t k = NB[mc_choose(6)]; for (size_t i = 0; i < k; i++) m[n + i] = src[i] = (unsigned char)seq++; unsigned char *e = malloc(k ? k : 1); memcpy(e, src, k); mc_site("append_buf"); MC_ASSERT(fast_buf_append_buf(&b, e, k) == &b, "ret", "another buffer"); n += k; free(e); ck(&b, m, n, "append_buf"); }
        else if (op == 2) { size_t k = NB[mc_choose(6)]; mc_site("grow"); fast_buf_grow(&b, k); MC_ASSERT(fast_buf_cap(&b) >= n + k, "grow", "grown by %zu from %zu the capacity is %zu", k, n, fast_buf_cap(&b)); ck(&b, m, n, "grow"); }
        else if (op == 3) { size_t k = ((const size_t[]){ 0, 1, n, n + 1, 2 * n + 3, fast_buf_cap(&b), fast_buf_cap(&b) + 1 })[mc_choose(7)]; mc_site("reserve"); size_t c = fast_buf_cap(&b); fast_buf_reserve(&b, k); MC_ASSERT(fast_buf_cap(&b) >= k && fast_buf_cap(&b) >= c, "reserve", "reserving %zu the capacity goes from %zu to %zu", k, c, fast_buf_cap(&b)); ck(&b, m, n, "reserve"); }
        else if (op == 4) { size_t k = NB[mc_choose(6)]; fast_buf_grow(&b, k); for (size_t i = 0; i < k; i++) fast_buf_ptr(&b)[n + i] = m[n + i] = (unsigned char)seq++; mc_site("advance"); MC_ASSERT(fast_buf_advance(&b, k) == &b, "ret", "another buffer"); n += k; ck(&b, m, n, "advance"); }
        else if (op == 5) { size_t c = fast_buf_cap(&b); mc_site("reset"); MC_ASSERT(fast_buf_reset(&b) == &b, "ret", "another buffer"); n = 0; MC_ASSERT(fast_buf_cap(&b) == c, "reset", "reset changes the capacity"); ck(&b, m, n, "reset"); }
        else if (op == 6) { mc_site("fini"); fast_buf_fini(&b); MC_ASSERT(mc_live_blocks() == 0, "leak", "fini leaves memory behind"); MC_ASSERT(!fast_buf_ptr(&b) && !fast_buf_len(&b) && !fast_buf_cap(&b), "fini", "fini leaves contents"); fast_buf_fini(&b); fast_buf_init(&b, SZ[mc_choose(5)]); n = 0; ck(&b, m, n, "init"); }
        else break;
        mc_state(h = mc_mix(mc_mix(h, op), mc_mix(n, fast_buf_cap(&b))));
    }
    mc_site("fini"); fast_buf_fini(&b); MC_ASSERT(mc_live_blocks() == 0, "leak", "fini leaves memory behind");
}
/* long contents, and requests just beyond the capacity */
static void r_bigbuf(long k)
{
    static unsigned char m[1 << 23], src[1 << 23]; size_t live = mc_live_blocks();
    int a = mc_choose((int)k - 2) + 3, d = mc_choose(3) - 1, o = mc_choose(5); size_t L = (size_t)((1l << a) + d), n = 0; fast_buf b; fast_buf_init(&b, (size_t[]){ 1, 100, 1 << 12 }[mc_choose(3)]); mc_op(); mc_note("%zu bytes, case %d", L, o); mc_site("big buffer, case %d", o);
    for (size_t i = 0; i < L; i++) src[i] = (unsigned char)(i * 31 + (i >> 8) + 5);
    if (o == 0) { fast_buf_append_buf(&b, src, L); memcpy(m, src, L); n = L; }
    else if (o == 1) { for (size_t i = 0; i < L; i++) fast_buf_append_byte(&b, src[i]); memcpy(m, src, L); n = L; }
    else if (o == 2) { for (size_t p = 0, s = 1; p < L; p += s, s = s * 3 / 2 + 1) { if (s > L - p) s = L - p; fast_buf_append_buf(&b, src + p, s); } memcpy(m, src, L); n = L; fast_buf_append_buf(&b, src, L); memcpy(m + n, src, L); n += L; }
    else if (o == 3) { fast_buf_append_buf(&b, src, 77); memcpy(m, src, 77); n = 77; size_t w = fast_buf_cap(&b) + L; fast_buf_reserve(&b, w); MC_ASSERT(fast_buf_cap(&b) >= w, "reserve", "capacity %zu after asking for %zu", fast_buf_cap(&b), w); }
    else { fast_buf_append_buf(&b, src, 77); memcpy(m, src, 77); n = 77; fast_buf_grow(&b, L); MC_ASSERT(fast_buf_cap(&b) >= n + L, "grow", "capacity %zu after growing by %zu", fast_buf_cap(&b), L); memcpy(fast_buf_ptr(&b) + n, src, L); fast_buf_advance(&b, L); memcpy(m + n, src, L); n += L; }
    ck(&b, m, n, "a long history"); fast_buf_reset(&b); fast_buf_append_byte(&b, 9); unsigned char nine = 9; ck(&b, &nine, 1, "reset"); mc_state(mc_mix(L, o)); fast_buf_fini(&b); MC_ASSERT(mc_live_blocks() == live, "leak", "fini leaves memory behind");
}
const mc_scenario mc_scenarios[] = { { "sizes around powers of two", r_bigbuf, 21, 0, 2, 0 }, { "sequences up to 4", r_buf, 4, -1, 2, 0 }, { "sequences up to 5", r_buf, 5, 1, 2, 0 }, { 0 } };
#else
#include "fts.h"
#define strlcpy pl_strlcpy
#define strcasecmp pl_strcasecmp
#define strncasecmp pl_strncasecmp
#define ftw pl_ftw
#undef TEST
#include "strlcpy.c"
#include "strcasecmp.c"
#include "fletcher-cksum.c"
#include "ftw.c"
#undef ftw

static int sgn(int x) { return (x > 0) - (x < 0); }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ref_cmp(const unsigned char *a, const unsigned char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) { int x = low(a[i]), y = low(b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
static void cmp1(const char *a, const char *b)
{
    size_t la = strlen(a), lb = strlen(b); char *x = malloc(la + 1), *y = malloc(lb + 1); strcpy(x, a); strcpy(y, b);
    mc_site("strcasecmp"); int r = pl_strcasecmp(x, y), w = ref_cmp((unsigned char *)a, (unsigned char *)b, SIZE_MAX); mc_op();
    MC_ASSERT(sgn(r) == w, "case", "strcasecmp(\"%s\", \"%s\") is %d", a, b, r);
    for (size_t n = 0; n <= 5; n++) {
        mc_site("strncasecmp"); r = pl_strncasecmp(x, y, n); w = ref_cmp((unsigned char *)a, (unsigned char *)b, n); mc_op();
        MC_ASSERT(sgn(r) == w, "ncase", "strncasecmp(\"%s\", \"%s\", %zu) is %d", a, b, n, r);
    }
    if (la == lb && la && !memchr(a, 0, la)) {           /* not terminated: no more than n bytes are looked at */
        char *u = malloc(la), *v = malloc(la); memcpy(u, a, la); memcpy(v, b, la); mc_site("strncasecmp of unterminated text"); r = pl_strncasecmp(u, v, la); mc_op();
        MC_ASSERT(sgn(r) == ref_cmp((unsigned char *)a, (unsigned char *)b, la), "ncase", "strncasecmp of %zu bytes without end is %d", la, r); free(u); free(v);
    }
    mc_state(mc_hash(mc_hash(0, a, la + 1), b, lb)); free(x); free(y);
}
static void r_case1(long a) { (void)a; char x[2] = { (char)mc_choose(256), 0 }; for (int i = 0; i < 256; i++) { char y[2] = { (char)i, 0 }; cmp1(x, y); char p[3] = { 'q', x[0], 0 }, q[3] = { 'Q', y[0], 0 }; cmp1(p, q); } }
static void r_case(long n)
{
    static const char AL[] = "aAzZ@[`{\xc1\xe1"; char x[8], y[8]; int la = mc_choose((int)n + 1), lb = mc_choose((int)n + 1);
    for (int i = 0; i < la; i++) x[i] = AL[mc_choose(10)]; x[la] = 0; for (int i = 0; i < lb; i++) y[i] = AL[mc_choose(10)]; y[lb] = 0; cmp1(x, y);
}
static void r_lcpy(long n)
{
    char s[24]; int l = mc_choose((int)n), k = mc_choose((int)n + 3); for (int i = 0; i < l; i++) s[i] = (char)(1 + (i * 89 + l) % 255); s[l] = 0;
    char *src = malloc(l + 1), *d = malloc(k ? k : 1); memcpy(src, s, l + 1); memset(d, 0x5a, k ? k : 1); mc_site("strlcpy"); size_t r = pl_strlcpy(d, src, k); mc_op();
    MC_ASSERT(r == (size_t)l, "lcpy-ret", "strlcpy of %d bytes into %d returns %zu", l, k, r); int c = k == 0 ? 0 : l < k ? l : k - 1;
    MC_ASSERT(!memcmp(d, s, c) && (k == 0 || d[c] == 0), "lcpy", "strlcpy of %d bytes into %d copies wrongly", l, k); for (int i = k ? c + 1 : 0; i < (k ? k : 1); i++) MC_ASSERT(d[i] == 0x5a, "lcpy-more", "strlcpy of %d bytes into %d writes behind the end", l, k);
    MC_ASSERT(!memcmp(src, s, l + 1), "lcpy-src", "the source is changed"); mc_state(mc_mix(l, k)); free(src); free(d);
}
/* two sums modulo 65535, each starting from 0xffff */
static void r_fletch(long a)
{
    static const int L[] = { 0, 1, 2, 3, 5, 359, 360, 361, 719, 720, 721, 1080, 1081, 2000, 5000 }; int n = L[mc_choose(15)], k = mc_choose(6), at = n ? mc_choose(4) : 0; (void)a;
    uint16_t *d = malloc(n * 2 + 1); for (int i = 0; i < n; i++) d[i] = k == 0 ? 0 : k == 1 ? 0xffff : k == 2 ? 0xfffe : k == 3 ? (uint16_t)(i * 40503u + 11) : k == 4 ? 1 : (uint16_t)(i & 1 ? 0xffff : 0x8000);
    if (n) d[at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : (n > 360 ? 360 : n - 1)] ^= 0x1234;
    uint64_t s1 = 0xffff, s2 = 0xffff; for (int i = 0; i < n; i++) { s1 += d[i]; s2 += s1; }
    mc_site("fletcher32"); uint32_t r = fletcher32(d, n); mc_op(); uint32_t lo = r & 0xffff, hi = r >> 16;
    MC_ASSERT(lo % 65535 == s1 % 65535 && hi % 65535 == s2 % 65535, "fletcher", "fletcher32 of %d words (kind %d) is %08x, not %04x%04x modulo 65535", n, k, r, (unsigned)(s2 % 65535), (unsigned)(s1 % 65535)); mc_state(r); free(d);
}
/* every value of one word next to the largest words: the carries of both sums */
static void r_fletch1(long a)
{
    static const int L[] = { 1, 2, 3, 4, 30, 360, 361 }; int n = L[mc_choose(7)], at = mc_choose(3), hi0 = mc_choose(16); (void)a;
    uint16_t *d = malloc(n * 2); memset(d, 0xff, n * 2); int p = at == 0 ? 0 : at == 1 ? n - 1 : n / 2; mc_site("fletcher32"); mc_op();
    uint64_t b1 = 0xffff, b2 = 0xffff; for (int i = 0; i < n; i++) { b1 += i == p ? 0 : d[i]; b2 += b1; }
    for (int v = hi0 * 4096; v < hi0 * 4096 + 4096; v++) {
        d[p] = v; uint64_t s1 = b1 + v, s2 = b2 + (uint64_t)v * (n - p); uint32_t r = fletcher32(d, n);
        MC_ASSERT((r & 0xffff) % 65535 == s1 % 65535 && (r >> 16) % 65535 == s2 % 65535, "fletcher", "fletcher32 of %d words 0xffff but for word %d, %#x, is %08x, not %04x%04x modulo 65535", n, p, v, r, (unsigned)(s2 % 65535), (unsigned)(s1 % 65535));
    }
    free(d);
}
/* --- ftw: every object once, a directory before what is in it, with its kind; a nonzero result ends the walk --- */
static char Seen[64][80]; static int Kind[64], Ns, Ret, Stop, Bad; static struct stat St[64];
static int visit(const char *p, const struct stat *s, int f)
{
    mc_op(); if (Ns == 64) return 99; snprintf(Seen[Ns], 80, "%s", p); Kind[Ns] = f; if (s) St[Ns] = *s; else Bad = 1; Ns++;
    return Ns == Stop ? Ret : 0;
}
static char Want[64][80]; static int Wk[64], Nw;
static void expect(const char *p, int top)
{
    struct stat s; if (Nw == 64) return; snprintf(Want[Nw], 80, "%s", p); int l = lstat(p, &s); if (top && !l && S_ISLNK(s.st_mode)) { struct stat t; if (!stat(p, &t)) s = t; }
    if (l) { return; }
    Wk[Nw++] = S_ISDIR(s.st_mode) ? FTW_D : S_ISLNK(s.st_mode) ? FTW_SL : FTW_F;
    if (S_ISDIR(s.st_mode)) { DIR *d = opendir(p); struct dirent *e; if (!d) return; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { char q[80]; snprintf(q, sizeof q, "%s%s%s", p, p[strlen(p) - 1] == '/' ? "" : "/", e->d_name); expect(q, 0); } closedir(d); }
}
static void wipe(int dfd) { DIR *d = fdopendir(dfd); struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; if (unlinkat(dirfd(d), e->d_name, 0)) { int f = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (f >= 0) wipe(f); unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR); } } closedir(d); }
static void fresh(void) { if (chdir(mc_scratch())) abort(); int f = open(".", O_RDONLY); wipe(f); }
/* object i of the world lies under one of the directories before it (or the top) and is a directory, a file, or a link to something */
static void r_ftw(long nobj)
{
    char dir[8][40] = { "t" }; int nd = 1; fresh(); if (mkdir("t", 0755)) abort(); uint64_t h = 0;
    for (int i = 0; i < nobj; i++) {
        int c = mc_choose(6), w = mc_choose(nd); char p[80]; h = mc_mix(h, c * 8 + w); snprintf(p, sizeof p, "%s/%c", dir[w], 'a' + i); if (c == 0) continue;
        if (c == 1) { if (mkdir(p, 0755)) abort(); strcpy(dir[nd++], p); } else if (c == 2) { int f = open(p, O_CREAT | O_WRONLY, 0644); if (f < 0) abort(); if (write(f, "xyz", i)) {} close(f); }
        else if (symlink(c == 3 ? "nothing" : c == 4 ? "." : "../x", p)) abort();
    }
    if (symlink("t", "l")) abort();
    int how = mc_choose(4); const char *top = how == 0 ? "t" : how == 1 ? "./t" : how == 2 ? "l" : "none"; Nw = 0; expect(top, 1); Stop = mc_choose(Nw + 2); Ret = Stop && mc_choose(2) ? -3 : 42; Ns = Bad = 0; char before[400], after[400]; if (!getcwd(before, sizeof before)) abort();
    int fd0 = dup(0); close(fd0); errno = 0; mc_site("ftw of %s", top); int r = pl_ftw(top, visit, 10); int e = errno; int fd1 = dup(0); close(fd1); MC_ASSERT(fd0 == fd1, "ftw-fd", "ftw leaves a descriptor open"); if (!getcwd(after, sizeof after)) abort(); MC_ASSERT(!strcmp(before, after), "ftw-dir", "ftw leaves another working directory");
    MC_ASSERT(!Bad, "ftw-stat", "no stat structure");
    if (how == 3) { if (Ns) { MC_ASSERT(Ns == 1 && Kind[0] == FTW_NS, "ftw-none", "a missing object is visited as %d", Kind[0]); } else MC_ASSERT(r == -1 && e, "ftw-none", "ftw of a missing object returns %d", r); return; }
    if (Stop && Stop <= Nw) MC_ASSERT(r == Ret && Ns == Stop, "ftw-stop", "the function's result at object %d gives %d after %d", Stop, r, Ns);
    else { MC_ASSERT(r == 0, "ftw-ret", "ftw returns %d", r); MC_ASSERT(Ns == Nw, "ftw-count", "%d of %d objects are visited", Ns, Nw); }
    for (int i = 0; i < Ns; i++) {
        int k; for (k = 0; k < Nw; k++) if (!strcmp(Seen[i], Want[k])) break; MC_ASSERT(k < Nw, "ftw-what", "%s is visited", Seen[i]); MC_ASSERT(Kind[i] == Wk[k], "ftw-kind", "%s is visited as %d, not %d", Seen[i], Kind[i], Wk[k]);
        for (int j = 0; j < i; j++) MC_ASSERT(strcmp(Seen[i], Seen[j]), "ftw-twice", "%s is visited twice", Seen[i]);
        char *sl = strrchr(Seen[i], '/'); if (i && sl) { int j; for (j = 0; j < i; j++) if (strlen(Seen[j]) == (size_t)(sl - Seen[i]) && !strncmp(Seen[j], Seen[i], sl - Seen[i])) break; MC_ASSERT(j < i, "ftw-order", "%s is visited before its directory", Seen[i]); }
        struct stat s; if (!(i == 0 ? stat : lstat)(Seen[i], &s)) MC_ASSERT(s.st_ino == St[i].st_ino && s.st_mode == St[i].st_mode && (S_ISDIR(s.st_mode) || s.st_size == St[i].st_size), "ftw-stat", "%s comes with the stat data of something else", Seen[i]);
    }
    mc_state(mc_mix(h, how * 64 + Stop));
}
const mc_scenario mc_scenarios[] = {
    { "every pair of characters", r_case1, 0, 0, 1, 0 }, { "texts up to 2", r_case, 2, -1, 2, 0 }, { "texts up to 3", r_case, 3, 1, 2, 0 }, { "copies", r_lcpy, 20, 0, 1, 0 }, { "fletcher", r_fletch, 0, 0, 1, 0 }, { "fletcher word", r_fletch1, 0, 0, 1, 0 },
    { "trees of 3", r_ftw, 3, -1, 2, MC_F_LEAK }, { "trees of 4", r_ftw, 4, 1, 3, MC_F_LEAK }, { 0 } };
#endif
