/* C31 pack/unpack, C32 base64, C33 hex: every input in the bounds against plain reference models. */
#include "mc.h"
#include <ctype.h>
#include <errno.h>
#include <unistd.h>
#include "utils/utils.h"

#ifdef P_C31
#include "utils/pack.h"
typedef struct { char t; int star; uint64_t n; } item;      /* n == 0: no count */
static uint8_t ref[512]; static int refn;
static int sz_of(char t) { switch (t) { case 'b': case 'B': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4; case 'l': case 'L': case 'd': case 'D': return 8; } return 0; }
static int isflt(char t) { return t == 'f' || t == 'd' || t == 'D'; }
static uint64_t val(int pat, int i)
{
    static const uint64_t V[] = { 0x0102030405060708ull, 0xffffffffffffffffull, 0x8000000000000000ull, 0x80f1a2b3c4d5e697ull, 0 };
    return pat == 0 ? V[0] + 0x1011121314151617ull * i : V[(pat + i) % 5];
}
static double fval(int pat, int i) { static const double V[] = { 1.5, -2.25, 0, 3e10, -1e-3 }; return V[(pat + i) % 5]; }
static const char *sval(int pat, int i) { static const char *V[] = { "hello", "", "x", "ab", "\xff\x80z" }; return V[(pat + i) % 5]; }
static void put(int be, uint64_t v, int w) { for (int i = 0; i < w; i++) ref[refn++] = (uint8_t)(v >> 8 * (be ? w - 1 - i : i)); }
#define MAXI 4
/* store typed element k of an array */
static void st(void *p, int w, int k, uint64_t v) { switch (w) { case 1: ((uint8_t *)p)[k] = v; break; case 2: ((uint16_t *)p)[k] = v; break; case 4: ((uint32_t *)p)[k] = v; break; default: ((uint64_t *)p)[k] = v; } }
static uint64_t ldv(const void *p, int w, int k) { switch (w) { case 1: return ((const uint8_t *)p)[k]; case 2: return ((const uint16_t *)p)[k]; case 4: return ((const uint32_t *)p)[k]; default: return ((const uint64_t *)p)[k]; } }
static uint64_t bits(char t, int pat, int i)
{
    int w = sz_of(t);
    if (t == 'f') { float f = (float)fval(pat, i); uint32_t u; memcpy(&u, &f, 4); return u; }
    if (t == 'd' || t == 'D') { double f = fval(pat, i); uint64_t u; memcpy(&u, &f, 8); return u; }
    uint64_t v = val(pat, i); return w == 8 ? v : v & ((1ull << 8 * w) - 1);
}
static uint64_t A[12]; static double D[8]; static void *arr[MAXI];
static ssize_t do_pack(uint8_t *b, size_t n, const char *f) { return Pack(b, n, f, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7]); }
static ssize_t do_unpack(uint8_t *b, size_t n, const char *f) { return Unpack(b, n, f, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7]); }

/* build the arguments and the expected bytes of a well formed item list */
static void build(const item *it, int k, int be, int pat)
{
    int na = 0, nd = 0; refn = 0; memset(A, 0, sizeof A); memset(D, 0, sizeof D);
    for (int i = 0; i < k; i++) {
        char t = it[i].t; int w = sz_of(t), n = (int)it[i].n; arr[i] = 0;
        if (t == 'x') { int m = n ? n : 1; memset(ref + refn, 0, m); refn += m; continue; }
        if (it[i].star) { A[na++] = it[i].n; put(be, it[i].n, 4); }
        if (t == 'z' || t == 'Z') {
            const char *s = sval(pat, i); A[na++] = (uint64_t)(uintptr_t)s; int L = (int)strlen(s), m = it[i].star || n ? n : L + 1;
            for (int j = 0; j < m; j++) ref[refn++] = j < L ? (uint8_t)s[j] : 0;
            continue;
        }
        if (it[i].star || n > 1) {
            int m = n; arr[i] = malloc(m * w ? m * w : 1); A[na++] = (uint64_t)(uintptr_t)arr[i];
            for (int j = 0; j < m; j++) { uint64_t v = bits(t, pat, i + j); st(arr[i], w, j, v); put(be, v, w); }
        } else {
            uint64_t v = bits(t, pat, i); put(be, v, w);
            if (isflt(t)) D[nd++] = t == 'f' ? (double)(float)fval(pat, i) : fval(pat, i);
            else A[na++] = w == 8 ? v : (t >= 'a' && (v >> (8 * w - 1))) ? (uint64_t)(v | ~0ull << 8 * w) : v;    /* as C promotes it */
        }
    }
}
static void roundtrip(const char *fmt, const item *it, int k, int be, int pat, int every)
{
    build(it, k, be, pat);
    static uint64_t sA[12]; memcpy(sA, A, sizeof A);
    for (int size = every ? 0 : refn; size <= refn + 1; size++) {
        uint8_t *b = malloc(size); memset(b, 0xa5, size);
        mc_site("Pack(%s)", fmt); memcpy(A, sA, sizeof A);
        ssize_t r = do_pack(b, size, fmt); mc_op();
        if (size < refn) MC_ASSERT(r < 0, "pack-small", "\"%s\" packs %zd bytes into %d, needs %d", fmt, r, size, refn);
        else { MC_ASSERT(r == refn, "pack-len", "\"%s\" packs %zd bytes, expected %d", fmt, r, refn); for (int i = 0; i < refn; i++) MC_ASSERT(b[i] == ref[i], "pack-bytes", "\"%s\": byte %d is %02x, expected %02x", fmt, i, b[i], ref[i]); if (size > refn) MC_ASSERT(b[refn] == 0xa5, "pack-over", "\"%s\" touches a byte after the packed ones", fmt); }
        free(b);
    }
    for (int i = 0; i < k; i++) free(arr[i]);
    MC_ASSERT(!mc_live_blocks(), "pack-leak", "\"%s\" leaves %zu blocks", fmt, mc_live_blocks());
    for (int size = every ? 0 : refn; size <= refn + 1; size++) {
        uint8_t *b = malloc(size); memcpy(b, ref, size < refn ? size : refn); if (size > refn) b[refn] = 0x11;
        void *out[MAXI] = { 0 }; uint32_t cnt[MAXI]; int na = 0, need = 0, okz = 1;
        for (int i = 0; i < k; i++) {
            char t = it[i].t; int w = sz_of(t), n = (int)it[i].n; cnt[i] = 0xdeadbeef;
            if (t == 'x') { need += n ? n : 1; continue; }
            if (it[i].star) { A[na++] = (uint64_t)(uintptr_t)&cnt[i]; need += 4 + (w ? w : 1) * n; A[na++] = (uint64_t)(uintptr_t)&out[i]; }
            else if (!w) { A[na++] = (uint64_t)(uintptr_t)&out[i]; }
            else { out[i] = malloc(w * (n ? n : 1)); A[na++] = (uint64_t)(uintptr_t)out[i]; need += w * (n ? n : 1); }
        }
        (void)need; (void)okz;
        mc_site("Unpack(%s)", fmt);
        ssize_t r = do_unpack(b, size, fmt); mc_op();
        if (size < refn) MC_ASSERT(r < 0, "unpack-small", "\"%s\" unpacks %zd bytes of %d, needs %d", fmt, r, size, refn);
        else {
            MC_ASSERT(r == refn, "unpack-len", "\"%s\" unpacks %zd bytes, expected %d", fmt, r, refn);
            for (int i = 0; i < k; i++) {
                char t = it[i].t; int w = sz_of(t), n = (int)it[i].n;
                if (t == 'x') continue;
                if (it[i].star) { MC_ASSERT(cnt[i] == it[i].n, "unpack-count", "\"%s\": count %u, expected %d", fmt, cnt[i], n); if (!n) continue; }
                if (!w) {
                    const char *s = sval(pat, i); int L = (int)strlen(s), m = n && n < L ? n : L; char *o = out[i];
                    MC_ASSERT(o, "unpack-str", "\"%s\": no string", fmt);
                    MC_ASSERT((int)strlen(o) == m && !memcmp(o, s, m), "unpack-str", "\"%s\": string %d is \"%s\"", fmt, i, o);
                    MC_ASSERT(mc_block_size(o) >= (size_t)(n ? n : L) + 1, "unpack-str", "\"%s\": string storage", fmt);
                } else for (int j = 0; j < (n ? n : 1); j++) MC_ASSERT(ldv(out[i], w, j) == bits(t, pat, i + j), "unpack-val", "\"%s\": element %d of item %d is %llx, packed %llx", fmt, j, i, (unsigned long long)ldv(out[i], w, j), (unsigned long long)bits(t, pat, i + j));
            }
        }
        for (int i = 0; i < k; i++) free(out[i]);
        free(b);
        MC_ASSERT(!mc_live_blocks(), "unpack-leak", "\"%s\" leaves %zu blocks", fmt, mc_live_blocks());
    }
    mc_state(mc_hash(mc_hash(refn, ref, refn), fmt, strlen(fmt)));
}
static void r_items(long arg)
{
    int k = (int)(arg & 7), full = (int)(arg >> 3 & 1), pats = (int)(arg >> 4 & 7);
    static const char T[] = "bBsSiIlLfdDxzZ", T1[] = "BSiLdxZ";
    static const int CN[] = { 0, 1, 2, 11, 5 };
    item it[MAXI]; char fmt[64]; int fl = 0;
    int e = mc_choose(3), be = e == 2; if (e == 1) fmt[fl++] = '<'; if (e == 2) fmt[fl++] = '>';
    int sp = full ? mc_choose(2) : 0;
    for (int i = 0; i < k; i++) {
        it[i].t = full ? T[mc_choose(14)] : T1[mc_choose(7)];
        int c = mc_choose(full ? 8 : 5); it[i].star = 0;
        if (c < (full ? 5 : 2)) it[i].n = full ? CN[c] : c * 2;
        else { it[i].star = 1; it[i].n = full ? (uint64_t[]){ 0, 1, 3 }[c - 5] : (uint64_t)(c - 2); }
        if (it[i].star && it[i].t == 'x') mc_prune();
        if (sp) fmt[fl++] = i & 1 ? '\t' : ' ';
        if (it[i].star) { fmt[fl++] = '*'; if (sp) fmt[fl++] = ' '; } else if (it[i].n) fl += sprintf(fmt + fl, "%d", (int)it[i].n);
        fmt[fl++] = it[i].t;
    }
    fmt[fl] = 0;
    int pat = mc_choose(pats);
    mc_note("\"%s\" pattern %d", fmt, pat);
    roundtrip(fmt, it, k, be, pat, 1);
}
/* every format text: a malformed one is an error whatever the space, a good one round-trips */
static void r_raw(long arg)
{
    static const char AL[] = { 'B', '*', '2', 'I', 'Z', 'x', '>', '<', 'q', '{', (char)0x81, '?', '|', '-', 1 };
    int nal = (int)arg ? (int)arg : 15;
    char fmt[12]; int L = 1 + mc_choose(mc_tier() ? 5 : 4); for (int i = 0; i < L; i++) fmt[i] = AL[mc_choose(nal)]; fmt[L] = 0;
    item it[MAXI + 8]; int k = 0, bad = 0, p = 0, be = 0;
    if (fmt[0] == '<' || fmt[0] == '>') { be = fmt[0] == '>'; p = 1; }
    while (p < L && !bad) {
        item x = { 0 };
        if (fmt[p] == '*') { x.star = 1; p++; x.n = 2; }
        if (p >= L) { bad = 1; break; }
        if (isdigit((unsigned char)fmt[p])) { if (x.star) bad = 1; x.n = 0; while (p < L && isdigit((unsigned char)fmt[p])) x.n = x.n * 10 + fmt[p++] - '0'; }
        if (p >= L) { bad = 1; break; }
        x.t = fmt[p++];
        if (!strchr("BIZx", x.t) || !x.t) bad = 1;
        if (x.star && x.t == 'x') mc_prune();
        if (!bad) it[k++] = x;
    }
    if (k > MAXI) mc_prune();
    for (int i = 0; i < k; i++) if (it[i].n > 40) mc_prune();
    mc_note("\"%s\" %s", fmt, bad ? "malformed" : "ok");
    if (!bad && k) { roundtrip(fmt, it, k, be, 0, 0); return; }
    if (!bad) { mc_trivial(); return; }
    build(it, k, be, 0); int na = 0; (void)na;
    /* what follows the good part: valid pointers, so that only the format decides */
    static uint64_t big[64]; int used = 0; for (int i = 0; i < k; i++) used += it[i].t == 'x' ? 0 : 1 + it[i].star;
    static const char s[] = "hello"; if (used < 8) A[used] = fmt[L - 1] == '*' || strstr(fmt, "**") || strstr(fmt, "*2") ? 2 : (uint64_t)(uintptr_t)big;
    for (int i = used + 1; i < 8; i++) A[i] = (uint64_t)(uintptr_t)s;
    for (int size = 0; size <= 128; size = size ? size * 4 : 1) {
        uint8_t *b = calloc(1, size); mc_site("Pack malformed"); ssize_t r = do_pack(b, size, fmt); mc_op();
        MC_ASSERT(r < 0, "pack-malformed", "\"%s\" is malformed but packs %zd bytes", fmt, r); free(b);
    }
    for (int i = 0; i < k; i++) free(arr[i]);
    /* unpack: every argument a pointer to spare room; strings are allocated */
    void *out[12] = { 0 }; static uint64_t room[12][16];
    for (int size = 0; size <= 128; size = size ? size * 4 : 1) {
        uint8_t *b = calloc(1, size); int q = 0; uint32_t cn[12]; memset(out, 0, sizeof out);
        for (int i = 0; i < 12; i++) A[i] = (uint64_t)(uintptr_t)room[i];
        for (int i = 0; i < k; i++) { if (it[i].t == 'x') continue; if (it[i].star) { A[q++] = (uint64_t)(uintptr_t)&cn[i]; A[q++] = (uint64_t)(uintptr_t)&out[i]; } else if (it[i].t == 'Z') A[q++] = (uint64_t)(uintptr_t)&out[i]; else q++; }
        memset(b, 0, size); mc_site("Unpack malformed"); ssize_t r = do_unpack(b, size, fmt); mc_op();
        MC_ASSERT(r < 0, "unpack-malformed", "\"%s\" is malformed but unpacks %zd bytes", fmt, r);
        for (int i = 0; i < 12; i++) free(out[i]);
        free(b);
    }
    MC_ASSERT(!mc_live_blocks(), "malformed-leak", "\"%s\" leaves %zu blocks", fmt, mc_live_blocks());
    mc_state(mc_hash(1, fmt, L));
}
/* counts around every limit: only what fits may be packed */
static void r_huge(long arg)
{
    static const char T[] = "BSILxZfD"; (void)arg;
    static const char *N[] = { "4294967295", "4294967296", "4294967297", "536870912", "1073741824", "2147483648", "18446744073709551615", "18446744073709551616", "2305843009213693952", "2305843009213693953", "4611686018427387904", "9223372036854775808", "99999999999999999999999999", "8589934592", "65", "33", "17", "9" };
    char fmt[64]; int be = mc_choose(2), n = mc_choose(18), t = mc_choose(8), pre = mc_choose(3); sprintf(fmt, "%s%s%s%c", be ? ">" : "", pre == 1 ? "B" : pre == 2 ? "x" : "", N[n], T[t]);
    int w = T[t] == 'x' || T[t] == 'Z' ? 1 : sz_of(T[t]); double need = (pre != 0) + atof(N[n]) * w;
    for (int size = 0; size <= 64; size += 1 + (size > 10)) {
        uint8_t *b = calloc(1, size); uint8_t *src = calloc(1, 64); char *out = 0; uint8_t *dst = calloc(1, 600);
        int q = 0; if (pre == 1) A[q++] = 7; A[q] = (uint64_t)(uintptr_t)src; mc_site("Pack(%s)", fmt);
        if (need > size) { ssize_t r = do_pack(b, size, fmt); MC_ASSERT(r < 0, "pack-huge", "\"%s\" packs %zd bytes into %d", fmt, r, size); mc_op(); }
        q = 0; uint64_t one; if (pre == 1) A[q++] = (uint64_t)(uintptr_t)&one; A[q] = T[t] == 'Z' ? (uint64_t)(uintptr_t)&out : (uint64_t)(uintptr_t)dst; mc_site("Unpack(%s)", fmt);
        if (need > size) { ssize_t r = do_unpack(b, size, fmt); MC_ASSERT(r < 0, "unpack-huge", "\"%s\" unpacks %zd bytes of %d", fmt, r, size); mc_op(); }
        free(out); free(b); free(src); free(dst);
    }
    /* a run-time count read from the stream */
    if (!pre && T[t] != 'x') {
        uint32_t cnt = (uint32_t)strtoull(N[n], 0, 10), got = 0; for (int size = 4; size <= 40; size += 4) {
            uint8_t *b = calloc(1, size); for (int i = 0; i < 4; i++) b[i] = (uint8_t)(cnt >> 8 * (be ? 3 - i : i)); void *out = 0; sprintf(fmt, "%s* %c", be ? ">" : "", T[t]);
            A[0] = (uint64_t)(uintptr_t)&got; A[1] = (uint64_t)(uintptr_t)&out; mc_site("Unpack(%s)", fmt); ssize_t r = do_unpack(b, size, fmt); mc_op();
            if ((double)cnt * w + 4 > size) MC_ASSERT(r < 0, "unpack-vla", "\"%s\" unpacks %u items from %d bytes", fmt, cnt, size); else MC_ASSERT(r == 4 + (ssize_t)cnt * w, "unpack-vla", "\"%s\" returns %zd", fmt, r);
            free(out); free(b);
        }
    }
    mc_state(mc_hash(2, fmt, strlen(fmt)));
}
static void r_null(long arg)
{   /* a null string packs like an empty one; a null destination is refused */
    static const char *F[] = { "Z", "3Z", "*Z", "z", ">Z" }; int f = mc_choose(5); (void)arg; uint8_t b[16]; memset(b, 0x5a, sizeof b); mc_site("Pack null");
    ssize_t r = f == 2 ? Pack(b, 16, F[f], 2, (char *)0) : Pack(b, 16, F[f], (char *)0); mc_op();
    static const uint8_t E[][8] = { { 0 }, { 0, 0, 0 }, { 2, 0, 0, 0, 0, 0 }, { 0 }, { 0 } }; static const int EN[] = { 1, 3, 6, 1, 1 };
    MC_ASSERT(r == EN[f] && !memcmp(b, E[f], r), "pack-null", "\"%s\" of a null string returns %zd", F[f], r);
    static const char *U[] = { "B", "2I", "Z", "3Z", ">L" }; memset(b, 0, 16); r = Unpack(b, 16, U[f], (void *)0); mc_op(); MC_ASSERT(r < 0, "unpack-null", "\"%s\" into nothing returns %zd", U[f], r);
    r = Unpack(b, 16, "*B", (void *)0, (void *)0); MC_ASSERT(r < 0, "unpack-null", "count into nothing returns %zd", r);
    mc_state(f);
}
const mc_scenario mc_scenarios[] = {
    { "one item, every type and count", r_items, 1 | 1 << 3 | 5 << 4, 0, 2, 0 },
    { "two items, every type and count", r_items, 2 | 1 << 3 | 1 << 4, 0, 3, 0 },
    { "two items, every pattern", r_items, 2 | 0 << 3 | 5 << 4, 0, 3, 0 },
    { "three items", r_items, 3 | 0 << 3 | 1 << 4, 0, 3, 0 },
    { "four items", r_items, 4 | 0 << 3 | 1 << 4, 1, 4, 0 },
    { "format texts", r_raw, 0, 0, 3, 0 },
    { "long format texts", r_raw, 7, 0, 3, 0 },
    { "counts at the limits", r_huge, 0, 0, 2, 0 },
    { "null strings and destinations", r_null, 0, 0, 1, 0 },
    { 0 } };
#endif

#ifdef P_C32
#include "utils/base64.h"
static const char ALB[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int ref_enc(const uint8_t *s, int n, char *o)
{
    int k = 0; for (int i = 0; i < n; i += 3) { int m = n - i < 3 ? n - i : 3; uint32_t v = s[i] << 16 | (m > 1 ? s[i + 1] << 8 : 0) | (m > 2 ? s[i + 2] : 0); for (int j = 0; j < 4; j++) o[k++] = j <= m ? ALB[v >> (18 - 6 * j) & 63] : '='; }
    o[k] = 0; return k;
}
static int ref_dec(const char *s, int n, uint8_t *o, int *nv)
{
    uint32_t acc = 0; int nb = 0, k = 0, v = 0; for (int i = 0; i < n; i++) { const char *q = s[i] ? strchr(ALB, s[i]) : 0; if (!q) continue; v++; acc = acc << 6 | (uint32_t)(q - ALB); nb += 6; if (nb >= 8) { nb -= 8; o[k++] = (uint8_t)(acc >> nb); acc &= (1u << nb) - 1; } }
    *nv = v; return k;
}
/* standard text once line breaks are removed; lines of at most 76 */
static void ck_enc(const char *o, int n, const uint8_t *s, int sn, const char *what)
{
    static char want[2048], got[2048]; int w = ref_enc(s, sn, want), k = 0, col = 0;
    for (int i = 0; i < n; i++) { if (o[i] == '\n') { col = 0; continue; } MC_ASSERT(++col <= 76, "line", "%s: line longer than 76", what); got[k++] = o[i]; }
    MC_ASSERT(k == w && !memcmp(got, want, w), "enc", "%s: %d bytes encode to %.*s, expected %s", what, sn, n, o, want);
    MC_ASSERT(o[n] == 0, "term", "%s: not terminated", what);
}
static void enc_all(const uint8_t *s, int n, int allsplit)
{
    static char one[2048], two[2048]; mc_site("base64_encode_buf");
    int full = 4 * ((n + 2) / 3), r = base64_encode_buf(one, sizeof one, (void *)s, n); mc_op();
    MC_ASSERT(r >= full, "len", "returns %d for %d bytes", r, n); ck_enc(one, r, s, n, "buffer");
    uint8_t *src = malloc(n ? n : 1); memcpy(src, s, n);
    for (int a = 0; a <= n; a++) for (int b = a; b <= (allsplit ? n : a); b++) {
        base64_encode_state st; base64_encode_init(&st); int k = base64_encode_block(&st, (char *)src, a, two);
        k += base64_encode_block(&st, (char *)src + a, b - a, two + k); k += base64_encode_block(&st, (char *)src + b, n - b, two + k); k += base64_encode_finish(&st, two + k); mc_op();
        MC_ASSERT(k == r && !memcmp(one, two, r + 1), "split", "%d bytes split at %d and %d encode differently", n, a, b);
    }
    free(src);
    /* every output size */
    for (int d = 0; d <= r + 3; d++) { char *o = malloc(d ? d : 1); if (!d) { free(o); o = malloc(0); } int q = base64_encode_buf(o, d, (void *)s, n); mc_op(); if (d < r + 1) MC_ASSERT(q < 0, "enc-small", "%d bytes of output are enough for %d?", d, n); else if (q >= 0) { MC_ASSERT(q == r && !memcmp(o, one, r + 1), "enc-size", "output depends on its size"); } free(o); if (!allsplit && d < r - 3) d = r - 4 > d ? r - 4 : d; }
    char *big = malloc(2 * n + 16); int q = base64_encode_buf(big, 2 * n + 16, (void *)s, n); MC_ASSERT(q == r, "enc-refused", "ample output of %d refused for %d bytes", 2 * n + 16, n); free(big);
    /* back */
    uint8_t *dec = malloc(n + 3); q = base64_decode_buf(dec, n + 3, one, r); MC_ASSERT(q == n && !memcmp(dec, s, n), "round", "%d bytes come back as %d", n, q); free(dec);
    mc_state(mc_hash(n, s, n));
}
static void r_enc(long arg)
{
    static const uint8_t AL[] = { 0, 0xff, 0x41, 0x80, 0x7f, 0x03, 0xfc, 0x30 }; uint8_t s[12]; int n = mc_choose((int)(arg & 15)) + (int)(arg >> 8), na = (int)(arg >> 4 & 15);
    for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)];
    enc_all(s, n, 1);
}
static void r_bytes(long arg)
{   /* every byte value at every place of a group, every neighbour pattern */
    uint8_t s[6]; int n = (int)arg; static const uint8_t P[] = { 0, 0xff, 0x5a }; uint8_t p = P[mc_choose(3)]; memset(s, p, 6); int at = mc_choose(n); s[at] = (uint8_t)mc_choose(256); enc_all(s, n, 1);
}
static void r_long(long arg)
{
    uint8_t s[420]; int n = mc_choose((int)arg); for (int i = 0; i < n; i++) s[i] = (uint8_t)(i * 37 + 11); enc_all(s, n, n < 64);
}
static void dec_all(const char *s, int n)
{
    uint8_t want[600], one[600]; int nv, w = ref_dec(s, n, want, &nv); char *src = malloc(n ? n : 1); if (!n) { free(src); src = malloc(0); } memcpy(src, s, n);
    mc_site("base64_decode_block");
    for (int a = 0; a <= n; a++) for (int b = a; b <= (n > 64 ? a : n); b++) {
        base64_decode_state st; base64_decode_init(&st); int k = 0, at[4] = {0, a, b, n}; memset(one, 0xee, sizeof one);
        for (int j = 0; j < 3; j++) { uint8_t p[600]; memset(p, 0xee, n + 4); int q = base64_decode_block(&st, src + at[j], at[j + 1] - at[j], (char *)p); MC_ASSERT(q >= 0 && k + q <= w, "dec", "%d characters split at %d and %d decode to more than %d bytes", n, a, b, w); memcpy(one + k, p, q); k += q; }
        mc_op();
        MC_ASSERT(k == w && !memcmp(one, want, w), "dec", "%d characters split at %d and %d decode to %d bytes, expected %d", n, a, b, k, w);
    }
    mc_site("base64_decode_buf");
    int hi = n + 2; for (int d = 0; d <= hi; d++) {
        uint8_t *o = malloc(d); memset(o, 0xee, d); int q = base64_decode_buf(o, d, src, n); mc_op();
        if (q >= 0) MC_ASSERT(q == w && w <= d && !memcmp(o, want, w), "dec-size", "%d characters into %d bytes give %d, expected %d", n, d, q, w);
        else MC_ASSERT(d < w + 1, "dec-refused", "%d characters decode to %d bytes but %d are refused", n, w, d);
        free(o); if (n > 64 && d < w - 3) d = w - 4 > d ? w - 4 : d;
    }
    free(src); mc_state(mc_hash(n, s, n));
}
static void r_dec(long arg)
{
    static const char AL[] = { 'A', '/', '=', '\n', '{', 'q', (char)0xff, '+', '9', ',', 0, '*' }; char s[12]; int n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; dec_all(s, n);
}
static void r_decb(long arg)
{   char s[8]; int n = 4 + mc_choose(3); memset(s, "QZ/"[mc_choose(3)], 8); int at = mc_choose(n); s[at] = (char)mc_choose(256); (void)arg; dec_all(s, n); }
static void r_declong(long arg)
{   char s[400]; int n = mc_choose((int)arg), nl = mc_choose(3); for (int i = 0; i < n; i++) s[i] = nl && i % (nl == 1 ? 77 : 5) == 4 ? '\n' : ALB[(i * 29 + 3) & 63]; dec_all(s, n); }
const mc_scenario mc_scenarios[] = {
    { "encode, 8 byte values, up to 5", r_enc, 6 | 8 << 4, 0, 3, 0 },
    { "encode, 3 byte values, up to 9", r_enc, 5 | 3 << 4 | 6 << 8, 0, 3, 0 },
    { "encode every byte, 1", r_bytes, 1, 0, 1, 0 }, { "encode every byte, 2", r_bytes, 2, 0, 2, 0 }, { "encode every byte, 3", r_bytes, 3, 0, 2, 0 }, { "encode every byte, 4", r_bytes, 4, 0, 2, 0 },
    { "encode long buffers", r_long, 230, 0, 1, 0 }, { "encode longer buffers", r_long, 420, 1, 1, 0 },
    { "decode, 12 characters, up to 4", r_dec, 5 | 12 << 4, 0, 2, 0 },
    { "decode, 5 characters, up to 7", r_dec, 8 | 5 << 4, 0, 3, 0 },
    { "decode every character", r_decb, 0, 0, 3, 0 },
    { "decode long texts", r_declong, 120, 0, 1, 0 },
    { 0 } };
#endif

#ifdef P_C33
#include "utils/hexdump.h"
extern ssize_t str2hex(uint8_t *, size_t, const char *);
static int dg(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void hex1(const char *s0)
{
    int n = (int)strlen(s0), bad = 0; uint8_t want[32]; memset(want, 0, sizeof want); char *s = strdup(s0);
    for (int i = 0; i < n; i++) { int d = dg(s[i]); if (d < 0) bad = 1; else want[i / 2] |= (uint8_t)(d << (i & 1 ? 0 : 4)); }
    int w = (n + 1) / 2; mc_site("str2hex");
    for (int d = 0; d <= w + 2; d++) {
        uint8_t *o = malloc(d); memset(o, 0x5a, d); ssize_t r = str2hex(o, d, s); mc_op();
        if (bad || d < w) MC_ASSERT(r < 0, "hex-accept", "\"%s\" into %d bytes returns %zd", s, d, r);
        else { MC_ASSERT(r == w && !memcmp(o, want, w), "hex", "\"%s\" decodes wrongly (%zd)", s, r); for (int i = w; i < d; i++) MC_ASSERT(o[i] == 0x5a, "hex-over", "\"%s\" writes more than %d bytes", s, w); }
        free(o);
    }
    mc_state(mc_hash(n, s, n)); free(s);
}
static void r_hex(long arg)
{
    static const char AL[] = "0afA9Fg/:@G`x \x80"; char s[16]; int n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; s[n] = 0; hex1(s);
}
static void r_hexb(long arg) { char s[4] = { 0 }; s[0] = (char)(1 + mc_choose(255)); s[1] = (char)(1 + mc_choose(255)); if (arg) s[2] = (char)('7' - (s[1] & 7)); hex1(s); }

typedef struct { char b[4096]; int n, calls, failat, err; } sink;
static int wr(void *c, const char *b, size_t n) { sink *s = c; if (s->calls++ == s->failat) return s->err; MC_ASSERT(s->n + n < sizeof s->b, "out", "too much output"); memcpy(s->b + s->n, b, n); s->n += (int)n; return 0; }
static void ck_dump(const char *t, int tn, const uint8_t *s, int n, uint64_t off0)
{
    int p = 0, pos = 0;
    while (p < tn) {
        uint64_t off = 0; int k = 0; while (p < tn && dg(t[p]) >= 0) { off = off << 4 | dg(t[p++]); k++; }
        MC_ASSERT(k && off == off0 + pos, "offset", "line at byte %d says offset %llx", pos, (unsigned long long)off);
        int first = pos, c = 0;
        while (p < tn && t[p] != '|') { if (t[p] == ' ') { p++; continue; } MC_ASSERT(p + 1 < tn && dg(t[p]) >= 0 && dg(t[p + 1]) >= 0, "hexpart", "odd character in the hex part"); int v = dg(t[p]) << 4 | dg(t[p + 1]); p += 2; MC_ASSERT(pos < n && v == s[pos], "byte", "byte %d shown as %02x", pos, v); pos++; c++; }
        MC_ASSERT(c > 0 && c <= 16, "width", "a line of %d bytes", c); MC_ASSERT(c == 16 || pos == n, "width", "a short line in the middle");
        MC_ASSERT(p < tn && t[p] == '|', "text", "no text column"); p++;
        for (int i = 0; i < c; i++, p++) { int ch = s[first + i]; char e = ch >= 32 && ch < 127 ? (char)ch : '.'; MC_ASSERT(p < tn && t[p] == e, "text", "text of byte %d", first + i); }
        MC_ASSERT(p + 1 < tn && t[p] == '|' && t[p + 1] == '\n', "text", "line end"); p += 2;
    }
    MC_ASSERT(pos == n, "all", "%d of %d bytes shown", pos, n);
}
static sink S; static ssize_t cw(void *c, const char *b, size_t n) { sink *s = c; if (s->failat >= 0 && s->n + (int)n > s->failat) { errno = ENOSPC; return 0; } memcpy(s->b + s->n, b, n); s->n += (int)n; return n; }
static void r_dump(long arg)
{
    int n = mc_choose((int)arg), pat = mc_choose(3), ptr = mc_choose(2), mis = ptr ? mc_choose(4) : 0; uint8_t *base = malloc(n + mis), *s = base + mis;
    for (int i = 0; i < n; i++) s[i] = (uint8_t)(pat == 0 ? i * 7 + n : pat == 1 ? (i % 2 ? 0x7f : 0x1f) + (i % 3 == 0) : 0xff - i);
    hex_dumper d; memset(&S, 0, sizeof S); S.failat = -1; mc_site("hex_dump_write");
    hex_dump_init(&d, wr, &S, ptr ? HEX_DUMP_PTR : HEX_DUMP_OFFSET); int r = hex_dump_write(&d, s, n); mc_op(); MC_ASSERT(r == 0, "ret", "returns %d", r); MC_ASSERT(hex_dump_close(&d) == 0, "ret", "close");
    ck_dump(S.b, S.n, s, n, ptr ? (uint64_t)(uintptr_t)s : 0);
    int calls = S.calls; for (int f = 0; f < calls; f++) { memset(&S, 0, sizeof S); S.failat = f; S.err = -7 - f; hex_dump_init(&d, wr, &S, 0); r = hex_dump_write(&d, s, n); mc_op(); if (r >= 0) r = hex_dump_close(&d); MC_ASSERT(r == -7 - f, "err", "writer's error %d at call %d becomes %d", -7 - f, f, r); MC_ASSERT(S.calls == f + 1, "err", "goes on after an error"); }
    if (!ptr) {
        for (int f = -1; f < (n ? 90 : 0); f = f < 0 ? 0 : f + 77) { memset(&S, 0, sizeof S); S.failat = f; cookie_io_functions_t io = { .write = cw }; FILE *fp = fopencookie(&S, "w", io); setvbuf(fp, 0, _IONBF, 0); mc_site("fhexdump"); errno = 0; r = fhexdump(fp, s, n); mc_op(); fclose(fp);
            if (f < 0) { MC_ASSERT(r == 0, "ret", "fhexdump returns %d", r); ck_dump(S.b, S.n, s, n, 0); } else if (f < 66 + (n > 16 ? 70 : 0)) MC_ASSERT(r < 0, "ferr", "fhexdump returns %d though writing failed", r); }
    }
    mc_state(mc_hash(n * 2 + ptr, s, n)); free(base);
}
typedef struct { char *b; size_t n, max; } bigsink;
static int wrbig(void *c, const char *b, size_t n) { bigsink *s = c; MC_ASSERT(s->n + n <= s->max, "out", "too much output"); memcpy(s->b + s->n, b, n); s->n += n; return 0; }
/* offsets with a digit more, and where each byte of them begins to count */
static void r_dumpbig(long arg)
{
    static const int B[] = { 256, 4096, 32768, 65536, 1 << 20, 1 << 24 }; int n = B[mc_choose((int)arg)] + ((const int[]){ -17, -16, -1, 0, 1, 16, 17 })[mc_choose(7)], k = mc_choose(2); uint8_t *s = malloc(n); for (int i = 0; i < n; i++) s[i] = (uint8_t)(i * 31 + (i >> 8) * 7);
    hex_dumper d; bigsink b = { 0, 0, (size_t)(n / 16 + 2) * 100 }; b.b = malloc(b.max); mc_site("hexdump of %d bytes", n);
    if (k) { FILE *f = open_memstream(&b.b, &b.n); MC_ASSERT(fhexdump(f, s, n) == 0, "ret", "fhexdump fails"); fclose(f); }
    else { hex_dump_init(&d, wrbig, &b, 0); int r = hex_dump_write(&d, s, n); MC_ASSERT(r == 0 && hex_dump_close(&d) == 0, "ret", "returns %d", r); }
    mc_op(); ck_dump(b.b, (int)b.n, s, n, 0); mc_state(n); free(s); free(b.b);
}
static void r_dumpb(long arg) { uint8_t b[20]; memset(b, 'm', 20); int n = 17 + mc_choose(2), at = mc_choose(n); b[at] = (uint8_t)mc_choose(256); (void)arg; hex_dumper d; memset(&S, 0, sizeof S); S.failat = -1; mc_site("hex_dump_write"); hex_dump_init(&d, wr, &S, 0); int r = hex_dump_write(&d, b, n); mc_op(); MC_ASSERT(r == 0, "ret", "returns %d", r); ck_dump(S.b, S.n, b, n, 0); mc_state(mc_hash(n, b, n)); }
const mc_scenario mc_scenarios[] = {
    { "hex texts, 15 characters, up to 4", r_hex, 5 | 15 << 4, 0, 2, 0 }, { "hex texts, 6 characters, up to 7", r_hex, 7 | 6 << 4, 0, 3, 0 }, { "hex texts, 6 characters, up to 8", r_hex, 9 | 6 << 4, 1, 3, 0 },
    { "every pair of characters", r_hexb, 0, 0, 1, 0 }, { "every pair and a third", r_hexb, 1, 1, 1, 0 },
    { "dumps of every length", r_dump, 70, 0, 1, 0 }, { "dumps of every length up to 300", r_dump, 300, 1, 1, 0 }, { "long dumps", r_dumpbig, 5, -1, 1, 0 }, { "long dumps up to 16M", r_dumpbig, 6, 1, 1, 0 }, { "every byte at every place", r_dumpb, 0, 0, 2, 0 },
    { 0 } };
#endif
