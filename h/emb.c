/* C63 the embedded printf: what comes out is what the C library prints for the same format. */
#include "mc.h"
#include <stdarg.h>
#include <stdint.h>
#define printf emb_printf
#define sprintf emb_sprintf
#pragma GCC diagnostic ignored "-Wbuiltin-declaration-mismatch"
#pragma GCC diagnostic ignored "-Wformat"
#include "emb-printf.c"
#undef printf
#undef sprintf
static char Out[4096]; static size_t On;
void _sys_charout(int ch) { if (On < sizeof Out) Out[On] = (char)ch; On++; }
static void begin(void) { On = 0; memset(Out, 0x55, 64); }
static void via_v(char *f, ...) { va_list ap; va_start(ap, f); v_XPRINT(f, &ap); va_end(ap); }
static const char *vis(const char *s, size_t n) { static char b[4][256]; static int k; char *o = b[k = (k + 1) & 3]; size_t j = 0; for (size_t i = 0; i < n && j < 240; i++) if (s[i] >= 32 && s[i] < 127) o[j++] = s[i]; else j += snprintf(o + j, 8, "\\%d", (unsigned char)s[i]); o[j] = 0; return o; }
/* the three ways out: a string of exactly the size needed, single characters, and a list of arguments */
#define CHECK(WANT, WN, FMT, ...) do { size_t wn_ = (WN); char *d_ = malloc(wn_ + 1); memset(d_, 0x5a, wn_ + 1); mc_site("sprintf(\"%s\")", FMT); int r_ = emb_sprintf(d_, FMT, ##__VA_ARGS__); mc_op(); \
    MC_ASSERT(r_ == (int)wn_, "count", "sprintf(\"%s\") returns %d for %zu characters", FMT, r_, wn_); MC_ASSERT(!memcmp(d_, WANT, wn_) && !d_[wn_], "sprintf", "sprintf(\"%s\") gives '%s', not '%s'", FMT, vis(d_, wn_), vis(WANT, wn_)); free(d_); \
    begin(); mc_site("printf(\"%s\")", FMT); emb_printf(FMT, ##__VA_ARGS__); MC_ASSERT(On == wn_ && !memcmp(Out, WANT, wn_), "printf", "printf(\"%s\") gives '%s', not '%s'", FMT, vis(Out, On), vis(WANT, wn_)); \
    begin(); mc_site("v_XPRINT(\"%s\")", FMT); via_v(FMT, ##__VA_ARGS__); MC_ASSERT(On == wn_ && !memcmp(Out, WANT, wn_), "vprint", "v_XPRINT(\"%s\") gives '%s', not '%s'", FMT, vis(Out, On), vis(WANT, wn_)); } while (0)
#define COMPARE(FMT, LFMT, ...) do { static char w_[4096]; int n_ = snprintf(w_, sizeof w_, LFMT, ##__VA_ARGS__); if (n_ < 0 || n_ >= (int)sizeof w_) abort(); CHECK(w_, (size_t)n_, FMT, ##__VA_ARGS__); } while (0)
#define ARGS(FMT, LFMT, V) do { if (ws && ps) COMPARE(FMT, LFMT, wv, pv, V); else if (ws) COMPARE(FMT, LFMT, wv, V); else if (ps) COMPARE(FMT, LFMT, pv, V); else COMPARE(FMT, LFMT, V); } while (0)
static const struct { const char *t; int star, v; } WI[] = { { "", 0, 0 }, { "1", 0, 0 }, { "2", 0, 0 }, { "5", 0, 0 }, { "8", 0, 0 }, { "10", 0, 0 }, { "19", 0, 0 }, { "20", 0, 0 }, { "21", 0, 0 }, { "22", 0, 0 }, { "33", 0, 0 }, { "100", 0, 0 }, { "999", 0, 0 }, { "*", 1, 0 }, { "*", 1, 7 }, { "*", 1, -7 }, { "*", 1, 300 }, { "*", 1, -300 } };
static const struct { const char *t; int star, v; } PR[] = { { "", 0, 0 }, { ".", 0, 0 }, { ".0", 0, 0 }, { ".1", 0, 0 }, { ".2", 0, 0 }, { ".5", 0, 0 }, { ".10", 0, 0 }, { ".16", 0, 0 }, { ".19", 0, 0 }, { ".20", 0, 0 }, { ".23", 0, 0 }, { ".40", 0, 0 }, { ".999", 0, 0 }, { ".*", 1, 0 }, { ".*", 1, 6 }, { ".*", 1, -1 }, { ".*", 1, -20 } };
#define N(a) ((int)(sizeof(a) / sizeof(*(a))))
static void mkfmt(char *f, char *lf, const char *pre, int flags, int w, int p, const char *mod, char conv)
{
    char fl[8]; int k = 0; for (int i = 0; i < 5; i++) if (flags >> i & 1) fl[k++] = "-+ #0"[i]; fl[k] = 0;
    snprintf(f, 64, "%s%%%s%s%s%s%c", pre, fl, WI[w].t, PR[p].t, mod, conv); snprintf(lf, 64, "%s%%%s%s%s%s%c", pre, fl, WI[w].t, PR[p].t, *mod == 'L' ? "l" : mod, conv);
}
static const long V[] = { 0, 1, -1, 7, 8, 9, 10, 15, 16, 99, 100, -100, 127, 128, 255, 256, 32767, 32768, -32768, 65535, 65536, 999999, 1000000, 2147483647L, -2147483647L - 1, 4294967295L, 4294967296L, -4294967296L, 1234567890123456789L, INT64_MAX, INT64_MIN, INT64_MIN + 1 };
static void r_num(long deep)
{
    int c = mc_choose(6), m = mc_choose(4), fl = mc_choose(32), w = mc_choose(N(WI)), p = mc_choose(N(PR)); char conv = "diuoxX"[c]; const char *mod = ((const char *[]){ "", "h", "l", "L" })[m];
    if (c < 2 ? fl & 8 : c == 2 ? fl & 14 : fl & 6) { mc_trivial(); return; }      /* not defined for this conversion */
    (void)deep; char f[64], lf[64]; mkfmt(f, lf, "", fl, w, p, mod, conv); int ws = WI[w].star, ps = PR[p].star, wv = WI[w].v, pv = PR[p].v;
    for (int i = 0; i < N(V); i++) { long v = V[i]; if (m >= 2) { if (c < 2) ARGS(f, lf, v); else ARGS(f, lf, (unsigned long)v); } else { if (c < 2) { int x = (int)v; if (m == 1 && x != (short)x) continue; ARGS(f, lf, x); } else { unsigned x = (unsigned)v; if (m == 1) x = (unsigned short)x; ARGS(f, lf, x); } } }
    mc_state(mc_hash(0, f, strlen(f)));
}
static void r_text(long a)
{
    (void)a; int what = mc_choose(3), left = mc_choose(2), w = mc_choose(N(WI)), p = what == 0 ? mc_choose(N(PR)) : 0; char f[64], lf[64]; int ws = WI[w].star, ps = PR[p].star, wv = WI[w].v, pv = PR[p].v; mkfmt(f, lf, "", left, w, p, "", "scp"[what]);
    if (what == 0) {
        static const int L[] = { 0, 1, 2, 3, 5, 8, 20, 100, 600 };
        for (int i = 0; i < N(L); i++) for (int z = 0; z < 2; z++) { long eff = ps ? pv : PR[p].t[0] ? atol(PR[p].t + 1) : -1; if (!z && !(eff >= 0 && eff <= L[i])) continue; char *s = malloc(L[i] + z + !(L[i] + z)); for (int j = 0; j < L[i]; j++) s[j] = "abcdefg %"[j % 9]; if (z) s[L[i]] = 0; char *t = malloc(L[i] + 1); memcpy(t, s, L[i]); t[L[i]] = 0; static char want[4096]; int n = ws && ps ? snprintf(want, sizeof want, lf, wv, pv, t) : ws ? snprintf(want, sizeof want, lf, wv, t) : ps ? snprintf(want, sizeof want, lf, pv, t) : snprintf(want, sizeof want, lf, t); free(t);
            if (ws && ps) CHECK(want, n, f, wv, pv, s); else if (ws) CHECK(want, n, f, wv, s); else if (ps) CHECK(want, n, f, pv, s); else CHECK(want, n, f, s); free(s); }
        if (!PR[p].t[0]) ARGS(f, lf, (char *)0);
    } else if (what == 1) { for (int c = 0; c < 256; c++) ARGS(f, lf, c); }
    else { static const uintptr_t P[] = { 1, 15, 16, 0xabcdef, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0xdeadbeefcafe, UINTPTR_MAX }; for (int i = 0; i < N(P); i++) { void *q = (void *)P[i]; ARGS(f, lf, q); } }
    mc_state(mc_mix(mc_hash(0, f, strlen(f)), 1));
}
/* several conversions and text around them; each takes its own argument */
static void r_seq(long n)
{
    static const char *const T[] = { "%d", "%s", "%c", "%x", "%lu", "%5d", "%-4s", "%%", "x", "%*d", "%.3s", "%p", "%hd", "%02x", "%.*s" }; int k = 1 + mc_choose((int)n), t[8]; char f[128] = "", w[600]; size_t wn = 0; unsigned long a[16]; int na = 0;
    for (int i = 0; i < k; i++) {
        t[i] = mc_choose(N(T)); strcat(f, T[t[i]]); strcat(f, i & 1 ? ";" : ""); char one[100]; int x = 100 + i * 37; static char st[] = "word"; st[0] = 'v';
        switch (t[i]) { case 0: x = -x; wn += snprintf(w + wn, 100, "%d", x); a[na++] = (unsigned)x; break; case 1: wn += snprintf(w + wn, 100, "%s", st); a[na++] = (unsigned long)st; break; case 2: wn += snprintf(w + wn, 100, "%c", 'a' + i); a[na++] = 'a' + i; break; case 3: wn += snprintf(w + wn, 100, "%x", x); a[na++] = x; break;
        case 4: wn += snprintf(w + wn, 100, "%lu", x * 10000000000ul); a[na++] = x * 10000000000ul; break; case 5: wn += snprintf(w + wn, 100, "%5d", x); a[na++] = x; break; case 6: wn += snprintf(w + wn, 100, "%-4s", "ab"); a[na++] = (unsigned long)"ab"; break; case 7: w[wn++] = '%'; break; case 8: w[wn++] = 'x'; break; case 9: wn += snprintf(w + wn, 100, "%*d", 6, x); a[na++] = 6; a[na++] = x; break;
        case 10: wn += snprintf(w + wn, 100, "%.3s", st); a[na++] = (unsigned long)st; break; case 11: snprintf(one, sizeof one, "%p", (void *)st); wn += snprintf(w + wn, 100, "%s", one); a[na++] = (unsigned long)st; break; case 12: wn += snprintf(w + wn, 100, "%hd", (short)-x); a[na++] = (unsigned)-x; break; case 13: wn += snprintf(w + wn, 100, "%02x", i); a[na++] = i; break; default: wn += snprintf(w + wn, 100, "%.*s", 2, st); a[na++] = 2; a[na++] = (unsigned long)st; }
        if (i & 1) w[wn++] = ';';
    }
    while (na < 10) a[na++] = 0xdddddddddddddddd; CHECK(w, wn, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); mc_state(mc_hash(0, f, strlen(f)));
}
/* addresses, the end of a format, letters that mean nothing, no format */
static void r_rest(long a)
{
    (void)a; int k = mc_choose(4); char w[256];
    if (k == 0) { int which = mc_choose(2), left = mc_choose(2), wi = mc_choose(4); static const uint32_t B[] = { 0, 1, 9, 10, 99, 100, 199, 200, 255 }; char f[16]; snprintf(f, sizeof f, "<%%%s%s%c>", left ? "-" : "", ((const char *[]){ "", "7", "15", "20" })[wi], which ? 'N' : 'H');
        for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int rot = 0; rot < 4; rot++) { uint32_t b[4] = { B[i], B[j], 192, 3 }; uint32_t x[4]; for (int q = 0; q < 4; q++) x[q] = b[(q + rot) & 3]; uint32_t v = which ? x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3] : x[3] << 24 | x[2] << 16 | x[1] << 8 | x[0]; char ip[40], lf[16]; snprintf(ip, sizeof ip, "%u.%u.%u.%u", x[0], x[1], x[2], x[3]); snprintf(lf, sizeof lf, "<%%%s%ss>", left ? "-" : "", ((const char *[]){ "", "7", "15", "20" })[wi]); snprintf(w, sizeof w, lf, ip); CHECK(w, strlen(w), f, v); } mc_state(mc_hash(1, f, strlen(f))); return; }
    if (k == 1) { static const char *const E[] = { "%", "a%", "a%5", "a%-", "a%.", "a%.3", "a%l", "a%-+ #0", "", "a", "%%", "a%%", "100%% sure" }; static const char *const R[] = { "", "a", "a", "a", "a", "a", "a", "a", "", "a", "%", "a%", "100% sure" }; int i = mc_choose(N(E)); char *f = malloc(strlen(E[i]) + 1); strcpy(f, E[i]); CHECK(R[i], strlen(R[i]), f); free(f); mc_state(mc_mix(2, i)); return; }
    if (k == 2) { begin(); mc_site("v_XPRINT(0)"); via_v(0); MC_ASSERT(On == 7 && !memcmp(Out, " (null)", 7), "null", "no format gives '%s'", vis(Out, On)); mc_state(3); return; }
    char t[300]; int n = mc_choose(256); for (int i = 0; i < n; i++) { t[i] = (char)(1 + (i * 7 + n) % 255); if (t[i] == '%') t[i] = '!'; } t[n] = 0; CHECK(t, (size_t)n, t); mc_state(mc_mix(4, n));
}
const mc_scenario mc_scenarios[] = { { "numbers", r_num, 0, 0, 3, 0 }, { "texts", r_text, 0, 0, 3, 0 }, { "sequences", r_seq, 3, -1, 2, 0 }, { "sequences up to 5", r_seq, 5, 1, 3, 0 }, { "the rest", r_rest, 0, 0, 2, 0 }, { 0 } };
