// C41: every text and pattern in the bounds, each algorithm against the definition.
#include "mc.h"
#include <cstring>
#include "utils/strmatch.h"
static const int CH[] = { 'a', 'b', 0, 0xff, 0x80, 'c' };
static const int WH[] = { 'a', 'a' + 256, 0, 0xff00, 'b', 0xffff };
template<typename T> static void check(const T *pat, int m, const T *txt, int n, const char *ty)
{
    std::vector<int> ref; for (int j = 0; j + m <= n; j++) { bool e = true; for (int i = 0; i < m && e; i++) e = pat[i] == txt[i + j]; if (e) ref.push_back(j); }
    // exact-size copies: reading outside is seen
    T *p = (T *)malloc(m * sizeof(T)), *t = (T *)malloc(n * sizeof(T)); memcpy(p, pat, m * sizeof(T)); memcpy(t, txt, n * sizeof(T));
    const char *nm[] = { "kmp", "boyer-moore", "turbo boyer-moore", "rabin-karp" };
    for (int a = 0; a < 4; a++) {
        mc_site("%s/%s", nm[a], ty); std::vector<int> r;
        if (a == 0) { kmp_search<T> s(p, m); r = s.matchall(t, n); MC_ASSERT(s.patlen() == m && !memcmp(s.pat(), pat, m * sizeof(T)), "pat", "pattern kept wrongly"); auto r2 = s.matchall(t, n); MC_ASSERT(r == r2, "again", "%s: second search differs", nm[a]); }
        if (a == 1) { boyer_moore_search<T> s(p, m); r = s.matchall(t, n); MC_ASSERT(s.patlen() == m && !memcmp(s.pat(), pat, m * sizeof(T)), "pat", "pattern kept wrongly"); }
        if (a == 2) { boyer_moore_search<T> s(p, m); r = s.turbo_matchall(t, n); auto r2 = s.matchall(t, n); MC_ASSERT(r2 == ref, "again", "boyer-moore after turbo differs"); }
        if (a == 3) { rabin_karp_search<T> s(p, m); r = s.matchall(t, n); MC_ASSERT(s.patlen() == m && !memcmp(s.pat(), pat, m * sizeof(T)), "pat", "pattern kept wrongly"); }
        mc_op();
        if (r != ref) { char b[700]; int L = 0; for (int i = 0; i < m && i < 60; i++) L += sprintf(b + L, "%02x", (int)pat[i] & 255); L += sprintf(b + L, " in "); for (int i = 0; i < n && i < 100; i++) L += sprintf(b + L, "%02x", (int)txt[i] & 255); mc_fail("result", "%s<%s>: %s: %zu places (first %d), expected %zu (first %d)", nm[a], ty, b, r.size(), r.empty() ? -1 : r[0], ref.size(), ref.empty() ? -1 : ref[0]); }
    }
    free(p); free(t); mc_state(mc_hash(mc_hash(m, pat, m * sizeof(T)), txt, n * sizeof(T)));
}
template<typename T> static void conv(const int *pi, int m, const int *ti, int n, const char *ty) { T p[200], t[400]; for (int i = 0; i < m; i++) p[i] = (T)(sizeof(T) > 1 ? WH : CH)[pi[i]]; for (int i = 0; i < n; i++) t[i] = (T)(sizeof(T) > 1 ? WH : CH)[ti[i]]; check<T>(p, m, t, n, ty); }
static void r_all(long arg)
{
    int na = (int)(arg & 15), mp = (int)(arg >> 4 & 15), mt = (int)(arg >> 8 & 31), uc = (int)(arg >> 13 & 1), p[40], t[40], m = 1 + mc_choose(mp);
    for (int i = 0; i < m; i++) p[i] = mc_choose(na); int n = mc_choose(mt + 1); for (int i = 0; i < n; i++) t[i] = mc_choose(na);
    conv<char>(p, m, t, n, "char"); if (uc) conv<unsigned char>(p, m, t, n, "unsigned char"); if (uc && m <= 2 && n <= 4) conv<unsigned short>(p, m, t, n, "unsigned short");
}
// periodic patterns around the word size, one place changed in pattern and text
static void r_long(long arg)
{
    int per = 1 + mc_choose(4), m = 29 + mc_choose(8) + (mc_choose(2) ? 32 : 0), x = mc_choose(3), at = x ? mc_choose(m) : 0, y = mc_choose(4), n = m * 2 + mc_choose(3); int p[200], t[400]; (void)arg;
    for (int i = 0; i < m; i++) p[i] = i % per == 0; if (x) p[at] = x == 1 ? 1 - (p[at] != 0) : 3; for (int i = 0; i < n; i++) t[i] = i % per == 0; int b = y ? mc_choose(n / 7) * 7 : 0; if (y == 1) t[b] = 1 - t[b]; if (y == 2) t[b] = 3; if (y == 3) for (int i = 0; i < m && b + i < n; i++) t[b + i] = p[i];
    conv<char>(p, m, t, n, "char");
}
// the period-rich families turbo and good-suffix shifts are about: text = u^i v u^j, pattern a factor with one change
static void r_per(long arg)
{
    (void)arg; int lu = 1 + mc_choose(3), u[4], m, p[64], t[64], n = 0; for (int i = 0; i < lu; i++) u[i] = mc_choose(2); int a = mc_choose(4), v = mc_choose(3), b = mc_choose(5); for (int i = 0; i < a * lu; i++) t[n++] = u[i % lu]; if (v) t[n++] = v - 1; for (int i = 0; i < b * lu; i++) t[n++] = u[i % lu]; if (n < 1) return; int s = mc_choose(n); m = 1 + mc_choose(n - s); memcpy(p, t + s, m * sizeof *p); int c = mc_choose(m + 1); if (c < m) p[c] = 1 - p[c] % 2;
    int rep = mc_choose(2); if (rep && 2 * n < 64) { memcpy(t + n, t, n * sizeof *t); n *= 2; } conv<char>(p, m, t, n, "char");
}
static void r_bytes(long arg) { (void)arg; unsigned char p[3], t[8]; int c = mc_choose(256), k = mc_choose(6), d = ((const int[]){ 1, 127, 128, 255, 64, 16 })[k]; int o = (c + d) & 255; p[0] = c; p[1] = o; p[2] = c; unsigned char T[] = { (unsigned char)o, (unsigned char)c, (unsigned char)o, (unsigned char)c, (unsigned char)o, (unsigned char)c, (unsigned char)c, (unsigned char)o }; memcpy(t, T, 8); for (int m = 1; m <= 3; m++) for (int n = 0; n <= 8; n++) { check<unsigned char>(p, m, t, n, "unsigned char"); check<char>((char *)p, m, (char *)t, n, "char"); } }
#define A(na, mp, mt, uc) ((na) | (mp) << 4 | (mt) << 8 | (uc) << 13)
extern const mc_scenario mc_scenarios[] = { { "two characters, pattern to 6, text to 10", r_all, A(2, 6, 10, 0), 0, 6, 0 }, { "two characters, pattern to 8, text to 13", r_all, A(2, 8, 13, 0), 1, 9, 0 }, { "five characters, pattern to 3, text to 5, both types", r_all, A(5, 3, 5, 1), 0, 5, 0 }, { "three characters, pattern to 4, text to 7", r_all, A(3, 4, 7, 0), 0, 5, 0 }, { "three characters, pattern to 5, text to 9", r_all, A(3, 5, 9, 0), 1, 6, 0 },
    { "long patterns", r_long, 0, 0, 3, 0 }, { "powers and their factors", r_per, 0, 0, 4, 0 }, { "every character", r_bytes, 0, 0, 1, 0 }, { 0 } };
