/* C38 IPv4, C39 UUID/ULID, C40 getopt_long, C42 integer codecs: every input in the bounds against reference models. */
#include "mc.h"
#include <ctype.h>
#include <errno.h>

#ifdef P_C38
#include "utils/parse-ip.h"
/* octets: 1 to 3 decimal digits, at most 255 (longer runs of leading zeroes are not specified) */
static int ref_ip(const char *s, int n, uint32_t *v)
{
    uint32_t a = 0; int i = 0; for (int o = 0; o < 4; o++) { int d = 0, x = 0; while (i < n && s[i] >= '0' && s[i] <= '9' && d < 4) { x = x * 10 + s[i++] - '0'; d++; } if (!d || x > 255) return 0; if (d > 3) return -1; a = a << 8 | (uint32_t)x; if (o < 3) { if (i >= n || s[i] != '.') return 0; i++; } }
    *v = a; return i == n;
}
static int ref_ipm(const char *s, uint32_t *a, uint32_t *m)
{
    const char *sl = strchr(s, '/'); if (!sl) { *m = ~0u; return ref_ip(s, (int)strlen(s), a); } int r = ref_ip(s, (int)(sl - s), a); if (r != 1) return r; const char *q = sl + 1;
    if (strchr(q, '.')) return ref_ip(q, (int)strlen(q), m);
    int n = (int)strlen(q); unsigned z = 0; if (!n) return 0; for (int i = 0; i < n; i++) { if (!isdigit((unsigned char)q[i])) return 0; if (z < 1000) z = z * 10 + q[i] - '0'; } if (z > 32) return 0; if (n > 2) return -1; *m = z ? ~0u << (32 - z) : 0; return 1;
}
static void one(const char *t)
{
    char *s = strdup(t); uint32_t v = 0, w = 0, a = 0, m = 0, ra = 0, rm = 0; mc_site("parse_ipv4"); int x = ref_ip(s, (int)strlen(s), &w), r = parse_ipv4(&v, s); mc_op();
    if (x >= 0) { MC_ASSERT(!!r == x, "ip-ret", "\"%s\" is %s", s, r ? "accepted" : "refused"); if (r) MC_ASSERT(v == w, "ip-val", "\"%s\" is %08x", s, v); }
    mc_site("parse_ipv4_and_mask"); x = ref_ipm(s, &ra, &rm); r = parse_ipv4_and_mask(&a, &m, s); mc_op();
    if (x >= 0) { MC_ASSERT(!!r == x, "ipm-ret", "\"%s\" is %s", s, r ? "accepted" : "refused"); if (r) MC_ASSERT(a == ra && m == rm, "ipm-val", "\"%s\" is %08x mask %08x, expected %08x mask %08x", s, a, m, ra, rm); }
    free(s);
}
static void r_str(long arg) { static const char AL[] = "1.2/5 x-9\xb1+"; char s[16]; int n = mc_choose((int)(arg & 15)), na = (int)(arg >> 4 & 15); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(na)]; s[n] = 0; one(s); }
static const char *OC[] = { "0", "1", "9", "10", "99", "100", "127", "199", "200", "249", "255", "256", "260", "300", "999", "1000", "", "00", "01", "1a", "-1", "+1", " 1", "0x1", "65536", "4294967296" };
static void r_oct(long arg)
{   /* every combination of octet texts in an address, and a separator damaged */
    char s[128]; int n = arg ? 26 : 12, a = mc_choose(n), b = mc_choose(n), c = mc_choose(n), d = mc_choose(n); (void)arg; sprintf(s, "%s.%s.%s.%s", OC[a], OC[b], OC[c], OC[d]); one(s);
}
static void r_pre(long arg) { static const char *P[] = { "1.2.3.4/", "1.2.3/", "255.255.255.255/", "1.2.3.4.5/", "/", "1.2.3.4", "1.2.3.4." }; char s[200]; (void)arg; int p = mc_choose(7), k = mc_choose(4);
    if (k == 0) { int l = mc_choose(100); sprintf(s, "%s%d", P[p], l); } else if (k == 1) { int l = mc_choose(5); strcpy(s, P[p]); size_t L = strlen(s); for (int i = 0; i < l; i++) s[L + i] = "123/.0 "[mc_choose(7)]; s[L + l] = 0; }
    else if (k == 2) { int z = mc_choose(45); char c = "0192.x"[mc_choose(6)]; strcpy(s, P[p]); size_t L = strlen(s); memset(s + L, c, z); s[L + z] = 0; if (mc_choose(2)) strcat(s, "/8"); }
    else { int a = mc_choose(12), b = mc_choose(12), c = mc_choose(4) * 5, d = mc_choose(12); sprintf(s, "%s%s.%s.%s.%s", P[p], OC[a], OC[b], OC[c], OC[d]); }
    one(s);
}
static void r_long(long arg) { char s[300]; (void)arg; int z = mc_choose(260), w = mc_choose(4); char c = "1.2/x"[mc_choose(5)]; int at = w == 3 ? mc_choose(z + 1) : 0; memset(s, c, z); s[z] = 0; if (w == 1) strcat(s, ".1.1.1"); if (w == 2) { memmove(s + 8, s, z + 1); memcpy(s, "1.2.3.4/", 8); } if (w == 3) { memmove(s + at + 7, s + at, z - at + 1); memcpy(s + at, "1.2.3.4", 7); } one(s); }
static void r_fmt(long arg)
{   /* formatting parses back; every buffer size; masks to a prefix length */
    static const unsigned O[] = { 0, 1, 9, 10, 99, 100, 127, 128, 254, 255 }; (void)arg; uint32_t a = 0; for (int i = 0; i < 4; i++) a = a << 8 | O[mc_choose(10)]; char b[64], e[32]; sprintf(e, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); int L = (int)strlen(e);
    mc_site("str_ipv4"); char *q = str_ipv4(b, sizeof b, a); mc_op(); uint32_t v = ~a; MC_ASSERT(q == b && !strcmp(b, e), "fmt", "%08x is \"%s\"", a, b); MC_ASSERT(parse_ipv4(&v, b) && v == a, "fmt-back", "%08x as \"%s\" parses as %08x", a, b, v);
    for (int z = 0; z <= L + 1; z++) { char *o = malloc(z); str_ipv4(o, z, a); mc_op(); if (z) MC_ASSERT(strlen(o) < (size_t)z && !strncmp(o, e, z - 1), "fmt-size", "size %d", z); free(o); }
}
static void cidr(uint32_t m) { uint32_t c = 77; int n = -1; for (int i = 0; i <= 32; i++) if (m == (i ? ~0u << (32 - i) : 0)) n = i; mc_site("mask_to_cidr4"); int r = mask_to_cidr4(m, &c); mc_op(); MC_ASSERT(!!r == (n >= 0), "cidr-ret", "mask %08x is %s", m, r ? "accepted" : "refused"); if (r) MC_ASSERT((int)c == n, "cidr", "mask %08x is /%u", m, c); mc_state(m); }
static void r_cidr(long arg) { (void)arg; int n = mc_choose(33), a = mc_choose(33), b = a < 32 ? a + mc_choose(33 - a) : 32; uint32_t m = n ? ~0u << (32 - n) : 0; if (a < 32) m ^= 1u << a; if (b < 32 && b != a) m ^= 1u << b; cidr(m); }
static void r_cidr2(long arg) { (void)arg; int hi = mc_choose(256), at = mc_choose(4); for (unsigned lo = 0; lo < 256; lo++) { cidr((uint32_t)hi << (8 * at) | lo << (8 * ((at + 3) % 4)) | (at < 3 ? ~0u << (8 * at + 8) : 0)); cidr((uint32_t)hi << (8 * at) | lo << (8 * ((at + 1) % 4))); } }
const mc_scenario mc_scenarios[] = { { "texts, 5 characters, up to 8", r_str, 9 | 5 << 4, 0, 4, 0 }, { "texts, 11 characters, up to 5", r_str, 6 | 11 << 4, 0, 3, 0 }, { "texts, 4 characters, up to 10", r_str, 11 | 4 << 4, 1, 4, 0 }, { "octets", r_oct, 0, 0, 2, 0 }, { "octets and malformed ones", r_oct, 1, 0, 2, 0 },
    { "masks", r_pre, 0, 0, 3, 0 }, { "long texts", r_long, 0, 0, 2, 0 }, { "formatting", r_fmt, 0, 0, 2, 0 }, { "prefix lengths", r_cidr, 0, 0, 1, 0 }, { "prefix lengths, every two bytes", r_cidr2, 0, 0, 1, 0 }, { 0 } };
#endif

#ifdef P_C39
#include <sys/time.h>
#include <time.h>
#include "utils/uuid.h"
#include "utils/ulid.h"
static int ent_fail, ent_calls; static uint8_t ent[16]; static int64_t now_ms; static int now_us; static int clk_fail, clk_calls;
static void ent_fill(void *p, size_t n) { memcpy(p, ent, n < 16 ? n : 16); if (n > 16) memset((char *)p + 16, 0x77, n - 16); }
int __wrap_getentropy(void *p, size_t n) { ent_calls++; if (ent_fail) { errno = ent_fail; return -1; } ent_fill(p, n); return 0; }
ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) { (void)f; ent_calls++; if (ent_fail) { errno = ent_fail; return -1; } ent_fill(p, n); return (ssize_t)n; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; clk_calls++; if (clk_fail) { errno = EFAULT; return -1; } tv->tv_sec = now_ms / 1000; tv->tv_usec = now_ms % 1000 * 1000 + now_us; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { (void)c; clk_calls++; if (clk_fail) { errno = EFAULT; return -1; } t->tv_sec = now_ms / 1000; t->tv_nsec = (now_ms % 1000 * 1000 + now_us) * 1000; return 0; }
static void pattern(uint8_t *b)
{   /* every byte value at every place over three backgrounds, every pair of bits */
    switch (mc_choose(3)) { case 0: { memset(b, ((const int[]){ 0, 0xff, 0x5a })[mc_choose(3)], 16); b[mc_choose(16)] = (uint8_t)mc_choose(256); break; }
    case 1: { int v = mc_choose(2), i = mc_choose(128), j = i + mc_choose(128 - i); memset(b, v ? 255 : 0, 16); b[i / 8] ^= 1 << i % 8; if (j != i) b[j / 8] ^= 1 << j % 8; break; }
    default: { int k = mc_choose(256), m = mc_choose(5); for (int i = 0; i < 16; i++) b[i] = (uint8_t)(k + i * ((const int[]){ 0, 1, 17, 37, 113 })[m]); } }
}
static const char B32[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
static void uu_text(char *o, const uint8_t *b) { char *p = o; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) *p++ = '-'; p += sprintf(p, "%02X", b[i]); } }
static void ul_text(char *o, const uint8_t *b) { unsigned __int128 v = 0; for (int i = 0; i < 16; i++) v = v << 8 | b[i]; for (int i = 25; i >= 0; i--) { o[i] = B32[(int)(v & 31)]; v >>= 5; } o[26] = 0; }
static void r_round(long ul)
{
    uint8_t b[16]; pattern(b); char e[64]; (ul ? ul_text : uu_text)(e, b); int L = ul ? 26 : 36;
    for (int z = 0; z <= L + 3; z++) { char *o = malloc(z); memset(o, 0x2a, z); mc_site("%s_tostring", ul ? "ulid" : "uuid"); int r = ul ? ulid_tostring(o, z, b) : uuid_tostring(o, z, b); mc_op();
        if (z <= L) MC_ASSERT(r < 0, "to-short", "text buffer of %d gives %d", z, r); else MC_ASSERT(r == (ul ? 26 : 37) && !strcmp(o, e), "to-text", "\"%s\" (%d), expected \"%s\"", o, r, e); free(o); }
    for (int lc = 0; lc < 2; lc++) { char *s = strdup(e); if (lc) for (char *q = s; *q; q++) *q = (char)tolower((unsigned char)*q);
        for (int z = 0; z <= 18; z++) { uint8_t *o = malloc(z); memset(o, 0x2a, z); mc_site("%s_fromstring", ul ? "ulid" : "uuid"); int r = ul ? ulid_fromstring(o, z, s) : uuid_fromstring(o, z, s); mc_op();
            if (z < 16) MC_ASSERT(r < 0, "from-short", "buffer of %d gives %d", z, r); else { MC_ASSERT(r == 16 && !memcmp(o, b, 16), "from-val", "\"%s\" (%d) does not give its bits back", s, r); for (int i = 16; i < z; i++) MC_ASSERT(o[i] == 0x2a, "from-over", "byte %d written", i); } free(o); } free(s); }
    mc_state(mc_hash(ul, b, 16));
}
static int ref_ul(const char *s, uint8_t *b) { if (strlen(s) != 26) return 0; unsigned __int128 v = 0; for (int i = 0; i < 26; i++) { const char *q = s[i] ? strchr(B32, toupper((unsigned char)s[i])) : 0; if (!q || (i == 0 && q - B32 > 7)) return 0; v = v << 5 | (unsigned)(q - B32); } for (int i = 15; i >= 0; i--) { b[i] = (uint8_t)v; v >>= 8; } return 1; }
/* dashes in other places are not specified: -1 */
static int ref_uu(const char *s, uint8_t *b) { if (strlen(s) != 36) return 0; int n = 0, odd = 0; for (int i = 0; i < 36; i++) { int c = (unsigned char)s[i]; if (c == '-') { odd |= !(i == 8 || i == 13 || i == 18 || i == 23); continue; } if (!isxdigit(c)) return 0; if (n < 32) { int d = isdigit(c) ? c - '0' : tolower(c) - 'a' + 10; if (n & 1) b[n / 2] |= d; else b[n / 2] = (uint8_t)(d << 4); } n++; } return n != 32 ? 0 : odd ? -1 : 1; }
static void dev(const char *t, long ul)
{
    char *s = strdup(t); uint8_t w[16] = { 0 }, *o = malloc(16); mc_site("%s_fromstring", ul ? "ulid" : "uuid"); int x = ul ? ref_ul(s, w) : ref_uu(s, w), r = ul ? ulid_fromstring(o, 16, s) : uuid_fromstring(o, 16, s); mc_op();
    if (x >= 0) MC_ASSERT(x ? r == 16 && !memcmp(o, w, 16) : r < 0, "dev", "\"%s\" gives %d%s", s, r, x ? ", expected its bits" : "");
    free(s); free(o); mc_state(mc_hash(ul, t, strlen(t)));
}
static const char *BASE[2][2] = { { "01234567-89AB-cdef-FEDC-ba9876543210", "ffffffff-FFFF-ffff-FFFF-ffffffffffff" }, { "0123456789ABCDEFGHJKMNPQRS", "7ZZZZZZZZZzzzzzzzzzZZZZZZZ" } };
static void r_dev1(long ul) { char s[64]; strcpy(s, BASE[ul][mc_choose(2)]); int i = mc_choose((int)strlen(s)); s[i] = (char)(1 + mc_choose(255)); dev(s, ul); }
static void r_dev2(long ul) { static const char C[] = "-0Ff gGiIuUz:@`\xff" "8o"; char s[64]; strcpy(s, BASE[ul][0]); int n = (int)strlen(s), i = mc_choose(n), j = mc_choose(n); s[i] = C[mc_choose(18)]; s[j] = C[mc_choose(18)]; dev(s, ul); }
static void r_len(long ul) { char s[128]; const char *b = BASE[ul][0]; int n = mc_choose(80); int k = mc_choose(3); for (int i = 0; i < n; i++) s[i] = k == 0 ? b[i % (ul ? 26 : 36)] : k == 1 ? '0' : '-'; s[n] = 0; dev(s, ul); }
static void r_cut(long ul) { char s[128]; strcpy(s, BASE[ul][mc_choose(2)]); int n = (int)strlen(s), i = mc_choose(n + 1), d = mc_choose(3); if (d == 0) memmove(s + i, s + i + (i < n), n - i + 1); else { memmove(s + i + d, s + i, n - i + 1); memset(s + i, '0', d); } dev(s, ul); }
static void r_gen(long ul)
{
    int z = mc_choose(20); ent_fail = ((const int[]){ 0, EIO, ENOSYS })[mc_choose(3)]; clk_fail = ul ? mc_choose(2) : 0; pattern(ent);
    static const int64_t T[] = { 0, 1, 999, 1000, 1001, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 1700000000123ll, 4102444800000ll, 0xffffffffffffll, 0x123456789abcll, 4294967296999ll };
    if (z == 16) { now_ms = T[ul ? mc_choose(14) : 0]; now_us = ul ? ((const int[]){ 0, 1, 999 })[mc_choose(3)] : 0; } else { now_ms = 1700000000123ll; now_us = 5; }
    ent_calls = clk_calls = 0; uint8_t *o = malloc(z); memset(o, 0x2a, z); mc_site("%s_generate", ul ? "ulid" : "uuid"); int r = ul ? ulid_generate(o, z) : uuid_generate(o, z); mc_op();
    if (z < 16) MC_ASSERT(r < 0, "gen-short", "buffer of %d gives %d", z, r); else if (clk_fail && clk_calls) MC_ASSERT(r < 0, "gen-clock", "clock failure gives %d", r); else if (ent_fail) MC_ASSERT(r < 0, "gen-entropy", "random source failure (errno %d) gives %d", ent_fail, r);
    else { MC_ASSERT(r == 16, "gen-ret", "returns %d", r); for (int i = 16; i < z; i++) MC_ASSERT(o[i] == 0x2a, "gen-over", "byte %d written", i);
        if (!ul) { MC_ASSERT((o[6] & 0xf0) == 0x40, "gen-version", "version byte %02x", o[6]); MC_ASSERT((o[8] & 0xc0) == 0x80, "gen-variant", "variant byte %02x", o[8]); for (int i = 0; i < 16; i++) { int m = i == 6 ? 0x0f : i == 8 ? 0x3f : 0xff; MC_ASSERT((o[i] & m) == (ent[i] & m), "gen-random", "byte %d is not the random one", i); } }
        else { uint64_t t = 0; for (int i = 0; i < 6; i++) t = t << 8 | o[i]; MC_ASSERT(t == (uint64_t)(now_ms & 0xffffffffffffll), "gen-time", "timestamp %llx, expected %llx", (unsigned long long)t, (unsigned long long)now_ms); MC_ASSERT(!memcmp(o + 6, ent, 10), "gen-random", "random part differs"); } }
    free(o);
}
static void r_order(long arg) { (void)arg; char a[64], b[64]; uint8_t x[16], y[16]; ent_fail = clk_fail = 0; int i = mc_choose(48), j = mc_choose(48), d1 = mc_choose(3) - 1, d2 = mc_choose(3) - 1; int64_t t1 = (1ll << i) + d1, t2 = (1ll << j) + d2; now_us = 0; memset(ent, 0xff, 16); now_ms = t1; ulid_generate(x, 16); memset(ent, 0, 16); now_ms = t2; ulid_generate(y, 16); mc_ops(2); ulid_tostring(a, 64, x); ulid_tostring(b, 64, y); if (t1 < t2) MC_ASSERT(strcmp(a, b) < 0, "order", "%s is not before %s", a, b); if (t1 > t2) MC_ASSERT(strcmp(a, b) > 0, "order", "%s is not after %s", a, b); }
const mc_scenario mc_scenarios[] = { { "uuid round trips", r_round, 0, 0, 2, 0 }, { "ulid round trips", r_round, 1, 0, 2, 0 }, { "uuid, one character changed", r_dev1, 0, 0, 1, 0 }, { "ulid, one character changed", r_dev1, 1, 0, 1, 0 }, { "uuid, two characters changed", r_dev2, 0, 0, 1, 0 }, { "ulid, two characters changed", r_dev2, 1, 0, 1, 0 },
    { "uuid lengths", r_len, 0, 0, 1, 0 }, { "ulid lengths", r_len, 1, 0, 1, 0 }, { "uuid, a place cut or doubled", r_cut, 0, 0, 1, 0 }, { "ulid, a place cut or doubled", r_cut, 1, 0, 1, 0 }, { "uuid generation", r_gen, 0, 0, 2, 0 }, { "ulid generation", r_gen, 1, 0, 2, 0 }, { "ulid order", r_order, 0, 0, 1, 0 }, { 0 } };
#endif

#ifdef P_C40
#include <getopt.h>
#include <unistd.h>
/* the library's own parser under other names next to the C library's */
#define getopt_long pl_getopt_long
#define getopt pl_getopt
#define optarg pl_optarg
#define optind pl_optind
#define opterr pl_opterr
#define optopt pl_optopt
#define optreset pl_optreset
#include "getopt_long.c"
#undef getopt_long
#undef getopt
#undef optarg
#undef optind
#undef opterr
#undef optopt
#undef optreset
/* the C library's parser, taken from the C library itself: the library under test defines the same names */
#include <dlfcn.h>
static int (*gs)(int, char *const *, const char *);
static int (*gl)(int, char *const *, const char *, const struct option *, int *), *g_ind, *g_err, *g_opt; static char **g_arg;
static void gl_open(void)
{
    if (gl) return; void *h = dlopen("libc.so.6", RTLD_NOW | RTLD_NOLOAD); if (!h) mc_fail("harness", "no C library");
    gl = (int (*)(int, char *const *, const char *, const struct option *, int *))dlsym(h, "getopt_long"); gs = (int (*)(int, char *const *, const char *))dlsym(h, "getopt"); g_ind = dlsym(h, "optind"); g_err = dlsym(h, "opterr"); g_opt = dlsym(h, "optopt"); g_arg = dlsym(h, "optarg");
    if (!gl || !gs || !g_ind || !g_err || !g_opt || !g_arg || (void *)gl == (void *)pl_getopt_long) mc_fail("harness", "no C library parser");
}
static int fl[2];
static const struct option T1[] = { { "foo", 0, 0, 'f' }, { "foobar", 1, 0, 'F' }, { "bar", 2, 0, 'B' }, { "baz", 0, &fl[0], 7 }, { "list", 1, &fl[1], 9 }, { 0, 0, 0, 0 } };
static const struct option T2[] = { { "foobar", 0, 0, 1000 }, { "foobaz", 1, 0, 1001 }, { "foo", 2, 0, 1002 }, { "a", 0, 0, 1003 }, { "ab", 1, 0, 1004 }, { 0, 0, 0, 0 } };
static const struct option T3[] = { { "a", 1, 0, 2000 }, { 0, 0, 0, 0 } };
static const struct option T0[] = { { 0, 0, 0, 0 } };
static const struct option *TT[] = { T1, T2, T3, T0 };
static const char *SO[] = { "ab:c::", "+ab:c::", "-ab:c::", ":ab:c::", "+:ab:", "-:ab:", "", "ab:W;" };
static const char *AR[] = { "x", "-a", "--", "-b", "-bv", "--foo", "--foobar", "--foobar=v", "--ba", "-c", "-cv", "-ab", "-", "--fo", "--bar", "--bar=", "--baz", "--list=q", "--foo=v", "--x", "-z", "-za", "y", "-a-", "--a", "--=v", "-W", "foo", "-Wfoo=v", "--foob", "-ac", "-abv", "" };
static void put_err(FILE **f, char **b, size_t *n) { *f = open_memstream(b, n); }
static void parse(int so, int tb, int n, const int *w, int px, int again)
{
    /* each run gets its own exact argument array with nothing after the last argument readable as one */
    char *A[2][12]; static char *junk = "--junk"; int ret[2][24], len[2] = { 0, 0 }, fin[2]; int li[2][24], flv[2][24][2], oo[2][24], msg[2][24]; char *oa[2][24];
    gl_open(); setenv("POSIXLY_CORRECT", "1", 1); if (!px) unsetenv("POSIXLY_CORRECT");
    for (int v = 0; v < 2; v++) {
        A[v][0] = "prog"; for (int i = 0; i < n; i++) A[v][i + 1] = (char *)AR[w[i]]; A[v][n + 1] = again & 2 ? junk : 0; fl[0] = fl[1] = 0; int argc = n + 1;
        FILE *f, *save = stderr; char *eb = 0; size_t en = 0, last = 0; put_err(&f, &eb, &en); stderr = f;
        if (again & 1) { /* an earlier scan that was given up half way */ char *Z[] = { "prog", "q", "-aa", "r", "-a", 0 }; if (v) { pl_optind = 0; pl_opterr = 0; pl_getopt_long(5, Z, "a", T0, 0); } else { *g_ind = 0; *g_err = 0; gl(5, Z, "a", T0, 0); } }
        if (v) { pl_optind = 0; pl_opterr = 1; } else { *g_ind = 0; *g_err = 1; }
        for (;;) {
            int idx = -7; mc_site("getopt_long"); int r = tb == 9 ? v ? pl_getopt(argc, A[v], SO[so]) : gs(argc, A[v], SO[so]) : v ? pl_getopt_long(argc, A[v], SO[so], TT[tb], &idx) : gl(argc, A[v], SO[so], TT[tb], &idx); if (v) mc_op(); fflush(f); int k = len[v];
            ret[v][k] = r; oa[v][k] = v ? pl_optarg : *g_arg; li[v][k] = idx; flv[v][k][0] = fl[0]; flv[v][k][1] = fl[1]; oo[v][k] = v ? pl_optopt : *g_opt; msg[v][k] = en > last; last = en; len[v]++;
            if (r == -1) break; MC_ASSERT(k < 22, "endless", "more results than arguments allow");
        }
        fin[v] = v ? pl_optind : *g_ind; stderr = save; fclose(f); free(eb);
    }
    char d[400]; int L = 0; for (int i = 0; i < n; i++) L += sprintf(d + L, " %s", AR[w[i]]); d[L] = 0;
#define CTX "\"%s\" table %d%s:%s"
#define CTV SO[so], tb, px ? " posix" : "", d
    for (int k = 0; k < len[0] && k < len[1]; k++) {
        int a = ret[0][k], b = ret[1][k];
        int ea = a == '?' || a == ':', eb = b == '?' || b == ':';
        MC_ASSERT(a == b || (ea && eb && a == '?'), "ret", CTX ": result %d is %d, expected %d", CTV, k, b, a);
        if (!ea && a != -1) { MC_ASSERT((oa[0][k] == 0) == (oa[1][k] == 0) && (!oa[0][k] || !strcmp(oa[0][k], oa[1][k])), "arg", CTX ": argument %d is %s, expected %s", CTV, k, oa[1][k] ? oa[1][k] : "none", oa[0][k] ? oa[0][k] : "none"); MC_ASSERT(li[0][k] == li[1][k], "index", CTX ": index %d is %d, expected %d", CTV, k, li[1][k], li[0][k]); }
        MC_ASSERT(flv[0][k][0] == flv[1][k][0] && flv[0][k][1] == flv[1][k][1], "flag", CTX ": flags differ at %d", CTV, k);
        MC_ASSERT(msg[0][k] == msg[1][k], "message", CTX ": result %d %s a message", CTV, k, msg[1][k] ? "printed" : "did not print");
        if (ea && oo[0][k] > 0 && oo[0][k] < 128) MC_ASSERT(oo[0][k] == oo[1][k], "optopt", CTX ": option in error %d, expected %d", CTV, oo[1][k], oo[0][k]);
    }
    MC_ASSERT(len[0] == len[1], "count", CTX ": %d results, expected %d", CTV, len[1], len[0]);
    MC_ASSERT(fin[0] == fin[1], "optind", CTX ": operands start at %d, expected %d", CTV, fin[1], fin[0]);
    for (int i = 0; i <= n; i++) MC_ASSERT(!strcmp(A[0][i], A[1][i]), "order", CTX ": argument %d is %s, expected %s", CTV, i, A[1][i], A[0][i]);
    MC_ASSERT(A[1][n + 1] == (again & 2 ? junk : 0), "order", CTX ": place after the arguments changed", CTV);
    mc_state(mc_hash(so * 8 + tb, d, L));
}
static void r_opt(long arg)
{
    static const int SUB[2][12] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22 }, { 0, 1, 3, 11, 13, 14, 19, 24, 26, 27, 28, 2 } };
    int na = (int)(arg & 255), mx = (int)(arg >> 8 & 15), set = (int)(arg >> 12 & 3), nso = (int)(arg >> 16 & 15), ntb = (int)(arg >> 20 & 15), w[8], so = mc_choose(nso), tb = mc_choose(ntb), px = SO[so][0] == '-' ? 0 /* the code says it differs from the C library there */ : mc_choose(2), n = mc_choose(mx + 1);
    for (int i = 0; i < n; i++) { int c = mc_choose(na); w[i] = set == 2 ? c : SUB[set][c]; }
    if (n > 1) { int all = 1; for (int i = 0; i < n; i++) if (w[i] != 0 && w[i] != 22) all = 0; if (all) mc_trivial(); }
    for (int ag = 0; ag < (n <= 2 ? 4 : 1); ag++) parse(so, tb, n, w, px, n <= 2 ? ag : n & 1);
}
/* the short-option parser; it has no long options, so words that begin with two dashes are left out except the end marker */
static void r_short(long arg)
{
    static const int W[] = { 0, 1, 2, 3, 4, 9, 10, 11, 12, 20, 21, 22, 23, 30, 31, 32 }; int mx = (int)arg, w[8], so = mc_choose(7), px = SO[so][0] == '-' ? 0 : mc_choose(2), n = mc_choose(mx + 1);
    for (int i = 0; i < n; i++) w[i] = W[mc_choose(16)];
    for (int ag = 0; ag < (n <= 2 ? 4 : 1); ag++) parse(so, 9, n, w, px, n <= 2 ? ag : n & 1);
}
#define OP(na, mx, set, nso, ntb) ((na) | (mx) << 8 | (set) << 12 | (nso) << 16 | (ntb) << 20)
const mc_scenario mc_scenarios[] = { { "33 words, up to 2, every table", r_opt, OP(33, 2, 2, 8, 4), 0, 5, 0 }, { "33 words, up to 3", r_opt, OP(33, 3, 2, 8, 2), 1, 5, 0 }, { "12 words, up to 3, every table", r_opt, OP(12, 3, 0, 8, 4), 0, 5, 0 }, { "12 other words, up to 3", r_opt, OP(12, 3, 1, 8, 4), 0, 5, 0 }, { "5 words, up to 6", r_opt, OP(5, 6, 0, 4, 1), 0, 5, 0 }, { "12 words, up to 4", r_opt, OP(12, 4, 0, 8, 2), 1, 5, 0 }, { "short options only, up to 4", r_short, 4, 0, 5, 0 }, { "short options only, up to 5", r_short, 5, 1, 5, 0 }, { 0 } };
#endif

#ifdef P_C42
#include "fast/encdec.h"
#include "fast/byteorder.h"
static void chk(uint64_t v, int off)
{
    for (int w = 2; w <= 9; w = w == 8 ? 9 : w * 2) for (int be = 0; be < 2; be++) {
        int n = w == 9 ? 8 : w; uint8_t *blk = malloc(off + n), *p = blk + off; uint64_t x = n == 8 ? v : v & ((1ull << 8 * n) - 1); uint8_t e[8]; for (int i = 0; i < n; i++) e[i] = (uint8_t)(x >> 8 * (be ? n - 1 - i : i)); memset(blk, 0x2a, off + n); double d, d2; memcpy(&d, &v, 8); uint8_t *q = 0; uint64_t y = 0;
        mc_site("encode/decode %d %s", w, be ? "big" : "little");
        switch (w * 2 + be) {
            case 4: q = enc_LE_u16(p, (uint16_t)x); y = dec_LE_u16(e); break; case 5: q = enc_BE_u16(p, (uint16_t)x); y = dec_BE_u16(e); break;
            case 8: q = enc_LE_u32(p, (uint32_t)x); y = dec_LE_u32(e); break; case 9: q = enc_BE_u32(p, (uint32_t)x); y = dec_BE_u32(e); break;
            case 16: q = enc_LE_u64(p, x); y = dec_LE_u64(e); break; case 17: q = enc_BE_u64(p, x); y = dec_BE_u64(e); break;
            case 18: if (d != d) { q = p + 8; memcpy(p, e, 8); y = x; break; } q = enc_LE_float64(p, d); d2 = dec_LE_float64(e); memcpy(&y, &d2, 8); break; case 19: if (d != d) { q = p + 8; memcpy(p, e, 8); y = x; break; } q = enc_BE_float64(p, d); d2 = dec_BE_float64(e); memcpy(&y, &d2, 8); break;
        }
        mc_ops(2); MC_ASSERT(q == p + n, "advance", "width %d moves by %d", n, (int)(q - p)); MC_ASSERT(!memcmp(p, e, n), "bytes", "%llx in %d bytes, %s endian", (unsigned long long)x, n, be ? "big" : "little"); MC_ASSERT(y == x, "decode", "%llx decodes as %llx", (unsigned long long)x, (unsigned long long)y); for (int i = 0; i < off; i++) MC_ASSERT(blk[i] == 0x2a, "over", "byte before the value written"); free(blk);
    }
    mc_site("swap"); volatile uint16_t a = (uint16_t)v; volatile uint32_t b = (uint32_t)v; volatile uint64_t c = v;
    MC_ASSERT(__swab16(a) == __builtin_bswap16(a) && __swab16(__swab16(a)) == a, "swap", "swap of %x", a); MC_ASSERT(__swab32(b) == __builtin_bswap32(b), "swap", "swap of %x", b); MC_ASSERT(__swab64(c) == __builtin_bswap64(c), "swap", "swap of %llx", (unsigned long long)c);
    MC_ASSERT(__constant_swab16(a) == __builtin_bswap16(a) && __constant_swab32(b) == __builtin_bswap32(b) && __constant_swab64(c) == __builtin_bswap64(c), "swap-const", "constant swap of %llx", (unsigned long long)c);
    MC_ASSERT(htonll(c) == __builtin_bswap64(c) && ntohll(c) == __builtin_bswap64(c) && __constant_htonl(b) == __builtin_bswap32(b) && __constant_ntohl(b) == __builtin_bswap32(b) && __constant_htons(a) == __builtin_bswap16(a) && __constant_ntohs(a) == __builtin_bswap16(a) && __constant_htonll(c) == __builtin_bswap64(c) && __constant_ntohll(c) == __builtin_bswap64(c), "net", "network order of %llx", (unsigned long long)c);
    MC_ASSERT(__cpu_to_le16(a) == a && __cpu_to_le32(b) == b && __cpu_to_le64(c) == c && __le16_to_cpu(a) == a && __le32_to_cpu(b) == b && __le64_to_cpu(c) == c, "host", "little endian of %llx", (unsigned long long)c);
    MC_ASSERT(__cpu_to_be16(a) == __builtin_bswap16(a) && __cpu_to_be32(b) == __builtin_bswap32(b) && __cpu_to_be64(c) == __builtin_bswap64(c) && __be16_to_cpu(a) == __builtin_bswap16(a) && __be32_to_cpu(b) == __builtin_bswap32(b) && __be64_to_cpu(c) == __builtin_bswap64(c), "host", "big endian of %llx", (unsigned long long)c);
    mc_ops(20); mc_state(v);
}
static void r_byte(long arg) { (void)arg; uint64_t bg = ((const uint64_t[]){ 0, ~0ull, 0x0123456789abcdefull, 0x8080808080808080ull })[mc_choose(4)]; int at = mc_choose(8), off = mc_choose(8); for (uint64_t b = 0; b < 256; b++) chk((bg & ~(255ull << 8 * at)) | b << 8 * at, off); }
static void r_bits(long arg) { (void)arg; int i = mc_choose(64), j = mc_choose(64), o = mc_choose(3); chk(o == 0 ? 1ull << i | 1ull << j : o == 1 ? ~(1ull << i | 1ull << j) : (1ull << i) - (1ull << j), 3); }
static void r_16(long arg) { (void)arg; int hi = mc_choose(256); for (int lo = 0; lo < 256; lo++) chk((uint64_t)hi << 8 | lo | (uint64_t)hi << 40 | (uint64_t)lo << 48, lo & 7); }
const mc_scenario mc_scenarios[] = { { "every byte at every place and alignment", r_byte, 0, 0, 2, 0 }, { "every pair of bits", r_bits, 0, 0, 1, 0 }, { "every 16-bit value", r_16, 0, 0, 1, 0 }, { 0 } };
#endif
