/* C44 alignment, powers of two, bounded indexes and units of time. */
#include "mc.h"
#include <sys/time.h>
#include <time.h>
#include <type_traits>
#include "utils/typeutils.h"
#include "utils/nospec.h"
#include "utils/utils.h"
#include "fast/tmutils.h"
typedef unsigned __int128 u128; typedef __int128 s128;
static uint64_t wide(int i, int k) { uint64_t b = i == 64 ? 0 : 1ull << i; return b + (uint64_t)(int64_t)(k - 3); }      /* 2^i - 3 .. 2^i + 3 */
#define BAD(k, what, v, n, got, want) MC_ASSERT(0, k, "%s(%s%llu, %llu) is %llu, not %llu", what, (s128)(v) < 0 ? "(signed) " : "", (unsigned long long)(v), (unsigned long long)(n), (unsigned long long)(got), (unsigned long long)(want))
template <class T> static void align(T v, uint64_t n)
{   /* the nearest multiple of n above and below, when it is a T */
    u128 uv = (u128)(typename std::make_unsigned<T>::type)v, up = (uv + n - 1) / n * n, dn = uv / n * n; bool sg = (s128)v < 0; mc_op(); if (sg) { s128 sv = v; s128 d = sv - (((sv % (s128)n) + n) % (s128)n), u = d == sv ? sv : d + n; T wd = (T)d, wu = (T)u; if ((s128)wd == d && _ALIGN_DOWN(v, n) != wd) BAD("down", "_ALIGN_DOWN", v, n, _ALIGN_DOWN(v, n), wd); if ((s128)wu == u && _ALIGN_UP(v, n) != wu) BAD("up", "_ALIGN_UP", v, n, _ALIGN_UP(v, n), wu); if ((bool)_IS_ALIGNED(v, n) != (d == sv)) BAD("is", "_IS_ALIGNED", v, n, _IS_ALIGNED(v, n), d == sv); return; }
    T wd = (T)dn; if (_ALIGN_DOWN(v, n) != wd) BAD("down", "_ALIGN_DOWN", v, n, _ALIGN_DOWN(v, n), wd); if (putils::align_down<T>(v, n) != wd) BAD("t-down", "align_down", v, n, putils::align_down<T>(v, n), wd); if ((bool)_IS_ALIGNED(v, n) != (dn == uv)) BAD("is", "_IS_ALIGNED", v, n, _IS_ALIGNED(v, n), dn == uv); if (putils::is_aligned<T>(v, n) != (dn == uv)) BAD("t-is", "is_aligned", v, n, putils::is_aligned<T>(v, n), dn == uv);
    T wu = (T)up; if ((u128)wu == up && (s128)wu >= 0) { if (_ALIGN_UP(v, n) != wu) BAD("up", "_ALIGN_UP", v, n, _ALIGN_UP(v, n), wu); if (putils::align_up<T>(v, n) != wu) BAD("t-up", "align_up", v, n, putils::align_up<T>(v, n), wu); }
}
template <class T> static void pow2(T v)
{
    if (v <= 0) return; u128 uv = (u128)v, p = 1; while (p < uv) p <<= 1; mc_op(); bool is = p == uv; if ((bool)_IS_POW2(v) != is) BAD("pow2", "_IS_POW2", v, 0, _IS_POW2(v), is); T w = (T)p; if ((u128)w == p && (s128)w > 0) { if (NEXTPOW2(v) != w) BAD("next", "NEXTPOW2", v, 0, NEXTPOW2(v), w); if (putils::round_up_pow2<T>(v) != w) BAD("t-next", "round_up_pow2", v, 0, putils::round_up_pow2<T>(v), w); }
}
template <class T> static void both(T v, uint64_t n) { align<T>(v, n); pow2<T>(v); }
static void r_small(long)
{   /* every 16-bit value, 256 at a time, with every alignment */
    int hi = mc_choose(256), k = mc_choose(64); uint64_t n = 1ull << k; mc_site("alignment"); for (int lo = 0; lo < 256; lo++) { unsigned v = hi << 8 | lo; both<uint16_t>(v, n); both<int16_t>((int16_t)v, n); both<uint32_t>(v, n); both<int>(v, n); both<int>(-(int)v, n); both<uint64_t>(v, n); if (hi == 0) { both<uint8_t>(v, n); both<int8_t>((int8_t)v, n); } } mc_state(mc_mix(hi, k));
}
static void r_wide(long)
{   /* around every power of two, and sums and differences of two of them */
    int i = mc_choose(65), j = mc_choose(65); mc_site("alignment"); for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b += 3) { uint64_t s = wide(i, a), t = wide(j, b); uint64_t vs[3] = { s, s + t, s - t }; for (uint64_t v : vs) for (int k = 0; k < 64; k++) { uint64_t n = 1ull << k; both<uint64_t>(v, n); both<int64_t>((int64_t)v, n); both<uint32_t>((uint32_t)v, n); both<unsigned long long>(v, n); } } mc_state(mc_mix(i, j));
}
static void r_ptr(long)
{
    static char mem[8192]; int off = mc_choose(4096), k = mc_choose(12); uint64_t n = 1ull << k; char *p = mem + off; uintptr_t a = (uintptr_t)p, up = (a + n - 1) / n * n, dn = a / n * n; mc_op(); mc_site("alignment of pointers"); MC_ASSERT(_ALIGN_UP(p, n) == (char *)up && putils::align_up(p, n) == (char *)up, "p-up", "a pointer is aligned up to %llu wrongly", (unsigned long long)n); MC_ASSERT(_ALIGN_DOWN(p, n) == (char *)dn && putils::align_down(p, n) == (char *)dn, "p-down", "a pointer is aligned down to %llu wrongly", (unsigned long long)n); MC_ASSERT((bool)_IS_ALIGNED(p, n) == (a == dn) && putils::is_aligned(p, n) == (a == dn), "p-is", "alignment of a pointer to %llu", (unsigned long long)n); mc_state(mc_mix(off, k));
    static int calls; calls = 0; auto f = [&]() { calls++; return 5u; }; unsigned r = _ALIGN_UP(f(), 8) + _ALIGN_DOWN(f(), 8) + NEXTPOW2(f()) + _IS_POW2(f()) + _IS_ALIGNED(f(), 8); MC_ASSERT(r == 16 && calls <= 5, "once", "an argument is evaluated more than once");
}
template <class I, class S> static void nospec(I i, S s) { mc_op(); I r = array_index_nospec(i, s); I w = (s128)i >= 0 && (u128)i < (u128)s ? i : 0; MC_ASSERT(r == w, "index", "index %lld of %llu becomes %lld", (long long)i, (unsigned long long)s, (long long)r); }
static void r_index(long)
{
    int s = mc_choose(257), i0 = mc_choose(3) * 128; mc_site("array_index_nospec"); for (int i = i0; i < i0 + 128; i++) { nospec<int, int>(i, s); nospec<int, size_t>(-i, s); nospec<unsigned, unsigned>(i, s); nospec<size_t, size_t>(i, s); nospec<size_t, int>(i, s); if (i < 256) nospec<uint8_t, int>(i, s); nospec<int, size_t>(i, s); nospec<long, unsigned>(i, s); } mc_state(mc_mix(s, i0));
}
static void r_index2(long)
{
    int i = mc_choose(63), j = mc_choose(64); mc_site("array_index_nospec"); for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b++) { uint64_t s = wide(i, a), x = wide(j, b); if (s >= 1ull << 63) continue; nospec<uint64_t, uint64_t>(x, s); nospec<int64_t, uint64_t>((int64_t)x, s); } mc_state(mc_mix(i, j));
}
/* units of time: as many as fit */
template <class T> static void dur(T n)
{
    if ((s128)n < 0) return; u128 v = (u128)n, M = ~0ull; mc_op(); struct { const char *k; u128 w; uint64_t g; } t[] = { { "_Nanosecond", v, _Nanosecond(n) }, { "_Microsecond", v * 1000, _Microsecond(n) }, { "_Millisecond", v * 1000000, _Millisecond(n) }, { "_Second", v * 1000000000, _Second(n) }, { "_Minute", v * 60 * 1000000000, _Minute(n) }, { "_Hour", v * 3600 * 1000000000, _Hour(n) }, { "_USEC", v, _USEC(n) }, { "_MSEC", v * 1000, _MSEC(n) }, { "_SEC", v * 1000000, _SEC(n) } }; for (auto &x : t) if (x.w <= M) MC_ASSERT(x.w == x.g, x.k, "%s(%llu) is %llu, not %llu", x.k, (unsigned long long)n, (unsigned long long)x.g, (unsigned long long)x.w);
}
static void r_units(long)
{
    int hi = mc_choose(256); mc_site("units of time"); for (int lo = 0; lo < 256; lo++) { int v = hi << 8 | lo; dur<int>(v); dur<uint64_t>(v); dur<long>(v); dur<unsigned>(v); } mc_state(hi);
    if (hi < 65) for (int a = 0; a < 7; a++) { uint64_t v = wide(hi, a); dur<uint64_t>(v); dur<int64_t>((int64_t)v); dur<int>((int)v); dur<unsigned>((unsigned)v); for (int j = 0; j < 64; j++) { dur<uint64_t>(v + (1ull << j)); dur<uint64_t>(v / 1000 * (j + 1)); } } else if (hi < 129) { int e = hi - 65; static const uint64_t U[] = { 1000, 1000000, 1000000000, 60000000000ull, 3600000000000ull }; for (uint64_t u : U) for (int d = -2; d <= 2; d++) { dur<uint64_t>(~0ull / u + d); dur<uint64_t>((~0ull >> (e & 31)) / u + d); dur<uint64_t>((1ull << (e & 63)) / u + d); } }
}
/* the clocks, when the system's are what we say */
static int clk_on; static struct timespec ts; static struct timeval tvv; static int clk_id;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *); extern "C" int __real_gettimeofday(struct timeval *, void *);
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!clk_on) return __real_clock_gettime(c, t); clk_id = c; *t = ts; return 0; }
extern "C" int __wrap_gettimeofday(struct timeval *t, void *z) { if (!clk_on) return __real_gettimeofday(t, z); *t = tvv; return 0; }
static void r_clock(long)
{
    static const long S[] = { 0, 1, 59, 2147, 2148, 4294, 4295, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036, 10000000000 }, N[] = { 0, 1, 999, 1000, 999999, 1000000, 999999999 }; long s = S[mc_choose(13)], n = N[mc_choose(7)]; ts.tv_sec = s; ts.tv_nsec = n; tvv.tv_sec = s; tvv.tv_usec = n % 1000000; mc_site("clocks"); clk_on = 1; uint64_t a = timenow(), b = timenow_us(), c = now(); clk_on = 0; mc_op(); MC_ASSERT(a == (uint64_t)s * 1000000000ull + n, "timenow", "timenow() is %llu at %ld s and %ld ns", (unsigned long long)a, s, n); MC_ASSERT(b == (uint64_t)s * 1000000ull + tvv.tv_usec, "timenow_us", "timenow_us() is %llu at %ld s and %ld us", (unsigned long long)b, s, (long)tvv.tv_usec); MC_ASSERT(c == b, "now", "now() is %llu at %ld s and %ld us", (unsigned long long)c, s, (long)tvv.tv_usec); MC_ASSERT(clk_id == CLOCK_MONOTONIC, "steady", "timenow() is not steady"); mc_state(mc_mix(s, n));
    uint64_t p = timenow(), q = timenow(); MC_ASSERT(q >= p, "backwards", "timenow() goes backwards");
}
extern const mc_scenario mc_scenarios[] = { { "every 16-bit value", r_small, 0, 0, 1, 0 }, { "around powers of two", r_wide, 0, 0, 1, 0 }, { "pointers", r_ptr, 0, 0, 1, 0 }, { "indexes", r_index, 0, 0, 1, 0 }, { "wide indexes", r_index2, 0, 0, 1, 0 }, { "units of time", r_units, 0, 0, 1, 0 }, { "clocks", r_clock, 0, 0, 1, 0 }, { 0 } };
