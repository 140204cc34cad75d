/* C55: every hash function against an independent reference, at every length, alignment and split */
#define _GNU_SOURCE 1
#include "mc.h"
#include <stdlib.h>
#include "utils/hashfunc.h"
#include "utils/siphash.h"
#include "utils/xxhash.h"

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
typedef struct { u64 a, b; } val;                 /* up to 128 bits */
static u64 le(const u8 *p, int n) { u64 v = 0; while (n--) v = v << 8 | p[n]; return v; }
static u32 rl(u32 x, int r) { return x << r | x >> (32 - r); }
static u64 rL(u64 x, int r) { return x << r | x >> (64 - r); }
static u64 rR(u64 x, int r) { return r ? x >> r | x << (64 - r) : x; }

/* SipHash-2-4 on the padded message */
static void sround(u64 *v)
{
    v[0] += v[1]; v[1] = rL(v[1], 13) ^ v[0]; v[0] = rL(v[0], 32);
    v[2] += v[3]; v[3] = rL(v[3], 16) ^ v[2];
    v[0] += v[3]; v[3] = rL(v[3], 21) ^ v[0];
    v[2] += v[1]; v[1] = rL(v[1], 17) ^ v[2]; v[2] = rL(v[2], 32);
}
static u64 r_sip(const u8 *p, size_t n, u64 k0, u64 k1)
{
    u64 v[4] = { k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull };
    for (size_t i = 0; i <= n / 8; i++) {
        u64 m = i < n / 8 ? le(p + 8 * i, 8) : le(p + 8 * i, n % 8) | (u64)n << 56;
        v[3] ^= m; sround(v); sround(v); v[0] ^= m;
    }
    v[2] ^= 0xff; for (int i = 0; i < 4; i++) sround(v);
    return v[0] ^ v[1] ^ v[2] ^ v[3];
}
/* MurmurHash3 */
static u32 fm(u32 h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
static u64 fM(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ h >> 33; }
static u32 r_m32(const u8 *p, size_t n, u32 h)
{
    for (size_t i = 0; i < n; i += 4) {
        int full = n - i >= 4; u32 k = le(p + i, full ? 4 : n - i);
        h ^= rl(k * 0xcc9e2d51u, 15) * 0x1b873593u;
        if (full) h = rl(h, 13) * 5 + 0xe6546b64u;
    }
    return fm(h ^ (u32)n);
}
static val r_m128(const u8 *p, size_t n, u32 seed)
{
    static const u32 c[5] = { 0x239b961bu, 0xab0e9789u, 0x38b34ae5u, 0xa1e38b93u, 0x239b961bu }, add[4] = { 0x561ccd1bu, 0x0bcaa747u, 0x96cd1c35u, 0x32ac3b17u };
    static const int r1[4] = { 15, 16, 17, 18 }, r2[4] = { 19, 17, 15, 13 };
    u32 h[4] = { seed, seed, seed, seed };
    for (size_t i = 0; i < n; i += 16) {
        u8 b[16] = { 0 }; int full = n - i >= 16; memcpy(b, p + i, full ? 16 : n - i);
        for (int j = 0; j < 4; j++) {
            h[j] ^= rl((u32)le(b + 4 * j, 4) * c[j], r1[j]) * c[j + 1];
            if (full) h[j] = (rl(h[j], r2[j]) + h[(j + 1) % 4]) * 5 + add[j];
        }
    }
    for (int j = 0; j < 4; j++) h[j] ^= (u32)n;
    for (int k = 0; k < 2; k++) {
        h[0] += h[1] + h[2] + h[3]; for (int j = 1; j < 4; j++) h[j] += h[0];
        if (!k) for (int j = 0; j < 4; j++) h[j] = fm(h[j]);
    }
    return (val){ (u64)h[0] << 32 | h[1], (u64)h[2] << 32 | h[3] };
}
static val r_m64(const u8 *p, size_t n, u32 seed)
{
    u64 c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full, h1 = seed, h2 = seed;
    for (size_t i = 0; i < n; i += 16) {
        u8 b[16] = { 0 }; int full = n - i >= 16; memcpy(b, p + i, full ? 16 : n - i);
        h1 ^= rL(le(b, 8) * c1, 31) * c2; if (full) h1 = (rL(h1, 27) + h2) * 5 + 0x52dce729u;
        h2 ^= rL(le(b + 8, 8) * c2, 33) * c1; if (full) h2 = (rL(h2, 31) + h1) * 5 + 0x38495ab5u;
    }
    h1 ^= n; h2 ^= n; h1 += h2; h2 += h1; h1 = fM(h1); h2 = fM(h2); h1 += h2; h2 += h1;
    return (val){ h1, h2 };
}
/* fasthash */
static u64 fmx(u64 h) { h ^= h >> 23; h *= 0x2127599bf4325c37ull; return h ^ h >> 47; }
static u64 r_fast(const u8 *p, size_t n, u64 seed)
{
    u64 m = 0x880355f21e6d1965ull, h = seed ^ n * m;
    for (size_t i = 0; i < n; i += 8) h = (h ^ fmx(le(p + i, n - i < 8 ? n - i : 8))) * m;
    return fmx(h);
}
static u64 r_fnv(const u8 *p, size_t n, int w) { u64 h = w ? 0xcbf29ce484222325ull : 0x811c9dc5u; while (n--) { h = (h ^ *p++) * (w ? 0x100000001b3ull : 0x01000193u); if (!w) h = (u32)h; } return h; }
/* SuperFastHash */
static u32 r_hsieh(const u8 *p, size_t n, u32 h)
{
    if (!n) return 0;
    for (; n >= 4; n -= 4, p += 4) { h += le(p, 2); h = h << 16 ^ ((u32)le(p + 2, 2) << 11 ^ h); h += h >> 11; }
    if (n == 3) { h += le(p, 2); h ^= h << 16; h ^= (u32)(int)(signed char)p[2] << 18; h += h >> 11; }
    if (n == 2) { h += le(p, 2); h ^= h << 11; h += h >> 17; }
    if (n == 1) { h += (u32)(int)(signed char)*p; h ^= h << 10; h += h >> 1; }
    h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; return h + (h >> 6);
}
/* CityHash 1.0 */
#define K0 0xc3a5c85c97cb3127ull
#define K1 0xb492b66fbe98f273ull
#define K2 0x9ae16a3b2f90404full
#define K3 0xc949d7c7509e6557ull
#define F(i) le((i), 8)
static u64 sm(u64 v) { return v ^ v >> 47; }
static u64 h16(u64 u, u64 v) { u64 k = 0x9ddfea08eb382d69ull; return sm((v ^ sm((u ^ v) * k)) * k) * k; }
static u64 c16(const u8 *s, size_t n)
{
    if (n > 8) { u64 b = F(s + n - 8); return h16(F(s), rR(b + n, n)) ^ b; }
    if (n >= 4) return h16(n + (le(s, 4) << 3), le(s + n - 4, 4));
    if (n) { u32 y = s[0] + ((u32)s[n >> 1] << 8), z = n + ((u32)s[n - 1] << 2); return sm(y * K2 ^ z * K3) * K2; }
    return K2;
}
static val weak(const u8 *s, u64 a, u64 b)
{
    u64 w = F(s), x = F(s + 8), y = F(s + 16), z = F(s + 24), c;
    a += w; b = rR(b + a + z, 21); c = a; a += x + y; b += rR(a, 44); return (val){ a + z, b + c };
}
typedef struct { u64 x, y, z; val v, w; } cst;
static void cstep(cst *t, const u8 *s)
{
    u64 q;
    t->x = rR(t->x + t->y + t->v.a + F(s + 8), 37) * K1; t->y = rR(t->y + t->v.b + F(s + 48), 42) * K1;
    t->x ^= t->w.b; t->y += t->v.a + F(s + 40); t->z = rR(t->z + t->w.a, 33) * K1;
    t->v = weak(s, t->v.b * K1, t->x + t->w.a); t->w = weak(s + 32, t->z + t->w.b, t->y + F(s + 16));
    q = t->z; t->z = t->x; t->x = q;
}
static u64 c64(const u8 *s, size_t n)
{
    if (n <= 16) return c16(s, n);
    if (n <= 32) { u64 a = F(s) * K1, b = F(s + 8), c = F(s + n - 8) * K2, d = F(s + n - 16) * K0; return h16(rR(a - b, 43) + rR(c, 30) + d, a + rR(b ^ K3, 20) - c + n); }
    if (n <= 64) {
        u64 r[2][2];
        for (int k = 0; k < 2; k++) {        /* the two halves, from the front and from the end */
            const u8 *q = k ? s + n - 32 : s;
            u64 a = k ? F(s + 16) + F(q) : F(q) + (n + F(s + n - 16)) * K0, z = F(q + 24), b = rR(a + z, 52), c = rR(a, 37);
            a += F(q + 8); c += rR(a, 7); a += F(q + 16); r[k][0] = a + z; r[k][1] = b + rR(a, 31) + c;
        }
        return sm(sm((r[0][0] + r[1][1]) * K2 + (r[1][0] + r[0][1]) * K0) * K0 + r[0][1]) * K2;
    }
    cst t; t.x = F(s + n - 40); t.y = F(s + n - 16) + F(s + n - 56); t.z = h16(F(s + n - 48) + n, F(s + n - 24));
    t.v = weak(s + n - 64, n, t.z); t.w = weak(s + n - 32, t.y + K1, t.x); t.x = t.x * K1 + F(s);
    for (size_t i = 0; i + 1 <= (n - 1) / 64; i++) cstep(&t, s + 64 * i);
    return h16(h16(t.v.a, t.w.a) + sm(t.y) * K1 + t.z, h16(t.v.b, t.w.b) + t.x);
}
static u64 r_city(const u8 *s, size_t n, u64 seed) { return seed ? h16(c64(s, n) - K2, seed) : c64(s, n); }
static val c128s(const u8 *s, size_t n, u64 lo, u64 hi)
{
    if (n < 128) {
        u64 a = lo, b = hi, c, d;
        if (n <= 16) { a = sm(a * K1) * K1; c = b * K1 + c16(s, n); d = sm(a + (n >= 8 ? F(s) : c)); }
        else {
            c = h16(F(s + n - 8) + K1, a); d = h16(b + n, c + F(s + n - 16)); a += d;
            for (size_t i = 0; i + 16 < n; i += 16) { a = (a ^ sm(F(s + i) * K1) * K1) * K1; b ^= a; c = (c ^ sm(F(s + i + 8) * K1) * K1) * K1; d ^= c; }
        }
        a = h16(a, c); b = h16(d, b); return (val){ a ^ b, h16(b, a) };
    }
    cst t; t.x = lo; t.y = hi; t.z = n * K1; t.v.a = rR(hi ^ K1, 49) * K1 + F(s); t.v.b = rR(t.v.a, 42) * K1 + F(s + 8);
    t.w.a = rR(hi + t.z, 35) * K1 + lo; t.w.b = rR(lo + F(s + 88), 53) * K1;
    const u8 *e = s + n; size_t rest = n % 128;
    for (size_t i = 0; i < n / 128 * 2; i++) cstep(&t, s + 64 * i);
    t.x += rR(t.v.a + t.z, 49) * K0; t.z += rR(t.w.a, 37) * K0;
    for (size_t k = 1; k <= (rest + 31) / 32; k++) {
        const u8 *q = e - 32 * k;
        t.y = rR(t.x + t.y, 42) * K0 + t.v.b; t.w.a += F(q + 16); t.x = t.x * K0 + t.w.a; t.z += t.w.b + F(q); t.w.b += t.v.a; t.v = weak(q, t.v.a + t.z, t.v.b);
    }
    t.x = h16(t.x, t.v.a); t.y = h16(t.y + t.z, t.w.a);
    return (val){ h16(t.x + t.v.b, t.w.b) + t.y, h16(t.x + t.w.b, t.y + t.v.b) };
}
static val r_city128(const u8 *s, size_t n, u64 lo, u64 hi)
{
    if (lo || hi) return c128s(s, n, lo, hi);
    if (n >= 16) return c128s(s + 16, n - 16, F(s) ^ K3, F(s + 8));
    if (n >= 8) return c128s(0, 0, F(s) ^ n * K0, F(s + n - 8) ^ K1);
    return c128s(s, n, K0, K1);
}
/* xxHash */
static const u64 X[2][6] = { { 0, 2654435761u, 2246822519u, 3266489917u, 668265263u, 374761393u },
    { 0, 11400714785074694791ull, 14029467366897019727ull, 1609587929392839161ull, 9650029242287828579ull, 2870177450012600261ull } };
static u32 r_x32(const u8 *p, size_t n, u32 seed)
{
    u32 P1 = X[0][1], P2 = X[0][2], P3 = X[0][3], P4 = X[0][4], P5 = X[0][5], h; size_t i = 0;
    if (n >= 16) {
        u32 v[4] = { seed + P1 + P2, seed + P2, seed, seed - P1 };
        for (; i + 16 <= n; i += 16) for (int k = 0; k < 4; k++) v[k] = rl(v[k] + (u32)le(p + i + 4 * k, 4) * P2, 13) * P1;
        h = rl(v[0], 1) + rl(v[1], 7) + rl(v[2], 12) + rl(v[3], 18);
    } else h = seed + P5;
    h += (u32)n;
    for (; i + 4 <= n; i += 4) h = rl(h + (u32)le(p + i, 4) * P3, 17) * P4;
    for (; i < n; i++) h = rl(h + p[i] * P5, 11) * P1;
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; return h ^ h >> 16;
}
static u64 r_x64(const u8 *p, size_t n, u64 seed)
{
    u64 P1 = X[1][1], P2 = X[1][2], P3 = X[1][3], P4 = X[1][4], P5 = X[1][5], h; size_t i = 0;
    if (n >= 32) {
        u64 v[4] = { seed + P1 + P2, seed + P2, seed, seed - P1 };
        for (; i + 32 <= n; i += 32) for (int k = 0; k < 4; k++) v[k] = rL(v[k] + le(p + i + 8 * k, 8) * P2, 31) * P1;
        h = rL(v[0], 1) + rL(v[1], 7) + rL(v[2], 12) + rL(v[3], 18);
        for (int k = 0; k < 4; k++) h = (h ^ rL(v[k] * P2, 31) * P1) * P1 + P4;
    } else h = seed + P5;
    h += n;
    for (; i + 8 <= n; i += 8) h = rL(h ^ rL(le(p + i, 8) * P2, 31) * P1, 27) * P1 + P4;
    if (i + 4 <= n) { h = rL(h ^ le(p + i, 4) * P1, 23) * P2 + P3; i += 4; }
    for (; i < n; i++) h = rL(h ^ p[i] * P5, 11) * P1;
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; return h ^ h >> 32;
}
/* the repository's own variant of FNV1A-Yorikke */
static u32 r_york(const u8 *p, size_t n, u32 seed)
{
    u32 Y = 709607, h = seed ? seed : 2166136261u, g = h; u64 a, b;
    for (; n >= 32; n -= 32, p += 32)
        for (int k = 0; k < 2; k++) { a = le(p + 8 * k, 8); b = le(p + 8 * k + 4, 8); u32 *q = k ? &g : &h; *q = (u32)((*q ^ (u32)((a << 5 | a >> 27) ^ b)) * Y); }
    if (n & 16) { h = (h ^ (u32)le(p, 4)) * Y; g = (g ^ (u32)le(p + 4, 4)) * Y; p += 16; }
    if (n & 8) { h = (h ^ (u32)le(p, 4)) * Y; g = (g ^ (u32)le(p + 2, 4)) * Y; p += 8; }
    if (n & 4) { h = (h ^ (u32)le(p, 4)) * Y; p += 4; }
    if (n & 1) h = (h ^ *p) * Y;
    h = (h ^ rl(g, 5)) * Y; return h ^ h >> 16;
}

enum { SIP, M32, M128, M64, FAST64, FAST32, FNV32, FNV64, HSIEH, CITY, CITY128, XX32, XX64, YORK, NF };
static const char *NAME[] = { "siphash24", "murmur3_hash_32", "murmur3_hash_128", "murmur3_hash64_128", "fasthash64", "fasthash32", "fnv_hash", "fnv_hash64", "hsieh_hash", "city_hash", "city_hash_128", "XXH32", "XXH64", "yorrike_hash32" };
static const u64 SEEDS[][2] = { { 0, 0 }, { 1, 0 }, { 0xffffffffffffffffull, 0xffffffffffffffffull }, { 0, 0x8000000000000000ull }, { 0x80000000ull, 1 }, { 0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull }, { 0xdeadbeefcafebabeull, 0x123456789abcdefull } };
#define NSEED ((int)(sizeof SEEDS / sizeof *SEEDS))
static val ref(int f, const u8 *p, size_t n, const u64 *s)
{
    switch (f) {
    case SIP: return (val){ r_sip(p, n, s[0], s[1]), 0 };
    case M32: return (val){ r_m32(p, n, s[0]), 0 };
    case M128: return r_m128(p, n, s[0]);
    case M64: return r_m64(p, n, s[0]);
    case FAST64: return (val){ r_fast(p, n, s[0]), 0 };
    case FAST32: { u64 h = r_fast(p, n, (u32)s[0]); return (val){ (u32)(h - (h >> 32)), 0 }; }
    case FNV32: return (val){ r_fnv(p, n, 0), 0 };
    case FNV64: return (val){ r_fnv(p, n, 1), 0 };
    case HSIEH: return (val){ r_hsieh(p, n, s[0]), 0 };
    case CITY: return (val){ r_city(p, n, s[0]), 0 };
    case CITY128: return r_city128(p, n, s[0], s[1]);
    case XX32: return (val){ r_x32(p, n, s[0]), 0 };
    case XX64: return (val){ r_x64(p, n, s[0]), 0 };
    default: return (val){ r_york(p, n, s[0]), 0 };
    }
}
static val got(int f, const void *p, size_t n, const u64 *s)
{
    uint_128_t r;
    switch (f) {
    case SIP: return (val){ siphash24(p, n, s), 0 };
    case M32: return (val){ murmur3_hash_32(p, n, s[0]), 0 };
    case M128: r = murmur3_hash_128(p, n, s[0]); break;
    case M64: r = murmur3_hash64_128(p, n, s[0]); break;
    case FAST64: return (val){ fasthash64(p, n, s[0]), 0 };
    case FAST32: return (val){ fasthash32(p, n, s[0]), 0 };
    case FNV32: return (val){ fnv_hash(p, n, s[0]), 0 };
    case FNV64: return (val){ fnv_hash64(p, n, s[0]), 0 };
    case HSIEH: return (val){ hsieh_hash(p, n, s[0]), 0 };
    case CITY: return (val){ city_hash(p, n, s[0]), 0 };
    case CITY128: r = city_hash_128(p, n, (uint_128_t){ { s[0], s[1] } }); break;
    case XX32: return (val){ XXH32(p, n, s[0]), 0 };
    case XX64: return (val){ XXH64(p, n, s[0]), 0 };
    default: return (val){ yorrike_hash32(p, n, s[0]), 0 };
    }
    return (val){ r.v[0], r.v[1] };
}
static void cmp(int f, const u8 *p, size_t n, const u64 *s, const char *what)
{
    val a = ref(f, p, n, s), b = got(f, p, n, s);
    if (a.a != b.a || a.b != b.b)
        mc_fail("value", "%s of %zu bytes (%s, seed %llx:%llx) is %016llx:%016llx, not %016llx:%016llx", NAME[f], n, what,
                (unsigned long long)s[0], (unsigned long long)s[1], (unsigned long long)b.a, (unsigned long long)b.b, (unsigned long long)a.a, (unsigned long long)a.b);
}
static void fill(u8 *p, size_t n, int c)
{
    for (size_t i = 0; i < n; i++) p[i] = c == 0 ? 0 : c == 1 ? 0xff : c == 2 ? (u8)i : c == 3 ? 0x80 : c == 4 ? (u8)(i * 167 + 13) ^ (u8)(i * i >> 3) : (u8)(i % 7 ? 0 : 0x81);
}
/* one call for every function, length, alignment, seed and content */
static void oneshot(const void *arg)
{
    int f = mc_choose(NF), n = mc_choose((int)(intptr_t)arg + 1), al = mc_choose(8);
    u8 *m = malloc(n + al + 1), *p;
    /* the last byte of the input is the last byte of a heap block, the bytes before it differ from call to call */
    u8 *b = malloc(n + al ? n + al : 1); p = b + al; if (!(n + al)) p = b + 1;
    for (int c = 0; c < 6; c++)
        for (int s = 0; s < NSEED; s++) { memset(b, c * 16 + s, al); fill(p, n, c); cmp(f, p, n, SEEDS[s], "pattern"); memcpy(m, p, n); if (memcmp(m, p, n)) mc_fail("input", "%s modifies its input", NAME[f]); }
    mc_op(); mc_state((u64)f << 32 | n << 8 | al);
    if (al == 0)
        for (int z = 0; z < 2; z++) {
            fill(p, n, z);
            for (int i = 0; i < 8 * n; i++) { p[i / 8] ^= 1 << i % 8; cmp(f, p, n, SEEDS[5 + z], "one bit differs"); p[i / 8] ^= 1 << i % 8; mc_op(); }
        }
    free(m); free(b);
}
/* the streaming forms: every split into three pieces, with and without asking for the hash in between */
static void stream(const void *arg)
{
    int f = mc_choose(3), n = mc_choose((int)(intptr_t)arg + 1), i = mc_choose(n + 1), j = i + mc_choose(n - i + 1);
    u8 *b[3]; int len[3] = { i, j - i, n - j }, at[3] = { 0, i, j }; u8 *all = malloc(n + 1); fill(all, n, 4);
    for (int k = 0; k < 3; k++) { b[k] = malloc(len[k] ? len[k] : 1); memcpy(b[k], all + at[k], len[k]); }
    mc_state((u64)f << 40 | (u64)n << 24 | i << 12 | j);
    int fn = f == 0 ? SIP : f == 1 ? XX32 : XX64;
    for (int s = 0; s < NSEED; s += 2) for (int mid = 0; mid < 2; mid++) {
        const u64 *sd = SEEDS[s]; val w = ref(fn, all, n, sd), g = { 0, 0 };
        siphash24_state st; XXH32_state_t *x = 0; XXH64_state_t *y = 0;
        if (f == 0) siphash24_init(&st, sd); else if (f == 1) { x = XXH32_createState(); XXH32_reset(x, sd[0]); } else { y = XXH64_createState(); XXH64_reset(y, sd[0]); }
        if (mid && s) {     /* a state that was used before starts afresh */
            if (f == 0) { siphash24_update(&st, all, n); siphash24_finish(&st); siphash24_init(&st, sd); } else if (f == 1) { XXH32_update(x, all, n); XXH32_reset(x, sd[0]); } else { XXH64_update(y, all, n); XXH64_reset(y, sd[0]); }
        }
        for (int k = 0; k < 3; k++) {
            int e = 0;
            if (f == 0) siphash24_update(&st, b[k], len[k]); else if (f == 1) e = XXH32_update(x, b[k], len[k]); else e = XXH64_update(y, b[k], len[k]);
            if (e) mc_fail("value", "%s_update fails", NAME[fn]);
            if (mid && f && k < 2) {        /* documented for xxHash: the hash so far, and more can follow */
                val p = ref(fn, all, at[k] + len[k], sd); u64 q = f == 1 ? XXH32_digest(x) : XXH64_digest(y);
                if (p.a != q) mc_fail("value", "%s of the first %d bytes of a stream (pieces of %d, %d, %d) is %llx, not %llx", NAME[fn], at[k] + len[k], len[0], len[1], len[2], (unsigned long long)q, (unsigned long long)p.a);
            }
        }
        g.a = f == 0 ? siphash24_finish(&st) : f == 1 ? XXH32_digest(x) : XXH64_digest(y);
        if (g.a != w.a) mc_fail("value", "%s of a stream in pieces of %d, %d and %d bytes is %016llx, in one call %016llx", NAME[fn], len[0], len[1], len[2], (unsigned long long)g.a, (unsigned long long)w.a);
        if (x && XXH32_freeState(x)) mc_fail("value", "XXH32_freeState fails");
        if (y && XXH64_freeState(y)) mc_fail("value", "XXH64_freeState fails");
        mc_op();
    }
    for (int k = 0; k < 3; k++) free(b[k]);
    free(all);
}
/* many pieces: byte by byte, and in equal pieces of every size; two states do not disturb each other */
static void pieces(const void *arg)
{
    int n = mc_choose((int)(intptr_t)arg + 1), step = 1 + mc_choose(40);
    u8 *all = malloc(n + 1), *oth = malloc(n + 1); fill(all, n, 4); fill(oth, n, 2); mc_state((u64)n << 8 | step);
    const u64 *s = SEEDS[6], *t = SEEDS[5];
    siphash24_state a, b; siphash24_init(&a, s); siphash24_init(&b, t);
    XXH32_state_t *x = XXH32_createState(), *x2 = XXH32_createState(); XXH32_reset(x, s[0]); XXH32_reset(x2, t[0]);
    XXH64_state_t *y = XXH64_createState(), *y2 = XXH64_createState(); XXH64_reset(y, s[0]); XXH64_reset(y2, t[0]);
    for (int i = 0; i < n; i += step) {
        int k = n - i < step ? n - i : step;
        siphash24_update(&a, all + i, k); siphash24_update(&b, oth + i, k); XXH32_update(x, all + i, k); XXH32_update(x2, oth + i, k); XXH64_update(y, all + i, k); XXH64_update(y2, oth + i, k); mc_op();
    }
    u64 g[6] = { siphash24_finish(&a), siphash24_finish(&b), XXH32_digest(x), XXH32_digest(x2), XXH64_digest(y), XXH64_digest(y2) };
    u64 w[6] = { r_sip(all, n, s[0], s[1]), r_sip(oth, n, t[0], t[1]), r_x32(all, n, s[0]), r_x32(oth, n, t[0]), r_x64(all, n, s[0]), r_x64(oth, n, t[0]) };
    for (int k = 0; k < 6; k++) if (g[k] != w[k]) mc_fail("value", "%s of a stream of %d bytes in pieces of %d is %llx, not %llx", NAME[k < 2 ? SIP : k < 4 ? XX32 : XX64], n, step, (unsigned long long)g[k], (unsigned long long)w[k]);
    XXH32_freeState(x); XXH32_freeState(x2); XXH64_freeState(y); XXH64_freeState(y2);
    free(all); free(oth);
}
/* big-endian canonical form of every single-bit and boundary hash value */
static void canon(const void *arg)
{
    (void)arg; int i = mc_choose(68);
    u64 v = i < 64 ? 1ull << i : i == 64 ? 0 : i == 65 ? ~0ull : i == 66 ? 0x0123456789abcdefull : 0xfedcba9876543210ull;
    XXH32_canonical_t c; XXH64_canonical_t d; XXH32_canonicalFromHash(&c, (u32)v); XXH64_canonicalFromHash(&d, v); mc_state(i); mc_op();
    for (int k = 0; k < 4; k++) if (c.digest[k] != (u8)((u32)v >> (24 - 8 * k))) mc_fail("value", "XXH32 canonical form of %08x: byte %d is %02x", (u32)v, k, c.digest[k]);
    for (int k = 0; k < 8; k++) if (d.digest[k] != (u8)(v >> (56 - 8 * k))) mc_fail("value", "XXH64 canonical form of %016llx: byte %d is %02x", (unsigned long long)v, k, d.digest[k]);
    if (XXH32_hashFromCanonical(&c) != (u32)v || XXH64_hashFromCanonical(&d) != v) mc_fail("value", "the hash does not come back from its canonical form");
}
/* the references themselves, on published test vectors */
static void vectors(const void *arg)
{
    (void)arg; u8 m[64]; for (int i = 0; i < 64; i++) m[i] = i;
    const u64 *k = SEEDS[5];
    MC_ASSERT(r_sip(m, 0, k[0], k[1]) == 0x726fdb47dd0e0e31ull && r_sip(m, 15, k[0], k[1]) == 0xa129ca6149be45e5ull && r_sip(m, 63, k[0], k[1]) == 0x958a324ceb064572ull, "reference", "reference siphash24 is wrong");
    MC_ASSERT(r_m32(m, 0, 1) == 0x514e28b7u && r_m32((const u8 *)"\xff\xff\xff\xff", 4, 0) == 0x76293b50u && r_m32((const u8 *)"\x21\x43\x65", 3, 0) == 0x7e4a8634u, "reference", "reference murmur3 32 is wrong");
    MC_ASSERT(r_fnv((const u8 *)"foobar", 6, 0) == 0xbf9cf968u && r_fnv((const u8 *)"foobar", 6, 1) == 0x85944171f73967e8ull, "reference", "reference FNV-1a is wrong");
    MC_ASSERT(r_x32(m, 0, 0) == 0x02cc5d05u && r_x64(m, 0, 0) == 0xef46db3751d8e999ull && r_x64((const u8 *)"a", 1, 0) == 0xd24ec4f1a98c6e5bull && r_x32((const u8 *)"a", 1, 0) == 0x550d7456u, "reference", "reference xxHash is wrong");
    MC_ASSERT(XXH_versionNumber() == XXH_VERSION_NUMBER, "reference", "version number is wrong");
    mc_state(1);
}
#define A(x) (const void *)(intptr_t)(x)
const mc_scenario mc_scenarios[] = {
    { "references-on-published-vectors", vectors, 0, 0, 0, 0 },
    { "every-length-alignment-seed", oneshot, A(400), 0, 1, 0 },
    { "stream-in-three-pieces", stream, A(110), 0, 2, MC_F_LEAK },
    { "stream-in-equal-pieces", pieces, A(300), 0, 1, MC_F_LEAK },
    { "canonical-form", canon, 0, 0, 0, 0 },
    { "every-length-alignment-seed-to-1200", oneshot, A(1200), 1, 2, 0 },
    { "stream-in-three-pieces-to-160", stream, A(160), 1, 2, MC_F_LEAK },
    { "stream-in-equal-pieces-to-2000", pieces, A(2000), 1, 1, MC_F_LEAK },
    { 0 }
};
