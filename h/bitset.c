/* C21: bitsets against an array of booleans. */
#include "mc.h"
#include <alloca.h>
#include <assert.h>
#include "utils/utils.h"
#include "fast/bitset.h"
static char M[2][400]; static int nb, full;
static bitset *S[2];
static void check(int i, int upto)
{
    for (int k = 0; k < upto; k++) { int r = bitset_isset(S[i], k); MC_ASSERT((r == 0 || r == 1) && r == M[i][k] && bitset_value(S[i], k) == r, "bit", "bit %d of %d reads %d, expected %d", k, nb, r, M[i][k]); }
}
static int pos(int n) { static const int P[] = { 0, 1, 7, 31, 32, 33, 62, 63, 64, 65, 95, 127, 128, 129, 191, 192 }; int c[20], m = 0; for (int i = 0; i < 16; i++) if (P[i] < n) c[m++] = P[i]; if (m == 0 || c[m - 1] != n - 1) c[m++] = n - 1; return c[mc_choose(m)]; }
static void run(long arg)
{
    nb = arg & 255; int depth = (int)(arg >> 8) + mc_tier(); memset(M, 0, sizeof M); full = (nb + 63) / 64 * 64;
    mc_site("bitset_new"); S[0] = bitset_new(nb); S[1] = mc_choose(2) ? bitset_new(nb) : bitset_alloca(nb); int heap1 = mc_is_live(S[1]);
    check(0, full); check(1, full);
    static char pat[] = { 0, 1 };  (void)pat;
    for (int k = 0; k < nb; k++) if (k % 3 == 0) { bitset_set(S[1], k); M[1][k] = 1; }
    check(1, full);
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(11); mc_op();
        switch (o) {
        case 0: { if (!nb) mc_prune(); int p = pos(nb); mc_site("bitset_set"); mc_note("set %d", p); bitset_set(S[0], p); M[0][p] = 1; break; }
        case 1: { if (!nb) mc_prune(); int p = pos(nb); mc_site("bitset_clr"); mc_note("clr %d", p); bitset_clr(S[0], p); M[0][p] = 0; break; }
        case 2: mc_site("bitset_or"); mc_note("or"); bitset_or(S[0], S[1]); for (int k = 0; k < full; k++) M[0][k] |= M[1][k]; break;
        case 3: mc_site("bitset_and"); mc_note("and"); bitset_and(S[0], S[1]); for (int k = 0; k < full; k++) M[0][k] &= M[1][k]; break;
        case 4: mc_site("bitset_xor"); mc_note("xor"); bitset_xor(S[0], S[1]); for (int k = 0; k < full; k++) M[0][k] ^= M[1][k]; break;
        case 5: mc_site("bitset_andnot"); mc_note("andnot"); bitset_andnot(S[0], S[1]); for (int k = 0; k < full; k++) M[0][k] &= !M[1][k]; break;
        case 6: mc_site("bitset_not"); mc_note("not"); bitset_not(S[0]); for (int k = 0; k < full; k++) M[0][k] = !M[0][k]; break;
        case 7: mc_site("bitset_copy"); mc_note("copy"); bitset_copy(S[0], S[1]); memcpy(M[0], M[1], sizeof M[0]); break;
        case 8: { mc_site("bitset_dup"); mc_note("dup"); bitset *t = bitset_dup(S[0]); MC_ASSERT(t != S[0], "dup", "not a new set"); bitset_not(S[0]); bitset_del(S[0]); S[0] = t; break; }
        case 9: { mc_site("bitset_dup_alloca"); mc_note("dup_alloca"); bitset *t = bitset_dup_alloca(S[0]); bitset *o2 = S[0]; S[0] = t; check(0, full); if (nb) { bitset_set(o2, 0); bitset_clr(o2, 0); if (M[0][0]) bitset_set(o2, 0); } S[0] = o2; break; }
        case 10: { bitset *t = S[0]; S[0] = S[1]; S[1] = t; char x[400]; memcpy(x, M[0], sizeof x); memcpy(M[0], M[1], sizeof x); memcpy(M[1], x, sizeof x); if (!heap1) { /* keep the heap one in [0] so that dup can delete */ t = S[0]; S[0] = S[1]; S[1] = t; memcpy(x, M[0], sizeof x); memcpy(M[0], M[1], sizeof x); memcpy(M[1], x, sizeof x); mc_prune(); } mc_note("swap"); break; }
        }
        check(0, full); check(1, full);
        mc_state(mc_mix(mc_hash(nb, M[0], full), mc_hash(1, M[1], full)));
    }
    bitset_del(S[0]); if (heap1) bitset_del(S[1]);
    MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
/* every bit of every length */
static void every(long maxn)
{
    int n = 1 + mc_choose((int)maxn), p = mc_choose(n), q = mc_choose(3);
    memset(M, 0, sizeof M); nb = n; full = (n + 63) / 64 * 64; S[0] = bitset_new(n); mc_op(); mc_site("every bit");
    if (q == 0) { bitset_set(S[0], p); M[0][p] = 1; }
    else { bitset_not(S[0]); memset(M[0], 1, full); bitset_clr(S[0], p); M[0][p] = 0; if (q == 2) { bitset_clr(S[0], p); bitset_set(S[0], p); bitset_set(S[0], p); M[0][p] = 1; } }
    check(0, full); mc_state(mc_mix(n, p * 3 + q));
    bitset_del(S[0]);
}
/* long bitsets: every operation, judged word by word, and single bits all over */
static uint64_t W1(size_t i) { uint64_t x = (i + 1) * 0x9e3779b97f4a7c15ull; return x ^ x >> 29; }
static uint64_t W2(size_t i) { uint64_t x = (i + 7) * 0xbf58476d1ce4e5b9ull; return x ^ x >> 31; }
static bitset *fill(size_t words, uint64_t (*w)(size_t)) { bitset *b = bitset_new(words * 64); for (size_t i = 0; i < words; i++) { uint64_t x = w(i); for (int k = 0; k < 64; k++) if (x >> k & 1) bitset_set(b, i * 64 + k); } return b; }
static uint64_t word(bitset *b, size_t i) { uint64_t x = 0; for (int k = 0; k < 64; k++) { int r = bitset_isset(b, i * 64 + k); MC_ASSERT(r == 0 || r == 1, "big-bit", "bit reads %d", r); x |= (uint64_t)r << k; } return x; }
static void r_long(long k)
{
    int a = mc_choose((int)k - 2) + 2, d = mc_choose(3) - 1, o = mc_choose(9); size_t words = (size_t)((1l << a) + d); mc_op(); mc_note("%zu words, operation %d", words, o); mc_site("long bitset, operation %d", o);
    bitset *x = fill(words, W1), *y = 0; if (o >= 1 && o <= 5) y = fill(words, W2);
    uint64_t st[4]; size_t at[4];
    switch (o) {
    case 1: bitset_or(x, y); break; case 2: bitset_and(x, y); break; case 3: bitset_xor(x, y); break; case 4: bitset_andnot(x, y); break; case 5: bitset_copy(x, y); break; case 6: bitset_not(x); break;
    case 7: { bitset *t = bitset_dup(x); bitset_not(x); bitset_del(x); x = t; break; }
    case 8: { size_t p[4] = { words * 64 - 1, words * 32, words * 48 + 5, (words - 1) * 64 }; for (int i = 0; i < 4; i++) { at[i] = p[i]; st[i] = 0; if (bitset_isset(x, p[i])) { bitset_clr(x, p[i]); st[i] = 1; } else bitset_set(x, p[i]); } break; }
    }
    for (size_t i = 0; i < words; i++) {
        uint64_t p = W1(i), q = W2(i), w = word(x, i), e = o == 1 ? p | q : o == 2 ? p & q : o == 3 ? p ^ q : o == 4 ? p & ~q : o == 5 ? q : o == 6 ? ~p : p;
        if (o == 8) for (int j = 0; j < 4; j++) { int dup = 0; for (int l = 0; l < j; l++) dup ^= at[l] == at[j]; (void)dup; if (at[j] / 64 == i) e ^= 1ull << (at[j] % 64); }
        MC_ASSERT(w == e, "big-word", "operation %d on %zu words: word %zu is %llx, expected %llx", o, words, i, (unsigned long long)w, (unsigned long long)e);
        if (y) MC_ASSERT(word(y, i) == q, "big-word", "operation %d changes its second operand at word %zu", o, i);
    }
    (void)st; mc_state(mc_mix(words, o)); bitset_del(x); if (y) bitset_del(y); MC_ASSERT(!mc_live_blocks(), "leak", "leak");
}
/* single bits of bitsets with more than 2^16 and 2^32 / 64 words */
static void r_one(long k)
{
    int a = 16 + mc_choose(8), d = mc_choose(3) - 1; size_t n = (1ul << a) + d, bits = n * 64 - (d ? 63 : 0); (void)k; mc_op(); mc_note("%zu bits", bits); mc_site("bits of a long bitset");
    bitset *b = bitset_new(bits); size_t P[] = { 0, 63, 64, bits / 2, bits - 1, bits / 3, 65535, 65536, 65536ul * 32 + 3, bits - 65 }; int q = mc_choose(10), inv = mc_choose(2); size_t p = P[q];
    if (inv) { bitset_not(b); bitset_clr(b, p); } else bitset_set(b, p);
    for (int i = 0; i < 10; i++) MC_ASSERT(bitset_isset(b, P[i]) == ((P[i] == p) ^ inv), "far-bit", "after %s bit %zu of %zu, bit %zu reads %d", inv ? "clearing" : "setting", p, bits, P[i], bitset_isset(b, P[i]));
    size_t cnt = 0; for (size_t i = 0; i < b->n; i++) cnt += (size_t)__builtin_popcountll(b->w[i]); MC_ASSERT(cnt == (inv ? b->n * 64 - 1 : 1), "far-bit", "%zu bits are set", cnt);
    if (inv) { bitset *t = bitset_dup(b); MC_ASSERT(!memcmp(t, b, sizeof *b + b->n * 8), "far-dup", "duplicate of %zu bits differs", bits); bitset_del(t); bitset_set(b, p); } else bitset_clr(b, p);
    for (int i = 0; i < 10; i++) MC_ASSERT(bitset_isset(b, P[i]) == inv, "far-bit", "bit %zu did not go back", P[i]);
    mc_state(mc_mix(n, q * 2 + inv)); bitset_del(b);
}
#define A(n, d) ((n) | (d) << 8)
const mc_scenario mc_scenarios[] = { { "1", run, A(1, 5), 0, 2, 0 }, { "63", run, A(63, 4), 0, 2, 0 }, { "64", run, A(64, 4), 0, 2, 0 }, { "65", run, A(65, 4), 0, 2, 0 }, { "128", run, A(128, 3), 0, 2, 0 }, { "129", run, A(129, 3), 0, 2, 0 }, { "192", run, A(192, 3), 0, 2, 0 }, { "0", run, A(0, 4), 0, 2, 0 }, { "long", r_long, 14, 0, 2, 0 }, { "longer", r_long, 18, 1, 2, 0 }, { "4 million bits", r_one, 0, 0, 2, 0 }, { "every bit", every, 200, 0, 1, 0 }, { 0 } };
