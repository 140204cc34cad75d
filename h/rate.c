/* C66 how often filters report what was never added, and when two filters are equal. */
#include "mc.h"
#include <stdint.h>
#include <math.h>
#include "utils/bloom.h"
#include "utils/xorfilter.h"
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static uint64_t salt, nsalt; static int same;
int __wrap_getentropy(void *p, size_t n) { uint64_t v = same ? salt : mix(salt + 77 * nsalt++); for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = v >> (8 * (i & 7)); return 0; }
enum { COUNTING, STANDARD, SCALABLE };
static const char *KIND[] = { "counting", "standard", "scalable" };
static Bloom *mk(int kind, int n, double e) { return kind == COUNTING ? Counting_bloom_new(n, e) : Standard_bloom_new(n, e, kind == SCALABLE); }
static const double E[] = { 0.3, 0.1, 0.05, 0.01, 0.001, 0.0001 };
/* values as a good hash function makes them, or small numbers (the filter mixes them itself) */
static uint64_t val(int how, uint64_t i) { return how ? i : mix(i); }
static void r_rate(long arg)
{
    static const int NS[] = { 1000, 2500, 10000, 50000 }; int N = (int)arg * 100000, kind = mc_choose(3), n = NS[mc_choose(4)], ei = mc_choose(6), how = mc_choose(2), mul = kind == SCALABLE ? 1 << (2 * mc_choose(4)) : 1; double e = E[ei]; salt = mix(mc_choose(3)) * mc_choose(2); nsalt = 0; same = 0; if (n * mul > 160000) { mc_trivial(); return; }
    mc_site("%s filter for %d elements, error rate %g", KIND[kind], n, e); Bloom *b = mk(kind, n, e); MC_ASSERT(b, "new", "no filter"); for (int i = 0; i < n * mul; i++) Bloom_probe(b, val(how, i)); mc_op();
    int fp = 0; for (int i = 0; i < N; i++) fp += !!Bloom_find(b, val(how, 1000000000ull + i)); double rate = (double)fp / N, want = e; if (kind == SCALABLE) { int L = 1; for (int m = mul; m > 1; m /= 2) L++; want = e * (1 - pow(0.9, L)) / 0.1; } if (want > 1) want = 1;
    double most = want * (kind == SCALABLE ? 1 : 1.2) + 1.2 / n + 4 * sqrt(want / N); MC_ASSERT(rate <= most, "rate", "a %s filter made for %d elements and an error rate of %g reports %g of what was never added to its %d elements (at most %g)", KIND[kind], n, e, rate, n * mul, most);
    for (int i = 0; i < n * mul; i += 7) MC_ASSERT(Bloom_find(b, val(how, i)), "lost", "element %d is absent", i); Bloom_delete(b); mc_state(mc_mix(mc_mix(kind * 8 + ei, n), mc_mix(mul * 2 + how, fp)));
}
static void r_xor(long arg)
{
    static const int NS[] = { 1, 2, 10, 100, 1000, 10000, 60000 }; int N = (int)arg * 100000, w = mc_choose(2), n = NS[mc_choose(7)], how = mc_choose(2); salt = mc_choose(3); nsalt = 0; same = 0; uint64_t *k = malloc(n * 8); for (int i = 0; i < n; i++) k[i] = val(how, i);
    mc_site("xor filter with %d elements", n); Xorfilter *x = w ? Xorfilter_new16(k, n) : Xorfilter_new8(k, n); free(k); mc_op(); MC_ASSERT(x, "new", "no xor filter of %d", n); int fp = 0; for (int i = 0; i < N; i++) fp += !!Xorfilter_contains(x, val(how, 1000000000ull + i)); double want = (double)N / (w ? 65536 : 256), most = want * 1.2 + 5 * sqrt(want) + 5; MC_ASSERT(fp <= most, "xrate", "a %d-bit xor filter of %d elements contains %d of %d others (at most %g)", w ? 16 : 8, n, fp, N, most);
    double bpe = Xorfilter_bpe(x), lim = (w ? 16 : 8) * (1.24 + 64.0 / n) + 300.0 * 8 / n; MC_ASSERT(bpe >= (w ? 16 : 8) && bpe <= lim, "bpe", "%g bits for each of %d elements", bpe, n); for (int i = 0; i < n; i++) MC_ASSERT(Xorfilter_contains(x, val(how, i)), "lost", "element %d is absent", i); Xorfilter_delete(x); mc_state(mc_mix(w * 8 + how, mc_mix(n, fp)));
}
/* two filters after every pair of short histories */
static int ops(Bloom *b, int kind, int maxd, uint64_t *h, unsigned char *cnt)
{
    int d = 0; for (; d < maxd; d++) { int o = mc_choose(kind == COUNTING ? 9 : 5); if (!o) break; mc_op(); *h = mc_mix(*h, o); if (o <= 4) { Bloom_probe(b, mix(o)); cnt[o]++; } else if (cnt[o - 4]) { Bloom_remove(b, mix(o - 4)); cnt[o - 4]--; } } return d;
}
static void r_eq(long maxd)
{
    int kind = mc_choose(3), k2 = mc_choose(3), n = 64, n2 = mc_choose(2) ? 64 : 100, s2 = mc_choose(2); double e = 0.01, e2 = mc_choose(2) ? 0.01 : 0.001; if (kind != k2 && (n2 != 64 || s2 || e2 != 0.01)) { mc_trivial(); return; } same = 1; salt = 12345; Bloom *a = mk(kind, n, e); salt += s2; Bloom *b = mk(k2, n2, e2); MC_ASSERT(a && b, "new", "no filter"); uint64_t h = kind * 64 + k2 * 16 + (n2 == 64) * 4 + s2 * 2 + (e2 == e); unsigned char ca[5] = { 0 }, cb[5] = { 0 };
    int big = kind == SCALABLE && k2 == SCALABLE ? mc_choose(2) : 0; if (big) for (int i = 0; i < 400; i++) Bloom_probe(a, mix(1000 + i)), Bloom_probe(b, mix(1000 + i)); ops(a, kind, maxd, &h, ca); ops(b, k2, maxd, &h, cb); mc_site("Bloom_eq of a %s and a %s filter", KIND[kind], KIND[k2]); int r = Bloom_eq(a, b), r2 = Bloom_eq(b, a); mc_op(); MC_ASSERT(!r == !r2, "symmetric", "equal one way only"); MC_ASSERT(Bloom_eq(a, a) && Bloom_eq(b, b), "itself", "a filter is not equal to itself");
    int config = kind == k2 && n == n2 && !s2 && e == e2, content = 1, set = 1; for (int i = 1; i <= 4; i++) { content &= ca[i] == cb[i]; set &= !ca[i] == !cb[i]; } if (config && content) MC_ASSERT(r, "equal", "two %s filters with the same history differ", KIND[kind]); if (!config) MC_ASSERT(!r, "config", "a %s filter of %d at %g and a %s one of %d at %g%s are equal", KIND[kind], n, e, KIND[k2], n2, e2, s2 ? " with another salt" : ""); else if (!set || (kind == COUNTING && !content)) MC_ASSERT(!r, "content", "two %s filters with other elements are equal", KIND[kind]);
    Bloom_delete(a); Bloom_delete(b); mc_state(h);
}
/* a scalable filter that has grown further than its twin */
static void r_grown(long a_)
{
    (void)a_; same = 1; salt = 5; int n = 16, na = 1 + mc_choose(120), nb = 1 + mc_choose(120), swap = mc_choose(2); Bloom *a = mk(SCALABLE, n, 0.01), *b = mk(SCALABLE, n, 0.01); for (int i = 0; i < na; i++) Bloom_probe(a, mix(i)); for (int i = 0; i < nb; i++) Bloom_probe(b, mix(swap && i == nb - 1 ? 777 : i)); mc_op(); int eq = Bloom_eq(a, b), want = na == nb && !swap; MC_ASSERT(!eq == !want, "grown", "filters of %d and %d elements%s are %s", na, nb, swap ? ", one of them another" : "", eq ? "equal" : "not equal"); Bloom_delete(a); Bloom_delete(b); mc_state(mc_mix(na, nb * 2 + swap));
}
/* a scalable filter grown thousands of times over: the levels tighten, so that their rates add up to a bounded sum */
static void r_long(long a_)
{
    static const double LE[] = { 0.02, 0.01, 0.005 }; (void)a_; same = 0; nsalt = 0; int n = mc_choose(2) ? 250 : 500; double e = LE[mc_choose(3)]; int mul = mc_choose(2) ? 4096 : 16384, N = 100000; salt = mc_choose(2);
    mc_site("scalable filter for %d elements, error rate %g, %d elements", n, e, n * mul); Bloom *b = mk(SCALABLE, n, e); MC_ASSERT(b, "new", "no filter"); for (int i = 0; i < n * mul; i++) Bloom_probe(b, mix(i)); mc_op();
    int fp = 0, L = 1; for (int i = 0; i < N; i++) fp += !!Bloom_find(b, mix(1000000000ull + i)); for (int m = mul; m > 1; m /= 2) L++; double rate = (double)fp / N, want = e * (1 - pow(0.9, L)) / 0.1, most = want + 1.2 / n + 4 * sqrt(want / N);
    MC_ASSERT(rate <= most, "rate", "a scalable filter made for %d elements and an error rate of %g reports %g of what was never added to its %d elements (at most %g)", n, e, rate, n * mul, most);
    for (int i = 0; i < n * mul; i += 97) MC_ASSERT(Bloom_find(b, mix(i)), "lost", "element %d is absent", i); Bloom_delete(b); mc_state(mc_mix(mc_mix(n, mul), fp));
}
const mc_scenario mc_scenarios[] = { { "rates", r_rate, 2, -1, 3, 0 }, { "rates, more lookups", r_rate, 20, 1, 3, 0 }, { "xor rates", r_xor, 4, -1, 2, 0 }, { "xor rates, more lookups", r_xor, 40, 1, 2, 0 }, { "equality", r_eq, 2, -1, 4, MC_F_LEAK }, { "equality, longer", r_eq, 3, 1, 4, MC_F_LEAK }, { "rates after long growth", r_long, 0, 0, 2, 0 }, { "grown", r_grown, 0, 0, 2, MC_F_LEAK }, { 0 } };
