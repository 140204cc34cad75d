/* C54: arc4random against a reference keystream; C56: generators against their published recurrences */
#define _GNU_SOURCE 1
#include "mc.h"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>

static uint64_t entseed; static int entn, entchild, entsize_total;
static void entropy_bytes(uint8_t *b, size_t n, uint64_t seed, int k, int child)
{
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + k * 0xD1342543DE82EF95ull + child * 0x2545F4914F6CDD1Dull + 1;
    for (size_t i = 0; i < n; i++) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; b[i] = (x * 0x2545F4914F6CDD1Dull) >> 56; }
    if (seed == 0) memset(b, 0, n);          /* a source that answers zeros, or ones */
    if (seed == 1) memset(b, 0xff, n);
}
int __wrap_getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } entropy_bytes(b, n, entseed, entn++, entchild); entsize_total += n; return 0; }

#ifdef P_C54
#include "utils/arc4random.h"
/* ChaCha20 with 64-bit counter and nonce */
typedef struct { uint32_t key[8], iv[2]; uint64_t ctr; } cc;
static uint32_t ld32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void cc_init(cc *c, const uint8_t *kiv) { for (int i = 0; i < 8; i++) c->key[i] = ld32(kiv + 4 * i); c->iv[0] = ld32(kiv + 32); c->iv[1] = ld32(kiv + 36); c->ctr = 0; }
#define ROT(x, n) ((x) << (n) | (x) >> (32 - (n)))
#define QR(a, b, c, d) a += b; d ^= a; d = ROT(d, 16); c += d; b ^= c; b = ROT(b, 12); a += b; d ^= a; d = ROT(d, 8); c += d; b ^= c; b = ROT(b, 7)
static void cc_block(cc *c, uint8_t *o)
{
    uint32_t s[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 }, x[16];
    memcpy(s + 4, c->key, 32); s[12] = (uint32_t)c->ctr; s[13] = c->ctr >> 32; s[14] = c->iv[0]; s[15] = c->iv[1];
    memcpy(x, s, 64);
    for (int i = 0; i < 10; i++) {
        QR(x[0], x[4], x[8], x[12]); QR(x[1], x[5], x[9], x[13]); QR(x[2], x[6], x[10], x[14]); QR(x[3], x[7], x[11], x[15]);
        QR(x[0], x[5], x[10], x[15]); QR(x[1], x[6], x[11], x[12]); QR(x[2], x[7], x[8], x[13]); QR(x[3], x[4], x[9], x[14]);
    }
    for (int i = 0; i < 16; i++) { uint32_t v = x[i] + s[i]; o[4 * i] = v; o[4 * i + 1] = v >> 8; o[4 * i + 2] = v >> 16; o[4 * i + 3] = v >> 24; }
    c->ctr++;
}
/* the reference generator: 1024 bytes of keystream at a time, the first 40 are the next key and nonce */
typedef struct { cc c; uint8_t buf[1024]; int have; size_t count; int pid; } ref;
static int ref_ent(int *k, uint8_t *b, int child) { entropy_bytes(b, 40, entseed, (*k)++, child); return 0; }
static void ref_rekey(ref *r, const uint8_t *mix)
{
    for (int i = 0; i < 16; i++) cc_block(&r->c, r->buf + 64 * i);
    if (mix) for (int i = 0; i < 40; i++) r->buf[i] ^= mix[i];
    cc_init(&r->c, r->buf); r->have = 984;
}
static void ref_get(ref *r, int *k, int child, uint8_t *out, size_t n, int setup)
{
    uint8_t e[64];
    if (setup && (r->count == 0 || r->pid != child)) { ref_ent(k, e, child); cc_init(&r->c, e); ref_rekey(r, 0); r->pid = child; }
    if (r->count <= n) { ref_ent(k, e, child); ref_rekey(r, e); r->have = 0; cc_block(&r->c, e); uint64_t f = ld32(e) | (uint64_t)ld32(e + 4) << 32; r->count = 1024 + f % 1024; }
    r->count = r->count <= n ? 0 : r->count - n;
    while (n) {
        if (!r->have) { ref_rekey(r, 0); continue; }
        size_t m = n < (size_t)r->have ? n : (size_t)r->have;
        memcpy(out, r->buf + 1024 - r->have, m); r->have -= m; out += m; n -= m;
    }
}
static uint32_t ref_uniform(ref *r, int *k, int child, uint32_t b)
{
    uint8_t o[4]; int first = 1;
    uint64_t lim = (1ull << 32) % b;
    for (;;) { ref_get(r, k, child, o, 4, first); first = 0; uint32_t v = ld32(o); if (v >= lim) return v % b; }
}
/* operations: >= 0 a buffer of that size; -1 one word; < -1 an index into bounds; FORK; THREAD */
#define FORK 1000000
#define THREAD 1000001
static const uint32_t bounds[] = { 2, 3, 10, 0x80000001u, 0xffffffffu, 0x80000000u, 0xc0000000u, 0xfffffff0u, 0x55555556u, 257 };
#define NB ((int)(sizeof bounds / sizeof bounds[0]))
#define MAXOPS 8
#define MAXN 70000
typedef struct { int ops[MAXOPS], nops; uint8_t *out[MAXOPS]; size_t n[MAXOPS]; int leak[MAXOPS]; uint8_t *childout[MAXOPS]; size_t childn; int childops[2], cerr; } job;
static size_t opsize(int o) { return o >= 0 ? (size_t)o : 4; }
static int tls_cb(struct dl_phdr_info *i, size_t n, void *d)
{
    (void)n;
    if (i->dlpi_name && i->dlpi_name[0]) return 0;      /* the program itself only */
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { ((uintptr_t *)d)[0] = (uintptr_t)i->dlpi_tls_data; ((uintptr_t *)d)[1] = i->dlpi_phdr[k].p_memsz; }
    return 0;
}
__attribute__((no_sanitize("address"))) static int found(const uint8_t *m, size_t mn, const uint8_t *w)
{
    uint64_t x; memcpy(&x, w, 8);
    if (x == 0 || x == ~0ull) return 0;
    for (size_t i = 0; i + 8 <= mn; i++) { int j = 0; while (j < 8 && m[i + j] == w[j]) j++; if (j == 8) return 1; }
    return 0;
}
static int kept(const uint8_t *o, size_t n)
{
    uintptr_t t[2] = { 0, 0 };
    dl_iterate_phdr(tls_cb, t);
    if (!t[0]) return 0;
    size_t from = n > 1100 ? n - 1100 : 0;
    for (size_t i = from; i + 8 <= n; i += 8) if (found((const uint8_t *)t[0], t[1], o + i)) return 1;
    return n >= 8 ? found((const uint8_t *)t[0], t[1], o + n - 8) : 0;
}
static void draw(int op, uint8_t *o, size_t n)
{
    if (op >= 0) arc4random_buf(o, n);
    else { uint32_t v = op == -1 ? arc4random() : arc4random_uniform(bounds[-op - 2]); memcpy(o, &v, 4); }
}
static void *other(void *a) { arc4random_buf(a, 100); return 0; }
static void *body(void *a)
{
    job *j = a;
    for (int i = 0; i < j->nops; i++) {
        if (j->ops[i] == FORK) {
            int p[2]; if (pipe(p)) { j->cerr = 1; return 0; }
            pid_t pid = fork();
            if (pid == 0) {
                entchild = 1;
                for (int k = 0; k < 2; k++) { uint8_t *b = calloc(1, opsize(j->childops[k]) + 1); draw(j->childops[k], b, opsize(j->childops[k])); size_t w = 0, n = opsize(j->childops[k]); while (w < n) { ssize_t r = write(p[1], b + w, n - w); if (r <= 0) _exit(1); w += r; } }
                _exit(0);
            }
            close(p[1]);
            size_t got = 0; for (;;) { ssize_t r = read(p[0], j->childout[i] + got, j->childn + 1 - got); if (r <= 0) break; got += r; }
            close(p[0]); int st; waitpid(pid, &st, 0);
            if (got != j->childn || st != 0) j->cerr = 2;
        } else if (j->ops[i] == THREAD) {
            pthread_t t; if (pthread_create(&t, 0, other, j->out[i])) { j->cerr = 1; return 0; } pthread_join(t, 0);
        } else { draw(j->ops[i], j->out[i], j->n[i]); j->leak[i] = kept(j->out[i], j->n[i]); }
    }
    return 0;
}
static void go(job *j, int nops)
{
    static uint8_t want[MAXN];
    j->nops = nops; j->cerr = 0;
    for (int i = 0; i < nops; i++) { j->n[i] = j->ops[i] == THREAD ? 100 : j->ops[i] == FORK ? 0 : opsize(j->ops[i]); j->out[i] = malloc(j->n[i] + 16); memset(j->out[i], 0x5a, j->n[i] + 16); j->leak[i] = 0; }
    j->childn = opsize(j->childops[0]) + opsize(j->childops[1]); for (int i = 0; i < nops; i++) j->childout[i] = malloc(j->childn + 2);
    entn = 0; entchild = 0;
    pthread_t t;
    if (pthread_create(&t, 0, body, j)) mc_fail("engine:thread", "no thread");
    pthread_join(t, 0);
    MC_ASSERT(!j->cerr, "child", "the forked child fails (%d)", j->cerr);
    ref r = { .count = 0, .pid = -1 }; int k = 0;
    for (int i = 0; i < nops; i++) {
        int o = j->ops[i];
        if (o == FORK) {
            ref c = r; int kc = k;
            uint8_t *cw = malloc(j->childn + 1); size_t at = 0;
            for (int q = 0; q < 2; q++) {
                int co = j->childops[q];
                if (co >= -1) { ref_get(&c, &kc, 1, cw + at, opsize(co), 1); } else { uint32_t v = ref_uniform(&c, &kc, 1, bounds[-co - 2]); memcpy(cw + at, &v, 4); }
                at += opsize(co);
            }
            MC_ASSERT(memcmp(cw, j->childout[i], j->childn) == 0, "child-stream", "the child's bytes are not those of a generator keyed anew");
            free(cw);
        } else if (o == THREAD) {
            ref c = { .count = 0, .pid = -1 }; ref_get(&c, &k, 0, want, 100, 1);
            MC_ASSERT(memcmp(want, j->out[i], 100) == 0, "thread-stream", "another thread's bytes are not those of its own generator");
        } else {
            if (o >= -1) ref_get(&r, &k, 0, want, j->n[i], 1);
            else { uint32_t b = bounds[-o - 2], v = ref_uniform(&r, &k, 0, b), w; memcpy(want, &v, 4); memcpy(&w, j->out[i], 4); MC_ASSERT(w < b, "bound", "a number below %u is %u", b, w); }
            size_t d = 0; while (d < j->n[i] && want[d] == j->out[i][d]) d++;
            MC_ASSERT(d == j->n[i], "stream", "byte %zu of %zu of request %d is not that of the keystream", d, j->n[i], i);
            for (int q = 0; q < 16; q++) MC_ASSERT(j->out[i][j->n[i] + q] == 0x5a, "overrun", "a request of %zu bytes writes byte %zu", j->n[i], j->n[i] + q);
            MC_ASSERT(!j->leak[i], "kept", "bytes handed out by request %d are still in the generator's state", i);
            mc_op();
        }
    }
    MC_ASSERT(entn == k, "entropy", "entropy is drawn %d times, not %d", entn, k);
     mc_state(mc_mix(mc_mix(r.have, r.count), k));
    for (int i = 0; i < nops; i++) { free(j->out[i]); free(j->childout[i]); }
}
static const int sizes[] = { 4, -1, 40, 984, 983, 985, 1, 1024, 2047, 1023, -2, 7, -5, 64, 3000, 0, THREAD, -4, 1968, -3, -6, 2048, 500, -7, -8, -9, -10, -11 };
#define NS ((int)(sizeof sizes / sizeof sizes[0]))
static job J;
static void seqs(long a)          /* a: seed, ops<<8, choices<<16 */
{
    entseed = a & 255; int n = (a >> 8) & 255, w = a >> 16;
    J.childops[0] = J.childops[1] = 4;
    for (int i = 0; i < n; i++) J.ops[i] = sizes[mc_choose(w)];
    go(&J, n);
}
static const int fs[] = { 4, 983, 1, -1, 2000, 0, -5, 1024, 984 };
static void forks(long a)
{
    entseed = 7 + (a & 255); int n = 0, w = a >> 8;
    int pre = mc_choose(3);
    for (int i = 0; i < pre; i++) J.ops[n++] = fs[mc_choose(w)];
    J.ops[n++] = FORK;
    J.childops[0] = fs[mc_choose(w)]; J.childops[1] = fs[mc_choose(3)];
    J.ops[n++] = fs[mc_choose(w)];
    if (mc_choose(2)) { J.ops[n++] = FORK; J.ops[n++] = 16; }
    go(&J, n);
}
static void large(long a)         /* around every reseed point: k requests of one size */
{
    (void)a; entseed = 3 + mc_choose(5);
    static const int sz[] = { 255, 256, 1000, 1024, 1025, 5000, 65536, 69999, -1 };
    int s = sz[mc_choose(9)], k = 1 + mc_choose(MAXOPS);
    for (int i = 0; i < k; i++) J.ops[i] = s;
    J.childops[0] = J.childops[1] = 4;
    go(&J, k);
}
static void every(long a)          /* every size from a given state */
{
    entseed = 9; J.childops[0] = J.childops[1] = 4;
    J.ops[0] = a; J.ops[1] = mc_choose(2200); J.ops[2] = 16;
    go(&J, 3);
}
static void trivial_bounds(long a) { (void)a; entseed = 5; uint32_t b = mc_choose(2); uint32_t v = arc4random_uniform(b); MC_ASSERT(v == 0, "bound", "a number below %u is %u", b, v);  }
static void *ub(void *a) { uint32_t *p = a; for (uint32_t i = 0; i < p[1]; i++) p[2 + i] = arc4random_uniform(p[0]); return 0; }
static void reach(long a)          /* small bounds: every value below the bound occurs, none at or above it */
{
    (void)a; entseed = 11; entn = entchild = 0;
    uint32_t b = 2 + mc_choose(40);
    uint32_t *p = malloc(4 * 4002); p[0] = b; p[1] = 4000;
    pthread_t t; if (pthread_create(&t, 0, ub, p)) mc_fail("engine:thread", "no thread"); pthread_join(t, 0);
    unsigned char seen[64] = { 0 };
    for (int i = 0; i < 4000; i++) { MC_ASSERT(p[2 + i] < b, "bound", "a number below %u is %u", b, p[2 + i]); seen[p[2 + i]] = 1; }
    for (uint32_t i = 0; i < b; i++) MC_ASSERT(seen[i], "reach", "%u never occurs among 4000 numbers below %u", i, b);
    free(p); 
}
const mc_scenario mc_scenarios[] = {
 { "sequences of 2", seqs, 2 | 2 << 8 | NS << 16, 0, 0, 0 }, { "sequences of 3", seqs, 3 | 3 << 8 | 14 << 16, 0, 0, 0 }, { "sequences of 4", seqs, 4 | 4 << 8 | 6 << 16, 0, 0, 0 }, { "zero entropy", seqs, 0 | 2 << 8 | NS << 16, 0, 0, 0 }, { "ones entropy", seqs, 1 | 2 << 8 | NS << 16, 0, 0, 0 },
 { "forks", forks, 0 | 5 << 8, 0, 0, 0 }, { "large", large, 0, 0, 0, 0 }, { "every size, fresh", every, 0, 0, 0, 0 }, { "every size after 4", every, 4, 0, 0, 0 }, { "every size after 1000", every, 1000, 0, 0, 0 }, { "bounds 0 and 1", trivial_bounds, 0, 0, 0, 0 }, { "reach", reach, 0, 0, 0, 0 },
 { "sequences of 3, all", seqs, 5 | 3 << 8 | NS << 16, 1, 0, 0 }, { "sequences of 4, more", seqs, 6 | 4 << 8 | 14 << 16, 1, 0, 0 }, { "sequences of 7", seqs, 7 | 7 << 8 | 4 << 16, 1, 0, 0 }, { "forks, all", forks, 1 | 9 << 8, 1, 0, 0 }, { 0 } };

#else
#include "utils/xoroshiro.h"
#include "utils/xorshift-rand.h"
#include "utils/romu-rand.h"
#include "utils/splitmix.h"
extern double frand(void);
typedef uint64_t u64;
#define R(x, k) ((x) << (k) | (x) >> (64 - (k)))
/* published forms */
static u64 p_splitmix(u64 *x) { u64 z = (*x += 0x9e3779b97f4a7c15); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9; z = (z ^ (z >> 27)) * 0x94d049bb133111eb; return z ^ (z >> 31); }
static u64 p_xs64(u64 *x) { *x ^= *x >> 12; *x ^= *x << 25; *x ^= *x >> 27; return *x * 0x2545F4914F6CDD1D; }
static u64 p_xs128(u64 *s) { u64 s1 = s[0], s0 = s[1]; s[0] = s0; s1 ^= s1 << 23; s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return s[1] + s0; }
typedef struct { u64 s[16]; int p; } p1024;
static u64 p_xs1024(p1024 *t) { u64 s0 = t->s[t->p]; u64 s1 = t->s[t->p = (t->p + 1) & 15]; s1 ^= s1 << 31; s1 ^= s1 >> 11; s0 ^= s0 >> 30; return (t->s[t->p] = s0 ^ s1) * 1181783497276652981ull; }
static u64 p_xoro(u64 *s) { u64 s0 = s[0], s1 = s[1], r = s0 + s1; s1 ^= s0; s[0] = R(s0, 55) ^ s1 ^ (s1 << 14); s[1] = R(s1, 36); return r; }
static u64 p_quad(u64 *t) { u64 wp = t[0], xp = t[1], yp = t[2], zp = t[3]; t[0] = 15241094284759029579u * zp; t[1] = zp + R(wp, 52); t[2] = yp - xp; t[3] = yp + wp; t[3] = R(t[3], 19); return xp; }
static u64 p_trio(u64 *t) { u64 xp = t[0], yp = t[1], zp = t[2]; t[0] = 15241094284759029579u * zp; t[1] = yp - xp; t[1] = R(t[1], 12); t[2] = zp - yp; t[2] = R(t[2], 44); return xp; }
static u64 p_duo(u64 *t) { u64 xp = t[0]; t[0] = 15241094284759029579u * t[1]; t[1] = R(t[1], 36) + R(t[1], 15) - xp; return xp; }
static u64 ent(int *k) { u64 x; entropy_bytes((void *)&x, 8, entseed, (*k)++, 0); return x; }
static const u64 seeds[] = { 1, 2, 0x9e3779b97f4a7c15ull, ~0ull, 0, 1ull << 63, 0x61c8864680b583ebull, 0x123456789abcdefull, 42, 1ull << 32, 0xffffffffull, 0x8000000080000000ull };
#define NSD ((int)(sizeof seeds / sizeof seeds[0]))
enum { SM, X64, X128, X1024, XO, QUAD, TRIO, DUO, NG };
static const char *gn[] = { "splitmix64", "xorshift64*", "xorshift128+", "xorshift1024*", "xoroshiro128+", "Romu quad", "Romu trio", "Romu duo" };
typedef struct { u64 sm; xs64star a; xs128plus b; xs1024star c; xoro128plus d; romu r; } lib;
typedef struct { u64 v[4]; p1024 c; } pub;
static void p_init64(u64 *v, u64 seed, int *k) { *v = seed ? p_splitmix(&seed) : ent(k); }
static void p_init128(u64 *v, u64 seed, int *k) { u64 z; p_init64(&z, seed, k); v[0] = p_xs64(&z); v[1] = p_xs64(&z); }
static void init(int g, lib *l, pub *p, u64 s, u64 s2, int *k)
{
    memset(l, 0xaa, sizeof *l); memset(p, 0, sizeof *p);
    switch (g) {
    case SM: l->sm = s; p->v[0] = s; break;
    case X64: xs64star_init(&l->a, s); p_init64(p->v, s, k); break;
    case X128: xs128plus_init(&l->b, s); p_init128(p->v, s, k); break;
    case X1024: xs1024star_init(&l->c, s); { u64 z[2]; p_init128(z, s, k); for (int i = 0; i < 16; i++) p->c.s[i] = p_xs128(z); p->c.p = 15 & p_xs128(z); } break;
    case XO: xoro128plus_init(&l->d, s); if (!s) s = ent(k); p->v[0] = s; p->v[1] = p_splitmix(&s); break;
    case QUAD: romu_quad_init(&l->r, s, s2); if (!s) s = ent(k); if (!s2) s2 = ent(k); p->v[0] = s; p->v[1] = s2; p->v[2] = ~s; p->v[3] = ~s2; break;
    case TRIO: romu_trio_init(&l->r, s, s2); if (!s) s = ent(k); if (!s2) s2 = ent(k); p->v[0] = s; p->v[1] = s2; p->v[2] = ~s; break;
    case DUO: romu_duo_init(&l->r, s); if (!s) s = ent(k); p->v[0] = s; p->v[1] = ~s; break;
    }
}
static u64 next(int g, lib *l) { switch (g) { case SM: return splitmix64(&l->sm); case X64: return xs64star_u64(&l->a); case X128: return xs128plus_u64(&l->b); case X1024: return xs1024star_u64(&l->c); case XO: return xoro128plus_u64(&l->d); case QUAD: return romu_quad(&l->r); case TRIO: return romu_trio(&l->r); default: return romu_duo(&l->r); } }
static u64 pnext(int g, pub *p) { switch (g) { case SM: return p_splitmix(p->v); case X64: return p_xs64(p->v); case X128: return p_xs128(p->v); case X1024: return p_xs1024(&p->c); case XO: return p_xoro(p->v); case QUAD: return p_quad(p->v); case TRIO: return p_trio(p->v); default: return p_duo(p->v); } }
static void step(int g, lib *l, pub *p, int i) { u64 a = next(g, l), b = pnext(g, p); MC_ASSERT(a == b, "recurrence", "number %d of %s is %016llx, not %016llx", i, gn[g], (unsigned long long)a, (unsigned long long)b); mc_op(); }
/* two states of one generator, every interleaving of their calls */
static void inter(long depth)
{
    int g = mc_choose(NG), s = mc_choose(NSD), t = mc_choose(3), k = 0;
    entseed = 20; entn = 0;
    lib l[2]; pub p[2];
    init(g, &l[0], &p[0], seeds[s], seeds[(s + t * 5) % NSD], &k);
    init(g, &l[1], &p[1], seeds[(s + t) % NSD], seeds[s], &k);
    MC_ASSERT(entn == k, "entropy", "entropy is drawn %d times, not %d", entn, k);
    int n[2] = { 0, 0 };
    for (int i = 0; i < depth; i++) { int w = mc_choose(2); step(g, &l[w], &p[w], n[w]++); mc_state(mc_mix(mc_mix(g, s), p[w].v[0])); }
    for (int w = 0; w < 2; w++) for (int i = 0; i < 40; i++) step(g, &l[w], &p[w], n[w]++);
    
}
/* long runs from many seeds: every single bit of a seed */
static void runs(long n)
{
    int g = mc_choose(NG), i = mc_choose(64), j = mc_choose(66), k = 0;
    u64 s = 1ull << i; if (j < 64) s ^= 1ull << j; else if (j == 65) s = ~s;
    entseed = 21; entn = 0;
    lib l; pub p; init(g, &l, &p, s, ~s * 3, &k);
    for (long q = 0; q < n; q++) step(g, &l, &p, q);
     mc_state(mc_mix(g, s));
}
static void fr(long a)
{
    (void)a; entseed = 22; entn = 0;
    /* the state of frand lasts: one run */
    u64 v[2]; int k = 0; p_init128(v, 0, &k);
    for (int i = 0; i < 20000; i++) {
        double d = frand(); u64 r = p_xs128(v) & 0xfffffffffffffull;
        MC_ASSERT(d >= 0 && d < 1, "frand-range", "frand gives %g", d);
        MC_ASSERT(d == (double)r / 4503599627370496.0, "frand", "number %d of frand is %.17g, not %.17g", i, d, (double)r / 4503599627370496.0);
        mc_op();
    }
     mc_state(v[0]);
}
const mc_scenario mc_scenarios[] = { { "interleaved", inter, 8, 0, 0, 0 }, { "runs", runs, 60, 0, 0, 0 }, { "frand", fr, 0, 0, 0, MC_F_SERIAL }, { "interleaved, longer", inter, 12, 1, 0, 0 }, { "long runs", runs, 3000, 1, 0, 0 }, { 0 } };
#endif
