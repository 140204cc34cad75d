/* C45 constant databases: files are written here, read by the code under test. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "cdb_read.c"
/* a file is mapped with a hole behind (and before) it: reading past its end is a crash */
static size_t map_len; static char *map_at;
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off)
{
    if (fd < 0 || a) return __real_mmap(a, n, pr, fl, fd, off); size_t pg = 4096, m = (n + pg - 1) / pg * pg; char *p = __real_mmap(0, m + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return p; void *r = __real_mmap(p + pg, n, pr, fl | MAP_FIXED, fd, off); if (r == MAP_FAILED) { int e = errno; munmap(p, m + 2 * pg); errno = e; return r; } map_at = p + pg; map_len = m; return r;
}
static void unmap(void) { if (map_at) munmap(map_at - 4096, map_len + 2 * 4096); map_at = 0; }
static jmp_buf refused; static int guard;
void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (guard) { guard = 0; longjmp(refused, 1); } __real___assert_fail(e, f, l, fn); }
static int ofd = -1; static void after(void) { unmap(); if (ofd >= 0) close(ofd); ofd = -1; guard = 0; }
/* keys: some share a bucket, some the whole hash, one has the hash 0 */
#define NK 10
static struct { char k[24]; int n; } K[NK];
static int cmp64(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }
static uint32_t H(const void *k, size_t n) { uint64_t h = fasthash64(k, n, 0x2de9ce7b97d9569full); return (uint32_t)(h - (h >> 32)); }
static void init(void)
{
    mc_after = after; static uint64_t v[400000]; char b[24]; int nk = 0; for (int i = 0; i < 400000; i++) { int n = sprintf(b, "key%06d", i); v[i] = (uint64_t)H(b, n) << 32 | i; } qsort(v, 400000, 8, cmp64); int got = 0;
    for (int i = 0; i + 1 < 400000 && got < 2; i++) if (v[i] >> 32 == v[i + 1] >> 32) { for (int j = 0; j < 2; j++) K[nk].n = sprintf(K[nk].k, "key%06d", (int)(uint32_t)v[i + j]), nk++; got++; i++; } if (got < 2) abort();
    /* one more in the bucket of the first, and one whose bucket is the next */
    uint32_t h0 = H(K[0].k, K[0].n); int want = 2; for (int i = 400000; want && i < 900000; i++) { int n = sprintf(b, "k%d", i); uint32_t h = H(b, n); if (want == 2 && (h & 255) == (h0 & 255) && ((h >> 8) % 6 == (h0 >> 8) % 6)) { strcpy(K[nk].k, b); K[nk++].n = n; want--; } else if (want == 1 && (h & 255) == (h0 & 255)) { strcpy(K[nk].k, b); K[nk++].n = n; want--; } }
    /* the key of eight bytes whose hash is 0: the hash is a chain of invertible steps */
    uint64_t m = 0x880355f21e6d1965ull, seed = 0x2de9ce7b97d9569full, x = seed ^ (8 * m), inv = 1, mm = 0x2127599bf4325c37ull; for (int i = 0; i < 6; i++) inv *= 2 - mm * inv; x ^= x >> 47; x *= inv; x ^= x >> 23 ^ x >> 46; memcpy(K[nk].k, &x, 8); K[nk].n = 8; if (H(K[nk].k, 8) != 0) { fprintf(stderr, "no key with hash 0\n"); abort(); } nk++;
    K[nk].n = 0; nk++;                                                       /* the empty key */
    memcpy(K[nk].k, K[0].k, K[0].n); K[nk].n = K[0].n - 1; nk++;             /* a prefix */
    memcpy(K[nk].k, "a\0b", 4); K[nk].n = 3; nk++; if (nk != NK) abort();
}
__attribute__((constructor)) static void start(void) { mc_worker_init = init; }
static uint8_t F[1 << 16]; static size_t fn_;
static void w32(size_t at, uint32_t v) { for (int i = 0; i < 4; i++) F[at + i] = v >> (8 * i); }
static int VL(int k, int rot) { return (k + rot) % 4; }
/* records in the order given; each bucket gets a table of mul * its keys + add slots */
static void build(const int *in, int n, int mul, int add, int rot, size_t pad)
{
    memset(F, 0, sizeof F); size_t at = 2048; uint32_t off[NK], hs[NK]; for (int i = 0; i < n; i++) { int k = in[i]; off[i] = at; hs[i] = H(K[k].k, K[k].n); w32(at, K[k].n); w32(at + 4, VL(k, rot)); memcpy(F + at + 8, K[k].k, K[k].n); for (int j = 0; j < VL(k, rot); j++) F[at + 8 + K[k].n + j] = 'A' + k * 4 + j; at += 8 + K[k].n + VL(k, rot); }
    for (int b = 0; b < 256; b++) { int c = 0; for (int i = 0; i < n; i++) c += (hs[i] & 255) == (uint32_t)b; w32(8 * b, at); if (!c) continue; int len = c * mul + add; w32(8 * b + 4, len); for (int i = 0; i < n; i++) if ((hs[i] & 255) == (uint32_t)b) { uint32_t s = (hs[i] >> 8) % len; while (F[at + 8 * s + 4] | F[at + 8 * s + 5] | F[at + 8 * s + 6]) s = (s + 1) % len; w32(at + 8 * s, hs[i]); w32(at + 8 * s + 4, off[i]); } at += 8 * len; }
    fn_ = at + pad;
}
static char path[300];
static void store(size_t n) { snprintf(path, sizeof path, "%s/db", mc_scratch()); int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, F, n) != (ssize_t)n) abort(); close(fd); }
static int fds(void) { int n = 0; for (int i = 0; i < 128; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static void r_find(long arg)
{
    int maxn = (int)arg, n = mc_choose(maxn + 1), in[NK], used = 0; for (int i = 0; i < n; i++) { int k = mc_choose(NK); if (used >> k & 1) { mc_trivial(); return; } used |= 1 << k; in[i] = k; } static const int MA[][2] = { { 2, 0 }, { 1, 0 }, { 1, 1 }, { 2, 3 } }; int m = mc_choose(4); build(in, n, MA[m][0], MA[m][1], n, 0); store(fn_); CDB db; mc_site("cdb_read_init"); int r = cdb_read_init(&db, path); mc_op(); unlink(path); MC_ASSERT(r == 0, "open", "a good file: result %d", r); ofd = db.fd; uint64_t h = m;
    for (int k = 0; k < NK; k++) { char *q = malloc(K[k].n ? K[k].n : 1); memcpy(q, K[k].k, K[k].n); void *p = (void *)-1L; mc_site("cdb_find"); ssize_t z = cdb_find(&db, &p, q, K[k].n); mc_op(); free(q); if (used >> k & 1) { MC_ASSERT(z >= 0, "lost", "key %d of %d bytes (hash %08x), one of %d, is not found: %zd", k, K[k].n, H(K[k].k, K[k].n), n, z); MC_ASSERT(z == VL(k, n), "length", "key %d: value of %zd bytes, not %d", k, z, VL(k, n)); for (int j = 0; j < z; j++) MC_ASSERT(((char *)p)[j] == 'A' + k * 4 + j, "value", "key %d: byte %d of the value is wrong", k, j); } else MC_ASSERT(z == -ENOENT, "ghost", "key %d is not there, the result is %zd", k, z); h = mc_mix(h, z); }
    mc_state(h);
}
static void look(CDB *db, size_t size, const char *how)
{
    for (int k = 0; k < NK; k++) { void *p = 0; guard = 1; if (setjmp(refused)) continue; mc_site("cdb_find in %s", how); ssize_t z = cdb_find(db, &p, K[k].k, K[k].n); guard = 0; mc_op(); if (z < 0) continue; char *c = p; MC_ASSERT(c >= map_at && c + z <= map_at + size, "outside", "%s, key %d: a value of %zd bytes at offset %td of %zu", how, k, z, c - map_at, size); }
}
static void r_damage(long arg)
{   /* any byte wrong */
    static const int IN[] = { 0, 1, 4, 6 }; build(IN, 4, (int)arg, 0, 0, 0); size_t pad = (4096 - fn_ % 4096) % 4096; /* records at the very end of a page: file = header, filler, ...: move the tables up */
    int hdr = 0; { uint32_t b0 = H(K[0].k, K[0].n) & 255, b6 = H(K[6].k, K[6].n) & 255; int c = mc_choose((int)(fn_ - 2048) + 16); size_t at = c < 8 ? 8 * b0 + c : c < 16 ? 8 * b6 + c - 8 : 2048 + (size_t)c - 16; hdr = c < 16; static const int V[] = { 0, 1, 0x7f, 0x80, 0xff, 0xfe, 0xf8, 0x10 }; int v = mc_choose(10); uint8_t o = F[at], nv = v == 8 ? o + 1 : v == 9 ? o - 1 : V[v]; if (nv == o) { mc_trivial(); return; } F[at] = nv; if (mc_choose(2)) { /* the last bytes as well: offsets just before the end of the file */ int e = 1 + mc_choose(12); uint32_t t = (uint32_t)(fn_ + pad) - e; size_t w = 8 * b0; if (mc_choose(2)) w32(w, t); else { uint32_t tb = F[w] | F[w + 1] << 8 | F[w + 2] << 16; int len = F[w + 4]; if (tb + 8 * len <= fn_) for (int i = 0; i < len && i < 16; i++) w32(tb + 8 * i + 4, t); } } }
    store(fn_ + pad); CDB db; mc_site("cdb_read_init"); int r = cdb_read_init(&db, path); unlink(path); MC_ASSERT(r == 0, "open", "result %d", r); ofd = db.fd; look(&db, fn_ + pad, hdr ? "a file with a damaged header" : "a damaged file"); mc_state(mc_hash(0, F, fn_ < sizeof F ? fn_ : 0));
}
static void r_ends(long arg)
{   /* a bucket that points to the last bytes of a file of whole pages, and records that end there or beyond */
    (void)arg; static const int IN[] = { 0, 2 }; build(IN, 2, 2, 0, 0, 0); size_t size = 4096; uint32_t h0 = H(K[0].k, K[0].n); int e = mc_choose(24), kind = mc_choose(3); uint32_t t = size - e;
    if (kind == 0) { w32(8 * (h0 & 255), t); w32(8 * (h0 & 255) + 4, 1 + mc_choose(3)); for (uint32_t i = t; i + 4 <= size; i += 8) w32(i, h0); } else { w32(8 * (h0 & 255), 3000); w32(8 * (h0 & 255) + 4, 1); w32(3000, h0); w32(3004, kind == 1 ? t : 3100); uint32_t kl = K[0].n; static const uint32_t L[] = { 0, 1, 100, 980, 981, 979, 0x7fffffff, 0xffffffff, 0xfffffff0, 0xffffff00, 0x80000000, 0xfffff000 }; uint32_t at = kind == 1 ? t : 3100, vl = L[mc_choose(12)]; if (at + 4 <= size) w32(at, kl); if (at + 8 <= size) w32(at + 4, vl); if (at + 8 + kl <= size) memcpy(F + at + 8, K[0].k, kl); }
    store(size); CDB db; int r = cdb_read_init(&db, path); unlink(path); MC_ASSERT(r == 0, "open", "result %d", r); ofd = db.fd; look(&db, size, "a file whose last bytes are pointed to"); mc_state(mc_mix(kind, e));
}
static void r_open(long arg)
{   /* what is no database is refused, and nothing is left open */
    (void)arg; int k = mc_choose(7); static const int IN[] = { 0 }; build(IN, 1, 2, 0, 0, 0); size_t n = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2047 : 2048; store(n); if (k == 4) unlink(path); int f0 = fds(); CDB db; char dir[300]; snprintf(dir, sizeof dir, "%s", mc_scratch()); mc_site("cdb_read_init"); int r = cdb_read_init(&db, k == 5 ? dir : k == 6 ? "/nonexistent/x" : path); mc_op(); unlink(path); if (k == 3) { MC_ASSERT(r == 0, "open", "an empty database: %d", r); ofd = db.fd; void *p; for (int i = 0; i < NK; i++) { guard = 1; if (!setjmp(refused)) MC_ASSERT(cdb_find(&db, &p, K[i].k, K[i].n) == -ENOENT || i == 0, "ghost", "found in an empty database"); guard = 0; } return; }
    MC_ASSERT(r < 0, "refuse", "%s is accepted", k < 3 ? "a short file" : k == 5 ? "a directory" : "a missing file"); if (k == 4 || k == 6) MC_ASSERT(r == -ENOENT, "why", "a missing file: %d", r); MC_ASSERT(fds() == f0, "descriptor", "a descriptor is left open"); mc_state(k);
}
/* a file in which a record and its table lie far behind the header: most of it is a hole */
static void wat(int fd, uint64_t at, const void *p, size_t n) { if (pwrite(fd, p, n, (off_t)at) != (ssize_t)n) abort(); }
static void le(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = v >> (8 * i); }
static void r_far(long arg)
{
    (void)arg; static const uint32_t B[] = { 2048, 0xfe01, 0x10000, 0xfffe00, 0x1000000, 0x7ffffe00, 0x80000000u, 0xfffff000u }; int it = mc_choose(8), ir = mc_choose(8), k = mc_choose(2) ? 6 : 0, n = 1 + mc_choose(3); uint32_t T = B[it], R = B[ir] + (ir == it ? 8u * n : 0); if (ir != it && ir == 0) R = 4096; uint8_t w[8];
    snprintf(path, sizeof path, "%s/db", mc_scratch()); int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) abort(); uint64_t end = (uint64_t)(T > R ? T + 8u * n : R) + 64; if (end < 8192) end = 8192; if (ftruncate(fd, (off_t)end)) { close(fd); unlink(path); mc_trivial(); return; }
    uint32_t h = H(K[k].k, K[k].n); le(w, T); le(w + 4, n); wat(fd, 8 * (h & 255), w, 8); le(w, h); le(w + 4, R); wat(fd, T + 8 * ((h >> 8) % n), w, 8); le(w, K[k].n); le(w + 4, 3); wat(fd, R, w, 8); wat(fd, R + 8, K[k].k, K[k].n); wat(fd, (uint64_t)R + 8 + K[k].n, "val", 3); close(fd);
    CDB db; mc_site("cdb_read_init of a large file"); int r = cdb_read_init(&db, path); mc_op(); unlink(path); MC_ASSERT(r == 0, "open", "a file of %llu bytes: result %d", (unsigned long long)end, r); ofd = db.fd; void *p = 0; mc_site("cdb_find in a large file"); ssize_t z = cdb_find(&db, &p, K[k].k, K[k].n); mc_op();
    MC_ASSERT(z == 3 && !memcmp(p, "val", 3), "far", "a record at %#x with its table of %d at %#x: result %zd", R, n, T, z); for (int j = 0; j < NK; j++) if (j != k && !(K[j].n == K[k].n && !memcmp(K[j].k, K[k].k, K[k].n))) MC_ASSERT(cdb_find(&db, &p, K[j].k, K[j].n) == -ENOENT, "ghost", "key %d is found", j); mc_state(mc_mix(it * 8 + ir, k * 4 + n));
}
/* many keys in one bucket: a table of hundreds of slots, full or half full */
static void r_crowd(long arg)
{
    static char ck[1200][12]; static int cn; static uint32_t hs[1200]; if (!cn) for (int i = 0; cn < 1200; i++) { char b[12]; int l = sprintf(b, "c%d", i); uint32_t h = H(b, l); if ((h & 255) == 77) { strcpy(ck[cn], b); hs[cn++] = h; } }
    static const int N[] = { 1, 2, 127, 128, 255, 256, 257, 600 }; int n = N[mc_choose((int)arg)], mul = 1 + mc_choose(2), len = n * mul + mc_choose(2); memset(F, 0, sizeof F); size_t at = 2048; static uint32_t off[1200]; for (int i = 0; i < n; i++) { int l = strlen(ck[i]); off[i] = at; w32(at, l); w32(at + 4, 2); memcpy(F + at + 8, ck[i], l); F[at + 8 + l] = i; F[at + 9 + l] = i >> 8; at += 10 + l; }
    w32(8 * 77, at); w32(8 * 77 + 4, len); for (int i = 0; i < n; i++) { uint32_t s = (hs[i] >> 8) % len; while (F[at + 8 * s + 4] | F[at + 8 * s + 5]) s = (s + 1) % len; w32(at + 8 * s, hs[i]); w32(at + 8 * s + 4, off[i]); } at += 8 * len; store(at);
    CDB db; mc_site("cdb_read_init"); int r = cdb_read_init(&db, path); unlink(path); MC_ASSERT(r == 0, "open", "result %d", r); ofd = db.fd; for (int i = 0; i < 1200; i++) { void *p = 0; mc_site("cdb_find"); ssize_t z = cdb_find(&db, &p, ck[i], strlen(ck[i])); mc_op(); if (i < n) MC_ASSERT(z == 2 && ((uint8_t *)p)[0] == (i & 255) && ((uint8_t *)p)[1] == i >> 8, "crowd", "key %d of %d in a table of %d: %zd", i, n, len, z); else MC_ASSERT(z == -ENOENT, "ghost", "key %d is found among %d", i, n); } mc_state(mc_mix(n, len));
}
const mc_scenario mc_scenarios[] = { { "look up", r_find, 3, 0, 3, 0 }, { "look up, more", r_find, 4, 1, 3, 0 }, { "damaged", r_damage, 2, 0, 2, 0 }, { "damaged, full tables", r_damage, 1, 1, 2, 0 }, { "the last bytes", r_ends, 0, 0, 2, 0 }, { "far away", r_far, 0, 0, 2, 0 }, { "crowded", r_crowd, 8, 0, 1, 0 }, { "no database", r_open, 0, 0, 1, 0 }, { 0 } };
