/* allocation tracking and failure injection: linked with -Wl,--wrap=malloc,... */
#define _GNU_SOURCE 1
#include "mc.h"
#include <errno.h>

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);

#define TB (1 << 16)
typedef struct { void *p; size_t n; uint64_t ep; } ent;
static ent  *tab;
static uint32_t *idx; static uint32_t nidx;
static uint32_t cap, used;                /* used counts tombstones too */
static size_t live, bytes;
static uint64_t epoch = 1, nalloc;
static int64_t oom = -1, orun = 1, oleft = 1; static int fired;
static size_t limit;
#define TOMB ((void *)1)

static void tinit(void) { if (!tab) { cap = TB; tab = (ent *)__real_calloc(cap, sizeof *tab); idx = (uint32_t *)__real_malloc(cap * sizeof *idx); } }
static uint32_t hp(const void *p) { uint64_t x = (uint64_t)p >> 3; x *= 0x9e3779b97f4a7c15ull; return (uint32_t)(x >> 40) & (cap - 1); }
/* entries of older epochs count as empty */
static ent *tfind(const void *p)
{
    uint32_t i = hp(p);
    for (uint32_t k = 0; k < cap; k++, i = (i + 1) & (cap - 1)) {
        if (tab[i].ep != epoch) return 0;
        if (tab[i].p == p) return &tab[i];
    }
    return 0;
}
/* the table is full of live entries and tombstones: build it anew */
static void tgrow(void)
{
    ent *o = tab; uint32_t *oi = idx, on = nidx;
    if (live > cap / 4) { if (cap >= 1u << 23) abort(); cap *= 2; }
    tab = (ent *)__real_calloc(cap, sizeof *tab); idx = (uint32_t *)__real_malloc(cap * sizeof *idx); if (!tab || !idx) abort();
    used = nidx = 0;
    for (uint32_t k = 0; k < on; k++) if (o[oi[k]].p != TOMB) {
        uint32_t i = hp(o[oi[k]].p);
        while (tab[i].ep == epoch) i = (i + 1) & (cap - 1);
        tab[i] = o[oi[k]]; used++; idx[nidx++] = i;
    }
    __real_free(o); __real_free(oi);
}
static void tput(void *p, size_t n)
{
    if (used > cap / 2) tgrow();
    uint32_t i = hp(p);
    for (;; i = (i + 1) & (cap - 1)) {
        if (tab[i].ep != epoch) { used++; idx[nidx++] = i; break; }
        if (tab[i].p == TOMB) break;
    }
    tab[i].p = p; tab[i].n = n; tab[i].ep = epoch; live++; bytes += n;
}
static int refuse(size_t n)
{
    if (limit && n > limit) { errno = ENOMEM; return 1; }
    nalloc++;
    if (oom >= 0) { if (oom-- == 0) { oom = --oleft > 0 ? 0 : -1; fired = 1; errno = ENOMEM; return 1; } }
    return 0;
}
void *__wrap_malloc(size_t n) { tinit(); if (refuse(n)) return 0; void *p = __real_malloc(n); if (p) tput(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { tinit(); size_t t; if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return 0; } if (refuse(t)) return 0; void *p = __real_calloc(a, b); if (p) tput(p, t); return p; }
void __wrap_free(void *p)
{
    if (!p) return;
    tinit();
    ent *e = tfind(p);
    if (e) { live--; bytes -= e->n; e->p = TOMB; }
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
    tinit();
    if (!p) return __wrap_malloc(n);
    if (n == 0) { __wrap_free(p); return 0; }
    if (refuse(n)) return 0;
    /* always move, so that stale pointers are caught */
    ent *e = tfind(p);
    void *q = __real_realloc(p, n);
    if (!q) return 0;
    if (e) { live--; bytes -= e->n; e->p = TOMB; }
    tput(q, n);
    return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { size_t t; if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return 0; } return __wrap_realloc(p, t); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int  __wrap_posix_memalign(void **pp, size_t al, size_t n) { extern int __real_posix_memalign(void **, size_t, size_t); tinit(); if (refuse(n)) return ENOMEM; int r = __real_posix_memalign(pp, al, n); if (r == 0 && *pp) tput(*pp, n); return r; }
void *__wrap_aligned_alloc(size_t al, size_t n) { extern void *__real_aligned_alloc(size_t, size_t); tinit(); if (refuse(n)) return 0; void *p = __real_aligned_alloc(al, n); if (p) tput(p, n); return p; }
void *__wrap_memalign(size_t al, size_t n) { extern void *__real_memalign(size_t, size_t); tinit(); if (refuse(n)) return 0; void *p = __real_memalign(al, n); if (p) tput(p, n); return p; }

size_t mc_live_blocks(void) { return live; }
size_t mc_live_bytes(void) { return bytes; }
void mc_oom_at(int64_t k) { oom = k; oleft = orun; if (k >= 0) fired = 0; }
void mc_oom_run(int64_t n) { orun = n; }
int  mc_oom_fired(void) { return fired; }
uint64_t mc_alloc_count(void) { return nalloc; }
size_t mc_block_size(const void *p) { tinit(); ent *e = tfind(p); return e ? e->n : 0; }
int  mc_is_live(const void *p) { tinit(); return tfind(p) != 0; }
void mc_forget(const void *p) { tinit(); ent *e = tfind(p); if (e) { live--; bytes -= e->n; e->p = TOMB; } }
void mc_set_alloc_limit(size_t n) { limit = n; }
void mc_track_reset(int release)
{
    tinit();
    if (release && live) for (uint32_t k = 0; k < nidx; k++) if (tab[idx[k]].p != TOMB) __real_free(tab[idx[k]].p);
    epoch++; used = 0; nidx = 0; live = 0; bytes = 0; nalloc = 0; oom = -1; orun = 1; fired = 0; limit = 0;
}
