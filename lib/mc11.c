/* mc11.c - scheduler, memory model and checkers behind -fsanitize=thread (see mc11.h) */
#define _GNU_SOURCE 1
#include "mc11.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <time.h>

void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memcpy(void *, const void *, size_t); int __real_memcmp(const void *, const void *, size_t);
#define memset  __real_memset
#define memmove __real_memmove
#define memcpy  __real_memcpy

#define MAXT   7
#define MAXL   512
#define MAXV   MAXL
#define MAXM   256
#define MAXO   64
#define MAXEV  256
#define STK    (128 * 1024)
#define ARENA  (16u << 20)
#define ARENA_BASE ((char *)0x200000000000ull)
static int HORIZON = 6000;

typedef struct { uint32_t vc[MAXT]; int nidx; uint16_t idx[MAXV]; } view;
typedef struct { uint64_t val; view rel; uint8_t hasrel, tid; } msg;
typedef struct { char *addr; int size, nm; uint32_t rclk[MAXT], wclk[MAXT]; uint16_t sc; msg *m; } loc;

enum { O_NONE, O_LOAD, O_STORE, O_RMW, O_FENCE, O_LOCK, O_TRYLOCK, O_UNLOCK, O_WAIT, O_TRYWAIT, O_POST, O_JOIN, O_JOINALL, O_CWAIT, O_CWAKE, O_SIGNAL, O_OBJ };
static const char *opnm[] = { "none", "load", "store", "rmw", "fence", "lock", "trylock", "unlock", "sem_wait", "sem_trywait", "sem_post", "join", "join all", "cond_wait", "cond_wake", "signal", "obj" };
typedef struct { int kind; const void *addr; const void *addr2; const void *pc; int target; int mo; } op;

typedef struct {
    void *sp; char *stk;
    void *(*fn)(void *); void (*fn1)(void *); void *arg, *ret;
    int finished, joined, detached, started;
    view cur, acq, relf; int hasrelf;
    op p;
    const void *last_pc, *last_addr; int last_idx;   /* previous visible operation, if it was a load */
    int loads;                                       /* loads since this thread or anybody wrote */
    uint64_t wstamp;
    int signaled;
} thr;

typedef struct { const void *addr; int kind; int live, locked, owner, recursive; long count; view rel; int inited; } obj;   /* kind: 1 mutex 2 sem 3 cond */

typedef struct { uint32_t ep; uint16_t wclk; uint8_t wtid, pad; uint16_t rclk[MAXT + 1]; } cell;
/* 64 bytes: written as a whole this epoch and by whom, until single bytes of it are accessed; dirty: maybe not zero */
typedef struct { uint32_t ep; uint16_t wclk; uint8_t wtid, bytes; } chunk;
typedef struct { char *p; size_t n; int state; int tid; uint32_t clk; } blk;   /* state 1 live 2 freed */

static thr  *T;
static int   nt, cur;
static loc  *L; static int nl;
static obj  *O; static int no;
static view  scview;
static int   preempt_left, use_sleep, stale_left, stale_used, eintr_left, spur_left, createfail, ncreate;
static unsigned sleepset;
static int   initfail;
static int   steps, inited, active, spinfree;
static uint64_t writes;
static cell *sh_arena, *sh_glob; static uint32_t ep; static chunk *ch_arena; static uint8_t *ch_dirty;
static char *glo, *ghi;
static uint32_t *gran; static blk *B; static int nb; static size_t brk_;
static size_t live_n, live_b; static int64_t oomk = -1; static int oomfired; static uint64_t nalloc;
typedef struct { int tid; uint32_t clk; int t; uint32_t vc[MAXT]; } ev;
static int evtime; static int pendev[MAXT];
static void fill_event(int e);
static ev *EV; static int nev;
static char *mainlo, *mainhi;
extern char __data_start[], _end[];
extern char __start_mc11_untracked[] __attribute__((weak)), __stop_mc11_untracked[] __attribute__((weak));

#define LOCH (4096)
static struct { char *a; int id; uint32_t ep; } *LH;

static void *big(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return p; }
static void init(void)
{
    if (inited) return;
    inited = 1;
    T = (thr *)big(sizeof(thr) * MAXT);
    for (int i = 1; i < MAXT; i++) { T[i].stk = (char *)big(STK); mprotect(T[i].stk, 4096, PROT_NONE); }
    L = (loc *)big(sizeof(loc) * MAXL);
    for (int i = 0; i < MAXL; i++) L[i].m = (msg *)big(sizeof(msg) * MAXM);
    O = (obj *)big(sizeof(obj) * MAXO);
    EV = (ev *)big(sizeof(ev) * MAXEV);
    LH = big(sizeof *LH * LOCH);
    char *a = (char *)mmap(ARENA_BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (a != ARENA_BASE) abort();
    sh_arena = (cell *)big(sizeof(cell) * (size_t)ARENA);
    ch_arena = (chunk *)big(sizeof(chunk) * (ARENA / 64 + 1)); ch_dirty = (uint8_t *)big(ARENA / 64 + 1);
    glo = __data_start; ghi = _end;
    sh_glob = (cell *)big(sizeof(cell) * (size_t)(ghi - glo));
    gran = (uint32_t *)big(sizeof(uint32_t) * (ARENA / 16 + 1));
    B = (blk *)big(sizeof(blk) * 65536);
    char *sp = (char *)__builtin_frame_address(0);
    mainlo = sp - (4 << 20); mainhi = sp + (4 << 20);
}

static inline void vjoin(view *a, const view *b)
{
    for (int i = 0; i < MAXT; i++) if (b->vc[i] > a->vc[i]) a->vc[i] = b->vc[i];
    if (b->nidx > a->nidx) { memset(a->idx + a->nidx, 0, (b->nidx - a->nidx) * 2); a->nidx = b->nidx; }
    for (int i = 0; i < b->nidx; i++) if (b->idx[i] > a->idx[i]) a->idx[i] = b->idx[i];
}
static inline void vcopy(view *a, const view *b) { memcpy(a->vc, b->vc, sizeof a->vc); a->nidx = b->nidx; memcpy(a->idx, b->idx, b->nidx * 2); }
static inline int vget(const view *v, int l) { return l < v->nidx ? v->idx[l] : 0; }
static inline void vset(view *v, int l, int i)
{
    if (l >= v->nidx) { memset(v->idx + v->nidx, 0, (l + 1 - v->nidx) * 2); v->nidx = l + 1; }
    if (v->idx[l] < i) v->idx[l] = i;
}
static inline void vzero(view *v) { memset(v->vc, 0, sizeof v->vc); v->nidx = 0; }

static void clear_thr(thr *t)
{
    t->fn = 0; t->fn1 = 0; t->ret = 0; t->finished = t->joined = t->detached = t->started = 0;
    vzero(&t->cur); vzero(&t->acq); vzero(&t->relf); t->hasrelf = 0;
    t->p.kind = O_NONE; t->last_pc = t->last_addr = 0; t->loads = 0; t->wstamp = 0; t->signaled = 0;
}

/* ------------------------------------------------------------ mc.h interface */
void mc_track_reset(int release)
{
    init();
    if (release) { active = 0; return; }
    active = 1;
    ep++;
    nt = 1; cur = 0; clear_thr(&T[0]); T[0].cur.vc[0] = 1;
    nl = 0; no = 0; vzero(&scview);
    preempt_left = 0; use_sleep = 1; stale_left = 0; stale_used = 0; eintr_left = 0; spur_left = 0; createfail = -1; ncreate = 0; initfail = -1; HORIZON = 6000;
    sleepset = 0; steps = 0; writes = 0; spinfree = 0; nev = 0; evtime = 0;
    for (int i = 0; i < MAXT; i++) pendev[i] = -1;
    memset(gran, 0, (brk_ / 16 + 1) * 4);
    nb = 1; brk_ = 64; live_n = live_b = 0; oomk = -1; oomfired = 0; nalloc = 0;
}
size_t mc_live_blocks(void) { return live_n; }
size_t mc_live_bytes(void) { return live_b; }
void mc_oom_at(int64_t k) { oomk = k; if (k >= 0) oomfired = 0; }
int  mc_oom_fired(void) { return oomfired; }
uint64_t mc_alloc_count(void) { return nalloc; }
void mc_set_alloc_limit(size_t n) { (void)n; }

/* ------------------------------------------------------------ fibers */
extern void mc11_switch(void **save, void *to);
__asm__(".text\n.globl mc11_switch\nmc11_switch:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static void schedule(void);
static void thread_finish(void)
{
    thr *t = &T[cur];
    t->finished = 1; t->p.kind = O_NONE;
    for (int i = 0; i < no; i++) if (O[i].kind == 1 && O[i].locked && O[i].owner == cur && O[i].live) mc_note("thread %d ends holding a mutex", cur);
    schedule();
    abort();
}
static int creator;
static void fiber_main(void)
{
    thr *t = &T[cur];
    if (t->fn) t->ret = t->fn(t->arg); else t->fn1(t->arg);
    if (!t->started) {             /* ended without a visible operation */
        t->started = 1; t->finished = 1; t->p.kind = O_NONE;
        int me = cur; cur = creator;
        mc11_switch(&T[me].sp, T[cur].sp);
        abort();
    }
    thread_finish();
}
static void switch_to(int n)
{
    if (n == cur) return;
    int o = cur; cur = n;
    mc11_switch(&T[o].sp, T[n].sp);
}
static int spawn(void *(*fn)(void *), void (*fn1)(void *), void *arg)
{
    if (nt >= MAXT) mc_fail("engine:threads", "too many threads");
    int id = nt++;
    thr *t = &T[id];
    clear_thr(t);
    t->fn = fn; t->fn1 = fn1; t->arg = arg;
    vcopy(&t->cur, &T[cur].cur);
    t->cur.vc[id] = 1;
    T[cur].cur.vc[cur]++;
    void **sp = (void **)(t->stk + STK - 64);
    *--sp = 0;                      /* alignment */
    *--sp = (void *)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    t->sp = sp;
    /* run it to its first visible operation */
    int save = creator, me = cur;
    creator = cur;
    cur = id;
    mc11_switch(&T[me].sp, t->sp);
    creator = save;
    return id;
}

/* ------------------------------------------------------------ locations */
static loc *getloc(const volatile void *a, int size)
{
    char *p = (char *)a;
    uint32_t h = (uint32_t)((((uint64_t)p >> 2) * 0x9e3779b97f4a7c15ull) >> 52) & (LOCH - 1);
    for (;; h = (h + 1) & (LOCH - 1)) {
        if (LH[h].ep != ep) break;
        if (LH[h].a == p) { loc *l = &L[LH[h].id]; if (l->size != size) mc_fail("engine:mixed", "atomic accesses of different sizes"); return l; }
    }
    if (nl >= MAXL) mc_fail("engine:locs", "too many atomic locations");
    LH[h].ep = ep; LH[h].a = p; LH[h].id = nl;
    loc *l = &L[nl++];
    l->addr = p; l->size = size; l->nm = 1; l->sc = 0;
    memset(l->rclk, 0, sizeof l->rclk); memset(l->wclk, 0, sizeof l->wclk);
    uint64_t v = 0; __real_memcpy(&v, p, size);
    l->m[0].val = v; l->m[0].hasrel = 0; l->m[0].tid = 255;
    return l;
}
static loc *findloc(const char *p)
{
    uint32_t h = (uint32_t)((((uint64_t)p >> 2) * 0x9e3779b97f4a7c15ull) >> 52) & (LOCH - 1);
    for (;; h = (h + 1) & (LOCH - 1)) {
        if (LH[h].ep != ep) return 0;
        if (LH[h].a == p) return &L[LH[h].id];
    }
}

/* ------------------------------------------------------------ plain accesses */
static const char *where(const char *p, char *buf, size_t n)
{
    if (p >= ARENA_BASE && p < ARENA_BASE + ARENA) {
        uint32_t g = gran[(p - ARENA_BASE) / 16];
        if (g) snprintf(buf, n, "byte %ld of a block of %zu", (long)(p - B[g].p), B[g].n);
        else snprintf(buf, n, "outside every block");
    } else snprintf(buf, n, "a global");
    return buf;
}
static void race(const char *p, int t2, const char *what)
{
    char b[100];
    mc_note("data race: thread %d %s, other thread %d, %s", cur, what, t2, where(p, b, sizeof b));
    mc_fail("race", "data race: thread %d %s and thread %d is not ordered with it (%s)", cur, what, t2, where(p, b, sizeof b));
}
static inline void inblock(char *p)
{
    uint32_t g = gran[(p - ARENA_BASE) / 16];
    char b[100];
    if (!g || p >= B[g].p + B[g].n) mc_fail("bounds", "access outside every live block: %s", where(p, b, sizeof b));
    if (B[g].state == 2) mc_fail("use-after-free", "thread %d accesses freed memory: %s", cur, where(p, b, sizeof b));
    if (B[g].clk > T[cur].cur.vc[B[g].tid]) race(p, B[g].tid, "uses a block whose allocation");
}
static cell *cellof(char *p, int check)
{
    if (p >= ARENA_BASE && p < ARENA_BASE + ARENA) {
        if (check) inblock(p);
        cell *c = &sh_arena[p - ARENA_BASE];
        if (c->ep != ep) {
            memset(c, 0, sizeof *c); c->ep = ep;
            chunk *k = &ch_arena[(p - ARENA_BASE) / 64];
            if (k->ep != ep) { k->ep = ep; k->wclk = k->wtid = 0; }
            else { c->wclk = k->wclk; c->wtid = k->wtid; }
            k->bytes = 1;
        }
        return c;
    }
    if (p >= glo && p < ghi) {
        if (&__start_mc11_untracked && p >= __start_mc11_untracked && p < __stop_mc11_untracked) return 0;
        cell *c = &sh_glob[p - glo];
        if (c->ep != ep) { memset(c, 0, sizeof *c); c->ep = ep; }
        return c;
    }
    return 0;
}
static inline int tracked(const char *p)
{
    if (!active) return 0;
    if (p >= ARENA_BASE && p < ARENA_BASE + ARENA) return 1;
    return p >= glo && p < ghi && nt > 1;
}
static void pread_(char *p, size_t n)
{
    if (!tracked(p)) return;
    const uint32_t *vc = T[cur].cur.vc;
    for (size_t i = 0; i < n; i++) {
        cell *c = cellof(p + i, 1);
        if (!c) return;
        if (c->wclk > vc[c->wtid]) race(p + i, c->wtid, "reads what the write of");
        c->rclk[cur] = vc[cur];
    }
    if (nl) for (size_t i = 0; i < n; i++) {
        loc *l = (((uintptr_t)(p + i)) & 3) == 0 ? findloc(p + i) : 0;
        if (l) for (int t = 0; t < nt; t++) if (l->wclk[t] > vc[t]) race(p + i, t, "reads plainly what the atomic write of");
    }
}
static void pwrite_(char *p, size_t n, int isfree)
{
    if (!tracked(p)) return;
    const uint32_t *vc = T[cur].cur.vc;
    int ar = p >= ARENA_BASE && p < ARENA_BASE + ARENA;
    for (size_t i = 0; i < n; i++) {
        if (ar) {
            size_t o = p + i - ARENA_BASE;
            chunk *k = &ch_arena[o / 64];
            if (!isfree) ch_dirty[o / 64] = 1;
            if (o % 64 == 0 && n - i >= 64) {
                if (k->ep != ep) { if (isfree) { i += 63; continue; } k->ep = ep; k->wclk = k->wtid = k->bytes = 0; }
                if (!k->bytes) {
                    if (!isfree) { inblock(p + i); inblock(p + i + 63); }
                    if (k->wclk > vc[k->wtid]) race(p + i, k->wtid, isfree ? "frees what the write of" : "writes what the write of");
                    k->wclk = vc[cur]; k->wtid = cur; i += 63;
                    continue;
                }
            }
        }
        cell *c = cellof(p + i, !isfree);
        if (!c) return;
        if (c->wclk > vc[c->wtid]) race(p + i, c->wtid, isfree ? "frees what the write of" : "writes what the write of");
        for (int t = 0; t < nt; t++) if (c->rclk[t] > vc[t]) race(p + i, t, isfree ? "frees what the read of" : "writes what the read of");
        c->wclk = vc[cur]; c->wtid = cur;
    }
    if (nl) for (size_t i = 0; i < n; i++) {
        loc *l = (((uintptr_t)(p + i)) & 3) == 0 ? findloc(p + i) : 0;
        if (!l) continue;
        for (int t = 0; t < nt; t++) {
            if (l->wclk[t] > vc[t]) race(p + i, t, "writes plainly what the atomic write of");
            if (l->rclk[t] > vc[t]) race(p + i, t, "writes plainly what the atomic read of");
        }
        l->nm = -1;      /* memory changes after this hook: rebase at the next atomic access */
    }
}
static void rebase(loc *l)
{
    int id = l - L;
    uint64_t v = 0; __real_memcpy(&v, l->addr, l->size);
    l->nm = 1; l->m[0].val = v; l->m[0].hasrel = 0; l->m[0].tid = 255; l->sc = 0;
    for (int t = 0; t < nt; t++) { view *w[3] = { &T[t].cur, &T[t].acq, &T[t].relf }; for (int k = 0; k < 3; k++) if (id < w[k]->nidx) w[k]->idx[id] = 0; }
    for (int i = 0; i < nl; i++) for (int k = 0; k < L[i].nm; k++) if (L[i].m[k].hasrel && id < L[i].m[k].rel.nidx) L[i].m[k].rel.idx[id] = 0;
    for (int i = 0; i < no; i++) if (id < O[i].rel.nidx) O[i].rel.idx[id] = 0;
    if (id < scview.nidx) scview.idx[id] = 0;
}
static loc *atomic_at(const volatile void *a, int size, int write)
{
    char *p = (char *)a;
    loc *l = getloc(a, size);
    if (l->nm < 0) rebase(l);
    const uint32_t *vc = T[cur].cur.vc;
    if (tracked(p)) for (int i = 0; i < size; i++) {
        cell *c = cellof(p + i, 1);
        if (!c) break;
        if (c->wclk > vc[c->wtid]) race(p + i, c->wtid, "accesses atomically what the write of");
        if (write) for (int t = 0; t < nt; t++) if (c->rclk[t] > vc[t]) race(p + i, t, "writes atomically what the read of");
    }
    if (write) l->wclk[cur] = vc[cur]; else l->rclk[cur] = vc[cur];
    return l;
}

/* ------------------------------------------------------------ scheduling */
static obj *findobj(const void *a) { for (int i = no - 1; i >= 0; i--) if (O[i].addr == a && O[i].live) return &O[i]; return 0; }

static int op_enabled(int t)
{
    thr *x = &T[t];
    op *o = &x->p;
    obj *m;
    switch (o->kind) {
    case O_LOAD:
        if (spinfree) return 1;
        if (x->loads > 80 && x->wstamp == writes) return 0;
        if (x->last_pc == o->pc && x->last_addr == o->addr) {
            loc *l = findloc((const char *)o->addr);
            return !l || l->nm < 0 || l->nm - 1 > x->last_idx;
        }
        return 1;
    case O_LOCK: m = findobj(o->addr); return !m || !m->locked || (m->recursive && m->owner == t);
    case O_WAIT: m = findobj(o->addr); return !m || m->count > 0 || eintr_left > 0;
    case O_JOIN: return T[o->target].finished;
    case O_JOINALL: for (int i = 0; i < nt; i++) if (i != t && !T[i].finished) return 0; return 1;
    case O_CWAKE: m = findobj(o->addr2); return (x->signaled || spur_left > 0) && (!m || !m->locked);
    }
    return 1;
}
static int is_sc(const op *o) { return o->mo == __ATOMIC_SEQ_CST; }
static int dependent(const op *a, const op *b)
{
    if (a->kind == O_FENCE || b->kind == O_FENCE) {
        const op *f = a->kind == O_FENCE ? a : b, *g = f == a ? b : a;
        return is_sc(f) && (g->kind >= O_LOAD && g->kind <= O_FENCE) && is_sc(g);
    }
    if (a->addr && b->addr && a->addr == b->addr) return !(a->kind == O_LOAD && b->kind == O_LOAD);
    if (a->addr2 && (a->addr2 == b->addr || a->addr2 == b->addr2)) return 1;
    if (b->addr2 && b->addr2 == a->addr) return 1;
    return 0;
}
static void state_hash(void)
{
    uint64_t h = 0x1234;
    for (int i = 0; i < nl; i++) h = mc_mix(h, L[i].nm > 0 ? L[i].m[L[i].nm - 1].val : 7);
    for (int i = 0; i < no; i++) h = mc_mix(h, (uint64_t)O[i].live | O[i].locked << 1 | (uint64_t)O[i].count << 8 | (uint64_t)O[i].owner << 40);
    for (int i = 0; i < nt; i++) { h = mc_mix(h, (uint64_t)T[i].p.kind | (uint64_t)T[i].finished << 8 | (uint64_t)T[i].p.addr << 16); h = mc_mix(h, (uint64_t)T[i].p.pc); }
    mc_state(h);
}
static void describe(char *b, size_t n)
{
    size_t k = 0; b[0] = 0;
    for (int i = 0; i < nt && k < n; i++) {
        if (T[i].finished) continue;
        obj *m = T[i].p.addr ? findobj(T[i].p.addr) : 0;
        k += snprintf(b + k, n - k, " thread %d at %s%s;", i, opnm[T[i].p.kind], m && m->kind == 1 && m->locked ? " (locked)" : "");
    }
}
/* pick the next thread; called by the current thread, whose pending operation is set (or which has finished) */
static void schedule(void)
{
    int cand[MAXT], n = 0, anyen = 0;
    unsigned en = 0;
    if (++steps > HORIZON) { char b[300]; describe(b, sizeof b); mc_fail("livelock", "no end after %d steps:%s", HORIZON, b); }
    for (int i = 0; i < nt; i++) if (!T[i].finished && T[i].p.kind != O_NONE && op_enabled(i)) { en |= 1u << i; anyen = 1; }
    if (!anyen) {
        spinfree = 1;                       /* a bounded spin may go on */
        for (int i = 0; i < nt; i++) if (!T[i].finished && T[i].p.kind == O_LOAD) { en |= 1u << i; anyen = 1; }
        spinfree = 0;
        if (anyen) { if (steps < HORIZON - 400) { static int q; (void)q; steps += 10; } sleepset = 0; }
    }
    if (!anyen) { char b[300]; describe(b, sizeof b); mc_fail("deadlock", "every thread is blocked:%s", b); }
    state_hash();
    int c;
    if (use_sleep) {
        if ((en & ~sleepset) == 0) mc_prune();
        if ((en >> cur & 1) && !(sleepset >> cur & 1)) cand[n++] = cur;
        for (int i = 0; i < nt; i++) if (i != cur && (en >> i & 1) && !(sleepset >> i & 1)) cand[n++] = i;
        c = mc_choose(n);
        unsigned s = sleepset;
        for (int i = 0; i < c; i++) s |= 1u << cand[i];
        unsigned ns = 0;
        for (int i = 0; i < nt; i++) if ((s >> i & 1) && !dependent(&T[i].p, &T[cand[c]].p)) ns |= 1u << i;
        sleepset = ns;
    } else {
        if (en >> cur & 1) {
            cand[n++] = cur;
            if (preempt_left > 0) for (int i = 0; i < nt; i++) if (i != cur && (en >> i & 1)) cand[n++] = i;
            c = mc_choose(n);
            if (c > 0) preempt_left--;
        } else {
            for (int i = 0; i < nt; i++) if (en >> i & 1) cand[n++] = i;
            c = mc_choose(n);
        }
    }
    mc_op();
    switch_to(cand[c]);
}
/* announce a visible operation and wait for the turn */
static void point(int kind, const volatile void *addr, const volatile void *addr2, const void *pc, int target, int mo)
{
    thr *t = &T[cur];
    t->p.kind = kind; t->p.addr = (const void *)addr; t->p.addr2 = (const void *)addr2; t->p.pc = pc; t->p.target = target; t->p.mo = mo;
    if (cur != 0 && !t->started) {
        t->started = 1;
        int me = cur; cur = creator;
        mc11_switch(&T[me].sp, T[cur].sp);
        /* back with the turn */
    } else if (nt == 1) {
        spinfree = 1; int en0 = op_enabled(0); spinfree = 0;
        if (!en0) { char b[300]; describe(b, sizeof b); mc_fail("deadlock", "the only thread blocks:%s", b); }
        mc_op();
    } else schedule();
    t = &T[cur];
    if (pendev[cur] >= 0) { fill_event(pendev[cur]); pendev[cur] = -1; }
    if (kind != O_LOAD) { t->last_pc = 0; t->loads = 0; }
    if (kind != O_LOAD && kind != O_JOIN && kind != O_JOINALL) writes++;
    t->cur.vc[cur]++;
    if (t->cur.vc[cur] > 60000) mc_fail("livelock", "thread %d takes more than 60000 steps", cur);
    t->p.kind = O_OBJ; t->p.addr = t->p.addr2 = 0;
}

/* ------------------------------------------------------------ atomics */
static int acq_of(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int rel_of(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void read_msg(loc *l, int i, int mo)
{
    thr *t = &T[cur]; int id = l - L;
    vset(&t->cur, id, i);
    if (l->m[i].hasrel) { if (acq_of(mo)) vjoin(&t->cur, &l->m[i].rel); else vjoin(&t->acq, &l->m[i].rel); }
    if (mo == __ATOMIC_SEQ_CST && i > l->sc) l->sc = i;
}
static void put_msg(loc *l, uint64_t v, int mo, int rmw)
{
    thr *t = &T[cur]; int id = l - L;
    if (l->nm >= MAXM) mc_fail("livelock", "more than %d writes to one location", MAXM);
    int i = l->nm++;
    msg *m = &l->m[i], *pm = &l->m[i - 1];
    m->val = v; m->tid = cur; m->hasrel = 0;
    vset(&t->cur, id, i);
    if (rel_of(mo)) { vcopy(&m->rel, &t->cur); m->hasrel = 1; }
    else if (t->hasrelf) { vcopy(&m->rel, &t->relf); vset(&m->rel, id, i); m->hasrel = 1; }
    if (pm->hasrel && (rmw || pm->tid == cur)) {
        if (m->hasrel) vjoin(&m->rel, &pm->rel); else { vcopy(&m->rel, &pm->rel); m->hasrel = 1; }
        vset(&m->rel, id, i);
    }
    if (mo == __ATOMIC_SEQ_CST) l->sc = i;
    __real_memcpy(l->addr, &v, l->size);
    if (rel_of(mo)) t->cur.vc[cur]++;   /* what follows is not covered by this release */
}
static uint64_t do_load(const volatile void *a, int size, int mo, const void *pc)
{
    if (!active) { uint64_t v = 0; __real_memcpy(&v, (const void *)a, size); return v; }
    point(O_LOAD, a, 0, pc, 0, mo);
    thr *t = &T[cur];
    loc *l = atomic_at(a, size, 0);
    int lo = vget(&t->cur, (int)(l - L)), hi = l->nm - 1, i = hi;
    if (mo == __ATOMIC_SEQ_CST && l->sc > lo) lo = l->sc;
    int again = t->last_pc == pc && t->last_addr == (const void *)a;
    if (again && t->last_idx + 1 > lo) lo = t->last_idx + 1 < hi ? t->last_idx + 1 : hi;
    if (t->loads > 40) lo = hi;
    if (hi > lo && stale_left > 0) {
        int k = mc_choose(hi - lo + 1);
        i = hi - k;
        if (k) { stale_left--; stale_used++; }
    }
    if (t->wstamp != writes) { t->wstamp = writes; t->loads = 0; }
    t->loads++;
    t->last_pc = pc; t->last_addr = (const void *)a; t->last_idx = i;
    read_msg(l, i, mo);
    mc_note("thread %d: load %s%lx = %ld%s", cur, "", (long)((const char *)a - ARENA_BASE) & 0xfffff, (long)l->m[i].val, i < hi ? "  (older value)" : "");
    return l->m[i].val;
}
static void do_store(volatile void *a, int size, uint64_t v, int mo, const void *pc)
{
    if (!active) { __real_memcpy((void *)a, &v, size); return; }
    point(O_STORE, a, 0, pc, 0, mo);
    loc *l = atomic_at(a, size, 1);
    put_msg(l, v, mo, 0);
    mc_note("thread %d: store %lx = %ld", cur, (long)((const char *)a - ARENA_BASE) & 0xfffff, (long)v);
}
enum { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
static uint64_t app(int k, uint64_t o, uint64_t v)
{
    switch (k) { case R_XCHG: return v; case R_ADD: return o + v; case R_SUB: return o - v; case R_AND: return o & v; case R_OR: return o | v; case R_XOR: return o ^ v; }
    return ~(o & v);
}
static uint64_t trunc_(uint64_t v, int size) { return size == 8 ? v : v & ((1ull << (8 * size)) - 1); }
static uint64_t do_rmw(volatile void *a, int size, int k, uint64_t v, int mo, const void *pc)
{
    if (!active) { uint64_t o = 0; __real_memcpy(&o, (void *)a, size); uint64_t w = app(k, o, v); __real_memcpy((void *)a, &w, size); return o; }
    point(O_RMW, a, 0, pc, 0, mo);
    loc *l = atomic_at(a, size, 1);
    int i = l->nm - 1;
    uint64_t o = l->m[i].val;
    read_msg(l, i, mo);
    put_msg(l, trunc_(app(k, o, v), size), mo, 1);
    mc_note("thread %d: rmw %lx %ld -> %ld", cur, (long)((const char *)a - ARENA_BASE) & 0xfffff, (long)o, (long)l->m[i + 1].val);
    return o;
}
static int do_cas(volatile void *a, int size, void *exp, uint64_t v, int mo, int fmo, int weak, const void *pc)
{
    uint64_t e = 0; __real_memcpy(&e, exp, size);
    v = trunc_(v, size);
    if (!active) {
        uint64_t o = 0; __real_memcpy(&o, (void *)a, size);
        if (o == e) { __real_memcpy((void *)a, &v, size); return 1; }
        __real_memcpy(exp, &o, size); return 0;
    }
    point(O_RMW, a, 0, pc, 0, mo);
    thr *t = &T[cur];
    loc *l = atomic_at(a, size, 1);
    int lo = vget(&t->cur, (int)(l - L)), hi = l->nm - 1;
    if (fmo == __ATOMIC_SEQ_CST && l->sc > lo) lo = l->sc;
    /* outcomes: the newest message first; then failing reads of older ones; then a spurious failure */
    int c[MAXM + 2], n = 0, w[MAXM + 2];
    c[n] = hi; w[n++] = 0;
    if (stale_left > 0) {
        for (int i = hi - 1; i >= lo; i--) if (l->m[i].val != e) { c[n] = i; w[n++] = 0; }
        if (weak && l->m[hi].val == e) { c[n] = hi; w[n++] = 1; }
    }
    int k = mc_choose(n);
    if (k) { stale_left--; stale_used++; }
    int i = c[k];
    uint64_t o = l->m[i].val;
    if (o == e && !w[k]) {
        read_msg(l, i, mo);
        put_msg(l, v, mo, 1);
        mc_note("thread %d: cas %lx %ld -> %ld", cur, (long)((const char *)a - ARENA_BASE) & 0xfffff, (long)o, (long)v);
        return 1;
    }
    read_msg(l, i, fmo);
    __real_memcpy(exp, &o, size);
    mc_note("thread %d: cas %lx fails, found %ld", cur, (long)((const char *)a - ARENA_BASE) & 0xfffff, (long)o);
    return 0;
}
void __tsan_atomic_thread_fence(int mo)
{
    if (!active) return;
    point(O_FENCE, 0, 0, __builtin_return_address(0), 0, mo);
    thr *t = &T[cur];
    if (acq_of(mo)) vjoin(&t->cur, &t->acq);
    if (mo == __ATOMIC_SEQ_CST) { vjoin(&t->cur, &scview); for (int i = 0; i < nl; i++) if (L[i].nm > 0) vset(&t->cur, i, L[i].sc); }
    if (rel_of(mo)) { vcopy(&t->relf, &t->cur); t->hasrelf = 1; }
    if (mo == __ATOMIC_SEQ_CST) {           /* only coherence, not happens-before, crosses an SC fence on its own */
        uint32_t z[MAXT]; memcpy(z, scview.vc, sizeof z);
        vjoin(&scview, &t->cur); memcpy(scview.vc, z, sizeof z);
    }
    if (rel_of(mo)) t->cur.vc[cur]++;
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define RA __builtin_return_address(0)
#define AT(N, TY, SZ) \
TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { return (TY)do_load(a, SZ, mo, RA); } \
void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { do_store(a, SZ, (uint64_t)v, mo, RA); } \
TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, SZ, R_XCHG, v, mo, RA); } \
TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, SZ, R_ADD, v, mo, RA); } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, SZ, R_SUB, v, mo, RA); } \
TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, SZ, R_AND, v, mo, RA); } \
TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, SZ, R_OR, v, mo, RA); } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, SZ, R_XOR, v, mo, RA); } \
TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) { return (TY)do_rmw(a, SZ, R_NAND, v, mo, RA); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { return do_cas(a, SZ, c, v, mo, fmo, 0, RA); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { return do_cas(a, SZ, c, v, mo, fmo, 1, RA); } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { do_cas(a, SZ, &c, v, mo, fmo, 0, RA); return c; }
AT(8, uint8_t, 1)
AT(16, uint16_t, 2)
AT(32, uint32_t, 4)
AT(64, uint64_t, 8)
#define RW(N) \
void __tsan_read##N(void *a) { pread_((char *)a, N); } void __tsan_write##N(void *a) { pwrite_((char *)a, N, 0); } \
void __tsan_unaligned_read##N(void *a) { pread_((char *)a, N); } void __tsan_unaligned_write##N(void *a) { pwrite_((char *)a, N, 0); } \
void __tsan_volatile_read##N(void *a) { pread_((char *)a, N); } void __tsan_volatile_write##N(void *a) { pwrite_((char *)a, N, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { pread_((char *)a, n); }
void __tsan_write_range(void *a, size_t n) { pwrite_((char *)a, n, 0); }
void __tsan_vptr_update(void **a, void *v) { (void)v; pwrite_((char *)a, 8, 0); }
void __tsan_vptr_read(void **a) { pread_((char *)a, 8); }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}

void *__wrap_memcpy(void *d, const void *s, size_t n) { pread_((char *)s, n); pwrite_((char *)d, n, 0); return memmove(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { pread_((char *)s, n); pwrite_((char *)d, n, 0); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { pwrite_((char *)d, n, 0); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { pread_((char *)a, n); pread_((char *)b, n); return __real_memcmp(a, b, n); }

/* ------------------------------------------------------------ memory */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void *aalloc(size_t n, size_t al, int zero)
{
    nalloc++;
    if (oomk >= 0 && oomk-- == 0) { oomk = -1; oomfired = 1; errno = ENOMEM; return 0; }
    if (al < 16) al = 16;
    size_t p = (brk_ + 32 + al - 1) & ~(al - 1);
    if (n > ARENA - 4096 || p + n > ARENA - 64 || nb >= 65000) { if (n > (1u << 30)) { errno = ENOMEM; return 0; } mc_fail("engine:arena", "arena exhausted"); }
    blk *b = &B[nb];
    b->p = ARENA_BASE + p; b->n = n; b->state = 1; b->tid = cur; b->clk = T[cur].cur.vc[cur];
    for (size_t g = p / 16; g <= (p + (n ? n - 1 : 0)) / 16; g++) gran[g] = nb;
    nb++;
    brk_ = p + n;
    live_n++; live_b += n;
    if (zero && n > 16384) {
        for (size_t i = 0; i < n; ) {
            size_t o = p + i, m = 64 - o % 64; if (m > n - i) m = n - i;
            if (ch_dirty[o / 64]) { __real_memset(b->p + i, 0, m); if (m == 64) ch_dirty[o / 64] = 0; }
            i += m;
        }
    } else {
        memset(ch_dirty + p / 64, 1, (p + n + 63) / 64 - p / 64);
        if (n <= 4096 || zero) __real_memset(b->p, zero ? 0 : 0xbe, n);
    }
    return b->p;
}
static blk *ablk(const void *p)
{
    if ((char *)p < ARENA_BASE || (char *)p >= ARENA_BASE + ARENA) return 0;
    uint32_t g = gran[((char *)p - ARENA_BASE) / 16];
    if (!g || B[g].p != (char *)p) mc_fail("bad-free", "free or realloc of an address that is not a block");
    if (B[g].state == 2) mc_fail("double-free", "a block of %zu bytes is freed twice", B[g].n);
    return &B[g];
}
static void afree(void *p)
{
    blk *b = ablk(p);
    if (!b) { __real_free(p); return; }
    if (b->clk > T[cur].cur.vc[b->tid]) race(b->p, b->tid, "frees a block whose allocation");
    size_t n = b->n;
    pwrite_(b->p, n, 1);
    for (int i = 0; i < no; i++) if (O[i].live && (char *)O[i].addr >= b->p && (char *)O[i].addr < b->p + n) mc_fail("sync-freed", "memory of a %s is freed and it is not destroyed", O[i].kind == 1 ? "mutex" : O[i].kind == 2 ? "semaphore" : "condition");
    b->state = 2; live_n--; live_b -= n;
}
void *__wrap_malloc(size_t n) { return active ? aalloc(n, 16, 0) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { size_t t; if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return 0; } return active ? aalloc(t, 16, 1) : __real_calloc(a, b); }
void __wrap_free(void *p) { if (p) afree(p); }
void *__wrap_realloc(void *p, size_t n)
{
    if (!active) return __real_realloc(p, n);
    if (!p) return aalloc(n, 16, 0);
    blk *b = ablk(p);
    if (!b) return __real_realloc(p, n);
    void *q = aalloc(n, 16, 0);
    if (!q) return 0;
    size_t m = b->n < n ? b->n : n;
    pread_(b->p, m); memmove(q, b->p, m);
    afree(p);
    return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { size_t t; if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return 0; } return __wrap_realloc(p, t); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memmove(p, s, n); return p; }
extern int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **pp, size_t al, size_t n) { if (!active) return __real_posix_memalign(pp, al, n); void *p = aalloc(n, al, 0); if (!p) return ENOMEM; *pp = p; return 0; }
int mc_is_live(const void *p) { uint32_t g = gran[((char *)p - ARENA_BASE) / 16]; return g && B[g].state == 1; }
size_t mc_block_size(const void *p) { uint32_t g = gran[((char *)p - ARENA_BASE) / 16]; return g && B[g].state == 1 ? B[g].n : 0; }
void mc_forget(const void *p) { (void)p; }

/* ------------------------------------------------------------ threads and locks */
static obj *newobj(const void *a, int kind)
{
    obj *x = findobj(a);
    if (x) { mc_fail("sync:reinit", "a live %s is initialised again", kind == 1 ? "mutex" : kind == 2 ? "semaphore" : "condition"); }
    if (no >= MAXO) mc_fail("engine:objs", "too many locks");
    x = &O[no++];
    x->addr = a; x->kind = kind; x->live = 1; x->locked = 0; x->owner = -1; x->count = 0; x->recursive = 0; vzero(&x->rel);
    return x;
}
static void touch(const void *a, size_t n) { if (tracked((const char *)a)) for (size_t i = 0; i < n; i++) if (!cellof((char *)a + i, 1)) break; }
static obj *mustobj(const void *a, int kind, const char *what)
{
    touch(a, 1);
    obj *x = findobj(a);
    if (!x && kind != 2) {          /* statically initialised? */
        size_t n = kind == 1 ? sizeof(pthread_mutex_t) : sizeof(pthread_cond_t);
        int z = 1;
        for (size_t i = 0; i < n; i++) if (((const char *)a)[i] != 0) z = 0;
        for (int i = 0; i < no; i++) if (O[i].addr == a) z = 0;
        if (z) { x = newobj(a, kind); x->inited = 0; return x; }
    }
    if (!x || x->kind != kind) mc_fail("sync:uninit", "%s on an object that is not initialised (or destroyed)", what);
    return x;
}
#define ACTIVE_OR(...) 
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at)
{
    touch(m, sizeof *m);
    if (initfail >= 0 && initfail-- == 0) return ENOMEM;
    pwrite_((char *)m, sizeof *m, 0);
    obj *x = newobj(m, 1); int ty = 0;
    if (at) { pthread_mutexattr_gettype(at, &ty); x->recursive = ty == PTHREAD_MUTEX_RECURSIVE; }
    memset(m, 0x11, sizeof *m);
    vcopy(&x->rel, &T[cur].cur);
    T[cur].cur.vc[cur]++;
    return 0;
}
static void obj_race(obj *x)  /* initialisation must be visible to the user */
{
    char *p = (char *)x->addr; cell *c = tracked(p) ? cellof(p, 1) : 0;
    if (c && c->wclk > T[cur].cur.vc[c->wtid]) race(p, c->wtid, "uses a lock whose initialisation");
    if (c) c->rclk[cur] = T[cur].cur.vc[cur];
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    obj *x = mustobj(m, 1, "destroy");
    if (x->locked) mc_fail("sync:destroy-locked", "a locked mutex is destroyed");
    for (int i = 0; i < nt; i++) if (i != cur && !T[i].finished && (T[i].p.addr == m || T[i].p.addr2 == m)) mc_fail("sync:destroy-used", "a mutex is destroyed while thread %d is about to use it", i);
    pwrite_((char *)m, 1, 0);
    x->live = 0;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    mustobj(m, 1, "lock");
    point(O_LOCK, m, 0, RA, 0, 0);
    obj *x = mustobj(m, 1, "lock");
    obj_race(x);
    if (x->locked) { x->locked++; return 0; }
    x->locked = 1; x->owner = cur;
    vjoin(&T[cur].cur, &x->rel);
    mc_note("thread %d: locks", cur);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    mustobj(m, 1, "trylock");
    point(O_TRYLOCK, m, 0, RA, 0, 0);
    obj *x = mustobj(m, 1, "trylock");
    obj_race(x);
    if (x->locked) { if (x->recursive && x->owner == cur) { x->locked++; return 0; } return EBUSY; }
    x->locked = 1; x->owner = cur;
    vjoin(&T[cur].cur, &x->rel);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    mustobj(m, 1, "unlock");
    point(O_UNLOCK, m, 0, RA, 0, 0);
    obj *x = mustobj(m, 1, "unlock");
    if (!x->locked || x->owner != cur) mc_fail("sync:unlock", "thread %d unlocks a mutex it does not hold", cur);
    if (--x->locked) return 0;
    x->owner = -1;
    vjoin(&x->rel, &T[cur].cur);
    T[cur].cur.vc[cur]++;               /* what follows is not covered by this release */
    mc_note("thread %d: unlocks", cur);
    return 0;
}
int sem_init(sem_t *s, int sh, unsigned v)
{
    (void)sh;
    touch(s, sizeof *s);
    if (initfail >= 0 && initfail-- == 0) { errno = ENOSYS; return -1; }
    pwrite_((char *)s, sizeof *s, 0);
    obj *x = newobj(s, 2); x->count = v; memset(s, 0x22, sizeof *s);
    vcopy(&x->rel, &T[cur].cur);
    T[cur].cur.vc[cur]++;
    return 0;
}
int sem_destroy(sem_t *s)
{
    obj *x = mustobj(s, 2, "sem_destroy");
    for (int i = 0; i < nt; i++) if (i != cur && !T[i].finished && T[i].p.addr == s) mc_fail("sync:destroy-used", "a semaphore is destroyed while thread %d is about to use it", i);
    pwrite_((char *)s, 1, 0);
    x->live = 0; return 0;
}
int sem_wait(sem_t *s)
{
    mustobj(s, 2, "sem_wait");
    point(O_WAIT, s, 0, RA, 0, 0);
    obj *x = mustobj(s, 2, "sem_wait");
    obj_race(x);
    if (x->count <= 0) { eintr_left--; mc_note("thread %d: sem_wait is interrupted", cur); errno = EINTR; return -1; }
    x->count--;
    vjoin(&T[cur].cur, &x->rel);
    mc_note("thread %d: sem_wait", cur);
    return 0;
}
int sem_trywait(sem_t *s)
{
    mustobj(s, 2, "sem_trywait");
    point(O_TRYWAIT, s, 0, RA, 0, 0);
    obj *x = mustobj(s, 2, "sem_trywait");
    obj_race(x);
    if (x->count <= 0) { errno = EAGAIN; return -1; }
    x->count--;
    vjoin(&T[cur].cur, &x->rel);
    return 0;
}
int sem_timedwait(sem_t *s, const struct timespec *ts) { (void)ts; if (sem_trywait(s) == 0) return 0; errno = ETIMEDOUT; return -1; }
int sem_post(sem_t *s)
{
    mustobj(s, 2, "sem_post");
    point(O_POST, s, 0, RA, 0, 0);
    obj *x = mustobj(s, 2, "sem_post");
    obj_race(x);
    x->count++;
    vjoin(&x->rel, &T[cur].cur);
    T[cur].cur.vc[cur]++;               /* what follows is not covered by this release */
    mc_note("thread %d: sem_post", cur);
    return 0;
}
int sem_getvalue(sem_t *s, int *v)
{
    mustobj(s, 2, "sem_getvalue");
    point(O_TRYWAIT, s, 0, RA, 0, 0);
    *v = (int)mustobj(s, 2, "sem_getvalue")->count; return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; touch(c, sizeof *c); if (initfail >= 0 && initfail-- == 0) return EAGAIN; pwrite_((char *)c, sizeof *c, 0); newobj(c, 3); memset(c, 0x33, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c)
{
    obj *x = mustobj(c, 3, "cond_destroy");
    for (int i = 0; i < nt; i++) if (i != cur && !T[i].finished && T[i].p.addr == c) mc_fail("sync:destroy-used", "a condition is destroyed while thread %d uses it", i);
    pwrite_((char *)c, 1, 0);
    x->live = 0; return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    mustobj(c, 3, "cond_wait");
    point(O_CWAIT, c, m, RA, 0, 0);
    obj *x = mustobj(m, 1, "cond_wait");
    if (!x->locked || x->owner != cur) mc_fail("sync:unlock", "cond_wait without holding the mutex");
    x->locked = 0; x->owner = -1;
    vjoin(&x->rel, &T[cur].cur);
    T[cur].cur.vc[cur]++;               /* what follows is not covered by this release */
    T[cur].signaled = 0;
    point(O_CWAKE, c, m, RA, 0, 0);
    if (!T[cur].signaled) { spur_left--; mc_note("thread %d: cond_wait wakes for no reason", cur); }
    T[cur].signaled = 0;
    x = mustobj(m, 1, "cond_wait");
    x->locked = 1; x->owner = cur;
    vjoin(&T[cur].cur, &x->rel);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    (void)ts; (void)c;      /* times out at once, having let go of the mutex */
    pthread_mutex_unlock(m); pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t *c)
{
    mustobj(c, 3, "cond_signal");
    point(O_SIGNAL, c, 0, RA, 0, 0);
    mustobj(c, 3, "cond_signal");
    int w[MAXT], n = 0;
    for (int i = 0; i < nt; i++) if (!T[i].finished && T[i].p.kind == O_CWAKE && T[i].p.addr == c && !T[i].signaled) w[n++] = i;
    if (n) T[w[mc_choose(n)]].signaled = 1;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    mustobj(c, 3, "cond_broadcast");
    point(O_SIGNAL, c, 0, RA, 0, 0);
    mustobj(c, 3, "cond_broadcast");
    for (int i = 0; i < nt; i++) if (!T[i].finished && T[i].p.kind == O_CWAKE && T[i].p.addr == c) T[i].signaled = 1;
    return 0;
}
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    (void)at;
    if (ncreate++ == createfail) return EAGAIN;
    int t = nt;                     /* the id is stored before the thread can look for it */
    pwrite_((char *)id, sizeof *id, 0);
    *id = (pthread_t)(0x1000 + t);
    spawn(fn, 0, arg);
    mc_note("thread %d: creates thread %d", cur, t);
    return 0;
}
int pthread_join(pthread_t id, void **ret)
{
    long t = (long)id - 0x1000;
    if (t <= 0 || t >= nt) mc_fail("sync:join", "join of something that is not a thread");
    if (T[t].joined || T[t].detached) mc_fail("sync:join", "a thread is joined twice");
    point(O_JOIN, 0, 0, RA, (int)t, 0);
    T[t].joined = 1;
    vjoin(&T[cur].cur, &T[t].cur);
    if (ret) { pwrite_((char *)ret, sizeof *ret, 0); *ret = T[t].ret; }
    return 0;
}
int pthread_detach(pthread_t id) { long t = (long)id - 0x1000; if (t > 0 && t < nt) T[t].detached = 1; return 0; }
pthread_t pthread_self(void) { return (pthread_t)(0x1000 + cur); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void pthread_exit(void *r) { T[cur].ret = r; thread_finish(); abort(); }
int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { (void)t; (void)n; (void)s; return 0; }
int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *s) { (void)p; (void)n; (void)s; return 0; }
int sched_yield(void) { return 0; }
int usleep(unsigned u) { (void)u; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return 0; }
unsigned sleep(unsigned s) { (void)s; return 0; }

/* ------------------------------------------------------------ harness interface */
void mc11_config(int preempt, int stale) { use_sleep = preempt < 0; preempt_left = preempt < 0 ? 0 : preempt; stale_left = stale; }
int  mc11_go(void (*fn)(void *), void *arg) { return spawn(0, fn, arg); }
void mc11_run(void)
{
    if (nt > 1) point(O_JOINALL, 0, 0, 0, 0, 0);
    for (int i = 1; i < nt; i++) vjoin(&T[0].cur, &T[i].cur);
}
int  mc11_self(void) { return cur; }
int  mc11_threads_left(void) { int n = 0; for (int i = 1; i < nt; i++) n += !T[i].finished; return n; }
int  mc11_sync_left(void) { int n = 0; for (int i = 0; i < no; i++) n += O[i].live; return n; }
int  mc11_stale_used(void) { return stale_used; }
void mc11_eintr(int b) { eintr_left = b; }
void mc11_spurious(int b) { spur_left = b; }
void mc11_horizon(int n) { HORIZON = n; }
void mc11_init_fails(int n) { initfail = n; }
void mc11_create_fails(int n) { createfail = n; ncreate = 0; }
int  mc11_creates(void) { return ncreate; }
static void fill_event(int n)
{
    ev *e = &EV[n];
    T[cur].cur.vc[cur]++;
    e->tid = cur; e->clk = T[cur].cur.vc[cur]; e->t = evtime++; memcpy(e->vc, T[cur].cur.vc, sizeof e->vc);
}
int  mc11_begin(void)
{
    if (nev >= MAXEV) mc_fail("engine:events", "too many events");
    pendev[cur] = nev;
    return nev++;
}
int  mc11_event(void)
{
    if (pendev[cur] >= 0) { fill_event(pendev[cur]); pendev[cur] = -1; }
    if (nev >= MAXEV) mc_fail("engine:events", "too many events");
    fill_event(nev);
    return nev++;
}
int  mc11_before(int a, int b) { return a != b && EV[b].vc[EV[a].tid] >= EV[a].clk; }
int  mc11_time(int a) { return EV[a].t; }
