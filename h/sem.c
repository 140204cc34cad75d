/* C67: the counting semaphores for systems without unnamed ones (built from a mutex and a condition), every interleaving */
#include "mc11.h"
#include <errno.h>
#include <stdlib.h>
#include <limits.h>
#include <pthread.h>
/* the library's own header, in place of the system's, under other names */
#define _SEMAPHORE_H 1
#define sem_t       pl_sem_t
#define sem_init    pl_sem_init
#define sem_destroy pl_sem_destroy
#define sem_wait    pl_sem_wait
#define sem_post    pl_sem_post
#define sem_trywait pl_sem_trywait
#ifdef POSIXHDR
#include "posix/semaphore.h"
#else
#include "Darwin/semaphore.h"
#endif
#include "posix/darwin_sem.c"

#define MO 16
typedef struct { char k; int got, b, e; } sop;      /* W wait, T try, P post */
MC11_H static sop H[MO]; MC11_H static int hn; MC11_H static unsigned char bef[MO][MO];
MC11_H static pl_sem_t *S; MC11_H static int eno;
#define NOTS __attribute__((no_sanitize("thread")))
NOTS static sop *op(char k) { if (hn == MO) mc_fail("engine:hist", "history too long"); sop *o = &H[hn++]; o->k = k; o->got = 1; return o; }
static void thread(void *arg)
{
    for (const char *p = arg; *p; p++) {
        sop *o = op(*p); o->b = mc11_begin(); int r;
        if (*p == 'W') r = sem_wait(S); else if (*p == 'P') r = sem_post(S); else { errno = hn % 3 == 0 ? 0 : hn % 3 == 1 ? EINTR : ENOMEM; r = sem_trywait(S); if (r != 0) { MC_ASSERT(r == -1 && errno == EAGAIN, "try", "trywait returns %d with error %d", r, errno); o->got = 0; r = 0; } }
        o->e = mc11_event();
        MC_ASSERT(r == 0, "ret", "%s returns %d", *p == 'W' ? "wait" : "post", r);
    }
}
/* some order of the operations, agreeing with what happened before what, explains every result */
NOTS static int lin(unsigned done, int n, int v)
{
    if (n == hn) return 1;
    for (int i = 0; i < hn; i++) {
        if (done >> i & 1) continue;
        int ok = 1; for (int j = 0; j < hn && ok; j++) if (j != i && !(done >> j & 1) && bef[j][i]) ok = 0;
        if (!ok) continue;
        int d = H[i].k == 'P' ? 1 : H[i].got ? -1 : 0;
        if (d < 0 && v == 0) continue;
        if (d == 0 && v != 0) continue;
        if (lin(done | 1u << i, n + 1, v + d)) return 1;
    }
    return 0;
}
NOTS static void check(int v0)
{
    for (int i = 0; i < hn; i++) for (int j = 0; j < hn; j++) bef[i][j] = i != j && mc11_time(H[i].e) < mc11_time(H[j].b);
    if (lin(0, 0, v0)) return;
    char b[200]; int k = 0; for (int i = 0; i < hn; i++) k += snprintf(b + k, sizeof b - k, " %c%d[%d,%d]", H[i].k, H[i].got, mc11_time(H[i].b), mc11_time(H[i].e));
    mc_fail("linear", "starting at %d no order of the operations explains%s", v0, b);
}
typedef struct { const char *name; int v0, spur, tier; const char *prog[5]; } conf;
static const conf confs[];
static void run(long arg)
{
    const conf *c = &confs[arg]; hn = 0; S = malloc(sizeof *S); int v = c->v0;
    MC_ASSERT(sem_init(S, 0, c->v0) == 0, "init", "no semaphore"); mc11_config(MC11_UNBOUNDED, 0); mc11_spurious(c->spur);
    for (int i = 0; i < 5 && c->prog[i]; i++) mc11_go(thread, (void *)c->prog[i]);
    mc11_run(); mc11_spurious(0); check(c->v0);
    for (int i = 0; i < hn; i++) v += H[i].k == 'P' ? 1 : -H[i].got;
    for (int i = 0; i < v; i++) MC_ASSERT(sem_trywait(S) == 0, "left", "%d of %d are left", i, v);
    errno = 0; MC_ASSERT(sem_trywait(S) == -1 && errno == EAGAIN, "left", "more than %d are left", v);
    MC_ASSERT(sem_destroy(S) == 0, "destroy", "destroy fails"); free(S);
    MC_ASSERT(mc11_sync_left() == 0, "sync-left", "%d objects are left after the semaphore is destroyed", mc11_sync_left());
}
/* the one who waits is the last to use it: destroys and releases it as soon as the wait returns */
static void last(void *arg)
{
    for (const char *p = arg; *p; p++) { if (*p == 'W') sem_wait(S); else while (sem_trywait(S) != 0) { sem_wait(S); break; } }
    pl_sem_t *s = S; sem_destroy(s); free(s);
}
static void poster(void *arg) { for (const char *p = arg; *p; p++) sem_post(S); }
static void handoff(long arg)
{
    static const char *const L[] = { "W", "T", "WW", "WW", "WWW" }; static const char *const P[][4] = { { "P" }, { "P" }, { "PP" }, { "P", "P" }, { "P", "P", "P" } };
    hn = 0; S = malloc(sizeof *S); MC_ASSERT(sem_init(S, 0, 0) == 0, "init", "no semaphore"); mc11_config(MC11_UNBOUNDED, 0); mc11_spurious(arg < 4);
    for (int i = 0; i < 4 && P[arg][i]; i++) mc11_go(poster, (void *)P[arg][i]);
    mc11_go(last, (void *)L[arg]); mc11_run();
    MC_ASSERT(mc11_sync_left() == 0, "sync-left", "%d objects are left after the semaphore is destroyed", mc11_sync_left());
}
/* a wait orders what the poster wrote before (data[] is checked for races) */
static int *data;
static void pw(void *arg) { data[(long)arg] = 5; sem_post(S); }
static void rd(void *arg) { (void)arg; sem_wait(S); sem_wait(S); MC_ASSERT(data[0] == 5 && data[1] == 5, "order", "what was written before a post is not seen after the wait"); }
static void order(long arg)
{
    data = calloc(2, sizeof *data); S = malloc(sizeof *S); sem_init(S, arg, 0); mc11_config(MC11_UNBOUNDED, 0);
    mc11_go(rd, 0); mc11_go(pw, (void *)0); mc11_go(pw, (void *)1); mc11_run(); sem_destroy(S); free(S); free(data);
}
static void initfail(long arg)
{
    S = malloc(sizeof *S); mc11_init_fails(arg); errno = 0; int r = sem_init(S, 0, 1);
    if (arg < 2) { MC_ASSERT(r == -1 && errno > 0, "init", "init returns %d with error %d where call %ld failed", r, errno, arg); MC_ASSERT(mc11_sync_left() == 0, "sync-left", "a failed init leaves %d objects", mc11_sync_left()); }
    else { MC_ASSERT(r == 0, "init", "init returns %d", r); sem_destroy(S); MC_ASSERT(mc11_sync_left() == 0, "sync-left", "%d objects are left", mc11_sync_left()); }
    free(S);
}
/* the blocking queue on these semaphores: every item comes out once, in order of each producer */
#include "fast/syncq.h"
SYNCQ_TYPEDEF(q1, int, 1); SYNCQ_TYPEDEF(q2, int, 2);
static q1 *Q1; static q2 *Q2; MC11_H static int qgot[16], qn;
NOTS static void take(int v) { if (qn == 16) mc_fail("queue", "too many items"); qgot[qn++] = v; }
static void enq(void *arg) { for (int k = (int)(long)arg, n = k & 15, i = 0; i < n; i++) if (Q1) SYNCQ_ENQ(Q1, (k & ~15) + i); else SYNCQ_ENQ(Q2, (k & ~15) + i); }
static void deq(void *arg) { for (int n = (int)(long)arg; n > 0; n--) take(Q1 ? SYNCQ_DEQ(Q1) : SYNCQ_DEQ(Q2)); }
static void queue(long arg)     /* size, producers, items of each, consumers */
{
    int sz = arg & 15, np = arg >> 4 & 15, ni = arg >> 8 & 15, nc = arg >> 12 & 15; Q1 = 0; Q2 = 0; qn = 0;
    if (sz == 1) { Q1 = malloc(sizeof *Q1); MC_ASSERT(SYNCQ_INIT(Q1, 1) == 0, "init", "no queue"); } else { Q2 = malloc(sizeof *Q2); MC_ASSERT(SYNCQ_INIT(Q2, 2) == 0, "init", "no queue"); }
    mc11_config(MC11_UNBOUNDED, 0); for (int i = 0; i < np; i++) mc11_go(enq, (void *)(long)((i + 1) * 16 + ni)); for (int i = 0; i < nc; i++) mc11_go(deq, (void *)(long)(np * ni / nc)); mc11_run();
    MC_ASSERT(qn == np * ni, "queue", "%d of %d items come out", qn, np * ni); int seen[160] = { 0 }, last[10] = { 0 };
    for (int i = 0; i < qn; i++) { int v = qgot[i]; MC_ASSERT(v >= 16 && v < 160 && (v & 15) < ni && !seen[v]++, "queue", "item %d comes out wrongly", v); if (nc == 1) { MC_ASSERT(v % 16 >= last[v / 16], "queue-order", "item %d comes out after a later one", v); last[v / 16] = v % 16; } }
    if (Q1) { SYNCQ_FINI(Q1); free(Q1); } else { SYNCQ_FINI(Q2); free(Q2); }
    MC_ASSERT(mc11_sync_left() == 0, "sync-left", "%d objects are left after the queue is finished", mc11_sync_left());
}
/* one thread, every sequence that does not block */
static void seq(long depth)
{
    static const unsigned from[] = { 0, 1, 2, 0xff, 0xffff, 0x7fffffff, 0xffffff00u }; unsigned v = from[mc_choose(7)]; S = malloc(sizeof *S); MC_ASSERT(sem_init(S, 0, v) == 0, "init", "no semaphore");
    for (int i = 0; i < depth; i++) {
        int o = mc_choose(3); mc_op(); errno = i % 2 ? EINTR : 0;
        if (o == 0) { MC_ASSERT(sem_post(S) == 0, "ret", "post fails"); v++; }
        else if (o == 1 && v > 0) { MC_ASSERT(sem_wait(S) == 0, "ret", "wait fails"); v--; }
        else { int r = sem_trywait(S); MC_ASSERT(v > 0 ? r == 0 : r == -1 && errno == EAGAIN, "try", "trywait at %u returns %d", v, r); if (v > 0) v--; }
        mc_state(mc_mix(v, i));
    }
    sem_destroy(S); free(S);
}
#define Z(v, sp, t, ...) { "from " #v " spurious " #sp " " #__VA_ARGS__, v, sp, t, { __VA_ARGS__ } }
static const conf confs[] = {
    Z(0, 0, 0, "P", "W"), Z(0, 2, 0, "P", "W"), Z(1, 0, 0, "W", "W", "P"), Z(0, 0, 0, "PP", "W", "W"), Z(0, 1, 0, "PP", "W", "W"), Z(0, 0, 0, "P", "P", "W", "W"), Z(0, 0, 0, "P", "P", "WW"), Z(1, 0, 0, "WP", "WP"), Z(1, 0, 0, "WP", "WP", "WP"), Z(1, 2, 0, "WP", "WP"),
    Z(2, 0, 0, "WP", "WP", "WP"), Z(0, 0, 0, "P", "T"), Z(1, 0, 0, "T", "T"), Z(1, 0, 0, "T", "T", "P"), Z(0, 0, 0, "TT", "PP"), Z(1, 0, 0, "TP", "T"), Z(0, 0, 0, "PPP", "W", "T"), Z(0, 0, 0, "PPP", "W", "TT"), Z(0, 0, 0, "PP", "P", "W", "T"), Z(0, 0, 0, "PPPP", "WW", "TT"), Z(0, 1, 0, "PP", "WW"),
    Z(0, 0, 0, "PPP", "W", "W", "W"), Z(1, 1, 0, "WPW", "P"), Z(0, 0, 0, "PW", "PW"), Z(0, 0, 0, "PPW", "PW", "T"),
    Z(0, 2, 0, "PPP", "W", "W", "W"), Z(0, 1, 0, "P", "P", "W", "W"), Z(0, 2, 0, "PP", "W", "W"), Z(2, 1, 0, "WP", "WP", "WP"), Z(1, 0, 0, "WPWP", "WPWP"), Z(1, 0, 0, "WPWP", "WP", "WP"), Z(0, 0, 0, "PPPP", "WW", "T", "T"), Z(0, 0, 0, "PP", "PP", "WW", "WW"),
    Z(0, 0, 0, "PP", "PP", "W", "W", "WW"), Z(1, 2, 0, "WP", "WP", "WP"), Z(0, 0, 0, "PPPPP", "WWW", "TT"), Z(0, 3, 0, "PPP", "WW", "W"), Z(3, 0, 0, "WP", "WP", "WP", "WP"), Z(1, 0, 0, "WP", "WP", "WP", "WP"), Z(0, 0, 0, "P", "P", "P", "P", "WWWW"),
    Z(0, 0, 1, "PPP", "PP", "WW", "WWW"), Z(0, 2, 1, "PPPP", "WW", "WW"), Z(1, 0, 1, "WPWP", "WPWP", "WP", "WP"), Z(2, 2, 1, "WPWP", "WPWP", "WP"), Z(0, 0, 1, "PPPPPP", "WW", "TT", "TT"), Z(0, 0, 1, "P", "P", "P", "W", "WW"),
    { 0 } };
#define NC (sizeof confs / sizeof confs[0] - 1)
static const mc_scenario extra[] = {
    { "handoff 1", handoff, 0, 0 }, { "handoff 1 try", handoff, 1, 0 }, { "handoff 2", handoff, 2, 0 }, { "handoff 1+1", handoff, 3, 0 }, { "handoff 1+1+1", handoff, 4, 0 },
    { "order", order, 0, 0 }, { "init fails 0", initfail, 0, 0, 0, MC_F_LEAK }, { "init fails 1", initfail, 1, 0, 0, MC_F_LEAK }, { "init fails never", initfail, 2, 0, 0, MC_F_LEAK }, { "queue of 1, 1x2 to 1", queue, 0x1211, 0 }, { "queue of 2, 1x3 to 1", queue, 0x1312, 0 }, { "queue of 1, 2x1 to 1", queue, 0x1121, 0 }, { "queue of 1, 2x1 to 2", queue, 0x2121, 0 }, { "queue of 2, 2x1 to 2", queue, 0x2122, 0 }, { "queue of 1, 1x2 to 2", queue, 0x2211, 0 },
    { "queue of 1, 2x2 to 1", queue, 0x1221, 1 }, { "queue of 2, 2x2 to 1", queue, 0x1222, 1 }, { "queue of 1, 1x4 to 2", queue, 0x2411, 1 }, { "one thread", seq, 9, 0, 2, MC_F_LEAK } };
#define NX (sizeof extra / sizeof extra[0])
mc_scenario scenarios[NC + NX + 1] __asm__("mc_scenarios");
__attribute__((constructor)) static void fill(void)
{
    for (unsigned i = 0; i < NC; i++) { scenarios[i].name = confs[i].name; scenarios[i].run = run; scenarios[i].arg = i; scenarios[i].tier = confs[i].tier; scenarios[i].split = 2; }
    for (unsigned i = 0; i < NX; i++) scenarios[NC + i] = extra[i];
}
