/* C04, C05, C06: blocking queue, job manager, work manager under every interleaving */
#include "mc11.h"
#include "lin.h"
#include <errno.h>
#include <stdlib.h>
#include <assert.h>
#include <stdarg.h>
#include <pthread.h>
#include <semaphore.h>
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; mc_fail("assert", "assertion failed: %s", e); }
#define U MC11_UNBOUNDED

#if defined(P_C04)
#include "fast/syncq.h"
typedef struct { long a, b; } item;
SYNCQ_TYPEDEF(q1, item, 1); SYNCQ_TYPEDEF(q2, item, 2); SYNCQ_TYPEDEF(q3, item, 3); SYNCQ_TYPEDEF(q5, item, 5);
typedef struct { const char *name; int sz, off, pre; const char *prog[5]; int preempt, eintr, tier; } conf;
MC11_H static const conf *C;
MC11_H static long nextv;
MC11_H static void *Q;
#define DEF(n, T) static void enq_##n(item x) { T *q = Q; SYNCQ_ENQ(q, x); } static item deq_##n(void) { T *q = Q; return SYNCQ_DEQ(q); } \
  static int init_##n(void) { T *q = Q = malloc(sizeof *q); return SYNCQ_INIT(q, n); } static void fini_##n(void) { T *q = Q; SYNCQ_FINI(q); free(q); }
DEF(1, q1) DEF(2, q2) DEF(3, q3) DEF(5, q5)
#define SEL(f, ...) (C->sz == 1 ? f##_1(__VA_ARGS__) : C->sz == 2 ? f##_2(__VA_ARGS__) : C->sz == 3 ? f##_3(__VA_ARGS__) : f##_5(__VA_ARGS__))
static void thread(void *arg)
{
    for (const char *p = arg; *p; p++) {
        lop *o;
        if (*p == 'E') { o = lin_op(0, 1, 1); long v = o->v[0] = ++nextv; item x = { v, v * 3 + 1 }; o->b = mc11_begin(); SEL(enq, x); o->e = mc11_event(); o->got = 1; }
        else { o = lin_op(1, 1, 1); o->b = mc11_begin(); item x = SEL(deq); o->e = mc11_event(); o->got = 1; o->v[0] = x.a; MC_ASSERT(x.b == x.a * 3 + 1, "torn", "item %ld comes with the contents of another", x.a); }
    }
}
static const conf confs[];
static void run(long arg)
{
    C = &confs[arg]; nextv = 0;
    MC_ASSERT(SEL(init) == 0, "init", "initializing a queue fails");
    lin_reset(C->sz);
    for (int i = 0; i < C->off; i++) { thread("E"); thread("D"); MC_ASSERT(H_[0].v[0] == H_[1].v[0], "serial", "item %ld comes out after %ld was put in", H_[1].v[0], H_[0].v[0]); hn = 0; }
    for (int i = 0; i < C->pre; i++) { thread("E"); lq0[lq0n++] = H_[0].v[0]; hn = 0; }
    mc11_config(C->preempt, 0);
    if (C->eintr) mc11_eintr(C->eintr);
    int bal = C->pre;
    for (int i = 0; i < 5 && C->prog[i]; i++) { mc11_go(thread, (void *)C->prog[i]); for (const char *p = C->prog[i]; *p; p++) bal += *p == 'E' ? 1 : -1; }
    mc11_run();
    mc11_eintr(0);
    for (int i = 0; i < bal; i++) thread("D");
    lin_check();
    /* all the room is back */
    hn = 0;
    for (int i = 0; i < C->sz; i++) thread("E");
    for (int i = 0; i < C->sz; i++) { thread("D"); MC_ASSERT(H_[i].v[0] == H_[C->sz + i].v[0], "serial", "item %ld comes out where %ld is due", H_[C->sz + i].v[0], H_[i].v[0]); }
    SEL(fini);
    MC_ASSERT(mc11_sync_left() == 0, "sync-left", "%d locks or semaphores are left after the queue is finished", mc11_sync_left());
}
/* every one-thread sequence that does not block */
static void seq(long arg)
{
    static conf c; c.sz = arg & 255; C = &c; int depth = arg >> 8; nextv = 0;
    SEL(init); lin_reset(c.sz);
    int n = 0; long first = 1, last = 0;
    for (int i = 0; i < depth; i++) {
        int e = n == 0 ? 1 : n == c.sz ? 0 : mc_choose(2);
        hn = 0;
        thread(e ? "E" : "D");
        if (e) { last++; n++; } else { MC_ASSERT(H_[0].v[0] == first, "serial-order", "item %ld comes out, not %ld", H_[0].v[0], first); first++; n--; }
        mc_op(); mc_state(mc_mix(mc_mix(c.sz, n), last * 16 + i));
    }
    while (n > 0) { hn = 0; thread("D"); MC_ASSERT(H_[0].v[0] == first, "serial-order", "draining"); first++; n--; }
    SEL(fini);
}
static void initfail(long arg)
{
    static conf c; c.sz = 2; C = &c;
    mc11_init_fails(arg);
    int r = SEL(init);
    if (arg < 3) { MC_ASSERT(r < 0, "init", "initializing reports %d where call %ld failed", r, arg); MC_ASSERT(mc11_sync_left() == 0, "sync-left", "a failed initialization leaves %d locks or semaphores", mc11_sync_left()); free(Q); }
    else { MC_ASSERT(r == 0, "init", "initializing reports %d", r); SEL(fini); }
}
#define Z(s, o, p, ei, pr, t, ...) { #s "." #o "." #p " eintr " #ei " " #__VA_ARGS__, s, o, p, { __VA_ARGS__ }, pr, ei, t }
#define ZZ(s, o, p, ei, t) Z(s, o, p, ei, U, t, "E", "D"), Z(s, o, p, ei, U, t, "EE", "DD"), Z(s, o, p, ei, U, t, "E", "E", "DD"), Z(s, o, p, ei, U, t, "EE", "D", "D"), Z(s, o, p, ei, U, t, "E", "E", "D", "D"), Z(s, o, p, ei, U, t, "EEE", "DDD")
#define ZE(s, o, p) Z(s, o, p, 0, U, 0, "ED", "ED"), Z(s, o, p, 0, U, 0, "ED", "E", "D")
static const conf confs[] = {
 ZZ(1, 0, 0, 0, 0), ZZ(1, 0, 1, 0, 0), ZZ(2, 0, 0, 0, 0), ZZ(2, 1, 1, 0, 0), ZZ(2, 1, 2, 0, 0), ZZ(3, 2, 0, 0, 0), ZZ(3, 1, 2, 0, 0), ZZ(3, 2, 3, 0, 0), ZZ(5, 4, 4, 0, 0), ZE(1, 0, 0), ZE(2, 0, 0), ZE(2, 1, 1), ZE(3, 2, 2), Z(1, 0, 1, 0, U, 0, "DE", "DE"), Z(2, 1, 2, 0, U, 0, "DE", "DE", "E", "D"),
 Z(1, 0, 0, 1, U, 0, "EE", "DD"), Z(1, 0, 1, 1, U, 0, "EE", "DD"), Z(2, 1, 0, 2, U, 0, "E", "E", "DD"), Z(2, 1, 2, 2, U, 0, "E", "E", "DD"), Z(1, 0, 1, 2, U, 0, "EE", "D", "D"), Z(1, 0, 0, 2, U, 0, "E", "E", "D", "D"), Z(2, 1, 1, 2, U, 0, "ED", "ED"),
 Z(1, 0, 0, 0, U, 0, "EEE", "EEE", "DDDDDD"), Z(2, 1, 1, 0, U, 0, "EE", "EE", "DD", "DD"), Z(1, 0, 0, 0, U, 0, "ED", "ED", "ED"), Z(2, 1, 0, 0, U, 0, "ED", "ED", "ED"), Z(2, 0, 1, 0, U, 0, "EEEE", "DDDD"), Z(3, 2, 0, 0, U, 0, "E", "E", "E", "DDD"), Z(1, 0, 0, 0, U, 0, "E", "E", "E", "DD", "D"),
 Z(1, 0, 0, 0, U, 1, "EE", "EE", "DD", "DD"), Z(3, 2, 1, 0, U, 1, "EEE", "EEE", "DDD", "DDD"), Z(2, 0, 0, 0, U, 1, "EDED", "EDED", "ED"), Z(2, 1, 2, 3, U, 1, "EEE", "EE", "DD", "DDD"), Z(1, 0, 0, 0, U, 1, "E", "E", "EE", "DD", "DD"),
 { 0 } };
#define NCONF (sizeof confs / sizeof confs[0] - 1)
static const mc_scenario extra[] = { { "one thread, size 1", seq, 1 | 10 << 8, 0 }, { "one thread, size 2", seq, 2 | 12 << 8, 0 }, { "one thread, size 3", seq, 3 | 14 << 8, 0 }, { "one thread, size 5", seq, 5 | 15 << 8, 0 },
 { "init fails 0", initfail, 0, 0, 0, MC_F_LEAK }, { "init fails 1", initfail, 1, 0, 0, MC_F_LEAK }, { "init fails 2", initfail, 2, 0, 0, MC_F_LEAK }, { "init fails never", initfail, 3, 0, 0, MC_F_LEAK } };

#else
#ifdef P_C05
#include "posix/job.h"
#else
#include "posix/work.h"
#endif
#include "utils/cpu.h"
void error(int d, int e, const char *f, ...) { (void)d; (void)e; (void)f; }
#define MAXJ 8
/* a job: kind 'n' plain, 'f' fails, 'b' meets the other 'b' jobs before ending, 's' submits the next job when it runs, 'p' signals that it ran, 'r' relays to the caller */
typedef struct { int runs, done, by; int payload, kind; long stamp; } jobt;
typedef struct { const char *name; int nw; const char *jobs, *jobs2; int preempt, eintr, tier; int flags; } conf;
enum { F_CREATE = 1, F_OOM = 2, F_INIT = 4, F_MANY = 8, F_AUTO = 16 };
MC11_H static const conf *C;
MC11_H static jobt *J[MAXJ]; MC11_H static int nj, ranseq; MC11_H static int order[MAXJ * 4]; MC11_H static int mid, arrived, wantb, dead;
MC11_H static int target[MAXJ], gotw[MAXJ];
MC11_H static void *CTX;
static sem_t *meet, *told;
static pthread_mutex_t *olock;
#ifdef P_C05
static job_manager *M;
static int m_init(int n, jobfunc_t f, void *c) { return job_manager_init(M, n, f, c); }
static void m_submit(int i) { job_manager_submit_job(M, J[i]); }
static int m_wait(void) { return job_manager_wait(M); }
static void m_destroy(void) { job_manager_destroy(M); }
#else
static work_manager *M;
static int m_init(int n, workfunc_t f, void *c) { return work_manager_init(M, n, f, c); }
static void m_submit(int i) { gotw[i] = work_manager_submit_work(M, target[i], J[i]); }
static int m_wait(void) { return work_manager_wait(M); }
static void m_destroy(void) { work_manager_destroy(M); }
#endif
MC11_H static int whose[16];   /* thread that runs as worker nr, plus one */
static int idx(void *j) { for (int i = 0; i < nj; i++) if (J[i] == j) return i; mc_fail("job", "a worker runs something that was never submitted"); }
static int func(void *ctx, void *job, int nr)
{
    MC_ASSERT(!dead, "late", "a job runs after the wait for all of them returned");
    MC_ASSERT(ctx == CTX, "context", "a job runs with a context that is not the manager's");
    MC_ASSERT(nr >= 0 && nr < mid, "worker", "a job runs on worker %d of %d", nr, mid);
    for (int w = 0; w < 16; w++) if (w != nr) MC_ASSERT(whose[w] != mc11_self() + 1, "worker", "worker %d says it is worker %d", w, nr);
    MC_ASSERT(!whose[nr] || whose[nr] == mc11_self() + 1, "worker", "two workers say they are number %d", nr);
    whose[nr] = mc11_self() + 1;
    int i = idx(job);
    jobt *j = job;
    MC_ASSERT(j->payload == i * 7 + 3, "payload", "job %d is not as it was submitted", i);
    MC_ASSERT(j->runs == 0, "twice", "job %d runs more than once", i);
    j->runs++; j->by = nr;
    order[ranseq++] = i;
    if (j->kind == 'b') {                 /* all 'b' jobs run at the same time */
        if (++arrived == wantb) for (int k = 0; k < wantb; k++) sem_post(meet);
        while (sem_wait(meet) != 0) ;
    }
    if (j->kind == 's') m_submit(i + 1);
    if (j->kind == 'p' || j->kind == 's') sem_post(told);
    j->done = 1; j->stamp = i + 1000;
    return j->kind == 'f' ? -1 - i : i;   /* a positive result is not a failure */
}
static void setjobs(const char *a)
{
    for (; *a; a++) {
        if (*a >= '0' && *a <= '9') { target[nj - 1] = *a == '9' ? 77 : *a - '0'; continue; }
        if (*a == '-') continue;
        jobt *j = malloc(sizeof *j); j->runs = j->done = 0; j->by = -1; j->payload = nj * 7 + 3; j->kind = *a; j->stamp = 0;
        if (*a == 'b') wantb++;
        gotw[nj] = -1; target[nj] = -1; J[nj++] = j;
    }
}
static void submitter(void *a) { long lo = (long)a & 255, hi = (long)a >> 8; for (long i = lo; i < hi; i++) { m_submit(i); if (J[i]->kind == 's') i++; } }
static void left(const char *when)
{
    MC_ASSERT(mc11_threads_left() == 0, "threads-left", "%d workers still run %s", mc11_threads_left(), when);
    MC_ASSERT(mc11_sync_left() == 0, "sync-left", "%d locks or semaphores are left %s", mc11_sync_left(), when);
}
static const conf confs[];
static void common(void)
{
    nj = ranseq = arrived = wantb = dead = 0; mid = 0; memset(whose, 0, sizeof whose);
    static int ctx; CTX = &ctx;
    M = malloc(sizeof *M);
}
static void run(long arg)
{
    C = &confs[arg]; common();
    meet = malloc(sizeof *meet); told = malloc(sizeof *told); sem_init(meet, 0, 0); sem_init(told, 0, 0);
    mc11_config(C->preempt, 0);
    mid = C->nw;
    setjobs(C->jobs); int n1 = nj; if (C->jobs2) setjobs(C->jobs2);
    int r = m_init(C->nw, func, CTX);
    MC_ASSERT(r == C->nw, "init", "starting %d workers returns %d", C->nw, r);
    int tellers = 0, fails = 0, ss = 0;
    for (int i = 0; i < nj; i++) { if (J[i]->kind == 's' || J[i]->kind == 'p') tellers++; if (J[i]->kind == 's') ss++; if (J[i]->kind == 'f') fails++; }
    if (C->jobs2) mc11_go(submitter, (void *)(long)(n1 | nj << 8));
    submitter((void *)(long)(0 | n1 << 8));
    for (int i = 0; i < tellers; i++) while (sem_wait(told) != 0) ;
    if (C->eintr) mc11_eintr(C->eintr);
    int e = m_wait();
    dead = 1;
    if (C->eintr) mc11_eintr(0);
    for (int i = 0; i < nj; i++) {
        MC_ASSERT(J[i]->runs == 1, "lost", "job %d ran %d times when the wait returned", i, J[i]->runs);
        MC_ASSERT(J[i]->done == 1 && J[i]->stamp == i + 1000, "unfinished", "job %d had not finished when the wait returned", i);
    }
    MC_ASSERT(e == fails, "failures", "the wait reports %d failed jobs, not %d", e, fails);
#ifdef P_C06
    int rr = 0;
    for (int i = 0; i < nj; i++) {
        MC_ASSERT(gotw[i] == J[i]->by, "worker", "submitting item %d answers worker %d, it ran on %d", i, gotw[i], J[i]->by);
        if (target[i] >= 0 && target[i] < C->nw) MC_ASSERT(J[i]->by == target[i], "directed", "item %d for worker %d ran on %d", i, target[i], J[i]->by);
        else if (!C->jobs2 && !ss) { MC_ASSERT(J[i]->by == rr % C->nw, "round-robin", "item %d went to worker %d, its turn is %d's", i, J[i]->by, rr % C->nw); rr++; }
    }
    if (C->jobs2 && !ss) {
        int cnt[8] = { 0 }, tot = 0;
        for (int i = 0; i < nj; i++) if (target[i] < 0 || target[i] >= C->nw) cnt[J[i]->by]++, tot++;
        for (int w = 0; w < C->nw; w++) MC_ASSERT(cnt[w] >= tot / C->nw && cnt[w] <= (tot + C->nw - 1) / C->nw, "round-robin", "worker %d got %d of %d items, of %d workers", w, cnt[w], tot, C->nw);
    }
    if (!ss) for (int a = 0; a < ranseq; a++) for (int b = a + 1; b < ranseq; b++)
        if (J[order[a]]->by == J[order[b]]->by && (order[a] < n1) == (order[b] < n1))
            MC_ASSERT(order[a] < order[b], "serial", "worker %d ran item %d before item %d", J[order[a]]->by, order[a], order[b]);
#else
    if (C->nw == 1 && !ss) for (int a = 0; a < ranseq; a++) for (int b = a + 1; b < ranseq; b++)
        if ((order[a] < n1) == (order[b] < n1)) MC_ASSERT(order[a] < order[b], "serial", "the only worker ran job %d before job %d", order[a], order[b]);
#endif
    mc11_run();
    m_destroy(); free(M);
    sem_destroy(meet); sem_destroy(told); free(meet); free(told);
    for (int i = 0; i < nj; i++) free(J[i]);
    left("after the manager is gone");
}
/* many jobs: one worker, or more jobs than the queue holds */
static int manyfn(void *ctx, void *job, int nr)
{
    long *j = job; (void)ctx;
    MC_ASSERT(nr >= 0 && nr < mid, "worker", "a job runs on worker %d of %d", nr, mid);
    MC_ASSERT(!dead, "late", "a job runs after the wait for all of them returned");
    MC_ASSERT(*j == 1, "twice", "a job runs although its count is %ld", *j);
    if (mid == 1) MC_ASSERT(ranseq == j - (long *)CTX, "serial", "job %d runs as number %d", (int)(j - (long *)CTX), ranseq);
    *j = 2; ranseq++;
    return ranseq % 2 ? -1 : 0;
}
static void many(long arg)
{
    static conf c; c.nw = arg & 15; C = &c; common(); int n = arg >> 8;
    long *a = malloc(n * sizeof *a); CTX = a;
    mc11_config((arg >> 4) & 15, 0); mc11_horizon(50000);
    mid = c.nw;
    for (int i = 0; i < n; i++) a[i] = 0;
    MC_ASSERT(m_init(c.nw, manyfn, CTX) == c.nw, "init", "starting fails");
    for (int i = 0; i < n; i++) {
        a[i] = 1;
#ifdef P_C05
        job_manager_submit_job(M, &a[i]);
#else
        work_manager_submit_work(M, -1, &a[i]);
#endif
    }
    int e = m_wait(); dead = 1;
    for (int i = 0; i < n; i++) MC_ASSERT(a[i] == 2, "lost", "job %d of %d has not run when the wait returned", i, n);
    MC_ASSERT(e == (n + 1) / 2, "failures", "the wait reports %d failed jobs, not %d", e, (n + 1) / 2);
    mc11_run();
    m_destroy(); free(M); free(a); left("after the manager is gone");
}
/* starting fails part way */
static void startfail(long arg)
{
    static conf c; c.nw = arg & 15; c.jobs2 = 0; C = &c; common();
    int kind = (arg >> 4) & 15, at = arg >> 8;
    mc11_config(U, 0);
    mid = c.nw;
    if (kind == 0) mc11_create_fails(at); else if (kind == 1) mc_oom_at(at); else mc11_init_fails(at);
    int r = m_init(c.nw, func, CTX);
    mc_oom_at(-1); mc11_create_fails(-1); mc11_init_fails(-1);
    if (r < 0) left("after starting failed");
    else { MC_ASSERT(r == c.nw, "init", "starting %d workers returns %d", c.nw, r); setjobs("nn"); submitter((void *)(long)(nj << 8)); m_wait(); for (int i = 0; i < nj; i++) { MC_ASSERT(J[i]->runs == 1 && J[i]->done, "lost", "job %d did not run", i); free(J[i]); } dead = 1; m_destroy(); left("after the manager is gone"); }
    MC_ASSERT(kind == 2 || (kind == 0 && at >= c.nw) || (kind == 1 && at > 0) || r < 0, "init", "starting reports %d though it could not be done", r);
    free(M);
}
#define Z(w, j, j2, ei, pr, t) { #w " workers " j " " #j2 " eintr " #ei, w, j, j2, pr, ei, t, 0 }
static const conf confs[] = {
 Z(1, "", 0, 0, U, 0), Z(2, "", 0, 0, U, 0), Z(3, "", 0, 0, U, 0), Z(1, "n", 0, 0, U, 0), Z(1, "nfn", 0, 0, U, 0), Z(2, "n", 0, 0, U, 0), Z(2, "nf", 0, 0, U, 0),
 Z(1, "nn", 0, 2, U, 0), Z(2, "n", 0, 2, U, 0), Z(2, "", 0, 2, U, 0), Z(1, "sp", 0, 0, U, 0), Z(1, "np", "np", 0, U, 0),
#ifdef P_C05
 Z(2, "bb", 0, 0, U, 0), Z(2, "nn", 0, 0, U, 0), Z(2, "sp", 0, 0, U, 0), Z(2, "p", "p", 0, U, 0), Z(3, "n", 0, 0, U, 0), Z(2, "fff", 0, 0, 2, 0), Z(3, "bbb", 0, 0, 2, 0), Z(3, "nn", 0, 0, 3, 0), Z(3, "nfnf", 0, 0, 2, 0), Z(2, "np", "p", 0, 3, 0), Z(1, "sppp", 0, 0, U, 0), Z(2, "spsp", 0, 0, 2, 0), Z(2, "nfn", 0, 2, 2, 0),
 Z(2, "nfn", 0, 0, U, 1), Z(3, "nn", 0, 0, U, 1), Z(3, "bbb", 0, 0, U, 1), Z(2, "np", "np", 0, U, 1), Z(2, "spsp", 0, 0, U, 1), Z(3, "nfnfn", 0, 1, 3, 1), Z(4, "bbbb", 0, 0, 2, 1),
#else
 Z(2, "n0n0", 0, 0, U, 0), Z(2, "n1n0f1", 0, 0, U, 0), Z(2, "nfn", 0, 0, U, 0), Z(3, "nnn", 0, 0, U, 0), Z(2, "n2n9n0n", 0, 0, U, 0), Z(2, "b0b1", 0, 0, U, 0), Z(3, "bbb", 0, 0, 1, 0), Z(2, "s0p1", 0, 0, U, 0), Z(2, "p", "p", 0, U, 0), Z(2, "pp", "p0p", 0, 1, 0), Z(3, "p2p", "p1", 0, 1, 0), Z(2, "nnn", 0, 2, U, 0), Z(3, "ffffff", 0, 0, 1, 0), Z(2, "n0n0n1n1n", 0, 1, 2, 0), Z(2, "s1p1s0p1", 0, 0, 2, 0),
 Z(3, "nnnn", 0, 0, U, 1), Z(3, "bbb", 0, 0, U, 1), Z(2, "pp", "p0p", 0, U, 1), Z(2, "nnnn", 0, 2, U, 1), Z(3, "n0n0n1n1n", 0, 1, 3, 1), Z(2, "s1p1s0p1", 0, 0, U, 1), Z(3, "p2p", "pp1", 0, U, 1), Z(4, "bbbb", 0, 0, U, 1), Z(4, "nfnfnfnf", 0, 1, U, 1), Z(3, "nnn", "nnp", 0, U, 1),
#endif
 { 0 } };
#define NCONF (sizeof confs / sizeof confs[0] - 1)
#define SF(n, w, k, at) { n " " #w " workers at " #at, startfail, w | k << 4 | at << 8, 0, 0, MC_F_LEAK }
#define MANY(w, n, p, t) { #n " jobs " #w " workers preemptions " #p, many, w | p << 4 | (n) << 8, t, 0, MC_F_LEAK }
static const mc_scenario extra[] = { MANY(1, 1030, 0, 0), MANY(2, 1027, 0, 0), MANY(1, 300, 1, 0), MANY(2, 120, 1, 0),
#ifdef P_C05
 MANY(1, 1030, 1, 1), MANY(2, 1027, 1, 1),
#endif
 SF("create fails", 1, 0, 0), SF("create fails", 2, 0, 0), SF("create fails", 2, 0, 1), SF("create fails", 3, 0, 2), SF("create fails", 3, 0, 1), SF("create fails", 2, 0, 2),
 SF("no memory", 2, 1, 0), SF("no memory", 2, 1, 1), SF("no semaphore", 2, 2, 0), SF("no semaphore", 2, 2, 1), SF("no semaphore", 2, 2, 2), SF("no semaphore", 2, 2, 3), SF("no semaphore", 2, 2, 4), SF("no semaphore", 2, 2, 5), SF("no semaphore", 2, 2, 6), SF("no semaphore", 2, 2, 7), SF("no semaphore", 3, 2, 10) };
#endif
#define NEX (sizeof extra / sizeof extra[0])
mc_scenario scenarios[NCONF + NEX + 1] __asm__("mc_scenarios");
__attribute__((constructor)) static void fill(void)
{
    for (size_t i = 0; i < NEX; i++) scenarios[i] = extra[i];
    for (size_t i = 0; i < NCONF; i++) scenarios[NEX + i] = (mc_scenario){ confs[i].name, run, (long)i, confs[i].tier, 0, MC_F_LEAK };
}
