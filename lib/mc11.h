/* mc11.h - controlled scheduler and C11 memory model for multi-threaded code.
 *
 * The code under test is compiled with -fsanitize=thread, but the runtime is
 * lib/mc11.c: every atomic access and every pthread/semaphore call is a
 * scheduling point whose outcome (which thread goes next, which permitted
 * message a load returns) is an mc_choose. Plain accesses are checked for data
 * races (vector clocks), use after free and accesses outside live blocks.
 */
#ifndef VERIF_MC11_H
#define VERIF_MC11_H
#include "mc.h"
#ifdef __cplusplus
extern "C" {
#endif
#define MC11_UNBOUNDED (-1)
/* preempt: bound on preemptive switches (MC11_UNBOUNDED: every interleaving up to
 * commuting independent steps); stale: loads per execution that may return an older message */
void mc11_config(int preempt, int stale);
int  mc11_go(void (*fn)(void *), void *arg);  /* a thread; it runs to its first scheduling point */
void mc11_run(void);                          /* until all threads have finished */
int  mc11_self(void);
int  mc11_threads_left(void);                 /* threads (other than main) not finished */
int  mc11_sync_left(void);                    /* mutexes, semaphores, conditions not destroyed */
int  mc11_stale_used(void);
void mc11_eintr(int budget);                  /* blocked sem_wait may fail with EINTR this often */
void mc11_spurious(int budget);               /* cond_wait may wake for no reason this often */
void mc11_create_fails(int nth);              /* the nth (0-based) pthread_create fails; -1 none */
int  mc11_creates(void);
void mc11_init_fails(int nth);                /* the nth (0-based) sem_init, pthread_mutex_init or pthread_cond_init fails */
void mc11_horizon(int steps);                 /* steps after which an execution counts as endless (6000) */
/* events for histories */
int  mc11_begin(void);                        /* an event at the thread's next visible step */
int  mc11_event(void);                        /* an event now */
int  mc11_before(int a, int b);               /* a happens-before b */
int  mc11_time(int a);                        /* position in the interleaving */
#define MC11_H __attribute__((section("mc11_untracked")))  /* harness data: not checked for races */
#ifdef __cplusplus
}
#endif
#endif
