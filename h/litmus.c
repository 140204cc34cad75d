/* self-test of mc11: which outcomes of classic litmus shapes are reached (printed through mc_state-independent notes in files) */
#include "mc11.h"
#include <stdatomic.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
MC11_H static atomic_int x, y; MC11_H static int r1, r2, r3, r4; MC11_H static int d;
static int out_fd(const char *n) { char b[200]; snprintf(b, sizeof b, "%s/%s", getenv("LITMUS_OUT"), n); return open(b, O_WRONLY | O_CREAT | O_APPEND, 0644); }
static void result(const char *n, int a, int b, int c, int e) { int f = out_fd(n); char s[64]; int k = snprintf(s, sizeof s, "%d %d %d %d\n", a, b, c, e); if (write(f, s, k) != k) {} close(f); }
#define M_(z) ((memory_order)(z))
static memory_order st, ld;
static void sb1(void *a) { atomic_store_explicit(&x, 1, st); r1 = atomic_load_explicit(&y, ld); }
static void sb2(void *a) { atomic_store_explicit(&y, 1, st); r2 = atomic_load_explicit(&x, ld); }
static void mp1(void *a) { atomic_store_explicit(&x, 1, memory_order_relaxed); atomic_store_explicit(&y, 1, st); }
static void mp2(void *a) { r1 = atomic_load_explicit(&y, ld); r2 = atomic_load_explicit(&x, memory_order_relaxed); }
static void mpf1(void *a) { atomic_store_explicit(&x, 1, memory_order_relaxed); atomic_thread_fence(memory_order_release); atomic_store_explicit(&y, 1, memory_order_relaxed); }
static void mpf2(void *a) { r1 = atomic_load_explicit(&y, memory_order_relaxed); atomic_thread_fence(memory_order_acquire); r2 = atomic_load_explicit(&x, memory_order_relaxed); }
static void w1(void *a) { atomic_store_explicit(&x, 1, st); }
static void w2(void *a) { atomic_store_explicit(&y, 1, st); }
static void ir1(void *a) { r1 = atomic_load_explicit(&x, ld); r2 = atomic_load_explicit(&y, ld); }
static void ir2(void *a) { r3 = atomic_load_explicit(&y, ld); r4 = atomic_load_explicit(&x, ld); }
static void inc(void *a) { atomic_fetch_add_explicit(&x, 1, memory_order_relaxed); }
static void sbf1(void *a) { atomic_store_explicit(&x, 1, memory_order_relaxed); atomic_thread_fence(memory_order_seq_cst); r1 = atomic_load_explicit(&y, memory_order_relaxed); }
static void sbf2(void *a) { atomic_store_explicit(&y, 1, memory_order_relaxed); atomic_thread_fence(memory_order_seq_cst); r2 = atomic_load_explicit(&x, memory_order_relaxed); }
static void zero(void) { atomic_init(&x, 0); atomic_init(&y, 0); r1 = r2 = r3 = r4 = 0; }
static void two(const char *n, void (*a)(void *), void (*b)(void *), memory_order s, memory_order l)
{ st = s; ld = l; zero(); mc11_config(-1, 4); mc11_go(a, 0); mc11_go(b, 0); mc11_run(); result(n, r1, r2, r3, r4); }
static void s_sb_rlx(long a) { two("sb_rlx", sb1, sb2, memory_order_relaxed, memory_order_relaxed); }
static void s_sb_ra(long a) { two("sb_ra", sb1, sb2, memory_order_release, memory_order_acquire); }
static void s_sb_sc(long a) { two("sb_sc", sb1, sb2, memory_order_seq_cst, memory_order_seq_cst); }
static void s_sb_fence(long a) { two("sb_fence", sbf1, sbf2, 0, 0); }
static void s_mp_rlx(long a) { two("mp_rlx", mp1, mp2, memory_order_relaxed, memory_order_relaxed); }
static void s_mp_ra(long a) { two("mp_ra", mp1, mp2, memory_order_release, memory_order_acquire); }
static void s_mp_r(long a) { two("mp_relonly", mp1, mp2, memory_order_release, memory_order_relaxed); }
static void s_mp_f(long a) { two("mp_fence", mpf1, mpf2, 0, 0); }
static void iriw(const char *n, memory_order s, memory_order l)
{ st = s; ld = l; zero(); mc11_config(-1, 4); mc11_go(w1, 0); mc11_go(w2, 0); mc11_go(ir1, 0); mc11_go(ir2, 0); mc11_run(); result(n, r1, r2, r3, r4); }
static void s_iriw_ra(long a) { iriw("iriw_ra", memory_order_release, memory_order_acquire); }
static void s_iriw_sc(long a) { iriw("iriw_sc", memory_order_seq_cst, memory_order_seq_cst); }
static void s_inc(long a) { zero(); mc11_config(-1, 4); mc11_go(inc, 0); mc11_go(inc, 0); mc11_go(inc, 0); mc11_run(); result("inc", atomic_load(&x), 0, 0, 0); }
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
/* data-race shapes: which pairs of plain accesses count as unordered */
typedef struct { pthread_mutex_t m; sem_t s; atomic_int f; int d, e; char c[8]; char big[64]; } blob; MC11_H static blob *b; MC11_H static int seen;
static void ra(void *a)
{
    switch ((long)a) {
    case 0: pthread_mutex_lock(&b->m); b->d = 1; pthread_mutex_unlock(&b->m); break;
    case 1: pthread_mutex_lock(&b->m); pthread_mutex_unlock(&b->m); b->d = 1; sem_post(&b->s); break;
    case 2: b->d = 1; atomic_store_explicit(&b->f, 1, memory_order_release); break;
    case 3: atomic_store_explicit(&b->f, 1, memory_order_release); b->d = 1; atomic_store_explicit(&b->f, 2, memory_order_relaxed); break;
    case 4: b->d = 1; atomic_store_explicit(&b->f, 1, memory_order_relaxed); break;
    case 5: atomic_thread_fence(memory_order_release); b->d = 1; atomic_store_explicit(&b->f, 1, memory_order_relaxed); break;
    case 6: b->d = 1; atomic_thread_fence(memory_order_release); atomic_store_explicit(&b->f, 1, memory_order_relaxed); break;
    case 7: sem_post(&b->s); b->d = 1; break;
    case 8: b->d = 1; sem_post(&b->s); break;
    case 9: seen += b->d; break;
    case 10: b->c[3] = 1; break;
    case 11: memset(b->big, 1, 40); break;
    case 12: atomic_fetch_add_explicit(&b->f, 1, memory_order_acq_rel); b->d = 1; break;
    case 13: b->d = 1; atomic_fetch_add_explicit(&b->f, 1, memory_order_release); break;
    }
}
static void rb(void *a)
{
    switch ((long)a) {
    case 0: case 1: pthread_mutex_lock(&b->m); b->d = 2; pthread_mutex_unlock(&b->m); break;
    case 2: case 3: case 4: case 12: case 13: if (atomic_load_explicit(&b->f, memory_order_acquire)) seen = b->d; break;
    case 5: case 6: if (atomic_load_explicit(&b->f, memory_order_relaxed)) { atomic_thread_fence(memory_order_acquire); seen = b->d; } break;
    case 7: case 8: sem_wait(&b->s); seen = b->d; break;
    case 9: seen += b->d; break;
    case 10: b->c[4] = 1; break;
    case 11: { char t[8]; memcpy(t, b->big + 36, 8); seen = t[0]; break; }
    }
}
static void s_race(long arg) { long k = atoi(getenv("LITMUS_RACE")); (void)arg; b = malloc(sizeof *b); memset(b, 0, sizeof *b); pthread_mutex_init(&b->m, 0); sem_init(&b->s, 0, 0); atomic_init(&b->f, 0); mc11_config(-1, 4); mc11_go(ra, (void *)k); mc11_go(rb, (void *)k); mc11_run(); }
#ifdef RACE
const mc_scenario mc_scenarios[] = { {"race", s_race, 0, 0, 1}, {0} };
#else
const mc_scenario mc_scenarios[] = {
 {"sb_rlx", s_sb_rlx, 0, 0, 1}, {"sb_ra", s_sb_ra, 0, 0, 1}, {"sb_sc", s_sb_sc, 0, 0, 1}, {"sb_fence", s_sb_fence, 0, 0, 1},
 {"mp_rlx", s_mp_rlx, 0, 0, 1}, {"mp_ra", s_mp_ra, 0, 0, 1}, {"mp_r", s_mp_r, 0, 0, 1}, {"mp_f", s_mp_f, 0, 0, 1},
 {"iriw_ra", s_iriw_ra, 0, 0, 1}, {"iriw_sc", s_iriw_sc, 0, 0, 1}, {"inc", s_inc, 0, 0, 1}, {0} };
#endif
