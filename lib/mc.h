/* mc.h - stateless explicit enumeration over the real code.
 *
 * A harness is a deterministic function that asks mc_choose(n) whenever
 * something could go n ways (which operation comes next, which byte an input
 * holds, which allocation fails, where the crash happens, which thread runs).
 * The engine enumerates every combination of answers, depth first, on worker
 * processes; every execution runs the real code of /repo from scratch.
 */
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct mc_scenario {
    const char *name;
    void (*run)(long arg);
    long arg;
    int  tier;      /* 0: quick and thorough; 1: thorough only; -1: quick only */
    int  split;     /* choice depth at which subtrees are dealt to workers (0: default) */
    int  flags;     /* MC_F_* */
} mc_scenario;

#define MC_F_LEAK   1   /* every tracked allocation must be released at the end */
#define MC_F_SERIAL 2   /* one worker only */

extern const mc_scenario mc_scenarios[];   /* terminated by name == NULL */

int  mc_choose(int n);                 /* 0 .. n-1 */
int  mc_fresh(void);                   /* the last choice is new: the prefix up to it was not executed before by this worker */
void mc_prune(void) __attribute__((noreturn));           /* cut: redundant execution, not counted */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void mc_site(const char *fmt, ...) __attribute__((format(printf,1,2)));    /* names the operation under way (key of a crash) */
void mc_state(uint64_t h);             /* a state (hash) reached */
void mc_op(void);                      /* one transition of the real code */
void mc_ops(uint64_t n);
extern int  mc_tracing;
void mc_note_(const char *fmt, ...) __attribute__((format(printf,1,2)));
#define mc_note(...) do { if (mc_tracing) mc_note_(__VA_ARGS__); } while (0)
int  mc_tier(void);                    /* 0 quick, 1 thorough */
int  mc_worker_id(void);
const char *mc_scratch(void);          /* this worker's scratch directory */
void mc_trivial(void);                 /* this execution is trivial by the harness's rule */

#define MC_ASSERT(c, key, ...) do { if (!(c)) mc_fail(key, __VA_ARGS__); } while (0)

/* one-shot setup run once in each worker before its first execution */
extern void (*mc_worker_init)(void);
/* called before each execution, and after each execution (also a pruned one) */
extern void (*mc_before)(void);
extern void (*mc_after)(void);

/* --- allocation tracking/injection (mc_wrap.c) --- */
size_t   mc_live_blocks(void);
size_t   mc_live_bytes(void);
void     mc_oom_at(int64_t k);         /* fail the k-th tracked allocation from now on (0 = next); <0 off */
void     mc_oom_run(int64_t n);        /* the next mc_oom_at fails n allocations in a row (default 1; per execution) */
int      mc_oom_fired(void);
uint64_t mc_alloc_count(void);         /* tracked allocations since execution start */
size_t   mc_block_size(const void *p); /* requested size of a live tracked block, 0 if unknown */
int      mc_is_live(const void *p);
void     mc_forget(const void *p);     /* stop tracking p */
void     mc_track_reset(int release);
void     mc_set_alloc_limit(size_t n); /* refuse any request above n bytes (0: no limit) */

/* --- hashing --- */
static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h;
}
static inline uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
    const unsigned char *s = (const unsigned char *)p;
    while (n--) h = (h ^ *s++) * 0x100000001b3ull;
    return mc_mix(h, 0x51ed);
}
#ifdef __cplusplus
}
#endif
#endif
