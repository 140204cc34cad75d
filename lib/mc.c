/* mc.c - the enumeration engine (see mc.h) */
#define _GNU_SOURCE 1
#include "mc.h"
#include <sys/syscall.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <ftw.h>

#define MAXDEPTH   (1 << 15)
#define MAXWORKERS 64
#define MAXKNOWN   64
#define CLAIMS     (1 << 22)
#define SETBITS    22
#define SITESZ     400
#define MSGSZ      1500

typedef struct { uint16_t c, n; } chp;

typedef struct {
    volatile uint64_t execs, trans, choices, trivial, pruned, nondet;
    volatile uint64_t ticks;             /* executions begun, for the hang detector */
    volatile int      maxdepth;
    volatile int      state;             /* 0 idle 1 running 2 done 3 failed */
    volatile int      hung;
    volatile int64_t  ord;               /* claim ordinals used before the current execution */
    volatile int64_t  ord_now;
    volatile int      own;
    volatile int      len, changed;      /* stack length of current execution */
    volatile int      known_idx;
    char              site[SITESZ];
    char              key[SITESZ];
    char              msg[MSGSZ];
    chp               stk[MAXDEPTH];
    volatile int      slen;              /* sample */
    chp               sample[MAXDEPTH];
    volatile uint64_t next_sample;
} slot;

typedef struct {
    volatile int      stop;
    volatile int      violation;         /* 1 + slot index */
    volatile uint64_t states;
    volatile int      set_full;
    volatile uint64_t known_hits[MAXKNOWN];
    volatile unsigned char claim[CLAIMS];
    volatile uint64_t set[1 << SETBITS];
    slot s[MAXWORKERS];
} shared;

static shared *S;
static slot   *me;
static int     wid, nworkers, tier, pos, split, cur_own;
static jmp_buf jb;
static chp    *stk;                       /* me->stk */
static int     slen, changed;
static const mc_scenario *cur;
static char    scratch[256];
static const char *known[MAXKNOWN];
static int     nknown;
static int     replaying;
static int     triv;

int  mc_tracing;
static FILE *tracefp;
void (*mc_worker_init)(void);
void (*mc_before)(void);
void (*mc_after)(void);

enum { J_PRUNE = 1, J_SKIP = 2, J_FAIL = 3 };

static double now(void) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int known_match(const char *key)
{
    for (int i = 0; i < nknown; i++) if (!strcmp(known[i], key)) return i;
    return -1;
}

static int do_claim(void)
{
    int64_t o = me->ord_now++;
    if (replaying) return 1;
    if (o >= CLAIMS) return (o % nworkers) == wid;
    unsigned char z = 0;
    return __atomic_compare_exchange_n(&S->claim[o], &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}

int mc_choose(int n)
{
    if (n <= 1) return 0;
    if (pos >= MAXDEPTH) mc_fail("engine:depth", "more than %d choices in one execution", MAXDEPTH);
    int c;
    if (pos < slen) {
        if (stk[pos].n != (uint16_t)n) {       /* the code under test or the harness is not deterministic */
            me->nondet++;
            if (getenv("MC_DEBUG_NONDET")) { fprintf(stderr, "nondet at %d: n=%d expected %d (%s)\n", pos, n, stk[pos].n, me->site); abort(); }
            slen = pos;
            longjmp(jb, J_PRUNE);
        }
        c = stk[pos].c;
    } else {
        if (replaying) { c = 0; stk[pos].c = 0; stk[pos].n = n; slen = pos + 1; }
        else { stk[pos].c = 0; stk[pos].n = (uint16_t)n; slen = pos + 1; me->len = slen; c = 0; }
    }
    pos++;
    if (pos == split && !cur_own) {
        if (!do_claim()) longjmp(jb, J_SKIP);
        cur_own = 1; me->own = 1;
    }
    return c;
}

int mc_fresh(void) { return pos > changed || pos == slen; }
void mc_prune(void) { longjmp(jb, J_PRUNE); }
void mc_op(void) { me->trans++; }
void mc_ops(uint64_t n) { me->trans += n; }
int  mc_tier(void) { return tier; }
int  mc_worker_id(void) { return wid; }
const char *mc_scratch(void) { return scratch; }
void mc_trivial(void) { triv = 1; }

void mc_site(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(me->site, SITESZ, fmt, ap);
    va_end(ap);
}

void mc_note_(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tracefp) { vfprintf(tracefp, fmt, ap); fputc('\n', tracefp); fflush(tracefp); }
    va_end(ap);
}

void mc_fail(const char *key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(me->msg, MSGSZ, fmt, ap);
    va_end(ap);
    snprintf(me->key, SITESZ, "%s", key);
    longjmp(jb, J_FAIL);
}

void mc_state(uint64_t h)
{
    if (replaying || !S) return;
    if (!h) h = 1;
    uint64_t m = (1u << SETBITS) - 1, i = (h * 0x9e3779b97f4a7c15ull) >> (64 - SETBITS);
    for (int k = 0; k < 64; k++, i = (i + 1) & m) {
        uint64_t v = S->set[i];
        if (v == h) return;
        if (v == 0) {
            if (__atomic_compare_exchange_n(&S->set[i], &v, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED);
                return;
            }
            if (v == h) return;
        }
    }
    S->set_full = 1;
}

/* move to the next vector; 0 when the space is exhausted */
static int advance(void)
{
    while (slen > 0 && stk[slen - 1].c + 1 >= stk[slen - 1].n) slen--;
    if (slen == 0) return 0;
    stk[slen - 1].c++;
    return 1;
}

static void after_exec(void)
{
    if (mc_after) mc_after();
    mc_track_reset(1);
}

/* run one execution with the vector in stk[0..slen) ; returns 0 ok, J_* otherwise */
static int one(void)
{
    pos = 0; triv = 0;
    me->site[0] = 0;
    mc_track_reset(0);
    if (mc_before) mc_before();
    int r = setjmp(jb);
    if (r == 0) {
        cur->run(cur->arg);
        mc_oom_at(-1);
        if (mc_after) mc_after();
        if ((cur->flags & MC_F_LEAK) && mc_live_blocks() > 0)
            mc_fail("leak", "%zu blocks (%zu bytes) still allocated at the end of the execution [%s]", mc_live_blocks(), mc_live_bytes(), me->site);
        mc_track_reset(1);
        return 0;
    }
    mc_oom_at(-1);
    after_exec();
    return r;
}

static uint64_t last_tick; static int stuck;
static int hang_secs = 20;
static void on_prof(int sig)
{
    (void)sig;
    if (!me) return;
    if (me->ticks != last_tick) { last_tick = me->ticks; stuck = 0; return; }
    if (++stuck >= hang_secs) { me->hung = 1; _exit(98); }
}

static void arm(void)
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval it = { {1, 0}, {1, 0} };
    setitimer(ITIMER_PROF, &it, 0);
}

static void worker(int id, int resume, const char *logdir)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    wid = id; me = &S->s[id]; stk = me->stk;
    snprintf(scratch, sizeof scratch, "%s/w%d", logdir, id);
    mkdir(scratch, 0755);
    char lf[300]; snprintf(lf, sizeof lf, "%s/log.%d", logdir, id);
    int fd = open(lf, O_CREAT | O_TRUNC | O_RDWR, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    arm();
    if (mc_worker_init) mc_worker_init();
    slen = 0; cur_own = 0;
    if (resume) {                         /* continue after the vector that crashed */
        slen = me->len; me->ord = me->ord_now;
        int own = me->own;
        if (!own && me->len < split) { /* crash before the claim: nobody owns it */ me->ord_now++; me->ord = me->ord_now; }
        if (!advance()) { me->state = 2; _exit(0); }
        changed = slen - 1;
        cur_own = own && slen - 1 >= split;
    } else { me->ord = me->ord_now = 0; }
    me->state = 1;
    for (;;) {
        if (S->stop) { me->state = 2; _exit(0); }
        me->ticks++;
        me->len = slen; me->changed = changed; me->own = cur_own; me->ord = me->ord_now;
        int r = one();
        int counted = 1;
        if (r == J_SKIP) { counted = 0; slen = split; }
        else {
            slen = pos < slen ? pos : slen;  /* the execution may use fewer choices than before */
            if (!cur_own) { if (!do_claim()) counted = 0; }
            if (r == J_PRUNE) { if (counted) me->pruned++; counted = 0; }
        }
        if (r == J_FAIL) {
            int k = known_match(me->key);
            if (k >= 0) __atomic_fetch_add(&S->known_hits[k], 1, __ATOMIC_RELAXED);
            else { me->len = slen; me->state = 3; _exit(3); }
        }
        if (counted) {
            me->execs++; me->choices += pos; if (triv) me->trivial++;
            if (pos > me->maxdepth) me->maxdepth = pos;
            if (me->execs == me->next_sample) {
                memcpy(me->sample, stk, slen * sizeof(chp)); me->slen = slen; me->next_sample = me->next_sample * 3 + 1;
            }
        }
        if (!advance()) { me->state = 2; _exit(0); }
        changed = slen - 1;
        cur_own = cur_own && slen - 1 >= split;
        if (r == J_SKIP) cur_own = 0;
    }
}

static void write_vec(const char *path, const char *scen, const chp *v, int n, int chg, const char *key, const char *msg)
{
    FILE *fp = fopen(path, "w");
    if (!fp) return;
    fprintf(fp, "scenario %s\ntier %d\nchanged %d\nkey %s\nmsg ", scen, tier, chg, key);
    for (const char *m = msg; *m; m++) fputc(*m == '\n' ? ' ' : *m, fp);
    fprintf(fp, "\nvec");
    for (int i = 0; i < n; i++) fprintf(fp, " %d/%d", v[i].c, v[i].n);
    fprintf(fp, "\n");
    fclose(fp);
}

static void jstr(FILE *fp, const char *s)
{
    fputc('"', fp);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(fp, "\\%c", c);
        else if (c == '\n') fprintf(fp, "\\n");
        else if (c < 32 || c >= 127) fprintf(fp, "\\u%04x", c);
        else fputc(c, fp);
    }
    fputc('"', fp);
}

/* run one vector in a child with tracing; returns the child's status: 0 ok, 1 failed (key in me->key) */
static int run_traced(const mc_scenario *sc, const chp *v, int n, const char *tracepath, const char *dir, int *st_out)
{
    slot *s0 = &S->s[MAXWORKERS - 1];
    memset((void *)s0, 0, sizeof *s0);
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        replaying = 1; wid = 0; me = s0; stk = me->stk; cur = sc; split = 1 << 20; cur_own = 1;
        snprintf(scratch, sizeof scratch, "%s/w-trace", dir); mkdir(scratch, 0755);
        char lf[300]; snprintf(lf, sizeof lf, "%s/log.trace", dir);
        int fd = open(lf, O_CREAT | O_TRUNC | O_RDWR, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        tracefp = fopen(tracepath, "w");
        mc_tracing = tracefp != 0;
        arm();
        if (mc_worker_init) mc_worker_init();
        memcpy(stk, v, n * sizeof(chp)); slen = n;
        int r = one();
        if (tracefp) fclose(tracefp);
        _exit(r == J_FAIL ? 3 : r == 0 ? 0 : 4);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    *st_out = st;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return 0;
    return 2;
}

static void crash_key(slot *s, int st, const char *log, char *key, char *msg)
{
    char kind[64] = "crash";
    char line[600] = "";
    FILE *fp = fopen(log, "r");
    char first[600] = "";
    if (fp) {
        char b[2000];
        while (fgets(b, sizeof b, fp)) {
            b[strcspn(b, "\n")] = 0;
            if (strstr(b, "ERROR: AddressSanitizer:") || strstr(b, "runtime error:") || strstr(b, "Assertion") || strstr(b, "mc11:")) { if (!first[0]) snprintf(first, sizeof first, "%s", b); }
            if (strstr(b, "SUMMARY:")) snprintf(line, sizeof line, "%s", b);
        }
        fclose(fp);
    }
    if (s->hung) snprintf(kind, sizeof kind, "hang");
    snprintf(key, SITESZ, "%s:%.300s", kind, s->site);
    if (WIFSIGNALED(st)) snprintf(msg, MSGSZ, "%s in [%s]: killed by signal %d; %s %s", kind, s->site, WTERMSIG(st), first, line);
    else snprintf(msg, MSGSZ, "%s in [%s]: exit %d; %s %s", kind, s->site, WEXITSTATUS(st), first, line);
}

static int rmone(const char *p, const struct stat *a, int b, struct FTW *c) { (void)a; (void)b; (void)c; return remove(p); }

static char *slurp(const char *p, size_t max)
{
    FILE *fp = fopen(p, "r"); if (!fp) return 0;
    char *b = (char *)calloc(1, max + 1);
    size_t n = fread(b, 1, max, fp); b[n] = 0; fclose(fp);
    return b;
}

int main(int argc, char **argv)
{
    const char *out = 0, *replay = 0, *only = 0, *knownf = 0, *vecout = 0;
    double budget = 300;
    nworkers = (int)sysconf(_SC_NPROCESSORS_ONLN); if (nworkers > 8) nworkers = 8; if (nworkers < 1) nworkers = 1;
    int list = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--tier")) tier = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--only")) only = argv[++i];
        else if (!strcmp(argv[i], "--known")) knownf = argv[++i];
        else if (!strcmp(argv[i], "--vec")) vecout = argv[++i];
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "-j")) nworkers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--list")) list = 1;
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
    }
    if (list) { for (const mc_scenario *s = mc_scenarios; s->name; s++) printf("%s tier=%d\n", s->name, s->tier); return 0; }
    signal(SIGPIPE, SIG_IGN);
    setvbuf(stdout, 0, _IOLBF, 0);
    S = (shared *)mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    char dir[] = "/tmp/mcXXXXXX";
    if (!mkdtemp(dir)) { perror("mkdtemp"); return 2; }
    chmod(dir, 0711);
    if (knownf) {
        FILE *fp = fopen(knownf, "r"); char b[1000];
        while (fp && fgets(b, sizeof b, fp) && nknown < MAXKNOWN) { b[strcspn(b, "\n")] = 0; if (b[0]) known[nknown++] = strdup(b); }
        if (fp) fclose(fp);
    }
    int rc = 0;

    if (replay) {
        FILE *fp = fopen(replay, "r"); char b[4096], scen[256] = "";
        chp *v = (chp *)calloc(MAXDEPTH, sizeof *v); int n = 0;
        if (!fp) { perror(replay); return 2; }
        while (fscanf(fp, "%4095s", b) == 1) {
            if (!strcmp(b, "scenario")) { if (fscanf(fp, " %255[^\n]", scen) != 1) break; }
            else if (!strcmp(b, "tier")) { if (fscanf(fp, "%d", &tier) != 1) break; }
            else if (!strcmp(b, "changed")) { if (fscanf(fp, "%d", &changed) != 1) break; }
            else if (!strcmp(b, "vec")) { int c, m; while (n < MAXDEPTH && fscanf(fp, " %d/%d", &c, &m) == 2) { v[n].c = c; v[n].n = m; n++; } }
            else if (!fgets(b, sizeof b, fp)) break;
        }
        fclose(fp);
        const mc_scenario *sc = mc_scenarios;
        while (sc->name && strcmp(sc->name, scen)) sc++;
        if (!sc->name) { fprintf(stderr, "no scenario %s\n", scen); return 2; }
        char tp[300], lp[300]; int st;
        snprintf(tp, sizeof tp, "%s/trace", dir); snprintf(lp, sizeof lp, "%s/log.trace", dir);
        int r = run_traced(sc, v, n, tp, dir, &st);
        slot *s0 = &S->s[MAXWORKERS - 1];
        char *t = slurp(tp, 1 << 20); if (t) printf("%s", t);
        char *l = slurp(lp, 1 << 16); if (l) printf("%s", l);
        char key[SITESZ] = "", msg[MSGSZ] = "";
        if (r == 1) { snprintf(key, sizeof key, "%s", s0->key); snprintf(msg, sizeof msg, "%s", s0->msg); }
        else if (r == 2) crash_key(s0, st, lp, key, msg);
        if (r) printf("REPLAY-FAILS key=%s\n%s\n", key, msg); else printf("REPLAY-OK\n");
        nftw(dir, rmone, 16, FTW_DEPTH | FTW_PHYS);
        return r ? 1 : 0;
    }

    FILE *of = out ? fopen(out, "w") : stdout;
    if (!of) { perror(out); return 2; }
    fprintf(of, "{\"scenarios\":[");
    double t0 = now();
    int first = 1, capped = 0;
    char vkey[SITESZ] = "", vmsg[MSGSZ] = ""; const char *vscen = 0;
    int nsc = 0;
    for (const mc_scenario *sc = mc_scenarios; sc->name; sc++) {
        if (only && strcmp(only, sc->name)) continue;
        if (!only && ((sc->tier == 1 && !tier) || (sc->tier == -1 && tier))) continue;
        nsc++;
        cur = sc; split = sc->split > 0 ? sc->split : 4;
        int nw = (sc->flags & MC_F_SERIAL) ? 1 : nworkers;
        int saved_nw = nworkers; nworkers = nw;
        /* fresh shared state, states are per scenario */
        S->stop = 0; S->violation = 0; S->states = 0; S->set_full = 0;
        if (madvise((void *)S, sizeof *S, MADV_REMOVE) != 0) memset((void *)S, 0, sizeof *S);
        memset((void *)S->known_hits, 0, sizeof S->known_hits);
        for (int i = 0; i < nw; i++) S->s[i].next_sample = 1;
        double ts = now();
        pid_t pid[MAXWORKERS]; int alive = 0; uint64_t wt[MAXWORKERS]; double wtime[MAXWORKERS];
        for (int i = 0; i < nw; i++) { wt[i] = 0; wtime[i] = now(); }
        for (int i = 0; i < nw; i++) {
            fflush(0);
            pid[i] = fork();
            if (pid[i] == 0) worker(i, 0, dir);
            alive++;
        }
        int viol = 0, incomplete = 0, respawns = 0; double stopped = 0;
        while (alive > 0) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p <= 0) {
                if (!S->stop && now() - t0 > budget) { S->stop = 1; incomplete = 1; stopped = now(); }
                if (S->stop && stopped && now() - stopped > 3)
                    for (int i = 0; i < nw; i++) if (pid[i] > 0) kill(pid[i], SIGKILL);
                for (int i = 0; i < nw; i++) if (pid[i] > 0 && !S->stop) {   /* blocked (not spinning) for a minute */
                    if (S->s[i].ticks != wt[i]) { wt[i] = S->s[i].ticks; wtime[i] = now(); }
                    else if (now() - wtime[i] > 60) { S->s[i].hung = 1; kill(pid[i], SIGKILL); wtime[i] = now(); }
                }
                usleep(2000);
                continue;
            }
            int i = 0; while (i < nw && pid[i] != p) i++;
            if (i == nw) continue;
            slot *s = &S->s[i];
            alive--; pid[i] = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (S->stop) continue;
            char key[SITESZ], msg[MSGSZ];
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { memcpy(key, s->key, SITESZ); memcpy(msg, s->msg, MSGSZ); }
            else {
                char lf[300]; snprintf(lf, sizeof lf, "%s/log.%d", dir, i);
                crash_key(s, st, lf, key, msg);
                int k = known_match(key);
                if (k >= 0 && respawns++ < 20000) {
                    S->known_hits[k]++; s->execs++; s->hung = 0;
                    fflush(0);
                    pid[i] = fork();
                    if (pid[i] == 0) worker(i, 1, dir);
                    alive++;
                    continue;
                }
            }
            if (!viol) {
                viol = 1; S->stop = 1; stopped = now();
                memcpy(vkey, key, SITESZ); memcpy(vmsg, msg, MSGSZ); vscen = sc->name;
                if (vecout) write_vec(vecout, sc->name, s->stk, s->len, s->changed, key, msg);
            }
        }
        uint64_t ex = 0, tr = 0, ch = 0, tv = 0, pr = 0, nd = 0; int md = 0;
        for (int i = 0; i < nw; i++) { slot *s = &S->s[i]; ex += s->execs; tr += s->trans; ch += s->choices; tv += s->trivial; pr += s->pruned; nd += s->nondet; if (s->maxdepth > md) md = s->maxdepth; }
        fprintf(of, "%s{\"name\":", first ? "" : ","); first = 0;
        jstr(of, sc->name);
        fprintf(of, ",\"executions\":%llu,\"transitions\":%llu,\"choices\":%llu,\"trivial\":%llu,\"pruned\":%llu,\"nondet\":%llu,\"states\":%llu,\"states_saturated\":%s,\"maxdepth\":%d,\"complete\":%s,\"wall\":%.2f,\"known\":[",
                (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)ch, (unsigned long long)tv, (unsigned long long)pr, (unsigned long long)nd, (unsigned long long)S->states,
                S->set_full ? "true" : "false", md, (incomplete || viol || nd) ? "false" : "true", now() - ts);
        int kf = 1;
        for (int k = 0; k < nknown; k++) if (S->known_hits[k]) { fprintf(of, "%s", kf ? "" : ","); kf = 0; jstr(of, known[k]); }
        fprintf(of, "],\"samples\":[");
        int sf = 1;
        for (int i = 0; i < nw && i < 2 && !viol; i++) {
            slot *s = &S->s[i];
            if (!s->slen) continue;
            char tp[300]; int st; snprintf(tp, sizeof tp, "%s/trace", dir);
            unlink(tp);
            chp *v = (chp *)malloc(sizeof(chp) * (s->slen + 1)); int n = s->slen; memcpy(v, s->sample, sizeof(chp) * n);
            run_traced(sc, v, n, tp, dir, &st);
            char *t = slurp(tp, 1500);
            if (t && t[0]) { fprintf(of, "%s", sf ? "" : ","); sf = 0; jstr(of, t); }
            free(t); free(v);
        }
        fprintf(of, "]}");
        nworkers = saved_nw;
        if (getenv("MC_VERBOSE")) fprintf(stderr, "%-40s ex=%llu tr=%llu st=%llu pruned=%llu md=%d nondet=%llu %.2fs%s%s\n", sc->name, (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)S->states, (unsigned long long)pr, md, (unsigned long long)nd, now() - ts, incomplete ? " INCOMPLETE" : "", viol ? " VIOLATION" : "");
        if (incomplete) capped = 1;
        if (viol) { rc = 1; break; }
    }
    fprintf(of, "],\"capped\":%s,\"wall\":%.2f", capped ? "true" : "false", now() - t0);
    if (rc) { fprintf(of, ",\"violation\":{\"scenario\":"); jstr(of, vscen); fprintf(of, ",\"key\":"); jstr(of, vkey); fprintf(of, ",\"msg\":"); jstr(of, vmsg); fprintf(of, "}"); }
    fprintf(of, "}\n");
    if (of != stdout) fclose(of);
    nftw(dir, rmone, 16, FTW_DEPTH | FTW_PHYS);
    if (nsc == 0) return 2;
    return rc;
}
