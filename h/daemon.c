/* C59 becoming a daemon, binding to a CPU; each in processes of its own. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <unistd.h>
#include "utils/cpu.h"
#include "utils/daemon.h"
static int fork_fail = -1, nfork, fork_err;
pid_t __real_fork(void); pid_t __wrap_fork(void) { if (fork_fail >= 0 && nfork++ == fork_fail) { errno = fork_err; return -1; } return __real_fork(); }
struct report { int ret; pid_t pid, ppid, sid, pgrp; mode_t um; int fd[32]; char cwd[300]; };     /* fd: 0 closed, 1 null for reading, 2 null for writing, 3 null for both, 9 something else */
#define RFD 40
static void tell(int ret)
{
    struct report r; memset(&r, 0, sizeof r); r.ret = ret; r.pid = getpid(); r.ppid = getppid(); r.sid = getsid(0); r.pgrp = getpgrp(); r.um = umask(0); struct stat n, s; stat("/dev/null", &n); for (int i = 0; i < 32; i++) { int f = fcntl(i, F_GETFL); if (f < 0) continue; r.fd[i] = fstat(i, &s) == 0 && S_ISCHR(s.st_mode) && s.st_rdev == n.st_rdev ? 1 + (f & O_ACCMODE) : 9; } if (!getcwd(r.cwd, sizeof r.cwd)) r.cwd[0] = 0; if (write(RFD, &r, sizeof r) != sizeof r) _exit(9); _exit(0);
}
static void r_daemon(long arg)
{
    (void)arg; int open012 = mc_choose(8), dir = mc_choose(6), um = mc_choose(3), ff = mc_choose(3) - 1, extra = mc_choose(2), fe = ff >= 0 && mc_choose(2) ? ENOMEM : EAGAIN; char base[300], sub[400]; snprintf(base, sizeof base, "%s", mc_scratch()); snprintf(sub, sizeof sub, "%s/d", base); mkdir(sub, 0755); char fl[400]; snprintf(fl, sizeof fl, "%s/f", base); close(open(fl, O_CREAT | O_RDWR, 0600)); int pp[2]; if (pipe(pp)) abort(); fflush(stdout); fflush(stderr); pid_t c = __real_fork(); if (c < 0) abort();
    if (c == 0) {
        dup2(pp[1], RFD); for (int i = 3; i < 256; i++) if (i != RFD) close(i); for (int i = 0; i < 3; i++) { close(i); } for (int i = 0; i < 3; i++) { int f = open(fl, O_RDWR); if (f != i) _exit(8); } for (int i = 0; i < 3; i++) if (!(open012 >> i & 1)) close(i); if (extra) { int f = open(fl, O_RDWR); dup2(f, 10); if (f > 2) close(f); else if (!(open012 >> f & 1)) close(f); } if (chdir(base)) _exit(8); umask(um == 0 ? 0 : um == 1 ? 022 : 077); fork_fail = ff; fork_err = fe; nfork = 0; const char *D[] = { 0, sub, "d", "/", "missing", fl }; int r = daemonize(D[dir]); tell(r);
    }
    close(pp[1]); struct report R; size_t got = 0; int st = -1; struct pollfd pf = { pp[0], POLLIN, 0 }; while (got < sizeof R) { if (poll(&pf, 1, 8000) <= 0) break; ssize_t k = read(pp[0], (char *)&R + got, sizeof R - got); if (k <= 0) break; got += k; } if (got < sizeof R) { kill(c, SIGKILL); waitpid(c, &st, 0); close(pp[0]); MC_ASSERT(0, "gone", "no process goes on (the first one's status is %x)", st); } waitpid(c, &st, 0); char more; int two = read(pp[0], &more, 1) > 0; close(pp[0]); unlink(fl); rmdir(sub); mc_op(); mc_ops(2); MC_ASSERT(!two, "twice", "two processes go on");
    if (ff >= 0) { MC_ASSERT(R.ret == -fe, "fork", "fork %d fails (%d), the result is %d", ff + 1, fe, R.ret); MC_ASSERT(ff == 0 ? R.pid == c : R.pid != c && WIFEXITED(st) && WEXITSTATUS(st) == 0, "fork-who", "fork %d fails: the wrong process is told", ff + 1); mc_state(ff); return; }
    MC_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status", "the process that called ends with status %x", st); MC_ASSERT(R.pid != c, "parent", "the process that called goes on"); if (dir >= 4) { MC_ASSERT(R.ret < 0, "missing", "the directory %s, yet the result is %d (in %s)", dir == 4 ? "does not exist" : "is a file", R.ret, R.cwd); mc_state(dir); return; }
    MC_ASSERT(R.ret == 0, "result", "result %d", R.ret); MC_ASSERT(R.sid != getsid(0) && R.sid != c, "session", "the daemon is in the session of who started it"); MC_ASSERT(R.sid != R.pid, "leader", "the daemon leads its session: it can get a terminal again"); MC_ASSERT(R.ppid != c, "child", "the daemon is a child of the process that called"); MC_ASSERT(R.um == 022, "umask", "umask is %03o", R.um); const char *want = dir == 0 ? "/tmp" : dir == 3 ? "/" : sub; MC_ASSERT(!strcmp(R.cwd, want), "directory", "the daemon is in %s, not %s", R.cwd, want);
    for (int i = 0; i < 3; i++) MC_ASSERT(R.fd[i] == 3 || R.fd[i] == (i ? 2 : 1), "standard", "with %s%s%s open before, descriptor %d is %s", open012 & 1 ? "0 " : "", open012 & 2 ? "1 " : "", open012 & 4 ? "2 " : "", i, R.fd[i] == 0 ? "closed" : R.fd[i] == 9 ? "not /dev/null" : "/dev/null in the wrong direction"); for (int i = 3; i < 32; i++) MC_ASSERT(R.fd[i] == (i == 10 && extra ? 9 : 0), "descriptor", "descriptor %d is %s", i, R.fd[i] ? "open" : "closed"); mc_state(mc_mix(mc_mix(open012, dir), um));
}
static cpu_set_t all, other; static pthread_barrier_t bar;
static void *thr(void *a) { (void)a; pthread_barrier_wait(&bar); pthread_barrier_wait(&bar); return 0; }
static void r_cpu(long arg)
{   /* exactly the one CPU, exactly the one thread */
    (void)arg; int how = mc_choose(3), k = mc_choose(8); fflush(stdout); fflush(stderr); int pp[2]; if (pipe(pp)) abort(); pid_t c = __real_fork(); if (c == 0) {
        sched_getaffinity(0, sizeof all, &all); int cpu = -1, n = 0; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && n++ == k) cpu = i; if (cpu < 0) _exit(0); cpu_set_t me, o, want; CPU_ZERO(&want); CPU_SET(cpu, &want); pthread_t t; pthread_barrier_init(&bar, 0, 2); pthread_create(&t, 0, thr, 0); pthread_barrier_wait(&bar); if (how == 0) { if (sys_cpu_set_process_affinity(cpu)) _exit(1); } else if (how == 1) sys_cpu_set_thread_affinity(t, cpu); else sys_cpu_set_my_thread_affinity(cpu); sched_getaffinity(0, sizeof me, &me); pthread_getaffinity_np(t, sizeof o, &o); int rc = 0; if (!CPU_EQUAL(how == 1 ? &o : &me, &want)) rc = 2; if (!CPU_EQUAL(how == 1 ? &me : &o, &all)) rc = 3; if (sys_cpu_getavail() != sysconf(_SC_NPROCESSORS_ONLN)) rc = 4; if (how == 0) { int bad = -1; for (int i = CPU_SETSIZE - 1; i >= 0 && bad < 0; i--) if (!CPU_ISSET(i, &all)) bad = i; if (bad >= sysconf(_SC_NPROCESSORS_CONF) && sys_cpu_set_process_affinity(bad) != -EINVAL) rc = 5; } pthread_barrier_wait(&bar); pthread_join(t, 0); _exit(rc); }
    close(pp[0]); close(pp[1]); int st; waitpid(c, &st, 0); mc_op(); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99; static const char *M[] = { "", "binding fails", "the CPU it is bound to is another", "another thread is bound as well", "the number of CPUs", "a CPU that does not exist is accepted" }; MC_ASSERT(rc == 0, "cpu", "CPU %d, way %d: %s", k, how, rc < 6 ? M[rc] : "crash"); mc_state(mc_mix(how, k));
}
const mc_scenario mc_scenarios[] = { { "daemonize", r_daemon, 0, 0, 2, 0 }, { "binding", r_cpu, 0, 0, 1, 0 }, { 0 } };
