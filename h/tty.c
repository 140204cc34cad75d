/* C43 progress bar, C47 password entry; both on a real terminal (a pty of the worker's own). */
#include "mc.h"
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
static int mfd = -1, sfd = -1;
static char sname[64];
static void pty_open(void)
{
    if (mfd >= 0) { close(mfd); close(sfd); } mfd = posix_openpt(O_RDWR | O_NOCTTY); if (mfd < 0 || grantpt(mfd) || unlockpt(mfd) || ptsname_r(mfd, sname, sizeof sname)) { perror("pty"); abort(); } sfd = open(sname, O_RDWR | O_NOCTTY); if (sfd < 0) { perror("pty"); abort(); } fcntl(mfd, F_SETFL, O_NONBLOCK);
}
static size_t drain(int fd, char *b, size_t z) { size_t n = 0; for (;;) { ssize_t k = n < z - 1 ? read(fd, b + n, z - 1 - n) : 0; if (k <= 0) break; n += k; } b[n] = 0; return n; }
static const char *vis(const char *s, size_t n) { static char o[4][1400]; static int w; char *p = o[w++ & 3], *q = p; for (size_t i = 0; i < n && q < p + 1390; i++) if (s[i] == 27) q += sprintf(q, "<esc>"); else if (s[i] == '\r') q += sprintf(q, "<cr>"); else if (s[i] == '\n') q += sprintf(q, "<nl>"); else *q++ = isprint((unsigned char)s[i]) ? s[i] : '?'; *q = 0; return p; }

#ifdef P_C43
#include "utils/progbar.h"
#include "utils/strutils.h"
#define CLR "\x1B[2K\r"
static void init(void) { pty_open(); struct termios t; tcgetattr(sfd, &t); cfmakeraw(&t); tcsetattr(sfd, TCSANOW, &t); }
__attribute__((constructor)) static void start(void) { mc_worker_init = init; }
static void cols(int c) { struct winsize w = { 24, c, 0, 0 }; if (ioctl(sfd, TIOCSWINSZ, &w)) abort(); char z[64]; drain(mfd, z, sizeof z); }
static int width_of(int c) { if (c == 0) c = 80; return c > 50 ? 50 : c / 2; }
static const uint64_t EDGE = 1ull << 57;
static void num(char *b, size_t z, uint64_t v, unsigned fl, int pad) { if (fl & P_HUMAN) humanize_size(b, z, v); else snprintf(b, z, pad ? "%5llu" : "%llu", (unsigned long long)v); }
/* the line for this amount; off: what the per cent may differ by for astronomic amounts */
static void line(char *o, size_t z, uint64_t cur, uint64_t tot, int w, unsigned fl, int off)
{
    char c[32], t[32], pref[80]; num(c, sizeof c, cur, fl, tot > 0); if (!tot) { snprintf(o, z, "%-20s ...", c); return; }
    num(t, sizeof t, tot, fl, 1); int pct = cur >= tot ? 100 : (int)((unsigned __int128)cur * 100 / tot) + off; if (pct < 0) pct = 0; if (pct > 100) pct = 100; int f = pct * w / 100; char fill[64], blank[64]; memset(fill, 'o', f); fill[f] = 0; memset(blank, '.', w - f); blank[w - f] = 0; snprintf(pref, sizeof pref, "%-6s/%6s", c, t); snprintf(o, z, "%-20s [%s%s] %d%%", pref, fill, blank, pct);
}
static int bigamount(uint64_t c, uint64_t t) { return c >= EDGE || t >= EDGE; }
static uint64_t step_of(uint64_t tot, int c)
{
    switch (c) { case 0: return 0; case 1: return 1; case 2: return tot / 3; case 3: return tot / 2; case 4: return tot; case 5: return tot ? tot - 1 : 999; case 6: return tot / 100 + 1; default: return 12345678; }
}
static void session(int w, uint64_t tot, unsigned fl, int nstep, int nkind)
{
    progress p; memset(&p, 0xa5, sizeof p); mc_site("progressbar_init"); MC_ASSERT(progressbar_init(&p, sfd, tot, fl) == 0, "init", "a terminal is refused"); mc_op(); char got[4096], want[600], shown[600] = "", all[1200]; uint64_t cur = 0; int lines = 0; size_t g = drain(mfd, got, sizeof got); MC_ASSERT(g == 0, "init-output", "something is written before the first update: '%s'", vis(got, g)); uint64_t h = mc_mix(w, tot);
    for (int i = 0; i < nstep; i++) {
        uint64_t inc = step_of(tot, mc_choose(nkind)); if (cur + inc < cur) { mc_trivial(); return; } cur += inc; mc_site("progressbar_update"); progressbar_update(&p, inc); mc_op(); g = drain(mfd, got, sizeof got); int ok = 0, offs = tot && bigamount(cur, tot) && cur < tot;
        for (int off = 0; off >= (offs ? -1 : 0) && !ok; off--) for (int o2 = off; o2 <= (offs ? off + 2 : off) && !ok; o2 += 2) { line(want, sizeof want, cur, tot, w, fl, o2); if (!strcmp(want, shown)) all[0] = 0; else snprintf(all, sizeof all, "%s%s", lines ? CLR : "", want); ok = !strcmp(all, got) && strlen(all) == g; }
        if (!ok) { line(want, sizeof want, cur, tot, w, fl, 0); MC_ASSERT(0, "line", "bar of %d, %llu of %llu: writes '%s'; the line is '%s'%s", w, (unsigned long long)cur, (unsigned long long)tot, vis(got, g), vis(want, strlen(want)), !strcmp(want, shown) ? " and is shown already" : ""); }
        if (all[0]) { lines++; strcpy(shown, want); } h = mc_hash(h, got, g);
    }
    int clr = mc_choose(2), nl = mc_choose(2); mc_site("progressbar_finish"); progressbar_finish(&p, clr, nl); mc_op(); g = drain(mfd, got, sizeof got); snprintf(all, sizeof all, "%s%s", clr ? CLR : "", nl ? "\n" : ""); MC_ASSERT(!strcmp(all, got) && g == strlen(all), "finish", "finish(%d, %d) writes '%s'", clr, nl, vis(got, g)); mc_state(mc_hash(h, got, g));
}
static const uint64_t TOT[] = { 0, 1, 2, 3, 7, 99, 100, 101, 1000, 4096, 10485760, 4294967295ull, 4294967296ull, 1ull << 50, 1ull << 56, 1ull << 58, 1ull << 63, ~0ull };
static void r_cols(long arg)
{   /* every width of terminal */
    static const int W[] = { 80, 81, 99, 100, 101, 132, 200, 1000, 32767, 32768, 65535 }; int c = mc_choose(62 + 11); c = c < 62 ? c : W[c - 62]; uint64_t tot = arg ? TOT[mc_choose(18)] : ((const uint64_t[]){ 0, 7, 1000 })[mc_choose(3)]; cols(c); session(width_of(c), tot, mc_choose(2) ? P_HUMAN : 0, 2, 8);
}
static void r_every(long arg)
{   /* every amount of a total up to [arg], unit by unit, on several widths */
    int c = ((const int[]){ 80, 50, 45, 44, 37, 20, 9, 4, 3, 2, 1 })[mc_choose(11)], tot = 1 + mc_choose((int)arg), w = width_of(c); unsigned fl = mc_choose(2) ? P_HUMAN : 0; cols(c); progress p; progressbar_init(&p, sfd, tot, fl); char got[4096], want[600], shown[600] = "", all[1200]; int n = 0; uint64_t h = 0;
    for (int i = 1; i <= tot + 2; i++) { mc_site("progressbar_update"); progressbar_update(&p, 1); mc_op(); size_t g = drain(mfd, got, sizeof got); line(want, sizeof want, i, tot, w, fl, 0); if (strcmp(want, shown)) snprintf(all, sizeof all, "%s%s", n++ ? CLR : "", want); else all[0] = 0; MC_ASSERT(!strcmp(all, got) && g == strlen(all), "every", "bar of %d, %d of %d: writes '%s', not '%s'", w, i, tot, vis(got, g), vis(all, strlen(all))); strcpy(shown, want); h = mc_hash(h, got, g); } mc_state(h);
}
static void r_run(long n)
{   /* a very long run: the line is replaced each time it changes */
    uint64_t tot = mc_choose(2) ? (uint64_t)n * 3 : 0; cols(80); progress p; progressbar_init(&p, sfd, tot, 0); char got[4096], want[600], shown[600] = "", all[1200]; int k = 0;
    for (int i = 1; i <= n; i++) { progressbar_update(&p, 1); size_t g = drain(mfd, got, sizeof got); line(want, sizeof want, i, tot, 50, 0, 0); if (strcmp(want, shown)) snprintf(all, sizeof all, "%s%s", k++ ? CLR : "", want); else all[0] = 0; MC_ASSERT(!strcmp(all, got) && g == strlen(all), "run", "update %d of a long run writes '%s', not '%s'", i, vis(got, g), vis(all, strlen(all))); strcpy(shown, want); } mc_op(); mc_state(mc_mix(n, tot));
}
static void r_steps(long arg)
{   /* longer histories */
    cols(80); session(50, TOT[mc_choose(18)], mc_choose(2) ? P_HUMAN : 0, (int)arg, 8);
}
static void r_quiet(long arg)
{   /* not a terminal: nothing is ever written */
    (void)arg; int k = mc_choose(5), pp[2] = { -1, -1 }, fd; char path[300]; snprintf(path, sizeof path, "%s/f", mc_scratch()); if (k == 0) fd = -1; else if (k == 1) { if (pipe2(pp, O_NONBLOCK)) abort(); fd = pp[1]; } else if (k == 2) fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600); else if (k == 3) fd = open("/dev/null", O_RDWR); else fd = -77;
    progress p; memset(&p, 0xa5, sizeof p); mc_site("progressbar_init"); int r = progressbar_init(&p, fd, TOT[mc_choose(18)], mc_choose(2) ? P_HUMAN : 0); MC_ASSERT(r == 0, "quiet-init", "result %d", r); for (int i = 0; i < 3; i++) { progressbar_update(&p, mc_choose(3) * 1000); mc_op(); } progressbar_finish(&p, mc_choose(2), mc_choose(2)); mc_op();
    char b[64]; if (k == 1) MC_ASSERT(drain(pp[0], b, sizeof b) == 0, "quiet", "progress is written to a pipe: '%s'", vis(b, strlen(b))); if (k == 2) MC_ASSERT(lseek(fd, 0, SEEK_END) == 0, "quiet", "progress is written to a file"); if (pp[0] >= 0) close(pp[0]); if (fd >= 0) close(fd); unlink(path); mc_state(k);
}
static void r_again(long arg)
{   /* a finished bar starts from nothing */
    (void)arg; cols(80); uint64_t tot = mc_choose(2) ? 10 : 0; progress p; progressbar_init(&p, sfd, tot, 0); char got[4096], want[600], all[1200], all2[1200]; int n = mc_choose(3); for (int i = 0; i < n; i++) progressbar_update(&p, 3); int clr = mc_choose(2), nl = mc_choose(2); progressbar_finish(&p, clr, nl); drain(mfd, got, sizeof got); int k = mc_choose(4); progressbar_update(&p, k); mc_op(); size_t g = drain(mfd, got, sizeof got); line(want, sizeof want, k, tot, 50, 0, 0); snprintf(all, sizeof all, "%s", want); snprintf(all2, sizeof all2, CLR "%s", want); MC_ASSERT(!strcmp(got, all) || !strcmp(got, all2), "again", "after a finish, %d of %d: '%s'", k, (int)tot, vis(got, g)); mc_state(mc_hash(0, got, g));
}
const mc_scenario mc_scenarios[] = { { "every width", r_cols, 0, 0, 2, 0 }, { "every width and total", r_cols, 1, 1, 2, 0 }, { "unit by unit", r_every, 60, -1, 2, 0 }, { "unit by unit, more", r_every, 400, 1, 2, 0 }, { "a long run", r_run, 700, 0, 1, 0 }, { "a very long run", r_run, 70000, 0, 1, 0 }, { "histories", r_steps, 3, 0, 2, 0 }, { "longer histories", r_steps, 4, 1, 2, 0 }, { "no terminal", r_quiet, 0, 0, 2, 0 }, { "used again", r_again, 0, 0, 2, 0 }, { 0 } };
#endif

#ifdef P_C47
#include "utils/readpass.h"
/* /dev/tty is this pty (or missing); terminal calls may fail */
static int tty_there, fail_get, fail_set, nopen;
FILE *__real_fopen(const char *, const char *); int __real_tcgetattr(int, struct termios *); int __real_tcsetattr(int, int, const struct termios *); int __real_open(const char *, int, ...);
FILE *__wrap_fopen(const char *p, const char *m) { if (!strcmp(p, "/dev/tty")) { if (!tty_there) { errno = ENXIO; return 0; } FILE *f = __real_fopen(sname, m); if (f) nopen++; return f; } return __real_fopen(p, m); }
int __wrap_tcgetattr(int fd, struct termios *t) { if (fail_get) { errno = EIO; return -1; } return __real_tcgetattr(fd, t); }
int __wrap_tcsetattr(int fd, int a, const struct termios *t) { if (fail_set) { fail_set = 0; errno = EIO; return -1; } return __real_tcsetattr(fd, a, t); }
static FILE *oin, *oerr; static pthread_t th; static int th_on, perr[2] = { -1, -1 };
static void after(void) { if (oin) stdin = oin; if (oerr) stderr = oerr; tty_there = fail_get = fail_set = 0; }
static void init(void) { mc_after = after; oin = stdin; oerr = stderr; setsid(); signal(SIGTTOU, SIG_IGN); signal(SIGTTIN, SIG_IGN); pty_open(); }
__attribute__((constructor)) static void start(void) { mc_worker_init = init; }
static int fds(void) { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static const char *LN[] = { "a\n", "\n", "b\n", "a\r\n", "\r\n", "ab\n", "a", "a b\t\n", "\r\r\n" };
static size_t strip(char *o, const char *s) { size_t n = strlen(s); memcpy(o, s, n + 1); if (n && o[n - 1] == '\n') { o[--n] = 0; if (n && o[n - 1] == '\r') o[--n] = 0; } return n; }
/* what is typed decides what is returned: 0 and pw, or a failure */
static int oracle(const char **ln, int n, int confirm, char *pw, int *used)
{
    int at = 0; if (!confirm) { if (n < 1) return -1; strip(pw, ln[0]); *used = 1; return 0; }
    for (int t = 0; t < 3; t++) { if (at + 1 >= n) return -1; char a[4096], b[4096]; strip(a, ln[at]); strip(b, ln[at + 1]); int raw = !strcmp(ln[at], ln[at + 1]); at += 2; if (raw) { strcpy(pw, a); *used = at; return 0; } if (!strcmp(a, b)) return 1; /* same word, different line ends: not said */ }
    return -EINVAL;
}
static void judge(int r, char *got, const char **ln, int n, int confirm, int nomem, const char *how)
{
    char pw[4096]; int used = 0, e = oracle(ln, n, confirm, pw, &used); if (e == 1) { free(got != (char *)-1L ? got : 0); mc_trivial(); return; } char typed[600] = ""; for (int i = 0; i < n; i++) { snprintf(typed + strlen(typed), sizeof typed - strlen(typed), "%s%.60s", i ? " " : "", vis(ln[i], strlen(ln[i]))); }
    if (e) { MC_ASSERT(r < 0, "failure", "%s, typed %s: success without a password", how, typed); MC_ASSERT(got == (char *)-1L, "touched", "%s, typed %s: the result is set though reading failed", how, typed); if (e == -EINVAL) MC_ASSERT(r == -EINVAL, "mismatch", "%s, typed %s: three mismatches give %d", how, typed, r); return; }
    if (nomem) { MC_ASSERT(r == -ENOMEM, "nomem", "%s: no memory gives %d", how, r); return; }
    MC_ASSERT(r == 0 && got != (char *)-1L && got, "refused", "%s, typed %s: result %d", how, typed, r); MC_ASSERT(!strcmp(got, pw), "password", "%s, typed %s: the password is '%s'", how, typed, vis(got, strlen(got))); free(got);
}
static void r_plain(long arg)
{   /* standard input is a file */
    int maxl = (int)(arg & 15), nl = (int)(arg >> 4), n = mc_choose(maxl + 1), confirm = mc_choose(2), dev = mc_choose(2), nomem = mc_choose(2); const char *ln[16]; char all[600] = ""; for (int i = 0; i < n; i++) { ln[i] = LN[mc_choose(nl)]; if (strlen(ln[i]) == 1 && ln[i][0] == 'a' && i != n - 1) { mc_trivial(); return; } strcat(all, ln[i]); }
    char *eb = 0; size_t en = 0; FILE *e = open_memstream(&eb, &en); int pp[2]; if (pipe(pp)) abort(); if (write(pp[1], all, strlen(all)) < 0) abort(); close(pp[1]); int f0 = fds(); FILE *in = fdopen(pp[0], "r"); tty_there = 0; stdin = in; stderr = e; errno = 0; char *pw = (char *)-1L; if (nomem) mc_oom_at(0); mc_site("portable_readpass"); int r = portable_readpass(&pw, "Prompt", confirm ? "Again" : 0, dev); int fired = mc_oom_fired(); mc_oom_at(-1); mc_op(); int f1 = fds(); stdin = oin; stderr = oerr; fclose(in); fclose(e); int asks = !!strstr(eb, "Prompt") || !!strstr(eb, "Again"); free(eb); MC_ASSERT(!asks, "asks", "a prompt, though nobody is at a terminal");
    MC_ASSERT(f0 == f1, "descriptor", "a descriptor is left open or closed"); judge(r, pw, ln, n, confirm, fired, "from a file"); mc_state(mc_mix(mc_hash(confirm, all, strlen(all)), r));
}
static void r_long(long arg)
{   /* longer ones */
    (void)arg; int len = ((const int[]){ 100, 500, 1000, 2000, 2040, 2044, 2045 })[mc_choose(7)], confirm = mc_choose(2), crlf = mc_choose(2); static char l[4096]; for (int i = 0; i < len; i++) l[i] = 'a' + i % 26; strcpy(l + len, crlf && len < 2045 ? "\r\n" : "\n"); const char *ln[2] = { l, l }; FILE *e = open_memstream(&(char *){ 0 }, &(size_t){ 0 }); int pp[2]; if (pipe(pp)) abort(); for (int i = 0; i <= confirm; i++) if (write(pp[1], l, strlen(l)) < 0) abort(); close(pp[1]); FILE *in = fdopen(pp[0], "r"); stdin = in; stderr = e; errno = 0; char *pw = (char *)-1L; mc_site("portable_readpass"); int r = portable_readpass(&pw, "Prompt", confirm ? "Again" : 0, 0); mc_op(); stdin = oin; stderr = oerr; fclose(in); fclose(e); judge(r, pw, ln, 1 + confirm, confirm, 0, "long"); mc_state(len);
}
/* --- at a terminal: a person who waits for each prompt --- */
static const char *T_ln[16]; static int T_n, T_at, T_echoed, T_bad; static char T_err[4096], T_out[4096]; static size_t T_en, T_on;
static void *person(void *a)
{
    (void)a; struct pollfd pf = { perr[0], POLLIN, 0 };
    for (;;) { if (poll(&pf, 1, 5000) <= 0) break; char b[512]; ssize_t k = read(perr[0], b, sizeof b); if (k <= 0) break; for (ssize_t i = 0; i < k; i++) { if (T_en < sizeof T_err - 1) T_err[T_en++] = b[i]; T_err[T_en] = 0; if (T_en >= 2 && !strcmp(T_err + T_en - 2, ": ") && strncmp(T_err + (T_en >= 6 ? T_en - 6 : 0), "word: ", 6) != 0) {
            struct termios t; if (__real_tcgetattr(sfd, &t) == 0 && (t.c_lflag & ECHO)) T_echoed = 1; const char *s = T_at < T_n ? T_ln[T_at++] : "\x04"; if (write(mfd, s, strlen(s)) < 0) T_bad = 1; } } }
    return 0;
}
static void r_tty(long arg)
{
    int maxl = (int)(arg & 15), nl = (int)(arg >> 4), n = mc_choose(maxl + 1), confirm = mc_choose(2), dev = mc_choose(3) /* 0: stdin is the terminal, 1: /dev/tty is, 2: asked for /dev/tty, not there, stdin is */, lf = mc_choose(4), flt = mc_choose(4); static const char *TL[] = { "ab\n", "\n", "ac\n", "q w\n" }; T_n = n; T_at = T_echoed = T_bad = 0; T_en = T_on = 0; for (int i = 0; i < n; i++) T_ln[i] = TL[mc_choose(nl)]; const char *ln[16]; memcpy(ln, T_ln, sizeof ln); int cnt = n;
    tcflush(sfd, TCIOFLUSH); char z[4096]; drain(mfd, z, sizeof z); struct termios t0, t1; __real_tcgetattr(sfd, &t0); t0.c_lflag |= ICANON; t0.c_lflag &= ~(ECHO | ECHONL); if (lf & 1) t0.c_lflag |= ECHO; if (lf & 2) t0.c_lflag |= ECHONL; t0.c_iflag |= ICRNL; __real_tcsetattr(sfd, TCSANOW, &t0); __real_tcgetattr(sfd, &t0);
    if (pipe2(perr, O_CLOEXEC)) abort(); FILE *e = fdopen(dup(perr[1]), "w"); setvbuf(e, 0, _IONBF, 0); close(perr[1]); FILE *in = dev == 1 ? __real_fopen("/dev/null", "r") : fdopen(dup(sfd), "r"); tty_there = dev == 1; stdin = in; stderr = e; int f0 = fds(); fail_get = flt == 1; fail_set = flt == 2; int nomem = flt == 3; if (pthread_create(&th, 0, person, 0)) abort();
    errno = 0; char *pw = (char *)-1L; if (nomem) mc_oom_at(0); mc_site("portable_readpass at a terminal"); int r = portable_readpass(&pw, "Enter", confirm ? "Again" : 0, dev != 0); int fired = mc_oom_fired(); mc_oom_at(-1); mc_op(); int f1 = fds(), ff = fail_get || (flt == 2 && !fail_set); fail_get = fail_set = 0; stdin = oin; stderr = oerr; fclose(e); pthread_join(th, 0); close(perr[0]); __real_tcgetattr(sfd, &t1); fclose(in); T_on = drain(mfd, T_out, sizeof T_out); T_out[T_on] = 0;
    const char *how = dev == 1 ? "/dev/tty" : "a terminal"; MC_ASSERT(t0.c_lflag == t1.c_lflag && t0.c_iflag == t1.c_iflag && t0.c_oflag == t1.c_oflag && t0.c_cflag == t1.c_cflag && !memcmp(t0.c_cc, t1.c_cc, sizeof t0.c_cc), "settings", "%s, result %d%s: the terminal's settings are not what they were (echo %s)", how, r, ff ? " after a failing terminal call" : "", t1.c_lflag & ECHO ? "on" : "off"); MC_ASSERT(f0 == f1, "descriptor", "%s, result %d: %s", how, r, f1 > f0 ? "a descriptor is left open" : "a descriptor that is not its own is closed");
    if (ff) { MC_ASSERT(r < 0 && pw == (char *)-1L, "terminal", "a failing terminal call, yet the result is %d", r); mc_state(1); return; }
    MC_ASSERT(!T_echoed && !strpbrk(T_out, "abcqw"), "echo", "%s: what is typed is shown: '%s'", how, vis(T_out, T_on)); MC_ASSERT(strncmp(T_err, "Enter: ", 7) == 0, "prompt", "%s: no prompt: '%s'", how, vis(T_err, T_en)); if (confirm && n >= 1) MC_ASSERT(strstr(T_err, "Again: "), "prompt2", "%s: no second prompt: '%s'", how, vis(T_err, T_en)); if (!confirm) MC_ASSERT(!strstr(T_err, "Again"), "prompt3", "%s: asks again", how);
    judge(r, pw, ln, cnt, confirm, fired, how); mc_state(mc_mix(mc_hash(confirm, T_err, T_en), r));
}
const mc_scenario mc_scenarios[] = { { "from a file", r_plain, 2 | 9 << 4, 0, 2, MC_F_LEAK }, { "from a file, retries", r_plain, 6 | 3 << 4, 0, 2, MC_F_LEAK }, { "long", r_long, 0, 0, 1, MC_F_LEAK }, { "at a terminal", r_tty, 2 | 4 << 4, 0, 3, MC_F_LEAK }, { "at a terminal, retries", r_tty, 6 | 2 << 4, 0, 3, MC_F_LEAK }, { "at a terminal, more words", r_tty, 6 | 3 << 4, 1, 3, MC_F_LEAK }, { 0 } };
#endif
