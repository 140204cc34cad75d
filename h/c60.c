/* C60: the option parsers that tools/mkgetopt.py generates do what the description says, for every list of arguments. */
#include "mc.h"
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include "getopt_long.h"
#include "c60.h"
#include "c60_list.h"
#define NS ((int)(sizeof c60_specs / sizeof c60_specs[0]))
#define MAXO 740

static int Nerr_msgs, Bad_status;
void __wrap_error(int st, int en, const char *fmt, ...)
{
    char b[512]; va_list ap;
    (void)en;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    mc_note("message: %s", b);
    Nerr_msgs++;
    if (st) Bad_status++;
}

/* --- what callbacks saw --- */
static struct { const char *var; char arg[64]; int has; void *o; } Ev[64]; static int Nev;
void c60_called(void *o, const char *var, char *a)
{
    if (Nev == 64) return;
    Ev[Nev].var = var; Ev[Nev].has = a != 0; Ev[Nev].o = o;
    snprintf(Ev[Nev].arg, sizeof Ev[Nev].arg, "%s", a ? a : "");
    Nev++;
}

/* --- reference --- */
typedef struct { uint64_t iv; double dv; char sv[64]; int present, unsure, used, badonly; } val;
static val V[MAXO];
static struct { const char *var, *arg; } Xev[64]; static int Nxev;
static const char *Rest[16]; static int Nrest, More, Errs, MsgErrs, MsgAny;

static int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
/* a number at s in C notation: 0 none, 1 fits 64 bits, 2 too large; *e: what follows */
static int number(const char *s, uint64_t *v, const char **e)
{
    int base = 10, big = 0, n = 0; unsigned __int128 x = 0;
    if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && digit(s[2]) < 16) base = 16, s += 2;
    else if (s[0] == '0') base = 8;
    for (; digit(*s) < base; s++, n++) { x = x * base + digit(*s); if (x >> 64) big = 1, x = 1; }
    *v = (uint64_t)x; *e = s;
    return !n ? 0 : big ? 2 : 1;
}
/* 0: an error, 1: a value, 2: a value with something ignored after it */
static int value(const struct c60_opt *o, const char *a, val *v)
{
    const char *e; uint64_t x; int r;
    if (o->kind == K_STR) { snprintf(v->sv, sizeof v->sv, "%s", a); return 1; }
    if (o->kind == K_DBL) {
        char *q; double d = strtod(a, &q);
        if (q == a) return 0;
        v->dv = d; return *q ? 2 : 1;
    }
    while (*a == ' ') a++;
    if (o->kind == K_SIZE) {
        static const char suf[] = "bBkKMGTP"; static const int sh[] = { 0, 0, 10, 10, 20, 30, 40, 50 };
        const char *p; int m = 0;
        if (!(r = number(a, &x, &e))) return 0;
        if (r == 2) { More += *e && !strchr(suf, *e); return 0; }        /* two things wrong with it */
        if (*e) { if (!(p = strchr(suf, *e))) return 0; m = sh[p - suf]; }
        if (x > (UINT64_MAX >> m)) return 0;
        v->iv = x << m; return 1;
    }
    int neg = 0, bits = o->size * 8;
    if (*a == '-' || *a == '+') neg = *a++ == '-';
    if (number(a, &x, &e) != 1) return 0;
    uint64_t max = o->kind == K_INT ? (UINT64_MAX >> (65 - bits)) : (UINT64_MAX >> (64 - bits));
    if (x > (neg ? o->kind == K_INT ? max + 1 : 0 : max)) return 0;
    v->iv = neg ? 0 - x : x;
    return *e ? 2 : 1;
}
static void use(const struct c60_spec *s, int i, const char *a)
{
    const struct c60_opt *o = &s->o[i]; val *v = &V[i];
    if (a && !*a) a = 0, v->unsure = 1;
    if (o->kind == K_BOOL) v->iv = 1, v->present = 1;
    else if (o->kind == K_CB) { v->present = 1; if (Nxev < 64) Xev[Nxev].var = o->var, Xev[Nxev++].arg = a; }
    else if (!a) { v->present = 1; if (o->kind == K_DBL) v->dv += 1; else if (o->kind != K_STR) v->iv++; }
    else {
        int r = value(o, a, v);
        if (!r) { Errs++; MsgErrs++; if (v->used && v->present) v->unsure = 1; else v->badonly = 1; }
        else v->present = 1, v->unsure = v->badonly = 0;
        if (r == 2) MsgAny = 1;
    }
    v->used = 1;
    if (o->arg == 2 && v->badonly && !a) v->unsure = 1;                 /* counts on from what an error left */
}
static void refer(const struct c60_spec *s, int argc, char *const *argv)
{
    int i, j;
    memset(V, 0, sizeof V[0] * s->n);
    for (i = 0; i < s->n; i++) { V[i].iv = s->o[i].iv; V[i].dv = s->o[i].dv; if (s->o[i].sv) strcpy(V[i].sv, s->o[i].sv); }
    Nxev = Nrest = More = Errs = MsgErrs = MsgAny = 0;
    for (i = 1; i < argc; i++) {
        const char *a = argv[i];
        if (!strcmp(a, "--")) { for (i++; i < argc; i++) Rest[Nrest++] = argv[i]; break; }
        if (a[0] != '-' || !a[1]) {
            if (s->noperm) { for (; i < argc; i++) Rest[Nrest++] = argv[i]; break; }
            Rest[Nrest++] = a; continue;
        }
        if (a[1] == '-') {
            const char *eq = strchr(a, '='); size_t n = eq ? (size_t)(eq - a - 2) : strlen(a + 2); int hit = -1, many = 0;
            for (j = 0; j < s->n; j++) {
                const char *l = s->o[j].lng;
                if (!l || s->o[j].hold || strncmp(l, a + 2, n)) continue;
                if (strlen(l) == n) { hit = j; many = 0; break; }
                if (hit >= 0) many = 1;
                hit = j;
            }
            if (hit < 0 || many) { Errs++; continue; }
            if (s->o[hit].arg == 0) { if (eq) Errs++; else use(s, hit, 0); }
            else if (eq) use(s, hit, eq + 1);
            else if (s->o[hit].arg == 2) use(s, hit, 0);
            else if (i + 1 < argc) use(s, hit, argv[++i]);
            else Errs++;
            continue;
        }
        for (a++; *a; a++) {
            for (j = 0; j < s->n; j++) if (!s->o[j].hold && s->o[j].shrt == *a) break;
            if (j == s->n) { Errs++; continue; }
            if (s->o[j].arg == 0) { use(s, j, 0); continue; }
            if (a[1]) use(s, j, a + 1);
            else if (s->o[j].arg == 2) use(s, j, 0);
            else if (i + 1 < argc) use(s, j, argv[++i]);
            else Errs++;
            break;
        }
    }
}

static void show(char *b, size_t n, int argc, char *const *argv)
{
    size_t k = 0; b[0] = 0;
    for (int i = 1; i < argc && k < n - 40; i++) k += snprintf(b + k, n - k, "%s'%s'", i > 1 ? " " : "", argv[i]);
}

/* --- one parse, compared --- */
static void parse_check(const struct c60_spec *s, unsigned char *mem, int argc, char *const *argv)
{
    static char txt[400]; char *av[20]; char *const *rv; int rn, i, e;
    for (i = 0; i < argc; i++) av[i] = argv[i];
    av[argc] = 0;
    show(txt, sizeof txt, argc, argv);
    mc_note("%s: %s", s->name, txt);
    refer(s, argc, argv);
    s->setup(mem);
    Nev = Nerr_msgs = Bad_status = 0;
    opterr = 0;
    mc_site("%s_parse", s->name); mc_op();
    e = s->parse(mem, argc, av);
    MC_ASSERT(e >= Errs && e <= Errs + More, "errors", "%s with %s: %d errors are reported, %d made", s->name, txt, e, Errs);
    MC_ASSERT(!Bad_status, "exit-status", "%s with %s: the diagnostic ends the program", s->name, txt);
    MC_ASSERT(!MsgErrs || Nerr_msgs > 0, "silent", "%s with %s: a bad value is refused without a message", s->name, txt);
    MC_ASSERT(MsgErrs || MsgAny || !Nerr_msgs, "noise", "%s with %s: %d messages about good values", s->name, txt, Nerr_msgs);
    s->rest(mem, &rv, &rn);
    MC_ASSERT(rn == Nrest, "rest-count", "%s with %s: %d remaining arguments, not %d", s->name, txt, rn, Nrest);
    for (i = 0; i < rn; i++) MC_ASSERT(!strcmp(rv[i], Rest[i]), "rest", "%s with %s: remaining argument %d is '%s', not '%s'", s->name, txt, i, rv[i], Rest[i]);
    MC_ASSERT(Nev == Nxev, "callbacks", "%s with %s: %d callbacks, not %d", s->name, txt, Nev, Nxev);
    for (i = 0; i < Nev; i++) {
        MC_ASSERT(Ev[i].o == mem && !strcmp(Ev[i].var, Xev[i].var), "callbacks", "%s with %s: callback %d is %s, not %s", s->name, txt, i, Ev[i].var, Xev[i].var);
        MC_ASSERT(Ev[i].has == (Xev[i].arg != 0) && (!Ev[i].has || !strcmp(Ev[i].arg, Xev[i].arg)), "callback-arg", "%s with %s: callback %d gets %s, not %s", s->name, txt, i,
                  Ev[i].has ? Ev[i].arg : "nothing", Xev[i].arg ? Xev[i].arg : "nothing");
    }
    uint64_t h = 0;
    for (i = 0; i < s->n; i++) {
        const struct c60_opt *o = &s->o[i]; val *v = &V[i]; unsigned char *p = mem + o->off;
        if (o->hold == 1) {
            for (int k = 0; k < o->size; k++) MC_ASSERT(p[k] == 0xEE, "placeholder", "%s with %s: %s, a placeholder without a default, was changed", s->name, txt, o->var);
            continue;
        }
        if (!o->hold) {
            int pr = *(char *)(mem + o->poff);
            h = mc_mix(h, pr);
            if (!v->unsure) MC_ASSERT((pr != 0) == (v->present != 0), "present", "%s with %s: %s_present is %d", s->name, txt, o->var, pr);
        }
        if (v->unsure || v->badonly || o->kind == K_CB) continue;
        if (o->kind == K_DBL) { double d; memcpy(&d, p, 8); MC_ASSERT(d == v->dv, "value", "%s with %s: %s is %g, not %g", s->name, txt, o->var, d, v->dv); h = mc_hash(h, p, 8); }
        else if (o->kind == K_STR) { char *t; memcpy(&t, p, sizeof t); MC_ASSERT(t && !strcmp(t, v->sv), "value", "%s with %s: %s is '%s', not '%s'", s->name, txt, o->var, t ? t : "(null)", v->sv); h = mc_hash(h, t, strlen(t)); }
        else {
            uint64_t x = 0; memcpy(&x, p, o->size);
            uint64_t m = o->size == 8 ? UINT64_MAX : (1ull << (o->size * 8)) - 1;
            MC_ASSERT(x == (v->iv & m), "value", "%s with %s: %s is %#llx, not %#llx", s->name, txt, o->var, (unsigned long long)x, (unsigned long long)(v->iv & m));
            h = mc_mix(h, x);
        }
    }
    mc_state(mc_mix(mc_mix(h, e), mc_mix(Nrest, Nev)));
}
static unsigned char *fresh(const struct c60_spec *s)
{
    MC_ASSERT(!s->broken, "generate", "%s: %s", s->name, s->broken);
    unsigned char *m = malloc(s->size);
    memset(m, 0xEE, s->size);
    return m;
}

/* --- values --- */
static const char *const VI[] = { "0", "1", "7", "-1", "-0", "+3", "0x1F", "0Xa", "017", "-017", "-0x10", "127", "128", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "-65535",
    "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967295", "-4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "-18446744073709551616", "99999999999999999999", "0xffffffffffffffff", "0x10000000000000000",
    "abc", "-", "--5", "-+5", "+-5", "5x", "-5x", "12 ", " 12", "x5", "+", "089", "32768z", "-70000z", " ", "1e3", "7.5" };
static const char *const VD[] = { "0", "1", "-1", "1.5", "-2e3", ".5", "5.", "1e300", "-0", "abc", "1.5x", "x1.5", "-", "--1", " 2.5", "2.5 ", "1,5", "3.25e", "7e-3kg" };
static const char *const VS[] = { "a", "some text", "-", "--", "-x", "--alpha", "=", "a=b", "%s%n", "\"", "0" };
static const char *const SB[] = { "0", "1", "3", "1023", "0x10", "017", "18446744073709551615", "18446744073709551616", "18014398509481983", "18014398509481984", "17592186044415", "17592186044416",
    "17179869183", "17179869184", "16777215", "16777216", "16383", "16384", "abc", "", "-1", "-5", " 12", "99999999999999999999", "4294967296", "36028797018963969" };
static const char *const SS[] = { "", "b", "B", "k", "K", "M", "G", "T", "P", "x", "?", " ", "7z" };
#define N(a) ((int)(sizeof a / sizeof a[0]))
static char Val[80];
static const char *pick_value(int kind)
{
    switch (kind) {
    case K_INT: case K_UINT: return VI[mc_choose(N(VI))];
    case K_DBL: return VD[mc_choose(N(VD))];
    case K_STR: return VS[mc_choose(N(VS))];
    case K_SIZE: { int a = mc_choose(N(SB)), b = mc_choose(N(SS)); snprintf(Val, sizeof Val, "%s%s", SB[a], SS[b]); if (!*Val) mc_prune(); return Val; }
    default: return mc_choose(2) ? "v" : "a b";
    }
}
/* one option, used once or twice, with every value */
static void r_values(long twice)
{
    static char b[2][120]; char *av[8]; int n = 0;
    const struct c60_spec *s = c60_specs[mc_choose(NS)];
    if (!strcmp(s->name, "quoted")) mc_prune();
    unsigned char *m = fresh(s);
    int i = mc_choose(s->n);
    const struct c60_opt *o = &s->o[i];
    if (o->hold || !o->arg) mc_prune();
    av[n++] = (char *)"prog";
    for (int k = 0; k <= twice; k++) {
        const char *v = pick_value(o->kind); int f = mc_choose(o->arg == 1 ? 4 : 2);
        if ((f & 1) ? !o->lng : !o->shrt) mc_prune();
        if (f == 0) snprintf(b[k], 120, "-%c%s", o->shrt, v), av[n++] = b[k];
        else if (f == 1) snprintf(b[k], 120, "--%s=%s", o->lng, v), av[n++] = b[k];
        else {
            static char w[2][80]; strcpy(w[k], v);
            if (f == 2) snprintf(b[k], 120, "-%c", o->shrt); else snprintf(b[k], 120, "--%s", o->lng);
            av[n++] = b[k]; av[n++] = w[k];
        }
    }
    parse_check(s, m, n, av);
}

/* --- lists of arguments --- */
static char Tok[NS][48][32]; static int Ntok[NS];
static void tok(int k, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void tok(int k, const char *fmt, ...)
{
    va_list ap; char b[32];
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (int i = 0; i < Ntok[k]; i++) if (!strcmp(Tok[k][i], b)) return;
    if (Ntok[k] < 48) strcpy(Tok[k][Ntok[k]++], b);
}
static void init(void)
{
    for (int k = 0; k < NS; k++) {
        const struct c60_spec *s = c60_specs[k];
        if (s->broken || s->n > 40) continue;
        char fs = 0; const char *fl = 0;
        for (int i = 0; i < s->n; i++) {
            const struct c60_opt *o = &s->o[i];
            if (o->hold || !strcmp(o->var, "help") || !strcmp(o->var, "version")) continue;
            if (o->kind == K_BOOL && o->shrt && !fs) fs = o->shrt, fl = o->lng;
        }
        for (int i = 0; i < s->n; i++) {
            const struct c60_opt *o = &s->o[i];
            if (o->hold || !strcmp(o->var, "help") || !strcmp(o->var, "version")) continue;
            const char *v1 = o->kind == K_SIZE ? "2K" : o->kind == K_DBL ? "2.5" : o->kind == K_STR || o->kind == K_CB ? "v" : "12";
            const char *v2 = o->kind == K_STR || o->kind == K_CB ? "w" : "0x7";
            if (o->lng) {
                tok(k, "--%s", o->lng);
                if (o->arg) { tok(k, "--%s=%s", o->lng, v1); if (i < 4 && o->kind != K_STR && o->kind != K_CB) tok(k, "--%s=abc", o->lng); }
                tok(k, "--%.*s", (int)strlen(o->lng) - 1, o->lng);
            }
            if (o->shrt) {
                tok(k, "-%c", o->shrt);
                if (o->arg) tok(k, "-%c%s", o->shrt, v2);
                if (fs && o->arg) tok(k, "-%c%c%s", fs, o->shrt, o->arg == 1 ? v1 : "");
            }
        }
        if (fs && fl) tok(k, "--%s=1", fl);
        tok(k, "--al"); tok(k, "x"); tok(k, "5"); tok(k, "-"); tok(k, "--"); tok(k, "--zzz"); tok(k, "-q%c", fs ? fs : 'q');
        if (s->nohelp) tok(k, "--help");
        if (s->nover) tok(k, "--version");
    }
}
static void r_lists(long len)
{
    char *av[12]; int n = 0, k = mc_choose(NS);
    const struct c60_spec *s = c60_specs[k];
    unsigned char *m = fresh(s);
    av[n++] = (char *)"prog";
    if (!Ntok[k]) {                                               /* the one with an option for every way of quoting */
        if (len > 2) mc_prune();
        static char b[80]; int i = mc_choose(s->n);
        const struct c60_opt *o = &s->o[i];
        if (i < 2) mc_prune();
        snprintf(b, sizeof b, o->arg ? o->kind == K_STR ? "--%s=text" : "--%s=77" : "--%s", o->lng);
        av[n++] = b;
        parse_check(s, m, n, av);
        return;
    }
    int before = len < 4 ? mc_choose(3) : 0;
    for (int i = 0; i < len; i++) {
        int c = mc_choose(Ntok[k] + 1);
        if (!c) break;
        av[n++] = Tok[k][c - 1];
    }
    if (before == 2) {                                           /* the program used getopt_long() itself, and stopped in the middle */
        char *pv[6] = { (char *)"prog", (char *)"x", (char *)"y", (char *)"-abc", (char *)"z", 0 }; static const struct option none[] = { { 0, 0, 0, 0 } };
        optind = 0; opterr = 0; getopt_long(5, pv, "abc", none, 0);
    }
    if (before == 1) {                                                /* the parser was used before, on another list, with errors */
        char *pv[8] = { (char *)"prog", (char *)"x", (char *)"-qq", (char *)"y", (char *)"--zzz", (char *)"--", (char *)"z", 0 };
        opterr = 0; s->setup(m); s->parse(m, 7, pv);
    }
    parse_check(s, m, n, av);
}

/* --- --help and --version --- */
static void r_help(long a)
{
    (void)a;
    const struct c60_spec *s = c60_specs[mc_choose(NS)];
    unsigned char *m = fresh(s);
    int what = mc_choose(6), fd[2], st; static char out[400000]; size_t n = 0; ssize_t r;
    static const char *const arg[] = { "--help", "-h", "--hel", "--version", "-V", "--vers" };
    if (what < 3 ? s->nohelp : s->nover) mc_prune();
    MC_ASSERT(!pipe(fd), "harness", "pipe");
    pid_t p = fork();
    if (!p) {
        char *av[5] = { (char *)"prog", (char *)"x", (char *)arg[what], (char *)"--zzz", 0 };
        if (s->noperm) av[1] = (char *)"-f";
        dup2(fd[1], 1); close(fd[0]); close(fd[1]); opterr = 0;
        s->setup(m);
        s->parse(m, 4, av);
        _exit(99);
    }
    close(fd[1]);
    while (n < sizeof out - 1 && (r = read(fd[0], out + n, sizeof out - 1 - n)) > 0) n += r;
    out[n] = 0; close(fd[0]);
    waitpid(p, &st, 0); mc_op();
    MC_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "help-exit", "%s with %s ends with status %#x", s->name, arg[what], st);
    if (what >= 3) { MC_ASSERT(strstr(out, s->version), "version", "%s with %s prints '%.200s'", s->name, arg[what], out); return; }
    MC_ASSERT(strstr(out, s->desc), "help-desc", "%s: the help has no description", s->name);
    MC_ASSERT(!s->usage || strstr(out, s->usage), "help-usage", "%s: the help has no usage text", s->name);
    for (int i = 0; i < s->n; i++) {
        const struct c60_opt *o = &s->o[i]; char b[80]; const char *w;
        if (o->hold) continue;
        if (o->lng) snprintf(b, sizeof b, "--%s", o->lng); else snprintf(b, sizeof b, "-%c", o->shrt);
        w = strstr(out, b);
        MC_ASSERT(w, "help-option", "%s: the help does not list %s", s->name, b);
        if (o->lng && o->shrt) { snprintf(b, sizeof b, "-%c", o->shrt); MC_ASSERT(strstr(w, b), "help-option", "%s: the help does not list %s", s->name, b); }
        MC_ASSERT(strstr(w, o->help), "help-text", "%s: the help does not describe %s", s->name, o->var);
        if (o->dtext && strcmp(o->dtext, "-")) { snprintf(b, sizeof b, "[%s]", o->dtext); MC_ASSERT(strstr(w, b) || strchr(b, ' '), "help-default", "%s: the help does not show the default of %s", s->name, o->var); }
    }
    mc_state(mc_hash(0, out, n));
}
__attribute__((constructor)) static void start(void) { mc_worker_init = init; }
const mc_scenario mc_scenarios[] = {
    { "values", r_values, 0, 0, 2, 0 },
    { "values-twice", r_values, 1, 1, 3, 0 },
    { "lists3, after other uses", r_lists, 3, 0, 3, 0 },
    { "lists4", r_lists, 4, 0, 3, 0 },
    { "lists5", r_lists, 5, 1, 3, 0 },
    { "help", r_help, 0, 0, 2, 0 },
    { 0 }
};
