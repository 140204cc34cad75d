/* C64 weeding dependency files: files in the way gcc writes them are made here, the script is run over hundreds at a time. */
#include "mc.h"
#include <dirent.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern char **environ;
static void wipe(int dfd) { DIR *d = fdopendir(dfd); struct dirent *e; if (!d) return; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; if (unlinkat(dirfd(d), e->d_name, 0)) { int f = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (f >= 0) { wipe(f); unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR); } } } closedir(d); }
static void touch(const char *p) { int f = open(p, O_CREAT | O_WRONLY, 0644); if (f < 0) abort(); close(f); }
/* the name as it is written in a rule, the name of the file, and whether there is such a file */
static const struct { const char *w, *n; int there; } H[] = { { "a.h", "a.h", 1 }, { "sub/b.h", "sub/b.h", 1 }, { "m.h", "m.h", 0 }, { "sub/n.h", "sub/n.h", 0 }, { "sub", "sub", 0 }, { "s\\ p.h", "s p.h", 1 }, { "q\\ x.h", "q x.h", 0 }, { "x\\#.h", "x#.h", 1 }, { "d$$.h", "d$.h", 1 }, { "C:/e.h", "C:/e.h", 1 }, { "C:/f.h", "C:/f.h", 0 }, { "gone.h", "gone.h", 0 }, { "h", "h", 1 }, { "../a.h", "../a.h", 1 }, { "link.h", "link.h", 1 } };
#define NH ((int)(sizeof H / sizeof *H))
static const char *const TG[] = { "x.o", "dir/x.o", "x.o y.o", "C:/x.o", "m\\ n.o", "./a.b.c.o" };
#define MAXF 1024
static char *Name[MAXF]; static int Good[MAXF], Nf; static char *Text[MAXF];
static void file(const char *text, size_t n, int good)
{
    if (Nf == MAXF) abort(); char b[32]; snprintf(b, sizeof b, Nf % 3 ? "f%d.d" : "dep/f%d.d", Nf); int f = open(b, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (f < 0 || write(f, text, n) != (ssize_t)n) abort(); close(f);
    Name[Nf] = strdup(b); Text[Nf] = malloc(n + 1); memcpy(Text[Nf], text, n); Text[Nf][n] = 0; Good[Nf++] = good;
}
static int cmpn(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int listing(char **v, int max) { int n = 0; const char *D[] = { ".", "dep", "sub", "C:" }; for (int k = 0; k < 4; k++) { DIR *d = opendir(D[k]); if (!d) continue; struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] != '.' && n < max) { char b[300]; snprintf(b, sizeof b, "%s/%s", D[k], e->d_name); v[n++] = strdup(b); } closedir(d); } qsort(v, n, sizeof *v, cmpn); return n; }
static void world(void) { char top[300]; snprintf(top, sizeof top, "%s", mc_scratch()); if (chdir(top)) abort(); wipe(open(".", O_RDONLY)); mkdir("w", 0755); touch("a.h"); if (chdir("w")) abort(); mkdir("sub", 0755); mkdir("C:", 0755); mkdir("dep", 0755); touch("a.h"); touch("sub/b.h"); touch("s p.h"); touch("x#.h"); touch("d$.h"); touch("C:/e.h"); touch("h"); if (symlink("a.h", "link.h") || symlink("m.h", "gone.h")) abort(); Nf = 0; }
static void weed(int extra)
{
    static char *before[MAXF + 64], *after[MAXF + 64]; int nb = listing(before, MAXF + 64); char *av[MAXF + 8]; int n = 0; av[n++] = "python3"; av[n++] = REPO_DIR "/tools/depweed.py"; if (extra) av[n++] = "none.d"; for (int i = 0; i < Nf; i++) av[n++] = Name[i]; av[n] = 0;
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, "../out", O_CREAT | O_TRUNC | O_WRONLY, 0644); posix_spawn_file_actions_addopen(&fa, 2, "../err", O_CREAT | O_TRUNC | O_WRONLY, 0644); pid_t p; mc_site("depweed over %d files", Nf); if (posix_spawnp(&p, "python3", &fa, 0, av, environ)) abort(); posix_spawn_file_actions_destroy(&fa); int st; if (waitpid(p, &st, 0) != p) abort();
    char err[300] = ""; int f = open("../err", O_RDONLY); ssize_t el = read(f, err, 299); if (el > 0) err[el] = 0; close(f); static char out[MAXF * 32]; f = open("../out", O_RDONLY); ssize_t ol = 0, k; while ((k = read(f, out + ol, sizeof out - 1 - ol)) > 0) ol += k; out[ol] = 0; close(f);
    MC_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status", "status %x: %.200s", st, err); static const char *said[MAXF + 8]; int ns = 0; for (char *q = strtok(out, "\n"); q; q = strtok(0, "\n")) { if (ns < MAXF + 8) said[ns++] = q; }
    int si = 0; for (int i = 0; i < Nf; i++) {
        mc_op(); struct stat s; int there = !lstat(Name[i], &s), told = si < ns && !strcmp(said[si], Name[i]); si += told;
        if (Good[i]) { MC_ASSERT(there, "deleted", "a good file is deleted: '%s'", Text[i]); MC_ASSERT(told, "told", "a good file is not listed: '%s'", Text[i]); } else { MC_ASSERT(!there, "kept", "a bad file is kept: '%s'", Text[i]); MC_ASSERT(!told, "lied", "a bad file is listed: '%s'", Text[i]); }
        if (there) { char b[2000]; int g = open(Name[i], O_RDONLY); ssize_t z = read(g, b, sizeof b); close(g); MC_ASSERT(z == (ssize_t)strlen(Text[i]) && !memcmp(b, Text[i], z), "changed", "a good file is changed: '%s'", Text[i]); }
        mc_state(mc_hash(Good[i], Text[i], strlen(Text[i])));
    }
    MC_ASSERT(si == ns, "more", "%d names are listed, not %d", ns, si); int na = listing(after, MAXF + 64), j = 0;
    for (int i = 0; i < nb; i++) { if (j < na && !strcmp(before[i], after[j])) { j++; continue; } int bad = 0; for (int x = 0; x < Nf; x++) if (!Good[x] && !strcmp(before[i] + (strncmp(before[i], "./", 2) ? 0 : 2), Name[x])) bad = 1; MC_ASSERT(bad, "other", "%s is deleted", before[i]); } MC_ASSERT(j == na, "new", "%s is made", na > j ? after[j] : "");
    for (int i = 0; i < nb; i++) free(before[i]); for (int i = 0; i < na; i++) free(after[i]); for (int i = 0; i < Nf; i++) { free(Name[i]); free(Text[i]); }
}
/* a rule of n names: target, layout (all in one line, gcc's lines, a line for each), end of file */
static void rule(char *o, const char *t, const int *d, int n, int lay, int nl) { o += sprintf(o, "%s:", t); for (int i = 0; i < n; i++) o += sprintf(o, "%s%s", lay == 0 ? " " : lay == 1 ? (i == 1 ? " \\\n " : " ") : " \\\n  ", H[d[i]].w); if (nl) strcpy(o, "\n"); }
static void r_rules(long maxn)
{
    int t = mc_choose(6), lay = mc_choose(3), nl = mc_choose(2), first = maxn > 2 ? mc_choose(NH) : -1; world(); char b[600]; int d[4];
    if (first < 0) { rule(b, TG[t], d, 0, lay, nl); file(b, strlen(b), 1); for (d[0] = 0; d[0] < NH; d[0]++) { rule(b, TG[t], d, 1, lay, nl); file(b, strlen(b), H[d[0]].there); for (d[1] = 0; d[1] < NH; d[1]++) { rule(b, TG[t], d, 2, lay, nl); file(b, strlen(b), H[d[0]].there && H[d[1]].there); } } }
    else { d[0] = first; for (d[1] = 0; d[1] < NH; d[1]++) for (d[2] = 0; d[2] < NH; d[2]++) { rule(b, TG[t], d, 3, lay, nl); file(b, strlen(b), H[d[0]].there && H[d[1]].there && H[d[2]].there); } }
    weed(lay == 1);
}
static void r_odd(long a)
{
    (void)a; int k = mc_choose(12); world(); char b[4000]; file("x.o: a.h\n", 9, 1); int d[1] = { 0 };
    switch (k) { case 0: file("", 0, 0); break; case 1: file("\n", 1, 0); break; case 2: file(" \n\t\n", 4, 0); break; case 3: file("x.o", 3, 0); break; case 4: file("x.o\n", 4, 0); break; case 5: file("\nx.o: a.h\n\n", 11, 1); break; case 6: file("x.o: \\\n\n a.h\n", 13, 1); break; case 7: file("x.o:\ta.h\tm.h\n", 13, 0); break; case 8: file("x.o: a.h \\\n\tsub/b.h\n", 20, 1); break;
    case 9: { int n = sprintf(b, "x.o:"); for (int i = 0; i < 300; i++) n += sprintf(b + n, " a.h%s", i % 7 ? "" : " \\\n"); file(b, n, 1); n += sprintf(b + n, " m.h"); file(b, n, 0); break; } case 10: file("x.o: a.h", 8, 1); break; default: rule(b, "C:/y.o", d, 1, 2, 1); file(b, strlen(b), 1); }
    file("x.o: m.h\n", 9, 0); file("x.o: a.h sub/b.h\n", 17, 1); weed(k & 1);
}
const mc_scenario mc_scenarios[] = { { "rules of up to 2 names", r_rules, 2, 0, 1, 0 }, { "rules of 3 names", r_rules, 3, 1, 1, 0 }, { "odd files", r_odd, 0, 0, 1, 0 }, { 0 } };
