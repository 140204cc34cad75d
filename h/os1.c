/* C51 log rotation, C52 directory creation and dirname, C53 line reading. */
#include "mc.h"
#ifdef P_C52
#undef WRAP_mkdir
#undef WRAP_stat
#undef WRAP_lstat
#endif
#include "fsfault.h"
static char basebuf[300]; static const char *base;
static void rm_at(int dfd, const char *n)
{
    if (unlinkat(dfd, n, 0) == 0) return; int fd = openat(dfd, n, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return;
    DIR *d = fdopendir(dup(fd)); struct dirent *e; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) rm_at(fd, e->d_name); closedir(d); close(fd); unlinkat(dfd, n, AT_REMOVEDIR);
}
static int have_base;
static void after(void) { fs_on = 0; if (have_base && chdir(basebuf)) {} }
static void init(void) { mc_after = after; }
static void start(void) __attribute__((constructor)); static void start(void) { mc_worker_init = init; }
int __real_mkdir(const char *, mode_t);
static void fresh(void)
{
    fs_on = 0; snprintf(basebuf, sizeof basebuf, "%s", mc_scratch()); base = basebuf; if (strncmp(base, "/tmp/mc", 7)) abort(); if (chdir("/tmp")) abort(); rm_at(AT_FDCWD, base); if (__real_mkdir(base, 0755) && errno != EEXIST) abort(); have_base = 1; if (chdir(base)) abort();
}

#ifdef P_C51
#include "utils/rotatefile.h"
#define MAXC 8
static const char *FN;
static void nm(char *b, int i) { if (i < 0) strcpy(b, FN); else sprintf(b, "%s.%d", FN, i); }
/* a[0] is the current file, a[1+i] copy i: 0 absent, 1 file, 2 directory */
static void fill(const int *a, int n) { char b[300]; for (int i = 0; i < n; i++) { nm(b, i - 1); char c = 'A' + i; if (a[i] == 1) fs_put(b, &c, 1); if (a[i] == 2) __real_mkdir(b, 0755); } }
static int slot_of(const char *b) { char c = 0; struct stat s; if (lstat(b, &s)) return -1; if (S_ISDIR(s.st_mode)) return 100; return fs_get(b, &c, 1) == 1 ? c - 'A' : 101; }
static void look(int *now, int n) { char b[300]; for (int i = 0; i < n; i++) { nm(b, i - 1); now[i] = slot_of(b); } }
static void judge(const int *a, int n, int ns, int r, int clean, const char *how)
{
    int now[MAXC + 4]; look(now, n); char before[64] = "", is[64] = ""; for (int i = 0; i < n; i++) { sprintf(before + strlen(before), "%c", a[i] == 1 ? 'A' + i : a[i] == 2 ? '/' : '-'); sprintf(is + strlen(is), "%c", now[i] < 0 ? '-' : now[i] == 100 ? '/' : now[i] > 100 ? '?' : 'A' + now[i]); }
    mc_note("keep %d: %s -> %s (%d) %s", ns, before, is, r, how); uint64_t h = mc_mix(ns, r); for (int i = 0; i < n; i++) h = mc_mix(h, now[i]); mc_state(h);
    /* what has to survive: the current content and copies 0 .. ns-2 (and every directory) */
    for (int i = 0; i < n; i++) if (a[i] == 1 && i < ns) { int at = -1, cnt = 0; for (int j = 0; j < n; j++) if (now[j] == i) { at = j; cnt++; } MC_ASSERT(cnt == 1 && at <= ns, "lost", "keep %d: %s became %s %s (result %d): content %c is %s", ns, before, is, how, r, 'A' + i, cnt ? "in the wrong place" : "lost"); MC_ASSERT(at == i || at == i + 1, "moved", "keep %d: %s became %s %s (result %d): content %c moved to copy %d", ns, before, is, how, r, 'A' + i, at - 1); }
    for (int i = 0; i < n; i++) MC_ASSERT(now[i] < 101, "damaged", "keep %d: %s became %s %s: a file changed its content", ns, before, is, how);
    if (r < 0 || !clean) return;
    int anydir = 0; for (int i = 0; i <= ns; i++) anydir |= a[i] == 2;
    if (anydir) return;
    for (int i = 0; i < n; i++) {   /* success */
        if (i < ns && a[i] == 1 && a[0]) MC_ASSERT(now[i + 1] == i, "shift", "keep %d: %s became %s: copy %d is not what was one before it", ns, before, is, i);
        if (i == ns + 1) MC_ASSERT(now[i] < 0 || a[i] == 2, "limit", "keep %d: %s became %s: a copy beyond the limit is left", ns, before, is);
    }
    if (a[0]) MC_ASSERT(now[0] < 0, "current", "keep %d: %s became %s: the current file is still there", ns, before, is);
}
static int others_ok(void) { char c; struct stat s; return fs_get("other", &c, 1) == 1 && c == 'o' && fs_get("lo", &c, 1) == 1 && c == 'l' && fs_get("log.x", &c, 1) == 1 && c == 'x' && fs_get("log.00", &c, 1) == 1 && c == 'z' && !lstat("log.d", &s); }
static void others(void) { fs_put("other", "o", 1); fs_put("lo", "l", 1); fs_put("log.x", "x", 1); fs_put("log.00", "z", 1); __real_mkdir("log.d", 0755); }
static void r_rot(long arg)
{
    int maxn = (int)(arg & 15), faults = (int)(arg >> 4 & 3), ns = 1 + mc_choose(maxn), n = ns + 3, a[MAXC + 4], dirs = 0; for (int i = 0; i < n; i++) { a[i] = mc_choose(i < ns + 1 && !dirs && !faults ? 3 : 2); dirs += a[i] == 2; } fresh(); FN = "log"; others(); fill(a, n); mc_site("rotate_filename");
    fs_begin(faults, faults > 0); int r = 0, crashed = 0; if (setjmp(fs_crash)) crashed = 1; else r = rotate_filename(FN, ns, 0); fs_end(); mc_op();
    MC_ASSERT(others_ok(), "others", "another file was touched"); if (!crashed && !fs_faulted && !dirs) MC_ASSERT(r == 0, "result", "result %d", r); judge(a, n, ns, crashed ? -1 : r, !crashed && !fs_faulted, fs_where);
    if (!crashed && faults && fs_faulted && strstr(fs_where, "rename")) MC_ASSERT(r < 0, "silent", "%s, yet success is reported", fs_where);
}
static void r_many(long arg)
{   /* log, rotate, log, rotate ...: the newest are kept, in order */
    (void)arg; int ns = 1 + mc_choose(5), k = 1 + mc_choose(8); fresh(); FN = mc_choose(2) ? "log" : "a%d%s"; others(); for (int i = 0; i < k; i++) { char c = 'a' + i; fs_put(FN, &c, 1); mc_site("rotate_filename"); MC_ASSERT(rotate_filename(FN, ns, 0) == 0, "result", "fails"); mc_op(); MC_ASSERT(others_ok(), "others", "another file was touched");
        for (int j = 0; j < 12; j++) { char b[64], x = 0; nm(b, j); long g = fs_get(b, &x, 1); if (j < ns && j <= i) MC_ASSERT(g == 1 && x == 'a' + i - j, "order", "keep %d, rotation %d: copy %d is '%c'", ns, i, j, g == 1 ? x : '-'); else MC_ASSERT(g < 0, "extra", "keep %d, rotation %d: copy %d exists", ns, i, j); } struct stat s; MC_ASSERT(lstat(FN, &s), "current", "current file left"); }
    mc_state(mc_mix(ns, k));
}
static void r_keep(long arg)
{   /* high limits, every copy present and older ones from a time with a higher limit; every copy is there, whole, whatever its size */
    static const int NS[] = { 1, 2, 9, 10, 11, 33, 64, 99, 100, 101, 130, 300 }; (void)arg; int ns = NS[mc_choose(12)], ext = ((const int[]){ 0, 1, 30, 100 })[mc_choose(4)], empty = mc_choose(3), n = ns + ext; char b[64]; static char c[1200]; fresh(); FN = "log"; others();
    for (int i = -1; i < n; i++) { int z = sprintf(c, "copy %d", i); nm(b, i); fs_put(b, c, empty == 1 && i == -1 || empty == 2 && i % 3 == 0 ? 0 : z); } mc_site("rotate_filename"); MC_ASSERT(rotate_filename(FN, ns, 0) == 0, "result", "keep %d of %d: fails", ns, n); mc_op();
    MC_ASSERT(others_ok(), "others", "another file was touched"); struct stat s; MC_ASSERT(lstat(FN, &s), "current", "keep %d of %d: the current file is left", ns, n);
    for (int j = 0; j < n; j++) { nm(b, j); long g = fs_get(b, c, 100); if (j >= ns) { MC_ASSERT(g < 0, "extra", "keep %d of %d: copy %d exists", ns, n, j); continue; } char w[64]; int z = sprintf(w, "copy %d", j - 1); if (empty == 1 && j == 0 || empty == 2 && (j - 1) % 3 == 0) z = 0; MC_ASSERT(g == z && !memcmp(c, w, z), "order", "keep %d of %d: copy %d is not what was one before it", ns, n, j); }
    mc_state(mc_mix(ns, ext * 4 + empty));
}
static void r_size(long arg)
{
    static const uint64_t MBS[] = { 0, 1, 2, 3, 1ull << 43, 1ull << 44, 1ull << 52, ~0ull, ~0ull >> 20, (1ull << 44) + 1 }; (void)arg; uint64_t mb = MBS[mc_choose(10)]; static const int MS[] = { 0, 1, 2, 3, 4, 2047, 2048, 4095, 4096, 4097, 8193 }; int m = MS[mc_choose(11)], d = mc_choose(5) - 2; int64_t size = m * 1048576ll + d * (mc_choose(2) ? 1 : 5000); if (size < 0) return; int exist = mc_choose(3); fresh(); FN = "log"; others(); int a[5] = { exist == 1 ? 2 : exist == 0, 1, 0, 0, 0 }; fill(a, 5); if (exist == 0) { fs_put("log", "A", size ? 1 : 0); if (truncate("log", size)) return; }
    mc_site("rotate_filename_by_size"); int r = rotate_filename_by_size(FN, 3, mb, 0); mc_op(); int want = exist == 0 && (mb >= 1ull << 44 ? 0 : (uint64_t)size > mb * 1048576); MC_ASSERT(others_ok(), "others", "another file was touched"); struct stat s0, s1; int e0 = lstat("log", &s0) == 0, e1 = lstat("log.1", &s1) == 0; char c = 0;
    if (exist == 1) { MC_ASSERT(r < 0 && e0 && !e1, "size-dir", "a directory: result %d", r); return; } MC_ASSERT(r == 0, "size-result", "result %d", r); if (exist == 2) { MC_ASSERT(!e0 && !e1, "size-none", "no current file, yet copies move"); return; }
    if (want) { MC_ASSERT(!e0 && e1 && lstat("log.0", &s0) == 0 && s0.st_size == size && fs_get("log.1", &c, 1) == 1 && c == 'B', "size-rotate", "%lld bytes, limit %llu MB: not rotated", (long long)size, (unsigned long long)mb); } else MC_ASSERT(e0 && !e1 && s0.st_size == size, "size-keep", "%lld bytes, limit %llu MB: rotated", (long long)size, (unsigned long long)mb);
    mc_state(mc_mix(mb, size));
}
static void r_long(long arg)
{   /* names near the longest possible path: either all is done or nothing is touched */
    (void)arg; int len = 4075 + mc_choose(25), ns = ((const int[]){ 1, 3, 9, 10, 11, 95, 99 })[mc_choose(7)]; fresh(); static char p[4300]; int L = 0; while (L + 250 < len - 60) { memset(p + L, 'd', 249); p[L + 249] = 0; if (__real_mkdir("./ddd", 0) == 0) rmdir("./ddd"); if (__real_mkdir(p + L, 0755) || chdir(p + L)) abort(); p[L + 249] = '/'; L += 250; } int leaf = len - L; if (leaf > 246) leaf = 246; /* room for the suffix in a name */
    if (L + leaf != len) { /* one more directory */ int m = len - L - 100; memset(p + L, 'e', m - 1); p[L + m - 1] = 0; if (__real_mkdir(p + L, 0755) || chdir(p + L)) abort(); p[L + m - 1] = '/'; L += m; leaf = len - L; }
    memset(p + L, 'f', leaf); p[len] = 0; char fn[300], b[320]; strcpy(fn, p + L); fs_put(fn, "A", 1); int nb = 0; char names[4][320]; for (int k = 1; k <= 3; k++) { snprintf(names[nb], 320, "%s", fn); names[nb][leaf - k] = 0; char c = 'p' + k; if (k < leaf) fs_put(names[nb], &c, 1); nb++; snprintf(b, sizeof b, "%s.", fn); } char dot[320]; snprintf(dot, sizeof dot, "%s.", fn); fs_put(dot, ".", 1); char d1[320]; snprintf(d1, sizeof d1, "%s.1", fn); if (ns > 20) fs_put(d1, "1", 1);
    if (chdir(base)) abort(); mc_site("rotate_filename of a path of %d bytes", len); int r = rotate_filename(p, ns, 0); mc_op();
    int fd = open(base, O_RDONLY); for (char *q = p, *e; (e = strchr(q, '/')); q = e + 1) { *e = 0; int g = openat(fd, q, O_RDONLY); close(fd); fd = g; *e = '/'; } if (fchdir(fd)) abort(); close(fd); char c; struct stat s; for (int k = 0; k < nb; k++) MC_ASSERT(fs_get(names[k], &c, 1) == 1 && c == 'p' + k + 1, "long-other", "path of %d bytes: another file was touched", len); MC_ASSERT(fs_get(dot, &c, 1) == 1 && c == '.', "long-other", "path of %d bytes: another file was touched", len);
    snprintf(b, sizeof b, "%s.0", fn); if (r == 0 && len < 4094) MC_ASSERT(lstat(fn, &s) && fs_get(b, &c, 1) == 1 && c == 'A', "long", "path of %d bytes: success, but not rotated", len); else if (len < 4096) MC_ASSERT(r < 0 && fs_get(fn, &c, 1) == 1 && c == 'A', "long-lost", "path of %d bytes: result %d and the current file is gone", len, r); else MC_ASSERT(fs_get(fn, &c, 1) == 1 && c == 'A', "long-lost2", "path of %d bytes: the current file is gone", len);
    mc_state(mc_mix(len, ns));
}
const mc_scenario mc_scenarios[] = { { "one rotation", r_rot, 4, 0, 4, 0 }, { "one fault or crash", r_rot, 3 | 1 << 4, 0, 4, 0 }, { "two faults", r_rot, 3 | 2 << 4, 1, 4, 0 }, { "one fault or crash, more copies", r_rot, 5 | 1 << 4, 1, 4, 0 }, { "many rotations", r_many, 0, 0, 2, 0 }, { "high limits", r_keep, 0, 0, 1, 0 }, { "by size", r_size, 0, 0, 2, 0 }, { "long paths", r_long, 0, 0, 2, 0 }, { 0 } };
#endif

#ifdef P_C52
#include "utils/mkdirhier.h"
extern const char *dirname(char *buf, size_t bsize, const char *path);
/* --- the world around mkdirhier: calls are counted, may fail, and another process may act just before them --- */
static int on, oth_left, fault_left, oth_acts, faulted; static const char *want_path;
static void oth_make(int upto)
{   /* the other process makes the first missing directory of the path (upto 0), or all of it */
    char z[600]; int made = 0; for (int i = 0; want_path[i]; i++) if ((want_path[i + 1] == '/' || !want_path[i + 1]) && want_path[i] != '/') { memcpy(z, want_path, i + 1); z[i + 1] = 0; if (__real_mkdir(z, 0755) == 0) { made++; if (!upto) break; } }
    mc_note("the other process makes %d", made); if (made) oth_acts++;
}
static int world(const char *nm, const char *p)
{
    mc_op(); if (p[0] == '/') { size_t l = strlen(base), k = strlen(p); if (!(strncmp(p, base, l) == 0 && (p[l] == '/' || !p[l])) && !(k <= l && !strncmp(base, p, k))) { on = 0; mc_fail("outside", "%s of %s", nm, p); } }
    if (oth_left) { int c = mc_choose(3); if (c) { oth_left--; oth_make(c - 1); } }
    if (fault_left && !strcmp(nm, "mkdir")) { int c = mc_choose(4); if (c) { fault_left--; faulted = errno = ((const int[]){ EACCES, ENOSPC, EROFS })[c - 1]; return -1; } }
    return 0;
}
int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_mkdirat(int, const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) { if (on && world("mkdir", p)) return -1; return __real_mkdir(p, m); }
int __wrap_mkdirat(int d, const char *p, mode_t m) { if (on && world("mkdir", p)) return -1; return __real_mkdirat(d, p, m); }
int __wrap_stat(const char *p, struct stat *s) { if (on && world("stat", p)) return -1; return __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { if (on && world("lstat", p)) return -1; return __real_lstat(p, s); }
static void list(int dfd, const char *pre, char *o, size_t z)
{
    DIR *d = fdopendir(dfd); struct dirent *e; char nmv[64][40]; int n = 0; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < 64) snprintf(nmv[n++], 40, "%.39s", e->d_name);
    qsort(nmv, n, 40, (int (*)(const void *, const void *))strcmp); for (int i = 0; i < n; i++) { struct stat s; fstatat(dirfd(d), nmv[i], &s, AT_SYMLINK_NOFOLLOW); size_t l = strlen(o); snprintf(o + l, z - l, "%s/%s%c%o ", pre, nmv[i], S_ISDIR(s.st_mode) ? 'd' : S_ISLNK(s.st_mode) ? 'l' : 'f', s.st_mode & 0777); if (S_ISDIR(s.st_mode)) { char q[300]; snprintf(q, sizeof q, "%s/%s", pre, nmv[i]); list(openat(dirfd(d), nmv[i], O_RDONLY), q, o, z); } }
    closedir(d);
}
static void world_state(int st)
{   /* in the current directory */
    switch (st) { case 1: __real_mkdir("a", 0755); break; case 2: fs_put("a", "f", 1); break; case 3: __real_mkdir("d", 0755); if (symlink("d", "a")) {} break; case 4: if (symlink("no", "a")) {} break;
    case 5: __real_mkdir("a", 0755); __real_mkdir("a/a", 0755); break; case 6: __real_mkdir("a", 0755); fs_put("a/a", "f", 1); break; case 7: __real_mkdir("a", 0755); __real_mkdir("b", 0755); if (symlink("../b", "a/b")) {} break; case 8: __real_mkdir("b", 0755); __real_mkdir("b/a", 0755); fs_put("a", "f", 1); break; case 9: if (symlink("a", "a")) {} break; default: break; }
}
static int ref_mk(const char *path, mode_t m)
{   /* make every component in turn */
    if (!*path) return -1; char z[600]; struct stat s; for (int i = 0; path[i]; i++) if (path[i] != '/' && (path[i + 1] == '/' || !path[i + 1])) { memcpy(z, path, i + 1); z[i + 1] = 0; if (__real_stat(z, &s) == 0) { if (!S_ISDIR(s.st_mode)) return -1; continue; } if (__real_mkdir(z, m)) return -1; }
    return __real_stat(path, &s) || !S_ISDIR(s.st_mode) ? -1 : 0;
}
/* two equal worlds, deep enough that .. never leaves the scratch directory */
static void enter(const char *top, int st) { char p[400]; snprintf(p, sizeof p, "%s/%s", base, top); __real_mkdir(p, 0755); if (chdir(p)) abort(); for (int i = 0; i < 5; i++) { char n[2] = { (char)('p' + i), 0 }; __real_mkdir(n, 0755); if (chdir(n)) abort(); } world_state(st); }
static void go(const char *rel, int st, int abspath, mode_t mode, int oth, int flt)
{
    static char l1[20000], l2[20000]; char path[700]; fresh(); umask(0022); enter("R", st); char cw[500]; if (!getcwd(cw, sizeof cw)) abort(); if (abspath) snprintf(path, sizeof path, "%s/%s", cw, rel); else snprintf(path, sizeof path, "%s", rel); int rr = ref_mk(path, mode);
    enter("S", st); if (!getcwd(cw, sizeof cw)) abort(); if (abspath) snprintf(path, sizeof path, "%s/%s", cw, rel); want_path = path; oth_left = oth; fault_left = flt; oth_acts = faulted = 0; on = 1; mc_site("mkdirhier"); char *cp = strdup(path); int r = mkdirhier(cp, mode); on = 0; struct stat s; int isdir = __real_stat(path, &s) == 0 && S_ISDIR(s.st_mode); free(cp);
    if (r == 0) MC_ASSERT(isdir, "no-dir", "\"%s\" (state %d): success, but there is no directory", rel, st); else MC_ASSERT(r < 0, "ret", "returns %d", r);
    l1[0] = l2[0] = 0; char q[400]; snprintf(q, sizeof q, "%s/R", base); list(open(q, O_RDONLY), "", l1, sizeof l1); snprintf(q, sizeof q, "%s/S", base); list(open(q, O_RDONLY), "", l2, sizeof l2); if (chdir(base)) abort();
    if (!faulted) { MC_ASSERT((r == 0) == (rr == 0), "result", "\"%s\" (state %d%s): %s, expected %s", rel, st, oth_acts ? ", another process creating" : "", r ? strerror(-r) : "success", rr ? "failure" : "success"); if (!oth_acts && r == 0) MC_ASSERT(!strcmp(l1, l2), "tree", "\"%s\" (state %d): made %s, expected %s", rel, st, l2, l1); }
    else { MC_ASSERT(r < 0 || isdir, "fault", "a failed mkdir is not reported"); if (r < 0 && rr == 0) MC_ASSERT(r == -EACCES || r == -ENOSPC || r == -EROFS, "fault-error", "\"%s\" (state %d): mkdir fails with %s, and %s is reported", rel, st, strerror(faulted), strerror(-r)); }
    /* nothing but parts of the path */
    char *sv = 0; for (char *t = strtok_r(l2, " ", &sv); t; t = strtok_r(0, " ", &sv)) if (!faulted && !oth_acts) MC_ASSERT(strstr(l1, t), "stray", "\"%s\" (state %d): %s was made", rel, st, t);
    mc_state(mc_hash(mc_mix(st, r), rel, strlen(rel)));
}
static void r_paths(long arg) { static const char AL[] = "a/.b"; char s[16]; int n = mc_choose((int)(arg & 15) + 1); for (int i = 0; i < n; i++) s[i] = AL[mc_choose(3 + (int)(arg >> 4 & 1))]; s[n] = 0; int ab = s[0] == '/' ? 1 : mc_choose(2); for (int st = 0; st < 10; st++) go(s, st, ab, 0755, 0, 0); }
static const char *PATHS[] = { "a", "a/", "a/b", "a//b/", "a/b/c", "a/b/c//", "./a/./b", "a/../b", "b/../a/c", "a/b/c/d", "/a/b" };
static void r_other(long arg) { int p = mc_choose(10), st = mc_choose(10); go(PATHS[p], st, mc_choose(2), 0755, (int)arg, 0); }
static void r_fault(long arg) { int p = mc_choose(10), st = mc_choose(10); go(PATHS[p], st, mc_choose(2), 0755, 0, (int)arg); }
static void r_mode(long arg) { (void)arg; static const mode_t M[] = { 0700, 0755, 0777, 0711, 0500, 01777, 0 }; int m = mc_choose(7), p = mc_choose(10); go(PATHS[p], mc_choose(2), 0, M[m] & 0777, 0, 0); }
static void r_long(long arg)
{
    (void)arg; int len = ((const int[]){ 255, 256, 1000, 4000, 4090, 4093, 4094, 4095, 4096, 4097, 4200, 9000 })[mc_choose(12)], comp = ((const int[]){ 100, 200, 255, 256 })[mc_choose(4)]; fresh(); char *p = malloc(len + 1); for (int i = 0; i < len; i++) p[i] = i % (comp + 1) == comp ? '/' : 'a' + i / (comp + 1) % 26; p[len] = 0; int slash = p[len - 1] == '/'; on = 1; oth_left = fault_left = 0; want_path = p; mc_site("mkdirhier of a path of %d bytes", len); int r = mkdirhier(p, 0755); on = 0;
    if (len >= 4096) MC_ASSERT(r < 0, "long", "a path of %d bytes is made", len); else if (comp == 256) MC_ASSERT(len < 256 || r < 0, "long-comp", "a component of 256 bytes is made"); else MC_ASSERT(r == 0, "long-fails", "a path of %d bytes: %s", len, strerror(-r)); (void)slash;
    if (r == 0) { struct stat s; MC_ASSERT(!__real_stat(p, &s) && S_ISDIR(s.st_mode), "long-dir", "not made"); MC_ASSERT(mkdirhier(p, 0755) == 0, "again", "a second time fails"); } free(p); mc_state(mc_mix(len, comp)); mc_op();
}
static void r_dir(long arg)
{
    static const char AL[] = "/a.b"; char p[20], e[20]; int n = mc_choose((int)(arg & 15) + 1), na = (int)(arg >> 4); for (int i = 0; i < n; i++) p[i] = AL[mc_choose(na)]; p[n] = 0;
    int k = n; while (k > 0 && p[k - 1] == '/') k--; if (k == 0) strcpy(e, n ? "/" : "."); else { while (k > 0 && p[k - 1] != '/') k--; while (k > 0 && p[k - 1] == '/') k--; if (k == 0) strcpy(e, p[0] == '/' ? "/" : "."); else { memcpy(e, p, k); e[k] = 0; } }
    for (int z = 0; z <= n + 3; z++) { char *b = malloc(z), *q = strdup(p); memset(b, 0x55, z); mc_site("dirname"); const char *r = dirname(b, z, q); mc_op(); MC_ASSERT(!strcmp(p, q), "src", "the path was changed"); if (r) MC_ASSERT((r == b || !b) && !strcmp(r, e), "dirname", "\"%s\" gives \"%s\", expected \"%s\"", p, r, e); else MC_ASSERT(z < n + 1 || z < 2, "dirname-null", "\"%s\" with %d bytes of room gives nothing", p, z); free(b); free(q); }
    mc_state(mc_hash(n, p, n));
}
#define P(n, a) ((n) | (a) << 4)
const mc_scenario mc_scenarios[] = { { "paths up to 6, three characters", r_paths, P(6, 0), 0, 3, 0 }, { "paths up to 7, four characters", r_paths, P(7, 1), 1, 4, 0 }, { "another process creates, one act", r_other, 1, 0, 3, 0 }, { "another process creates, two acts", r_other, 2, 1, 3, 0 }, { "a failing mkdir", r_fault, 1, 0, 3, 0 }, { "modes", r_mode, 0, 0, 2, 0 }, { "long paths", r_long, 0, 0, 1, 0 },
    { "dirname, up to 8, three characters", r_dir, P(8, 3), 0, 3, MC_F_LEAK }, { "dirname, up to 9, four characters", r_dir, P(9, 4), 1, 4, MC_F_LEAK }, { 0 } };
#endif

#ifdef P_C53
extern int freadline(FILE *fp, unsigned char *str, int n);
typedef struct { const unsigned char *s; int n, at, err, chunk; } src;
static ssize_t rd(void *c, char *b, size_t z) { src *s = c; if (s->err >= 0 && s->at >= s->err) { errno = EIO; return -1; } int k = s->n - s->at; if (s->err >= 0 && s->at + k > s->err) k = s->err - s->at; if (s->chunk && k > s->chunk) k = s->chunk; if ((size_t)k > z) k = (int)z; memcpy(b, s->s + s->at, k); s->at += k; return k; }
static void one(const unsigned char *t, int n, int z, int err, int chunk)
{   /* buffer of z bytes; the stream fails at err */
    src s = { t, n, 0, err, chunk }; cookie_io_functions_t io = { .read = rd }; FILE *f = fopencookie(&s, "r", io); if (!f) abort(); if (chunk) setvbuf(f, 0, _IONBF, 0); unsigned char *b = malloc(z); int at = 0, lim = err >= 0 ? err : n;
    for (int guard = 0; guard < n + 3; guard++) {
        int st = at, len = 0; while (at < lim && t[at] != '\r' && t[at] != '\n') at++, len++; int ended = at < lim, cr = ended && t[at] == '\r', tail = 0; if (ended) { at++; if (cr) { if (at < lim && t[at] == '\n') at++; else if (at == lim && err >= 0) tail = 1; } } memset(b, 0x6b, z); mc_site("freadline"); int r = freadline(f, b, z); mc_op();
        if (len >= z) { if (ended || err < 0 || len > z) MC_ASSERT(r == -ENOSPC || (r < 0 && !ended && err >= 0), "nospace", "a line of %d bytes in a buffer of %d gives %d", len, z, r); else MC_ASSERT(r < 0, "nospace2", "a line of %d bytes in a buffer of %d gives %d", len, z, r); break; }
        if (!ended && err >= 0) { MC_ASSERT(r < 0, "error", "a read error after %d bytes gives %d", len, r); break; }
        if (tail && r < 0) break;
        MC_ASSERT(r == len, "len", "line at %d: %d bytes, expected %d", st, r, len); MC_ASSERT(!memcmp(b, t + st, len), "text", "line at %d: wrong content", st); MC_ASSERT(b[len] == 0, "nul", "line at %d is not terminated", st); if (tail) break;
        if (!ended && len == 0) break;
    }
    fclose(f); free(b);
}
static void r_all(long arg) { static const unsigned char AL[] = { 'a', '\n', '\r', 0, 0xff, '#' }; unsigned char t[16]; int na = (int)(arg >> 4), n = mc_choose((int)(arg & 15) + 1); for (int i = 0; i < n; i++) t[i] = AL[mc_choose(na)]; unsigned char *q = malloc(n); memcpy(q, t, n); for (int z = 1; z <= n + 2; z++) { one(q, n, z, -1, 0); one(q, n, z, -1, 1); for (int e = 0; e <= n; e++) one(q, n, z, e, 0); } free(q); mc_state(mc_hash(n, t, n)); }
static void r_len(long arg) { (void)arg; static unsigned char t[10000]; int len = mc_choose(3) * 4090 + mc_choose(14), e = mc_choose(4), z = len + mc_choose(5) - 2; if (z < 1) return; int n = 0; for (; n < len; n++) t[n] = 'a' + n % 26; if (e == 0) t[n++] = '\n'; if (e == 1) { t[n++] = '\r'; t[n++] = '\n'; } if (e == 2) t[n++] = '\r'; t[n++] = 'x'; one(t, n, z, -1, 0); mc_state(mc_mix(len, e * 8 + z - len)); }
static void r_byte(long arg) { (void)arg; unsigned char t[4]; int c = mc_choose(256), k = mc_choose(3); t[0] = 'x'; t[1] = 'y'; t[2] = '\n'; t[3] = 'z'; t[k] = (unsigned char)c; for (int n = 1; n <= 4; n++) one(t, n, 6, -1, 0); mc_state(mc_mix(c, k)); }
const mc_scenario mc_scenarios[] = { { "streams up to 7, three characters", r_all, 7 | 3 << 4, 0, 4, MC_F_LEAK }, { "streams up to 5, six characters", r_all, 5 | 6 << 4, 0, 3, MC_F_LEAK }, { "streams up to 8, four characters", r_all, 8 | 4 << 4, 1, 4, MC_F_LEAK }, { "long lines", r_len, 0, 0, 2, MC_F_LEAK }, { "every byte", r_byte, 0, 0, 1, MC_F_LEAK }, { 0 } };
#endif
