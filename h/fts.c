/* C50: a monitor beside every walk. The tree is real; the walk runs as an unprivileged user so that modes mean something. */
#include "mc.h"
#include "fsfault.h"
#include <fts.h>

static const char *base; static char basebuf[300];
static void rm_at(int dfd, const char *n)
{
    if (unlinkat(dfd, n, 0) == 0) return; int fd = openat(dfd, n, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return; fchmod(fd, 0700);
    DIR *d = fdopendir(dup(fd)); struct dirent *e; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) rm_at(fd, e->d_name); closedir(d); close(fd); unlinkat(dfd, n, AT_REMOVEDIR);
}
static void drop(void) { if (getuid() == 0 && seteuid(65534)) abort(); }
static void undrop(void) { if (getuid() == 0 && seteuid(0)) abort(); }
static void frames_free(void); static void *open_walk; static void after(void) { undrop(); frames_free(); if (open_walk) { fts_close(open_walk); open_walk = 0; } if (basebuf[0] && chdir(basebuf)) {} }

/* ---- trees ---- */
enum { KF, KD, KLEXT, KLEMP, KDANG, KU0, KU4, KLROOT, KFIFO, KLF, NKIND };
static const char *NAMES[] = { "m", "c", "x", "ab", "k", "a" };
static char shape[16]; static int nshape = -1, shape_ok;
static void build(const signed char *par, const signed char *kind, int n, const signed char *nm)
{
    char key[16]; key[0] = n; for (int i = 0; i < n; i++) { key[1 + 2 * i] = par[i]; key[2 + 2 * i] = kind[i]; } (void)nm;
    if (nshape == 1 + 2 * n && !memcmp(key, shape, nshape) && shape_ok) return;
    shape_ok = 0; undrop(); snprintf(basebuf, sizeof basebuf, "%s", mc_scratch()); base = basebuf; if (strncmp(base, "/tmp/mc", 7)) abort();
    chmod(base, 0755); rm_at(AT_FDCWD, base); mkdir(base, 0755); if (chdir(base)) abort(); if (getuid() == 0 && chown(base, 65534, 65534)) abort(); drop();
    mkdir("ext", 0755); fs_put("ext/z", "1", 1); mkdir("emp", 0755); mkdir("t", 0755); fs_put("file", "x", 1); if (symlink("t", "lt") || symlink("nowhere", "ld")) abort();
    char p[8][200]; strcpy(p[0], "t"); char late[8][200]; int lm[8], nl = 0;
    for (int i = 0; i < n; i++) {
        char q[220], l[320]; snprintf(q, sizeof q, "%s/%s", p[(int)par[i]], NAMES[i]); strcpy(p[i + 1], q);
        switch (kind[i]) {
        case KF: fs_put(q, "y", 1); break; case KD: mkdir(q, 0755); break; case KFIFO: mkfifo(q, 0644); break;
        case KU0: case KU4: mkdir(q, 0755); snprintf(l, sizeof l, "%s/h", q); fs_put(l, "h", 1); snprintf(l, sizeof l, "%s/sub", q); mkdir(l, 0755); strcpy(late[nl], q); lm[nl++] = kind[i] == KU0 ? 0 : 0444; break;
        default: snprintf(l, sizeof l, "%s/%s", base, kind[i] == KLEXT ? "ext" : kind[i] == KLEMP ? "emp" : kind[i] == KLROOT ? "t" : kind[i] == KLF ? "file" : "no"); if (symlink(l, q)) abort();
        }
    }
    for (int i = 0; i < nl; i++) chmod(late[i], lm[i]);
    memcpy(shape, key, nshape = 1 + 2 * n); shape_ok = 1;
}
/* ---- the monitor ---- */
typedef struct { char path[9000]; FTSENT *ent; dev_t d; ino_t i; int nkid, follow; char (*kid)[256]; unsigned char *done; int unsure; } frame;
static frame fr[40]; static int nfr; static FTS *sp;
static int opts, cmp; static int instr_left, walk_notes;
static int names(const FTSENT **a, const FTSENT **b) { return strcmp((*a)->fts_name, (*b)->fts_name); }
static int names_r(const FTSENT **a, const FTSENT **b) { return strcmp((*b)->fts_name, (*a)->fts_name); }
static const char *absp(const char *p) { static char b[9300]; if (p[0] == '/') return p; snprintf(b, sizeof b, "%s/%s", base, p); return b; }
static int isdot(const char *n) { return n[0] == '.' && (!n[1] || (n[1] == '.' && !n[2])); }
static int kind_of(const char *path, const char *name, int follow, struct stat *s)
{
    if (follow) { if (stat(absp(path), s)) return lstat(absp(path), s) ? FTS_NS : FTS_SLNONE; } else if (lstat(absp(path), s)) return FTS_NS;
    if (S_ISDIR(s->st_mode)) { if (isdot(name)) return FTS_DOT; for (int k = 1; k < nfr; k++) if (fr[k].d == s->st_dev && fr[k].i == s->st_ino) return FTS_DC; return FTS_D; }
    return S_ISLNK(s->st_mode) ? FTS_SL : S_ISREG(s->st_mode) ? FTS_F : FTS_DEFAULT;
}
static void add_kid(frame *f, const char *n) { f->kid = realloc(f->kid, 256 * (f->nkid + 1)); f->done = realloc(f->done, f->nkid + 1); snprintf(f->kid[f->nkid], 256, "%s", n); f->done[f->nkid++] = 0; }
static void pop(void) { frame *f = &fr[--nfr]; free(f->kid); free(f->done); f->kid = 0; f->done = 0; f->nkid = 0; }
static void frames_free(void) { while (nfr > 0) pop(); }
static int list_dir(frame *f, const char *path)
{
    DIR *d = opendir(absp(path)); if (!d) return errno; struct dirent *e; while ((e = readdir(d))) if ((opts & FTS_SEEDOT) || !isdot(e->d_name)) add_kid(f, e->d_name); closedir(d); return 0;
}
static const char *iname(int i) { static const char *N[] = { "?", "D", "DC", "DEFAULT", "DNR", "DOT", "DP", "ERR", "F", "INIT", "NS", "NSOK", "SL", "SLNONE", "W" }; return i >= 0 && i < 15 ? N[i] : "?"; }
static void joinp(char *o, size_t z, const char *dir, const char *n) { size_t l = strlen(dir); snprintf(o, z, "%s%s%s", dir, l && dir[l - 1] == '/' ? "" : "/", n); }
static int searchable(const char *path) { return faccessat(AT_FDCWD, absp(path), X_OK, AT_EACCESS) == 0; }
static void about(FTSENT *p, const char *path, int level, int follow)
{   /* the fields of a returned entry */
    char rootname[300]; const char *nm; MC_ASSERT(p->fts_level == level, "level", "%s: level %d, expected %d", path, p->fts_level, level);
    MC_ASSERT(!strcmp(p->fts_path, path) && p->fts_pathlen == strlen(path), "path", "path \"%.300s\" (%u), expected \"%.300s\"", p->fts_path, p->fts_pathlen, path);
    if (level == 0) { const char *s = strrchr(path, '/'); snprintf(rootname, sizeof rootname, "%s", s && (s != path || s[1]) ? s + 1 : path); nm = rootname; } else nm = strrchr(path, '/') + 1;
    MC_ASSERT(!strcmp(p->fts_name, nm) && p->fts_namelen == strlen(nm), "name", "name \"%.260s\" (%u), expected \"%.260s\"", p->fts_name, p->fts_namelen, nm);
    if (p->fts_info != FTS_NS && p->fts_info != FTS_NSOK && p->fts_info != FTS_ERR) { struct stat a, b; if (!lstat(absp(path), &a)) { MC_ASSERT(!lstat(p->fts_accpath, &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev, "accpath", "%s: the access path \"%.300s\" does not lead to it", path, p->fts_accpath);
        if (!(opts & FTS_NOSTAT) && (follow ? stat(absp(path), &a) == 0 || lstat(absp(path), &a) == 0 : 1)) MC_ASSERT(p->fts_statp && p->fts_statp->st_ino == a.st_ino && p->fts_statp->st_mode == a.st_mode && p->fts_statp->st_size == a.st_size, "stat", "%s: stat information is not the file's", path); } }
}
static int nfds(void) { return fs_dir_fds(); }
enum { I_NONE, I_SKIP, I_AGAIN, I_KIDS, I_NAMES, I_KSKIP, I_FOLLOW, I_STOP };
static int quit;
static void walk(const char *const *roots)
{
    char *argv[6]; int na = 0; for (; roots[na]; na++) argv[na] = (char *)roots[na]; argv[na] = 0; char cwd0[600], cwd1[600]; if (!getcwd(cwd0, sizeof cwd0)) abort(); int fd0 = nfds();
    frames_free(); nfr = 1; frame *R = &fr[0]; R->path[0] = 0; R->ent = 0; R->nkid = 0; for (int i = 0; i < na; i++) add_kid(R, argv[i]);
    mc_site("fts_open"); sp = fts_open(argv, opts, cmp ? cmp == 1 ? names : names_r : 0); open_walk = sp; mc_op(); MC_ASSERT(sp, "open", "fts_open failed: %s", strerror(errno));
    FTSENT *cur = 0; int info = 0, follow_cur = 0, followed = 0, ins = I_NONE; char cpath[9100] = ""; int again_ok = 0; char kskip[256] = ""; int kskip_lev = -1; long marks = 0, steps = 0; quit = 0; char lastroot[300] = ""; static long markof[64];
    for (;;) {
        if (++steps > 3000) mc_fail("endless", "the walk does not end");
        mc_site("fts_read"); errno = 77; FTSENT *p = fts_read(sp); int e = errno; mc_op(); char want[9300]; struct stat s; int k, lv;
        if (ins == I_AGAIN || ins == I_FOLLOW) {   /* the same entry, looked at again */
            MC_ASSERT(p == cur, "again", "after %s of %s another entry is returned", ins == I_AGAIN ? "AGAIN" : "FOLLOW", cpath); lv = cur->fts_level;
            if (info == FTS_DP || info == FTS_ERR) { /* its frame was popped already */ }
            if (ins == I_FOLLOW) followed = 1; k = kind_of(cpath, p->fts_name, ins == I_FOLLOW || (opts & FTS_LOGICAL), &s); follow_cur = ins == I_FOLLOW || (opts & FTS_LOGICAL);
            MC_ASSERT(p->fts_info == k || (k == FTS_D && p->fts_info == FTS_DOT), "again-kind", "%s: looked at again it is %s, expected %s", cpath, iname(p->fts_info), iname(k)); about(p, cpath, lv, follow_cur);
        } else if (cur && info == FTS_D) {         /* entering a directory, or its end */
            MC_ASSERT(nfr < 39, "depth", "too deep"); frame *f = &fr[nfr]; snprintf(f->path, sizeof f->path, "%s", cpath); f->ent = cur; f->nkid = 0; f->kid = 0; f->done = 0; f->follow = followed; f->unsure = 0; struct stat ds; if (stat(absp(cpath), &ds)) memset(&ds, 0, sizeof ds); f->d = ds.st_dev; f->i = ds.st_ino;
            int er = ins == I_SKIP ? 0 : list_dir(f, cpath); int srch = searchable(cpath); nfr++;
            if (er || (ins == I_SKIP) || f->nkid == 0) {
                int exp = er ? FTS_DNR : FTS_DP; MC_ASSERT(p == cur, "end", "%s: %s is followed by %s", cpath, ins == I_SKIP ? "skipped" : er ? "unreadable" : "empty", p ? p->fts_path : "nothing");
                MC_ASSERT(p->fts_info == exp || (exp == FTS_DP && !srch && ins != I_SKIP && p->fts_info == FTS_ERR), "end-kind", "%s: %s, expected %s", cpath, iname(p->fts_info), iname(exp)); if (er) MC_ASSERT(p->fts_errno == er, "dnr-errno", "%s: errno %d, expected %d", cpath, p->fts_errno, er); pop(); about(p, cpath, p->fts_level, followed || (opts & FTS_LOGICAL) || (p->fts_level == 0 && (opts & FTS_COMFOLLOW)));
                MC_ASSERT(p->fts_number == markof[nfr % 64], "number", "%s: the user's number is not kept", cpath); follow_cur = followed;
            } else goto sibling;
        } else { sibling:;
            frame *f = &fr[nfr - 1]; int left = 0; for (int i = 0; i < f->nkid; i++) left += !f->done[i];
            if (left == 1 && kskip_lev == nfr) { for (int i = 0; i < f->nkid; i++) if (!f->done[i] && !strcmp(f->kid[i], kskip)) { char w2[9300]; joinp(w2, sizeof w2, f->path, kskip); if (!p || strcmp(p->fts_path, w2) || p == f->ent) { f->done[i] = 1; left = 0; } } }
            if (!left) {
                if (nfr == 1) { MC_ASSERT(!p && e == 0, "finish", "after the last entry %s is returned, errno %d", p ? p->fts_path : "nothing", e); break; }
                MC_ASSERT(p == f->ent, "post", "%s is not returned after its contents (%s is, errno %d)", f->path, p ? p->fts_path : "nothing", e); snprintf(cpath, sizeof cpath, "%s", f->path); int srch = searchable(cpath); int fl = f->follow; if (kskip_lev == nfr) kskip_lev = -1;
                MC_ASSERT(p->fts_info == FTS_DP || (!srch && p->fts_info == FTS_ERR), "post-kind", "%s: after its contents it is %s", cpath, iname(p->fts_info)); pop(); followed = fl; follow_cur = fl; about(p, cpath, p->fts_level, fl || (opts & FTS_LOGICAL) || (p->fts_level == 0 && (opts & FTS_COMFOLLOW))); MC_ASSERT(p->fts_number == markof[nfr % 64], "number", "%s: the user's number is not kept", cpath);
            } else {
                MC_ASSERT(p, "lost", "the walk ends before all of %s was returned (errno %d)", f->path, e); MC_ASSERT(p->fts_parent == f->ent || nfr == 1, "parent", "%s: wrong parent", p->fts_path);
                int hit = -1, best = -1; const char *ent;
                for (int i = 0; i < f->nkid; i++) if (!f->done[i]) { if (nfr == 1) snprintf(want, sizeof want, "%s", f->kid[i]); else joinp(want, sizeof want, f->path, f->kid[i]); if (!strcmp(want, p->fts_path)) { if (hit < 0) hit = i; } if (!cmp && nfr == 1) { if (best < 0) best = i; } else if (cmp) { if (best < 0 || (cmp == 1 ? strcmp(f->kid[i], f->kid[best]) < 0 : strcmp(f->kid[i], f->kid[best]) > 0)) best = i; } }
                MC_ASSERT(hit >= 0, "stranger", "%s is returned, not one of the entries left in %s", p->fts_path, nfr == 1 ? "the arguments" : f->path);
                if (best >= 0 && best != hit && kskip_lev == nfr && !strcmp(f->kid[best], kskip)) { f->done[best] = 1; best = -1; for (int i = 0; i < f->nkid; i++) if (!f->done[i] && (best < 0 || (cmp == 1 ? strcmp(f->kid[i], f->kid[best]) < 0 : strcmp(f->kid[i], f->kid[best]) > 0))) best = i; }
                if (best >= 0) MC_ASSERT(!strcmp(f->kid[hit], f->kid[best]), "order", "%s is returned before %s", f->kid[hit], f->kid[best]);
                f->done[hit] = 1; ent = f->kid[hit]; if (nfr == 1) snprintf(cpath, sizeof cpath, "%s", ent); else joinp(cpath, sizeof cpath, f->path, ent); lv = nfr - 1; followed = 0;
                int fol = (opts & FTS_LOGICAL) || (lv == 0 && (opts & FTS_COMFOLLOW)); follow_cur = 0; const char *nm = strrchr(cpath, '/'); nm = nm ? nm + 1 : cpath; k = kind_of(cpath, lv == 0 ? "" : nm, fol, &s);
                int ok = p->fts_info == k; if ((opts & FTS_NOSTAT) && lv > 0 && k != FTS_D && k != FTS_DC && k != FTS_DOT && p->fts_info == FTS_NSOK) ok = 1; if ((opts & FTS_NOSTAT) && k == FTS_DOT && p->fts_info == FTS_NSOK) ok = 1;
                if (k == FTS_NS && p->fts_info == FTS_NSOK && (opts & FTS_NOSTAT)) ok = 1;
                MC_ASSERT(ok, "kind", "%s is %s, expected %s", cpath, iname(p->fts_info), iname(k)); if (k == FTS_NS && p->fts_info == FTS_NS) MC_ASSERT(p->fts_errno, "ns-errno", "%s: no error given", cpath); if (p->fts_info == FTS_DC) { char *c = p->fts_cycle ? p->fts_cycle->fts_path : 0; struct stat cs; MC_ASSERT(c && p->fts_cycle->fts_ino == s.st_ino && p->fts_cycle->fts_dev == s.st_dev, "cycle", "%s: cycle entry wrong", cpath); (void)cs; }
                about(p, cpath, lv, fol); MC_ASSERT(p->fts_number == 0 && !p->fts_pointer, "number0", "%s: the user's fields are not zero at first", cpath); p->fts_number = markof[nfr % 64] = ++marks;
                if (kskip_lev == nfr && !strcmp(ent, kskip)) { cur = p; info = p->fts_info; ins = info == FTS_D ? I_SKIP : I_NONE; kskip_lev = -1; goto told; }
            }
        }
        cur = p; info = p->fts_info; ins = I_NONE;
        if (instr_left) {
            int op[8], n = 0; op[n++] = I_NONE; if (info == FTS_D) { op[n++] = I_SKIP; op[n++] = I_KIDS; op[n++] = I_NAMES; if (cmp) op[n++] = I_KSKIP; } if (!followed && info != FTS_NS && info != FTS_NSOK && info != FTS_ERR && !(opts & FTS_COMFOLLOW && p->fts_level == 0)) op[n++] = I_AGAIN; if (info == FTS_SL || info == FTS_SLNONE) op[n++] = I_FOLLOW; op[n++] = I_STOP;
            ins = op[mc_choose(n)]; if (ins != I_NONE) instr_left--;
        }
        mc_note("%s %s%s", iname(info), cpath, ins == I_SKIP ? " skip" : ins == I_AGAIN ? " again" : ins == I_KIDS ? " children" : ins == I_NAMES ? " names" : ins == I_KSKIP ? " children, skip one" : ins == I_FOLLOW ? " follow" : ins == I_STOP ? " stop" : "");
        if (ins == I_STOP) { quit = 1; break; }
        if (ins == I_KIDS || ins == I_NAMES || ins == I_KSKIP) {
            frame t = { .nkid = 0 }; static frame tf; tf = t; int er = list_dir(&tf, cpath); mc_site("fts_children"); errno = 77; FTSENT *c = fts_children(sp, ins == I_NAMES ? FTS_NAMEONLY : 0); int ce = errno; mc_op();
            if (er) MC_ASSERT(!c && ce, "kids-err", "children of unreadable %s given", cpath); else {
                int nc = 0; FTSENT *prev = 0, *skipme = 0; if (!tf.nkid) MC_ASSERT(!c && ce == 0, "kids-empty", "children of empty %s: %p errno %d", cpath, (void *)c, ce);
                for (FTSENT *q = c; q; q = q->fts_link) { int h = -1; for (int i = 0; i < tf.nkid; i++) if (!tf.done[i] && !strcmp(tf.kid[i], q->fts_name)) h = i; MC_ASSERT(h >= 0, "kids", "child \"%s\" of %s is not there or twice", q->fts_name, cpath); tf.done[h] = 1; if (prev && cmp) MC_ASSERT(cmp == 1 ? strcmp(prev->fts_name, q->fts_name) <= 0 : strcmp(prev->fts_name, q->fts_name) >= 0, "kids-order", "children out of order"); prev = q; nc++; if (q->fts_info == FTS_D) skipme = q; }
                MC_ASSERT(nc == tf.nkid, "kids-lost", "%d children of %s, expected %d", nc, cpath, tf.nkid);
                if (ins == I_KSKIP && skipme) { MC_ASSERT(fts_set(sp, skipme, FTS_SKIP) == 0, "set", "fts_set failed"); snprintf(kskip, sizeof kskip, "%s", skipme->fts_name); kskip_lev = nfr + 1; }
            }
            free(tf.kid); free(tf.done); if (!getcwd(cwd1, sizeof cwd1)) abort(); ins = I_NONE;
        } else if (ins != I_NONE) { mc_site("fts_set"); MC_ASSERT(fts_set(sp, p, ins == I_SKIP ? FTS_SKIP : ins == I_AGAIN ? FTS_AGAIN : FTS_FOLLOW) == 0, "set", "fts_set failed"); }
    told:;
        mc_state(mc_hash(mc_mix(mc_mix(info, ins), opts), cpath, strlen(cpath)));
    }
    mc_site("fts_close"); open_walk = 0; int r = fts_close(sp); sp = 0; mc_op(); MC_ASSERT(r == 0, "close", "fts_close fails: %s", strerror(errno)); MC_ASSERT(getcwd(cwd1, sizeof cwd1) && !strcmp(cwd0, cwd1), "cwd", "the working directory is %s, was %s", cwd1, cwd0);
    int fd1 = nfds(); frames_free(); MC_ASSERT(fd0 == fd1, "fds", "%d descriptors open before, %d after", fd0, fd1); (void)again_ok; (void)lastroot; (void)walk_notes;
}
static void pick(int maxn, int nk, signed char *par, signed char *kind, int *np)
{
    int n = mc_choose(maxn + 1), dirs[8] = { 0 }, nd = 1, last = 0; *np = n;
    for (int i = 0; i < n; i++) { int c = last + mc_choose(nd - last); last = c; par[i] = dirs[c]; kind[i] = mc_choose(nk); if (kind[i] == KD) dirs[nd++] = i + 1; }
}
static const char *ROOT[] = { "t", 0 };
static const int OPTS[] = { FTS_PHYSICAL, FTS_PHYSICAL | FTS_NOCHDIR, FTS_LOGICAL, FTS_PHYSICAL | FTS_NOSTAT, FTS_PHYSICAL | FTS_SEEDOT, FTS_PHYSICAL | FTS_NOSTAT | FTS_NOCHDIR, FTS_LOGICAL | FTS_SEEDOT, FTS_PHYSICAL | FTS_COMFOLLOW | FTS_NOCHDIR | FTS_SEEDOT, FTS_LOGICAL | FTS_NOSTAT };
static void r_shapes(long arg)
{   /* every tree, each option set, no instructions */
    signed char par[8], kind[8]; int n; pick((int)(arg & 7), (int)(arg >> 4 & 15), par, kind, &n); build(par, kind, n, 0);
    drop(); for (int o = 0; o < 9; o++) for (int c = 0; c < 3; c++) { opts = OPTS[o]; cmp = c; instr_left = 0; walk(ROOT); }
}
static void r_instr(long arg)
{   /* every tree, instructions at every entry */
    signed char par[8], kind[8]; int n; pick((int)(arg & 7), (int)(arg >> 4 & 15), par, kind, &n); build(par, kind, n, 0); drop(); opts = OPTS[mc_choose((int)(arg >> 12 & 15))]; cmp = 1; instr_left = (int)(arg >> 8 & 15); walk(ROOT);
}
static void r_roots(long arg)
{
    signed char par[8] = { 0, 0, 2, 2 }, kind[8] = { KF, KD, KF, KLEXT }; build(par, kind, 4, 0); drop(); char ab[400], ab2[400]; snprintf(ab, sizeof ab, "%s/t", base); snprintf(ab2, sizeof ab2, "%s/t/c/", base);
    const char *R[] = { "t", "t/", "./t", ".", "lt", "lt/", "ld", "file", "nothere", "t/../t", "emp", ab, ab2, "..", "t//c" }; int nr = 1 + mc_choose((int)(arg & 3)); const char *v[5]; for (int i = 0; i < nr; i++) { int x = mc_choose(14 - (i == 0 ? 0 : 0)); if (x == 13) x = 14; v[i] = R[x]; } v[nr] = 0;
    if (!strcmp(v[0], ".") || (nr > 1 && !strcmp(v[1], "."))) {}
    opts = OPTS[mc_choose(9)] | (mc_choose(2) ? FTS_COMFOLLOW : 0); cmp = nr > 1 ? 2 * mc_choose(2) : 0; instr_left = (int)(arg >> 4 & 3); walk(v);
}
static void r_long(long arg)
{   /* paths beyond the first buffer: names of 250 bytes, 18 levels */
    undrop(); shape_ok = 0; snprintf(basebuf, sizeof basebuf, "%s", mc_scratch()); base = basebuf; rm_at(AT_FDCWD, base); mkdir(base, 0755); if (chdir(base)) abort(); int depth = 14 + mc_choose(5), siblings = mc_choose(3), len = 200 + mc_choose(3) * 25, early = mc_choose(2); (void)arg;
    mkdir("t", 0755); if (chdir("t")) abort(); char nm[300]; memset(nm, 'n', len); nm[len] = 0; for (int i = 0; i < depth; i++) { if (siblings) { fs_put("a", "1", 1); if (siblings == 2) fs_put("zz", "2", 1); } mkdir(nm, 0755); if (chdir(nm)) abort(); } fs_put("leaf", "l", 1); if (chdir(base)) abort();
    int fd0 = nfds(); char *av[] = { "t", 0 }; int co = mc_choose(2); mc_site("fts_open"); FTS *f = fts_open(av, FTS_PHYSICAL, co ? names : 0); MC_ASSERT(f, "open", "open"); char want[8000]; strcpy(want, "t"); int d = 0, up = 0, cnt = 0; FTSENT *p; errno = 0;
    mc_site("fts_read of a long path"); while ((p = fts_read(f))) {
        mc_op(); cnt++; if (p->fts_info == FTS_D && p->fts_level > 0) { MC_ASSERT(p->fts_level == d + 1, "long-level", "level"); strcat(want, "/"); strcat(want, nm); d++; }
        if (p->fts_info == FTS_D) MC_ASSERT(!strcmp(p->fts_path, want) && p->fts_pathlen == strlen(want), "long-path", "level %d: path of %zu bytes, expected %zu", d, strlen(p->fts_path), strlen(want));
        else if (p->fts_info == FTS_F) { char w2[8300]; snprintf(w2, sizeof w2, "%s/%s", want, p->fts_name); if (!strcmp(p->fts_path, w2)) {} else mc_fail("long-file", "file path of %zu bytes, expected %zu", strlen(p->fts_path), strlen(w2)); struct stat s; MC_ASSERT(!stat(p->fts_accpath, &s) && s.st_size == 1, "long-acc", "access path"); }
        else if (p->fts_info == FTS_DP) { MC_ASSERT(!strcmp(p->fts_path, want), "long-post", "path after contents"); if (p->fts_level) { *strrchr(want, '/') = 0; d--; up++; } }
        else mc_fail("long-kind", "kind %s", iname(p->fts_info)); if (early && d == depth) break;
    }
    if (!early) MC_ASSERT(errno == 0 && up == depth && cnt == 2 + 2 * depth + 1 + siblings * depth, "long-count", "%d entries, depth %d, errno %d", cnt, up, errno); mc_site("fts_close"); MC_ASSERT(fts_close(f) == 0, "close", "close"); char b[600]; MC_ASSERT(getcwd(b, sizeof b) && !strcmp(b, base) && nfds() == fd0, "cwd", "after: %s", b);
    mc_state(mc_mix(mc_mix(depth, siblings), len * 4 + early * 2 + co));
}
static void r_misc(long arg)
{
    signed char par[8] = { 0 }, kind[8] = { KF }; (void)arg; build(par, kind, 1, 0); drop(); char *bad[] = { "t", "", 0 }, *none[] = { 0 }, *t[] = { "t", "emp", 0 }; int fd0 = nfds(); errno = 0;
    MC_ASSERT(!fts_open(bad, FTS_PHYSICAL, 0) && errno == ENOENT, "empty-arg", "an empty path is accepted"); MC_ASSERT(!fts_open(t, 0x4000, 0) && errno == EINVAL, "bad-opt", "unknown options accepted");
    FTS *f = fts_open(none, FTS_PHYSICAL, 0); if (f) { MC_ASSERT(!fts_read(f), "none", "an entry out of nothing"); fts_close(f); }
    f = fts_open(t, FTS_PHYSICAL, names_r); MC_ASSERT(f, "open", "open"); FTSENT *c = fts_children(f, 0); MC_ASSERT(c && !strcmp(c->fts_name, "t") && c->fts_link && !strcmp(c->fts_link->fts_name, "emp") && !c->fts_link->fts_link, "roots", "children before the first read are the arguments"); int k = mc_choose(4); for (int i = 0; i < k; i++) fts_read(f); MC_ASSERT(fts_close(f) == 0 && nfds() == fd0, "close", "close"); mc_op();
}
static void init(void) { mc_after = after; }
static void start(void) __attribute__((constructor)); static void start(void) { mc_worker_init = init; }
#define A(n, k, b, o) ((n) | (k) << 4 | (b) << 8 | (o) << 12)
const mc_scenario mc_scenarios[] = { { "trees of up to 3, ten kinds", r_shapes, A(3, 10, 0, 0), 0, 5, MC_F_LEAK }, { "trees of up to 4, five kinds", r_shapes, A(4, 5, 0, 0), 1, 5, MC_F_LEAK }, { "trees of up to 5, seven kinds", r_shapes, A(5, 7, 0, 0), 1, 6, MC_F_LEAK },
    { "one instruction", r_instr, A(3, 7, 1, 5), 0, 4, MC_F_LEAK }, { "two instructions", r_instr, A(2, 8, 2, 4), 0, 3, MC_F_LEAK }, { "three instructions", r_instr, A(3, 8, 3, 4), 1, 5, MC_F_LEAK }, { "arguments", r_roots, 2 | 1 << 4, 0, 3, MC_F_LEAK }, { "long paths", r_long, 0, 0, 3, MC_F_LEAK }, { "limits", r_misc, 0, 0, 0, MC_F_LEAK }, { 0 } };
