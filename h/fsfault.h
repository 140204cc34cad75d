/* System-call interposition (by -Wl,--wrap): every call the code under test makes is a point where it may
 * fail, be cut short, or be the last before a crash. Calls outside [fs_on] go straight through.
 * Crash model: what was written to a file but not synced may be lost or torn; renames/unlinks are in order. */
#ifndef FSFAULT_H
#define FSFAULT_H
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include "mc.h"

#ifdef WRAP_fstat
int __real_fstat(int, struct stat *);
#define FS_FSTAT __real_fstat
#else
#define FS_FSTAT fstat
#endif
static int  fs_on, fs_faults, fs_crash_ok, fs_faulted, fs_ncalls, fs_openfds, fs_maps, fs_nofault_close;
static jmp_buf fs_crash;
static char fs_where[128];
static long fs_fd_delta;

/* files with content not yet synced: by inode */
static struct { dev_t d; ino_t i; } fs_dirty[32]; static int fs_ndirty;
static struct { void *a; size_t n; dev_t d; ino_t i; int rw; } fs_map[32]; static int fs_nmap;
static void fs_mark(int fd) { struct stat s; if (FS_FSTAT(fd, &s)) return; for (int k = 0; k < fs_ndirty; k++) if (fs_dirty[k].i == s.st_ino && fs_dirty[k].d == s.st_dev) return; if (fs_ndirty < 32) { fs_dirty[fs_ndirty].d = s.st_dev; fs_dirty[fs_ndirty++].i = s.st_ino; } }
static void fs_clean(int fd) { struct stat s; if (FS_FSTAT(fd, &s)) return; for (int k = 0; k < fs_nmap; k++) if (fs_map[k].rw && fs_map[k].i == s.st_ino) {} for (int k = 0; k < fs_ndirty; k++) if (fs_dirty[k].i == s.st_ino && fs_dirty[k].d == s.st_dev) { fs_dirty[k] = fs_dirty[--fs_ndirty]; return; } }
static int fs_isdirty(const char *path) { struct stat s; if (lstat(path, &s)) return 0; for (int k = 0; k < fs_ndirty; k++) if (fs_dirty[k].i == s.st_ino && fs_dirty[k].d == s.st_dev) return 1; return 0; }

static void fs_begin(int faults, int crash_ok) { fs_on = 1; fs_faults = faults; fs_crash_ok = crash_ok; fs_faulted = 0; fs_ncalls = 0; fs_ndirty = 0; fs_openfds = 0; fs_maps = 0; fs_nmap = 0; fs_where[0] = 0; }
static void fs_end(void) { fs_on = 0; }
static int fs_dir_fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }

/* decide the fate of a call: 0 go on, >0 fail with this errno. May not return (crash). */
static int fs_fate(const char *name, const int *errs, int nerr)
{
    fs_ncalls++; mc_op();
    if (!fs_faults) return 0;
    int c = mc_choose(1 + nerr + (fs_crash_ok ? 1 : 0));
    if (c == 0) return 0;
    fs_faults--;
    fs_on = fs_on;
    if (c == nerr + 1) { snprintf(fs_where, sizeof fs_where, "crash before %s (call %d)", name, fs_ncalls); mc_note("%s", fs_where); fs_on = 0; longjmp(fs_crash, 1); }
    fs_faulted++;
    snprintf(fs_where, sizeof fs_where, "%s (call %d) fails with %s", name, fs_ncalls, strerrorname_np(errs[c - 1])); mc_note("%s", fs_where);
    return errs[c - 1];
}
#define FATE(name, ...) ({ static const int e_[] = { __VA_ARGS__ }; fs_fate(name, e_, (int)(sizeof e_ / sizeof e_[0])); })

#ifdef WRAP_open
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    if (!fs_on) return __real_open(p, fl, m);
    int e = FATE("open", EACCES, EMFILE); if (e) { errno = e; return -1; }
    int fd = __real_open(p, fl, m); if (fd >= 0) { fs_openfds++; if (fl & O_TRUNC) fs_mark(fd); } return fd;
}
#endif
#ifdef WRAP_creat
int __real_creat(const char *, mode_t);
int __wrap_creat(const char *p, mode_t m) { if (!fs_on) return __real_creat(p, m); int e = FATE("creat", EACCES, EMFILE); if (e) { errno = e; return -1; } int fd = __real_creat(p, m); if (fd >= 0) { fs_openfds++; fs_mark(fd); } return fd; }
#endif
#ifdef WRAP_mkostemp
int __real_mkostemp(char *, int);
int __wrap_mkostemp(char *p, int f) { if (!fs_on) return __real_mkostemp(p, f); int e = FATE("mkostemp", EACCES, ENOSPC); if (e) { errno = e; return -1; } int fd = __real_mkostemp(p, f); if (fd >= 0) { fs_openfds++; } return fd; }
#endif
#ifdef WRAP_mkstemp
int __real_mkstemp(char *);
int __wrap_mkstemp(char *p) { if (!fs_on) return __real_mkstemp(p); int e = FATE("mkstemp", EACCES, ENOSPC); if (e) { errno = e; return -1; } int fd = __real_mkstemp(p); if (fd >= 0) fs_openfds++; return fd; }
#endif
#ifdef WRAP_write
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!fs_on) return __real_write(fd, b, n);
    int e = FATE("write", ENOSPC, EIO, EINTR, 4095 /* short */);
    if (e == 4095) { size_t k = n > 1 ? n / 2 : n; fs_mark(fd); return __real_write(fd, b, k); }
    if (e) { errno = e; return -1; }
    fs_mark(fd); return __real_write(fd, b, n);
}
#endif
#ifdef WRAP_pwrite
ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { if (!fs_on) return __real_pwrite(fd, b, n, o); int e = FATE("pwrite", ENOSPC, EIO); if (e) { errno = e; return -1; } fs_mark(fd); return __real_pwrite(fd, b, n, o); }
#endif
#ifdef WRAP_ftruncate
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t o) { if (!fs_on) return __real_ftruncate(fd, o); int e = FATE("ftruncate", ENOSPC, EIO); if (e) { errno = e; return -1; } fs_mark(fd); return __real_ftruncate(fd, o); }
#endif
#ifdef WRAP_mmap
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    if (!fs_on) return __real_mmap(a, n, pr, fl, fd, o);
    int e = FATE("mmap", ENOMEM, ENODEV); if (e) { errno = e; return MAP_FAILED; }
    void *r = __real_mmap(a, n, pr, fl, fd, o);
    if (r != MAP_FAILED) {
        fs_maps++;
        if (fd >= 0 && (fl & MAP_SHARED) && (pr & PROT_WRITE) && fs_nmap < 32) { struct stat s; FS_FSTAT(fd, &s); fs_map[fs_nmap].a = r; fs_map[fs_nmap].n = n; fs_map[fs_nmap].d = s.st_dev; fs_map[fs_nmap].i = s.st_ino; fs_map[fs_nmap++].rw = 1; fs_mark(fd); }
    }
    return r;
}
#endif
#ifdef WRAP_munmap
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t n)
{
    if (!fs_on) return __real_munmap(a, n);
    (void)FATE("munmap");
    int r = __real_munmap(a, n);
    if (r == 0) { fs_maps--; for (int k = 0; k < fs_nmap; k++) if (fs_map[k].a == a) { fs_map[k] = fs_map[--fs_nmap]; break; } }
    return r;
}
#endif
#ifdef WRAP_msync
int __real_msync(void *, size_t, int);
int __wrap_msync(void *a, size_t n, int f) { if (!fs_on) return __real_msync(a, n, f); int e = FATE("msync", EIO); if (e) { errno = e; return -1; } return __real_msync(a, n, f); }
#endif
#ifdef WRAP_fsync
int __real_fsync(int);
int __wrap_fsync(int fd) { if (!fs_on) return __real_fsync(fd); int e = FATE("fsync", EIO, ENOSPC); if (e) { errno = e; return -1; } fs_clean(fd); return 0; }
#endif
#ifdef WRAP_fdatasync
int __real_fdatasync(int);
int __wrap_fdatasync(int fd) { if (!fs_on) return __real_fdatasync(fd); int e = FATE("fdatasync", EIO, ENOSPC); if (e) { errno = e; return -1; } fs_clean(fd); return 0; }
#endif
#ifdef WRAP_close
int __real_close(int);
int __wrap_close(int fd) { if (!fs_on) return __real_close(fd); (void)FATE("close"); int r = __real_close(fd); if (r == 0) fs_openfds--; return r; }
#endif
#ifdef WRAP_rename
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b) { if (!fs_on) return __real_rename(a, b); int e = FATE("rename", EACCES, ENOSPC); if (e) { errno = e; return -1; } return __real_rename(a, b); }
#endif
#ifdef WRAP_link
int __real_link(const char *, const char *);
int __wrap_link(const char *a, const char *b) { if (!fs_on) return __real_link(a, b); int e = FATE("link", EACCES, ENOSPC); if (e) { errno = e; return -1; } return __real_link(a, b); }
#endif
#ifdef WRAP_unlink
int __real_unlink(const char *);
int __wrap_unlink(const char *a) { if (!fs_on) return __real_unlink(a); int e = FATE("unlink", EACCES); if (e) { errno = e; return -1; } return __real_unlink(a); }
#endif
#ifdef WRAP_mkdir
int __real_mkdir(const char *, mode_t);
static void (*fs_before_mkdir)(const char *);
int __wrap_mkdir(const char *a, mode_t m) { if (!fs_on) return __real_mkdir(a, m); int e = FATE("mkdir", EACCES, ENOSPC); if (e) { errno = e; return -1; } if (fs_before_mkdir) fs_before_mkdir(a); return __real_mkdir(a, m); }
#endif
#ifdef WRAP_stat
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *a, struct stat *s) { if (!fs_on) return __real_stat(a, s); int e = FATE("stat", EACCES); if (e) { errno = e; return -1; } return __real_stat(a, s); }
#endif
#ifdef WRAP_lstat
int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *a, struct stat *s) { if (!fs_on) return __real_lstat(a, s); int e = FATE("lstat", EACCES); if (e) { errno = e; return -1; } return __real_lstat(a, s); }
#endif
#ifdef WRAP_fstat
int __real_fstat(int, struct stat *);
int __wrap_fstat(int a, struct stat *s) { if (!fs_on) return __real_fstat(a, s); int e = FATE("fstat", EIO); if (e) { errno = e; return -1; } return __real_fstat(a, s); }
#endif

/* helpers for harnesses */
static int fs_put(const char *p, const void *b, size_t n)
{
    FILE *f = fopen(p, "w"); if (!f) return -1; size_t k = n ? fwrite(b, 1, n, f) : 0; fclose(f); return k == n ? 0 : -1;
}
static long fs_get(const char *p, void *b, size_t max)
{
    FILE *f = fopen(p, "r"); if (!f) return -1; long k = (long)fread(b, 1, max, f); fclose(f); return k;
}
static void fs_rmrf(const char *d)      /* only ever called on the worker's scratch directory */
{
    if (strncmp(d, "/tmp/mc", 7)) abort();
    DIR *dp = opendir(d); if (!dp) { remove(d); return; }
    struct dirent *e; char p[4096];
    while ((e = readdir(dp))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(p, sizeof p, "%s/%s", d, e->d_name); struct stat s; if (lstat(p, &s) == 0 && S_ISDIR(s.st_mode)) { chmod(p, 0700); fs_rmrf(p); } else remove(p); }
    closedir(dp); rmdir(d);
}
static void fs_fresh(void) { fs_on = 0; fs_rmrf(mc_scratch()); mkdir(mc_scratch(), 0755); }
static int fs_count(const char *d) { int n = 0; DIR *dp = opendir(d); if (!dp) return -1; struct dirent *e; while ((e = readdir(dp))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n++; closedir(dp); return n; }
#endif
