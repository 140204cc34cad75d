// C57: every file size, window and mode around page boundaries against a byte model; every system call failing.
#include "mc.h"
extern "C" {
#include "fsfault.h"
}
#include <string>
#include <vector>
#include "utils/mmap.h"
using namespace putils;
static const long SZ[] = { 0, 1, 4095, 4096, 4097, 8192, 12293 }, OFF[] = { 0, 4096, 8192, 12288, 1, 4095 }, LEN[] = { 1, 4096, 4095, 4097, 8192, 12293, 16384 };
static mmap_file *live;
static void after() { fs_on = 0; live = 0; }
static unsigned char pat(long i) { return (unsigned char)(i * 31 + i / 4096 * 7 + 3); }
static std::string fname() { return std::string(mc_scratch()) + "/f"; }
static void mkfile(long n) { std::vector<unsigned char> v(n); for (long i = 0; i < n; i++) v[i] = pat(i); fs_put(fname().c_str(), v.data(), n); }
static std::vector<unsigned char> model;
static void same_file(const char *when) { static unsigned char b[70000]; long k = fs_get(fname().c_str(), b, sizeof b); MC_ASSERT(k == (long)model.size(), "file-size", "%s: the file has %ld bytes, expected %zu", when, k, model.size()); for (long i = 0; i < k; i++) if (b[i] != model[i]) mc_fail("file", "%s: byte %ld of the file is %02x, expected %02x", when, i, b[i], model[i]); }
static mmap_file *open_it(unsigned fl, bool &threw) { threw = false; mmap_file *m = 0; mc_site("open"); try { m = new mmap_file(fname(), fl); } catch (sys_exception &e) { threw = true; } mc_op(); return m; }
struct win { unsigned char *p; long off, len; };
static void *map_it(mmap_file *m, bool all, long off, long len, bool &threw) { threw = false; void *p = 0; mc_site("mmap offset %ld length %ld", off, len); try { p = all ? m->mmap() : m->mmap(off, len); } catch (sys_exception &e) { threw = true; } mc_op(); return p; }
static void agree(const win &w) { for (long i = 0; i < w.len; i += (i < 8 || i > w.len - 9 || i % 4096 > 4090 || i % 4096 < 3) ? 1 : 509 < w.len - 9 - i ? 61 : 1) if (w.p[i] != model[w.off + i]) mc_fail("bytes", "window %ld+%ld: byte %ld is %02x, expected %02x", w.off, w.len, i, w.p[i], model[w.off + i]); }
static void run(int nops, int faults)
{
    static const unsigned FL[] = { 0, MMAP_RDWR | MMAP_SHARED, MMAP_RDWR | MMAP_SHARED | MMAP_CREATE, MMAP_CREATE, MMAP_SHARED }; int fl = mc_choose(5); unsigned flags = FL[fl]; long size = SZ[mc_choose(7)]; bool wr = flags & MMAP_RDWR, threw; mkfile(size); model.resize(size); for (long i = 0; i < size; i++) model[i] = pat(i);
    int fd0 = fs_dir_fds(); fs_begin(faults, 0); mmap_file *m = open_it(flags, threw); if (threw) { fs_end(); MC_ASSERT(fs_faulted, "open", "opening fails"); MC_ASSERT(fs_dir_fds() == fd0, "fds-open", "a failed open leaves a descriptor (%s)", fs_where); return; }
    MC_ASSERT(m->filesize() == size && m->filename() == fname(), "size", "file size %ld, expected %ld", (long)m->filesize(), size); std::vector<win> ws; long expect_maps = 0;
    for (int o = 0; o < nops; o++) {
        int c = mc_choose(2 + (wr && !ws.empty()) + !ws.empty() + 1); if (c == 0) break;
        if (c == 1 || (c == 2)) { bool all = c == 2; long off = 0, len = (long)m->filesize(); if (!all) { off = OFF[mc_choose(o ? 3 : 6)]; len = LEN[mc_choose(o ? 3 : 7)]; } if (len == 0) { void *p = map_it(m, all, off, len, threw); MC_ASSERT(threw || p, "empty", "mapping nothing gives no answer"); continue; }
            int before = fs_faulted, maps0 = fs_maps; void *p = map_it(m, all, off, len, threw); long end = off + len; bool fits = end <= (long)model.size(), aligned = off % 4096 == 0, grow = !fits && (flags & MMAP_CREATE) && wr; bool faulted = fs_faulted > before;
            if (!fits && (flags & MMAP_CREATE) && !wr) { MC_ASSERT(threw, "grow-ro", "window %ld+%ld of a read-only file of %zu is given", off, len, model.size()); same_file("after a refused growth"); continue; }
            if (!fits && !grow) { MC_ASSERT(threw, "outside", "window %ld+%ld of a file of %zu is given", off, len, model.size()); same_file("after a refused window"); continue; }
            if (grow) { struct stat s; stat(fname().c_str(), &s); if (!threw) MC_ASSERT(s.st_size == end, "grown", "file grown to %ld, expected %ld", (long)s.st_size, end); else if (!faulted && aligned) mc_fail("grow", "window %ld+%ld beyond the end is refused", off, len); if (s.st_size == end) model.resize(end, 0); else MC_ASSERT(s.st_size == (long)model.size(), "grown-other", "file size %ld", (long)s.st_size); MC_ASSERT(m->filesize() == (long)model.size(), "size", "file size %ld is told, is %zu", (long)m->filesize(), model.size()); }
            if (threw) { MC_ASSERT(faulted || !aligned, "refused", "window %ld+%ld of a file of %zu is refused", off, len, model.size()); MC_ASSERT(fs_maps == maps0, "maps-fail", "a failed mapping is left"); continue; }
            MC_ASSERT(p, "null", "no window given"); MC_ASSERT(!faulted, "silent", "%s, yet a window is given", fs_where); win w = { (unsigned char *)p, off, len }; bool old = false; for (auto &x : ws) { if (x.p == w.p) { old = true; MC_ASSERT(x.off == off && x.len == len, "overlap", "two windows at one place"); } } if (!old) ws.push_back(w); agree(w); expect_maps++;
        } else if (c == 3) { int k = mc_choose((int)ws.size()); mc_site("unmap"); win w = ws[k]; fs_on = 0; int f0 = fs_maps; fs_on = 1; m->unmap(w.p); mc_op(); MC_ASSERT(fs_maps == f0 - 1, "unmap", "unmapping does not release the window"); ws.erase(ws.begin() + k); m->unmap(w.p); MC_ASSERT(fs_maps == f0 - 1, "unmap-twice", "unmapping twice releases another window"); char local; m->unmap(&local); MC_ASSERT(fs_maps == f0 - 1, "unmap-foreign", "unmapping a foreign address releases something"); }
        else { int k = mc_choose((int)ws.size()); win w = ws[k]; long at[] = { 0, w.len - 1, w.len / 2 }; for (int q = 0; q < 3; q++) { unsigned char v = (unsigned char)(0xa0 + o * 3 + q); w.p[at[q]] = v; model[w.off + at[q]] = v; } mc_op(); same_file("after writing through a window"); }
        for (auto &x : ws) agree(x);
    }
    MC_ASSERT(fs_maps == (int)ws.size(), "windows", "%d mappings for %zu windows", fs_maps, ws.size()); mc_site("close"); delete m; mc_op(); fs_end(); MC_ASSERT(fs_maps == 0, "leak-map", "%d mappings left after closing", fs_maps); MC_ASSERT(fs_dir_fds() == fd0, "leak-fd", "descriptors left after closing (%s)", fs_where); same_file("after closing"); uint64_t h = mc_hash(flags, model.data(), model.size()); for (auto &x : ws) h = mc_mix(h, x.off * 65536 + x.len); mc_state(h);
}
static void r_ops(long arg) { run((int)(arg & 15), 0); }
static void r_fault(long arg) { run((int)(arg & 15), (int)(arg >> 4)); }
static void r_win(long arg)
{   // every window of every small file, read-only
    (void)arg; long size = mc_choose(4) * 4096 + ((const int[]){ 0, 1, 2048, 4095 })[mc_choose(4)], off = mc_choose(6) * 2048, d = mc_choose(8), len = ((const long[]){ 1, 2048, 4096, 4097, size - off, size - off + 1, size - off - 1, size })[d]; if (len <= 0) return; mkfile(size); model.resize(size); for (long i = 0; i < size; i++) model[i] = pat(i); int fd0 = fs_dir_fds(); bool threw; mmap_file *m = open_it(MMAP_RDONLY, threw); MC_ASSERT(m && m->filesize() == size, "open", "open"); void *p = map_it(m, false, off, len, threw);
    if (off + len > size) MC_ASSERT(threw, "outside", "window %ld+%ld of %ld is given", off, len, size); else if (off % 4096 == 0) MC_ASSERT(!threw && p, "refused", "window %ld+%ld of %ld is refused", off, len, size); if (!threw && p) { win w = { (unsigned char *)p, off, len }; agree(w); } delete m; MC_ASSERT(fs_dir_fds() == fd0, "leak-fd", "descriptors left"); same_file("after closing"); mc_state(mc_mix(size, off * 100000 + len));
}
static void r_miss(long arg) { (void)arg; bool threw; std::string d = std::string(mc_scratch()) + "/none"; int fd0 = fs_dir_fds(); threw = false; try { mmap_file m(d, mc_choose(2) ? MMAP_RDWR : 0); } catch (sys_exception &e) { threw = true; } mc_op(); MC_ASSERT(threw && fs_dir_fds() == fd0, "missing", "a file that is not there is opened"); MC_ASSERT(mmap_file::pagesize() == 4096, "page", "page size"); mc_state(1); }
static void huge(long arg) { (void)arg; mkfile(5000); bool threw; mmap_file *m = open_it(MMAP_RDONLY, threw); static const long O[] = { 0, 4096, 1l << 40, -4096, 8192 }; static const unsigned long L[] = { ~0ul, ~0ul - 4095, 1ul << 63, (1ul << 63) - 4096, 1ul << 47, 5001 }; long off = O[mc_choose(5)]; unsigned long len = L[mc_choose(6)]; void *p = map_it(m, false, off, (long)len, threw); MC_ASSERT(threw, "huge", "window %ld+%lu of a file of 5000 is given (%p)", off, len, p); delete m; mc_state(mc_mix(off, len)); }
__attribute__((constructor)) static void start() { mc_after = after; }
extern const mc_scenario mc_scenarios[] = { { "two operations", r_ops, 2, 0, 3, 0 }, { "three operations", r_ops, 3, 0, 4, 0 }, { "four operations", r_ops, 4, 1, 4, 0 }, { "one failing call", r_fault, 2 | 1 << 4, 0, 3, 0 }, { "two failing calls", r_fault, 3 | 2 << 4, 1, 4, 0 }, { "windows", r_win, 0, 0, 2, 0 }, { "missing file", r_miss, 0, 0, 0, 0 }, { "enormous windows", huge, 0, 0, 1, 0 }, { 0 } };
