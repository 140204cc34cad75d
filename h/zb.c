/* C46 compression in pieces. */
#include "mc.h"
#include <assert.h>
#include "zlib/zbuf.h"
#include "zbuf_c.c"
#include "zbuf_unc.c"
static unsigned char D[70000], G[80000], W[80000]; static int dn, gn, accept_mode, ncall, fail_at, fail_how, bad_args; static unsigned char *ob; static int osz; static void *cookie = &cookie;
static int sink(void *o, void *b, int n)
{   /* takes all, one byte, half (rounded up), or one and all in turn; may refuse */
    ncall++; mc_op(); if (o != cookie || n <= 0 || n > osz || (unsigned char *)b < ob || (unsigned char *)b + n > ob + osz) bad_args = 1; if (bad_args) return n; if (ncall == fail_at) return fail_how ? -1 : 0; int k = accept_mode == 0 ? n : accept_mode == 1 ? 1 : accept_mode == 2 ? (n + 1) / 2 : ncall & 1 ? 1 : n; if (gn + k > (int)sizeof G) abort(); memcpy(G + gn, b, k); gn += k; return k;
}
static const int LEN[] = { 0, 1, 2, 5, 16, 17, 100, 300, 1000, 4000, 40000, 66000 };
static void data(int li, int kind) { dn = LEN[li]; uint32_t x = 12345; for (int i = 0; i < dn; i++) { x = x * 1103515245u + 12345; D[i] = kind == 0 ? 0 : kind == 1 ? x >> 16 : kind == 2 ? "the quick brown fox "[i % 20] : (x >> 16 & 15) ? 'a' : x >> 20; } }
static const int OS[] = { 1, 2, 3, 7, 16, 64, 4096 };
static void setup(z_buf_context *z, int oi) { osz = OS[oi]; ob = malloc(osz); gn = ncall = bad_args = 0; fail_at = -1; z_buf_context_init(z, ob, osz, sink, cookie); }
static int inflate_all(const unsigned char *s, int n, unsigned char *o, int max, int *used, int *err)
{
    z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, 15); z.next_in = (Bytef *)s; z.avail_in = n; z.next_out = o; z.avail_out = max; int e; do e = inflate(&z, Z_NO_FLUSH); while (e == Z_OK && z.avail_in && z.avail_out); if (e == Z_OK && !z.avail_in) e = inflate(&z, Z_NO_FLUSH); *used = n - z.avail_in; *err = e; int got = max - z.avail_out; inflateEnd(&z); return got;
}
/* the pieces: everything at once, byte by byte, in two at any of a few places, in sevens */
static int piece(int mode, int cut, int at, int n) { int k = mode == 0 ? n - at : mode == 1 ? 1 : mode == 2 ? (at < cut ? cut - at : n - at) : 7; return k > n - at ? n - at : k; }
static void r_comp(long arg)
{
    int mid = arg == 64, nl = (int)(arg & 15), li = mid ? 10 + mc_choose(2) : mc_choose(nl), kind = mid ? 1 : li ? mc_choose(4) : 0; data(li, kind); int lev = ((const int[]){ 0, 1, 6, 9, 77 })[mc_choose(mid ? 3 : 5)], wb = ((const int[]){ 15, 9, 0 })[mid ? 0 : mc_choose(3)], oi = mid ? 3 + mc_choose(3) : mc_choose(7); if (oi == 0 && dn > 4000) oi = 4; z_buf_context z; setup(&z, oi); accept_mode = mc_choose(4); int mode = mid ? 3 * mc_choose(2) : mc_choose(4), cut = mode == 2 ? dn * (1 + mc_choose(3)) / 4 : 0; if (mode == 1 && dn > 4000) mode = 0; mc_site("z_buf_compress_init"); int e = z_buf_compress_init(&z, lev, wb); MC_ASSERT(e == Z_OK, "init", "level %d, %d bits: %d", lev, wb, e);
    for (int at = 0; at < dn;) { int k = piece(mode, cut, at, dn); unsigned char *p = malloc(k ? k : 1); memcpy(p, D + at, k); mc_site("z_buf_compress"); e = z_buf_compress(&z, p, k); mc_op(); free(p); MC_ASSERT(e == Z_OK, "compress", "%d bytes at %d of %d into %d: result %d", k, at, dn, osz, e); at += k; if (!k) break; } mc_site("z_buf_compress_end"); e = z_buf_compress_end(&z); mc_op(); MC_ASSERT(e == Z_OK, "end", "%d bytes into %d: the end fails with %d", dn, osz, e); MC_ASSERT(!bad_args, "callback", "the output function is not given a part of the buffer and the cookie"); MC_ASSERT((int)z_buf_context_total_in(&z) == dn && (int)z_buf_context_total_out(&z) == gn, "totals", "%lu in and %lu out are reported, not %d and %d", z_buf_context_total_in(&z), z_buf_context_total_out(&z), dn, gn);
    int used, err, n = inflate_all(G, gn, W, sizeof W, &used, &err); MC_ASSERT(err == Z_STREAM_END && used == gn, "stream", "%d bytes in pieces (%d), buffer %d, accepting (%d): the output is no complete stream (%d, %d of %d)", dn, mode, osz, accept_mode, err, used, gn); MC_ASSERT(n == dn && !memcmp(W, D, dn), "data", "%d bytes in pieces (%d), buffer %d, accepting (%d): other data come back (%d)", dn, mode, osz, accept_mode, n); mc_state(mc_hash(osz * 4 + accept_mode, G, gn));
}
static int make(unsigned char *o, int max, int wb, int lev) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, lev, Z_DEFLATED, wb, 8, Z_DEFAULT_STRATEGY); z.next_in = D; z.avail_in = dn; z.next_out = o; z.avail_out = max; if (deflate(&z, Z_FINISH) != Z_STREAM_END) abort(); int n = max - z.avail_out; deflateEnd(&z); return n; }
static unsigned char S[80000]; static int sn;
/* feeds sn bytes of S, as far as they are wanted */
static int feed(z_buf_context *z, int mode, int cut, int *fed)
{
    int e = Z_OK, at = 0; while (at < sn) { int k = piece(mode, cut, at, sn); unsigned char *p = malloc(k ? k : 1); memcpy(p, S + at, k); mc_site("z_buf_uncompress"); e = z_buf_uncompress(z, p, k); mc_op(); at += k; if (e != Z_OK) { if (e == Z_STREAM_END) { /* what is left of the piece stays with the caller until the end */ *fed = at; mc_site("z_buf_uncompress_end"); int e2 = z_buf_uncompress_end(z); mc_op(); free(p); return e2 == Z_OK ? 100 : e2; } free(p); return e; } free(p); } *fed = at; mc_site("z_buf_uncompress_end"); e = z_buf_uncompress_end(z); mc_op(); return e;
}
static void r_unc(long arg)
{
    int nl = (int)(arg & 15), li = mc_choose(nl), kind = li ? mc_choose(4) : 0; data(li, kind); int lev = ((const int[]){ 0, 1, 9 })[mc_choose(3)], wb = ((const int[]){ 15, 9 })[mc_choose(2)]; sn = make(S, 79000, wb, lev); int trail = mc_choose(3); for (int i = 0; i < trail * 5; i++) S[sn++] = 'x'; int oi = mc_choose(7); if (oi == 0 && dn > 4000) oi = 4; z_buf_context z; setup(&z, oi); accept_mode = mc_choose(4); int mode = mc_choose(4), cut = mode == 2 ? sn * (1 + mc_choose(3)) / 4 : 0, fed = 0; mc_site("z_buf_uncompress_init"); int e = z_buf_uncompress_init(&z, mc_choose(2) ? 15 : 0); MC_ASSERT(e == Z_OK, "init", "%d", e);
    e = feed(&z, mode, cut, &fed); MC_ASSERT(!bad_args, "callback", "the output function is not given a part of the buffer and the cookie"); MC_ASSERT(e == 100, "u-end", "%d bytes%s, pieces (%d), buffer %d, accepting (%d): result %d", dn, trail ? " and something after them" : "", mode, osz, accept_mode, e); MC_ASSERT(gn == dn && !memcmp(G, D, dn), "u-data", "%d bytes%s, pieces (%d), buffer %d, accepting (%d): %d come out%s", dn, trail ? " and something after them" : "", mode, osz, accept_mode, gn, gn == dn ? ", other ones" : ""); mc_state(mc_hash(osz * 4 + accept_mode, G, gn));
}
static void r_fail(long arg)
{   /* an output function that refuses: reported, never more than the buffer is touched */
    (void)arg; int unc = mc_choose(2); data(5 + mc_choose(4), mc_choose(4)); sn = make(S, 79000, 15, 6); z_buf_context z; setup(&z, mc_choose(6)); accept_mode = mc_choose(4); fail_at = 1 + mc_choose(6); fail_how = mc_choose(2); int mode = mc_choose(4) & 3, cut = dn / 2, e = Z_OK, fed = 0, ended = 0; if (unc) { z_buf_uncompress_init(&z, 15); e = feed(&z, mode, cut, &fed); inflateEnd(&z.z); if (e == 100) e = Z_OK; ended = 1; } else { z_buf_compress_init(&z, 6, 15); for (int at = 0; at < dn && e == Z_OK;) { int k = piece(mode, cut, at, dn); unsigned char *p = malloc(k); memcpy(p, D + at, k); mc_site("z_buf_compress"); e = z_buf_compress(&z, p, k); mc_op(); if (e != Z_OK) z.z.avail_in = 0; free(p); at += k; } if (e == Z_OK) { mc_site("z_buf_compress_end"); e = z_buf_compress_end(&z); mc_op(); ended = 1; } if (e != Z_OK) deflateEnd(&z.z); }
    (void)ended; MC_ASSERT(!bad_args, "callback", "the output function is not given a part of the buffer and the cookie"); MC_ASSERT((e != Z_OK) == (ncall >= fail_at), "refused", "%s: the output function %s, the result is %d", unc ? "uncompress" : "compress", ncall >= fail_at ? "refuses" : "never refuses", e); mc_state(mc_mix(mc_hash(unc, G, gn), e)); if (unc) MC_ASSERT(!memcmp(G, D, gn), "prefix", "what came out before is not the beginning of the data");
}
static void r_bad(long arg)
{   /* any byte wrong, or the end missing: what zlib itself says about the whole */
    (void)arg; data(4 + mc_choose(3), mc_choose(4)); sn = make(S, 79000, 15, 6); int c = mc_choose(sn), how = mc_choose(5); if (how < 3) S[c] ^= how == 0 ? 1 : how == 1 ? 0x80 : 0xff; else if (how == 3) sn = c; else if (mc_choose(2)) S[c] = 0; z_buf_context z; setup(&z, ((const int[]){ 0, 2, 4, 6 })[mc_choose(4)]); accept_mode = mc_choose(2) * 2; int mode = mc_choose(2), used, err, n = inflate_all(S, sn, W, sizeof W, &used, &err), fed = 0; z_buf_uncompress_init(&z, 15); int e = feed(&z, mode, 0, &fed); if (e != Z_OK && e != 100) inflateEnd(&z.z);
    MC_ASSERT(!bad_args, "callback", "the output function is not given a part of the buffer and the cookie"); if (err == Z_STREAM_END) MC_ASSERT(e == 100 && gn == n && !memcmp(G, W, n), "bad-good", "a stream that is still whole: result %d, %d bytes", e, gn); else if (err == Z_DATA_ERROR || err == Z_NEED_DICT) MC_ASSERT(e != 100, "bad-accepted", "a damaged stream (byte %d of %d) is accepted", c, sn); else { MC_ASSERT(e != 100, "bad-end", "an incomplete stream is complete"); } MC_ASSERT(gn <= n && !memcmp(G, W, gn), "bad-data", "a damaged stream (byte %d): other data than zlib's", c); mc_state(mc_mix(c * 8 + how, e));
}
static void *za(void *o, unsigned n, unsigned s) { ++*(int *)o; return calloc(n, s); } static void zf(void *o, void *p) { --*(int *)o; free(p); }
static void r_alloc(long arg)
{   /* the caller's allocator is used, and everything is given back at the end */
    (void)arg; int live = 0, unc = mc_choose(2); data(mc_choose(9), mc_choose(4)); sn = make(S, 79000, 15, 6); z_buf_context z; setup(&z, mc_choose(6)); accept_mode = mc_choose(4); z_buf_context_set_allocator(&z, za, zf, &live); int fed; if (unc) { z_buf_uncompress_init(&z, 15); MC_ASSERT(live > 0, "allocator", "the caller's allocator is not used"); feed(&z, 0, 0, &fed); } else { z_buf_compress_init(&z, 6, 15); MC_ASSERT(live > 0, "allocator", "the caller's allocator is not used"); z_buf_compress(&z, D, dn); z_buf_compress_end(&z); } mc_op(); MC_ASSERT(live == 0, "given-back", "%d allocations are left after the end", live); mc_state(mc_mix(unc, gn));
}
const mc_scenario mc_scenarios[] = { { "compress", r_comp, 9, 0, 3, 0 }, { "compress, output on the way", r_comp, 64, 0, 3, 0 }, { "compress, longer", r_comp, 12, 1, 3, 0 }, { "uncompress", r_unc, 9, 0, 3, 0 }, { "uncompress, longer", r_unc, 12, 1, 3, 0 }, { "refusing output", r_fail, 0, 0, 3, 0 }, { "damaged", r_bad, 0, 0, 3, 0 }, { "allocator", r_alloc, 0, 0, 2, 0 }, { 0 } };
