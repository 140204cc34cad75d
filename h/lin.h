/* histories of queue operations and their linearizability.
 * Order: happens-before; in executions without older-value reads also the interleaving itself.
 * An operation may fail (or transfer fewer) only if, at its place in the linear order, the queue has no
 * room (no items), counting as not yet available what operations still in progress beside it hold. */
#ifndef LIN_H
#define LIN_H
#include "mc11.h"
#define LMAXOPS 24
#define LMAXB   8
typedef struct { int kind; int req, got; int exact; long v[LMAXB]; int b, e; int tid; } lop;   /* kind 0 enq, 1 deq; exact: all or none */
MC11_H static lop H_[LMAXOPS];
MC11_H static int hn, lcap, lq0n;
MC11_H static long lq0[32];
MC11_H static unsigned char lbef[LMAXOPS][LMAXOPS];
MC11_H static int lord[LMAXOPS];
#define NOTS __attribute__((no_sanitize("thread")))
NOTS static void lin_reset(int cap) { hn = 0; lcap = cap; lq0n = 0; }
NOTS static lop *lin_op(int kind, int req, int exact)
{
    if (hn >= LMAXOPS) mc_fail("engine:hist", "history too long");
    lop *o = &H_[hn++];
    o->kind = kind; o->req = req; o->exact = exact; o->got = 0; o->tid = mc11_self(); o->b = o->e = -1;
    return o;
}
typedef struct { long v; int by; } lqi;
NOTS static int lin_rec(unsigned done, int nd, const lqi *q, int qn)
{
    if (nd == hn) return 1;
    for (int i = 0; i < hn; i++) {
        if (done >> i & 1) continue;
        int ok = 1;
        for (int j = 0; j < hn && ok; j++) if (!(done >> j & 1) && j != i && lbef[j][i]) ok = 0;
        if (!ok) continue;
        lop *o = &H_[i];
        lqi nq[40]; int nn = qn;
        if (o->kind == 0) {
            int held = 0, on = 0;
            for (int k = 0; k < nd; k++) { lop *d = &H_[lord[k]]; if (d->kind != 1) continue; if (!on && !lbef[lord[k]][i]) on = 1; if (on) held += d->got; }
            int maxroom = lcap - qn, minroom = maxroom - held;
            if (o->got > maxroom) continue;
            if (o->got < o->req && (o->exact ? minroom >= o->req : minroom > o->got)) continue;
            if (o->exact && o->got != 0 && o->got != o->req) return 0;
            for (int k = 0; k < qn; k++) nq[k] = q[k];
            for (int k = 0; k < o->got; k++) { nq[nn].v = o->v[k]; nq[nn++].by = i; }
        } else {
            int avail = 0;
            while (avail < qn && (q[avail].by < 0 || lbef[q[avail].by][i])) avail++;
            if (o->got > qn) continue;
            if (o->got < o->req && (o->exact ? avail >= o->req : avail > o->got)) continue;
            if (o->exact && o->got != 0 && o->got != o->req) return 0;
            ok = 1;
            for (int k = 0; k < o->got; k++) if (q[k].v != o->v[k]) ok = 0;
            if (!ok) continue;
            nn = qn - o->got;
            for (int k = 0; k < nn; k++) nq[k] = q[k + o->got];
        }
        lord[nd] = i;
        if (lin_rec(done | 1u << i, nd + 1, nq, nn)) return 1;
    }
    return 0;
}
NOTS static void lin_show(char *b, size_t n)
{
    size_t k = 0; b[0] = 0;
    for (int i = 0; i < hn && k < n; i++) {
        k += snprintf(b + k, n - k, "%sT%d:%s(%d)=%d", i ? " " : "", H_[i].tid, H_[i].kind ? "deq" : "enq", H_[i].req, H_[i].got);
        for (int j = 0; j < H_[i].got && k < n; j++) k += snprintf(b + k, n - k, "%c%ld", j ? ',' : ':', H_[i].v[j]);
    }
}
NOTS static void lin_check(void)
{
    int rt = mc11_stale_used() == 0;
    for (int i = 0; i < hn; i++) for (int j = 0; j < hn; j++)
        lbef[i][j] = i != j && (rt ? mc11_time(H_[i].e) < mc11_time(H_[j].b) : mc11_before(H_[i].e, H_[j].b));
    uint64_t h = 77;
    for (int i = 0; i < hn; i++) { h = mc_mix(h, H_[i].kind | H_[i].req << 4 | H_[i].got << 10 | H_[i].exact << 20 | (uint64_t)H_[i].tid << 24); for (int j = 0; j < H_[i].got; j++) h = mc_mix(h, H_[i].v[j]); h = mc_hash(h, lbef[i], hn); }
    for (int i = 0; i < lq0n; i++) h = mc_mix(h, lq0[i]);
    h = mc_mix(h, lcap);
    MC11_H static uint64_t okc[1 << 16];
    if (okc[h & 0xffff] == h) return;
    lqi q[40]; for (int i = 0; i < lq0n; i++) { q[i].v = lq0[i]; q[i].by = -1; }
    if (!lin_rec(0, 0, q, lq0n)) {
        char b[700]; lin_show(b, sizeof b);
        mc_fail("history", "no first-in first-out order of capacity %d explains (starting with %d items, %s order): %s", lcap, lq0n, rt ? "real-time" : "happens-before", b);
    }
    okc[h & 0xffff] = h;
}
#endif
