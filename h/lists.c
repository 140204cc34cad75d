/* C19: linked lists of every kind against plain sequences. */
#include "mc.h"
#include "fast/list.h"
#include "fast/llist.h"
#define NN 5
static int M[2][16], n[2];           /* sequence of node numbers */
static int where(int node, int *l, int *pos) { for (*l = 0; *l < 2; ++*l) for (*pos = 0; *pos < n[*l]; ++*pos) if (M[*l][*pos] == node) return 1; return 0; }
static void ins(int l, int pos, int node) { memmove(&M[l][pos + 1], &M[l][pos], (n[l] - pos) * sizeof(int)); M[l][pos] = node; n[l]++; }
static void del(int l, int pos) { memmove(&M[l][pos], &M[l][pos + 1], (n[l] - pos - 1) * sizeof(int)); n[l]--; }
static void st(void) { uint64_t h = 3; for (int l = 0; l < 2; l++) { h = mc_mix(h, n[l]); for (int k = 0; k < n[l]; k++) h = mc_mix(h, M[l][k]); } mc_state(h); }
/* the lowest-numbered free node (nodes are interchangeable until used) */
static int freenode(void) { for (int i = 0; i < NN; i++) { int l, p; if (!where(i, &l, &p)) return i; } return -1; }

/* ---------------- SL */
typedef struct sn { int id; SL_ENTRY(sn) lk; } sn;
SL_HEAD_TYPEDEF(sl, sn);
static sn S[NN]; static sl SH;
static void ckS(void)
{
    sn *v, *t; int k = 0;
    MC_ASSERT(SL_EMPTY(&SH) == (n[0] == 0), "empty", "emptiness wrong"); MC_ASSERT(SL_FIRST(&SH) == (n[0] ? &S[M[0][0]] : 0), "first", "first element wrong");
    SL_FOREACH(v, &SH, lk) { MC_ASSERT(k < n[0] && v == &S[M[0][k]], "order", "element %d wrong", k); k++; }
    MC_ASSERT(k == n[0], "count", "%d elements of %d", k, n[0]);
    k = 0; SL_FOREACH_SAFE(v, &SH, lk, t) { MC_ASSERT(k < n[0] && v == &S[M[0][k]], "order", "element %d wrong", k); k++; }
    MC_ASSERT(k == n[0], "count", "safe iteration: %d elements of %d", k, n[0]);
}
static void r_sl(long depth)
{
    sl init = SL_HEAD_INITIALIZER(&SH); SH = init; n[0] = n[1] = 0; memset(S, 0xee, sizeof S); if (mc_choose(2)) SL_INIT(&SH); ckS();
    for (int d = 0; d < depth + mc_tier(); d++) {
        int c = mc_choose(3 + n[0]), f = freenode(); mc_op();
        if (c == 0) { if (f < 0) mc_prune(); mc_site("SL_INSERT_HEAD"); sn *e = &S[f]; SL_INSERT_HEAD(&SH, e, lk); ins(0, 0, f); }
        else if (c == 1) { if (!n[0]) mc_prune(); mc_site("SL_REMOVE_HEAD"); SL_REMOVE_HEAD(&SH, lk); memset(&S[M[0][0]].lk, 0xee, sizeof S[0].lk); del(0, 0); }
        else if (c == 2) { /* safe iteration while every node is scribbled on, then rebuilt empty */
            sn *v, *t; int k = 0; mc_site("SL_FOREACH_SAFE"); SL_FOREACH_SAFE(v, &SH, lk, t) { MC_ASSERT(k < n[0] && v == &S[M[0][k]], "safe", "safe iteration breaks when the current element is freed"); memset(&v->lk, 0xee, sizeof v->lk); k++; } MC_ASSERT(k == n[0], "safe", "safe iteration visits %d of %d", k, n[0]); SL_INIT(&SH); n[0] = 0; }
        else { if (f < 0) mc_prune(); mc_site("SL_INSERT_AFTER"); sn *e = &S[f], *a = &S[M[0][c - 3]]; SL_INSERT_AFTER(&SH, a, e, lk); ins(0, c - 2, f); }
        ckS(); st();
    }
}
/* ---------------- DL */
typedef struct dn { int id; DL_ENTRY(dn) lk; } dn;
DL_HEAD_TYPEDEF(dl, dn);
static dn D[NN]; static dl DH[2];
static void ckD(int l)
{
    dn *v; int k = 0;
    MC_ASSERT(!!DL_EMPTY(&DH[l]) == (n[l] == 0) && !!DL_empty_p(&DH[l]) == (n[l] == 0), "empty", "emptiness wrong");
    MC_ASSERT(DL_FIRST(&DH[l]) == (n[l] ? &D[M[l][0]] : 0), "first", "first element wrong"); MC_ASSERT(DL_LAST(&DH[l]) == (n[l] ? &D[M[l][n[l] - 1]] : 0), "last", "last element wrong");
    DL_FOREACH(&DH[l], v, lk) { MC_ASSERT(k < n[l] && v == &D[M[l][k]], "order", "element %d wrong", k); k++; }
    MC_ASSERT(k == n[l], "count", "%d elements of %d", k, n[l]);
    DL_FOREACH_REVERSE(&DH[l], v, lk) { k--; MC_ASSERT(k >= 0 && v == &D[M[l][k]], "reverse", "backwards: element %d wrong", k); }
    MC_ASSERT(k == 0, "reverse", "backwards: %d elements missing", k);
}
static void r_dl(long depth)
{
    dl init = DL_HEAD_INITIALIZER(&DH[0]); DH[0] = init; n[0] = n[1] = 0; memset(D, 0xee, sizeof D); DL_INIT(&DH[1]); ckD(0); ckD(1);
    for (int d = 0; d < depth + mc_tier(); d++) {
        int l = mc_choose(2), f = freenode(); dl *h = &DH[l]; mc_op();
        int c = mc_choose(6 + 3 * n[l]);
        if (c == 0) { if (f < 0) mc_prune(); mc_site("DL_INSERT_HEAD"); dn *e = &D[f]; DL_INSERT_HEAD(h, e, lk); ins(l, 0, f); }
        else if (c == 1) { if (f < 0) mc_prune(); mc_site("DL_INSERT_TAIL"); dn *e = &D[f]; if (l) DL_APPEND(h, e, lk); else DL_INSERT_TAIL(h, e, lk); ins(l, n[l], f); }
        else if (c == 2) { mc_site("DL_REMOVE_HEAD"); dn *e = DL_REMOVE_HEAD(h, lk); MC_ASSERT(e == (n[l] ? &D[M[l][0]] : 0), "remove_head", "wrong element removed"); if (n[l]) { memset(&e->lk, 0xee, sizeof e->lk); del(l, 0); } }
        else if (c == 3) { mc_site("DL_REMOVE_TAIL"); dn *e = DL_REMOVE_TAIL(h, lk); MC_ASSERT(e == (n[l] ? &D[M[l][n[l] - 1]] : 0), "remove_tail", "wrong element removed"); if (n[l]) { memset(&e->lk, 0xee, sizeof e->lk); del(l, n[l] - 1); } }
        else if (c == 4) { mc_site("DL_APPEND_LIST"); dl *o = &DH[!l]; DL_APPEND_LIST(h, o, lk); while (n[!l]) { ins(l, n[l], M[!l][0]); del(!l, 0); } }
        else if (c == 5) { mc_site("DL_PREPEND_LIST"); dl *o = &DH[!l]; DL_PREPEND_LIST(h, o, lk); while (n[!l]) { ins(l, 0, M[!l][n[!l] - 1]); del(!l, n[!l] - 1); } }
        else { c -= 6; int pos = c / 3; dn *at = &D[M[l][pos]];
            if (c % 3 == 0) { mc_site("DL_REMOVE"); dn *x = at; DL_REMOVE(h, x, lk); memset(&at->lk, 0xee, sizeof at->lk); del(l, pos); }
            else if (f < 0) mc_prune();
            else if (c % 3 == 1) { mc_site("DL_INSERT_AFTER"); dn *e = &D[f]; DL_INSERT_AFTER(h, at, e, lk); ins(l, pos + 1, f); }
            else { mc_site("DL_INSERT_BEFORE"); dn *e = &D[f]; DL_INSERT_BEFORE(h, at, e, lk); ins(l, pos, f); } }
        ckD(0); ckD(1); st();
    }
}
/* ---------------- kernel-style */
typedef struct kn { int id; list_head lk; } kn;
static kn K[NN]; static list_head KH[2];
static void ckK(int l)
{
    list_head *p, *q; kn *e, *t; int k = 0;
    MC_ASSERT(!!list_empty(&KH[l]) == (n[l] == 0) && !!list_empty_careful(&KH[l]) == (n[l] == 0) && !!list_is_singular(&KH[l]) == (n[l] == 1), "empty", "emptiness or singularity wrong");
    if (n[l]) { MC_ASSERT(list_first_entry(&KH[l], kn, lk) == &K[M[l][0]], "first", "first wrong"); MC_ASSERT(list_is_last(&K[M[l][n[l] - 1]].lk, &KH[l]), "last", "last wrong"); if (n[l] > 1) MC_ASSERT(!list_is_last(&K[M[l][0]].lk, &KH[l]), "last", "first counts as last"); }
#define CKE(cond, x) MC_ASSERT((cond) && (x), "order", "%s wrong at %d", __func__, k)
    list_for_each(p, &KH[l]) { CKE(k < n[l], p == &K[M[l][k]].lk); k++; } CKE(k == n[l], 1);
    k = 0; __list_for_each(p, &KH[l]) { CKE(k < n[l], p == &K[M[l][k]].lk); k++; } CKE(k == n[l], 1);
    list_for_each_prev(p, &KH[l]) { k--; CKE(k >= 0, p == &K[M[l][k]].lk); } CKE(k == 0, 1);
    list_for_each_safe(p, q, &KH[l]) { CKE(k < n[l], p == &K[M[l][k]].lk); k++; } CKE(k == n[l], 1);
    list_for_each_prev_safe(p, q, &KH[l]) { k--; CKE(k >= 0, p == &K[M[l][k]].lk); } CKE(k == 0, 1);
    list_for_each_entry(e, &KH[l], lk) { CKE(k < n[l], e == &K[M[l][k]]); k++; } CKE(k == n[l], 1);
    list_for_each_entry_reverse(e, &KH[l], lk) { k--; CKE(k >= 0, e == &K[M[l][k]]); } CKE(k == 0, 1);
    list_for_each_entry_safe(e, t, &KH[l], lk) { CKE(k < n[l], e == &K[M[l][k]]); k++; } CKE(k == n[l], 1);
    list_for_each_entry_safe_reverse(e, t, &KH[l], lk) { k--; CKE(k >= 0, e == &K[M[l][k]]); } CKE(k == 0, 1);
    for (int s = 0; s < n[l]; s++) {
        k = s + 1; e = &K[M[l][s]]; list_for_each_entry_continue(e, &KH[l], lk) { CKE(k < n[l], e == &K[M[l][k]]); k++; } CKE(k == n[l], 1);
        k = s; e = &K[M[l][s]]; list_for_each_entry_continue_reverse(e, &KH[l], lk) { k--; CKE(k >= 0, e == &K[M[l][k]]); } CKE(k == 0, 1);
        k = s; e = &K[M[l][s]]; list_for_each_entry_from(e, &KH[l], lk) { CKE(k < n[l], e == &K[M[l][k]]); k++; } CKE(k == n[l], 1);
        k = s + 1; e = &K[M[l][s]]; list_for_each_entry_safe_continue(e, t, &KH[l], lk) { CKE(k < n[l], e == &K[M[l][k]]); k++; } CKE(k == n[l], 1);
        k = s; e = &K[M[l][s]]; list_for_each_entry_safe_from(e, t, &KH[l], lk) { CKE(k < n[l], e == &K[M[l][k]]); k++; } CKE(k == n[l], 1);
    }
}
static void r_ll(long depth)
{
    n[0] = n[1] = 0; memset(K, 0, sizeof K); list_init(&KH[0]); list_head t = LIST_HEAD_INIT(t); (void)t; list_init(&KH[1]); ckK(0); ckK(1);
    for (int d = 0; d < depth + mc_tier(); d++) {
        int l = mc_choose(2), f = freenode(); list_head *h = &KH[l], *o = &KH[!l]; mc_op();
        int c = mc_choose(8 + 7 * n[l]);
        switch (c) {
        case 0: if (f < 0) mc_prune(); mc_site("list_add"); list_add(&K[f].lk, h); ins(l, 0, f); break;
        case 1: if (f < 0) mc_prune(); mc_site("list_add_tail"); list_add_tail(&K[f].lk, h); ins(l, n[l], f); break;
        case 2: mc_site("list_rotate_left"); list_rotate_left(h); if (n[l]) { int x = M[l][0]; del(l, 0); ins(l, n[l], x); } break;
        case 3: mc_site("list_splice"); list_splice(o, h); list_init(o); while (n[!l]) { ins(l, 0, M[!l][n[!l] - 1]); del(!l, n[!l] - 1); } break;
        case 4: mc_site("list_splice_tail"); list_splice_tail(o, h); list_init(o); while (n[!l]) { ins(l, n[l], M[!l][0]); del(!l, 0); } break;
        case 5: mc_site("list_splice_init"); list_splice_init(o, h); while (n[!l]) { ins(l, 0, M[!l][n[!l] - 1]); del(!l, n[!l] - 1); } break;
        case 6: mc_site("list_splice_tail_init"); list_splice_tail_init(o, h); while (n[!l]) { ins(l, n[l], M[!l][0]); del(!l, 0); } break;
        case 7: { /* safe iteration removing any subset */
            mc_site("list_for_each_entry_safe"); kn *e, *t2; int k = 0, nn = n[l], keep[16], nk = 0, ent = mc_choose(2);
            if (ent) { list_for_each_entry_safe(e, t2, h, lk) { MC_ASSERT(k < nn && e == &K[M[l][k]], "safe", "safe iteration wrong at %d", k); if (mc_choose(2)) { list_del(&e->lk); memset(&e->lk, 0xee, sizeof e->lk); } else keep[nk++] = M[l][k]; k++; } }
            else { list_head *p, *q; list_for_each_safe(p, q, h) { MC_ASSERT(k < nn && p == &K[M[l][k]].lk, "safe", "safe iteration wrong at %d", k); if (mc_choose(2)) { list_del(p); memset(p, 0xee, sizeof *p); } else keep[nk++] = M[l][k]; k++; } }
            MC_ASSERT(k == nn, "safe", "safe iteration visits %d of %d", k, nn); memcpy(M[l], keep, nk * sizeof(int)); n[l] = nk; break; }
        default: {
            c -= 8; int pos = c / 7, id = M[l][pos]; list_head *at = &K[id].lk;
            switch (c % 7) {
            case 0: mc_site("list_del"); list_del(at); memset(at, 0xee, sizeof *at); del(l, pos); break;
            case 1: mc_site("list_del_init"); list_del_init(at); MC_ASSERT(list_empty(at), "del_init", "removed entry is not re-initialized"); del(l, pos); break;
            case 2: if (f < 0) mc_prune(); mc_site("list_replace"); list_replace(at, &K[f].lk); memset(at, 0xee, sizeof *at); M[l][pos] = f; break;
            case 3: if (f < 0) mc_prune(); mc_site("list_replace_init"); list_replace_init(at, &K[f].lk); MC_ASSERT(list_empty(at), "replace_init", "replaced entry is not re-initialized"); M[l][pos] = f; break;
            case 4: mc_site("list_move"); list_move(at, o); del(l, pos); ins(!l, 0, id); break;
            case 5: mc_site("list_move_tail"); list_move_tail(at, o); del(l, pos); ins(!l, n[!l], id); break;
            case 6: if (n[!l]) mc_prune(); mc_site("list_cut_position"); list_cut_position(o, h, at); for (int k = 0; k <= pos; k++) { ins(!l, n[!l], M[l][0]); del(l, 0); } break;
            } } }
        ckK(0); ckK(1); st();
    }
}
/* ---------------- hlist */
typedef struct hn { int id; hlist_node lk; } hn;
static hn H[NN]; static hlist_head HH[2];
static void ckH(int l)
{
    hlist_node *p, *q; hn *e; int k = 0;
    MC_ASSERT(!!hlist_empty(&HH[l]) == (n[l] == 0), "empty", "emptiness wrong");
    hlist_for_each(p, &HH[l]) { CKE(k < n[l], p == &H[M[l][k]].lk); MC_ASSERT(!hlist_unhashed(p) && *p->pprev == p, "pprev", "back link of %d wrong", k); k++; } CKE(k == n[l], 1);
    k = 0; hlist_for_each_safe(p, q, &HH[l]) { CKE(k < n[l], p == &H[M[l][k]].lk); k++; } CKE(k == n[l], 1);
    k = 0; hlist_for_each_entry(e, p, &HH[l], lk) { CKE(k < n[l], e == &H[M[l][k]]); k++; } CKE(k == n[l], 1);
    k = 0; hlist_for_each_entry_safe(e, p, q, &HH[l], lk) { CKE(k < n[l], e == &H[M[l][k]]); k++; } CKE(k == n[l], 1);
    for (int s = 0; s < n[l]; s++) {
        k = s + 1; p = &H[M[l][s]].lk; hlist_for_each_entry_continue(e, p, lk) { CKE(k < n[l], e == &H[M[l][k]]); k++; } CKE(k == n[l], 1);
        k = s; p = &H[M[l][s]].lk; hlist_for_each_entry_from(e, p, lk) { CKE(k < n[l], e == &H[M[l][k]]); k++; } CKE(k == n[l], 1);
    }
}
static void r_hl(long depth)
{
    n[0] = n[1] = 0; memset(H, 0, sizeof H); INIT_HLIST_HEAD(&HH[0]); HLIST_HEAD(x); HH[1] = x; for (int i = 0; i < NN; i++) INIT_HLIST_NODE(&H[i].lk); ckH(0); ckH(1);
    for (int d = 0; d < depth + mc_tier(); d++) {
        int l = mc_choose(2), f = freenode(); mc_op();
        int c = mc_choose(2 + 4 * n[l]);
        if (c == 0) { if (f < 0) mc_prune(); mc_site("hlist_add_head"); hlist_add_head(&H[f].lk, &HH[l]); ins(l, 0, f); }
        else if (c == 1) { if (n[!l]) mc_prune(); mc_site("hlist_move_list"); hlist_move_list(&HH[l], &HH[!l]); memcpy(M[!l], M[l], sizeof M[0]); n[!l] = n[l]; n[l] = 0; }
        else { c -= 2; int pos = c / 4, id = M[l][pos]; hlist_node *at = &H[id].lk;
            switch (c % 4) {
            case 0: mc_site("hlist_del"); hlist_del(at); del(l, pos); break;
            case 1: mc_site("hlist_del_init"); hlist_del_init(at); MC_ASSERT(hlist_unhashed(at), "del_init", "removed node still counts as listed"); hlist_del_init(at); del(l, pos); break;
            case 2: if (f < 0) mc_prune(); mc_site("hlist_add_before"); hlist_add_before(&H[f].lk, at); ins(l, pos, f); break;
            case 3: if (f < 0) mc_prune(); mc_site("hlist_add_after"); hlist_add_after(at, &H[f].lk); ins(l, pos + 1, f); break;
            } }
        ckH(0); ckH(1); st();
    }
}
const mc_scenario mc_scenarios[] = { { "SL", r_sl, 8, 0, 2, 0 }, { "DL", r_dl, 6, 0, 2, 0 }, { "list_head", r_ll, 5, 0, 2, 0 }, { "hlist", r_hl, 7, 0, 2, 0 }, { 0 } };
