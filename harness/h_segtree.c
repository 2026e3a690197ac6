/* C06: interval tree against a plain list of intervals. */
#include "vf.h"
#include <bfdev/segtree.h>

typedef struct { long pad; bfdev_segtree_node_t node; bool in; unsigned long seq; } iv_t;
typedef struct { bfdev_rb_node_t rb; long lo, hi, mx; bool in; unsigned long seq; } sv_t;
#define SLO(n) ((n)->lo)
#define SHI(n) ((n)->hi)
BFDEV_SEGTREE_DEFINE(static, sseg, sv_t, rb, long, mx, SLO, SHI)

static unsigned long coord(int pat, unsigned long span)
{
    switch (pat) {
    case 0: return vf_below(span);
    case 1: return vf_chance(1, 4) ? ULONG_MAX - vf_below(4) : vf_chance(1, 4) ? vf_below(3) : vf_edge64();
    default: return vf_below(span) * 10;
    }
}
static void scn_builtin(void)
{
    size_t cap = 1 + vf_below(vf_chance(1, 8) ? 200 : 24), n = 0; int ops = cap * 4 + 4, pat = vf_below(3); unsigned long span = 1 + vf_below(60), maxlen = 1 + vf_below(vf_chance(1, 3) ? span : 4), seq = 0;
    BFDEV_RB_ROOT_CACHED(root); iv_t *p = vf_xcalloc(cap * sizeof(*p));
    for (size_t i = 0; i < cap; i++) { p[i].node.subtree = vf_rand(); memset(&p[i].node.node, 0xcc, sizeof(p[i].node.node)); }
    for (int op = 0; op < ops; op++) {
        iv_t *x = &p[vf_below(cap)];
        if (!x->in) {
            x->node.start = coord(pat, span); x->node.end = x->node.start + (vf_chance(1, 20) ? vf_rand() : vf_below(maxlen));
            if (x->node.end < x->node.start) x->node.end = ULONG_MAX;
            vf_op("insert [%lu,%lu]", x->node.start, x->node.end);
            bfdev_segtree_insert(&root, &x->node); x->in = true; x->seq = seq++; n++; VF_EV("segtree.insert");
        } else if (vf_chance(1, 2)) { vf_op("delete [%lu,%lu]", x->node.start, x->node.end); bfdev_segtree_delete(&root, &x->node); x->in = false; n--; VF_EV("segtree.delete"); }
        for (int q = 0; q < 3; q++) {
            unsigned long s = coord(pat, span), e = vf_chance(1, 4) ? s : coord(pat, span), want = 0, got = 0, last = 0, t; iv_t *w; bfdev_segtree_node_t *sn; int how = vf_below(5);
            if (vf_chance(1, 10)) s = 0; if (vf_chance(1, 10)) e = ULONG_MAX;
            if (e < s) { t = s; s = e; e = t; }
            for (size_t i = 0; i < cap; i++) if (p[i].in && p[i].node.start <= e && s <= p[i].node.end) want++;
            static iv_t *seen[512]; iv_t *brk = NULL;
            vf_op("query [%lu,%lu] how %d want %lu", s, e, how, want);
#define SEE(W) do { iv_t *_w = (W); VF_CHECK(got < 512, "query-endless", "more matches than intervals"); \
        VF_CHECK(_w->in, "query-dead", "a removed interval was reported"); \
        VF_CHECK(_w->node.start <= e && s <= _w->node.end, "query-false-match", "[%lu,%lu] reported for query [%lu,%lu]", _w->node.start, _w->node.end, s, e); \
        VF_CHECK(!got || _w->node.start >= last, "query-order", "start %lu after %lu", _w->node.start, last); \
        for (unsigned long k = 0; k < got; k++) VF_CHECK(seen[k] != _w, "query-repeat", "interval reported twice"); \
        seen[got++] = _w; last = _w->node.start; } while (0)
#define E(SN) bfdev_segtree_entry(SN, iv_t, node)
            if (how == 0) { bfdev_segtree_for_each(sn, s, e, &root) SEE(E(sn)); }
            else if (how == 1) { bfdev_segtree_for_each_entry(w, s, e, &root, node) SEE(w); }
            else if (how == 2) { for (sn = bfdev_segtree_first(&root, s, e); sn; sn = bfdev_segtree_next(sn, s, e)) SEE(E(sn)); }
            else if (how == 3) { /* break off, then go on */
                unsigned long stop = vf_below(want + 1);
                bfdev_segtree_for_each_entry(w, s, e, &root, node) { if (got == stop) { brk = w; break; } SEE(w); }
                if (brk) { if (vf_chance(1, 2)) { bfdev_segtree_for_each_entry_from(w, s, e, node) SEE(w); } else { SEE(w); bfdev_segtree_for_each_entry_continue(w, s, e, node) SEE(w); } }
            } else {
                unsigned long stop = vf_below(want + 1); bfdev_segtree_node_t *b = NULL;
                bfdev_segtree_for_each(sn, s, e, &root) { if (got == stop) { b = sn; break; } SEE(E(sn)); }
                if (b) { if (vf_chance(1, 2)) { bfdev_segtree_for_each_form(sn, s, e) SEE(E(sn)); } else { SEE(E(sn)); bfdev_segtree_for_each_continue(sn, s, e) SEE(E(sn)); } }
                else { sn = NULL; bfdev_segtree_for_each_continue(sn, s, e) SEE(E(sn)); }
            }
            VF_EQ(got, want, "query-count"); VF_EV("segtree.query"); if (!want) VF_EV("segtree.query_empty"); else VF_EVN("segtree.match", want);
            if (vf_chance(1, 4)) { vf_obs(got); vf_obs(s); }
        }
    }
    free(p);
}
static void scn_signed(void)
{   /* the type-generic form with signed coordinates */
    size_t cap = 1 + vf_below(30); int ops = cap * 4 + 4; long span = 1 + vf_below(50);
    BFDEV_RB_ROOT_CACHED(root); sv_t *p = vf_xcalloc(cap * sizeof(*p));
    for (size_t i = 0; i < cap; i++) p[i].mx = vf_rand();
    for (int op = 0; op < ops; op++) {
        sv_t *x = &p[vf_below(cap)], *w;
        if (!x->in) { x->lo = vf_chance(1, 30) ? LONG_MIN : vf_range(-span, span); x->hi = vf_chance(1, 30) ? LONG_MAX : x->lo + (long)vf_below(6); sseg_insert(&root, x); x->in = true; VF_EV("segtree.signed_insert"); }
        else { sseg_delete(&root, x); x->in = false; }
        for (int q = 0; q < 2; q++) {
            long s = vf_range(-span - 3, span), e = s + (long)vf_below(8), last = LONG_MIN; size_t want = 0, got = 0; static sv_t *seen[64];
            for (size_t i = 0; i < cap; i++) want += p[i].in && p[i].lo <= e && s <= p[i].hi;
            for (w = sseg_first(&root, s, e); w; w = sseg_next(w, s, e)) {
                VF_CHECK(got < 64 && w->in && w->lo <= e && s <= w->hi && w->lo >= last, "signed-match", "wrong match [%ld,%ld] for [%ld,%ld]", w->lo, w->hi, s, e);
                for (size_t k = 0; k < got; k++) VF_CHECK(seen[k] != w, "signed-repeat", "interval reported twice");
                seen[got++] = w; last = w->lo;
            }
            VF_EQ(got, want, "signed-count"); VF_EV("segtree.signed_query"); vf_obs(got);
        }
    }
    free(p);
}
VF_SCENARIOS({ "segtree", scn_builtin, 3 }, { "segtree_signed", scn_signed, 1 });
