/* C43: walkers generated by the tree-iterator templates, over the caller's own trees of any shape. */
#include "vf.h"
#include <bfdev/titer.h>
typedef struct knot knot_t;
struct knot { int id; knot_t *lc; long pad; knot_t *up, *rc; };
typedef struct { long pad; knot_t *top; } tree_t;
BFDEV_TITER_BASE_DEFINE(static, wk, knot_t, lc, rc)
BFDEV_TITER_INORDER_DEFINE(static, in, wk, tree_t, top, knot_t, up, lc, rc)
BFDEV_TITER_PREORDER_DEFINE(static, pre, wk, tree_t, top, knot_t, up, lc, rc)
BFDEV_TITER_POSTORDER_DEFINE(static, post, wk, tree_t, top, knot_t, up, lc, rc)
BFDEV_TITER_LEVELORDER_DEFINE(static, lev, wk, tree_t, top, knot_t, lc, rc)
/* the mirrored tree: left and right exchanged turns "next" into "previous" */
BFDEV_TITER_BASE_DEFINE(static, mk, knot_t, rc, lc)
BFDEV_TITER_INORDER_DEFINE(static, min, mk, tree_t, top, knot_t, up, rc, lc)
#define CAP 6000
static knot_t *ord[CAP]; static int no; static knot_t *all[CAP];
static void walk(knot_t *n, int how)
{   /* explicit stack: the tree may be one long path */
    static struct { knot_t *n; int st; } stk[CAP + 1]; int sp = 0; no = 0; if (n) { stk[0].n = n; stk[0].st = 0; sp = 1; }
    while (sp) {
        knot_t *x = stk[sp - 1].n; int st = stk[sp - 1].st++;
        if (st == how) ord[no++] = x;
        if (st == 0) { if (x->lc) { stk[sp].n = x->lc; stk[sp++].st = 0; } }
        else if (st == 1) { if (x->rc) { stk[sp].n = x->rc; stk[sp++].st = 0; } }
        else sp--;
    }
}
#define FWD(name, first, nextexpr, how) do { int i = 0; knot_t *p; walk(t->top, how); for (p = first; p; p = nextexpr) { VF_CHECK(i < no, name, "walk does not end"); VF_PEQ(p, ord[i], name); i++; } VF_EQ(i, no, name); \
    if (no) { i = vf_below(no); p = ord[i]; p = nextexpr; VF_PEQ(p, i + 1 < no ? ord[i + 1] : NULL, name); } p = NULL; VF_PEQ(nextexpr, NULL, name); } while (0)
static void check(tree_t *t)
{
    FWD("pre-order", pre_first(t), pre_next(p), 0); FWD("in-order", in_first(t), in_next(p), 1); FWD("post-order", post_first(t), post_next(p), 2); FWD("mirrored", min_last(t), min_prev(p), 1);
    walk(t->top, 1); int i = no; knot_t *p; for (p = in_last(t); p; p = in_prev(p)) { VF_CHECK(i, "in-order-back", "walk does not end"); i--; VF_PEQ(p, ord[i], "in-order-back"); } VF_EQ(i, 0, "in-order-back"); VF_PEQ(in_prev(NULL), NULL, "in-order-back");
    i = no; for (p = min_first(t); p; p = min_next(p)) { VF_CHECK(i, "mirrored-back", "walk does not end"); i--; VF_PEQ(p, ord[i], "mirrored-back"); } VF_EQ(i, 0, "mirrored-back");
    if (no) { knot_t *x = ord[vf_below(no)], *y;
        for (y = x; y->lc; y = y->lc) {} VF_PEQ(wk_left_far(x), y, "left-far"); for (y = x; y->rc; y = y->rc) {} VF_PEQ(wk_right_far(x), y, "right-far");
        for (y = x; y->lc || y->rc; y = y->lc ? y->lc : y->rc) {} VF_PEQ(wk_left_deep(x), y, "left-deep"); for (y = x; y->lc || y->rc; y = y->rc ? y->rc : y->lc) {} VF_PEQ(wk_right_deep(x), y, "right-deep"); }
    VF_PEQ(wk_left_deep(NULL), NULL, "left-deep"); VF_PEQ(wk_right_deep(NULL), NULL, "right-deep");
}
static knot_t *fresh(int i, knot_t *up) { knot_t *k = vf_xmalloc(sizeof *k); memset(k, 0xee, sizeof *k); k->id = i; k->up = up; k->lc = k->rc = NULL; all[i] = k; return k; }
static void drain(tree_t *t, int n)
{   /* post order hands out a node only once nothing under it is needed any more: release as we go */
    int c = 0; knot_t *p = post_first(t), *q; for (; p; p = q) { q = post_next(p); memset(p, 0xdd, sizeof *p); free(p); c++; VF_CHECK(c <= n, "teardown", "more nodes than members"); } VF_EQ(c, n, "teardown"); VF_EV("titer.teardown");
}
static void scn_shape(void)
{
    tree_t t = { 0 }; int n = vf_chance(1, 12) ? 0 : 1 + vf_below(vf_chance(1, 6) ? 400 : 30), pat = vf_below(6); vf_op("tree of %d, shape %d", n, pat);
    if (vf_chance(1, 60)) n = 5000;
    for (int i = 0; i < n; i++) {
        if (!i) { t.top = fresh(0, NULL); continue; }
        knot_t *x = pat == 0 || pat == 1 || pat == 2 ? all[i - 1] : all[vf_below(i)], **slot;     /* paths, zigzags, bushes */
        for (;;) {
            bool left = pat == 0 ? true : pat == 1 ? false : pat == 2 ? i & 1 : pat == 3 ? vf_chance(3, 4) : vf_chance(1, 2); slot = left ? &x->lc : &x->rc;
            if (!*slot) break; if (pat == 5) { slot = left ? &x->rc : &x->lc; if (!*slot) break; } x = *slot;
        }
        *slot = fresh(i, x);
    }
    check(&t); if (!t.top) VF_EV("titer.empty"); VF_EV("titer.shape");
    if (n >= 2 && vf_chance(1, 2)) {    /* prune a leaf, walk again */
        knot_t *x = post_first(&t), *u; int k = vf_below(n); while (k-- && post_next(x)) x = post_next(x);
        while (x->lc || x->rc) x = x->lc ? x->lc : x->rc;
        u = x->up; if (u) { if (u->lc == x) u->lc = NULL; else u->rc = NULL; free(x); n--; check(&t); VF_EV("titer.pruned"); }
    }
    vf_obs(n); vf_obs(no ? ord[no / 2]->id : 0); drain(&t, n);
}
static void scn_level(void)
{   /* complete trees: level order is the heap order */
    tree_t t = { 0 }; int n = vf_chance(1, 10) ? 0 : vf_chance(1, 3) ? (1 << (1 + vf_below(9))) - 1 + (int)vf_range(-1, 1) : 1 + vf_below(300); vf_op("complete tree of %d", n);
    for (int i = 0; i < n; i++) { knot_t *u = i ? all[(i - 1) / 2] : NULL, *k = fresh(i, u); if (!u) t.top = k; else if (i & 1) u->lc = k; else u->rc = k; }
    unsigned long x = 99; int c = 0; knot_t *p; for (p = lev_first(&t, &x); p; p = lev_next(&t, &x)) { VF_CHECK(c < n, "level-order", "walk does not end"); VF_PEQ(p, all[c], "level-order"); VF_EQ(x, c, "level-index"); c++; } VF_EQ(c, n, "level-order");
    if (n) { x = vf_below(n); c = x; p = lev_next(&t, &x); VF_PEQ(p, c + 1 < n ? all[c + 1] : NULL, "level-order"); }
    check(&t); VF_EV("titer.level"); vf_obs(n); drain(&t, n);
}
VF_SCENARIOS({ "shape", scn_shape, 3 }, { "level", scn_level, 1 });
