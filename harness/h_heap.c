/* C07: pointer heap against a multiset model. */
#include "vf.h"
#include <bfdev/heap.h>
typedef struct { long pad; bfdev_heap_node_t h; long key; long at; } hn_t;
#define H(p) bfdev_heap_entry(p, hn_t, h)
static hn_t **m; static size_t mn; static int cmpstyle, sign; static unsigned long ncmp;
static long cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd)
{
    long d = H(a)->key - H(b)->key; VF_PEQ(pd, &mn, "cmp-data"); ncmp++;
    d *= sign;
    return d == 0 ? 0 : cmpstyle == 0 ? d : cmpstyle == 1 ? (d < 0 ? -1 : 1) : (d < 0 ? LONG_MIN : LONG_MAX);
}
static size_t cnt;
static void verify(bfdev_heap_node_t *n, bfdev_heap_node_t *parent, int d)
{
    if (!n) return;
    VF_CHECK(d < 64 && cnt < mn, "shape", "tree holds more nodes than members");
    VF_PEQ(n->parent, parent, "parent-link"); cnt++;
    VF_CHECK(H(n)->at >= 0, "dead-member", "a removed node is still in the heap");
    if (parent) VF_CHECK(sign * H(parent)->key <= sign * H(n)->key, "heap-order", "child sorts before its parent");
    verify(n->left, n, d + 1); verify(n->right, n, d + 1);
}
static void mark_reset(void) { for (size_t i = 0; i < mn; i++) m[i]->at = 0; }
#define MARK(N, key) do { hn_t *_n = (N); VF_CHECK(_n->at == 0, key, "member visited twice or not a member"); _n->at = 1; c++; } while (0)
static void check(bfdev_heap_root_t *r)
{
    size_t c = 0; unsigned long idx; bfdev_heap_node_t *p, *t; hn_t *e, *te;
    cnt = 0; verify(r->node, NULL, 0); VF_EQ(cnt, mn, "members"); VF_EQ(BFDEV_HEAP_ROOT_COUNT(r), mn, "count"); VF_EQ(bfdev_heap_empty_root(r), !mn, "empty");
    for (size_t i = 0; i < mn && mn; i++) VF_CHECK(sign * H(BFDEV_HEAP_ROOT_NODE(r))->key <= sign * m[i]->key, "root", "root is not extremal");
    mark_reset();
    switch (vf_below(16)) {
    case 0: bfdev_heap_for_each(p, &idx, r) MARK(H(p), "walk-level"); break;
    case 1: bfdev_heap_for_each_entry(e, &idx, r, h) MARK(e, "walk-level-entry"); break;
    case 2: bfdev_heap_post_for_each(p, r) MARK(H(p), "walk-post"); break;
    case 3: bfdev_heap_post_for_each_entry(e, r, h) MARK(e, "walk-post-entry"); break;
    case 4: bfdev_heap_post_for_each_safe(p, t, r) MARK(H(p), "walk-post-safe"); break;
    case 5: bfdev_heap_post_for_each_entry_safe(e, te, r, h) MARK(e, "walk-post-entry-safe"); break;
    case 6: { size_t stop = mn ? vf_below(mn) : 0;
        bfdev_heap_for_each(p, &idx, r) { if (c == stop) break; MARK(H(p), "walk-from"); }
        if (p) { if (vf_chance(1, 2)) { bfdev_heap_for_each_from(p, &idx, r) MARK(H(p), "walk-from"); } else { MARK(H(p), "walk-continue"); bfdev_heap_for_each_continue(p, &idx, r) MARK(H(p), "walk-continue"); } } break; }
    case 7: { size_t stop = mn ? vf_below(mn) : 0;
        bfdev_heap_for_each_entry(e, &idx, r, h) { if (c == stop) break; MARK(e, "walk-entry-from"); }
        if (e) { if (vf_chance(1, 2)) { bfdev_heap_for_each_entry_from(e, &idx, r, h) MARK(e, "walk-entry-from"); } else { MARK(e, "walk-entry-continue"); bfdev_heap_for_each_entry_continue(e, &idx, r, h) MARK(e, "walk-entry-continue"); } } break; }
    case 8: { size_t stop = mn ? vf_below(mn) : 0;
        bfdev_heap_post_for_each(p, r) { if (c == stop) break; MARK(H(p), "walk-post-from"); }
        if (p) { if (vf_chance(1, 2)) { bfdev_heap_post_for_each_from(p) MARK(H(p), "walk-post-from"); } else { MARK(H(p), "walk-post-continue"); bfdev_heap_post_for_each_continue(p) MARK(H(p), "walk-post-continue"); } } break; }
    case 9: { size_t stop = mn ? vf_below(mn) : 0;
        bfdev_heap_post_for_each_entry(e, r, h) { if (c == stop) break; MARK(e, "walk-post-entry-from"); }
        if (e) { if (vf_chance(1, 2)) { bfdev_heap_post_for_each_entry_from(e, h) MARK(e, "walk-post-entry-from"); } else { MARK(e, "walk-post-entry-continue"); bfdev_heap_post_for_each_entry_continue(e, h) MARK(e, "walk-post-entry-continue"); } } break; }
    case 10: case 11: case 12: { /* walks that survive the release of what they hand out: scribble over each node once visited */
        bfdev_heap_node_t *sv = vf_xcalloc((mn + 1) * sizeof(*sv)); hn_t **who = vf_xcalloc((mn + 1) * sizeof(*who)); size_t k = 0, stop = mn ? vf_below(mn) : 0; unsigned form = vf_below(6);
#define GONE(n, key) do { hn_t *_g = (n); MARK(_g, key); who[k] = _g; sv[k++] = _g->h; memset(&_g->h, 0xee, sizeof(_g->h)); } while (0)
        switch (form) {
        case 0: bfdev_heap_post_for_each_safe(p, t, r) GONE(H(p), "walk-post-safe"); break;
        case 1: bfdev_heap_post_for_each_entry_safe(e, te, r, h) GONE(e, "walk-post-entry-safe"); break;
        case 2: case 3: bfdev_heap_post_for_each_safe(p, t, r) { if (c == stop) break; GONE(H(p), "walk-post-safe-from"); }
            if (p && form == 2) { bfdev_heap_post_for_each_safe_from(p, t) GONE(H(p), "walk-post-safe-from"); }
            else if (p) { MARK(H(p), "walk-post-safe-continue"); bfdev_heap_post_for_each_safe_continue(p, t) GONE(H(p), "walk-post-safe-continue"); }
            break;
        default: bfdev_heap_post_for_each_entry_safe(e, te, r, h) { if (c == stop) break; GONE(e, "walk-post-entry-from-safe"); }
            if (e && form == 4) { bfdev_heap_post_for_each_entry_from_safe(e, te, h) GONE(e, "walk-post-entry-from-safe"); }
            else if (e) { MARK(e, "walk-post-entry-continue-safe"); bfdev_heap_post_for_each_entry_continue_safe(e, te, h) GONE(e, "walk-post-entry-continue-safe"); }
        }
        while (k--) who[k]->h = sv[k];
        free(sv); free(who); VF_EV("heap.walk_released"); break; }
    case 13: /* parents before children; each position names its member */
        bfdev_heap_for_each(p, &idx, r) { VF_CHECK(!p->parent || H(p->parent)->at == 1, "level-order", "a child came before its parent"); VF_PEQ(bfdev_heap_find(r, c + 1), p, "find"); MARK(H(p), "walk-level"); }
        for (size_t i = 1; i < 70; i += 1 + vf_below(9)) VF_PEQ(bfdev_heap_find(r, mn + i), NULL, "find-beyond");
        if (mn) { VF_PEQ(bfdev_heap_find(r, 2 * mn), NULL, "find-beyond"); VF_PEQ(bfdev_heap_find(r, 4 * mn + 3), NULL, "find-beyond"); }
        VF_EV("heap.find"); break;
    case 14: /* children before parents */
        bfdev_heap_post_for_each(p, r) { VF_CHECK((!p->left || H(p->left)->at == 1) && (!p->right || H(p->right)->at == 1), "post-order", "a parent came before its child"); MARK(H(p), "walk-post"); } break;
    case 15: /* ends of the tree below a member */
        bfdev_heap_for_each(p, &idx, r) { MARK(H(p), "walk-level");
            for (t = p; t->left; t = t->left) {} VF_PEQ(bfdev_heap_left_far(p), t, "left-far");
            for (t = p; t->right; t = t->right) {} VF_PEQ(bfdev_heap_right_far(p), t, "right-far");
            for (t = p; t->left || t->right; t = t->left ? t->left : t->right) {} VF_PEQ(bfdev_heap_left_deep(p), t, "left-deep");
            for (t = p; t->left || t->right; t = t->right ? t->right : t->left) {} VF_PEQ(bfdev_heap_right_deep(p), t, "right-deep"); }
        VF_PEQ(bfdev_heap_left_deep(NULL), NULL, "left-deep"); VF_PEQ(bfdev_heap_right_deep(NULL), NULL, "right-deep"); break;
    }
    VF_EQ(c, mn, "walk-count"); VF_EV("heap.walk"); mark_reset();
}
static void del(hn_t *n) { for (size_t i = 0; i < mn; i++) if (m[i] == n) { m[i] = m[--mn]; n->at = -1; return; } vf_harness_error("not a member"); }
static void scn(void)
{
    bfdev_heap_root_t r = BFDEV_HEAP_INIT(); size_t cap = 1 + vf_below(vf_chance(1, 10) ? 300 : 30); int ops = cap * (2 + vf_below(4)) + 3; long span = vf_chance(1, 2) ? 5 : 100000; int pat = vf_below(3); long seq = 0;
    hn_t *pool = vf_xcalloc(cap * sizeof(hn_t)), **fr = vf_xmalloc(cap * sizeof(*fr)); size_t nf = 0;
    for (size_t i = 0; i < cap; i++) { fr[nf++] = &pool[i]; pool[i].at = -1; memset(&pool[i].h, 0xee, sizeof(pool[i].h)); }
    m = vf_xmalloc(cap * sizeof(*m)); mn = 0; cmpstyle = vf_below(3); sign = vf_chance(1, 2) ? 1 : -1; ncmp = 0;
    if (vf_chance(1, 2)) bfdev_heap_init(&r);
    for (int op = 0; op < ops; op++) {
        bool grow = (op / (int)cap) % 2 == 0; int k = vf_below(10);
        if (k < (grow ? 7 : 3) && nf) {
            hn_t *n = fr[--nf]; n->key = pat == 0 ? seq++ : pat == 1 ? -seq++ : (long)vf_below(span); vf_op("insert %ld", n->key);
            if (vf_chance(1, 2)) bfdev_heap_insert(&r, &n->h, cmp, &mn);
            else { bfdev_heap_node_t *parent, **link = bfdev_heap_parent(&r, &parent, &n->h); VF_CHECK(link && !*link, "parent", "no free place"); bfdev_heap_insert_node(&r, parent, link, &n->h, cmp, &mn); }
            m[mn++] = n; n->at = 0; VF_EV("heap.insert");
        } else if (mn) {
            hn_t *n = vf_chance(1, 2) ? H(r.node) : m[vf_below(mn)]; if (n == H(r.node)) VF_EV("heap.pop"); else VF_EV("heap.delete_inner");
            vf_op("delete %ld", n->key);
            bfdev_heap_delete(&r, &n->h, cmp, &mn); del(n); fr[nf++] = n;
        }
        if (cap < 40 || vf_chance(1, 10)) check(&r);
        if (vf_chance(1, 8)) { vf_obs(mn); if (mn) vf_obs(H(r.node)->key); }
    }
    check(&r);
    { long last = 0; bool first = true;
      while (mn) { hn_t *n = H(r.node); VF_CHECK(first || sign * n->key >= sign * last, "drain-order", "popped out of order"); first = false; last = n->key; bfdev_heap_delete(&r, &n->h, cmp, &mn); del(n); if (vf_chance(1, 6)) check(&r); VF_EV("heap.drain"); } }
    check(&r); vf_obs(ncmp);
    free(m); free(pool); free(fr);
}
VF_SCENARIOS({ "heap", scn, 1 });
