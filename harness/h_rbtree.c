/* C05: red-black trees (plain, cached, augmented) against a sorted model. */
#include "vf.h"
#include <bfdev/rbtree.h>

typedef struct tn {
    unsigned long pad;
    bfdev_rb_node_t rb;
    long key; unsigned long seq;
    long amax;              /* max of own over subtree */
    long own;
    unsigned long cnt;      /* number of nodes in subtree */
} tn_t;
#define T(p) bfdev_rb_entry(p, tn_t, rb)

#define OWN(n) ((n)->own)
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, cb_max, tn_t, rb, long, amax, OWN);
static inline bool cnt_compute(tn_t *n, bool exit)
{
    unsigned long c = 1;
    if (n->rb.left) c += T(n->rb.left)->cnt;
    if (n->rb.right) c += T(n->rb.right)->cnt;
    if (exit && n->cnt == c) return true;
    n->cnt = c;
    return false;
}
BFDEV_RB_DECLARE_CALLBACKS(static, cb_cnt, tn_t, rb, cnt, cnt_compute);

static tn_t **m; static size_t mn;
static bool unique;
static int cmpstyle;
static long st(long d) { return d == 0 ? 0 : cmpstyle == 0 ? d : cmpstyle == 1 ? (d < 0 ? -1 : 1) : (d < 0 ? LONG_MIN : LONG_MAX); }
static unsigned long ncmp;
static int aug;             /* 0 none, 1 max, 2 count */
static long cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd)
{
    long d = T(a)->key - T(b)->key; ncmp++;
    VF_PEQ(pd, &mn, "cmp-data");
    if (!d && !unique) d = 1;
    return st(d);
}
static long find(const bfdev_rb_node_t *n, const void *key) { ncmp++; return st(T(n)->key - *(const long *)key); }

static const bfdev_rb_callbacks_t *cbs(void) { return aug == 1 ? &cb_max : &cb_cnt; }
static size_t upper(long key) { size_t i = 0; while (i < mn && m[i]->key <= key) i++; return i; }
static size_t lower(long key) { size_t i = 0; while (i < mn && m[i]->key < key) i++; return i; }

static size_t vi;
static int verify(bfdev_rb_node_t *n, bfdev_rb_node_t *parent, int depth)
{
    int l, r;
    if (!n) return 1;
    VF_CHECK(depth < 64, "shape", "tree deeper than 64");
    VF_PEQ(n->parent, parent, "parent-link");
    if (n->color == BFDEV_RB_RED) VF_CHECK(parent && parent->color != BFDEV_RB_RED, "red-red", "red node %s", parent ? "below a red node" : "at the root");
    l = verify(n->left, n, depth + 1);
    VF_CHECK(vi < mn, "extra-node", "tree holds more nodes than inserted");
    VF_PEQ(T(n), m[vi], "order"); vi++;
    r = verify(n->right, n, depth + 1);
    VF_EQ(l, r, "black-height");
    if (aug == 1) {
        long x = T(n)->own;
        if (n->left && T(n->left)->amax > x) x = T(n->left)->amax;
        if (n->right && T(n->right)->amax > x) x = T(n->right)->amax;
        VF_EQ(T(n)->amax, x, "aggregate-max");
    } else if (aug == 2)
        VF_EQ(T(n)->cnt, 1 + (n->left ? T(n->left)->cnt : 0) + (n->right ? T(n->right)->cnt : 0), "aggregate-count");
    return l + (n->color == BFDEV_RB_RED ? 0 : 1);
}

static void walks(bfdev_rb_root_t *root, bfdev_rb_root_cached_t *cr)
{
    bfdev_rb_node_t *p, *t; tn_t *e, *te; size_t i = 0, k = mn ? vf_below(mn) : 0;
    switch (vf_below(8)) {
    case 0:
        if (cr) { bfdev_rb_cached_for_each(p, cr) { VF_CHECK(i < mn, "walk", "too long"); VF_PEQ(T(p), m[i], "walk"); i++; } }
        else bfdev_rb_for_each(p, root) { VF_CHECK(i < mn, "walk", "too long"); VF_PEQ(T(p), m[i], "walk"); i++; }
        VF_EQ(i, mn, "walk"); break;
    case 1:
        if (cr) { bfdev_rb_cached_for_each_reverse(p, cr) { i++; VF_CHECK(i <= mn, "walk-reverse", "too long"); VF_PEQ(T(p), m[mn - i], "walk-reverse"); } }
        else bfdev_rb_for_each_reverse(p, root) { i++; VF_CHECK(i <= mn, "walk-reverse", "too long"); VF_PEQ(T(p), m[mn - i], "walk-reverse"); }
        VF_EQ(i, mn, "walk-reverse"); break;
    case 2:
        if (cr) { bfdev_rb_cached_for_each_entry(e, cr, rb) { VF_CHECK(i < mn, "walk-entry", "too long"); VF_PEQ(e, m[i], "walk-entry"); i++; } }
        else bfdev_rb_for_each_entry(e, root, rb) { VF_CHECK(i < mn, "walk-entry", "too long"); VF_PEQ(e, m[i], "walk-entry"); i++; }
        VF_EQ(i, mn, "walk-entry"); i = 0;
        if (cr) { bfdev_rb_cached_for_each_entry_reverse(e, cr, rb) { i++; VF_PEQ(e, m[mn - i], "walk-entry-reverse"); } }
        else bfdev_rb_for_each_entry_reverse(e, root, rb) { i++; VF_PEQ(e, m[mn - i], "walk-entry-reverse"); }
        VF_EQ(i, mn, "walk-entry-reverse");
        break;
    case 3:
        if (!mn) break;
        p = &m[k]->rb; i = k; bfdev_rb_for_each_from(p) { VF_CHECK(i < mn, "walk-from", "too long"); VF_PEQ(T(p), m[i], "walk-from"); i++; } VF_EQ(i, mn, "walk-from");
        p = &m[k]->rb; i = k + 1; bfdev_rb_for_each_continue(p) { VF_CHECK(i < mn, "walk-continue", "too long"); VF_PEQ(T(p), m[i], "walk-continue"); i++; } VF_EQ(i, mn, "walk-continue");
        p = &m[k]->rb; i = k + 1; bfdev_rb_for_each_reverse_from(p) { VF_CHECK(i, "walk-reverse-from", "too long"); i--; VF_PEQ(T(p), m[i], "walk-reverse-from"); } VF_EQ(i, 0, "walk-reverse-from");
        p = &m[k]->rb; i = k; bfdev_rb_for_each_reverse_continue(p) { VF_CHECK(i, "walk-reverse-continue", "too long"); i--; VF_PEQ(T(p), m[i], "walk-reverse-continue"); } VF_EQ(i, 0, "walk-reverse-continue");
        break;
    case 4:
        if (!mn) break;
        e = m[k]; i = k; bfdev_rb_for_each_entry_from(e, rb) { VF_CHECK(i < mn, "walk-entry-from", "too long"); VF_PEQ(e, m[i], "walk-entry-from"); i++; } VF_EQ(i, mn, "walk-entry-from");
        e = m[k]; i = k + 1; bfdev_rb_for_each_entry_continue(e, rb) { VF_CHECK(i < mn, "walk-entry-continue", "too long"); VF_PEQ(e, m[i], "walk-entry-continue"); i++; } VF_EQ(i, mn, "walk-entry-continue");
        e = m[k]; i = k + 1; bfdev_rb_for_each_entry_reverse_from(e, rb) { i--; VF_PEQ(e, m[i], "walk-entry-reverse-from"); } VF_EQ(i, 0, "walk-entry-reverse-from");
        e = m[k]; i = k; bfdev_rb_for_each_entry_reverse_continue(e, rb) { i--; VF_PEQ(e, m[i], "walk-entry-reverse-continue"); } VF_EQ(i, 0, "walk-entry-reverse-continue");
        break;
    case 5: case 6: { /* pre-order: parents before children, left before right; post-order: reverse relation */
        static bfdev_rb_node_t *stk[128], *seq[4096]; int sp = 0; size_t n = 0; bool post = vf_chance(1, 2);
        if (mn > 4096) break;
        if (!post) {
            if (root->node) stk[sp++] = root->node;
            while (sp) { p = stk[--sp]; seq[n++] = p; if (p->right) stk[sp++] = p->right; if (p->left) stk[sp++] = p->left; }
            if (vf_chance(1, 2)) { bfdev_rb_pre_for_each(p, root) { VF_CHECK(i < n, "walk-pre", "too long"); VF_PEQ(p, seq[i], "walk-pre"); i++; } }
            else bfdev_rb_pre_for_each_entry(e, root, rb) { VF_CHECK(i < n, "walk-pre-entry", "too long"); VF_PEQ(&e->rb, seq[i], "walk-pre-entry"); i++; }
            VF_EQ(i, n, "walk-pre");
            if (n) {
                k = vf_below(n);
                if (cr) {
                    i = 0; bfdev_rb_cached_pre_for_each(p, cr) { VF_CHECK(i < n, "walk-cached-pre", "too long"); VF_PEQ(p, seq[i], "walk-cached-pre"); i++; } VF_EQ(i, n, "walk-cached-pre");
                    i = 0; bfdev_rb_cached_pre_for_each_entry(e, cr, rb) { VF_CHECK(i < n, "walk-cached-pre", "too long"); VF_PEQ(&e->rb, seq[i], "walk-cached-pre"); i++; } VF_EQ(i, n, "walk-cached-pre");
                }
                i = k; p = seq[k]; bfdev_rb_pre_for_each_from(p) { VF_CHECK(i < n, "walk-pre-from", "too long"); VF_PEQ(p, seq[i], "walk-pre-from"); i++; } VF_EQ(i, n, "walk-pre-from");
                i = k + 1; p = seq[k]; bfdev_rb_pre_for_each_continue(p) { VF_CHECK(i < n, "walk-pre-continue", "too long"); VF_PEQ(p, seq[i], "walk-pre-continue"); i++; } VF_EQ(i, n, "walk-pre-continue");
                i = k; e = T(seq[k]); bfdev_rb_pre_for_each_entry_from(e, rb) { VF_PEQ(&e->rb, seq[i], "walk-pre-entry-from"); i++; } VF_EQ(i, n, "walk-pre-entry-from");
                i = k + 1; e = T(seq[k]); bfdev_rb_pre_for_each_entry_continue(e, rb) { VF_PEQ(&e->rb, seq[i], "walk-pre-entry-continue"); i++; } VF_EQ(i, n, "walk-pre-entry-continue");
            }
        } else {
            if (root->node) stk[sp++] = root->node;
            while (sp) { p = stk[--sp]; seq[n++] = p; if (p->left) stk[sp++] = p->left; if (p->right) stk[sp++] = p->right; }
            for (size_t a = 0; a < n / 2; a++) { p = seq[a]; seq[a] = seq[n - 1 - a]; seq[n - 1 - a] = p; }
            if (vf_chance(1, 2)) { bfdev_rb_post_for_each(p, root) { VF_CHECK(i < n, "walk-post", "too long"); VF_PEQ(p, seq[i], "walk-post"); i++; } }
            else bfdev_rb_post_for_each_entry(e, root, rb) { VF_CHECK(i < n, "walk-post-entry", "too long"); VF_PEQ(&e->rb, seq[i], "walk-post-entry"); i++; }
            VF_EQ(i, n, "walk-post");
            if (n) {
                k = vf_below(n);
                i = k; p = seq[k]; bfdev_rb_post_for_each_from(p) { VF_CHECK(i < n, "walk-post-from", "too long"); VF_PEQ(p, seq[i], "walk-post-from"); i++; } VF_EQ(i, n, "walk-post-from");
                i = k + 1; p = seq[k]; bfdev_rb_post_for_each_continue(p) { VF_CHECK(i < n, "walk-post-continue", "too long"); VF_PEQ(p, seq[i], "walk-post-continue"); i++; } VF_EQ(i, n, "walk-post-continue");
                i = k; e = T(seq[k]); bfdev_rb_post_for_each_entry_from_safe(e, te, rb) { VF_PEQ(&e->rb, seq[i], "walk-post-safe"); i++; } VF_EQ(i, n, "walk-post-safe");
                i = k + 1; e = T(seq[k]); bfdev_rb_post_for_each_entry_continue_safe(e, te, rb) { VF_PEQ(&e->rb, seq[i], "walk-post-safe"); i++; } VF_EQ(i, n, "walk-post-safe");
                i = k + 1; p = seq[k]; bfdev_rb_post_for_each_safe_continue(p, t) { VF_CHECK(i < n, "walk-post-safe", "too long"); VF_PEQ(p, seq[i], "walk-post-safe"); i++; } VF_EQ(i, n, "walk-post-safe");
                i = k; e = T(seq[k]); bfdev_rb_post_for_each_entry_from(e, rb) { VF_CHECK(i < n, "walk-post-entry-from", "too long"); VF_PEQ(&e->rb, seq[i], "walk-post-entry-from"); i++; } VF_EQ(i, n, "walk-post-entry-from");
                i = k + 1; e = T(seq[k]); bfdev_rb_post_for_each_entry_continue(e, rb) { VF_CHECK(i < n, "walk-post-entry-continue", "too long"); VF_PEQ(&e->rb, seq[i], "walk-post-entry-continue"); i++; } VF_EQ(i, n, "walk-post-entry-continue");
                if (cr) {
                    i = 0; bfdev_rb_cached_post_for_each(p, cr) { VF_CHECK(i < n, "walk-cached-post", "too long"); VF_PEQ(p, seq[i], "walk-cached-post"); i++; } VF_EQ(i, n, "walk-cached-post");
                    i = 0; bfdev_rb_cached_post_for_each_entry(e, cr, rb) { VF_CHECK(i < n, "walk-cached-post", "too long"); VF_PEQ(&e->rb, seq[i], "walk-cached-post"); i++; } VF_EQ(i, n, "walk-cached-post");
                    i = 0; bfdev_rb_cached_post_for_each_entry_safe(e, te, cr, rb) { VF_CHECK(i < n, "walk-cached-post", "too long"); VF_PEQ(&e->rb, seq[i], "walk-cached-post"); i++; } VF_EQ(i, n, "walk-cached-post");
                }
                i = k; p = seq[k]; bfdev_rb_post_for_each_safe_from(p, t) { VF_PEQ(p, seq[i], "walk-post-safe"); i++; } VF_EQ(i, n, "walk-post-safe");
            }
        }
        break; }
    case 7:
        if (mn) { bfdev_rb_node_t *x = &m[k]->rb, *y;   /* ends of the tree below a member */
            for (y = x; y->left; y = y->left) {} VF_PEQ(bfdev_rb_left_far(x), y, "left-far"); for (y = x; y->right; y = y->right) {} VF_PEQ(bfdev_rb_right_far(x), y, "right-far");
            for (y = x; y->left || y->right; y = y->left ? y->left : y->right) {} VF_PEQ(bfdev_rb_left_deep(x), y, "left-deep"); for (y = x; y->left || y->right; y = y->right ? y->right : y->left) {} VF_PEQ(bfdev_rb_right_deep(x), y, "right-deep");
            VF_PEQ(bfdev_rb_next_entry(m[k], rb), k + 1 < mn ? m[k + 1] : NULL, "next-entry"); VF_PEQ(bfdev_rb_prev_entry(m[k], rb), k ? m[k - 1] : NULL, "prev-entry"); }
        VF_PEQ(bfdev_rb_next(NULL), NULL, "next-null"); VF_PEQ(bfdev_rb_prev(NULL), NULL, "prev-null");
        VF_PEQ(bfdev_rb_first(root), mn ? &m[0]->rb : NULL, "first"); VF_PEQ(bfdev_rb_last(root), mn ? &m[mn - 1]->rb : NULL, "last");
        VF_PEQ(bfdev_rb_first_entry(root, tn_t, rb), mn ? m[0] : NULL, "first-entry"); VF_PEQ(bfdev_rb_last_entry(root, tn_t, rb), mn ? m[mn - 1] : NULL, "last-entry");
        if (mn) {
            VF_PEQ(bfdev_rb_next(&m[k]->rb), k + 1 < mn ? &m[k + 1]->rb : NULL, "next"); VF_PEQ(bfdev_rb_prev(&m[k]->rb), k ? &m[k - 1]->rb : NULL, "prev");
        }
        break;
    }
    VF_EV("rbtree.walk");
}

static void check(bfdev_rb_root_t *root, bfdev_rb_root_cached_t *cr)
{
    vi = 0; verify(root->node, NULL, 0);
    VF_EQ(vi, mn, "lost-node");
    if (cr) { VF_PEQ(cr->leftmost, mn ? &m[0]->rb : NULL, "leftmost"); VF_EQ(BFDEV_RB_EMPTY_ROOT_CACHED(cr), !mn, "empty"); }
    VF_EQ(BFDEV_RB_EMPTY_ROOT(root), !mn, "empty");
    if (vf_chance(1, 3)) walks(root, cr);
}
static void ins_model(tn_t *n) { size_t i = upper(n->key); memmove(m + i + 1, m + i, (mn - i) * sizeof(*m)); m[i] = n; mn++; }
static void del_model(size_t i) { memmove(m + i, m + i + 1, (mn - i - 1) * sizeof(*m)); mn--; }
/* what an augmented insertion has to do on the way down */
static void pre_aug(bfdev_rb_node_t *parent, tn_t *n)
{
    if (aug == 1) { n->amax = n->own; for (; parent; parent = parent->parent) if (T(parent)->amax < n->own) T(parent)->amax = n->own; }
    else if (aug == 2) { n->cnt = 1; for (; parent; parent = parent->parent) T(parent)->cnt++; }
}
static long cmp_aug(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd)
{   /* duplicates allowed: every compared node is an ancestor of the new one */
    tn_t *x = T((bfdev_rb_node_t *)b);
    if (aug == 1) { if (x->amax < T(a)->own) x->amax = T(a)->own; }
    else if (aug == 2) x->cnt++;
    return cmp(a, b, pd);
}

static void run(bool big)
{
    bfdev_rb_root_t plain = BFDEV_RB_INIT(), *root; bfdev_rb_root_cached_t cached = BFDEV_RB_CACHED_INIT(), *cr = NULL;
    size_t cap = big ? 200 + vf_below(vf_deep ? 3000 : 400) : 2 + vf_below(40); int ops = cap * (1 + vf_below(4)) + 5;
    long span = vf_chance(1, 3) ? 1 + vf_below(6) : vf_chance(1, 2) ? 1000000 : cap; int pat = vf_below(4); unsigned long seq = 0; bool wide;
    tn_t *pool = vf_xcalloc((cap + 1) * sizeof(tn_t)), **fr = vf_xmalloc((cap + 1) * sizeof(*fr)); size_t nf = 0;
    for (size_t i = 0; i < cap + 1; i++) fr[nf++] = &pool[i];
    unique = vf_chance(1, 2); cmpstyle = vf_below(3); aug = vf_below(3);
    if (vf_chance(1, 2)) { cr = &cached; root = &cached.root; if (vf_chance(1, 2)) bfdev_rb_cache_init(cr); } else { root = &plain; if (vf_chance(1, 2)) bfdev_rb_init(root); }
    m = vf_xmalloc((cap + 2) * sizeof(*m)); mn = 0;
    wide = vf_chance(1, 2); (void)wide;
    vf_op("rb cap %zu unique %d aug %d cached %d", cap, unique, aug, !!cr);
    for (int op = 0; op < ops; op++) {
        int grow = (op / (int)cap) % 2 == 0 ? 6 : 3, r = vf_below(10);
        if (r < grow && mn < cap) {         /* insert */
            tn_t *n = fr[--nf]; bool ok, want; long key; size_t lo;
            key = pat == 0 ? (long)seq : pat == 1 ? -(long)seq : pat == 2 ? (long)vf_below(span) : (long)((seq * 7919) % 1009);
            seq++; n->key = key; n->seq = seq; n->own = vf_range(-50, 50);
            lo = lower(key); want = !(unique && lo < mn && m[lo]->key == key);
            memset(&n->rb, vf_chance(1, 2) ? 0xff : 0, sizeof(n->rb));
            vf_op("insert %ld", key);
            if (!aug) {
                if (vf_chance(1, 4)) {      /* two-step through find_last */
                    bfdev_rb_node_t *parent, **link, *hit; bool lm = 2;
                    if (unique) {
                        hit = cr ? bfdev_rb_cached_find_last(cr, &key, find, &parent, &link, &lm) : bfdev_rb_find_last(root, &key, find, &parent, &link, vf_chance(1, 4) ? NULL : &lm); VF_EV("rbtree.find_last");
                        VF_PEQ(hit, want ? NULL : &m[lo]->rb, "find-last");
                        if (!hit) { if (cr) { VF_EQ(lm, lo == 0, "find-last-leftmost"); bfdev_rb_cached_insert_node(cr, parent, link, &n->rb, lm); } else bfdev_rb_insert_node(root, parent, link, &n->rb); }
                        ok = !hit;
                    } else {
                        link = bfdev_rb_parent(root, &parent, &n->rb, cmp, &mn, &lm); VF_CHECK(link, "parent", "no place for a duplicate"); VF_EQ(lm, upper(key) == 0, "parent-leftmost");
                        bfdev_rb_link(parent, link, &n->rb);
                        if (cr) bfdev_rb_cached_fixup(cr, &n->rb, lm); else bfdev_rb_fixup(root, &n->rb);
                        ok = true; VF_EV("rbtree.parent");
                    }
                } else ok = cr ? bfdev_rb_cached_insert(cr, &n->rb, cmp, &mn) : bfdev_rb_insert(root, &n->rb, cmp, &mn);
            } else if (!unique && vf_chance(1, 2)) {
                n->amax = n->own; n->cnt = 1;
                ok = cr ? bfdev_rb_cached_insert_augmented(cr, &n->rb, cmp_aug, &mn, cbs()) : bfdev_rb_insert_augmented(root, &n->rb, cmp_aug, &mn, cbs());
            } else {
                bfdev_rb_node_t *parent, **link; bool lm;
                link = bfdev_rb_parent(root, &parent, &n->rb, cmp, &mn, &lm); ok = !!link;
                if (link) {
                    pre_aug(parent, n);
                    if (cr) bfdev_rb_cached_insert_node_augmented(cr, parent, link, &n->rb, lm, cbs());
                    else bfdev_rb_insert_node_augmented(root, parent, link, &n->rb, cbs());
                }
            }
            VF_EQ(ok, want, "insert-result");
            if (ok) { ins_model(n); VF_EV("rbtree.insert"); if (!want) {} } else { fr[nf++] = n; VF_EV("rbtree.duplicate_refused"); }
        } else if (r < 8 && mn) {           /* delete */
            size_t i = vf_chance(1, 4) ? 0 : vf_chance(1, 6) ? mn - 1 : vf_below(mn); tn_t *n = m[i]; bfdev_rb_node_t *want = cr && i == 0 ? (mn > 1 ? &m[1]->rb : NULL) : NULL, *got = NULL;
            vf_op("delete #%zu key %ld", i, n->key);
            if (cr) { got = aug ? bfdev_rb_cached_delete_augmented(cr, &n->rb, cbs()) : bfdev_rb_cached_delete(cr, &n->rb); VF_PEQ(got, want, "cached-delete-result"); }
            else if (aug) bfdev_rb_delete_augmented(root, &n->rb, cbs()); else bfdev_rb_delete(root, &n->rb);
            del_model(i); fr[nf++] = n; VF_EV("rbtree.delete"); if (i == 0) VF_EV("rbtree.delete_min");
        } else if (r == 8 && mn) {          /* replace */
            size_t i = vf_below(mn); tn_t *n = fr[nf - 1], *o = m[i];
            *n = (tn_t){ .key = o->key, .own = o->own, .amax = o->amax, .cnt = o->cnt };
            vf_op("replace #%zu", i);
            if (cr) bfdev_rb_cached_replace(cr, &o->rb, &n->rb); else bfdev_rb_replace(root, &o->rb, &n->rb);
            m[i] = n; fr[nf - 1] = o; VF_EV("rbtree.replace");
        } else {                            /* lookups */
            for (int k = 0; k < 3; k++) {
                long key = mn && vf_chance(1, 2) ? m[vf_below(mn)]->key : (long)vf_below(span + 2) - 1; size_t lo = lower(key), hi = upper(key); bfdev_rb_node_t *h;
                ncmp = 0;
                h = cr && vf_chance(1, 2) ? bfdev_rb_cached_find(cr, &key, find) : bfdev_rb_find(root, &key, find); VF_EV("rbtree.find");
                if (lo == hi) { VF_PEQ(h, NULL, "find-absent"); VF_EV("rbtree.find_absent"); }
                else { VF_CHECK(h, "find-present", "key %ld not found", key); VF_EQ(T(h)->key, key, "find-key"); }
                VF_CHECK((1UL << (ncmp / 2)) <= 2 * (mn + 1) * 2, "balance", "lookup among %zu took %lu comparisons", mn, ncmp);
            }
            /* augmented value change, then propagate */
            if (aug == 1 && mn && vf_chance(1, 2)) {
                tn_t *n = m[vf_below(mn)]; n->own = vf_range(-60, 60);
                cb_max.propagate(&n->rb, NULL); VF_EV("rbtree.propagate");
            }
        }
        if (!big || vf_chance(1, 16)) check(root, cr);
        if (vf_chance(1, 8)) { vf_obs(mn); if (mn) vf_obs(m[0]->key * 31 + m[mn - 1]->key); }
    }
    check(root, cr);
    vf_obs(mn); vf_obs(ncmp);
    if (vf_chance(1, 2)) {      /* teardown in post order, freeing as we go */
        bfdev_rb_node_t *p, *t; size_t n = 0; static unsigned char junk;
        if (cr) { bfdev_rb_cached_post_for_each_safe(p, t, cr) { memset(p, 0xee, sizeof(*p)); n++; } }
        else if (vf_chance(1, 2)) { bfdev_rb_post_for_each_safe(p, t, root) { memset(p, 0xee, sizeof(*p)); n++; } }
        else { tn_t *e, *te; bfdev_rb_post_for_each_entry_safe(e, te, root, rb) { memset(&e->rb, 0xee, sizeof(e->rb)); n++; } }
        (void)junk; VF_EQ(n, mn, "teardown-count"); VF_EV("rbtree.teardown");
    } else {
        while (mn) { tn_t *n = m[0]; if (cr) aug ? bfdev_rb_cached_delete_augmented(cr, &n->rb, cbs()) : bfdev_rb_cached_delete(cr, &n->rb); else aug ? bfdev_rb_delete_augmented(root, &n->rb, cbs()) : bfdev_rb_delete(root, &n->rb); del_model(0); if (vf_chance(1, 8)) check(root, cr); }
        check(root, cr);
    }
    free(m); free(pool); free(fr);
}
static void scn_small(void) { run(false); }
static void scn_big(void) { run(true); }
VF_SCENARIOS({ "rb_small", scn_small, 12 }, { "rb_big", scn_big, 1 });
