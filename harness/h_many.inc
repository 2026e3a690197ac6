/* Containers holding more members than 16 bits count; one scenario per including file (MANY_xxx). */
#include "vf.h"
#include <bfdev/errno.h>
static inline size_t many(void) { return 66000 + vf_below(vf_deep ? 400000 : 70000); }
/* keys: distinct unless `dup`, in several orders */
static inline void keys(long *k, size_t n, bool dup)
{
    int pat = vf_below(5); uint64_t salt = vf_rand();
    for (size_t i = 0; i < n; i++) switch (pat) {
    case 0: k[i] = i; break;
    case 1: k[i] = n - i; break;
    case 2: k[i] = i & 1 ? (long)(2 * n - i) : (long)i; break;
    case 3: k[i] = (long)(vf_mix64(salt + i) >> 2); break;
    default: k[i] = dup ? (long)vf_below(300) : (long)((i * 65537) % 16777213); }
    vf_op("%zu members, order %d", n, pat);
}
static inline int lcmp(const void *a, const void *b) { long x = *(const long *)a, y = *(const long *)b; return x < y ? -1 : x > y; }

#ifdef MANY_SORT
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/list.h>
typedef struct { long k; uint32_t id; bfdev_list_head_t l; } el_t;
static long cmp(const void *a, const void *b, void *pd) { return lcmp(a, b); }
static long find(const void *a, void *pd) { return lcmp(a, pd); }
static long ls_cmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pd) { return lcmp(&bfdev_container_of(a, el_t, l)->k, &bfdev_container_of(b, el_t, l)->k); }
static void scn(void)
{
    size_t n = many(), at = 0; long *k = vf_xmalloc(n * sizeof *k), *o; el_t *e = vf_xcalloc(n * sizeof *e), *p, *q = NULL; BFDEV_LIST_HEAD(h); keys(k, n, true);
    for (size_t i = 0; i < n; i++) { e[i].k = k[i]; e[i].id = i; bfdev_list_add_prev(&h, &e[i].l); }
    o = vf_dup(k, n * sizeof *k); qsort(o, n, sizeof *o, lcmp);
    VF_EQ(bfdev_sort(k, n, sizeof *k, cmp, NULL), 0, "sort"); VF_CHECK(!memcmp(k, o, n * sizeof *k), "sort", "%zu elements are not in order", n);
    bfdev_list_sort(&h, ls_cmp, NULL);
    bfdev_list_for_each_entry(p, &h, l) { VF_CHECK(at < n && p->k == o[at], "list-sort", "member %zu of %zu is wrong", at, n); VF_CHECK(!q || q->k < p->k || q->id < p->id, "list-sort-stable", "equal members %u and %u changed places", p->id, q->id); VF_CHECK(!q || p->l.prev == &q->l, "list-sort-links", "a backward link is wrong"); q = p; at++; }
    VF_EQ(at, n, "list-sort"); vf_obs(n);
    for (int i = 0; i < 200; i++) { long v = vf_chance(1, 2) ? o[vf_below(n)] : (long)vf_below(4 * n); void *r = bfdev_bsearch(k, n, sizeof *k, find, &v), *w = bsearch(&v, o, n, sizeof *o, lcmp); VF_CHECK(!r == !w && (!r || *(long *)r == v), "bsearch", "key %ld of %zu", v, n); }
    free(k); free(o); free(e); VF_EV("many.sort");
}
#endif
#ifdef MANY_ARRAY
#include <bfdev/array.h>
static void scn(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t cell = 1 + vf_below(40), n = many() + many(), len = 0; unsigned char *m = vf_xmalloc(n * cell), *p; bfdev_array_t a; bfdev_array_init(&a, &al, cell);
    for (size_t i = 0; i < n * cell; i += 8) { uint64_t r = vf_rand(); memcpy(m + i, &r, n * cell - i < 8 ? n * cell - i : 8); }
    for (int op = 0; op < 60; op++) {
        size_t k = vf_chance(1, 4) ? 65534 + vf_below(5) : vf_below(n); if (k > n) k = n;
        switch (vf_below(5)) {
        case 0: case 1: if (!k || k > n - len) k = vf_below(n - len + 1); if (!k) break; vf_op("push %zu on %zu", k, len); p = bfdev_array_push(&a, k); VF_CHECK(p, "push", "refused"); memcpy(p, m + len * cell, k * cell); len += k; break;
        case 2: if (!len) break; vf_op("pop %zu of %zu", k, len); p = bfdev_array_pop(&a, k); if (k > len) VF_PEQ(p, NULL, "pop-too-many"); else { len -= k; VF_CHECK(p && !memcmp(p, m + len * cell, k * cell), "pop", "popped %zu elements differ", k); } break;
        case 3: if (!len && !k) break; vf_op("resize %zu from %zu", k, len); VF_EQ(bfdev_array_resize(&a, k), 0, "resize"); if (k > len) { p = bfdev_array_data(&a, len); VF_CHECK(p, "resize-access", "no access"); memcpy(p, m + len * cell, (k - len) * cell); } len = k; break;
        default: vf_op("reserve %zu at %zu", k, len); VF_EQ(bfdev_array_reserve(&a, k), 0, "reserve"); { unsigned long calls = A.calls; if (k > n - len) k = n - len; if (!k) break; p = bfdev_array_push(&a, k); VF_CHECK(p && A.calls == calls, "reserve-keeps-promise", "pushing %zu reserved elements allocated", k); memcpy(p, m + len * cell, k * cell); len += k; }
        }
        VF_EQ(bfdev_array_index(&a), len, "length"); VF_EQ(bfdev_array_size(&a), len * cell, "size"); VF_PEQ(bfdev_array_data(&a, len), NULL, "data-out-of-range");
        if (len) { p = bfdev_array_data(&a, 0); VF_CHECK(p && !memcmp(p, m, len * cell), "content", "content of %zu elements of %zu differs", len, cell); VF_PEQ(bfdev_array_data(&a, len - 1), p + (len - 1) * cell, "data"); }
        vf_obs(len);
    }
    bfdev_array_release(&a); vfa_done(&A, "leak"); free(m); VF_EV("many.array");
}
#endif
#ifdef MANY_RBTREE
#include <bfdev/rbtree.h>
typedef struct { bfdev_rb_node_t rb; long k; bool in; } el_t;
#define E(p) bfdev_container_of(p, el_t, rb)
static long cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd) { return lcmp(&E(a)->k, &E(b)->k); }
static long find(const bfdev_rb_node_t *a, const void *key) { return lcmp(&E(a)->k, key); }
static int height(bfdev_rb_node_t *n, bfdev_rb_node_t *up)
{
    if (!n) return 1; VF_PEQ(n->parent, up, "parent"); VF_CHECK(n->color != BFDEV_RB_RED || (up && up->color != BFDEV_RB_RED), "red-red", "red member below a red one");
    int a = height(n->left, n), b = height(n->right, n); VF_EQ(a, b, "black-height"); return a + (n->color != BFDEV_RB_RED);
}
static void check(bfdev_rb_root_cached_t *c, size_t live)
{
    size_t i = 0; el_t *q = NULL; bfdev_rb_node_t *p; height(c->root.node, NULL);
    bfdev_rb_for_each(p, &c->root) { VF_CHECK(E(p)->in && (!q || q->k <= E(p)->k), "order", "member %zu of %zu out of order", i, live); q = E(p); i++; } VF_EQ(i, live, "members"); VF_PEQ(c->leftmost, bfdev_rb_first(&c->root), "leftmost"); i = 0;
    bfdev_rb_post_for_each(p, &c->root) i++; VF_EQ(i, live, "post-members");
}
static void scn(void)
{
    size_t n = many(), live = 0; long *k = vf_xmalloc(n * sizeof *k); el_t *e = vf_xcalloc(n * sizeof *e); keys(k, n, false); BFDEV_RB_ROOT_CACHED(c);
    for (size_t i = 0; i < n; i++) { e[i].k = k[i]; e[i].in = true; bfdev_rb_cached_insert(&c, &e[i].rb, cmp, NULL); live++; } check(&c, live);
    for (int i = 0; i < 300; i++) { el_t *x = e + vf_below(n); bfdev_rb_node_t *r = bfdev_rb_find(&c.root, &x->k, find); VF_CHECK(r && E(r)->k == x->k, "find", "key %ld not found", x->k); }
    int how = vf_below(3); for (size_t i = 0; i < n; i++) if (how == 0 ? i < 66000 : how == 1 ? vf_chance(1, 2) : i % 1000 != 0) { bfdev_rb_cached_delete(&c, &e[i].rb); e[i].in = false; live--; } check(&c, live);
    for (size_t i = 0; i < n; i++) if (!e[i].in) { bfdev_rb_cached_insert(&c, &e[i].rb, cmp, NULL); e[i].in = true; live++; } check(&c, live);
    free(k); free(e); vf_obs(n); VF_EV("many.rbtree");
}
#endif
#ifdef MANY_SEGTREE
#include <bfdev/segtree.h>
typedef struct { bfdev_rb_node_t rb; long lo, hi, mx; bool in; } sv_t;
static long slo(sv_t *n) { return n->lo; } static long shi(sv_t *n) { return n->hi; }
BFDEV_SEGTREE_DEFINE(static, mseg, sv_t, rb, long, mx, slo, shi)
static void ask(bfdev_rb_root_cached_t *root, sv_t *p, size_t n)
{
    for (int q = 0; q < 25; q++) {
        long s = vf_below(n * 8), t = s + vf_below(vf_chance(1, 4) ? n : 40), last = LONG_MIN; size_t hits = 0, want = 0; for (size_t i = 0; i < n; i++) want += p[i].in && p[i].lo <= t && s <= p[i].hi;
        for (sv_t *w = mseg_first(root, s, t); w; w = mseg_next(w, s, t)) { VF_CHECK(w->in && w->lo <= t && s <= w->hi, "hit", "[%ld,%ld] does not meet [%ld,%ld]", w->lo, w->hi, s, t); VF_CHECK(w->lo >= last, "hit-order", "hits out of order"); last = w->lo; VF_CHECK(++hits <= want, "hits", "too many"); }
        VF_EQ(hits, want, "hits"); vf_obs(hits);
    }
}
static void scn(void)
{
    size_t n = many(); sv_t *p = vf_xcalloc(n * sizeof *p); BFDEV_RB_ROOT_CACHED(root); int pat = vf_below(4);
    for (size_t i = 0; i < n; i++) { p[i].lo = pat == 0 ? (long)i * 4 : pat == 1 ? (long)(n - i) * 4 : (long)vf_below(n * 8); p[i].hi = p[i].lo + vf_below(pat == 3 && vf_chance(1, 300) ? n * 4 : 9); p[i].in = true; mseg_insert(&root, &p[i]); }
    ask(&root, p, n); for (size_t i = 0; i < n; i++) if (vf_chance(1, 2)) { mseg_delete(&root, &p[i]); p[i].in = false; } ask(&root, p, n); free(p); VF_EV("many.segtree");
}
#endif
#ifdef MANY_HEAP
#include <bfdev/heap.h>
typedef struct { bfdev_heap_node_t h; long k; bool in; } el_t;
#define E(p) bfdev_container_of(p, el_t, h)
static long cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd) { return lcmp(&E(a)->k, &E(b)->k); }
static size_t below(bfdev_heap_node_t *n, bfdev_heap_node_t *up, size_t idx, size_t live)
{
    if (!n) return 0; VF_PEQ(n->parent, up, "parent"); VF_CHECK(E(n)->in && idx < live, "shape", "a member beyond the last place"); VF_CHECK(!up || E(up)->k <= E(n)->k, "order", "a child comes before its parent");
    return 1 + below(n->left, n, 2 * idx + 1, live) + below(n->right, n, 2 * idx + 2, live);
}
static void check(bfdev_heap_root_t *r, size_t live)
{
    VF_EQ(BFDEV_HEAP_ROOT_COUNT(r), live, "count"); VF_EQ(below(BFDEV_HEAP_ROOT_NODE(r), NULL, 0, live), live, "members");
    size_t i = 0; unsigned long idx; bfdev_heap_node_t *p; bfdev_heap_for_each(p, &idx, r) i++; VF_EQ(i, live, "walk"); VF_PEQ(bfdev_heap_find(r, live + 1 + vf_below(100)), NULL, "find-beyond"); if (live) VF_CHECK(bfdev_heap_find(r, live), "find", "no last member"); vf_obs(live);
}
static void scn(void)
{
    size_t n = many(), live = 0; long *k = vf_xmalloc(n * sizeof *k), last = LONG_MIN; el_t *e = vf_xcalloc(n * sizeof *e); keys(k, n, true); bfdev_heap_root_t r; bfdev_heap_init(&r);
    for (size_t i = 0; i < n; i++) { e[i].k = k[i]; e[i].in = true; bfdev_heap_insert(&r, &e[i].h, cmp, NULL); live++; } check(&r, live);
    for (size_t i = 0; i < n; i++) if (vf_chance(1, 8)) { bfdev_heap_delete(&r, &e[i].h, cmp, NULL); e[i].in = false; live--; } check(&r, live);
    while (live) { el_t *x = E(BFDEV_HEAP_ROOT_NODE(&r)); VF_CHECK(x->in && x->k >= last, "drain-order", "popped out of order"); last = x->k; bfdev_heap_delete(&r, &x->h, cmp, NULL); x->in = false; live--; if (live == n / 2 || live == 65536 || live == 65535) check(&r, live); }
    free(k); free(e); VF_EV("many.heap");
}
#endif
#ifdef MANY_BTREE
#include <bfdev/btree.h>
static const bfdev_btree_ops_t ops = { bfdev_btree_alloc, bfdev_btree_free, bfdev_btree_key_find, NULL, NULL };
static void check(bfdev_btree_root_t *r, long *o, bool *in, size_t n, size_t live)
{
    uintptr_t key; void *v; size_t i = 0, c = 0;
    bfdev_btree_for_each_reverse(r, &key, v) { while (i < n && !in[i]) i++; VF_CHECK(i < n && key == (uintptr_t)o[i] && v == &o[i], "walk", "member %zu of %zu is wrong", c, live); i++; c++; } VF_EQ(c, live, "walk"); i = n; c = 0;
    bfdev_btree_for_each(r, &key, v) { while (i && !in[i - 1]) i--; VF_CHECK(i && key == (uintptr_t)o[i - 1], "walk-reverse", "member %zu of %zu is wrong", c, live); i--; c++; } VF_EQ(c, live, "walk-reverse"); vf_obs(live);
}
static void scn(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = many(), live = 0; long *k = vf_xmalloc(n * sizeof *k), *o; bool *in = vf_xcalloc(n); bfdev_btree_root_t r; keys(k, n, false);
    o = vf_dup(k, n * sizeof *k); qsort(o, n, sizeof *o, lcmp); bfdev_btree_init(&r, vf_chance(1, 2) ? &bfdev_btree_layoutptr : &bfdev_btree_layout64, (bfdev_btree_ops_t *)&ops, NULL); r.alloc = &al;
#define AT(key) ((size_t)((long *)bsearch(&(key), o, n, sizeof *o, lcmp) - o))
    for (size_t i = 0; i < n; i++) { uintptr_t key = k[i]; VF_EQ(bfdev_btree_insert(&r, &key, &o[AT(k[i])]), 0, "insert"); in[AT(k[i])] = true; live++; } check(&r, o, in, n, live);
    for (int round = 0; round < 2; round++) {
        int how = vf_below(3); for (size_t i = 0; i < n; i++) { uintptr_t key = k[i]; size_t a = AT(k[i]); if (in[a] && (how == 0 ? i < n / 2 : how == 1 ? vf_chance(1, 2) : i % 1000 != 0)) { VF_PEQ(bfdev_btree_remove(&r, &key), &o[a], "remove"); in[a] = false; live--; } }
        check(&r, o, in, n, live); for (int i = 0; i < 300; i++) { size_t a = vf_below(n); uintptr_t key = o[a]; VF_PEQ(bfdev_btree_lookup(&r, &key), in[a] ? &o[a] : NULL, "lookup"); }
        for (size_t i = 0; i < n; i++) if (!in[i]) { uintptr_t key = o[i]; VF_EQ(bfdev_btree_insert(&r, &key, &o[i]), 0, "insert"); in[i] = true; live++; } check(&r, o, in, n, live);
    }
    bfdev_btree_release(&r, NULL, NULL); vfa_done(&A, "leak"); free(k); free(o); free(in); VF_EV("many.btree");
}
#endif
#ifdef MANY_RADIX
#include <bfdev/radix.h>
static void scn(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = many(), live = 0, i; uint64_t base = vf_chance(1, 2) ? 0 : vf_rand() >> (8 + vf_below(50)), stride = vf_chance(1, 2) ? 1 : 1 + vf_below(40), x; uint32_t *v; bool *in = vf_xcalloc(n); BFDEV_DEFINE_RADIX(r, uint32_t, &al); vf_op("%zu cells from %#lx by %lu", n, (long)base, (long)stride);
    if (stride == 1 && !(base % 64)) { VF_EQ(bfdev_radix_charge(&r, base, n), 0, "charge"); unsigned long calls = A.calls; for (i = 0; i < 300; i++) { size_t j = vf_below(n); if (!in[j]) { v = bfdev_radix_alloc(&r, base + j * stride); VF_CHECK(v && !*v, "alloc", "no fresh cell"); *v = j; in[j] = true; live++; } } VF_EQ(A.calls, calls, "charged-alloc"); }
    for (i = 0; i < n; i++) { size_t j = (i * 65537) % n; if (in[j]) continue; v = bfdev_radix_alloc(&r, base + j * stride); VF_CHECK(v, "alloc", "refused"); *v = j; in[j] = true; live++; }
    for (i = 0; i < n; i++) if (!in[i]) { v = bfdev_radix_alloc(&r, base + i * stride); VF_CHECK(v, "alloc", "refused"); *v = i; in[i] = true; live++; }
    for (int round = 0; round < 2; round++) {
        i = 0; size_t c = 0; bfdev_radix_for_each(v, &r, &x) { while (i < n && !in[i]) i++; VF_CHECK(i < n && x == base + i * stride && *v == i, "walk", "cell %zu of %zu is wrong", c, live); i++; c++; } VF_EQ(c, live, "walk");
        i = n; c = 0; bfdev_radix_for_each_reverse(v, &r, &x) { while (i && !in[i - 1]) i--; VF_CHECK(i && x == base + (i - 1) * stride, "walk-reverse", "cell %zu of %zu is wrong", c, live); i--; c++; } VF_EQ(c, live, "walk-reverse"); vf_obs(live);
        int how = vf_below(3); for (i = 0; i < n; i++) if (in[i] && (how == 0 ? i < n / 2 : how == 1 ? vf_chance(1, 2) : i % 1000 != 0)) { VF_EQ(bfdev_radix_free(&r, base + i * stride), 0, "free"); in[i] = false; live--; }
        for (int q = 0; q < 300; q++) { i = vf_below(n); v = bfdev_radix_find(&r, base + i * stride); VF_CHECK(in[i] ? v && *v == i : !v, "find", "cell %zu", i); }
    }
    bfdev_radix_release(&r); vfa_done(&A, "leak"); free(in); VF_EV("many.radix");
}
#endif
#ifdef MANY_HASHMAP
#include <bfdev/hashmap.h>
typedef struct { bfdev_hlist_node_t n; long k; bool in; unsigned char seen; } el_t;
#define E(p) bfdev_container_of(p, el_t, n)
static unsigned long hk(const void *k, void *pd) { return vf_mix64(*(const long *)k); }
static unsigned long hn(const bfdev_hlist_node_t *a, void *pd) { return vf_mix64(E(a)->k); }
static long eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pd) { return lcmp(&E(a)->k, &E(b)->k); }
static long fd(const bfdev_hlist_node_t *a, const void *k, void *pd) { return lcmp(&E(a)->k, k); }
static const bfdev_hashmap_ops_t ops = { hk, hn, eq, fd, NULL, NULL };
static void check(bfdev_hashmap_t *h, el_t *e, size_t n, size_t live)
{
    size_t c = 0; unsigned long idx; bfdev_hlist_node_t *p; for (size_t i = 0; i < n; i++) e[i].seen = 0;
    bfdev_hashmap_for_each(p, h, idx) { VF_CHECK(E(p)->in && !E(p)->seen, "walk", "a member came twice or is none"); E(p)->seen = 1; c++; } VF_EQ(c, live, "walk"); vf_obs(live);
    for (size_t i = 0; i < n; i++) { p = bfdev_hashmap_find(h, &e[i].k); VF_PEQ(p, e[i].in ? &e[i].n : NULL, "find"); }
}
static void scn(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = many() + 70000, live = 0; long *k = vf_xmalloc(n * sizeof *k); el_t *e = vf_xcalloc(n * sizeof *e); keys(k, n, false); bfdev_hashmap_t h; bfdev_hashmap_init(&h, &al, &ops, NULL);
    for (size_t i = 0; i < n; i++) { e[i].k = k[i]; VF_EQ(bfdev_hashmap_add(&h, &e[i].n), 0, "add"); e[i].in = true; live++; } check(&h, e, n, live);
    int how = vf_below(3); for (size_t i = 0; i < n; i++) if (how == 0 ? i < n / 2 : how == 1 ? vf_chance(1, 2) : i % 1000 != 0) { bfdev_hlist_node_t *o; VF_EQ(bfdev_hashmap_del(&h, &e[i].k, &o), 0, "del"); VF_PEQ(o, &e[i].n, "del"); e[i].in = false; live--; } check(&h, e, n, live);
    for (size_t i = 0; i < n; i++) if (!e[i].in) { VF_EQ(bfdev_hashmap_add(&h, &e[i].n), 0, "add"); e[i].in = true; live++; } check(&h, e, n, live);
    bfdev_hashmap_release(&h); vfa_done(&A, "leak"); free(k); free(e); VF_EV("many.hashmap");
}
#endif
#ifdef MANY_SKIPLIST
#include <bfdev/skiplist.h>
typedef struct { long k; bool in; } el_t;
static long cmp(const void *a, const void *b, void *pd) { return lcmp(a, b); }
static long find(const void *a, void *pd) { return lcmp(a, pd); }
static size_t gone; static void rel(void *k, void *pd) { VF_CHECK(((el_t *)k)->in, "release", "an absent member"); ((el_t *)k)->in = false; gone++; }
static void check(bfdev_skip_head_t *h, size_t live) { size_t c = 0; bfdev_skip_node_t *p; el_t *q = NULL; bfdev_list_for_each_entry(p, h->nodes, list[0]) { el_t *x = p->key; VF_CHECK(x->in && (!q || q->k <= x->k), "order", "member %zu of %zu is out of order", c, live); q = x; c++; } VF_EQ(c, live, "members"); vf_obs(live); }
static void scn(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = many(), live = 0; long *k = vf_xmalloc(n * sizeof *k); el_t *e = vf_xcalloc(n * sizeof *e); srand(vf_rand()); keys(k, n, false); bfdev_skip_head_t *h = bfdev_skiplist_create(&al, 12 + vf_below(12)); VF_CHECK(h, "create", "no list");
    for (size_t i = 0; i < n; i++) { e[i].k = k[i]; VF_EQ(bfdev_skiplist_insert(h, &e[i], cmp, NULL), 0, "insert"); e[i].in = true; live++; } check(h, live);
    for (size_t i = 0; i < n; i++) if (vf_chance(1, 2)) { bfdev_skiplist_delete(h, find, &e[i].k); e[i].in = false; live--; } check(h, live);
    for (int q = 0; q < 300; q++) { size_t i = vf_below(n); bfdev_skip_node_t *x = bfdev_skiplist_find(h, find, &e[i].k); VF_CHECK(e[i].in ? x && x->key == &e[i] : !x, "find", "member %zu", i); }
    gone = 0; bfdev_skiplist_destroy(h, rel, NULL); VF_EQ(gone, live, "release"); vfa_done(&A, "leak"); free(k); free(e); VF_EV("many.skiplist");
}
#endif
#ifdef MANY_CACHE
#include <bfdev/cache.h>
static unsigned long c_hash(const void *t, void *pd) { return vf_mix64((uintptr_t)t); }
static long c_find(const void *n, const void *t, void *pd) { return n != t; }
static const bfdev_cache_ops_t cops = { c_hash, c_find };
static void scn(void)
{   /* 131072 elements; the least recently used one goes first */
    size_t n = 65537 + vf_below(65536), cap = 131072, extra = 20 + vf_below(70000); bool lru = vf_chance(2, 3); vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); bfdev_cache_head_t *h = bfdev_cache_create(lru ? "lru" : "lfu", &al, &cops, n, cap, NULL); VF_CHECK(h, "create", "no cache"); VF_EQ(h->size, cap, "size");
    vf_op("%s cache of %zu, %zu more", lru ? "lru" : "lfu", cap, extra);
    for (uintptr_t l = 1; l <= cap; l++) { bfdev_cache_node_t *c = bfdev_cache_get(h, (void *)l); VF_CHECK(c && c->status == BFDEV_CACHE_PENDING, "fill", "no room for element %zu", (size_t)l); c->data = (void *)l; bfdev_cache_committed(h); VF_EQ(bfdev_cache_put(h, c), 0, "put"); }
    for (uintptr_t l = 1; l <= cap; l++) { bfdev_cache_node_t *c = bfdev_cache_find(h, (void *)l); VF_CHECK(c && c->data == (void *)l, "kept", "element %zu of %zu is gone", (size_t)l, cap); }
    for (uintptr_t l = cap + 1; l <= cap + extra; l++) { bfdev_cache_node_t *c = bfdev_cache_get(h, (void *)l); VF_CHECK(c && c->status == BFDEV_CACHE_PENDING, "replace", "refused"); c->data = (void *)l; bfdev_cache_committed(h); bfdev_cache_put(h, c); }
    if (lru) for (uintptr_t l = 1; l <= cap + extra; l++) { bfdev_cache_node_t *c = bfdev_cache_find(h, (void *)l); VF_CHECK(!c == (l <= extra), "replaced", "element %zu of %zu with %zu more is %s", (size_t)l, cap, extra, c ? "kept" : "gone"); }
    else { size_t c = 0; for (uintptr_t l = 1; l <= cap + extra; l++) c += !!bfdev_cache_find(h, (void *)l); VF_EQ(c, cap, "replaced"); }
    vf_obs(extra); bfdev_cache_destroy(h); vfa_done(&A, "leak"); VF_EV("many.cache");
}
#endif
#ifdef MANY_MEMALLOC
#include <bfdev/memalloc.h>
static void scn(void)
{
    static const bfdev_memalloc_find_t F[3] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit }; enum { NB = 200 }; struct { unsigned char *p; size_t n; uint64_t tag; } b[NB] = { 0 };
    size_t size = ((size_t)4 << 20) + vf_below(1 << 20); unsigned char *pool = vf_xmalloc(size); bfdev_memalloc_head_t h; int f = vf_below(3); bfdev_memalloc_init(&h, F[f], pool, size); size_t whole, ok = 0, no = 0; vf_op("pool of %zu, fit %d", size, f);
    void *all; for (whole = size; !(all = bfdev_memalloc_alloc(&h, whole)); whole--) VF_CHECK(size - whole < 4096, "whole", "the empty pool does not serve %zu of %zu bytes", whole, size); bfdev_memalloc_free(&h, all);
    for (int op = 0; op < 1500; op++) {
        int i = vf_below(NB);
#define TAGGED(x) (((uint64_t *)(x).p)[0] == (x).tag && !memcmp((x).p + (x).n - 8, &(x).tag, 8))
        if (b[i].p) VF_CHECK(TAGGED(b[i]), "content", "block of %zu changed", b[i].n);
        if (!b[i].p || vf_chance(1, 3)) {
            size_t n = vf_chance(1, 3) ? 65536 + vf_below(9) - 4 : vf_chance(1, 3) ? 65536 + vf_below(300000) : 16 + vf_below(3000); unsigned char *p; uint64_t tag = vf_rand(); bool re = b[i].p != NULL;
            vf_op("%s %zu", re ? "resize" : "alloc", n); p = re ? bfdev_memalloc_realloc(&h, b[i].p, n) : bfdev_memalloc_alloc(&h, n); if (!p) { no++; continue; } ok++;
            VF_CHECK(p >= pool && p + n <= pool + size && !((uintptr_t)p % sizeof(long)), "place", "block outside the pool or out of step"); if (re) VF_CHECK(((uint64_t *)p)[0] == b[i].tag, "kept", "contents lost on resizing");
            for (int j = 0; j < NB; j++) if (j != i && b[j].p) VF_CHECK(p + n <= b[j].p || b[j].p + b[j].n <= p, "overlap", "%zu bytes overlap another block of %zu", n, b[j].n);
            b[i].p = p; b[i].n = n; b[i].tag = tag; memcpy(p, &tag, 8); memcpy(p + n - 8, &tag, 8);
        } else { vf_op("free %zu", b[i].n); bfdev_memalloc_free(&h, b[i].p); b[i].p = NULL; }
    }
    for (int i = 0; i < NB; i++) if (b[i].p) { VF_CHECK(TAGGED(b[i]), "content", "block of %zu changed", b[i].n); bfdev_memalloc_free(&h, b[i].p); }
    VF_CHECK(bfdev_memalloc_alloc(&h, whole), "coalesced", "the emptied pool does not serve %zu bytes as before", whole); vf_obs(ok); vf_obs(no); free(pool); VF_EV("many.memalloc");
}
#endif
#ifdef MANY_MATRIX
#include <bfdev/matrix.h>
#include <bfdev/levenshtein.h>
typedef BFDEV_MATRIX_TYPE E_t;
static void scn(void)
{
    unsigned n = many(), c = 1 + vf_below(3), fold = vf_chance(1, 2); bfdev_matrix_t a, b, x; E_t *v = vf_xmalloc(n * c * sizeof *v), *w = vf_xmalloc(n * c * sizeof *w), s; bfdev_matrix_init(&a, NULL); bfdev_matrix_init(&b, NULL); bfdev_matrix_init(&x, NULL); vf_op("matrices of %u by %u", n, c);
    for (unsigned i = 0; i < n * c; i++) v[i] = vf_rand(), w[i] = vf_rand();
    VF_EQ(bfdev_matrix_import(&a, v, n, c), 0, "import"); VF_EQ(bfdev_matrix_import(&b, w, n, c), 0, "import");
#define AT(m, i, j) (*(const E_t *)bfdev_matrix_data(&(m), i, j))
    VF_EQ(bfdev_matrix_add(&x, &a, &b), 0, "add"); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < c; j++) VF_CHECK(AT(x, i, j) == v[i * c + j] + w[i * c + j], "add", "element %u,%u", i, j);
    VF_CHECK(!bfdev_matrix_data(&x, n, 0) && !bfdev_matrix_data(&x, 0, c), "data-range", "an element outside was handed out");
    VF_EQ(bfdev_matrix_trans(fold ? &b : &x, &b), 0, "trans"); if (!fold) VF_EQ(bfdev_matrix_set(&b, &x), 0, "set"); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < c; j++) VF_CHECK(AT(b, j, i) == w[i * c + j], "trans", "element %u,%u", j, i);
    VF_EQ(bfdev_matrix_mul(&x, &b, &a), 0, "mul"); VF_EQ(x.row, c, "rows"); VF_EQ(x.col, c, "columns"); for (unsigned i = 0; i < c; i++) for (unsigned j = 0; j < c; j++) { s = 0; for (unsigned l = 0; l < n; l++) s += w[l * c + i] * v[l * c + j]; VF_CHECK(AT(x, i, j) == s, "mul", "element %u,%u", i, j); }
    bfdev_matrix_release(&a); bfdev_matrix_release(&b); bfdev_matrix_release(&x); free(v); free(w);
    /* distance of a long text and a short one, by the column-wise recurrence on widened values */
    { unsigned l1 = many(), l2 = 1 + vf_below(5), S = 1 + vf_below(4), W = 1 + vf_below(4), A = 1 + vf_below(4), D = 1 + vf_below(4), got; char *p = vf_xmalloc(l1 + 1), *q = vf_xmalloc(l2 + 1); bool swap = vf_chance(1, 2); for (unsigned i = 0; i < l1; i++) p[i] = 'a' + vf_below(3); for (unsigned i = 0; i < l2; i++) q[i] = 'a' + vf_below(3); p[l1] = q[l2] = 0; if (swap) { char *t = p; p = q; q = t; unsigned u = l1; l1 = l2; l2 = u; }
      uint64_t *d[3]; for (int i = 0; i < 3; i++) d[i] = vf_xmalloc((l2 + 1) * 8);
      for (unsigned j = 0; j <= l2; j++) d[1][j] = (uint64_t)j * A;
      for (unsigned i = 1; i <= l1; i++) { d[2][0] = (uint64_t)i * D; for (unsigned j = 1; j <= l2; j++) { uint64_t m = d[1][j - 1] + (p[i - 1] != q[j - 1] ? S : 0), t; if (i > 1 && j > 1 && p[i - 1] == q[j - 2] && p[i - 2] == q[j - 1] && (t = d[0][j - 2] + W) < m) m = t; if ((t = d[2][j - 1] + A) < m) m = t; if ((t = d[1][j] + D) < m) m = t; d[2][j] = m; } uint64_t *t = d[0]; d[0] = d[1]; d[1] = d[2]; d[2] = t; }
      got = bfdev_levenshtein(NULL, p, q, S, W, A, D); vf_op("distance of %u and %u", l1, l2); VF_EQ(got, d[1][l2], "levenshtein"); vf_obs(got); for (int i = 0; i < 3; i++) free(d[i]); free(p); free(q); }
    VF_EV("many.matrix");
}
#endif
#ifdef MANY_FSM
#include <bfdev/fsm.h>
static bfdev_fsm_state_t S[2]; static bfdev_fsm_transition_t T[2][2];
static void scn(void)
{   /* deep nesting: every push is popped again, in reverse order */
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = many(), i; bfdev_fsm_t f; unsigned char *was = vf_xmalloc(n); memset(S, 0, sizeof S); memset(T, 0, sizeof T); vf_op("%zu nested", n);
    for (int s = 0; s < 2; s++) { T[s][0] = (bfdev_fsm_transition_t){ .type = 1, .next = &S[!s], .stack = 1 }; T[s][1] = (bfdev_fsm_transition_t){ .type = 2, .stack = -1 }; S[s].trans = T[s]; S[s].tnum = 2; }
    bfdev_fsm_init(&f, &al, &S[0], NULL); bfdev_fsm_event_t in = { .type = 1 }, out = { .type = 2 };
    for (i = 0; i < n; i++) { was[i] = bfdev_fsm_curr(&f) - S; VF_EQ(bfdev_fsm_handle(&f, &in), BFDEV_FSM_CHANGED, "push"); }
    while (i--) { VF_EQ(bfdev_fsm_handle(&f, &out), BFDEV_FSM_CHANGED, "pop"); VF_PEQ(bfdev_fsm_curr(&f), &S[was[i]], "pop"); }
    VF_CHECK(bfdev_fsm_handle(&f, &out) < 0, "pop-empty", "popped from an empty stack"); vf_obs(n); free(was);
    bfdev_fsm_reset(&f, &S[0]); bfdev_array_release(&f.stack); vfa_done(&A, "leak"); VF_EV("many.fsm");
}
#endif
#ifdef MANY_RESPOOL
#include <bfdev/respool.h>
typedef struct { bfdev_respool_node_t n; size_t id; } el_t; static size_t next, left;
static void rel(bfdev_respool_node_t *n, void *pd) { VF_CHECK(((el_t *)n)->id == --next, "release-order", "resource %zu released in place of %zu", ((el_t *)n)->id, next); left--; }
static void scn(void)
{
    size_t n = many(); el_t *e = vf_xcalloc(n * sizeof *e); bfdev_respool_t p; bfdev_respool_init(&p); for (size_t i = 0; i < n; i++) { e[i].id = i; e[i].n.release = rel; bfdev_respool_insert(&p, &e[i].n); }
    next = left = n; bfdev_respool_release_all(&p, NULL); VF_EQ(left, 0, "release-all"); VF_CHECK(bfdev_respool_check_empty(&p), "empty", "resources left"); free(e); vf_obs(n); VF_EV("many.respool");
}
#endif
#ifdef MANY_MPI
#include <bfdev/mpi.h>
typedef BFDEV_MPI_TYPE W;
static void eqv(const bfdev_mpi_t *x, const W *w, size_t n, const char *key) { bool sg; const W *d = bfdev_mpi_data(x, &sg); while (n && !w[n - 1]) n--; VF_CHECK((n ? x->value.index == n : x->value.index <= 1) && !memcmp(d, w, n * sizeof *w), key, "result of %zu words differs", n); }
static void scn(void)
{   /* numbers of four million bits and more */
    size_t n = many(), m = vf_chance(1, 2) ? many() : 1 + vf_below(3), hi = n > m ? n : m; W *a = vf_xmalloc(n * 8), *b = vf_xmalloc(m * 8), *r = vf_xcalloc((hi + 70002) * 8), k = vf_rand() | 1, sh = vf_below(64 * 70000); bfdev_mpi_t x, y, z; bfdev_mpi_init(&x, NULL); bfdev_mpi_init(&y, NULL); bfdev_mpi_init(&z, NULL); int st = vf_below(3);
    for (size_t i = 0; i < n; i++) a[i] = st == 0 ? ~0UL : vf_rand(); for (size_t i = 0; i < m; i++) b[i] = st == 1 ? ~0UL : vf_rand(); a[n - 1] |= 1; b[m - 1] |= 1; vf_op("%zu and %zu words, shift %lu", n, m, sh);
    VF_EQ(bfdev_mpi_import(&x, a, n, true), 0, "import"); VF_EQ(bfdev_mpi_import(&y, b, m, true), 0, "import"); eqv(&x, a, n, "import");
    { W c = 0; for (size_t i = 0; i < hi; i++) { unsigned __int128 t = (unsigned __int128)(i < n ? a[i] : 0) + (i < m ? b[i] : 0) + c; r[i] = t; c = t >> 64; } r[hi] = c; }
    VF_EQ(bfdev_mpi_add(&z, &x, &y), 0, "add"); eqv(&z, r, hi + 1, "add"); VF_EQ(bfdev_mpi_sub(&z, &z, &y), 0, "sub"); eqv(&z, a, n, "sub"); VF_EQ(bfdev_mpi_cmp(&z, &x), 0, "cmp");
    { W c = 0; for (size_t i = 0; i < n; i++) { unsigned __int128 t = (unsigned __int128)a[i] * k + c; r[i] = t; c = t >> 64; } r[n] = c; }
    VF_EQ(bfdev_mpi_muli(&z, &x, k), 0, "muli"); eqv(&z, r, n + 1, "muli"); VF_EQ(bfdev_mpi_divi(&z, &y, &z, k), 0, "divi"); eqv(&z, a, n, "divi"); { W zero = 0; eqv(&y, &zero, 1, "divi-rem"); }
    memset(r, 0, (hi + 70002) * 8); for (size_t i = 0; i < n; i++) { r[i + sh / 64] |= a[i] << sh % 64; if (sh % 64) r[i + sh / 64 + 1] |= a[i] >> (64 - sh % 64); }
    VF_EQ(bfdev_mpi_shli(&z, &x, sh), 0, "shli"); eqv(&z, r, n + sh / 64 + 1, "shli"); VF_EQ(bfdev_mpi_shri(&z, &z, sh), 0, "shri"); eqv(&z, a, n, "shri");
    { W bit = 64 * n + vf_below(64 * 100); bool sg; VF_EQ(bfdev_mpi_bseti(&z, bit), 0, "bseti"); const W *d = bfdev_mpi_data(&z, &sg); VF_CHECK(z.value.index == bit / 64 + 1 && d[bit / 64] == 1UL << bit % 64 && !memcmp(d, a, n * 8), "bseti", "bit %lu", bit); VF_EQ(bfdev_mpi_bclri(&z, bit), 0, "bclri"); eqv(&z, a, n, "bclri"); }
    bfdev_mpi_release(&x); bfdev_mpi_release(&y); bfdev_mpi_release(&z); free(a); free(b); free(r); vf_obs(n); vf_obs(m); VF_EV("many.mpi");
}
#endif
VF_SCENARIOS({ "many", scn, 1 });
