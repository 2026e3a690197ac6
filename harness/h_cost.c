/* C46: work and storage stay within the classical bounds, whatever the input. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/list.h>
#include <bfdev/rbtree.h>
#include <bfdev/segtree.h>
#include <bfdev/heap.h>
#include <bfdev/btree.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
#include <bfdev/radix.h>
#include <bfdev/array.h>
#include <bfdev/cache.h>
#include <bfdev/textsearch.h>

static unsigned long work;
static unsigned lg(unsigned long n) { unsigned l = 0; while (n >>= 1) l++; return l + 1; }     /* ceil(log2(n + 1)) */
static void within(unsigned long got, unsigned long bound, const char *key, unsigned long n) { VF_CHECK(got <= bound, key, "%lu steps for %lu members, bound %lu", got, n, bound); }
/* keys arriving in every kind of order, some built to hurt */
static void order(long *k, size_t n)
{
    int pat = vf_below(9); long span = 1 + vf_below(vf_chance(1, 2) ? 4 : n * 4);
    for (size_t i = 0; i < n; i++) switch (pat) {
        case 0: k[i] = i; break;
        case 1: k[i] = n - i; break;
        case 2: k[i] = 7; break;
        case 3: k[i] = i < n / 2 ? i : n - i; break;
        case 4: k[i] = i & 1 ? (long)(n - i) : (long)i; break;
        case 5: k[i] = vf_below(span); break;
        case 6: k[i] = (i * 7919) % n; break;
        case 7: k[i] = i % (1 + span % 50); break;
        default: k[i] = (long)(vf_rand() >> 2);
    }
    if (vf_chance(1, 4)) for (int j = 0; j < 3; j++) k[vf_below(n)] = vf_below(n);
    vf_op("%zu keys, order %d", n, pat);
}
static size_t some(void) { return vf_chance(1, 4) ? 2 + vf_below(60) : 500 + vf_below(vf_deep ? 60000 : 6000); }
static long o3(long a, long b) { work++; return a < b ? -1 : a > b; }

static long s_cmp(const void *a, const void *b, void *pd) { return o3(*(const long *)a, *(const long *)b); }
static long s_find(const void *a, void *pd) { return o3(*(const long *)a, *(long *)pd); }
static void scn_sort(void)
{
    size_t n = some(), cells = 8 * (1 + vf_below(4)); long *k = vf_xmalloc(n * sizeof *k); unsigned char *a = vf_xcalloc(n * cells); order(k, n);
    for (size_t i = 0; i < n; i++) memcpy(a + i * cells, &k[i], sizeof *k);
    work = 0; VF_EQ(bfdev_sort(a, n, cells, s_cmp, NULL), 0, "sort"); within(work, 3 * n * (lg(n) + 1), "sort", n); vf_obs(work); VF_EV("cost.sort");
    for (int q = 0; q < 50; q++) { long v = vf_chance(1, 2) ? k[vf_below(n)] : (long)vf_rand(); work = 0; bfdev_bsearch(a, n, cells, s_find, &v); within(work, 2 * lg(n) + 2, "bsearch", n); vf_obs(work); VF_EV("cost.bsearch"); }
    free(k); free(a);
}
typedef struct { long k; bfdev_list_head_t l; bfdev_rb_node_t rb; bfdev_heap_node_t h; bfdev_hlist_node_t n; bool in; } el_t;
#define OF(p, m) bfdev_container_of(p, el_t, m)
static long l_cmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pd) { return o3(OF(a, l)->k, OF(b, l)->k); }
static el_t *make(size_t *n) { long *k; el_t *e; *n = some(); k = vf_xmalloc(*n * sizeof *k); e = vf_xcalloc(*n * sizeof *e); order(k, *n); for (size_t i = 0; i < *n; i++) e[i].k = k[i]; free(k); return e; }
static void scn_listsort(void)
{
    size_t n; el_t *e = make(&n); BFDEV_LIST_HEAD(head); for (size_t i = 0; i < n; i++) bfdev_list_add_prev(&head, &e[i].l);
    work = 0; bfdev_list_sort(&head, l_cmp, NULL); within(work, 2 * n * (lg(n) + 1), "list-sort", n); vf_obs(work); VF_EV("cost.list_sort"); free(e);
}
static long r_cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd) { return o3(OF(a, rb)->k, OF(b, rb)->k); }
static long r_find(const bfdev_rb_node_t *a, const void *key) { return o3(OF(a, rb)->k, *(const long *)key); }
static void scn_rbtree(void)
{
    size_t n, live = 0, was; el_t *e = make(&n); bfdev_rb_root_t root; bfdev_rb_root_cached_t c; bool cached = vf_chance(1, 2); int rounds = 1 + vf_below(3); bfdev_rb_init(&root); bfdev_rb_cache_init(&c);
    for (int r = 0; r < rounds; r++) {
        for (size_t i = 0; i < n; i++) { if (e[i].in) continue; work = 0; if (cached) bfdev_rb_cached_insert(&c, &e[i].rb, r_cmp, NULL); else bfdev_rb_insert(&root, &e[i].rb, r_cmp, NULL); e[i].in = true; live++; within(work, 2 * lg(live) + 3, "rb-insert", live); VF_EV("cost.rb_insert"); vf_obs(work); }
        for (int q = 0; q < 60; q++) { long v = vf_chance(1, 2) ? e[vf_below(n)].k : (long)vf_below(n * 2); work = 0; bfdev_rb_find(cached ? &c.root : &root, &v, r_find); within(work, 2 * lg(live) + 3, "rb-find", live); VF_EV("cost.rb_find"); vf_obs(work); }
        /* thin it out: one end, everywhere, or all but a few */
        was = live; for (size_t i = 0, how = vf_below(3), keep = vf_below(4); i < n; i++) if (how == 0 ? i < n / 2 : how == 1 ? vf_chance(2, 3) : i % 997 != keep) { work = 0; if (cached) bfdev_rb_cached_delete(&c, &e[i].rb); else bfdev_rb_delete(&root, &e[i].rb); e[i].in = false; live--; within(work, 0, "rb-delete", live); }
        for (int q = 0; q < 60 && live; q++) { long v = e[vf_below(n)].k; work = 0; bfdev_rb_find(cached ? &c.root : &root, &v, r_find); within(work, 2 * lg(live) + 3, "rb-find-after-delete", live); vf_obs(work); VF_EVN("cost.rb_thinned", was != live); }
    }
    free(e);
}
static long h_cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd) { return o3(OF(a, h)->k, OF(b, h)->k); }
static void scn_heap(void)
{
    size_t n, live = 0; el_t *e = make(&n); bfdev_heap_root_t root; bfdev_heap_init(&root);
    for (size_t i = 0; i < n; i++) { work = 0; bfdev_heap_insert(&root, &e[i].h, h_cmp, NULL); live++; e[i].in = true; within(work, 2 * lg(live) + 4, "heap-insert", live); VF_EV("cost.heap_insert"); vf_obs(work); }
    while (live) { el_t *x = vf_chance(1, 2) ? OF(BFDEV_HEAP_ROOT_NODE(&root), h) : &e[vf_below(n)]; if (!x->in) x = OF(BFDEV_HEAP_ROOT_NODE(&root), h); work = 0; bfdev_heap_delete(&root, &x->h, h_cmp, NULL); x->in = false; within(work, 4 * lg(live) + 6, "heap-delete", live); live--; VF_EV("cost.heap_delete"); vf_obs(work); }
    free(e);
}
static long b_find(bfdev_btree_root_t *r, uintptr_t *a, uintptr_t *b) { work++; return bfdev_btree_key_find(r, a, b); }
static const bfdev_btree_ops_t bops = { bfdev_btree_alloc, bfdev_btree_free, b_find, NULL, NULL };
static void scn_btree(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n, live = 0; el_t *e = make(&n); bfdev_btree_root_t r; unsigned kn = bfdev_btree_layoutptr.keynum; bfdev_btree_init(&r, &bfdev_btree_layoutptr, (bfdev_btree_ops_t *)&bops, NULL); r.alloc = &al;
    for (size_t i = 0; i < n; i++) { uintptr_t k = e[i].k; int ret; work = 0; ret = bfdev_btree_insert(&r, &k, &e[i]); if (ret == -BFDEV_EALREADY || ret == -BFDEV_EEXIST) continue; VF_EQ(ret, 0, "btree-insert"); e[i].in = true; live++; within(work, (kn + 2) * 3 * (lg(live) + 3), "btree-insert", live); VF_CHECK(A.live <= 4 * live / kn + lg(live) + 2, "btree-nodes", "%zu nodes for %zu values", A.live, live); VF_EV("cost.btree_insert"); vf_obs(work); }
    for (int round = 0; round < 2; round++) {
        for (int q = 0; q < 60; q++) { uintptr_t k = vf_chance(1, 2) ? e[vf_below(n)].k : (long)vf_below(n * 2); work = 0; bfdev_btree_lookup(&r, &k); within(work, (kn + 2) * (lg(live) + 3), "btree-lookup", live); VF_EV("cost.btree_lookup"); vf_obs(work); }
        for (size_t i = 0, how = vf_below(3); i < n; i++) if (e[i].in && (how == 0 ? i < n / 2 : how == 1 ? vf_chance(2, 3) : i % 97 != 0)) { uintptr_t k = e[i].k; work = 0; VF_PEQ(bfdev_btree_remove(&r, &k), &e[i], "btree-remove"); e[i].in = false; within(work, (kn + 2) * 3 * (lg(live) + 3), "btree-remove", live); live--; VF_CHECK(A.live <= 4 * live / kn + lg(live) + 2, "btree-nodes", "%zu nodes for %zu values", A.live, live); VF_EV("cost.btree_remove"); vf_obs(work); }
    }
    bfdev_btree_release(&r, NULL, NULL); vfa_done(&A, "leak"); free(e);
}
static unsigned long rehashed; static unsigned hstyle;
static unsigned long hv(long k) { switch (hstyle) { case 0: return k; case 1: return vf_mix64(k); default: return (unsigned long)k * 3; } }
static unsigned long m_key(const void *k, void *pd) { return hv(*(const long *)k); }
static unsigned long m_node(const bfdev_hlist_node_t *a, void *pd) { rehashed++; return hv(OF(a, n)->k); }
static long m_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pd) { return o3(OF(a, n)->k, OF(b, n)->k); }
static long m_find(const bfdev_hlist_node_t *a, const void *k, void *pd) { return o3(OF(a, n)->k, *(const long *)k); }
static const bfdev_hashmap_ops_t mops = { m_key, m_node, m_eq, m_find, NULL, NULL };
/* one member comes and goes where the number of buckets has just changed */
static size_t hover(bfdev_hashmap_t *h, el_t *x, size_t live)
{
    unsigned long before = rehashed; bool in = x->in; if (live < 64) return 0;
    for (int i = 0; i < 60; i++) { if (in) VF_EQ(bfdev_hashmap_del(h, &x->k, NULL), 0, "hashmap-del"); else VF_EQ(bfdev_hashmap_add(h, &x->n), 0, "hashmap-add"); in = !in; }
    within(rehashed - before, 12 * 60 + 4 * live, "hashmap-hover", live); VF_EV("cost.hashmap_hover"); return 60;
}
static void scn_hashmap(void)
{
    size_t held = 0;
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n, live = 0, ops = 0; el_t *e = make(&n); bfdev_hashmap_t h; long base = vf_rand() >> 8; bfdev_hashmap_init(&h, &al, &mops, NULL); rehashed = 0; hstyle = vf_below(3);
    for (size_t i = 0; i < n; i++) e[i].k = base + (hstyle == 1 ? (long)(vf_mix64(i + base) >> 4) : (long)i);
    for (int round = 0; round < 2; round++) {
        for (size_t i = 0; i < n; i++) if (!e[i].in) { VF_EQ(bfdev_hashmap_add(&h, &e[i].n), 0, "hashmap-add"); e[i].in = true; live++; ops++; VF_CHECK(A.bytes <= 64 * (4 * live + 32) , "hashmap-room", "%zu bytes for %zu members", A.bytes, live); VF_EV("cost.hashmap_add"); if (A.bytes != held) { ops += hover(&h, e + i, live); held = A.bytes; } }
        work = 0; for (size_t i = 0; i < n; i++) VF_PEQ(bfdev_hashmap_find(&h, &e[i].k), &e[i].n, "hashmap-find"); within(work, 3 * n + 100, "hashmap-find", n); VF_EVN("cost.hashmap_find", n); vf_obs(work);
        for (size_t i = 0, how = vf_below(3); i < n; i++) if (how == 0 ? i < n / 2 : how == 1 ? vf_chance(2, 3) : i % 97 != 0) { VF_EQ(bfdev_hashmap_del(&h, &e[i].k, NULL), 0, "hashmap-del"); e[i].in = false; live--; ops++; VF_CHECK(A.bytes <= 64 * (4 * live + 32), "hashmap-returned", "%zu bytes still held for %zu members", A.bytes, live); VF_EV("cost.hashmap_del"); if (A.bytes != held) { ops += hover(&h, e + i, live); held = A.bytes; } }
        within(rehashed, 12 * ops + 100, "hashmap-rehash", ops); vf_obs(rehashed);
        work = 0; size_t c = 0; for (size_t i = 0; i < n; i++) if (e[i].in) { VF_PEQ(bfdev_hashmap_find(&h, &e[i].k), &e[i].n, "hashmap-find"); c++; } within(work, 3 * c + 100, "hashmap-find-after-delete", c);
    }
    bfdev_hashmap_release(&h); vfa_done(&A, "leak"); free(e);
}
static long k_cmp(const void *a, const void *b, void *pd) { return o3(((const el_t *)a)->k, ((const el_t *)b)->k); }
static long k_find(const void *a, void *pd) { return o3(((const el_t *)a)->k, *(long *)pd); }
static void scn_skiplist(void)
{
    size_t n; el_t *e = make(&n); unsigned long tot = 0, q; srand(vf_rand()); for (size_t i = n; i > 1; i--) { size_t j = vf_below(i); long t = e[i - 1].k; e[i - 1].k = e[j].k; e[j].k = t; } if (vf_chance(1, 2)) for (size_t i = 0; i < n; i++) e[i].k = i;
    bfdev_skip_head_t *h = bfdev_skiplist_create(NULL, 16 + vf_below(10)); VF_CHECK(h, "create", "no list");
    work = 0; for (size_t i = 0; i < n; i++) VF_EQ(bfdev_skiplist_insert(h, &e[i], k_cmp, NULL), 0, "skiplist-insert"); tot = work; if (n >= 500) within(tot, n * 10 * (lg(n) + 2), "skiplist-insert", n); VF_EVN("cost.skiplist_insert", n); vf_obs(tot);
    for (tot = 0, q = 0; q < 300; q++) { long v = e[vf_below(n)].k; work = 0; VF_CHECK(bfdev_skiplist_find(h, k_find, &v), "skiplist-find", "member not found"); tot += work; } if (n >= 500) within(tot, 300 * 10 * (lg(n) + 2), "skiplist-find", n); VF_EVN("cost.skiplist_find", q); vf_obs(tot);
    bfdev_skiplist_destroy(h, NULL, NULL); free(e);
}
typedef struct { bfdev_rb_node_t rb; long lo, hi, mx; } sv_t;
static long slo(sv_t *n) { work++; return n->lo; }
static long shi(sv_t *n) { work++; return n->hi; }
BFDEV_SEGTREE_DEFINE(static, cseg, sv_t, rb, long, mx, slo, shi)
static void scn_segtree(void)
{
    size_t n = some(); sv_t *p = vf_xcalloc(n * sizeof *p); BFDEV_RB_ROOT_CACHED(root); int pat = vf_below(4);
    for (size_t i = 0; i < n; i++) {
        p[i].lo = pat == 0 ? (long)i * 4 : pat == 1 ? (long)(n - i) * 4 : (long)vf_below(n * 8); p[i].hi = p[i].lo + vf_below(pat == 3 && vf_chance(1, 300) ? n * 4 : 4);
        work = 0; cseg_insert(&root, &p[i]); within(work, 12 * (lg(i + 1) + 3), "segtree-insert", i + 1); vf_obs(work); VF_EV("cost.segtree_insert");
    }
    for (int q = 0; q < 60; q++) { long s = vf_below(n * 8), t = s + vf_below(vf_chance(1, 4) ? n : 6); unsigned long hits = 0; work = 0; for (sv_t *w = cseg_first(&root, s, t); w; w = cseg_next(w, s, t)) hits++; within(work, 16 * (lg(n) + 3) * (hits + 1), "segtree-query", n); VF_EVN("cost.segtree_hits", hits); vf_obs(work); }
    for (size_t i = 0; i < n; i++) { work = 0; cseg_delete(&root, &p[i]); within(work, 24 * (lg(n - i) + 3), "segtree-delete", n - i); VF_EV("cost.segtree_delete"); }
    free(p);
}
static void scn_radix(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = 1 + vf_below(vf_deep ? 3000 : 400), live = 0; uint64_t *k = vf_xmalloc(n * sizeof *k), stride = 1ULL << vf_below(40); bool *in = vf_xcalloc(n); BFDEV_DEFINE_RADIX(r, uint32_t, &al);
    for (size_t i = 0; i < n; i++) k[i] = vf_chance(1, 2) ? i * stride : vf_rand() >> (2 + vf_below(60));
    for (int round = 0; round < 3; round++) {
        for (size_t i = 0; i < n; i++) if (!in[i] && bfdev_radix_find(&r, k[i]) == NULL) { VF_CHECK(bfdev_radix_alloc(&r, k[i]), "radix-alloc", "refused"); in[i] = true; live++; VF_CHECK(A.live <= (live + 2) * 14, "radix-nodes", "%zu blocks for %zu cells", A.live, live); }
        for (size_t i = 0, how = vf_below(3); i < n; i++) if (in[i] && (how == 0 || (how == 1 ? vf_chance(3, 4) : i % 97 != 0))) { VF_EQ(bfdev_radix_free(&r, k[i]), 0, "radix-free"); in[i] = false; live--; VF_CHECK(A.live <= (live + 2) * 14, "radix-nodes", "%zu blocks still held for %zu cells", A.live, live); VF_EV("cost.radix_free"); }
        vf_obs(A.live); vf_obs(live);
    }
    bfdev_radix_release(&r); vfa_done(&A, "leak"); free(k); free(in);
}
static void scn_array(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = some(), cells = 1 + vf_below(40); bfdev_array_t a; bfdev_array_init(&a, &al, cells);
    for (size_t i = 1; i <= n; i++) { VF_CHECK(bfdev_array_push(&a, 1), "array-push", "refused"); VF_CHECK(A.bytes <= 4 * (i * cells + 32 * cells) + 64, "array-room", "%zu bytes for %zu cells of %zu", A.bytes, i, cells); }
    within(A.calls, 3 * lg(n) + 10, "array-growths", n); vf_obs(A.calls); vf_obs(n); VF_EVN("cost.array_push", n); bfdev_array_release(&a); vfa_done(&A, "leak");
}
static unsigned long c_hash(const void *t, void *pd) { return vf_mix64((uintptr_t)t); }
static long c_find(const void *n, const void *t, void *pd) { work++; return n != t; }
static const bfdev_cache_ops_t cops = { c_hash, c_find };
static void scn_cache(void)
{
    size_t n = 2 + vf_below(vf_deep ? 8000 : 2000), ops = n * 4; bfdev_cache_head_t *h = bfdev_cache_create(vf_chance(1, 2) ? "lru" : "lfu", NULL, &cops, n, n, NULL); VF_CHECK(h, "create", "no cache"); work = 0; srand(1);
    for (size_t i = 0; i < ops; i++) { uintptr_t l = 1 + vf_below(vf_chance(1, 2) ? n : n * 3); bfdev_cache_node_t *c = bfdev_cache_get(h, (void *)l); VF_CHECK(c, "cache-get", "refused"); if (c->status == BFDEV_CACHE_PENDING) { c->data = (void *)l; bfdev_cache_committed(h); } bfdev_cache_put(h, c); }
    within(work, 5 * ops + 200, "cache-lookups", n); vf_obs(work); vf_obs(n); VF_EVN("cost.cache", ops); bfdev_cache_destroy(h);
}
static void scn_kmp(void)
{   /* a quadratic search would need hours */
    unsigned m = 20000 + vf_below(20000), n = 4000000 + vf_below(1000000), got, period = 1 + vf_below(4); char *p = vf_xmalloc(m), *t = vf_xmalloc(n); bfdev_ts_linear_t lin;
    for (unsigned i = 0; i < m; i++) p[i] = 'a' + (i % period); for (unsigned i = 0; i < n; i++) t[i] = 'a' + (i % period); p[m - 1] = 'z'; bool planted = vf_chance(1, 2); unsigned at = vf_below(n - m); at -= at % period; if (planted) t[at + m - 1] = 'z';
    bfdev_ts_context_t *c = bfdev_textsearch_create(NULL, "kmp", p, m, 0); VF_CHECK(c, "create", "no search"); got = bfdev_textsearch_linear(c, &lin, t, n); VF_EQ(got, planted ? at : UINT_MAX, "kmp"); bfdev_textsearch_destroy(c); free(p); free(t); vf_obs(m); vf_obs(n); VF_EV("cost.kmp");
}
VF_SCENARIOS({ "sort", scn_sort, 2 }, { "list_sort", scn_listsort, 1 }, { "rbtree", scn_rbtree, 2 }, { "heap", scn_heap, 2 }, { "btree", scn_btree, 2 }, { "hashmap", scn_hashmap, 2 }, { "skiplist", scn_skiplist, 1 }, { "segtree", scn_segtree, 2 }, { "radix", scn_radix, 2 }, { "array", scn_array, 1 }, { "cache", scn_cache, 1 }, { "kmp", scn_kmp, 1 });
