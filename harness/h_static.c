/* C42: every way of creating an object - defining macro, static initialiser, compound literal,
 * init function on memory holding anything - yields the same empty, working object. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/action.h>
#include <bfdev/allocpool.h>
#include <bfdev/array.h>
#include <bfdev/bitmap.h>
#include <bfdev/btree.h>
#include <bfdev/circle.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/fsm.h>
#include <bfdev/hashmap.h>
#include <bfdev/hashtbl.h>
#include <bfdev/heap.h>
#include <bfdev/hlist.h>
#include <bfdev/slist.h>
#include <bfdev/list.h>
#include <bfdev/ilist.h>
#include <bfdev/llist.h>
#include <bfdev/log.h>
#include <bfdev/matrix.h>
#include <bfdev/mpi.h>
#include <bfdev/notifier.h>
#include <bfdev/prandom.h>
#include <bfdev/radix.h>
#include <bfdev/ratelimit.h>
#include <bfdev/rbtree.h>
#include <bfdev/refcount.h>
#include <bfdev/respool.h>
#include <bfdev/tokenbucket.h>
#include <bfdev/level.h>

static vf_alloc_t A; static bfdev_alloc_t al; static const bfdev_alloc_t *alp;
static uint64_t form_seed;
#define POISON(x) memset(&(x), 0xc3 + (int)vf_below(9), sizeof(x))
/* run USE on the same random choices for every form */
#define USE(name, call) do { vf_state = form_seed; VF_EV("static." name); call; vf_checks_total++; } while (0)
#define FORM() (form_seed = vf_rand())
static void fresh(void) { vfa_init(&A); bfdev_alloc_init(&al, &vfa_ops, &A); alp = vf_chance(3, 4) ? &al : NULL; }
static void done(void) { vfa_done(&A, "leak"); vf_obs(A.calls); }

/* ---- array, big integer, matrix ---- */
static void use_array(bfdev_array_t *a, size_t cells)
{
    unsigned n = 1 + vf_below(40); unsigned char *p;
    VF_EQ(bfdev_array_index(a), 0, "array-count"); VF_CHECK(!bfdev_array_peek(a, 1), "array-empty", "a new array holds something");
    for (unsigned i = 0; i < n; i++) { p = bfdev_array_push(a, 1); VF_CHECK(p, "array-push", "refused"); memset(p, i, cells); }
    VF_EQ(bfdev_array_index(a), n, "array-count");
    for (unsigned i = 0; i < n; i++) { p = bfdev_array_data(a, i); for (size_t k = 0; k < cells; k++) VF_EQ(p[k], i, "array-content"); }
    if (alp) VF_CHECK(A.live, "array-allocator", "memory did not come from the given allocator");
    vf_obs(n * 100 + cells); bfdev_array_release(a);
}
static void scn_array(void)
{
    fresh(); FORM(); size_t cells = 1 + vf_below(20);
    { BFDEV_DEFINE_ARRAY(a, alp, cells); USE("array", use_array(&a, cells)); }
    { bfdev_array_t a = BFDEV_ARRAY_STATIC(alp, cells); USE("array", use_array(&a, cells)); }
    { bfdev_array_t a; POISON(a); a = BFDEV_ARRAY_INIT(alp, cells); USE("array", use_array(&a, cells)); }
    { bfdev_array_t a; POISON(a); bfdev_array_init(&a, alp, cells); USE("array", use_array(&a, cells)); }
    done();
}
static void use_mpi(bfdev_mpi_t *m)
{
    uint64_t x = vf_edge64(), y = vf_edge64() | 1; bool sign;
    BFDEV_DEFINE_MPI(t, alp); if (vf_chance(1, 2)) { VF_EQ(bfdev_mpi_cmpi(m, 0), 0, "mpi-zero"); VF_EV("static.mpi_zero"); }
    VF_EQ(bfdev_mpi_seti(m, x), 0, "mpi-seti"); VF_EQ(bfdev_mpi_seti(&t, y), 0, "mpi-seti"); VF_EQ(bfdev_mpi_mul(m, m, &t), 0, "mpi-mul");
    unsigned __int128 p = (unsigned __int128)x * y; uint64_t w[2] = { 0, 0 }; unsigned long n = bfdev_mpi_length(m); BFDEV_MPI_TYPE *d = bfdev_mpi_data(m, &sign);
    VF_CHECK(n <= 2, "mpi-length", "%lu words", n); for (unsigned long i = 0; i < n; i++) w[i] = d[i];
    VF_CHECK(w[0] == (uint64_t)p && w[1] == (uint64_t)(p >> 64), "mpi-product", "%lx * %lx", x, y);
    VF_EQ(sign, true, "mpi-sign"); vf_obs(w[1]);
    bfdev_mpi_release(m); bfdev_mpi_release(&t);
}
static void scn_mpi(void)
{
    fresh(); FORM();
    { BFDEV_DEFINE_MPI(m, alp); USE("mpi", use_mpi(&m)); }
    { bfdev_mpi_t m = BFDEV_MPI_STATIC(alp); USE("mpi", use_mpi(&m)); }
    { bfdev_mpi_t m; POISON(m); m = BFDEV_MPI_INIT(alp); USE("mpi", use_mpi(&m)); }
    { bfdev_mpi_t m; POISON(m); bfdev_mpi_init(&m, (bfdev_alloc_t *)alp); USE("mpi", use_mpi(&m)); }
    done();
}
static void use_matrix(bfdev_matrix_t *m)
{
    unsigned r = 1 + vf_below(6), c = 1 + vf_below(6); BFDEV_MATRIX_TYPE b[36]; const BFDEV_MATRIX_TYPE *d; VF_PEQ(bfdev_matrix_data(m, 0, 0), NULL, "matrix-empty"); BFDEV_DEFINE_MATRIX(t, alp);
    for (unsigned i = 0; i < r * c; i++) b[i] = (int)vf_below(2000) - 1000;
    VF_EQ(bfdev_matrix_import(m, b, r, c), 0, "matrix-import"); VF_EQ(bfdev_matrix_trans(&t, m), 0, "matrix-trans");
    VF_PEQ(bfdev_matrix_data(&t, c, 0), NULL, "matrix-rows"); VF_PEQ(bfdev_matrix_data(&t, 0, r), NULL, "matrix-cols");
    for (unsigned i = 0; i < c; i++) for (unsigned k = 0; k < r; k++) { d = bfdev_matrix_data(&t, i, k); VF_CHECK(d, "matrix-cell", "none"); VF_EQ(*d, b[k * c + i], "matrix-cell"); }
    vf_obs(r * 10 + c); bfdev_matrix_release(m); bfdev_matrix_release(&t);
}
static void scn_matrix(void)
{
    fresh(); FORM();
    { BFDEV_DEFINE_MATRIX(m, alp); USE("matrix", use_matrix(&m)); }
    { bfdev_matrix_t m = BFDEV_MATRIX_STATIC(alp); USE("matrix", use_matrix(&m)); }
    { bfdev_matrix_t m; POISON(m); m = BFDEV_MATRIX_INIT(alp); USE("matrix", use_matrix(&m)); }
    { bfdev_matrix_t m; POISON(m); bfdev_matrix_init(&m, alp); USE("matrix", use_matrix(&m)); }
    done();
}
/* ---- trees, heaps, maps ---- */
enum { N = 40 };
typedef struct { unsigned long key; bfdev_rb_node_t rb; bfdev_heap_node_t hp; bfdev_hlist_node_t hl; bfdev_list_head_t l; bfdev_slist_head_t s; bfdev_ilist_node_t il; } el_t;
static el_t E[N];
static void els(void) { memset(E, 0x77, sizeof E); for (int i = 0; i < N; i++) E[i].key = i; for (int i = N - 1; i > 0; i--) { int j = vf_below(i + 1); unsigned long t = E[i].key; E[i].key = E[j].key; E[j].key = t; } }
static long rb_cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd) { unsigned long x = bfdev_rb_entry(a, el_t, rb)->key, y = bfdev_rb_entry(b, el_t, rb)->key; return x < y ? -1 : x > y; }
static long hp_cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd) { unsigned long x = bfdev_heap_entry(a, el_t, hp)->key, y = bfdev_heap_entry(b, el_t, hp)->key; return x < y ? -1 : x > y; }
static void use_rb(bfdev_rb_root_t *r)
{
    unsigned n = 1 + vf_below(N), k = 0; unsigned long last = 0; bfdev_rb_node_t *w;
    els(); VF_CHECK(BFDEV_RB_EMPTY_ROOT(r), "rb-empty", "a new tree is not empty"); VF_PEQ(bfdev_rb_first(r), NULL, "rb-first");
    for (unsigned i = 0; i < n; i++) bfdev_rb_insert(r, &E[i].rb, rb_cmp, NULL);
    bfdev_rb_for_each(w, r) { unsigned long v = bfdev_rb_entry(w, el_t, rb)->key; VF_CHECK(!k || v > last, "rb-order", "%lu after %lu", v, last); last = v; k++; }
    VF_EQ(k, n, "rb-count"); vf_obs(n);
}
static void use_rbc(bfdev_rb_root_cached_t *r)
{
    unsigned n = 1 + vf_below(N); unsigned long min = ~0ul;
    els(); VF_CHECK(BFDEV_RB_EMPTY_ROOT_CACHED(r), "rb-empty", "a new tree is not empty"); VF_PEQ(bfdev_rb_cached_first(r), NULL, "rb-leftmost");
    for (unsigned i = 0; i < n; i++) { bfdev_rb_cached_insert(r, &E[i].rb, rb_cmp, NULL); if (E[i].key < min) min = E[i].key; VF_EQ(bfdev_rb_entry(bfdev_rb_cached_first(r), el_t, rb)->key, min, "rb-leftmost"); }
    vf_obs(n);
}
static void use_heap(bfdev_heap_root_t *h)
{
    unsigned n = 1 + vf_below(N); unsigned long last = 0;
    els(); VF_EQ(BFDEV_HEAP_ROOT_COUNT(h), 0, "heap-count"); VF_PEQ(BFDEV_HEAP_ROOT_NODE(h), NULL, "heap-empty"); VF_CHECK(bfdev_heap_empty_root(h), "heap-empty", "a new heap is not empty");
    for (unsigned i = 0; i < n; i++) bfdev_heap_insert(h, &E[i].hp, hp_cmp, NULL);
    VF_EQ(BFDEV_HEAP_ROOT_COUNT(h), n, "heap-count");
    for (unsigned i = 0; i < n; i++) { bfdev_heap_node_t *t = BFDEV_HEAP_ROOT_NODE(h); unsigned long v = bfdev_heap_entry(t, el_t, hp)->key; VF_CHECK(!i || v > last, "heap-order", "%lu after %lu", v, last); last = v; bfdev_heap_delete(h, t, hp_cmp, NULL); }
    VF_PEQ(BFDEV_HEAP_ROOT_NODE(h), NULL, "heap-empty"); vf_obs(n);
}
static void scn_trees(void)
{
    FORM();
    { BFDEV_RB_ROOT(r); USE("rb", use_rb(&r)); }
    { bfdev_rb_root_t r = BFDEV_RB_STATIC(); USE("rb", use_rb(&r)); }
    { bfdev_rb_root_t r; POISON(r); r = BFDEV_RB_INIT(); USE("rb", use_rb(&r)); }
    { bfdev_rb_root_t r; POISON(r); bfdev_rb_init(&r); USE("rb", use_rb(&r)); }
    { BFDEV_RB_ROOT_CACHED(r); USE("rb_cached", use_rbc(&r)); }
    { bfdev_rb_root_cached_t r = BFDEV_RB_CACHED_STATIC(); USE("rb_cached", use_rbc(&r)); }
    { bfdev_rb_root_cached_t r; POISON(r); r = BFDEV_RB_CACHED_INIT(); USE("rb_cached", use_rbc(&r)); }
    { bfdev_rb_root_cached_t r; POISON(r); bfdev_rb_cache_init(&r); USE("rb_cached", use_rbc(&r)); }
    { BFDEV_HEAP_ROOT(h); USE("heap", use_heap(&h)); }
    { bfdev_heap_root_t h = BFDEV_HEAP_STATIC(); USE("heap", use_heap(&h)); }
    { bfdev_heap_root_t h; POISON(h); h = BFDEV_HEAP_INIT(); USE("heap", use_heap(&h)); }
    { bfdev_heap_root_t h; POISON(h); bfdev_heap_init(&h); USE("heap", use_heap(&h)); }
}
static unsigned long seen_pd;
static unsigned long h_key(const void *k, void *pd) { seen_pd += pd == &seen_pd; return *(const unsigned long *)k; }
static unsigned long h_node(const bfdev_hlist_node_t *n, void *pd) { seen_pd += pd == &seen_pd; return bfdev_hlist_entry(n, el_t, hl)->key; }
static long h_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pd) { return bfdev_hlist_entry(a, el_t, hl)->key != bfdev_hlist_entry(b, el_t, hl)->key; }
static long h_find(const bfdev_hlist_node_t *a, const void *k, void *pd) { return bfdev_hlist_entry(a, el_t, hl)->key != *(const unsigned long *)k; }
static const bfdev_hashmap_ops_t hops = { h_key, h_node, h_eq, h_find, NULL, NULL };
static void use_hashmap(bfdev_hashmap_t *h)
{
    unsigned n = 1 + vf_below(N); unsigned long k = 3; els(); seen_pd = 0;
    VF_PEQ(bfdev_hashmap_find(h, &k), NULL, "hashmap-empty");
    for (unsigned i = 0; i < n; i++) { bfdev_hlist_node_init(&E[i].hl); VF_EQ(bfdev_hashmap_add(h, &E[i].hl), 0, "hashmap-add"); }
    for (unsigned i = 0; i < n; i++) { bfdev_hlist_node_t *f = bfdev_hashmap_find(h, &E[i].key); VF_PEQ(f, &E[i].hl, "hashmap-find"); }
    VF_CHECK(seen_pd, "hashmap-pdata", "callbacks did not get the given data");
    if (alp) VF_CHECK(A.live, "hashmap-allocator", "memory did not come from the given allocator");
    vf_obs(n); bfdev_hashmap_release(h);
}
static const bfdev_btree_ops_t bops = { bfdev_btree_alloc, bfdev_btree_free, bfdev_btree_key_find, NULL, NULL };
static void use_btree(bfdev_btree_root_t *r)
{
    unsigned n = 1 + vf_below(N); els(); VF_PEQ(r->pdata, E, "btree-pdata"); r->alloc = alp;
    uintptr_t z[1] = { 5 }; VF_PEQ(bfdev_btree_lookup(r, z), NULL, "btree-empty");
    for (unsigned i = 0; i < n; i++) { uintptr_t k[1] = { E[i].key }; VF_EQ(bfdev_btree_insert(r, k, &E[i]), 0, "btree-insert"); }
    for (unsigned i = 0; i < n; i++) { uintptr_t k[1] = { E[i].key }; VF_PEQ(bfdev_btree_lookup(r, k), &E[i], "btree-lookup"); }
    vf_obs(n); bfdev_btree_release(r, NULL, NULL);
}
static void scn_maps(void)
{
    fresh(); FORM();
    { BFDEV_DEFINE_HASHMAP(h, alp, &hops, &seen_pd); USE("hashmap", use_hashmap(&h)); }
    { bfdev_hashmap_t h = BFDEV_HASHMAP_STATIC(alp, &hops, &seen_pd); USE("hashmap", use_hashmap(&h)); }
    { bfdev_hashmap_t h; POISON(h); h = BFDEV_HASHMAP_INIT(alp, &hops, &seen_pd); USE("hashmap", use_hashmap(&h)); }
    { bfdev_hashmap_t h; POISON(h); bfdev_hashmap_init(&h, alp, &hops, &seen_pd); USE("hashmap", use_hashmap(&h)); }
    { BFDEV_BTREE_ROOT(r, &bfdev_btree_layoutptr, &bops, E); USE("btree", use_btree(&r)); }
    { bfdev_btree_root_t r = BFDEV_BTREE_STATIC(&bfdev_btree_layout64, &bops, E); USE("btree", use_btree(&r)); }
    { bfdev_btree_root_t r; POISON(r); r = BFDEV_BTREE_INIT(&bfdev_btree_layoutptr, &bops, E); USE("btree", use_btree(&r)); }
    { bfdev_btree_root_t r; POISON(r); bfdev_btree_init(&r, &bfdev_btree_layout64, (bfdev_btree_ops_t *)&bops, E); USE("btree", use_btree(&r)); }
    done();
}
#define RADIX_BODY(m, T) do { unsigned n = 1 + vf_below(20); uintptr_t off[20]; T *p; VF_PEQ(bfdev_radix_find(m, 7), NULL, "radix-empty"); \
    for (unsigned i = 0; i < n; i++) { off[i] = (uintptr_t)vf_below(1 << 20) * 20 + i; p = bfdev_radix_alloc(m, off[i]); VF_CHECK(p, "radix-alloc", "refused"); *p = (T)(i + 1); } \
    for (unsigned i = 0; i < n; i++) { p = bfdev_radix_find(m, off[i]); VF_CHECK(p && *p == (T)(i + 1), "radix-find", "cell %lu", (long)off[i]); } if (alp) VF_CHECK(A.live, "radix-allocator", "memory did not come from the given allocator"); \
    vf_obs(off[n - 1]); bfdev_radix_release(m); } while (0)
static void scn_radix(void)
{
    fresh(); FORM();
    { BFDEV_DEFINE_RADIX(m, uint16_t, alp); USE("radix", RADIX_BODY(&m, uint16_t)); }
    { BFDEV_DECLARE_RADIX(m, uint64_t) = BFDEV_RADIX_STATIC(alp); USE("radix", RADIX_BODY(&m, uint64_t)); }
    { BFDEV_DECLARE_RADIX(m, uint8_t); POISON(m); m = (typeof(m))BFDEV_RADIX_INIT(&m, alp); USE("radix", RADIX_BODY(&m, uint8_t)); }
    done();
}
/* ---- lists ---- */
static void use_list(bfdev_list_head_t *h)
{
    unsigned n = vf_below(N), k = 0; bfdev_list_head_t *w; els(); VF_CHECK(bfdev_list_check_empty(h), "list-empty", "a new list is not empty");
    for (unsigned i = 0; i < n; i++) bfdev_list_add_prev(h, &E[i].l);
    bfdev_list_for_each(w, h) { VF_PEQ(w, &E[k].l, "list-order"); k++; } VF_EQ(k, n, "list-count"); vf_obs(n);
}
static void use_slist(bfdev_slist_head_t *h)
{
    unsigned n = vf_below(N), k = n; bfdev_slist_head_t *w; els(); VF_CHECK(bfdev_slist_check_empty(h), "slist-empty", "a new list is not empty");
    for (unsigned i = 0; i < n; i++) bfdev_slist_add(h, &E[i].s);
    bfdev_slist_for_each(w, h) { k--; VF_PEQ(w, &E[k].s, "slist-order"); } VF_EQ(k, 0, "slist-count"); vf_obs(n);
}
static void use_hlist(bfdev_hlist_head_t *h)
{
    unsigned n = vf_below(N), k = n; bfdev_hlist_node_t *w; els(); VF_CHECK(bfdev_hlist_check_empty(h), "hlist-empty", "a new list is not empty");
    for (unsigned i = 0; i < n; i++) { bfdev_hlist_node_init(&E[i].hl); VF_CHECK(bfdev_hlist_check_unhashed(&E[i].hl), "hlist-unhashed", "a new node counts as linked"); bfdev_hlist_head_add(h, &E[i].hl); }
    bfdev_hlist_for_each(w, h) { k--; VF_PEQ(w, &E[k].hl, "hlist-order"); } VF_EQ(k, 0, "hlist-count"); vf_obs(n);
}
static long il_cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pd) { unsigned long x = bfdev_ilist_entry(a, el_t, il)->key / 4, y = bfdev_ilist_entry(b, el_t, il)->key / 4; return x < y ? -1 : x > y; }
static void use_ilist(bfdev_ilist_head_t *h, bool lit)
{
    unsigned n = vf_below(N), k = 0; unsigned long last = 0; el_t *w; els(); VF_CHECK(bfdev_ilist_head_empty(h), "ilist-empty", "a new list is not empty");
    for (unsigned i = 0; i < n; i++) { if (lit) E[i].il = BFDEV_ILIST_NODE_INIT(&E[i].il); else bfdev_ilist_node_init(&E[i].il); VF_CHECK(bfdev_ilist_node_empty(&E[i].il), "ilist-node", "a new node counts as linked"); bfdev_ilist_add(h, &E[i].il, il_cmp, NULL); }
    bfdev_ilist_for_each_entry(w, h, il) { unsigned long v = w->key / 4; VF_CHECK(v >= last, "ilist-order", "%lu after %lu", v, last); last = v; k++; } VF_EQ(k, n, "ilist-count"); vf_obs(n);
}
static void scn_lists(void)
{
    FORM();
    { BFDEV_LIST_HEAD(h); USE("list", use_list(&h)); }
    { bfdev_list_head_t h = BFDEV_LIST_HEAD_STATIC(&h); USE("list", use_list(&h)); }
    { bfdev_list_head_t h; POISON(h); h = BFDEV_LIST_HEAD_INIT(&h); USE("list", use_list(&h)); }
    { bfdev_list_head_t h; POISON(h); bfdev_list_head_init(&h); USE("list", use_list(&h)); }
    { BFDEV_SLIST_HEAD(h); USE("slist", use_slist(&h)); }
    { bfdev_slist_head_t h = BFDEV_SLIST_HEAD_STATIC(); USE("slist", use_slist(&h)); }
    { bfdev_slist_head_t h; POISON(h); h = BFDEV_SLIST_HEAD_INIT(); USE("slist", use_slist(&h)); }
    { bfdev_slist_head_t h; POISON(h); bfdev_slist_head_init(&h); USE("slist", use_slist(&h)); }
    { BFDEV_HLIST_HEAD(h); USE("hlist", use_hlist(&h)); }
    { bfdev_hlist_head_t h = BFDEV_HLIST_HEAD_STATIC(); USE("hlist", use_hlist(&h)); }
    { bfdev_hlist_head_t h; POISON(h); h = BFDEV_HLIST_HEAD_INIT(); USE("hlist", use_hlist(&h)); }
    { bfdev_hlist_head_t h; POISON(h); bfdev_hlist_head_init(&h); USE("hlist", use_hlist(&h)); }
    { BFDEV_ILIST_HEAD(h); USE("ilist", use_ilist(&h, true)); }
    { bfdev_ilist_head_t h = BFDEV_ILIST_HEAD_STATIC(&h); USE("ilist", use_ilist(&h, false)); }
    { bfdev_ilist_head_t h; POISON(h); h = BFDEV_ILIST_HEAD_INIT(&h); USE("ilist", use_ilist(&h, true)); }
    { bfdev_ilist_head_t h; POISON(h); bfdev_ilist_head_init(&h); USE("ilist", use_ilist(&h, false)); }
    { BFDEV_DEFINE_HASHTBL(t, 2); for (int i = 0; i < 2; i++) USE("hashtbl", use_hlist(&t[i])); }
    { BFDEV_DEFINE_HASHTBL(t, 64); for (int i = 0; i < 64; i++) USE("hashtbl", use_hlist(&t[i])); }
    { bfdev_hlist_head_t *t = vf_xmalloc(64 * sizeof *t); memset(t, 0xc3, 64 * sizeof *t); bfdev_hashtbl_init(t, 64); for (int i = 0; i < 64; i++) USE("hashtbl", use_hlist(&t[i])); free(t); }
    { bfdev_hlist_head_t h[3]; POISON(h); bfdev_hashtbl_init(h, 2); USE("hashtbl", use_hlist(&h[0])); USE("hashtbl", use_hlist(&h[1])); }
}
/* ---- queues ---- */
#define PUT_fifo 1   /* accepted */
#define PUT_ringbuf 0   /* nothing was overwritten */
#define QBODY(Q, q, T, SZ, dyn, rec) do { unsigned _n = (SZ); \
    VF_CHECK(bfdev_##Q##_check_empty(q), "queue-empty", "a new " #Q " is not empty"); \
    if (dyn) { VF_EQ(bfdev_##Q##_initialized(q), 0, #Q "-initialized"); VF_EQ(bfdev_##Q##_alloc(q, alp, _n), 0, #Q "-alloc"); } else { VF_EQ(bfdev_##Q##_alloc(q, alp, _n), -BFDEV_EINVAL, #Q "-alloc"); bfdev_##Q##_free(q); } \
    VF_EQ(bfdev_##Q##_size(q), _n, #Q "-size"); VF_EQ(bfdev_##Q##_esize(q), sizeof(T), #Q "-esize"); VF_CHECK(bfdev_##Q##_initialized(q), #Q "-initialized", "no"); VF_EQ(bfdev_##Q##_len(q), 0, #Q "-len"); \
    VF_EQ(bfdev_##Q##_recsize(q), rec, #Q "-recsize"); \
    if (rec) { T b[3] = { 1, 2, 3 }, o[4] = { 0 }; VF_EQ(bfdev_##Q##_in(q, b, 3), 3, #Q "-in"); VF_EQ(bfdev_##Q##_len(q), 3 + rec, #Q "-len"); VF_EQ(bfdev_##Q##_out(q, o, 4), 3, #Q "-out"); VF_CHECK(o[0] == 1 && o[1] == 2 && o[2] == 3 && !o[3], #Q "-record", "damaged"); } \
    else { for (unsigned _i = 0; _i < _n; _i++) { T v = (T)(_i * 7 + 1); VF_CHECK((unsigned long)bfdev_##Q##_put(q, v) == PUT_##Q, #Q "-put", "element %u of %u refused", _i, _n); } VF_CHECK(bfdev_##Q##_check_full(q), #Q "-full", "not full after %u", _n); \
        for (unsigned _i = 0; _i < _n; _i++) { T v = 0; VF_CHECK(bfdev_##Q##_get(q, &v), #Q "-get", "no element"); VF_EQ(v, (T)(_i * 7 + 1), #Q "-order"); } } \
    VF_CHECK(bfdev_##Q##_check_empty(q), "queue-empty", "not drained"); vf_obs(_n); \
    if (dyn) bfdev_##Q##_free(q); } while (0)
BFDEV_DEFINE_FIFO(gfifo, uint16_t, 16);
BFDEV_DEFINE_RINGBUF(gring, uint16_t, 16);
BFDEV_DEFINE_FIFO_RECORD(gfifor, uint8_t, 64, 2);
BFDEV_DEFINE_RINGBUF_RECORD(gringr, uint8_t, 64, 2);
BFDEV_DEFINE_FIFO_DYNAMIC(gfifod, uint32_t);
BFDEV_DEFINE_RINGBUF_DYNAMIC(gringd, uint32_t);
BFDEV_DEFINE_FIFO_DYNAMIC_RECORD(gfifodr, uint8_t, 1);
BFDEV_DEFINE_RINGBUF_DYNAMIC_RECORD(gringdr, uint8_t, 1);
static void scn_queues(void)
{
    fresh(); FORM(); unsigned dn = 1u << (1 + vf_below(7)), dr = 1u << (3 + vf_below(5));
    { BFDEV_DEFINE_FIFO(q, uint32_t, 2); USE("fifo", QBODY(fifo, &q, uint32_t, 2, 0, 0)); }
    { BFDEV_DEFINE_FIFO(q, uint8_t, 128); USE("fifo", QBODY(fifo, &q, uint8_t, 128, 0, 0)); }
    { BFDEV_DECLARE_FIFO(q, uint64_t, 32); POISON(q); q = BFDEV_FIFO_INIT(&q); USE("fifo", QBODY(fifo, &q, uint64_t, 32, 0, 0)); }
    { BFDEV_DEFINE_FIFO_DYNAMIC(q, uint32_t); USE("fifo_dynamic", QBODY(fifo, &q, uint32_t, dn, 1, 0)); }
    { BFDEV_DECLARE_FIFO_DYNAMIC(q, uint16_t); POISON(q); q = BFDEV_FIFO_DYNAMIC_INIT(&q); USE("fifo_dynamic", QBODY(fifo, &q, uint16_t, dn, 1, 0)); }
    { BFDEV_DEFINE_FIFO_RECORD(q, uint8_t, 16, 1); USE("fifo_record", QBODY(fifo, &q, uint8_t, 16, 0, 1)); }
    { BFDEV_DECLARE_FIFO_RECORD(q, uint8_t, 32, 4); POISON(q); q = BFDEV_FIFO_INIT(&q); USE("fifo_record", QBODY(fifo, &q, uint8_t, 32, 0, 4)); }
    { BFDEV_DEFINE_FIFO_DYNAMIC_RECORD(q, uint8_t, 2); USE("fifo_dynamic_record", QBODY(fifo, &q, uint8_t, dr, 1, 2)); }
    { BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, uint8_t, 1); POISON(q); q = BFDEV_FIFO_DYNAMIC_INIT(&q); USE("fifo_dynamic_record", QBODY(fifo, &q, uint8_t, dr, 1, 1)); }
    { BFDEV_DEFINE_RINGBUF(q, uint32_t, 2); USE("ringbuf", QBODY(ringbuf, &q, uint32_t, 2, 0, 0)); }
    { BFDEV_DEFINE_RINGBUF(q, uint8_t, 128); USE("ringbuf", QBODY(ringbuf, &q, uint8_t, 128, 0, 0)); }
    { BFDEV_DECLARE_RINGBUF(q, uint64_t, 32); POISON(q); q = BFDEV_RINGBUF_INIT(&q); USE("ringbuf", QBODY(ringbuf, &q, uint64_t, 32, 0, 0)); }
    { BFDEV_DEFINE_RINGBUF_DYNAMIC(q, uint32_t); USE("ringbuf_dynamic", QBODY(ringbuf, &q, uint32_t, dn, 1, 0)); }
    { BFDEV_DECLARE_RINGBUF_DYNAMIC(q, uint16_t); POISON(q); q = BFDEV_RINGBUF_DYNAMIC_INIT(&q); USE("ringbuf_dynamic", QBODY(ringbuf, &q, uint16_t, dn, 1, 0)); }
    { BFDEV_DEFINE_RINGBUF_RECORD(q, uint8_t, 16, 1); USE("ringbuf_record", QBODY(ringbuf, &q, uint8_t, 16, 0, 1)); }
    { BFDEV_DECLARE_RINGBUF_RECORD(q, uint8_t, 32, 4); POISON(q); q = BFDEV_RINGBUF_INIT(&q); USE("ringbuf_record", QBODY(ringbuf, &q, uint8_t, 32, 0, 4)); }
    { BFDEV_DEFINE_RINGBUF_DYNAMIC_RECORD(q, uint8_t, 2); USE("ringbuf_dynamic_record", QBODY(ringbuf, &q, uint8_t, dr, 1, 2)); }
    { BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, uint8_t, 1); POISON(q); q = BFDEV_RINGBUF_DYNAMIC_INIT(&q); USE("ringbuf_dynamic_record", QBODY(ringbuf, &q, uint8_t, dr, 1, 1)); }
    /* file scope */
    USE("fifo", QBODY(fifo, &gfifo, uint16_t, 16, 0, 0)); USE("ringbuf", QBODY(ringbuf, &gring, uint16_t, 16, 0, 0));
    USE("fifo_record", QBODY(fifo, &gfifor, uint8_t, 64, 0, 2)); USE("ringbuf_record", QBODY(ringbuf, &gringr, uint8_t, 64, 0, 2));
    USE("fifo_dynamic", QBODY(fifo, &gfifod, uint32_t, dn, 1, 0)); USE("ringbuf_dynamic", QBODY(ringbuf, &gringd, uint32_t, dn, 1, 0));
    USE("fifo_dynamic_record", QBODY(fifo, &gfifodr, uint8_t, dr, 1, 1)); USE("ringbuf_dynamic_record", QBODY(ringbuf, &gringdr, uint8_t, dr, 1, 1));
    done();
}
/* ---- pools and small objects ---- */
static void use_pool(bfdev_allocpool_t *p, unsigned char *blk, size_t size)
{
    size_t n = 1 + vf_below(size), up = (n + 7) & ~(size_t)7; unsigned char *a = bfdev_allocpool_alloc(p, n, 1), *b;
    VF_PEQ(a, blk, "allocpool-first"); memset(a, 1, n); b = bfdev_allocpool_alloc(p, size - n + 1, 1); VF_PEQ(b, NULL, "allocpool-bound");
    if (up < size) { b = bfdev_allocpool_alloc(p, size - up, 1); VF_PEQ(b, blk + up, "allocpool-next"); memset(b, 2, size - up); }
    bfdev_allocpool_reset(p); VF_PEQ(bfdev_allocpool_alloc(p, size, 1), blk, "allocpool-reset"); vf_obs(n);
}
static int acts; static const int cookie;
static int act_fn(const void *d) { VF_PEQ(d, &cookie, "action-data"); return ++acts; }
static void use_action(bfdev_action_t *a) { int r, b = acts; r = bfdev_action_call(a); VF_EQ(acts, b + 1, "action-run"); VF_EQ(r, acts, "action-result"); vf_obs(1); }
static bfdev_notifier_ret_t nt(void *arg, void *pd) { VF_PEQ(arg, &cookie, "notifier-arg"); VF_PEQ(pd, &acts, "notifier-pdata"); acts++; return BFDEV_NOTIFI_RET_DONE; }
static void use_notifier(bfdev_notifier_t *h)
{
    bfdev_notifier_node_t n[3]; unsigned called = 0; int b = acts; POISON(n);
    VF_EQ(bfdev_notifier_call(h, (void *)&cookie, ~0u, &called), BFDEV_NOTIFI_RET_DONE, "notifier-empty"); VF_EQ(called, 0, "notifier-empty");
    for (int i = 0; i < 3; i++) { n[i].entry = nt; n[i].pdata = &acts; n[i].priority = vf_below(2); VF_EQ(bfdev_notifier_register(h, &n[i]), 0, "notifier-register"); }
    bfdev_notifier_call(h, (void *)&cookie, ~0u, &called); VF_EQ(called, 3, "notifier-called"); VF_EQ(acts, b + 3, "notifier-called"); vf_obs(called);
}
typedef struct { bfdev_respool_node_t n; int id; } res_t;
static int freed[4], nfreed; static void rel(bfdev_respool_node_t *n, void *pd) { VF_PEQ(pd, &cookie, "respool-pdata"); freed[nfreed++] = bfdev_container_of(n, res_t, n)->id; }
static void use_respool(bfdev_respool_t *p)
{
    res_t r[4]; unsigned n = vf_below(5); POISON(r); nfreed = 0; VF_CHECK(bfdev_respool_check_empty(p), "respool-empty", "a new pool is not empty");
    for (unsigned i = 0; i < n; i++) { r[i].n.release = rel; r[i].id = i; bfdev_respool_insert(p, &r[i].n); }
    bfdev_respool_release_all(p, (void *)&cookie); VF_EQ(nfreed, n, "respool-released"); VF_CHECK(bfdev_respool_check_empty(p), "respool-empty", "not empty after release"); vf_obs(n);
}
static void use_circle(bfdev_circle_t *c, void *buf) { VF_PEQ(c->buffer, buf, "circle-buffer"); VF_EQ(BFDEV_CIRCLE_CNT(c->head, c->tail, 16), 0, "circle-count"); VF_EQ(BFDEV_CIRCLE_SPACE(c->head, c->tail, 16), 15, "circle-space"); vf_obs(2); }
static void use_ref(bfdev_refcnt_t *r)
{
    unsigned n = vf_below(20); VF_EQ(bfdev_refcnt_get(r), 1, "refcnt-one");
    for (unsigned i = 0; i < n; i++) bfdev_refcnt_inc(r);
    for (unsigned i = 0; i < n; i++) VF_EQ(bfdev_refcnt_dec_test(r), 0, "refcnt-dec"); VF_CHECK(bfdev_refcnt_dec_test(r), "refcnt-last", "the last reference was not the last"); vf_obs(n);
}
static void use_prandom(bfdev_prandom_t *p, uint32_t *first) { for (int i = 0; i < 20; i++) { uint32_t v = bfdev_prandom_value(p); if (first[20]) VF_EQ(v, first[i], "prandom-sequence"); first[i] = v; vf_obs(v); } first[20] = 1; }
static void use_rate(bfdev_ratelimit_t *l, unsigned iv, unsigned burst)
{
    bfdev_time_t t = 1 + vf_below(1000); unsigned n = vf_below(30), ok = 0;
    for (unsigned i = 0; i < n; i++) ok += bfdev_ratelimit(l, t);
    VF_EQ(ok, n < burst ? n : burst, "ratelimit-burst"); VF_EQ(l->missed, n - ok, "ratelimit-missed"); VF_EQ(l->passed, ok, "ratelimit-passed"); vf_obs(n);
}
static void use_bucket(bfdev_tokenbucket_t *l, unsigned iv, unsigned cap)
{
    unsigned tot = 0; bfdev_time_t t = 1;
    bfdev_tokenbucket_update(l, t); VF_EQ(l->passed + l->missed, 0, "tokenbucket-new");
    for (unsigned i = 0; i < 30; i++) { tot += bfdev_tokenbucket(l, t); } VF_CHECK(tot <= cap, "tokenbucket-burst", "%u at once from a bucket of %u", tot, cap);
    VF_EQ(l->passed, tot, "tokenbucket-passed"); VF_EQ(l->missed, 30 - tot, "tokenbucket-missed"); vf_obs(tot);
}
/* after any use, a reset limiter answers as a new one does */
static void reset_like_new(void)
{
    unsigned burst = 1 + vf_below(12); bfdev_time_t iv = 1 + vf_below(40), t = 1 + vf_below(500); bfdev_ratelimit_t a, b; bfdev_tokenbucket_t c, d; POISON(a); POISON(c);
    bfdev_ratelimit_init(&a, iv, burst); bfdev_tokenbucket_init(&c, iv, burst);
    for (unsigned r = 1 + vf_below(4); r--;) {
        for (unsigned n = vf_below(40); n--;) { t += vf_chance(1, 3) ? vf_below(2 * iv + 2) : 0; vf_obs(bfdev_ratelimit(&a, t)); vf_obs(bfdev_tokenbucket(&c, t)); }
        if (vf_chance(1, 3)) bfdev_tokenbucket_update(&c, t);
        bfdev_ratelimit_reset(&a); bfdev_tokenbucket_reset(&c); b = (bfdev_ratelimit_t)BFDEV_RATELIMIT_INIT(iv, burst); d = (bfdev_tokenbucket_t)BFDEV_TOKENBUCKET_INIT(iv, burst);
        unsigned style = vf_below(3);
        for (unsigned n = vf_below(60); n--;) {
            t += style == 0 ? 0 : style == 1 ? vf_below(3) : vf_below(2 * iv + 2);
            VF_EQ(bfdev_ratelimit(&a, t), bfdev_ratelimit(&b, t), "ratelimit-reset"); VF_EQ(a.missed, b.missed, "ratelimit-reset"); VF_EQ(a.passed, b.passed, "ratelimit-reset");
            VF_EQ(bfdev_tokenbucket(&c, t), bfdev_tokenbucket(&d, t), "tokenbucket-reset"); VF_EQ(c.missed, d.missed, "tokenbucket-reset"); VF_EQ(c.passed, d.passed, "tokenbucket-reset"); VF_EV("static.reset_like_new");
        }
    }
}
static char lastline[4096]; static unsigned lines; static void *lastpd;
static int lw(bfdev_log_message_t *msg, void *pd) { lines++; lastpd = pd; snprintf(lastline, sizeof lastline, "%.*s", (int)msg->length, msg->buff); vf_checks_total++; return msg->length; }
static void use_log(bfdev_log_t *l, unsigned def, unsigned rec)
{
    lines = 0; lastline[0] = 0; unsigned lvl = vf_below(8); char fmt[] = { BFDEV_SOH_ASCII, '0' + lvl, '%', 'd', 0 }; int v = vf_below(10000);
    bfdev_log_core(l, fmt, v); VF_EQ(lines, lvl <= rec, "log-filter"); if (lines) { VF_EQ(atoi(lastline), v, "log-text"); VF_PEQ(lastpd, &cookie, "log-pdata"); }
    lines = 0; bfdev_log_core(l, "%d", v); VF_EQ(lines, def <= rec, "log-default"); vf_obs(lvl * 100 + v);
}
static void scn_small(void)
{
    fresh(); FORM(); size_t size = 1 + vf_below(200); unsigned char *blk = vf_xmalloc(size);
    { BFDEV_DEFINE_ALLOCPOOL(p, blk, size); USE("allocpool", use_pool(&p, blk, size)); }
    { bfdev_allocpool_t p = BFDEV_ALLOCPOOL_STATIC(blk, size); USE("allocpool", use_pool(&p, blk, size)); }
    { bfdev_allocpool_t p; POISON(p); p = BFDEV_ALLOCPOOL_INIT(blk, size); USE("allocpool", use_pool(&p, blk, size)); }
    { bfdev_allocpool_t p; POISON(p); bfdev_allocpool_init(&p, blk, size); USE("allocpool", use_pool(&p, blk, size)); }
    free(blk);
    { BFDEV_DEFINE_ACTION(a, act_fn, &cookie); USE("action", use_action(&a)); }
    { bfdev_action_t a = BFDEV_ACTION_STATIC(act_fn, &cookie); USE("action", use_action(&a)); }
    { bfdev_action_t a; POISON(a); a = BFDEV_ACTION_INIT(act_fn, NULL); bfdev_action_update(&a, &cookie); USE("action", use_action(&a)); }
    { bfdev_action_t a; POISON(a); bfdev_action_init(&a, act_fn, &cookie); USE("action", use_action(&a)); }
    { BFDEV_DEFINE_NOTIFIER(h); USE("notifier", use_notifier(&h)); }
    { bfdev_notifier_t h = BFDEV_NOTIFIER_STATIC(&h); USE("notifier", use_notifier(&h)); }
    { bfdev_notifier_t h; POISON(h); bfdev_notifier_init(&h); USE("notifier", use_notifier(&h)); }
    { BFDEV_DEFINE_RESPOOL(p); USE("respool", use_respool(&p)); }
    { bfdev_respool_t p = BFDEV_RESPOOL_STATIC(&p); USE("respool", use_respool(&p)); }
    { bfdev_respool_t p; POISON(p); p = BFDEV_RESPOOL_INIT(&p); USE("respool", use_respool(&p)); }
    { bfdev_respool_t p; POISON(p); bfdev_respool_init(&p); USE("respool", use_respool(&p)); }
    { char b[16]; BFDEV_DEFINE_CIRCLE(c, b); USE("circle", use_circle(&c, b)); bfdev_circle_t d = BFDEV_CIRCLE_STATIC(b); USE("circle", use_circle(&d, b)); POISON(d); d = BFDEV_CIRCLE_INIT(b); USE("circle", use_circle(&d, b)); }
    { BFDEV_DEFINE_REFCNT(r); USE("refcnt", use_ref(&r)); bfdev_refcnt_t s = BFDEV_REFCNT_STATIC(); USE("refcnt", use_ref(&s)); POISON(s); s = BFDEV_REFCNT_INIT; USE("refcnt", use_ref(&s)); POISON(s); bfdev_refcnt_set(&s, 1); USE("refcnt", use_ref(&s)); }
    { uint32_t f[21] = { 0 }; BFDEV_DEFINE_PRANDOM(p); USE("prandom", use_prandom(&p, f)); bfdev_prandom_t q = BFDEV_PRANDOM_STATIC(); USE("prandom", use_prandom(&q, f)); POISON(q); q = BFDEV_PRANDOM_INIT(); USE("prandom", use_prandom(&q, f)); POISON(q); bfdev_prandom_init(&q); USE("prandom", use_prandom(&q, f)); }
    unsigned iv = 1 + vf_below(50), n = 1 + vf_below(30);
    { BFDEV_DEFINE_RATELIMIT(l, iv, n); USE("ratelimit", use_rate(&l, iv, n)); bfdev_ratelimit_reset(&l); USE("ratelimit", use_rate(&l, iv, n)); bfdev_ratelimit_t m = BFDEV_RATELIMIT_STATIC(iv, n); USE("ratelimit", use_rate(&m, iv, n)); POISON(m); m = BFDEV_RATELIMIT_INIT(iv, n); USE("ratelimit", use_rate(&m, iv, n)); POISON(m); bfdev_ratelimit_init(&m, iv, n); USE("ratelimit", use_rate(&m, iv, n)); }
    { BFDEV_DEFINE_TOKENBUCKET(l, iv, n); USE("tokenbucket", use_bucket(&l, iv, n)); bfdev_tokenbucket_t m = BFDEV_TOKENBUCKET_STATIC(iv, n); USE("tokenbucket", use_bucket(&m, iv, n)); POISON(m); m = BFDEV_TOKENBUCKET_INIT(iv, n); USE("tokenbucket", use_bucket(&m, iv, n)); POISON(m); bfdev_tokenbucket_init(&m, iv, n); USE("tokenbucket", use_bucket(&m, iv, n)); }
    reset_like_new();
    unsigned def = vf_below(9), rec = vf_below(9); void *pd = (void *)&cookie;
    { BFDEV_DEFINE_LOG(l, def, rec, 0, lw, pd); USE("log", use_log(&l, def, rec)); bfdev_log_t m = BFDEV_LOG_STATIC(&m, def, rec, 0, lw, pd); USE("log", use_log(&m, def, rec)); POISON(m); m = BFDEV_LOG_INIT(&m, def, rec, 0, lw, pd); USE("log", use_log(&m, def, rec)); POISON(m); bfdev_log_init(&m, def, rec, 0, lw, pd); USE("log", use_log(&m, def, rec)); }
    { BFDEV_DEFINE_BITMAP(b, 130) VF_EQ(sizeof b, 24, "bitmap-size"); memset(b, 0, sizeof b); VF_CHECK(bfdev_bitmap_empty(b, 130), "bitmap-empty", "no"); }
    done();
}
/* ---- allocator objects ---- */
static void use_alloc(const bfdev_alloc_t *a)
{
    size_t n = 1 + vf_below(300), m = 1 + vf_below(300); unsigned char *p = bfdev_malloc(a, n), *q; VF_CHECK(p, "alloc", "refused"); VF_EQ(A.live, 1, "alloc-live"); memset(p, 9, n);
    p = bfdev_realloc(a, p, m); VF_CHECK(p, "realloc", "refused"); for (size_t i = 0; i < n && i < m; i++) VF_EQ(p[i], 9, "realloc-content");
    q = bfdev_zalloc(a, n); VF_CHECK(q, "zalloc", "refused"); for (size_t i = 0; i < n; i++) VF_EQ(q[i], 0, "zalloc-zero"); VF_EQ(A.live, 2, "alloc-live");
    bfdev_free(a, p); bfdev_free(a, q); VF_EQ(A.live, 0, "alloc-live"); vf_obs(n);
}
static void scn_alloc(void)
{
    fresh(); FORM();
    BFDEV_DEFINE_ALLOC_OPS(o1, vfa_alloc, vfa_zalloc, vfa_realloc, vfa_free); bfdev_alloc_ops_t o2 = BFDEV_ALLOC_OPS_STATIC(vfa_alloc, vfa_zalloc, vfa_realloc, vfa_free), o3, o4;
    POISON(o3); o3 = BFDEV_ALLOC_OPS_INIT(vfa_alloc, vfa_zalloc, vfa_realloc, vfa_free); POISON(o4); bfdev_alloc_ops_init(&o4, vfa_alloc, vfa_zalloc, vfa_realloc, vfa_free);
    { BFDEV_DEFINE_ALLOC(a, &o1, &A); USE("alloc", use_alloc(&a)); }
    { bfdev_alloc_t a = BFDEV_ALLOC_STATIC(&o2, &A); USE("alloc", use_alloc(&a)); }
    { bfdev_alloc_t a; POISON(a); a = BFDEV_ALLOC_INIT(&o3, &A); USE("alloc", use_alloc(&a)); }
    { bfdev_alloc_t a; POISON(a); bfdev_alloc_init(&a, &o4, &A); USE("alloc", use_alloc(&a)); }
    done();
}
/* ---- state machine ---- */
static int f_enter, f_exit;
static int en(bfdev_fsm_event_t *e, void *s) { f_enter++; return 0; }
static int ex(bfdev_fsm_event_t *e, void *s) { f_exit++; return 0; }
static long gd(bfdev_fsm_event_t *e, const void *cond) { return cond != e->pdata; }
static bfdev_fsm_state_t S[3]; static bfdev_fsm_transition_t T[3];
static void use_fsm(bfdev_fsm_t *f)
{
    f_enter = f_exit = 0; VF_PEQ(bfdev_fsm_curr(f), &S[0], "fsm-start"); VF_EQ(bfdev_fsm_finished(f), 0, "fsm-finished");
    bfdev_fsm_event_t e = { 1, (void *)&cookie }, bad = { 1, NULL }, other = { 2, (void *)&cookie };
    VF_EQ(bfdev_fsm_cond(&T[0], &e), 1, "fsm-cond"); VF_EQ(bfdev_fsm_cond(&T[0], &bad), 0, "fsm-cond"); VF_EQ(bfdev_fsm_cond(&T[0], &other), 0, "fsm-cond"); VF_EQ(bfdev_fsm_cond(&T[1], &other), 1, "fsm-cond");
    VF_EQ(bfdev_fsm_handle(f, &bad), BFDEV_FSM_NOCHANGE, "fsm-guard"); VF_PEQ(bfdev_fsm_curr(f), &S[0], "fsm-guard");
    VF_EQ(bfdev_fsm_handle(f, &e), BFDEV_FSM_CHANGED, "fsm-step"); VF_PEQ(bfdev_fsm_curr(f), &S[1], "fsm-step"); VF_PEQ(bfdev_fsm_prev(f), &S[0], "fsm-prev"); VF_EQ(f_enter, 1, "fsm-enter"); VF_EQ(f_exit, 1, "fsm-exit");
    bfdev_fsm_error(f, &e); VF_PEQ(bfdev_fsm_curr(f), &S[2], "fsm-error"); VF_EQ(bfdev_fsm_finished(f), 1, "fsm-finished");
    for (int k = 0; k < 7; k++) {       /* reset after any number of changes, to either state: like a new machine */
        int at = vf_below(2); bfdev_fsm_reset(f, &S[at]);
        for (int i = 0, n = vf_below(2) ? k : vf_below(9); i <= n; i++, at = !at) { VF_PEQ(bfdev_fsm_curr(f), &S[at], "fsm-reset"); if (i) VF_PEQ(bfdev_fsm_prev(f), &S[!at], "fsm-reset"); VF_EQ(bfdev_fsm_handle(f, at ? &other : &e), BFDEV_FSM_CHANGED, "fsm-reset"); }
    }
    bfdev_fsm_reset(f, &S[0]); VF_PEQ(bfdev_fsm_curr(f), &S[0], "fsm-reset"); bfdev_array_release(&f->stack); vf_obs(3);
}
static void scn_fsm(void)
{
    fresh(); FORM(); memset(S, 0, sizeof S); memset(T, 0, sizeof T);
    for (int i = 0; i < 3; i++) { S[i].enter = en; S[i].exit = ex; }
    T[0] = (bfdev_fsm_transition_t){ .type = 1, .cond = &cookie, .next = &S[1], .guard = gd }; T[1] = (bfdev_fsm_transition_t){ .type = 2, .next = &S[0] };
    S[0].trans = &T[0]; S[0].tnum = 1; S[1].trans = &T[1]; S[1].tnum = 1;
    { BFDEV_DEFINE_FSM(f, alp, &S[0], &S[2]); USE("fsm", use_fsm(&f)); }
    { bfdev_fsm_t f = BFDEV_FSM_STATIC(alp, &S[0], &S[2]); USE("fsm", use_fsm(&f)); }
    { bfdev_fsm_t f; POISON(f); f = BFDEV_FSM_INIT(alp, &S[0], &S[2]); USE("fsm", use_fsm(&f)); }
    { bfdev_fsm_t f; POISON(f); bfdev_fsm_init(&f, alp, &S[0], &S[2]); USE("fsm", use_fsm(&f)); }
    done();
}
VF_SCENARIOS({ "array", scn_array, 1 }, { "mpi", scn_mpi, 1 }, { "matrix", scn_matrix, 1 }, { "trees", scn_trees, 1 }, { "maps", scn_maps, 1 }, { "radix", scn_radix, 1 }, { "lists", scn_lists, 1 }, { "queues", scn_queues, 1 }, { "small", scn_small, 1 }, { "alloc", scn_alloc, 1 }, { "fsm", scn_fsm, 1 });
