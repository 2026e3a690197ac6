/* C45: reads of objects nobody changes, from many threads at once: the same answers
 * as one thread alone gets, and no write behind the scenes. */
#include "vf.h"
#include "vf_thread.h"
#include <bfdev/rbtree.h>
#include <bfdev/segtree.h>
#include <bfdev/heap.h>
#include <bfdev/btree.h>
#include <bfdev/radix.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
#include <bfdev/array.h>
#include <bfdev/bsearch.h>
#include <bfdev/bloom.h>
#include <bfdev/bitmap.h>
#include <bfdev/bitwalk.h>
#include <bfdev/mpi.h>
#include <bfdev/matrix.h>
#include <bfdev/textsearch.h>
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>
#include <bfdev/ilist.h>

enum { PROBES = 60 };
typedef uint64_t (*probe_t)(uint64_t r);
static probe_t probe; static uint64_t rs[PROBES], want[PROBES]; static unsigned done[VT_MAX]; static const char *what;
static inline uint64_t mixin(uint64_t d, uint64_t v) { return vf_mix64(d ^ (v + 0x9e3779b97f4a7c15ULL)); }
static inline uint64_t nxt(uint64_t *r) { return vf_mix64(*r += 0x9e3779b97f4a7c15ULL); }
static void th(int id)
{
    done[id] = 0;
    for (int i = 0; i < PROBES; i++) { int k = vt_below(PROBES); vt_delay(); uint64_t g = probe(rs[k]); if (g != want[k]) vf_fail("answer", "%s: a read among others gave another answer than alone", what); done[id]++; }
}
static void go(const char *name, probe_t p)
{
    int n = 2 + vf_below(5); unsigned long sum = 0; what = name; probe = p;
    for (int i = 0; i < PROBES; i++) { rs[i] = vf_rand(); want[i] = p(rs[i]); if (i < 3) vf_obs(want[i]); }
    vf_op("%d threads read a %s", n, name); vt_run(n, th);
    for (int i = 0; i < n; i++) sum += done[i];
    for (int i = 0; i < PROBES; i++) VF_CHECK(p(rs[i]) == want[i], "answer", "%s: reading changed it", name);
    vf_checks_total += sum; VF_EVN("shared.reads", sum);
}

/* ---- trees ---- */
typedef struct { bfdev_rb_node_t n; long key; } rn_t;
static long rcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p) { long x = bfdev_rb_entry(a, rn_t, n)->key, y = bfdev_rb_entry(b, rn_t, n)->key; (void)p; return x < y ? -1 : 1; }
static long rfind(const bfdev_rb_node_t *a, void *p) { long x = bfdev_rb_entry(a, rn_t, n)->key, y = *(long *)p; return x < y ? -1 : x > y; }
static bfdev_rb_root_cached_t rbr; static long span;
static uint64_t p_rb(uint64_t r)
{
    uint64_t d = 0; rn_t *w; bfdev_rb_node_t *x; long k;
    switch (nxt(&r) % 5) {
    case 0: for (int i = 0; i < 8; i++) { k = nxt(&r) % span; x = bfdev_rb_find(&rbr.root, &k, rfind); d = mixin(d, x ? bfdev_rb_entry(x, rn_t, n)->key : -1); } break;
    case 1: bfdev_rb_for_each_entry(w, &rbr.root, n) d = mixin(d, w->key); break;
    case 2: bfdev_rb_for_each_reverse(x, &rbr.root) d = mixin(d, bfdev_rb_entry(x, rn_t, n)->key); break;
    case 3: bfdev_rb_post_for_each(x, &rbr.root) d = mixin(d, bfdev_rb_entry(x, rn_t, n)->key); break;
    default: bfdev_rb_cached_for_each(x, &rbr) d = mixin(d, bfdev_rb_entry(x, rn_t, n)->key); break;
    }
    return d;
}
static void scn_rb(void)
{
    int n = 1 + vf_below(60); rn_t *v = vf_xcalloc(n * sizeof *v); rbr = (bfdev_rb_root_cached_t){ 0 }; span = 1 + vf_below(80);
    for (int i = 0; i < n; i++) { v[i].key = vf_below(span); bfdev_rb_cached_insert(&rbr, &v[i].n, rcmp, NULL); }
    go("tree", p_rb); free(v);
}
static bfdev_rb_root_cached_t sgr;
static uint64_t p_seg(uint64_t r)
{
    uint64_t d = 0; bfdev_segtree_node_t *s; for (int i = 0; i < 6; i++) { unsigned long a = nxt(&r) % span, b = a + nxt(&r) % 9; bfdev_segtree_for_each(s, a, b, &sgr) d = mixin(d, s->start * 64 + s->end); d = mixin(d, 1); } return d;
}
static void scn_seg(void)
{
    int n = 1 + vf_below(60); bfdev_segtree_node_t *v = vf_xcalloc(n * sizeof *v); sgr = (bfdev_rb_root_cached_t){ 0 }; span = 1 + vf_below(80);
    for (int i = 0; i < n; i++) { v[i].start = vf_below(span); v[i].end = v[i].start + vf_below(12); bfdev_segtree_insert(&sgr, &v[i]); }
    go("interval tree", p_seg); free(v);
}
typedef struct { bfdev_heap_node_t n; long key; } hn_t;
static long hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p) { long x = ((hn_t *)a)->key, y = ((hn_t *)b)->key; (void)p; return x < y ? -1 : x > y; }
static bfdev_heap_root_t hpr; static int hn;
static uint64_t p_heap(uint64_t r)
{
    uint64_t d = 0; unsigned long idx; bfdev_heap_node_t *x;
    switch (nxt(&r) % 3) {
    case 0: bfdev_heap_for_each(x, &idx, &hpr) d = mixin(d, ((hn_t *)x)->key); break;
    case 1: for (int i = 0; i < 8; i++) { x = bfdev_heap_find(&hpr, 1 + nxt(&r) % hn); d = mixin(d, x ? ((hn_t *)x)->key : -1); } break;
    default: bfdev_heap_post_for_each(x, &hpr) d = mixin(d, ((hn_t *)x)->key); break;
    }
    return d;
}
static void scn_heap(void)
{
    hn = 1 + vf_below(60); hn_t *v = vf_xcalloc(hn * sizeof *v); hpr = (bfdev_heap_root_t){ 0 };
    for (int i = 0; i < hn; i++) { v[i].key = vf_below(80); bfdev_heap_insert(&hpr, &v[i].n, hcmp, NULL); }
    go("heap", p_heap); free(v);
}
static bfdev_btree_root_t btr;
static uint64_t p_bt(uint64_t r)
{
    uint64_t d = 0; uintptr_t k; void *v;
    switch (nxt(&r) % 4) {
    case 0: for (int i = 0; i < 8; i++) { k = 1 + nxt(&r) % span; d = mixin(d, (uintptr_t)bfdev_btree_lookup(&btr, &k)); } break;
    case 1: bfdev_btree_for_each(&btr, &k, v) d = mixin(d, k ^ (uintptr_t)v); break;
    case 2: bfdev_btree_for_each_reverse(&btr, &k, v) d = mixin(d, k ^ (uintptr_t)v); break;
    default: for (int i = 0; i < 4; i++) { k = 1 + nxt(&r) % span; v = nxt(&r) & 1 ? bfdev_btree_next(&btr, &k) : bfdev_btree_prev(&btr, &k); d = mixin(d, (uintptr_t)v); } break;
    }
    return d;
}
static void scn_bt(void)
{
    static const bfdev_btree_ops_t ops = { bfdev_btree_alloc, bfdev_btree_free, bfdev_btree_key_find, NULL, NULL };
    int n = 1 + vf_below(300); span = 1 + vf_below(400); bfdev_btree_init(&btr, &bfdev_btree_layoutptr, (bfdev_btree_ops_t *)&ops, NULL);
    for (int i = 0; i < n; i++) { uintptr_t k = 1 + vf_below(span); bfdev_btree_insert(&btr, &k, (void *)(k * 16)); }
    go("B+tree", p_bt); bfdev_btree_release(&btr, NULL, NULL);
}
static BFDEV_DECLARE_RADIX(rdx, uint32_t);
static uint64_t p_rdx(uint64_t r)
{
    uint64_t d = 0; uintptr_t i; uint32_t *v;
    switch (nxt(&r) % 3) {
    case 0: for (int k = 0; k < 8; k++) { v = bfdev_radix_find(&rdx, (nxt(&r) % span) * 37); d = mixin(d, v ? *v : -1); } break;
    case 1: bfdev_radix_for_each(v, &rdx, &i) d = mixin(d, i + *v); break;
    default: bfdev_radix_for_each_reverse(v, &rdx, &i) d = mixin(d, i + *v); break;
    }
    return d;
}
static void scn_rdx(void)
{
    int n = 1 + vf_below(60); rdx = (typeof(rdx))BFDEV_RADIX_INIT(&rdx, NULL); span = 1 + vf_below(1000);
    for (int i = 0; i < n; i++) { uint32_t *v = bfdev_radix_alloc(&rdx, vf_below(span) * 37); *v = vf_rand(); }
    go("radix array", p_rdx); bfdev_radix_release(&rdx);
}
/* ---- hashed and sorted ---- */
typedef struct { bfdev_hlist_node_t n; unsigned long key; } en_t;
static unsigned long k_key(const void *k, void *p) { (void)p; return vf_mix64(*(const unsigned long *)k) & 63; }
static unsigned long k_node(const bfdev_hlist_node_t *n, void *p) { (void)p; return vf_mix64(((en_t *)n)->key) & 63; }
static long k_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p) { (void)p; return ((en_t *)a)->key != ((en_t *)b)->key; }
static long k_find(const bfdev_hlist_node_t *a, const void *k, void *p) { (void)p; return ((en_t *)a)->key != *(const unsigned long *)k; }
static bfdev_hashmap_t hm;
static uint64_t p_hm(uint64_t r)
{
    uint64_t d = 0; bfdev_hlist_node_t *x; unsigned long i, k;
    if (nxt(&r) % 3) for (int j = 0; j < 8; j++) { k = nxt(&r) % span; x = bfdev_hashmap_find(&hm, &k); d = mixin(d, x ? ((en_t *)x)->key : -1); }
    else bfdev_hashmap_for_each(x, &hm, i) d = mixin(d, ((en_t *)x)->key);
    return d;
}
static void scn_hm(void)
{
    static const bfdev_hashmap_ops_t ops = { k_key, k_node, k_eq, k_find, NULL, NULL }; int n = 1 + vf_below(100); en_t *v = vf_xcalloc(n * sizeof *v); bfdev_hashmap_init(&hm, NULL, &ops, NULL); span = 1 + vf_below(150);
    for (int i = 0; i < n; i++) { v[i].key = vf_below(span); bfdev_hashmap_add(&hm, &v[i].n); }
    go("hash map", p_hm); bfdev_hashmap_release(&hm); free(v);
}
static bfdev_skip_head_t *sk;
static long s_cmp(const void *a, const void *b, void *p) { (void)p; return (long)a - (long)b; }
static long s_find(const void *a, void *p) { return (long)a - *(long *)p; }
static uint64_t p_sk(uint64_t r)
{
    uint64_t d = 0; bfdev_skip_node_t *x; long k;
    if (nxt(&r) % 3) for (int j = 0; j < 8; j++) { k = 1 + nxt(&r) % span; x = bfdev_skiplist_find(sk, s_find, &k); d = mixin(d, x ? (long)x->key : -1); }
    else bfdev_skiplist_for_each(x, sk, 0) d = mixin(d, (long)x->key);
    return d;
}
static void scn_sk(void)
{
    int n = 1 + vf_below(100); span = 1 + vf_below(150); sk = bfdev_skiplist_create(NULL, 1 + vf_below(8)); for (int i = 0; i < n; i++) bfdev_skiplist_insert(sk, (void *)(1 + vf_below(span)), s_cmp, NULL);
    go("skip list", p_sk); bfdev_skiplist_destroy(sk, NULL, NULL);
}
static bfdev_array_t ar;
static long a_cmp(const void *a, const void *b, void *p) { (void)p; long x = *(const long *)a, y = *(const long *)b; return x < y ? -1 : x > y; }
static long a_find(const void *a, void *p) { long x = *(const long *)a, y = *(long *)p; return x < y ? 1 : x > y ? -1 : 0; }
static uint64_t p_ar(uint64_t r)
{
    uint64_t d = mixin(0, bfdev_array_index(&ar)); for (int j = 0; j < 8; j++) { long *v = bfdev_array_data(&ar, nxt(&r) % (bfdev_array_index(&ar) + 2)), k = nxt(&r) % span; d = mixin(d, v ? *v : -1); v = bfdev_bsearch(bfdev_array_data(&ar, 0), bfdev_array_index(&ar), sizeof k, a_find, &k); d = mixin(d, v ? *v : -1); v = bfdev_array_peek(&ar, 1 + nxt(&r) % 5); d = mixin(d, v ? *v : -1); } return d;
}
static void scn_ar(void)
{
    int n = 1 + vf_below(100); span = 1 + vf_below(150); bfdev_array_init(&ar, NULL, sizeof(long)); long *v = bfdev_array_push(&ar, n), last = 0; for (int i = 0; i < n; i++) v[i] = last += vf_below(3);
    (void)a_cmp; go("array", p_ar); bfdev_array_release(&ar);
}
static unsigned bh(unsigned f, const void *k, void *p) { (void)p; return vf_mix64(*(const uint64_t *)k + f); }
static bfdev_bloom_t *bl;
static uint64_t p_bl(uint64_t r) { uint64_t d = 0; for (int j = 0; j < 12; j++) { uint64_t k = nxt(&r) % span; d = mixin(d, bfdev_bloom_peek(bl, &k)); } return d; }
static void scn_bl(void)
{
    span = 1 + vf_below(150); bl = bfdev_bloom_create(NULL, 1 + vf_below(500), bh, 1 + vf_below(5), NULL); for (int i = vf_below(60); i--;) { uint64_t k = vf_below(span); bfdev_bloom_push(bl, &k); }
    go("Bloom filter", p_bl); bfdev_bloom_destroy(bl);
}
static unsigned long bm[3][8]; static unsigned bits;
static uint64_t p_bm(uint64_t r)
{
    uint64_t d = 0; unsigned long o[8]; unsigned i; memset(o, 0, sizeof o);
    switch (nxt(&r) % 4) {
    case 0: bfdev_for_each_bit(i, bm[0], bits) d = mixin(d, i); break;
    case 1: d = mixin(0, bfdev_bitmap_equal(bm[0], bm[1], bits) | bfdev_bitmap_intersects(bm[0], bm[1], bits) << 1 | bfdev_bitmap_empty(bm[1], bits) << 3 | bfdev_bitmap_full(bm[2], bits) << 4); break;
    case 2: bfdev_bitmap_and(o, bm[0], bm[1], bits); for (i = 0; i < 8; i++) d = mixin(d, o[i]); bfdev_bitmap_xor(o, bm[1], bm[2], bits); for (i = 0; i < 8; i++) d = mixin(d, o[i]); break;
    default: for (int j = 0; j < 6; j++) { unsigned f = nxt(&r) % bits; d = mixin(d, bfdev_find_next_bit(bm[0], bits, f)); d = mixin(d, bfdev_find_next_zero(bm[1], bits, f)); d = mixin(d, bfdev_find_last_bit(bm[2], bits)); } break;
    }
    return d;
}
static void scn_bm(void) { bits = 1 + vf_below(500); for (int i = 0; i < 24; i++) bm[i / 8][i % 8] = vf_edge64(); go("bitmap", p_bm); }
/* ---- numbers ---- */
static bfdev_mpi_t mv[4];
static uint64_t dmpi(uint64_t d, bfdev_mpi_t *m) { bool s; const BFDEV_MPI_TYPE *p = bfdev_mpi_data(m, &s); size_t n = bfdev_array_index(&m->value); d = mixin(d, s); for (size_t i = 0; i < n; i++) d = mixin(d, p[i]); return d; }
static uint64_t p_mpi(uint64_t r)
{
    uint64_t d = 0; bfdev_mpi_t q, m; bfdev_mpi_init(&q, NULL); bfdev_mpi_init(&m, NULL); const bfdev_mpi_t *a = &mv[nxt(&r) % 4], *b = &mv[nxt(&r) % 4];
    switch (nxt(&r) % 6) {
    case 0: bfdev_mpi_add(&q, a, b); break; case 1: bfdev_mpi_sub(&q, a, b); break; case 2: bfdev_mpi_mul(&q, a, b); break;
    case 3: if (bfdev_mpi_cmpi(b, 0)) bfdev_mpi_div(&q, &m, a, b); break; case 4: bfdev_mpi_xor(&q, a, b); break; default: d = mixin(bfdev_mpi_cmp(a, b), bfdev_mpi_cmpi(a, nxt(&r) % 9)); bfdev_mpi_shri(&q, a, nxt(&r) % 90); }
    d = dmpi(d, &q); d = dmpi(d, &m); bfdev_mpi_release(&q); bfdev_mpi_release(&m); return d;
}
static void scn_mpi(void)
{
    for (int i = 0; i < 4; i++) { BFDEV_MPI_TYPE b[8]; int n = 1 + vf_below(8); for (int k = 0; k < n; k++) b[k] = vf_edge64(); bfdev_mpi_init(&mv[i], NULL); bfdev_mpi_import(&mv[i], b, n, vf_chance(1, 2)); }
    go("big number", p_mpi); for (int i = 0; i < 4; i++) bfdev_mpi_release(&mv[i]);
}
static bfdev_matrix_t ma[3]; static unsigned md;
static uint64_t p_mat(uint64_t r)
{
    uint64_t d = 0; bfdev_matrix_t q; bfdev_matrix_init(&q, NULL); const bfdev_matrix_t *a = &ma[nxt(&r) % 3], *b = &ma[nxt(&r) % 3];
    switch (nxt(&r) % 4) { case 0: bfdev_matrix_add(&q, a, b); break; case 1: bfdev_matrix_mul(&q, a, b); break; case 2: bfdev_matrix_trans(&q, a); break; default: bfdev_matrix_set(&q, a); }
    for (unsigned i = 0; i < md; i++) for (unsigned k = 0; k < md; k++) d = mixin(d, *bfdev_matrix_data(&q, i, k)); bfdev_matrix_release(&q); return d;
}
static void scn_mat(void)
{
    md = 1 + vf_below(6); BFDEV_MATRIX_TYPE b[36]; for (int i = 0; i < 3; i++) { for (int k = 0; k < 36; k++) b[k] = vf_below(1000); bfdev_matrix_init(&ma[i], NULL); bfdev_matrix_import(&ma[i], b, md, md); }
    go("matrix", p_mat); for (int i = 0; i < 3; i++) bfdev_matrix_release(&ma[i]);
}
/* ---- text ---- */
static bfdev_ts_context_t *tc; static char text[200];
static unsigned tnext(bfdev_ts_context_t *c, bfdev_ts_state_t *s, unsigned consumed, const void **dest) { (void)c; (void)s; if (consumed >= sizeof text) return 0; *dest = text + consumed; return sizeof text - consumed; }
static uint64_t p_ts(uint64_t r)
{
    uint64_t d = r & 0; bfdev_ts_state_t st = { 0 }; unsigned p = bfdev_textsearch_find(tc, &st); for (int n = 0; p != UINT_MAX && n < 300; n++) { d = mixin(d, p); p = bfdev_textsearch_next(tc, &st); } return d;
}
static void scn_ts(void)
{
    char p[12]; int m = 1 + vf_below(5); for (size_t i = 0; i < sizeof text; i++) text[i] = "abAB"[vf_below(4)]; for (int i = 0; i < m; i++) p[i] = "abAB"[vf_below(4)];
    tc = bfdev_textsearch_create(NULL, (const char *[]){ "kmp", "bm", "sunday" }[vf_below(3)], p, m, vf_chance(1, 2) ? BFDEV_TS_IGCASE : 0); tc->next_block = tnext;
    go("text search", p_ts); bfdev_textsearch_destroy(tc);
}
/* ---- lists ---- */
static bfdev_list_head_t lh; static bfdev_slist_head_t slh; static bfdev_hlist_head_t hlh; static bfdev_ilist_head_t ilh;
typedef struct { bfdev_list_head_t l; bfdev_slist_head_t s; bfdev_hlist_node_t h; bfdev_ilist_node_t i; int id; } ln_t;
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p) { (void)p; return bfdev_container_of(a, ln_t, i)->id % 5 - bfdev_container_of(b, ln_t, i)->id % 5; }
static uint64_t p_list(uint64_t r)
{
    uint64_t d = 0; ln_t *w;
    switch (nxt(&r) % 5) {
    case 0: bfdev_list_for_each_entry(w, &lh, l) d = mixin(d, w->id); break; case 1: bfdev_list_for_each_entry_reverse(w, &lh, l) d = mixin(d, w->id); break;
    case 2: bfdev_slist_for_each_entry(w, &slh, s) d = mixin(d, w->id); break; case 3: bfdev_hlist_for_each_entry(w, &hlh, h) d = mixin(d, w->id); break;
    default: bfdev_ilist_for_each_entry(w, &ilh, i) d = mixin(d, w->id);
    }
    return d;
}
static void scn_list(void)
{
    int n = 1 + vf_below(40); ln_t *v = vf_xcalloc(n * sizeof *v); bfdev_list_head_init(&lh); bfdev_slist_head_init(&slh); bfdev_hlist_head_init(&hlh); bfdev_ilist_head_init(&ilh);
    for (int i = 0; i < n; i++) { v[i].id = vf_below(100); bfdev_list_add(&lh, &v[i].l); bfdev_slist_add(&slh, &v[i].s); bfdev_hlist_head_add(&hlh, &v[i].h); bfdev_ilist_node_init(&v[i].i); bfdev_ilist_add(&ilh, &v[i].i, icmp, NULL); }
    go("list", p_list); free(v);
}
VF_SCENARIOS({ "tree", scn_rb, 2 }, { "segtree", scn_seg, 1 }, { "heap", scn_heap, 1 }, { "btree", scn_bt, 2 }, { "radix", scn_rdx, 2 }, { "hashmap", scn_hm, 2 }, { "skiplist", scn_sk, 1 }, { "array", scn_ar, 1 },
    { "bloom", scn_bl, 1 }, { "bitmap", scn_bm, 1 }, { "mpi", scn_mpi, 2 }, { "matrix", scn_mat, 1 }, { "textsearch", scn_ts, 2 }, { "list", scn_list, 1 });
