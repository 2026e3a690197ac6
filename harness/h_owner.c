/* C36: who owns which byte.  Several structures of all kinds live side by side, each with an
 * allocator of its own (or the default one); every heap call the library makes is seen by the
 * sanitizer's malloc/free hooks and must come through the allocator of the structure at work. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/array.h>
#include <bfdev/btree.h>
#include <bfdev/radix.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
#include <bfdev/fsm.h>
#include <bfdev/matrix.h>
#include <bfdev/mpi.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/bloom.h>
#include <bfdev/cache.h>
#include <bfdev/bitmap.h>
#include <bfdev/string.h>
#include <bfdev/argv.h>
#include <bfdev/levenshtein.h>
#include <bfdev/textsearch.h>

/* ---- who is allocating ---- */
static bool in_lib, in_own, dflt_ok; static long dflt_live; static unsigned long seen_own, seen_dflt;
static void *o_alloc(size_t n, void *pd) { in_own = true; void *p = vfa_alloc(n, pd); in_own = false; seen_own++; return p; }
static void *o_zalloc(size_t n, void *pd) { in_own = true; void *p = vfa_zalloc(n, pd); in_own = false; seen_own++; return p; }
static void *o_realloc(void *b, size_t n, void *pd) { in_own = true; void *p = vfa_realloc(b, n, pd); in_own = false; seen_own++; return p; }
static void o_free(void *b, void *pd) { in_own = true; vfa_free(b, pd); in_own = false; }
static const bfdev_alloc_ops_t o_ops = { o_alloc, o_zalloc, o_realloc, o_free };
#ifdef __SANITIZE_ADDRESS__
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void on_malloc(const volatile void *p, size_t n) { if (!in_lib || in_own || !p) return; if (!dflt_ok) { in_lib = false; vf_fail("foreign-memory", "%zu bytes taken from the heap behind the allocator's back", n); } dflt_live++; seen_dflt++; }
static void on_free(const volatile void *p) { if (!in_lib || in_own || !p) return; if (!dflt_ok) { in_lib = false; vf_fail("foreign-free", "a block was given to the heap instead of its allocator"); } dflt_live--; }
static void hooks(void) { static bool done; if (!done) { done = true; if (!__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) vf_harness_error("no malloc hooks"); } }
# define HOOKED 1
#else
static void hooks(void) {}
# define HOOKED 0
#endif
#define L(EXPR) do { in_lib = true; EXPR; in_lib = false; } while (0)

enum { ARRAY, BTREE, RADIX, HASHMAP, SKIP, FIFO, RING, BLOOM, CACHE, FSM, MATRIX, MPI, TS, MISC, KINDS };
static const char *const KN[] = { "array", "btree", "radix", "hashmap", "skiplist", "fifo", "ringbuf", "bloom", "cache", "fsm", "matrix", "mpi", "textsearch", "strings" };
enum { NE = 96 };
typedef struct { unsigned long key; bfdev_hlist_node_t n; bool live; unsigned gone; } el_t;
typedef struct { uint64_t a, b; } cell_t;
typedef struct { int kind; bool own, open; vf_alloc_t A; bfdev_alloc_t al; const bfdev_alloc_t *alp; el_t e[NE]; size_t nl;
    bfdev_array_t array; bfdev_btree_root_t bt; BFDEV_GENERIC_RADIX(cell_t) rx; bfdev_hashmap_t hm; bfdev_skip_head_t *sk; BFDEV_DECLARE_FIFO_DYNAMIC(ff, uint32_t); BFDEV_DECLARE_RINGBUF_DYNAMIC(rb, uint32_t);
    bfdev_bloom_t *bl; bfdev_cache_head_t *ca; bfdev_fsm_t fs; bfdev_matrix_t mx[2]; bfdev_mpi_t mp[3]; bfdev_ts_context_t *ts; } inst_t;
static inst_t *cur;

static unsigned long h_key(const void *k, void *pd) { return *(const unsigned long *)k * 37; }
static unsigned long h_node(const bfdev_hlist_node_t *n, void *pd) { return bfdev_hlist_entry(n, el_t, n)->key * 37; }
static long h_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pd) { return bfdev_hlist_entry(a, el_t, n)->key != bfdev_hlist_entry(b, el_t, n)->key; }
static long h_find(const bfdev_hlist_node_t *a, const void *k, void *pd) { return bfdev_hlist_entry(a, el_t, n)->key != *(const unsigned long *)k; }
static const bfdev_hashmap_ops_t hops = { h_key, h_node, h_eq, h_find, NULL, NULL };
static long s_cmp(const void *a, const void *b, void *pd) { unsigned long x = ((el_t *)a)->key, y = ((el_t *)b)->key; return x < y ? -1 : x > y; }
static long s_find(const void *a, void *pd) { unsigned long x = ((el_t *)a)->key, y = *(unsigned long *)pd; return x < y ? -1 : x > y; }
static unsigned b_hash(unsigned f, const void *k, void *pd) { return vf_mix64(*(const uint64_t *)k + f); }
static unsigned long c_hash(const void *t, void *pd) { return (uintptr_t)t; }
static long c_find(const void *n, const void *t, void *pd) { return *(unsigned long *)n != (uintptr_t)t; }
static const bfdev_cache_ops_t cops = { c_hash, c_find };
static unsigned long labels[64];
static const bfdev_btree_ops_t bops = { bfdev_btree_alloc, bfdev_btree_free, bfdev_btree_key_find, NULL, NULL };
static void gone(void *v, void *pd) { el_t *p = v; VF_PEQ(pd, cur, "release-data"); VF_CHECK(p >= cur->e && p < cur->e + NE, "release-foreign", "released something never stored"); VF_CHECK(p->live, "release-dead", "released an element that is not in the structure"); p->gone++; VF_EV("owner.release_calls"); }
static bfdev_fsm_state_t S[2]; static bfdev_fsm_transition_t T[2][2];
static int state_dummy;

static void check_blocks(inst_t *x, const char *key) { if (x->own) VF_CHECK(!x->A.live, key, "%s: %zu block(s) of %zu bytes still held", KN[x->kind], x->A.live, x->A.bytes); }
static void open_inst(inst_t *x)
{
    x->open = true; x->nl = 0; memset(x->e, 0, sizeof x->e); for (int i = 0; i < NE; i++) x->e[i].key = i;
    switch (x->kind) {
    case ARRAY: bfdev_array_init(&x->array, x->alp, 1 + vf_below(30)); break;
    case BTREE: bfdev_btree_init(&x->bt, vf_chance(1, 2) ? &bfdev_btree_layoutptr : &bfdev_btree_layout64, (bfdev_btree_ops_t *)&bops, NULL); x->bt.alloc = x->alp; break;
    case RADIX: x->rx = BFDEV_RADIX_INIT(&x->rx, x->alp); break;
    case HASHMAP: bfdev_hashmap_init(&x->hm, x->alp, &hops, NULL); break;
    case SKIP: L(x->sk = bfdev_skiplist_create(x->alp, 1 + vf_below(8))); VF_CHECK(x->sk, "create", "skiplist"); break;
    case FIFO: x->ff = BFDEV_FIFO_DYNAMIC_INIT(&x->ff); { int r; L(r = bfdev_fifo_alloc(&x->ff, x->alp, 2 + vf_below(60))); VF_EQ(r, 0, "create"); } break;
    case RING: x->rb = BFDEV_RINGBUF_DYNAMIC_INIT(&x->rb); { int r; L(r = bfdev_ringbuf_alloc(&x->rb, x->alp, 2 + vf_below(60))); VF_EQ(r, 0, "create"); } break;
    case BLOOM: { unsigned bits = 1 + vf_below(3000), fns = 1 + vf_below(4); L(x->bl = bfdev_bloom_create(x->alp, bits, b_hash, fns, NULL)); } VF_CHECK(x->bl, "create", "bloom"); break;
    case CACHE: { const char *nm = vf_chance(1, 2) ? "lru" : "lfu"; unsigned slots = 2 + vf_below(20); L(x->ca = bfdev_cache_create(nm, x->alp, &cops, slots, 4, NULL)); } VF_CHECK(x->ca, "create", "cache"); break;
    case FSM: bfdev_fsm_init(&x->fs, x->alp, &S[0], NULL); break;
    case MATRIX: for (int i = 0; i < 2; i++) bfdev_matrix_init(&x->mx[i], x->alp); break;
    case MPI: for (int i = 0; i < 3; i++) bfdev_mpi_init(&x->mp[i], (bfdev_alloc_t *)x->alp); break;
    case TS: { static const char *const NM[] = { "bm", "kmp", "sunday" }; char p[600]; unsigned n = 1 + (vf_chance(1, 4) ? vf_below(599) : vf_below(29)); for (unsigned i = 0; i < n; i++) p[i] = 'a' + vf_below(4); const char *nm = NM[vf_below(3)]; int fl = vf_chance(1, 2) ? BFDEV_TS_IGCASE : 0; L(x->ts = bfdev_textsearch_create(x->alp, nm, p, n, fl)); VF_CHECK(x->ts, "create", "textsearch"); break; }
    default: break;
    }
    if (HOOKED) { if (x->own && seen_own) VF_EV("owner.hooked_own"); }
}
static void step(inst_t *x, inst_t *y)
{
    int r = 0; void *p; unsigned long k = vf_below(NE); el_t *e = &x->e[k];
    switch (x->kind) {
    case ARRAY: switch (vf_below(5)) { case 0: case 1: L(p = bfdev_array_push(&x->array, 1 + vf_below(200))); VF_CHECK(p, "push", "refused"); break; case 2: L(r = bfdev_array_resize(&x->array, 1 + vf_below(500))); VF_EQ(r, 0, "resize"); break; case 3: L(r = bfdev_array_reserve(&x->array, vf_below(900))); VF_EQ(r, 0, "reserve"); break; default: if (bfdev_array_index(&x->array)) L(bfdev_array_pop(&x->array, 1)); if (vf_chance(1, 5)) bfdev_array_reset(&x->array); } if (vf_chance(1, 30)) { L(bfdev_array_release(&x->array)); check_blocks(x, "array-release"); } break;
    case BTREE: { uintptr_t kk[1] = { k }; if (!e->live) { L(r = bfdev_btree_insert(&x->bt, kk, e)); VF_EQ(r, 0, "btree-insert"); e->live = true; x->nl++; } else { L(p = bfdev_btree_remove(&x->bt, kk)); VF_PEQ(p, e, "btree-remove"); e->live = false; x->nl--; } break; }
    case RADIX: { uint64_t i = k * (vf_chance(1, 2) ? 1 : 0) + (x->e[0].gone = 0); i = k << (k % 5 * 7); if (!e->live) { L(p = bfdev_radix_alloc(&x->rx, i)); VF_CHECK(p, "radix-alloc", "refused"); memset(p, 7, sizeof(cell_t)); e->live = true; } else { L(r = bfdev_radix_free(&x->rx, i)); VF_EQ(r, 0, "radix-free"); e->live = false; } if (vf_chance(1, 40)) { L(bfdev_radix_release(&x->rx)); for (int j = 0; j < NE; j++) x->e[j].live = false; check_blocks(x, "radix-release"); } if (vf_chance(1, 30)) { L(r = bfdev_radix_charge(&x->rx, 0, vf_below(3000))); VF_EQ(r, 0, "radix-charge"); } break; }
    case HASHMAP: { bfdev_hlist_node_t *o = NULL; if (!e->live) { bfdev_hlist_node_init(&e->n); L(r = bfdev_hashmap_add(&x->hm, &e->n)); VF_EQ(r, 0, "hashmap-add"); e->live = true; x->nl++; } else { L(r = bfdev_hashmap_del(&x->hm, &k, &o)); VF_EQ(r, 0, "hashmap-del"); VF_PEQ(o, &e->n, "hashmap-del"); e->live = false; x->nl--; } if (x->own) VF_EQ(x->A.live, 1, "hashmap-blocks"); break; }
    case SKIP: if (!e->live) { L(r = bfdev_skiplist_insert(x->sk, e, s_cmp, NULL)); VF_EQ(r, 0, "skiplist-insert"); e->live = true; x->nl++; } else { L(bfdev_skiplist_delete(x->sk, s_find, &k)); e->live = false; x->nl--; } if (x->own) VF_EQ(x->A.live, 1 + x->nl, "skiplist-blocks");
        if (vf_chance(1, 40)) { cur = x; L(bfdev_skiplist_reset(x->sk, gone, x)); for (int j = 0; j < NE; j++) { VF_EQ(x->e[j].gone, x->e[j].live, "skiplist-reset-calls"); x->e[j].live = false; x->e[j].gone = 0; } x->nl = 0; if (x->own) VF_EQ(x->A.live, 1, "skiplist-reset-blocks"); } break;
    case FIFO: { uint32_t v = 0; if (vf_chance(1, 2)) L(bfdev_fifo_put(&x->ff, k)); else L(bfdev_fifo_get(&x->ff, &v)); if (x->own) VF_EQ(x->A.live, 1, "fifo-blocks"); break; }
    case RING: { uint32_t v = 0; if (vf_chance(1, 2)) L(bfdev_ringbuf_put(&x->rb, k)); else L(bfdev_ringbuf_get(&x->rb, &v)); if (x->own) VF_EQ(x->A.live, 1, "ringbuf-blocks"); break; }
    case BLOOM: { uint64_t v = vf_rand(); L(bfdev_bloom_push(x->bl, &v)); L(bfdev_bloom_peek(x->bl, &v)); if (x->own) VF_EQ(x->A.live, 1, "bloom-blocks"); break; }
    case CACHE: { unsigned long l = 1 + vf_below(40); size_t had = x->A.live; bfdev_cache_node_t *n; L(n = bfdev_cache_get(x->ca, (void *)l)); if (n) { if (n->status == BFDEV_CACHE_PENDING) { n->data = &labels[l]; L(bfdev_cache_committed(x->ca)); } L(bfdev_cache_put(x->ca, n)); } if (vf_chance(1, 40)) L(bfdev_cache_reset(x->ca)); VF_EQ(x->A.live, had, "cache-blocks"); break; }
    case FSM: { bfdev_fsm_event_t ev = { bfdev_array_index(&x->fs.stack) && vf_chance(1, 3), NULL }; L(bfdev_fsm_handle(&x->fs, &ev)); if (vf_chance(1, 60)) L(bfdev_fsm_reset(&x->fs, &S[0])); break; }
    case MATRIX: { int d = vf_below(2); unsigned big = vf_chance(1, 12) ? 40 : 6, n = 1 + vf_below(big); static BFDEV_MATRIX_TYPE b[1600]; for (unsigned i = 0; i < big * big; i++) b[i] = vf_below(3); const bfdev_matrix_t *s = y->kind == MATRIX && vf_chance(1, 2) ? &y->mx[vf_below(2)] : &x->mx[vf_below(2)]; if (y != x && s >= y->mx && s < y->mx + 2) VF_EV("owner.operands_elsewhere");
        switch (s->row ? vf_below(6) : 0) { case 0: L(r = bfdev_matrix_import(&x->mx[d], b, n, vf_chance(1, 2) ? n : 1 + vf_below(big))); break; case 1: L(r = bfdev_matrix_trans(&x->mx[d], s)); break; case 2: L(r = bfdev_matrix_set(&x->mx[d], s)); break; case 3: L(r = bfdev_matrix_mul(&x->mx[d], s, &x->mx[d])); break; case 4: L(r = bfdev_matrix_add(&x->mx[d], s, s)); break; default: L(bfdev_matrix_release(&x->mx[d])); r = 0; } for (int i = 0; i < 2; i++) if (x->mx[i].row) { uint64_t q = 0; for (unsigned j = 0; j < x->mx[i].row * x->mx[i].col; j++) q |= *bfdev_matrix_data(&x->mx[i], j / x->mx[i].col, j % x->mx[i].col); if (q >> 32) L(bfdev_matrix_release(&x->mx[i])); } if (r != -BFDEV_EINVAL) VF_EQ(r, 0, "matrix"); break; }
    case MPI: { int d = vf_below(3), f = (d + 1) % 3; uint64_t b[9]; for (int i = 0; i < 9; i++) b[i] = vf_edge64(); const bfdev_mpi_t *s = y->kind == MPI && vf_chance(1, 2) ? &y->mp[vf_below(3)] : &x->mp[vf_below(3)], *t = &x->mp[vf_below(3)]; bool el = y != x && s >= y->mp && s < y->mp + 3; if (el) VF_EV("owner.operands_elsewhere");
        int o = vf_below(14); if (bfdev_mpi_length(s) > 30 || bfdev_mpi_length(t) > 30) { d = t - x->mp; o = 0; }
        switch (o) { case 0:; unsigned len = vf_below(10); bool sg = vf_chance(1, 2); L(r = bfdev_mpi_import(&x->mp[d], b, len, sg)); break; case 1: L(r = bfdev_mpi_add(&x->mp[d], s, t)); break; case 2: L(r = bfdev_mpi_sub(&x->mp[d], s, t)); break; case 3: case 4: if (bfdev_mpi_length(s) < 30) L(r = bfdev_mpi_mul(&x->mp[d], s, t)); break; case 5: case 6: if (bfdev_mpi_length(t)) L(r = bfdev_mpi_div(&x->mp[d], &x->mp[f], s, t)); break; case 7: if (bfdev_mpi_length(t)) L(r = bfdev_mpi_mod(&x->mp[d], s, t)); break; case 8: L(r = bfdev_mpi_shli(&x->mp[d], t, vf_below(130))); break; case 9: L(r = bfdev_mpi_shri(&x->mp[d], s, vf_below(130))); break; case 10: L(r = bfdev_mpi_xor(&x->mp[d], s, t)); break; case 11: L(r = bfdev_mpi_set(&x->mp[d], s)); break; case 12: L(r = bfdev_mpi_divi(&x->mp[d], &x->mp[f], s, 1 + vf_edge64() / 2)); break; default: L(bfdev_mpi_release(&x->mp[d])); } VF_EQ(r, 0, "mpi"); if (x->own) VF_CHECK(x->A.live <= 3, "mpi-blocks", "three numbers hold %zu blocks", x->A.live); break; }
    case TS: { char t[1500]; unsigned n = vf_chance(1, 4) ? vf_below(1500) : vf_below(80); for (unsigned i = 0; i < n; i++) t[i] = 'a' + vf_below(4); bfdev_ts_linear_t lin; size_t had = x->A.live; L(bfdev_textsearch_linear(x->ts, &lin, t, n)); VF_EQ(x->A.live, had, "textsearch-blocks"); break; }
    case MISC: switch (vf_below(6)) {
        case 0: { unsigned n = vf_chance(1, 3) ? vf_below(5000) : vf_below(20), m = vf_below(n + 9); char *q, *w = vf_xmalloc(n + 1); for (unsigned i = 0; i < n; i++) w[i] = 'a' + vf_below(26); w[n] = 0; if (vf_chance(1, 2)) { m = n; L(q = bfdev_strdup(x->alp, w)); } else L(q = bfdev_strndup(x->alp, w, m)); if (m > n) m = n; VF_CHECK(q && strlen(q) == m && !memcmp(q, w, m), "strdup", "copy"); if (x->own) { VF_EQ(x->A.live, 1, "strdup-blocks"); VF_CHECK(x->A.bytes > m, "strdup-blocks", "%zu bytes for %u characters", x->A.bytes, m); } L(bfdev_free(x->alp, q)); free(w); break; }
        case 1: { unsigned n = 1 + (vf_chance(1, 4) ? vf_below(400) : vf_below(8)), c = 0; char *w = vf_xmalloc(n * 14 + 8), *e = w, **v; for (unsigned i = 0; i < n; i++) { for (unsigned k = 1 + vf_below(2); k--;) *e++ = ' '; for (unsigned k = 1 + vf_below(12); k--;) *e++ = 'a' + vf_below(26); } *e = 0; L(v = bfdev_argv_split(x->alp, w, vf_chance(1, 2) ? &c : NULL)); VF_CHECK(v && (!c || c == n), "argv", "words"); VF_CHECK(v[n - 1] && !v[n], "argv", "words"); L(bfdev_argv_destroy(x->alp, v)); free(w); break; }
        case 2: case 3: { unsigned n = vf_chance(1, 3) ? vf_below(400) : vf_below(20), m = vf_chance(1, 3) ? vf_below(400) : vf_below(20), d, in = vf_below(4), de = vf_below(4); if ((uint64_t)n * m > 9000 && vf_chance(1, 2)) vf_chance(1, 2) ? (n %= 20) : (m %= 20); char *a = vf_xmalloc(n + 1), *b = vf_xmalloc(m + 1); memset(a, 'p', n); memset(b, 'q', m); a[n] = b[m] = 0; L(d = bfdev_levenshtein(x->alp, a, b, 99, 99, in, de)); VF_EQ(d, n * de + m * in, "distance"); free(a); free(b); if (n > 64 || m > 64) VF_EV("owner.long_strings"); break; }
        default: { unsigned long *b; unsigned n = 1 + (vf_chance(1, 2) ? vf_below(500) : vf_below(200000)); if (vf_chance(1, 2)) L(b = bfdev_bitmap_alloc(x->alp, n)); else L(b = bfdev_bitmap_zalloc(x->alp, n)); VF_CHECK(b, "bitmap", "refused"); if (x->own) VF_CHECK(x->A.bytes >= (n + 7) / 8, "bitmap-size", "%zu bytes for %u bits", x->A.bytes, n); bfdev_bitmap_zero(b, n); L(bfdev_bitmap_free(x->alp, b)); } }
    check_blocks(x, "strings-blocks"); break;
    }
}
static void close_inst(inst_t *x)
{
    bool cb = vf_chance(3, 4); cur = x;
    switch (x->kind) {
    case ARRAY: L(bfdev_array_release(&x->array)); break;
    case BTREE: L(bfdev_btree_release(&x->bt, cb ? gone : NULL, x)); break;
    case RADIX: L(bfdev_radix_release(&x->rx)); break;
    case HASHMAP: L(bfdev_hashmap_release(&x->hm)); break;
    case SKIP: L(bfdev_skiplist_destroy(x->sk, cb ? gone : NULL, x)); break;
    case FIFO: L(bfdev_fifo_dynamic_free(&x->ff.fifo)); break;
    case RING: L(bfdev_ringbuf_dynamic_free(&x->rb.ringbuf)); break;
    case BLOOM: L(bfdev_bloom_destroy(x->bl)); break;
    case CACHE: L(bfdev_cache_destroy(x->ca)); break;
    case FSM: L(bfdev_fsm_reset(&x->fs, &S[0])); L(bfdev_array_release(&x->fs.stack)); break;
    case MATRIX: for (int i = 0; i < 2; i++) L(bfdev_matrix_release(&x->mx[i])); break;
    case MPI: for (int i = 0; i < 3; i++) L(bfdev_mpi_release(&x->mp[i])); break;
    case TS: L(bfdev_textsearch_destroy(x->ts)); break;
    default: break;
    }
    if (cb && (x->kind == BTREE || x->kind == SKIP)) { for (int i = 0; i < NE; i++) VF_EQ(x->e[i].gone, x->e[i].live, "release-calls"); VF_EV("owner.release_counted"); }
    check_blocks(x, "held-after-release"); VF_EV("owner.closed"); x->open = false;
    /* releasing what is already released is harmless where the structure remains */
    if (vf_chance(1, 4)) { if (x->kind == ARRAY) L(bfdev_array_release(&x->array)); if (x->kind == RADIX) L(bfdev_radix_release(&x->rx)); if (x->kind == HASHMAP) L(bfdev_hashmap_release(&x->hm)); if (x->kind == MATRIX) L(bfdev_matrix_release(&x->mx[0])); if (x->kind == MPI) L(bfdev_mpi_release(&x->mp[0])); VF_EV("owner.released_twice"); }
}
static void scn_side_by_side(void)
{
    int n = 1 + vf_below(5), steps = vf_below(vf_deep ? 900 : 300); bool same = vf_chance(1, 3); int kind = vf_below(KINDS); inst_t *I = vf_xcalloc(n * sizeof *I); static bool once;
    hooks(); srand(vf_rand()); dflt_ok = vf_chance(1, 4); dflt_live = 0; seen_own = seen_dflt = 0;
    if (!once) { once = true; for (int i = 0; i < 64; i++) labels[i] = i; for (int i = 0; i < 2; i++) { S[i].trans = T[i]; S[i].tnum = 2; T[i][0].type = 0; T[i][0].next = &S[!i]; T[i][0].stack = 1; T[i][1].type = 1; T[i][1].stack = -1; } (void)state_dummy; }
    for (int i = 0; i < n; i++) { I[i].kind = same ? kind : (int)vf_below(KINDS); I[i].own = !dflt_ok; vfa_init(&I[i].A); I[i].al = (bfdev_alloc_t)BFDEV_ALLOC_INIT(&o_ops, &I[i].A); I[i].alp = I[i].own ? &I[i].al : NULL; vf_op("structure %d: %s, %s allocator", i, KN[I[i].kind], I[i].own ? "own" : "default"); open_inst(&I[i]); }
    for (int s = 0; s < steps; s++) {
        inst_t *x = &I[vf_below(n)], *y = &I[vf_below(n)]; if (!x->open) { open_inst(x); VF_EV("owner.reopened"); } if (!y->open || (x->kind != y->kind)) y = x; step(x, y); if (vf_chance(1, 120)) close_inst(x);
    }
    while (n--) { if (I[n].open) close_inst(&I[n]); vf_obs(I[n].A.allocs * 4096 + I[n].A.frees); vf_obs(I[n].A.reallocs * 16 + I[n].kind); vfa_done(&I[n].A, "leak"); }
    if (dflt_ok) { VF_EQ(dflt_live, 0, "default-heap-leak"); VF_EVN("owner.default_blocks", seen_dflt); } else VF_EVN("owner.own_blocks", seen_own);
    vf_obs(seen_dflt); free(I);
}
VF_SCENARIOS({ "side_by_side", scn_side_by_side, 1 });
