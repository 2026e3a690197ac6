/* C35: every memory request of every operation is made to fail, once or for good; the operation
 * must report it, leave a usable structure, lose nothing, and work when it is retried. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/array.h>
#include <bfdev/btree.h>
#include <bfdev/radix.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
#include <bfdev/fsm.h>
#include <bfdev/matrix.h>
#include <bfdev/mpi.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/bloom.h>
#include <bfdev/cache.h>
#include <bfdev/bitmap.h>
#include <bfdev/string.h>
#include <bfdev/argv.h>
#include <bfdev/levenshtein.h>
#include <bfdev/textsearch.h>

static vf_alloc_t A; static unsigned long f0;
static void arm(unsigned k) { A.fail_at = A.calls + k; A.fail_persist = vf_chance(1, 2); f0 = A.failed; }
static bool fired(void) { bool hit = A.failed > f0; A.fail_at = 0; A.fail_persist = false; return hit; }
/* EXPR is run with its 1st, 2nd, ... request failing until a run succeeds; after each refused
 * run UNCHANGED is evaluated.  OK says whether the run reported success. */
#define TRY(NAME, EXPR, OK, UNCHANGED) do { \
    for (unsigned k_ = 1;; k_++) { \
        size_t live_ = A.live; arm(k_); EXPR; bool hit_ = fired(); \
        if (OK) { if (hit_) VF_EV("oom." NAME ".tolerated"); break; } \
        VF_CHECK(hit_, NAME "-refused", NAME " failed although every request was served"); \
        VF_EV("oom." NAME ".refused"); vf_obs(k_); \
        UNCHANGED; \
        if (k_ > 3000) vf_fail(NAME "-never", NAME " never succeeds"); \
        (void)live_; \
    } } while (0)
#define SAME_LIVE(NAME) VF_EQ(A.live, live_, NAME "-blocks")
#define BEGIN vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A)

/* ---- array ---- */
static void scn_array(void)
{
    BEGIN; size_t cell = 1 + vf_below(40), n = 0; bfdev_array_t a; unsigned char *m = vf_xmalloc(1 << 20), *p = NULL; int ret = 0; bfdev_array_init(&a, &al, cell);
#define A_SAME do { SAME_LIVE("array"); VF_EQ(bfdev_array_index(&a), n, "array-index"); if (n) VF_CHECK(!memcmp(bfdev_array_data(&a, 0), m, n * cell), "array-content", "contents changed"); } while (0)
    for (int op = 5 + vf_below(40); op--;) {
        size_t k = 1 + vf_below(vf_chance(1, 5) ? 400 : 30); if ((n + k) * cell > 1 << 20) break;
        switch (vf_below(6)) {
        case 0: case 1: vf_op("push %zu", k); TRY("array.push", p = bfdev_array_push(&a, k), p, A_SAME); for (size_t i = 0; i < k * cell; i++) m[n * cell + i] = p[i] = vf_rand(); n += k; break;
        case 2: vf_op("resize %zu", k); { size_t o = n; TRY("array.resize", ret = bfdev_array_resize(&a, k), !ret, A_SAME); n = k; if (n > o) { p = bfdev_array_data(&a, o); for (size_t i = 0; i < (n - o) * cell; i++) m[o * cell + i] = p[i] = vf_rand(); } } break;
        case 3: vf_op("reserve %zu", k); TRY("array.reserve", ret = bfdev_array_reserve(&a, k), !ret, A_SAME); break;
        case 4: { unsigned char *e = vf_xmalloc(cell); (void)e; free(e); if (n) { size_t q = vf_below(n + 1); p = bfdev_array_pop(&a, q); VF_CHECK(p, "array-pop", "refused"); n -= q; } break; }
        case 5: if (vf_chance(1, 4)) { bfdev_array_release(&a); n = 0; VF_EQ(A.live, 0, "array-release"); } break;
        }
        VF_EQ(bfdev_array_index(&a), n, "array-index"); if (n) VF_CHECK(!memcmp(bfdev_array_data(&a, 0), m, n * cell), "array-content", "contents changed"); vf_obs(n);
    }
    bfdev_array_release(&a); vfa_done(&A, "array-leak"); free(m);
}

/* ---- B+tree ---- */
typedef struct { uintptr_t k[3]; void *v; } kv_t;
static unsigned kl; static kv_t *m; static size_t mn; static uintptr_t *kb[2];
static int kc(const uintptr_t *a, const uintptr_t *b) { for (unsigned i = 0; i < kl; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static void bt_same(bfdev_btree_root_t *r)
{
    size_t i = 0; void *v; uintptr_t *k = kb[0];
    bfdev_btree_for_each(r, k, v) { VF_CHECK(i < mn, "btree-content", "too many entries"); VF_CHECK(v == m[i].v && !kc(k, m[i].k), "btree-content", "entry %zu differs", i); i++; }
    VF_EQ(i, mn, "btree-count");
    for (i = 0; i < mn; i++) { memcpy(kb[0], m[i].k, kl * sizeof(uintptr_t)); VF_PEQ(bfdev_btree_lookup(r, kb[0]), m[i].v, "btree-lookup"); }
}
static const bfdev_btree_ops_t bops = { bfdev_btree_alloc, bfdev_btree_free, bfdev_btree_key_find, NULL, NULL };
static void scn_btree(void)
{
    BEGIN; static bfdev_btree_layout_t lay; bfdev_btree_root_t r; size_t cap = 5 + vf_below(vf_deep ? 200 : 60); int pat = vf_below(3); unsigned long seq = 0; int ret = 0;
    lay.keylen = 1 + vf_below(3); lay.keynum = 2 + vf_below(5); lay.ptrindex = lay.keylen * lay.keynum; lay.nodesize = (lay.keylen + 1) * lay.keynum * sizeof(uintptr_t);
    kl = lay.keylen; kb[0] = vf_xcalloc(kl * 8); kb[1] = vf_xcalloc(kl * 8); m = vf_xmalloc((cap + 1) * sizeof *m); mn = 0;
    r = BFDEV_BTREE_INIT(&lay, &bops, NULL); r.alloc = &al;
    for (size_t op = 0; op < cap * 3; op++) {
        uintptr_t k[3] = { 0 }; size_t i; for (unsigned j = 0; j < kl; j++) k[j] = pat == 0 ? vf_below(cap) : pat == 1 ? (j + 1 == kl ? seq++ : 0) : (j + 1 == kl ? 100000 - seq++ : 1);
        for (i = 0; i < mn && kc(m[i].k, k) > 0; i++); bool have = i < mn && !kc(m[i].k, k); void *v = (void *)(uintptr_t)(vf_rand() | 1);
        if (vf_chance(2, 3) && !have && mn < cap) {
            vf_op("insert %lx of %zu", (long)k[kl - 1], mn); memcpy(kb[1], k, kl * 8);
            TRY("btree.insert", ret = bfdev_btree_insert(&r, kb[1], v), !ret, VF_EQ(ret, -BFDEV_ENOMEM, "btree-code"); SAME_LIVE("btree"); bt_same(&r);
                if (mn && vf_chance(1, 6)) { /* and the next thing done is a removal */ size_t d = vf_below(mn); memcpy(kb[0], m[d].k, kl * 8); VF_PEQ(bfdev_btree_remove(&r, kb[0]), m[d].v, "btree-remove-after"); memmove(m + d, m + d + 1, (mn - d - 1) * sizeof *m); mn--; if (d < i) i--; bt_same(&r); memcpy(kb[1], k, kl * 8); VF_EV("oom.btree.remove_after"); });
            memmove(m + i + 1, m + i, (mn - i) * sizeof *m); memcpy(m[i].k, k, sizeof k); m[i].v = v; mn++;
        } else if (mn && vf_chance(1, 2)) { i = vf_below(mn); memcpy(kb[0], m[i].k, kl * 8); vf_op("remove %lx", (long)m[i].k[kl - 1]); VF_PEQ(bfdev_btree_remove(&r, kb[0]), m[i].v, "btree-remove"); memmove(m + i, m + i + 1, (mn - i - 1) * sizeof *m); mn--; }
        if (vf_chance(1, 8)) bt_same(&r);
    }
    bt_same(&r); vf_obs(mn); while (mn) { memcpy(kb[0], m[mn - 1].k, kl * 8); VF_PEQ(bfdev_btree_remove(&r, kb[0]), m[mn - 1].v, "btree-drain"); mn--; }
    bfdev_btree_release(&r, NULL, NULL); vfa_done(&A, "btree-leak"); free(m); free(kb[0]); free(kb[1]);
}

/* ---- radix ---- */
typedef struct { uint64_t x, y, z; } cell_t;
static uint64_t *ri; static cell_t **rp; static size_t rn;
static void rx_same(void *r_)
{
    BFDEV_GENERIC_RADIX(cell_t) *r = r_; size_t i, c = 0; uint64_t at = 0; cell_t *v;
    for (i = 0; i < rn; i++) { VF_PEQ(bfdev_radix_find(r, ri[i]), rp[i], "radix-find"); VF_EQ(rp[i]->x, ri[i] * 3, "radix-content"); }
    bfdev_radix_for_each(v, r, &at) { for (i = 0; i < rn && ri[i] != at; i++); VF_CHECK(i < rn && rp[i] == v, "radix-walk", "index %llu was never allocated", (unsigned long long)at); c++; }
    VF_EQ(c, rn, "radix-walk-count"); at = 0; c = 0;
    bfdev_radix_for_each_reverse(v, r, &at) c++;
    VF_EQ(c, rn, "radix-reverse-count");
}
static void scn_radix(void)
{
    BEGIN; enum { N = 80 }; BFDEV_GENERIC_RADIX(cell_t) r = BFDEV_RADIX_INIT(&r, &al); uint64_t idx[N]; cell_t *ptr[N], *p = NULL; ri = idx; rp = ptr; rn = 0; int ret = 0; int hi = vf_below(4);
    for (int op = 10 + vf_below(60); op--;) {
        uint64_t k = hi == 0 ? vf_below(400) : hi == 1 ? vf_below(1 << 20) : hi == 2 ? vf_edge64() % ((~0ULL / 256) * 10) : (1ULL << vf_below(58)); size_t i; if (rn && vf_chance(1, 3)) k = idx[vf_below(rn)];
        for (i = 0; i < rn && idx[i] != k; i++);
        if (vf_chance(3, 5) && i == rn && rn < N) {
            vf_op("alloc %llu", (unsigned long long)k); TRY("radix.alloc", p = bfdev_radix_alloc(&r, k), p, rx_same(&r); VF_PEQ(bfdev_radix_find(&r, k), NULL, "radix-partial"); if (rn && vf_chance(1, 4)) { size_t j = vf_below(rn); VF_EQ(bfdev_radix_free(&r, idx[j]), 0, "radix-free-after"); idx[j] = idx[--rn]; ptr[j] = ptr[rn]; rx_same(&r); VF_EV("oom.radix.free_after"); });
            p->x = k * 3; idx[rn] = k; ptr[rn++] = p;
        } else if (i < rn) { vf_op("free %llu", (unsigned long long)k); VF_EQ(bfdev_radix_free(&r, k), 0, "radix-free"); idx[i] = idx[--rn]; ptr[i] = ptr[rn]; }
        rx_same(&r); vf_obs(rn);
    }
    if (vf_chance(1, 2)) { /* charging a range: what was charged before the failure stays usable */
        bfdev_radix_release(&r); rn = 0; VF_EQ(A.live, 0, "radix-release"); uint64_t n = vf_below(200); vf_op("charge %llu", (unsigned long long)n);
        TRY("radix.charge", ret = bfdev_radix_charge(&r, 0, n), !ret, VF_EQ(ret, -BFDEV_ENOMEM, "radix-code"); VF_CHECK(A.live >= live_, "radix-charge-blocks", "blocks were given back"));
        unsigned long calls = A.calls; for (uint64_t j = 0; j < n && rn < N; j += 1 + vf_below(4)) { p = bfdev_radix_alloc(&r, j); VF_CHECK(p, "radix-charged", "no cell"); } VF_EQ(A.calls, calls, "radix-charge-promise");
    }
    bfdev_radix_release(&r); vfa_done(&A, "radix-leak");
}

/* ---- hash map ---- */
typedef struct { unsigned long key; bfdev_hlist_node_t n; bool live, seen; } el_t;
#define EL(x) bfdev_hlist_entry(x, el_t, n)
static int hm;
static unsigned long hv(unsigned long k) { return hm == 0 ? k : hm == 1 ? 5 : vf_mix64(k); }
static unsigned long h_key(const void *k, void *pd) { return hv(*(const unsigned long *)k); }
static unsigned long h_node(const bfdev_hlist_node_t *n, void *pd) { return hv(EL(n)->key); }
static long h_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pd) { return EL(a)->key != EL(b)->key; }
static long h_find(const bfdev_hlist_node_t *a, const void *k, void *pd) { return EL(a)->key != *(const unsigned long *)k; }
static const bfdev_hashmap_ops_t hops = { h_key, h_node, h_eq, h_find, NULL, NULL };
static el_t *he; static size_t hn, hl;
static void hm_same(bfdev_hashmap_t *h)
{
    bfdev_hlist_node_t *n; unsigned long idx; size_t c = 0; VF_EQ(h->used, hl, "hashmap-used"); for (size_t i = 0; i < hn; i++) he[i].seen = false;
    bfdev_hashmap_for_each(n, h, idx) { el_t *p = EL(n); VF_CHECK(p->live && !p->seen, "hashmap-walk", "element %zd should not be there", p - he); p->seen = true; c++; }
    VF_EQ(c, hl, "hashmap-count"); for (size_t i = 0; i < hn; i++) VF_PEQ(bfdev_hashmap_find(h, &he[i].key), he[i].live ? &he[i].n : NULL, "hashmap-find");
}
static void scn_hashmap(void)
{
    BEGIN; bfdev_hashmap_t h; int ret = 0; hm = vf_below(3); hn = 1 + vf_below(hm == 1 ? 60 : 220); he = vf_xcalloc(hn * sizeof *he); hl = 0; bfdev_hashmap_init(&h, &al, &hops, NULL);
    for (size_t i = 0; i < hn; i++) he[i].key = i * 7 + 1;
    for (size_t op = 0; op < hn * 4; op++) {
        el_t *p = &he[vf_below(hn)]; bfdev_hlist_node_t *o = NULL; bool grow = op / hn % 2 == 0;
        if (!p->live && vf_chance(grow ? 5 : 1, 6)) {
            int st = vf_below(3); vf_op("insert %lu", p->key); bfdev_hlist_node_init(&p->n);
            TRY("hashmap.insert", ret = bfdev_hashmap_insert(&h, &p->n, &o, st == 0 ? BFDEV_HASHMAP_ADD : st == 1 ? BFDEV_HASHMAP_SET : BFDEV_HASHMAP_APPEND), !ret, VF_EQ(ret, -BFDEV_ENOMEM, "hashmap-code"); SAME_LIVE("hashmap"); hm_same(&h));
            p->live = true; hl++;
        } else if (p->live && vf_chance(grow ? 1 : 5, 6)) {
            vf_op("delete %lu", p->key); p->live = false; hl--; arm(1); ret = bfdev_hashmap_del(&h, &p->key, &o); bool hit = fired(); VF_EQ(ret, 0, "hashmap-delete"); VF_PEQ(o, &p->n, "hashmap-deleted"); if (hit) { VF_EV("oom.hashmap.delete_tolerated"); hm_same(&h); }
        }
        if (vf_chance(1, 16)) hm_same(&h);
    }
    hm_same(&h); vf_obs(hl); vf_obs(h.capacity); bfdev_hashmap_release(&h); vfa_done(&A, "hashmap-leak"); free(he);
}

/* ---- skip list ---- */
static long s_cmp(const void *a, const void *b, void *pd) { long x = *(const long *)a, y = *(const long *)b; return x < y ? -1 : x > y; }
static long s_find(const void *a, void *pd) { return s_cmp(a, pd, NULL); }
static void sk_same(bfdev_skip_head_t *h, long *keys, bool *live, size_t n)
{
    bfdev_skip_node_t *w; size_t below = SIZE_MAX, want = 0; for (size_t i = 0; i < n; i++) want += live[i];
    for (unsigned l = 0; l < h->levels; l++) { size_t c = 0; long last = LONG_MIN; bfdev_skiplist_for_each(w, h, l) { long k = *(long *)w->key; VF_CHECK(k >= last && live[(long *)w->key - keys], "skiplist-walk", "level %u wrong at key %ld", l, k); last = k; c++; } if (!l) VF_EQ(c, want, "skiplist-count"); VF_CHECK(c <= below, "skiplist-levels", "level %u larger than the one below", l); VF_CHECK(l < h->curr || !c, "skiplist-height", "members above the height"); if (l + 1 == h->curr) VF_CHECK(c, "skiplist-height", "recorded height %u but nothing there", h->curr); below = c; }
    for (size_t i = 0; i < n; i++) VF_CHECK(!!bfdev_skiplist_find(h, s_find, &keys[i]) == live[i], "skiplist-find", "key %ld", keys[i]);
}
static void scn_skiplist(void)
{
    BEGIN; size_t n = 1 + vf_below(60); long keys[64]; bool live[64] = { 0 }; bfdev_skip_head_t *h = NULL; int ret = 0; srand(vf_rand());
    TRY("skiplist.create", h = bfdev_skiplist_create(&al, 1 + vf_below(9)), h, SAME_LIVE("skiplist-create"));
    for (size_t i = 0; i < n; i++) keys[i] = (long)(i * 3) - 40;
    for (size_t op = 0; op < n * 4; op++) {
        size_t i = vf_below(n);
        if (!live[i]) { vf_op("insert %ld", keys[i]); TRY("skiplist.insert", ret = bfdev_skiplist_insert(h, &keys[i], s_cmp, NULL), !ret, VF_EQ(ret, -BFDEV_ENOMEM, "skiplist-code"); SAME_LIVE("skiplist"); sk_same(h, keys, live, n)); live[i] = true; }
        else if (vf_chance(1, 2)) { vf_op("delete %ld", keys[i]); bfdev_skiplist_delete(h, s_find, &keys[i]); live[i] = false; }
        vf_obs(h->curr);
    }
    sk_same(h, keys, live, n); bfdev_skiplist_destroy(h, NULL, NULL); vfa_done(&A, "skiplist-leak");
}

/* ---- state machine: a call stack of states ---- */
enum { NS = 7 };
static unsigned fcalls;
static int f_note(bfdev_fsm_event_t *e, void *d) { fcalls++; return 0; }
static int f_act(bfdev_fsm_event_t *e, void *d, void *c, void *n) { fcalls++; return 0; }
static void scn_fsm(void)
{
    BEGIN; bfdev_fsm_state_t s[NS]; bfdev_fsm_transition_t t[NS][3]; bfdev_fsm_t f; const bfdev_fsm_state_t *stk[400]; int depth = 0, cur = 0, ret = 0; memset(s, 0, sizeof s); memset(t, 0, sizeof t);
    for (int i = 0; i < NS; i++) { s[i].enter = s[i].exit = f_note; s[i].trans = t[i]; s[i].tnum = 3; t[i][0].type = 0; t[i][0].next = &s[(i + 1) % NS]; t[i][0].stack = 1; t[i][0].action = f_act; t[i][1].type = 1; t[i][1].stack = -1; t[i][2].type = 2; t[i][2].next = &s[(i + 3) % NS]; }
    bfdev_fsm_init(&f, &al, &s[0], NULL);
    for (int op = 20 + vf_below(300); op--;) {
        bfdev_fsm_event_t e = { vf_chance(3, 5) ? 0 : 1 + vf_below(2), NULL }; if (e.type == 0 && depth > 380) e.type = 1; if (e.type == 1 && !depth) continue;
        vf_op("event %u depth %d", e.type, depth);
        TRY("fsm.handle", (fcalls = 0, ret = bfdev_fsm_handle(&f, &e)), ret >= 0, VF_EQ(ret, -BFDEV_ENOMEM, "fsm-code"); SAME_LIVE("fsm"); VF_PEQ(bfdev_fsm_curr(&f), &s[cur], "fsm-state"); VF_EQ(f.stack.index, depth, "fsm-depth"); VF_EQ(fcalls, 0, "fsm-callbacks"));
        if (e.type == 0) { stk[depth++] = &s[cur]; cur = (cur + 1) % NS; } else if (e.type == 1) cur = stk[--depth] - s; else cur = (cur + 3) % NS;
        VF_PEQ(bfdev_fsm_curr(&f), &s[cur], "fsm-current"); VF_EQ(f.stack.index, depth, "fsm-depth"); vf_obs(cur * 1000 + depth);
    }
    bfdev_fsm_reset(&f, &s[0]); bfdev_array_release(&f.stack); vfa_done(&A, "fsm-leak");
}

/* ---- matrices ---- */
typedef BFDEV_MATRIX_TYPE E;
static void scn_matrix(void)
{
    BEGIN; enum { N = 3 }; bfdev_matrix_t x[N]; E *v[N] = { 0 }; unsigned d = 1 + vf_below(9), R[N], C[N]; int ret = 0;
    for (int i = 0; i < N; i++) { bfdev_matrix_init(&x[i], &al); R[i] = C[i] = 0; v[i] = vf_xcalloc(sizeof(E) * 4096); }
#define M_SAME(D) do { SAME_LIVE("matrix"); for (int i_ = 0; i_ < N; i_++) { VF_EQ(x[i_].row, R[i_], "matrix-rows"); VF_EQ(x[i_].col, C[i_], "matrix-cols"); for (unsigned q_ = 0; q_ < R[i_] * C[i_]; q_++) { const E *e_ = bfdev_matrix_data(&x[i_], q_ / C[i_], q_ % C[i_]); VF_CHECK(e_ && *e_ == v[i_][q_], "matrix-content", "element %u of %d changed", q_, i_); } } } while (0)
    for (int op = 6 + vf_below(20); op--;) {
        int D = vf_below(N), P = vf_below(N), Q = vf_below(N), o = vf_below(7); if (vf_chance(1, 8)) { bfdev_matrix_release(&x[D]); R[D] = C[D] = 0; continue; } if (vf_chance(1, 10)) d = 1 + vf_below(40);
        if (o && (!R[P] || !R[Q])) o = 0; E *t = vf_xcalloc(sizeof(E) * 4096); unsigned r = 0, c = 0; vf_op("matrix op %d D%d P%d Q%d", o, D, P, Q);
        switch (o) {
        case 0: r = d; c = vf_chance(1, 2) ? d : 1 + vf_below(9); for (unsigned i = 0; i < r * c; i++) t[i] = vf_range(-9, 9); { E *b = vf_dup(t, sizeof(E) * r * c); TRY("matrix.import", ret = bfdev_matrix_import(&x[D], b, r, c), !ret, M_SAME(D)); free(b); } break;
        case 1: case 2: if (R[P] != R[Q] || C[P] != C[Q]) { free(t); continue; } r = R[P]; c = C[P]; for (unsigned i = 0; i < r * c; i++) t[i] = o == 1 ? v[P][i] + v[Q][i] : v[P][i] - v[Q][i]; TRY("matrix.addsub", ret = o == 1 ? bfdev_matrix_add(&x[D], &x[P], &x[Q]) : bfdev_matrix_sub(&x[D], &x[P], &x[Q]), !ret, M_SAME(D)); break;
        case 3: case 4: if (C[P] != R[Q] || R[P] * C[Q] > 4000) { free(t); continue; } r = R[P]; c = C[Q]; for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) for (unsigned l = 0; l < C[P]; l++) t[i * c + j] += v[P][i * C[P] + l] * v[Q][l * c + j]; TRY("matrix.mul", ret = bfdev_matrix_mul(&x[D], &x[P], &x[Q]), !ret, M_SAME(D)); break;
        case 5: r = C[P]; c = R[P]; for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) t[i * c + j] = v[P][j * r + i]; TRY("matrix.trans", ret = bfdev_matrix_trans(&x[D], &x[P]), !ret, M_SAME(D)); break;
        default: r = R[P]; c = C[P]; memcpy(t, v[P], sizeof(E) * r * c); TRY("matrix.set", ret = bfdev_matrix_set(&x[D], &x[P]), !ret, M_SAME(D)); break;
        }
        if (r * c > 4000) { free(t); break; }
        for (unsigned i = 0; i < r * c; i++) t[i] %= 1000003;
        if (o == 3 || o == 4) { /* keep the entries small */ TRY("matrix.import", ret = bfdev_matrix_import(&x[D], t, r, c), !ret, (void)0); }
        R[D] = r; C[D] = c; { const E *chk = bfdev_matrix_data(&x[D], r - 1, c - 1); VF_CHECK(chk, "matrix-result", "no last element"); } if (o != 3 && o != 4) for (unsigned i = 0; i < r * c; i++) { const E *e = bfdev_matrix_data(&x[D], i / c, i % c); VF_CHECK((*e - t[i]) % 1000003 == 0, "matrix-result", "element %u", i); t[i] = *e; }
        memcpy(v[D], t, sizeof(E) * r * c); vf_obs_mem(t, sizeof(E) * r * c); free(t);
    }
    for (int i = 0; i < N; i++) { bfdev_matrix_release(&x[i]); free(v[i]); } vfa_done(&A, "matrix-leak");
}

/* ---- big integers: the same operation without faults on copies is the oracle ---- */
enum { NV = 4 };
static int mpi_op(bfdev_mpi_t *v, int o, int d, int e, int a, int b, uint64_t vi, const uint64_t *buf, unsigned len, bool plus)
{
    switch (o) {
    case 0: return bfdev_mpi_add(&v[d], &v[a], &v[b]); case 1: return bfdev_mpi_sub(&v[d], &v[a], &v[b]); case 2: return bfdev_mpi_mul(&v[d], &v[a], &v[b]);
    case 3: return bfdev_mpi_div(&v[d], &v[e], &v[a], &v[b]); case 4: return bfdev_mpi_mod(&v[d], &v[a], &v[b]); case 5: return bfdev_mpi_addi(&v[d], &v[a], vi);
    case 6: return bfdev_mpi_subi(&v[d], &v[a], vi); case 7: return bfdev_mpi_muli(&v[d], &v[a], vi); case 8: return bfdev_mpi_divi(&v[d], &v[e], &v[a], vi); case 9: return bfdev_mpi_modi(&v[d], &v[a], vi);
    case 10: return bfdev_mpi_and(&v[d], &v[a], &v[b]); case 11: return bfdev_mpi_or(&v[d], &v[a], &v[b]); case 12: return bfdev_mpi_xor(&v[d], &v[a], &v[b]);
    case 13: return bfdev_mpi_shli(&v[d], &v[a], vi % 700); case 14: return bfdev_mpi_shri(&v[d], &v[a], vi % 700); case 15: return bfdev_mpi_bseti(&v[d], vi % 900); case 16: return bfdev_mpi_seti(&v[d], vi);
    case 17: return bfdev_mpi_set(&v[d], &v[a]); default: return bfdev_mpi_import(&v[d], buf, len, plus);
    }
}
static const char *const MO[] = { "add", "sub", "mul", "div", "mod", "addi", "subi", "muli", "divi", "modi", "and", "or", "xor", "shli", "shri", "bseti", "seti", "set", "import" };
static void scn_mpi(void)
{
    BEGIN; bfdev_mpi_t v[NV], s[NV]; for (int i = 0; i < NV; i++) { bfdev_mpi_init(&v[i], &al); bfdev_mpi_init(&s[i], NULL); }
    unsigned maxl = vf_chance(1, 3) ? 20 : 5;
    for (int op = 8 + vf_below(30); op--;) {
        int o = vf_below(22), d = vf_below(NV), e, a = vf_below(NV), b = vf_below(NV), ret = 0, want; uint64_t vi = vf_edge64(), buf[24]; unsigned len = vf_below(maxl); bool plus = vf_chance(1, 2); do e = vf_below(NV); while (e == d); if (op > 26) o = 18;
        for (unsigned i = 0; i < len; i++) buf[i] = vf_edge64();
        if (bfdev_mpi_length(&v[a]) > 40 || bfdev_mpi_length(&v[b]) > 40) { d = vf_chance(1, 2) ? a : b; o = 18; }
        vf_op("%s d%d e%d a%d(%lu) b%d(%lu)", MO[o > 18 ? 18 : o], d, e, a, bfdev_mpi_length(&v[a]), b, bfdev_mpi_length(&v[b]));
        want = mpi_op(s, o, d, e, a, b, vi, buf, len, plus);
        bool two = o == 3 || o == 8;
        for (unsigned k = 1;; k++) {
            bfdev_mpi_t keep[NV]; for (int i = 0; i < NV; i++) { bfdev_mpi_init(&keep[i], NULL); bfdev_mpi_set(&keep[i], &v[i]); }
            arm(k); ret = mpi_op(v, o, d, e, a, b, vi, buf, len, plus); bool hit = fired();
            if (!hit || ret >= 0) { if (hit) VF_EV("oom.mpi.tolerated"); for (int i = 0; i < NV; i++) bfdev_mpi_release(&keep[i]); break; }
            VF_EV("oom.mpi.refused"); vf_obs(k * 32 + o); VF_CHECK(ret < 0, "mpi-code", "%s returned %d", MO[o > 18 ? 18 : o], ret); if (two) VF_EV("oom.mpi.refused_division"); if (o == 2) VF_EV("oom.mpi.refused_product");
            for (int i = 0; i < NV; i++) {
                bool sg, ks; const uint64_t *p = bfdev_mpi_data(&v[i], &sg), *q = bfdev_mpi_data(&keep[i], &ks); unsigned long n = bfdev_mpi_length(&v[i]), kn = bfdev_mpi_length(&keep[i]);
                if (i == d || (two && i == e)) { uint64_t sum = 0; VF_CHECK(n < 1000 && (!n || p[n - 1]), "mpi-valid", "%s: destination of %lu limbs is not a valid number", MO[o > 18 ? 18 : o], n); for (unsigned long j = 0; j < n; j++) sum += p[j]; if (sum == 42) VF_EV("mpi.luck"); }
                if (!(i == d || (two && i == e)) || 1) { bool same = n == kn && sg == ks && (!n || !memcmp(p, q, n * 8)); if (i != d && !(two && i == e)) VF_CHECK(same, "mpi-operand", "%s changed operand %d although it failed", MO[o > 18 ? 18 : o], i); if (same) VF_EV("oom.mpi.kept"); else { VF_EV("oom.mpi.dest_changed"); } }
            }
            for (int i = 0; i < NV; i++) { if (vf_chance(1, 2) || 1) { int r = bfdev_mpi_set(&v[i], &keep[i]); VF_EQ(r, 0, "mpi-restore"); } VF_EQ(bfdev_mpi_cmp(&v[i], &keep[i]), 0, "mpi-restored"); bfdev_mpi_release(&keep[i]); }
            if (k > 400) vf_fail("mpi-never", "%s never succeeds", MO[o > 18 ? 18 : o]);
        }
        VF_EQ(ret, want, "mpi-result"); for (int i = 0; i < NV; i++) VF_CHECK(!bfdev_mpi_cmp(&v[i], &s[i]), "mpi-value", "%s: variable %d differs from the run without faults", MO[o > 18 ? 18 : o], i);
        VF_EV("oom.mpi.ops");
    }
    for (int i = 0; i < NV; i++) { bfdev_mpi_release(&v[i]); bfdev_mpi_release(&s[i]); } vfa_done(&A, "mpi-leak");
}

/* ---- everything that is created in one call ---- */
static unsigned b_hash(unsigned f, const void *k, void *pd) { return vf_mix64(*(const uint64_t *)k + f); }
static unsigned long c_hash(const void *t, void *pd) { return vf_mix64((uintptr_t)t); }
static long c_find(const void *n, const void *t, void *pd) { return *(unsigned long *)n != (uintptr_t)t; }
static const bfdev_cache_ops_t cops = { c_hash, c_find };
static void scn_create(void)
{
    BEGIN; int ret = 0;
    switch (vf_below(11)) {
    case 0: { BFDEV_DECLARE_FIFO_DYNAMIC(q, uint32_t); q = BFDEV_FIFO_DYNAMIC_INIT(&q); unsigned n = 2 + vf_below(200), i; TRY("fifo.alloc", ret = bfdev_fifo_alloc(&q, &al, n), !ret, VF_EQ(ret, -BFDEV_ENOMEM, "fifo-code"); SAME_LIVE("fifo"); VF_CHECK(!bfdev_fifo_initialized(&q), "fifo-initialised", "claims to be initialised")); for (i = 0; i < n; i++) VF_CHECK(bfdev_fifo_put(&q, i * 3), "fifo-put", "refused"); for (i = 0; i < n; i++) { uint32_t v = 0; VF_CHECK(bfdev_fifo_get(&q, &v) && v == i * 3, "fifo-get", "element %u", i); } vf_obs(n); bfdev_fifo_dynamic_free(&q.fifo); break; }
    case 1: { BFDEV_DECLARE_RINGBUF_DYNAMIC(q, uint32_t); q = BFDEV_RINGBUF_DYNAMIC_INIT(&q); unsigned n = 2 + vf_below(200), i; TRY("ringbuf.alloc", ret = bfdev_ringbuf_alloc(&q, &al, n), !ret, VF_EQ(ret, -BFDEV_ENOMEM, "ringbuf-code"); SAME_LIVE("ringbuf"); VF_CHECK(!bfdev_ringbuf_initialized(&q), "ringbuf-initialised", "claims to be initialised")); for (i = 0; i < n; i++) VF_CHECK(!bfdev_ringbuf_put(&q, i * 3), "ringbuf-put", "overwrote something"); for (i = 0; i < n; i++) { uint32_t v = 0; VF_CHECK(bfdev_ringbuf_get(&q, &v) && v == i * 3, "ringbuf-get", "element %u", i); } vf_obs(n); bfdev_ringbuf_dynamic_free(&q.ringbuf); break; }
    case 2: { bfdev_bloom_t *b = NULL; unsigned n = 1 + vf_below(5000); TRY("bloom.create", b = bfdev_bloom_create(&al, n, b_hash, 3, NULL), b, SAME_LIVE("bloom")); uint64_t k = vf_rand(); VF_CHECK(!bfdev_bloom_peek(b, &k) && !bfdev_bloom_push(b, &k) && bfdev_bloom_peek(b, &k), "bloom-use", "wrong answers"); bfdev_bloom_destroy(b); vf_obs(n); break; }
    case 3: case 4: case 5: { bfdev_cache_head_t *h = NULL; unsigned long n = 2 + vf_below(30); const char *nm = vf_chance(1, 2) ? "lru" : "lfu"; vf_op("cache %s %lu", nm, n); TRY("cache.create", h = bfdev_cache_create(nm, &al, &cops, n, n, NULL), h, SAME_LIVE("cache")); unsigned long *lab = vf_xcalloc(64 * sizeof *lab); for (unsigned i = 0; i < 60; i++) { lab[i] = 1 + vf_below(n * 2); bfdev_cache_node_t *c = bfdev_cache_get(h, (void *)lab[i]); VF_CHECK(c, "cache-get", "nothing obtained"); if (c->status == BFDEV_CACHE_PENDING) { c->data = &lab[i]; bfdev_cache_committed(h); } bfdev_cache_put(h, c); } vf_obs(h->hits); bfdev_cache_destroy(h); free(lab); vf_obs(n); break; }
    case 6: { unsigned n = 1 + vf_below(3000); unsigned long *b = NULL; if (vf_chance(1, 2)) { TRY("bitmap.alloc", b = bfdev_bitmap_alloc(&al, n), b, SAME_LIVE("bitmap")); memset(b, 0x5a, (n + 63) / 64 * 8); bfdev_bitmap_zero(b, n); } else TRY("bitmap.alloc", b = bfdev_bitmap_zalloc(&al, n), b, SAME_LIVE("bitmap")); VF_CHECK(bfdev_bitmap_empty(b, n), "bitmap-zero", "not empty"); bfdev_bitmap_free(&al, b); vf_obs(n); break; }
    case 7: { static const char *const NM[] = { "bm", "kmp", "sunday" }; int k = vf_below(3); bfdev_ts_context_t *c = NULL; unsigned n = 1 + vf_below(40); char *p = vf_xmalloc(n + 1); for (unsigned i = 0; i < n; i++) p[i] = 'a' + vf_below(3); p[n] = 0; TRY("textsearch.create", c = bfdev_textsearch_create(&al, NM[k], p, n, vf_chance(1, 2) ? BFDEV_TS_IGCASE : 0), c, SAME_LIVE("textsearch")); bfdev_ts_linear_t lin; VF_EQ(bfdev_textsearch_linear(c, &lin, p, n), 0, "textsearch-use"); bfdev_textsearch_destroy(c); vf_obs(n); free(p); break; }
    case 8: { unsigned n = vf_below(60); char *p = vf_xmalloc(n + 1), *q = NULL; for (unsigned i = 0; i < n; i++) p[i] = 1 + vf_below(255); p[n] = 0; if (vf_chance(1, 2)) TRY("strdup", q = bfdev_strdup(&al, p), q, SAME_LIVE("strdup")); else TRY("strdup", q = bfdev_strndup(&al, p, n + vf_below(3)), q, SAME_LIVE("strndup")); VF_CHECK(!strcmp(p, q), "strdup-copy", "copy differs"); bfdev_free(&al, q); free(p); vf_obs(n); break; }
    case 9: { unsigned n = vf_below(60), c = 0; char *p = vf_xmalloc(n + 1), **v = NULL; for (unsigned i = 0; i < n; i++) p[i] = vf_chance(1, 3) ? ' ' : 'x'; p[n] = 0; TRY("argv.split", v = bfdev_argv_split(&al, p, &c), v, SAME_LIVE("argv")); VF_EQ(c, bfdev_argv_count(p), "argv-count"); VF_PEQ(v[c], NULL, "argv-end"); bfdev_argv_destroy(&al, v); free(p); vf_obs(n); break; }
    case 10: { char a[20], b[20]; unsigned i, d = 0, w; for (i = 0; i < vf_below(19); i++) a[i] = 'a' + vf_below(3); a[i] = 0; for (i = 0; i < vf_below(19); i++) b[i] = 'a' + vf_below(3); b[i] = 0; w = bfdev_levenshtein(&al, a, b, 1, 1, 1, 1); TRY("levenshtein", d = bfdev_levenshtein(&al, a, b, 1, 1, 1, 1), d != UINT_MAX, SAME_LIVE("levenshtein")); VF_EQ(d, w, "levenshtein-value"); vf_obs(d); break; }
    }
    vf_obs(A.calls); vfa_done(&A, "create-leak");
}
VF_SCENARIOS({ "array", scn_array, 2 }, { "btree", scn_btree, 2 }, { "radix", scn_radix, 2 }, { "hashmap", scn_hashmap, 2 }, { "skiplist", scn_skiplist, 2 }, { "fsm", scn_fsm, 1 }, { "matrix", scn_matrix, 3 }, { "mpi", scn_mpi, 6 }, { "create", scn_create, 4 });
