/* C10: hash maps and hash tables against a multimap model. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/hashmap.h>
#include <bfdev/hashtbl.h>

typedef struct { unsigned long pad; unsigned long key; bfdev_hlist_node_t n; bool live; unsigned seen; } el_t;
#define EL(x) bfdev_hlist_entry(x, el_t, n)
static unsigned long hmode, hmask; static int style; static unsigned long pd_cookie;
static unsigned long hashv(unsigned long k)
{
    switch (hmode) { case 0: return k; case 1: return 0; case 2: return k & hmask; case 3: return vf_mix64(k); case 4: return k << 48; default: return ~k; }
}
static unsigned long h_key(const void *k, void *pd) { VF_PEQ(pd, &pd_cookie, "callback-data"); VF_EV("hashmap.hash"); return hashv(*(const unsigned long *)k); }
static unsigned long h_node(const bfdev_hlist_node_t *n, void *pd) { VF_PEQ(pd, &pd_cookie, "callback-data"); return hashv(EL(n)->key); }
static long res(unsigned long a, unsigned long b) { if (a == b) return 0; switch (style) { case 0: return a < b ? -1 : 1; case 1: return a < b ? LONG_MIN : LONG_MAX; default: return 1L << 40; } }
static long h_eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pd) { VF_PEQ(pd, &pd_cookie, "callback-data"); return res(EL(a)->key, EL(b)->key); }
static long h_find(const bfdev_hlist_node_t *a, const void *k, void *pd) { VF_PEQ(pd, &pd_cookie, "callback-data"); return res(EL(a)->key, *(const unsigned long *)k); }
static bool ext(const bfdev_hashmap_t *h, void *pd) { VF_PEQ(pd, &pd_cookie, "callback-data"); VF_EV("hashmap.extend_cb"); return h->used >= h->capacity * 3; }
static bool shr(const bfdev_hashmap_t *h, void *pd) { VF_PEQ(pd, &pd_cookie, "callback-data"); VF_EV("hashmap.shrink_cb"); return h->used < h->capacity / 8 || h->used % 7 == 3; }
static const bfdev_hashmap_ops_t ops[4] = { { h_key, h_node, h_eq, h_find, NULL, NULL }, { h_key, h_node, h_eq, h_find, ext, NULL }, { h_key, h_node, h_eq, h_find, NULL, shr }, { h_key, h_node, h_eq, h_find, ext, shr } };

static el_t *e; static size_t ne, nlive;
static void mark(el_t *p) { VF_CHECK(p >= e && p < e + ne, "enumeration", "foreign element"); VF_CHECK(p->live, "enumeration", "element %zd is not live", p - e); VF_CHECK(!p->seen, "enumeration", "element %zd visited twice", p - e); p->seen = 1; }
static void walk(bfdev_hashmap_t *h)
{
    bfdev_hlist_node_t *n, *t; el_t *p, *q; unsigned long idx; size_t cnt = 0; int how = vf_below(4);
    for (size_t i = 0; i < ne; i++) e[i].seen = 0;
    switch (how) {
    case 0: bfdev_hashmap_for_each(n, h, idx) { mark(EL(n)); cnt++; } break;
    case 1: bfdev_hashmap_for_each_safe(n, t, h, idx) { mark(EL(n)); cnt++; } break;
    case 2: bfdev_hashmap_for_each_entry(p, h, n, idx) { mark(p); cnt++; } break;
    case 3: bfdev_hashmap_for_each_entry_safe(p, q, h, n, idx) { mark(p); cnt++; } break;
    }
    VF_EQ(cnt, nlive, "enumeration-count"); VF_EV("hashmap.walk");
}
static size_t count(unsigned long k) { size_t c = 0; for (size_t i = 0; i < ne; i++) c += e[i].live && e[i].key == k; return c; }
static el_t *spare(void) { size_t s = vf_below(ne); for (size_t i = 0; i < ne; i++) { el_t *p = e + (s + i) % ne; if (!p->live) return p; } return NULL; }

static void run_map(bool big)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); bfdev_hashmap_t h; bool useal = vf_chance(3, 4); const bfdev_hashmap_ops_t *o = &ops[vf_chance(1, 2) ? 0 : vf_below(4)];
    unsigned long span; int nops; unsigned maxbits = 0;
    hmode = vf_below(6); hmask = vf_below(16); style = vf_below(3); ne = big ? 200 + vf_below(vf_deep ? 2000 : 500) : 1 + vf_below(60); nlive = 0;
    if (big && (hmode == 1 || hmode == 2)) hmode = 3;
    e = vf_xcalloc(ne * sizeof(*e)); span = vf_chance(1, 3) ? 1 + vf_below(4) : vf_chance(1, 2) ? ne : ~0UL; nops = ne * 4 + 4;
    if (vf_chance(1, 2)) bfdev_hashmap_init(&h, useal ? &al : NULL, o, &pd_cookie); else h = BFDEV_HASHMAP_INIT(useal ? &al : NULL, o, &pd_cookie);
    for (int op = 0; op < nops; op++) {
        unsigned long k; el_t *p, *x; bfdev_hlist_node_t *old, *r; int ret, c = vf_below(12), ph = (op / (int)ne) % 2; size_t n;
        for (int i = vf_below(3); i >= 0; i--) { k = vf_below(span); if (span == ~0UL && vf_chance(1, 4)) k = vf_edge64(); if (span == ~0UL && nlive && vf_chance(1, 2)) { x = e + vf_below(ne); if (x->live) k = x->key; } }
        p = spare(); n = count(k); old = (void *)0x5a5a;
        if (c < (ph ? 3 : 7) && p) {
            memset(&p->n, 0xcc, sizeof p->n); bfdev_hlist_node_init(&p->n); p->key = k; int st = vf_below(4); bool api = vf_chance(1, 2), wantold = vf_chance(3, 4); bfdev_hlist_node_t **op_ = wantold ? &old : NULL;
            vf_op("insert %lu strategy %d have %zu", k, st, n);
            if (api) switch (st) { case 0: ret = bfdev_hashmap_add(&h, &p->n); op_ = NULL; break; case 1: ret = bfdev_hashmap_set(&h, &p->n, op_); break; case 2: ret = bfdev_hashmap_update(&h, &p->n, op_); break; default: ret = bfdev_hashmap_append(&h, &p->n); op_ = NULL; }
            else ret = bfdev_hashmap_insert(&h, &p->n, op_, st == 0 ? BFDEV_HASHMAP_ADD : st == 1 ? BFDEV_HASHMAP_SET : st == 2 ? BFDEV_HASHMAP_UPDATE : BFDEV_HASHMAP_APPEND);
            if (st == 3 || !n) {
                if (st == 2) { VF_EQ(ret, -BFDEV_ENOENT, "update-absent"); VF_EV("hashmap.update_absent"); }
                else { VF_EQ(ret, 0, "insert-result"); p->live = true; nlive++; VF_EV("hashmap.insert"); if (st == 3 && n) VF_EV("hashmap.append_dup"); }
                if (op_ && st != 3) VF_PEQ(old, (void *)0x5a5a, "old-untouched");
            } else {
                if (op_) { x = EL(old); VF_CHECK(x >= e && x < e + ne && x->live && x->key == k, "old", "old element is not a live one of key %lu", k); }
                if (st == 0) { VF_EQ(ret, -BFDEV_EEXIST, "add-existing"); VF_EV("hashmap.exists"); }
                else {
                    VF_EQ(ret, 0, "replace-result"); VF_EV("hashmap.replace"); p->live = true;
                    if (op_) x->live = false;
                    else { /* find which one left */ bfdev_hlist_node_t *w; unsigned long idx; for (size_t i = 0; i < ne; i++) e[i].seen = 0; bfdev_hashmap_for_each(w, &h, idx) { mark(EL(w)); } size_t miss = 0; for (size_t i = 0; i < ne; i++) if (e[i].live && !e[i].seen) { miss++; VF_EQ(e[i].key, k, "replaced-key"); e[i].live = false; } VF_EQ(miss, 1, "replaced-one"); }
                }
            }
        } else if (c < 9) {
            bool want = vf_chance(3, 4); vf_op("del %lu have %zu", k, n);
            if (!want && n > 1) want = true;
            ret = bfdev_hashmap_del(&h, &k, want ? &old : NULL);
            if (!n) { VF_EQ(ret, -BFDEV_ENOENT, "del-absent"); VF_PEQ(old, (void *)0x5a5a, "del-absent-node"); VF_EV("hashmap.del_absent"); }
            else { VF_EQ(ret, 0, "del-result"); VF_EV("hashmap.del"); if (want) x = EL(old); else for (x = e; !(x->live && x->key == k); x++); VF_CHECK(x >= e && x < e + ne && x->live && x->key == k, "del-node", "wrong element deleted"); x->live = false; nlive--; }
        } else {
            vf_op("find %lu have %zu", k, n); r = bfdev_hashmap_find(&h, &k); VF_EV("hashmap.find");
            if (!n) VF_PEQ(r, NULL, "find-absent"); else { VF_CHECK(r, "find", "key %lu not found", k); x = EL(r); VF_CHECK(x >= e && x < e + ne && x->live && x->key == k, "find", "wrong element"); }
        }
        VF_EQ(h.used, nlive, "used");
        if (h.bits > maxbits) maxbits = h.bits; if (h.bits > 4) VF_EV("hashmap.grown"); if (h.bits < maxbits) VF_EV("hashmap.shrunk");
        if (!big || vf_chance(1, 30)) { walk(&h); x = e + vf_below(ne); if (x->live) { r = bfdev_hashmap_find(&h, &x->key); VF_CHECK(r && EL(r)->live && EL(r)->key == x->key, "find-live", "live key %lu is unreachable", x->key); } }
        if (vf_chance(1, 8)) { vf_obs(nlive ^ h.capacity << 16); vf_obs(k); }
        if (vf_chance(1, 300)) { vf_op("release"); bfdev_hashmap_release(&h); for (size_t i = 0; i < ne; i++) e[i].live = false; nlive = 0; if (useal) VF_EQ(A.live, 0, "release-leak"); walk(&h); VF_PEQ(bfdev_hashmap_find(&h, &k), NULL, "find-released"); VF_EV("hashmap.release"); }
    }
    for (size_t i = 0; i < ne; i++) if (e[i].live) { bfdev_hlist_node_t *r = bfdev_hashmap_find(&h, &e[i].key); VF_CHECK(r && EL(r)->live && EL(r)->key == e[i].key, "find-live", "live key unreachable"); }
    if (vf_chance(1, 2)) { /* remove while walking, then by key */ for (size_t i = 0; i < ne; i++) if (e[i].live) { bfdev_hlist_node_t *o2; VF_EQ(bfdev_hashmap_del(&h, &e[i].key, &o2), 0, "drain"); VF_EQ(EL(o2)->key, e[i].key, "drain-key"); if (EL(o2) != &e[i]) { EL(o2)->live = false; i--; } else e[i].live = false; nlive--; } walk(&h); VF_EQ(h.used, 0, "drain-used"); VF_EV("hashmap.drain"); }
    bfdev_hashmap_release(&h); vfa_done(&A, "release-leak"); free(e); vf_obs(A.allocs);
}
static void scn_map(void) { run_map(false); }
static void scn_big(void) { run_map(true); }

static BFDEV_DEFINE_HASHTBL(g_tbl, 32);
static void scn_tbl(void)
{
    unsigned bits = 1 + vf_below(vf_chance(1, 10) ? 12 : 6); unsigned long size = 1UL << bits, span = vf_chance(1, 2) ? 1 + vf_below(20) : ~0UL, idx; bool glob = vf_chance(1, 6); if (vf_chance(1, 400)) { bits = 16 + vf_below(2); size = 1UL << bits; glob = false; VF_EV("hashtbl.past_64k"); } bfdev_hlist_head_t *t; bfdev_hlist_node_t *n, *tmp; el_t *p, *q;
    if (glob) { size = 32; t = g_tbl; } else { t = vf_xmalloc(size * sizeof(*t)); memset(t, 0xee, size * sizeof(*t)); bfdev_hashtbl_init(t, size); }
    ne = 1 + vf_below(50); nlive = 0; e = vf_xcalloc(ne * sizeof(*e)); VF_CHECK(bfdev_hashtbl_empty(t, size), "tbl-empty", "fresh table not empty");
    for (int op = 0; op < 100; op++) {
        unsigned long k = span == ~0UL ? vf_edge64() : vf_below(span); int how = vf_below(4); size_t cnt = 0, want = 0;
        if (nlive && vf_chance(1, 3)) { el_t *x = e + vf_below(ne); if (x->live) k = x->key; }
        p = spare();
        if (p && vf_chance(op < 60 ? 3 : 1, 5)) { vf_op("tbl add %lx", k); memset(&p->n, 0xcc, sizeof p->n); p->key = k; bfdev_hashtbl_add(t, size, &p->n, k); p->live = true; nlive++; VF_EV("hashtbl.add"); }
        else { p = e + vf_below(ne); if (p->live) { vf_op("tbl del %lx", p->key); bfdev_hashtbl_del(&p->n); p->live = false; nlive--; VF_EV("hashtbl.del"); } }
        idx = bfdev_hashtbl_index(size, k); VF_CHECK(idx < size, "tbl-index", "bucket %lu of %lu", idx, size);
        for (size_t i = 0; i < ne; i++) { e[i].seen = 0; want += e[i].live && e[i].key == k; }
        /* the bucket of a key holds every element filed under it */
        switch (how) {
        case 0: bfdev_hashtbl_for_each_idx(n, t, size, idx) { mark(EL(n)); cnt += EL(n)->key == k; } break;
        case 1: bfdev_hashtbl_for_each_idx_safe(n, tmp, t, size, idx) { mark(EL(n)); cnt += EL(n)->key == k; } break;
        case 2: bfdev_hashtbl_for_each_idx_entry(p, t, size, n, idx) { mark(p); cnt += p->key == k; } break;
        case 3: bfdev_hashtbl_for_each_idx_entry_safe(p, q, t, size, n, idx) { mark(p); cnt += p->key == k; } break;
        }
        VF_EQ(cnt, want, "tbl-bucket"); VF_EV("hashtbl.bucket_walk"); vf_obs(k ^ want);
        for (size_t i = 0; i < ne; i++) e[i].seen = 0; cnt = 0;
        switch (how) {
        case 0: bfdev_hashtbl_for_each(n, t, size, idx) { mark(EL(n)); cnt++; } break;
        case 1: bfdev_hashtbl_for_each_safe(n, tmp, t, size, idx) { mark(EL(n)); cnt++; } break;
        case 2: bfdev_hashtbl_for_each_entry(p, t, size, n, idx) { mark(p); cnt++; } break;
        case 3: bfdev_hashtbl_for_each_entry_safe(p, q, t, size, n, idx) { mark(p); cnt++; } break;
        }
        VF_EQ(cnt, nlive, "tbl-walk"); VF_EQ(bfdev_hashtbl_empty(t, size), !nlive, "tbl-empty");
    }
    /* a safe walk survives removal of the visited element */
    if (vf_chance(1, 2)) bfdev_hashtbl_for_each_entry_safe(p, q, t, size, n, idx) { VF_CHECK(p->live, "tbl-drain", "visited twice"); bfdev_hashtbl_del(&p->n); p->live = false; nlive--; }
    else bfdev_hashtbl_for_each_safe(n, tmp, t, size, idx) { VF_CHECK(EL(n)->live, "tbl-drain", "visited twice"); EL(n)->live = false; bfdev_hashtbl_del(n); nlive--; }
    VF_EQ(nlive, 0, "tbl-drain"); VF_CHECK(bfdev_hashtbl_empty(t, size), "tbl-empty", "drained table not empty"); VF_EV("hashtbl.drain");
    if (!glob) free(t); free(e);
}
VF_SCENARIOS({ "hashmap", scn_map, 8 }, { "hashmap_big", scn_big, 1 }, { "hashtbl", scn_tbl, 4 });
