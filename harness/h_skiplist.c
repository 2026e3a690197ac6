/* C11: skip lists against a sorted multiset model. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/skiplist.h>

typedef struct { long k; unsigned ins; bool live; unsigned seen; } el_t;
static el_t *e; static size_t ne, nlive; static int style; static unsigned long cookie; static long want;
static long cmpv(long a, long b) { if (a == b) return 0; switch (style) { case 0: return a < b ? -1 : 1; case 1: return a < b ? LONG_MIN : LONG_MAX; default: return a < b ? -3 : 1L << 40; } }
static long c_cmp(const void *a, const void *b, void *pd) { VF_PEQ(pd, &cookie, "callback-data"); VF_CHECK(((el_t *)a)->live, "dead-key", "compared with a member that is gone"); return cmpv(((el_t *)a)->k, ((el_t *)b)->k); }
static long c_find(const void *a, void *pd) { VF_PEQ(pd, &cookie, "callback-data"); VF_CHECK(((el_t *)a)->live, "dead-key", "compared with a member that is gone"); return cmpv(((el_t *)a)->k, want); }
static unsigned long nrel; static void c_rel(void *k, void *pd) { VF_PEQ(pd, &cookie, "callback-data"); el_t *p = k; VF_CHECK(p >= e && p < e + ne && p->live, "release", "released a member that is not live"); p->live = false; nrel++; nlive--; }
static size_t count(long k) { size_t c = 0; for (size_t i = 0; i < ne; i++) c += e[i].live && e[i].k == k; return c; }
static void mark(bfdev_skip_node_t *n) { el_t *p = n->key; VF_CHECK(p >= e && p < e + ne && p->live, "walk", "dead or foreign member in the list"); VF_CHECK(!p->seen, "walk", "visited twice"); p->seen = 1; }

static void walk(bfdev_skip_head_t *h)
{
    bfdev_skip_node_t *n, *t, *s; size_t below = nlive; unsigned l;
    for (l = 0; l < h->levels; l++) {
        size_t c = 0; long last = LONG_MIN; int how = vf_below(4);
        for (size_t i = 0; i < ne; i++) e[i].seen = 0;
        switch (how) {
        case 0: bfdev_skiplist_for_each(n, h, l) { mark(n); VF_CHECK(((el_t *)n->key)->k >= last, "order", "level %u out of order", l); last = ((el_t *)n->key)->k; c++; } break;
        case 1: last = LONG_MAX; bfdev_skiplist_for_each_reverse(n, h, l) { mark(n); VF_CHECK(((el_t *)n->key)->k <= last, "order", "level %u out of order", l); last = ((el_t *)n->key)->k; c++; } break;
        case 2: bfdev_skiplist_for_each_safe(n, t, h, l) { mark(n); VF_CHECK(((el_t *)n->key)->k >= last, "order", "level %u out of order", l); last = ((el_t *)n->key)->k; c++; } break;
        case 3: last = LONG_MAX; bfdev_skiplist_for_each_reverse_safe(n, t, h, l) { mark(n); VF_CHECK(((el_t *)n->key)->k <= last, "order", "level %u out of order", l); last = ((el_t *)n->key)->k; c++; } break;
        }
        if (!l) VF_EQ(c, nlive, "walk-count"); else VF_CHECK(c <= below, "level-subset", "level %u has %zu members, below it %zu", l, c, below);
        below = c; if (l && c) VF_EVN("skiplist.upper_members", c); if (l >= 3 && c) VF_EV("skiplist.level4");
        VF_CHECK(l >= h->curr ? !c : true, "height", "members above the recorded height");
    }
    if (nlive > 1) { /* from / continue forms at the base level */
        size_t c = 0, at = vf_below(nlive), i = 0; s = NULL; bfdev_skiplist_for_each(n, h, 0) if (i++ == at) { s = n; break; }
        n = s; bfdev_skiplist_for_each_from(n, h, 0) c++; VF_EQ(c, nlive - at, "walk-from"); c = 0;
        n = s; bfdev_skiplist_for_each_continue(n, h, 0) c++; VF_EQ(c, nlive - at - 1, "walk-continue"); c = 0;
        n = s; bfdev_skiplist_for_each_reverse_from(n, h, 0) c++; VF_EQ(c, at + 1, "walk-reverse-from"); c = 0;
        n = s; bfdev_skiplist_for_each_reverse_continue(n, h, 0) c++; VF_EQ(c, at, "walk-reverse-continue"); c = 0;
        n = s; bfdev_skiplist_for_each_from_safe(n, t, h, 0) c++; VF_EQ(c, nlive - at, "walk-from-safe"); c = 0;
        n = s; bfdev_skiplist_for_each_continue_safe(n, t, h, 0) c++; VF_EQ(c, nlive - at - 1, "walk-continue-safe"); c = 0;
        n = s; bfdev_skiplist_for_each_reverse_from_safe(n, t, h, 0) c++; VF_EQ(c, at + 1, "walk-reverse-from-safe"); c = 0;
        n = s; bfdev_skiplist_for_each_reverse_continue_safe(n, t, h, 0) c++; VF_EQ(c, at, "walk-reverse-continue-safe");
    }
    VF_EV("skiplist.walk");
}
static void run(bool big)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); bool useal = vf_chance(3, 4); unsigned levels = 1 + vf_below(vf_chance(1, 4) ? 32 : 8); bfdev_skip_head_t *h; long span; int nops; size_t per;
    srand(vf_rand()); style = vf_below(3); ne = big ? 200 + vf_below(vf_deep ? 3000 : 600) : 1 + vf_below(60); nlive = 0; e = vf_xcalloc(ne * sizeof(*e)); span = vf_chance(1, 3) ? 1 + vf_below(4) : vf_chance(1, 2) ? ne : 1L << 40; nops = ne * 4 + 4;
    VF_PEQ(bfdev_skiplist_create(useal ? &al : NULL, 0), NULL, "create-0"); VF_EQ(A.live, 0, "create-0");
    h = bfdev_skiplist_create(useal ? &al : NULL, levels); VF_CHECK(h, "create", "no list"); per = 1; walk(h);
    for (int op = 0; op < nops; op++) {
        long k = vf_range(-span, span); el_t *p; size_t n, c = vf_below(10), ph = (op / (int)ne) % 2; bfdev_skip_node_t *r; int pat = vf_below(6);
        if (nlive && vf_chance(1, 2)) { p = e + vf_below(ne); if (p->live) k = p->k; } if (pat == 0) k = op; else if (pat == 1) k = -op;
        n = count(k);
        for (p = e; p < e + ne && p->live; p++);
        if (c < (ph ? 3 : 7) && p < e + ne) { vf_op("insert %ld have %zu", k, n); p->k = k; p->live = true; VF_EQ(bfdev_skiplist_insert(h, p, c_cmp, &cookie), 0, "insert"); nlive++; VF_EV("skiplist.insert"); if (n) VF_EV("skiplist.duplicate"); }
        else if (c < 9) {
            vf_op("delete %ld have %zu", k, n); want = k; el_t *victim = NULL; r = bfdev_skiplist_find(h, c_find, &cookie); if (r) victim = r->key;
            VF_CHECK(!!n == !!r, "find-before-delete", "key %ld present %zu times, find says %d", k, n, !!r);
            bfdev_skiplist_delete(h, c_find, &cookie);
            if (n) { /* exactly one of them left: whichever */
                for (size_t i = 0; i < ne; i++) e[i].seen = 0; bfdev_skiplist_for_each(r, h, 0) { el_t *q = r->key; VF_CHECK(q >= e && q < e + ne && q->live && !q->seen, "delete", "base level damaged"); q->seen = 1; }
                size_t gone = 0; for (size_t i = 0; i < ne; i++) if (e[i].live && !e[i].seen) { gone++; VF_EQ(e[i].k, k, "deleted-key"); e[i].live = false; } VF_EQ(gone, 1, "deleted-one"); nlive--; VF_EV("skiplist.delete"); if (!nlive) VF_EV("skiplist.emptied"); (void)victim;
            } else VF_EV("skiplist.delete_absent");
        }
        want = vf_chance(1, 2) ? k : vf_range(-span, span); n = count(want); vf_op("find %ld have %zu", want, n); r = bfdev_skiplist_find(h, c_find, &cookie); VF_EV("skiplist.find");
        if (!n) VF_PEQ(r, NULL, "find-absent"); else { VF_CHECK(r, "find", "key %ld is unreachable", want); p = r->key; VF_CHECK(p >= e && p < e + ne && p->live && p->k == want, "find", "wrong member"); }
        if (useal) VF_EQ(A.live, nlive + per, "blocks");
        if (!big || vf_chance(1, 40)) walk(h);
        if (vf_chance(1, 8)) { vf_obs(nlive ^ h->curr << 20); vf_obs(want); }
        if (vf_chance(1, 250)) { bool cb = vf_chance(1, 2); size_t n0 = nlive; nrel = 0; vf_op("reset"); bfdev_skiplist_reset(h, cb ? c_rel : NULL, &cookie); if (cb) { VF_EQ(nrel, n0, "reset-count"); } else { for (size_t i = 0; i < ne; i++) e[i].live = false; nlive = 0; } VF_EQ(nlive, 0, "reset"); VF_EQ(A.live, useal ? per : 0, "reset-blocks"); walk(h); VF_EV("skiplist.reset"); }
    }
    { size_t n0 = nlive; nrel = 0; bfdev_skiplist_destroy(h, c_rel, &cookie); VF_EQ(nrel, n0, "destroy-count"); } vf_obs(A.allocs); vfa_done(&A, "release-leak"); free(e);
}
static void scn_small(void) { run(false); }
static void scn_big(void) { run(true); }
VF_SCENARIOS({ "skiplist", scn_small, 10 }, { "skiplist_big", scn_big, 1 });
