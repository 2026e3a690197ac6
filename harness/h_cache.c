/* C14: LRU/LFU caches against a slot model. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/cache.h>

typedef struct { unsigned long label; } data_t;
typedef struct { int st; unsigned long label, ref, uses, last; data_t *d; } slot_t;
static slot_t *s; static unsigned long size; static int hm; static unsigned long cookie;
static unsigned long hits, misses, starve, changed, pending, seq; static bool starving, dirty;
static unsigned long c_hash(const void *t, void *pd) { unsigned long v = (uintptr_t)t; VF_PEQ(pd, &cookie, "callback-data"); switch (hm) { case 0: return v; case 1: return 7; case 2: return v & 3; default: return vf_mix64(v); } }
static long c_find(const void *n, const void *t, void *pd) { VF_PEQ(pd, &cookie, "callback-data"); unsigned long a = ((data_t *)n)->label, b = (uintptr_t)t; return a == b ? 0 : a < b ? -1 : 1L << 33; }
static const bfdev_cache_ops_t ops = { c_hash, c_find };
static slot_t *S(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { VF_CHECK(n->index < size && h->nodes[n->index] == n, "foreign-node", "node %lu is not one of the cache", n->index); return s + n->index; }
static unsigned long n_of(int st) { unsigned long c = 0; for (unsigned long i = 0; i < size; i++) c += s[i].st == st; return c; }
static slot_t *resident(unsigned long l) { for (unsigned long i = 0; i < size; i++) if (s[i].st != BFDEV_CACHE_FREED && s[i].label == l) return s + i; return NULL; }
static void audit(bfdev_cache_head_t *h)
{
    unsigned long used = 0;
    for (unsigned long i = 0; i < size; i++) { used += s[i].ref != 0; VF_EQ(h->nodes[i]->status, s[i].st, "status"); VF_EQ(h->nodes[i]->refcnt, s[i].ref, "refcnt"); if (s[i].st) VF_EQ((uintptr_t)h->nodes[i]->tag, s[i].label, "tag"); }
    VF_EQ(h->used, used, "used"); VF_EQ(h->pending, pending, "pending"); VF_EQ(h->hits, hits, "hits"); VF_EQ(h->misses, misses, "misses"); VF_EQ(h->starve, starve, "starve"); VF_EQ(h->changed, changed, "changed"); VF_EQ(bfdev_cache_starving_test(h) != 0, starving, "starving"); VF_EQ(bfdev_cache_dirty_test(h) != 0, dirty, "dirty");
}
static void run(const char *algo, bool lru)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); bool useal = vf_chance(3, 4); unsigned long want = 2 + vf_below(vf_chance(1, 6) ? 60 : 9), maxp, span; bfdev_cache_head_t *h; bfdev_cache_node_t *n; int nops = 150;
    hm = vf_below(4); for (size = 1; size < want; size <<= 1); maxp = vf_chance(1, 2) ? 1 : vf_below(size + 2); span = 1 + vf_below(size * 3); s = vf_xcalloc(size * sizeof(*s)); hits = misses = starve = changed = pending = seq = 0; starving = dirty = false;
    if (vf_chance(1, 20)) { VF_PEQ(bfdev_cache_create("no-such", useal ? &al : NULL, &ops, want, maxp, &cookie), NULL, "unknown-algorithm"); VF_PEQ(bfdev_cache_create(algo, useal ? &al : NULL, &ops, vf_below(2), maxp, &cookie), NULL, "tiny"); bfdev_cache_ops_t o = { vf_chance(1, 2) ? c_hash : NULL, NULL }; VF_PEQ(bfdev_cache_create(algo, useal ? &al : NULL, &o, want, maxp, &cookie), NULL, "missing-callback"); VF_EQ(A.live, 0, "refused-create"); }
    h = bfdev_cache_create(algo, useal ? &al : NULL, &ops, want, maxp, &cookie); VF_CHECK(h, "create", "no cache"); VF_EQ(h->size, size, "size"); for (unsigned long i = 0; i < size; i++) VF_EQ(h->nodes[i]->index, i, "index"); audit(h);
    for (int op = 0; op < nops; op++) {
        unsigned long l = vf_chance(2, 3) ? vf_below(span) : vf_below(span / 3 + 1); slot_t *r = resident(l), *p; int c = vf_below(20);
        if (c < 9) {
            int how = vf_below(8); unsigned long fl = how < 5 ? BFDEV_CACHE_CHANGE : how == 5 ? 0 : how == 6 ? BFDEV_CACHE_CUMULATIVE : BFDEV_CACHE_UNCOMMITTED; bool api = vf_chance(1, 2) && how < 7;
            vf_op("obtain %lu flags %lu%s", l, fl, r ? " resident" : "");
            n = !api ? bfdev_cache_obtain(h, (void *)l, fl) : how < 5 ? bfdev_cache_get(h, (void *)l) : how == 5 ? bfdev_cache_try_get(h, (void *)l) : bfdev_cache_cumulative(h, (void *)l);
            if (starving) { starve++; VF_PEQ(n, NULL, "starving-obtain"); VF_EV("cache.starved"); }
            else if (r) {
                hits++; VF_EV("cache.hit");
                if (r->st == BFDEV_CACHE_PENDING) { if (fl & BFDEV_CACHE_UNCOMMITTED) { VF_PEQ(n, h->nodes[r - s], "pending-hit"); r->ref++; VF_EV("cache.pending_hit"); } else VF_PEQ(n, NULL, "pending-refused"); }
                else { VF_PEQ(n, h->nodes[r - s], "hit"); r->uses++; r->ref++; r->st = BFDEV_CACHE_USING; VF_PEQ(n->data, r->d, "hit-data"); }
            } else {
                misses++;
                if (!(fl & BFDEV_CACHE_CHANGE)) { VF_PEQ(n, NULL, "try-miss"); VF_EV("cache.try_miss"); }
                else {
                    dirty = true;
                    if (!n_of(BFDEV_CACHE_FREED) && !n_of(BFDEV_CACHE_MANAGED)) { starving = true; VF_PEQ(n, NULL, "starved"); VF_EV("cache.starving"); }
                    else if (pending >= maxp) { VF_PEQ(n, NULL, "pending-limit"); VF_EV("cache.pending_limit"); }
                    else {
                        VF_CHECK(n, "miss", "nothing obtained although an entry is free"); p = S(h, n);
                        if (n_of(BFDEV_CACHE_FREED)) { VF_EQ(p->st, BFDEV_CACHE_FREED, "prefer-free"); VF_EV("cache.from_free"); }
                        else {
                            VF_EQ(p->st, BFDEV_CACHE_MANAGED, "victim-state"); VF_EV("cache.evict");
                            for (unsigned long i = 0; i < size; i++) if (s[i].st == BFDEV_CACHE_MANAGED) { if (lru) VF_CHECK(p->last <= s[i].last, "victim-lru", "evicted a more recently used entry than %lu", i); else { VF_CHECK(p->uses <= s[i].uses, "victim-lfu", "evicted an entry used %lu times, entry %lu was used %lu times", p->uses, i, s[i].uses); if (p->uses < s[i].uses) VF_EV("cache.lfu_choice"); } }
                        }
                        p->st = BFDEV_CACHE_PENDING; p->label = l; p->ref = 1; p->uses = 0; pending++; free(p->d); p->d = vf_xmalloc(sizeof(data_t)); p->d->label = l; n->data = p->d; vf_obs(p - s); starving = false;
                    }
                }
            }
        } else if (c < 14) {
            p = s + vf_below(size); for (unsigned long i = 0; i < size && p->st != BFDEV_CACHE_USING && vf_chance(4, 5); i++) p = s + (p - s + 1) % size;
            vf_op("put slot %zd", p - s); unsigned long ret = bfdev_cache_put(h, h->nodes[p - s]);
            if (p->st != BFDEV_CACHE_USING) { VF_EQ((long)ret, -BFDEV_EINVAL, "put-unused"); VF_EV("cache.put_refused"); }
            else { p->ref--; VF_EQ(ret, p->ref, "put-result"); if (!p->ref) { p->st = BFDEV_CACHE_MANAGED; p->last = ++seq; starving = false; VF_EV("cache.managed"); } }
        } else if (c < 16) { vf_op("committed"); bfdev_cache_committed(h); for (unsigned long i = 0; i < size; i++) if (s[i].st == BFDEV_CACHE_PENDING) { s[i].st = BFDEV_CACHE_USING; changed++; } pending = 0; VF_EV("cache.commit"); }
        else if (c == 16) {
            p = s + vf_below(size); vf_op("del slot %zd", p - s); int ret = bfdev_cache_del(h, h->nodes[p - s]);
            if (p->st != BFDEV_CACHE_MANAGED) { VF_EQ(ret, -BFDEV_EBUSY, "del-busy"); VF_EV("cache.del_refused"); } else { VF_EQ(ret, 0, "del"); p->st = BFDEV_CACHE_FREED; VF_EV("cache.del"); }
        } else if (c == 17) {
            p = s + vf_below(size); if (r && r->st) continue; /* renaming onto a resident label is the caller's mistake */
            vf_op("set slot %zd to %lu", p - s, l); if (p->st == BFDEV_CACHE_MANAGED) p->d->label = l; int ret = bfdev_cache_set(h, h->nodes[p - s], (void *)l);
            if (p->st != BFDEV_CACHE_MANAGED) VF_EQ(ret, -BFDEV_EBUSY, "set-busy"); else { VF_EQ(ret, 0, "set"); p->label = l; p->last = ++seq; p->uses++; VF_EV("cache.rename"); }
        } else if (c == 18 && vf_chance(1, 8)) {
            vf_op("reset"); bfdev_cache_reset(h); for (unsigned long i = 0; i < size; i++) { s[i].st = BFDEV_CACHE_FREED; s[i].ref = s[i].uses = s[i].last = 0; } hits = misses = starve = changed = pending = 0; starving = dirty = false; VF_EV("cache.reset");
        }
        for (int q = 0; q < 2; q++) { l = vf_below(span); r = resident(l); n = bfdev_cache_find(h, (void *)l); if (r && r->st != BFDEV_CACHE_PENDING) { VF_PEQ(n, h->nodes[r - s], "find"); VF_EV("cache.find"); } else VF_PEQ(n, NULL, "find-absent"); }
        audit(h); if (vf_chance(1, 5)) vf_obs(hits ^ misses << 12 ^ seq << 24);
    }
    bfdev_cache_destroy(h); vfa_done(&A, "release-leak"); for (unsigned long i = 0; i < size; i++) free(s[i].d); free(s);
}
static void scn_lru(void) { run("lru", true); }
static void scn_lfu(void) { run("lfu", false); }
/* caller-supplied algorithms */
static bool d_b(bfdev_cache_head_t *h) { return true; } static bfdev_cache_node_t *d_o(bfdev_cache_head_t *h) { return NULL; } static void d_n(bfdev_cache_head_t *h, bfdev_cache_node_t *n) {} static void d_h(bfdev_cache_head_t *h) {}
static bfdev_cache_head_t *d_c(const bfdev_alloc_t *a, unsigned long sz) { VF_EV("cache.custom_create"); VF_EQ(sz, 8, "custom-size"); return NULL; }
static void scn_register(void)
{
    bfdev_cache_algo_t al = { .name = "custom", .starving = d_b, .obtain = d_o, .get = d_n, .put = d_n, .reset = d_h, .create = d_c, .destroy = d_h }, bad = al, dup = al; int miss = vf_below(8);
    switch (miss) { case 0: bad.name = NULL; break; case 1: bad.create = NULL; break; case 2: bad.destroy = NULL; break; case 3: bad.reset = NULL; break; case 4: bad.starving = NULL; break; case 5: bad.obtain = NULL; break; case 6: bad.get = NULL; break; case 7: bad.put = NULL; break; }
    VF_EQ(bfdev_cache_register(&bad), -BFDEV_EINVAL, "register-incomplete"); VF_EQ(bfdev_cache_unregister(&al), -BFDEV_ENOENT, "unregister-absent"); VF_EQ(bfdev_cache_register(&al), 0, "register"); VF_EQ(bfdev_cache_register(&dup), -BFDEV_EALREADY, "register-twice");
    VF_PEQ(bfdev_cache_create("custom", NULL, &ops, 5 + vf_below(4), 1, NULL), NULL, "custom-create"); VF_EQ(bfdev_cache_unregister(&dup), -BFDEV_ENOENT, "unregister-other"); VF_EQ(bfdev_cache_unregister(&al), 0, "unregister"); VF_EQ(bfdev_cache_unregister(&al), -BFDEV_ENOENT, "unregister-twice");
    bfdev_cache_head_t *h = bfdev_cache_create(vf_chance(1, 2) ? "lru" : "lfu", NULL, &ops, 4, 1, &cookie); VF_CHECK(h, "builtin", "built-in algorithms lost"); bfdev_cache_destroy(h); vf_obs(miss); vf_obs(vf_rand());
}
VF_SCENARIOS({ "lru", scn_lru, 10 }, { "lfu", scn_lfu, 10 }, { "register", scn_register, 1 });
