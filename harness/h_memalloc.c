/* C16: the pool allocator against the set of live blocks it handed out. */
#include "vf.h"
#include <bfdev/memalloc.h>
typedef struct { uint8_t *p; size_t n; uint64_t tag; } blk_t;
static uint8_t *pool; static size_t psize; static blk_t *b; static size_t nb;
static uint8_t pat(uint64_t tag, size_t i) { return vf_mix64(tag + i / 8) >> (i % 8 * 8); }
static void fill(blk_t *x) { for (size_t i = 0; i < x->n; i++) x->p[i] = pat(x->tag, i); }
static void verify(blk_t *x, size_t n, const char *key) { for (size_t i = 0; i < n; i++) VF_CHECK(x->p[i] == pat(x->tag, i), key, "byte %zu of a live block of %zu changed", i, x->n); }
static void place(size_t me)
{
    blk_t *x = b + me; VF_CHECK(x->p >= pool && x->p <= pool + psize && x->n <= (size_t)(pool + psize - x->p), "in-pool", "block of %zu at offset %zd of %zu", x->n, x->p - pool, psize); VF_CHECK(!((uintptr_t)x->p % sizeof(void *)), "alignment", "misaligned block");
    for (size_t i = 0; i < nb; i++) if (i != me) { VF_CHECK(b[i].p != x->p, "disjoint", "same address handed out twice"); VF_CHECK(b[i].p + b[i].n <= x->p || x->p + x->n <= b[i].p, "disjoint", "overlaps another live block"); }
}
static bfdev_memalloc_chunk_t *last_fit(bfdev_memalloc_head_t *h, size_t size) { bfdev_memalloc_chunk_t *n, *r = NULL; bfdev_list_for_each_entry(n, &h->free_list, free) if ((n->usize & ~1UL) >= size) r = n; VF_EV("memalloc.custom_fit"); return r; }
static size_t hugev(void) { return vf_chance(1, 2) ? ~0UL - vf_below(vf_chance(1, 2) ? 40 : 100) : vf_chance(1, 2) ? ~0UL >> vf_below(8) : 1UL << (40 + vf_below(24)); }
/* a canary-framed pool: the pool is the caller's exact-size heap block */
static void run(bool big)
{
    bfdev_memalloc_head_t h; bfdev_memalloc_find_t f; int which = vf_below(4), nops = big ? 600 : 120; size_t cap = big ? 300 : 60, top, q, maxreq; void *t;
    f = which == 0 ? bfdev_memalloc_first_fit : which == 1 ? bfdev_memalloc_best_fit : which == 2 ? bfdev_memalloc_worst_fit : last_fit;
    psize = big ? 20000 + vf_below(vf_deep ? 400000 : 60000) : 80 + vf_below(vf_chance(1, 2) ? 600 : 6000); if (vf_chance(2, 3)) psize &= ~7UL; maxreq = vf_chance(1, 3) ? 40 : vf_chance(1, 2) ? 400 : psize; pool = vf_xmalloc(psize); b = vf_xmalloc((cap + 1) * sizeof(*b)); nb = 0;
    bfdev_memalloc_init(&h, f, pool, psize); vf_op("pool %zu strategy %d", psize, which);
    /* largest request that succeeds on the fresh pool */
    for (top = psize; ; top--) { t = bfdev_memalloc_alloc(&h, top); if (t) break; if (!top) break; }
    VF_CHECK(t, "fresh", "fresh pool of %zu serves nothing", psize); VF_CHECK(psize < 80 + 64 || top + 40 + 63 >= psize, "fresh-capacity", "pool of %zu serves at most %zu", psize, top); bfdev_memalloc_free(&h, t);
    for (int op = 0; op < nops; op++) {
        int c = vf_below(20), ph = op * 4 / nops % 2; size_t n = vf_chance(1, 8) ? vf_below(3) : 1 + vf_below(maxreq), i; blk_t *x; uint8_t *p;
        if (c < (ph ? 4 : 9) && nb < cap) {
            vf_op("alloc %zu", n); p = bfdev_memalloc_alloc(&h, n); VF_EV("memalloc.alloc");
            if (p) { x = b + nb++; x->p = p; x->n = n; x->tag = vf_rand(); place(nb - 1); fill(x); vf_obs(p - pool); } else { VF_EV("memalloc.refused"); VF_CHECK(nb || n > top, "refused", "idle pool refuses %zu although it served %zu", n, top); }
        } else if (c < 14 && nb) {
            i = vf_below(nb); x = b + i; verify(x, x->n, "free-intact"); vf_op("free %zu", x->n); bfdev_memalloc_free(&h, x->p); *x = b[--nb]; VF_EV("memalloc.free");
        } else if (c < 18 && nb) {
            i = vf_below(nb); x = b + i; size_t o = x->n, k; if (vf_chance(1, 3)) n = vf_below(o + 1); else if (vf_chance(1, 2)) n = o + vf_below(80); bool huge = vf_chance(1, 12); if (huge) n = hugev();
            vf_op("realloc %zu -> %zu", o, n); verify(x, o, "realloc-before"); p = bfdev_memalloc_realloc(&h, x->p, n); VF_EV("memalloc.realloc");
            if (huge) { VF_PEQ(p, NULL, "realloc-huge"); VF_EV("memalloc.huge"); verify(x, o, "realloc-refused"); }
            else if (!p) { VF_CHECK(n > o, "realloc-shrink", "shrinking %zu to %zu refused", o, n); verify(x, o, "realloc-refused"); VF_EV("memalloc.realloc_refused"); }
            else { bool moved = p != x->p; k = o < n ? o : n; x->p = p; x->n = n; place(i); verify(x, k, "realloc-contents"); if (moved) VF_EV("memalloc.realloc_moved"); else if (n > o) VF_EV("memalloc.realloc_grown"); x->tag = vf_rand(); fill(x); vf_obs(p - pool); }
        } else if (c == 18) { n = hugev(); vf_op("alloc %#zx", n); VF_PEQ(bfdev_memalloc_alloc(&h, n), NULL, "alloc-huge"); VF_EV("memalloc.huge"); }
        if (!big || op % 20 == 0) for (i = 0; i < nb; i++) verify(b + i, b[i].n, "live-intact");
        if (nb == 0 && vf_chance(1, 2)) { t = bfdev_memalloc_alloc(&h, top); VF_CHECK(t, "recovered", "%zu no longer available though all is free", top); bfdev_memalloc_free(&h, t); VF_EV("memalloc.recovered"); }
    }
    /* filling up completely with the smallest blocks must stay sound too */
    if (!big && vf_chance(1, 3)) { while (nb < cap) { q = vf_below(33); uint8_t *p = bfdev_memalloc_alloc(&h, q); if (!p) { VF_EV("memalloc.exhausted"); break; } b[nb] = (blk_t){ p, q, vf_rand() }; nb++; place(nb - 1); fill(b + nb - 1); } }
    while (nb) { size_t i = vf_below(nb); verify(b + i, b[i].n, "live-intact"); bfdev_memalloc_free(&h, b[i].p); b[i] = b[--nb]; }
    t = bfdev_memalloc_alloc(&h, top); VF_CHECK(t, "recovered", "%zu of %zu no longer available though all is free", top, psize); memset(t, 0x11, top); VF_EV("memalloc.recovered"); bfdev_memalloc_free(&h, t);
    t = bfdev_memalloc_alloc(&h, top + 64); VF_PEQ(t, NULL, "grew"); free(pool); free(b); vf_obs(top);
}
static void scn_small(void) { run(false); }
static void scn_big(void) { run(true); }
VF_SCENARIOS({ "memalloc", scn_small, 12 }, { "memalloc_big", scn_big, 1 });
