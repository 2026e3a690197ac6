/* C17: bump pool and generic allocator layer. */
#include "vf.h"
#include <bfdev/allocpool.h>
typedef struct { uint8_t *p; size_t n; uint8_t v; } blk_t;
static size_t hugev(void) { return vf_chance(1, 2) ? ~0UL - vf_below(300) : vf_chance(1, 2) ? ~0UL >> vf_below(8) : 1UL << (40 + vf_below(24)); }
static void scn_pool(void)
{
    size_t size = vf_chance(1, 4) ? vf_below(40) : 1 + vf_below(3000), nb = 0, live = 0; uint8_t *mem = vf_xmalloc(size + 64), *blk; size_t shift = vf_chance(1, 2) ? 0 : vf_below(64); bfdev_allocpool_t p; blk_t b[200];
    /* the pool may start at any address; redzone by exact allocation from its end */
    free(mem); mem = vf_xmalloc(size + shift); blk = mem + shift;
    if (vf_chance(1, 2)) { memset(&p, 0x77, sizeof p); bfdev_allocpool_init(&p, blk, size); } else p = BFDEV_ALLOCPOOL_INIT(blk, size);
    for (int op = 0; op < 60 && nb < 190; op++) {
        int c = vf_below(16); size_t n = vf_chance(1, 6) ? vf_below(3) : 1 + vf_below(vf_chance(1, 3) ? size + 2 : 80), al = vf_chance(1, 2) ? 0 : 1UL << vf_below(vf_chance(1, 8) ? 64 : 9); uint8_t *q; bool huge = vf_chance(1, 10);
        if (c < 12) {
            if (huge) n = hugev(); vf_op("alloc %zu align %zu", n, al); q = bfdev_allocpool_alloc(&p, n, al);
            if (!n) { VF_PEQ(q, NULL, "zero"); continue; }
            if (huge) { VF_PEQ(q, NULL, "huge"); VF_EV("allocpool.huge"); continue; }
            if (!q) { size_t used = 0, a = al < 8 ? 8 : al; for (size_t i = 0; i < nb; i++) if (b[i].p + b[i].n - blk > used) used = b[i].p + b[i].n - blk; VF_EV("allocpool.refused"); if (a <= 512) VF_CHECK(used + a - 1 + n > size, "refused", "%zu bytes (align %zu) refused with %zu of %zu used", n, a, used, size); }
            else { VF_EV("allocpool.alloc"); VF_CHECK(q >= blk && q <= blk + size && n <= (size_t)(blk + size - q), "in-pool", "%zu bytes at offset %zd of %zu", n, q - blk, size); VF_CHECK(!((uintptr_t)q & ((al ?: 1) - 1)), "align", "not aligned to %zu", al); VF_CHECK(!((uintptr_t)q & 7), "align-word", "not word aligned"); for (size_t i = 0; i < nb; i++) VF_CHECK(b[i].p + b[i].n <= q || q + n <= b[i].p, "overlap", "overlaps a live block"); b[nb] = (blk_t){ q, n, vf_rand() }; memset(q, b[nb].v, n); nb++; live++; vf_obs(q - blk); if (al > 8) VF_EV("allocpool.big_align"); }
        } else if (c < 14 && live) { vf_op("free"); bfdev_allocpool_free(&p, b[vf_below(nb)].p); if (!--live) { nb = 0; VF_EV("allocpool.all_freed"); } }
        else if (c == 15 && vf_chance(1, 6)) { vf_op("reset"); bfdev_allocpool_reset(&p); nb = live = 0; VF_EV("allocpool.reset"); }
        for (size_t i = 0; i < nb; i++) for (size_t j = 0; j < b[i].n; j++) VF_CHECK(b[i].p[j] == b[i].v, "intact", "block changed");
        if (!live) { size_t pad = -(uintptr_t)blk & 7; if (pad < size) { q = bfdev_allocpool_alloc(&p, size - pad, 0); VF_PEQ(q, blk + pad, "whole-pool"); bfdev_allocpool_free(&p, q); VF_EV("allocpool.whole"); } }
    }
    free(mem); vf_obs(size);
}
/* generic layer over recording callbacks */
static size_t want; static const void *want_blk; static int calls; static void *pd_want, *ret_next; static char cbn;
static void *r_alloc(size_t n, void *pd) { cbn = 'a'; calls++; VF_EQ(n, want, "alloc-size"); VF_PEQ(pd, pd_want, "pdata"); return ret_next; }
static void *r_zalloc(size_t n, void *pd) { cbn = 'z'; calls++; VF_EQ(n, want, "zalloc-size"); VF_PEQ(pd, pd_want, "pdata"); return ret_next; }
static void *r_realloc(void *b, size_t n, void *pd) { cbn = 'r'; calls++; VF_PEQ(b, want_blk, "realloc-block"); VF_EQ(n, want, "realloc-size"); VF_PEQ(pd, pd_want, "pdata"); return ret_next; }
static void r_free(void *b, void *pd) { cbn = 'f'; calls++; VF_PEQ(b, want_blk, "free-block"); VF_PEQ(pd, pd_want, "pdata"); }
static void scn_route(void)
{
    bfdev_alloc_ops_t o; bfdev_alloc_t al; void *blk = vf_chance(1, 4) ? NULL : &o, *got; int how = vf_below(8); size_t nr = vf_chance(1, 8) ? 0 : vf_edge64(), sz = vf_chance(1, 8) ? 0 : vf_edge64(), n; bool ovf = __builtin_mul_overflow(nr, sz, &n);
    if (vf_chance(1, 2)) o = BFDEV_ALLOC_OPS_INIT(r_alloc, r_zalloc, r_realloc, r_free); else bfdev_alloc_ops_init(&o, r_alloc, r_zalloc, r_realloc, r_free);
    pd_want = (void *)vf_rand(); if (vf_chance(1, 2)) al = BFDEV_ALLOC_INIT(&o, pd_want); else bfdev_alloc_init(&al, &o, pd_want);
    calls = 0; cbn = 0; ret_next = (void *)(vf_rand() | 1); want_blk = blk; if (how < 4) { n = nr; ovf = false; } want = n; vf_op("route %d nr %zx sz %zx", how, nr, sz);
    switch (how) {
    case 0: got = bfdev_malloc(&al, nr); break; case 1: got = bfdev_zalloc(&al, nr); break; case 2: got = bfdev_realloc(&al, blk, nr); break; case 3: bfdev_free(&al, blk); got = NULL; break;
    case 4: got = bfdev_malloc_array(&al, nr, sz); break; case 5: got = bfdev_zalloc_array(&al, nr, sz); break; default: got = bfdev_realloc_array(&al, blk, nr, sz); how = 6;
    }
    VF_EV("alloc.routed");
    if (ovf) { VF_PEQ(got, NULL, "array-overflow"); VF_EQ(calls, 0, "array-overflow-call"); VF_EV("alloc.array_overflow"); }
    else if (how == 3) { VF_EQ(calls, blk ? 1 : 0, "free-calls"); if (blk) VF_EQ(cbn, 'f', "free-route"); }
    else if (!n) { VF_PEQ(got, NULL, "zero-size"); if ((how == 2 || how == 6) && blk) { VF_EQ(calls, 1, "realloc-to-zero"); VF_EQ(cbn, 'f', "realloc-to-zero"); VF_EV("alloc.realloc_zero"); } else VF_EQ(calls, 0, "zero-size"); }
    else { VF_PEQ(got, ret_next, "result"); VF_EQ(calls, 1, "calls"); VF_EQ(cbn, how == 0 || how == 4 ? 'a' : how == 1 || how == 5 ? 'z' : blk ? 'r' : 'a', "route"); }
    vf_obs(how); vf_obs(n);
}
static void scn_heap(void)
{   /* real blocks through every kind of allocator argument */
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A), dflt = BFDEV_ALLOC_INIT(NULL, NULL); bfdev_alloc_ops_t none = BFDEV_ALLOC_OPS_INIT(NULL, NULL, NULL, NULL); bfdev_alloc_t nops = BFDEV_ALLOC_INIT(&none, NULL), *a = vf_chance(1, 4) ? NULL : vf_chance(1, 3) ? &dflt : vf_chance(1, 2) ? &nops : &al; uint8_t *p = NULL; size_t n = 0; uint8_t v = 0;
    for (int op = 0; op < 20; op++) {
        size_t k = 1 + vf_below(vf_chance(1, 10) ? 100000 : 300), e = 1 + vf_below(9); uint8_t *q; bool huge = vf_chance(1, 12); size_t hn = ~0UL / (2 + vf_below(9)) + 1 + vf_below(5);
        switch (vf_below(4)) {
        case 0: bfdev_free(a, p); p = bfdev_malloc(a, k); n = k; break;
        case 1: bfdev_free(a, p); p = vf_chance(1, 2) ? bfdev_zalloc(a, k * e) : bfdev_zalloc_array(a, k, e); n = k * e; for (size_t i = 0; i < n; i++) VF_CHECK(!p[i], "zeroed", "byte %zu of a zeroed block is %u", i, p[i]); VF_EV("alloc.zeroed"); break;
        case 2: q = vf_chance(1, 2) ? bfdev_realloc(a, p, k) : (e = 1, bfdev_realloc_array(a, p, k, e)); VF_CHECK(q, "realloc", "refused"); if (p) { for (size_t i = 0; i < n && i < k; i++) VF_CHECK(q[i] == v, "contents", "contents lost on resize"); VF_EV("alloc.resized"); } p = q; n = k; break;
        case 3: bfdev_free(a, p); p = NULL; n = 0; if (vf_chance(1, 2)) { bfdev_free(a, NULL); p = bfdev_malloc_array(a, k, e); n = k * e; } break;
        }
        if (n) { VF_CHECK(p, "alloc", "refused"); v = vf_rand(); memset(p, v, n); }
        if (huge && a != &al) { VF_PEQ(bfdev_malloc_array(a, hn, 16), NULL, "array-overflow"); VF_PEQ(bfdev_zalloc_array(a, hn, 16), NULL, "array-overflow"); if (p) { VF_PEQ(bfdev_realloc_array(a, p, hn, 16), NULL, "array-overflow"); for (size_t i = 0; i < n; i++) VF_CHECK(p[i] == v, "array-overflow-kept", "block damaged by a refused resize"); } VF_EV("alloc.array_overflow"); }
        vf_obs(n);
    }
    bfdev_free(a, p); vfa_done(&A, "leak");
}
VF_SCENARIOS({ "allocpool", scn_pool, 3 }, { "route", scn_route, 3 }, { "heap", scn_heap, 2 });
