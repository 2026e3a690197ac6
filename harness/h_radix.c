/* C09: radix array against an index->contents map. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/radix.h>

typedef struct { uint64_t idx; unsigned char *p; unsigned char val[256]; } cell_t;
static cell_t *m; static size_t mn;         /* ascending */
static size_t pos(uint64_t k) { size_t i = 0; while (i < mn && m[i].idx < k) i++; return i; }
static bool at(size_t i, uint64_t k) { return i < mn && m[i].idx == k; }
typedef struct { unsigned char b[3]; } t3; typedef struct { unsigned char b[5]; } t5; typedef struct { unsigned char b[24]; } t24; typedef struct { unsigned char b[100]; } t100; typedef struct { unsigned char b[256]; } t256; typedef struct { unsigned char b[129]; } t129; typedef struct { unsigned char b[16]; } t16;

static uint64_t gen(int pat, uint64_t span, uint64_t max)
{
    uint64_t v;
    switch (pat) {
    case 0: v = vf_below(span); break;
    case 1: v = vf_chance(1, 2) ? vf_below(4) : vf_edge64(); break;
    case 2: v = (vf_below(6) << (5 * vf_below(8))) + vf_below(3); break;
    case 3: v = (1ULL << vf_below(64)) + vf_below(5) - 2; break;
    default: v = 256 * vf_below(40) + vf_below(2); break;
    }
    return max == ~0ULL ? v : v % (max + 1);
}
static void EXPECT(size_t i, const void *v, uint64_t idx, const char *key)
{
    VF_CHECK(i < mn, key, "enumeration too long, index %llu", (unsigned long long)idx);
    VF_CHECK(idx == m[i].idx, key, "index %llu reported, want %llu", (unsigned long long)idx, (unsigned long long)m[i].idx);
    VF_PEQ(v, m[i].p, key);
}
#define SCN(NAME, TYPE) \
static void NAME(void) \
{ \
    BFDEV_DECLARE_RADIX(r, TYPE); vf_alloc_t A; bool useal = vf_chance(3, 4); int pat = vf_below(5), ops = 10 + vf_below(vf_chance(1, 6) ? 300 : 60); size_t cell = sizeof(TYPE), cap = 1 + vf_below(50), num = BFDEV_RADIX_BLOCK / cell; \
    uint64_t span = vf_chance(1, 2) ? 1 + vf_below(20) : 5000, max; \
    vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); \
    max = (cell & (cell - 1)) ? (~0ULL / BFDEV_RADIX_BLOCK) * num - 1 : ~0ULL / cell; \
    r = BFDEV_RADIX_INIT(&r, useal ? &al : NULL); m = vf_xmalloc((cap + 1) * sizeof(*m)); mn = 0; \
    vf_op("cell %zu pat %d", cell, pat); \
    for (int op = 0; op < ops; op++) { \
        int c = vf_below(12); uint64_t k = mn && vf_chance(1, 3) ? m[vf_below(mn)].idx : gen(pat, span, max); size_t i = pos(k); TYPE *p; int ret; \
        if (c < 5 && (mn < cap || at(i, k))) { \
            vf_op("alloc %llu", (unsigned long long)k); p = bfdev_radix_alloc(&r, k); VF_CHECK(p, "alloc", "no cell"); VF_EV("radix.alloc"); \
            if (at(i, k)) { VF_PEQ(p, m[i].p, "alloc-again"); VF_EV("radix.alloc_again"); } \
            else { memmove(m + i + 1, m + i, (mn - i) * sizeof(*m)); m[i].idx = k; m[i].p = (unsigned char *)p; mn++; \
                for (size_t j = 0; j < mn; j++) if (j != i) VF_CHECK(m[j].p + cell <= m[i].p || m[i].p + cell <= m[j].p, "overlap", "cells of %llu and %llu overlap", (unsigned long long)m[j].idx, (unsigned long long)k); \
                for (size_t b = 0; b < cell; b++) { m[i].val[b] = vf_rand(); m[i].p[b] = m[i].val[b]; } } \
        } else if (c < 8) { \
            vf_op("free %llu %d", (unsigned long long)k, at(i, k)); ret = bfdev_radix_free(&r, k); \
            if (at(i, k)) { VF_EQ(ret, 0, "free"); memmove(m + i, m + i + 1, (mn - i - 1) * sizeof(*m)); mn--; VF_EV("radix.free"); } \
            else { VF_EQ(ret, -BFDEV_ENOENT, "free-absent"); VF_EV("radix.free_absent"); } \
        } else if (c == 8 && vf_chance(1, 20)) { bfdev_radix_release(&r); mn = 0; VF_EV("radix.release"); if (useal) VF_EQ(A.live, 0, "release-leak"); } \
        for (int q = 0; q < 3; q++) { \
            k = mn && vf_chance(1, 2) ? m[vf_below(mn)].idx : gen(pat, span, max); if (mn && vf_chance(1, 4)) { k += (1ULL << vf_below(64)); if (k > max) k = 0; } i = pos(k); \
            p = bfdev_radix_find(&r, k); VF_PEQ(p, at(i, k) ? m[i].p : NULL, at(i, k) ? "find" : "find-absent"); VF_EV("radix.find"); \
        } \
        for (i = 0; i < mn; i++) VF_CHECK(!memcmp(m[i].p, m[i].val, cell), "content", "contents of %llu changed", (unsigned long long)m[i].idx); \
        { TYPE *v; uint64_t x = 0, tx = 0; TYPE *tv; size_t s = mn ? vf_below(mn) : 0; i = 0; int how = vf_below(12); vf_op("walk %d", how); VF_EV("radix.walk"); \
        switch (how) { \
        case 0: bfdev_radix_for_each(v, &r, &x) { EXPECT(i, v, x, "walk"); i++; } VF_EQ(i, mn, "walk-count"); break; \
        case 1: bfdev_radix_for_each_reverse(v, &r, &x) { i++; EXPECT(mn - i, v, x, "walk-reverse"); } VF_EQ(i, mn, "walk-reverse-count"); break; \
        case 2: bfdev_radix_for_each_safe(v, &r, &x, tv, &tx) { EXPECT(i, v, x, "walk-safe"); i++; } VF_EQ(i, mn, "walk-safe-count"); break; \
        case 3: bfdev_radix_for_each_reverse_safe(v, &r, &x, tv, &tx) { i++; EXPECT(mn - i, v, x, "walk-reverse-safe"); } VF_EQ(i, mn, "walk-reverse-safe-count"); break; \
        case 4: if (!mn) break; x = m[s].idx; v = (TYPE *)m[s].p; i = s; bfdev_radix_for_each_form(v, &r, &x) { EXPECT(i, v, x, "walk-from"); i++; } VF_EQ(i, mn, "walk-from-count"); break; \
        case 5: if (!mn) break; x = m[s].idx; v = (TYPE *)m[s].p; i = s + 1; bfdev_radix_for_each_reverse_form(v, &r, &x) { i--; EXPECT(i, v, x, "walk-reverse-from"); } VF_EQ(i, 0, "walk-reverse-from-count"); break; \
        case 6: if (!mn) break; x = m[s].idx; i = s + 1; bfdev_radix_for_each_continue(v, &r, &x) { EXPECT(i, v, x, "walk-continue"); i++; } VF_EQ(i, mn, "walk-continue-count"); break; \
        case 7: if (!mn) break; x = m[s].idx; i = s; bfdev_radix_for_each_reverse_continue(v, &r, &x) { i--; EXPECT(i, v, x, "walk-reverse-continue"); } VF_EQ(i, 0, "walk-reverse-continue-count"); break; \
        case 8: if (!mn) break; x = m[s].idx; v = (TYPE *)m[s].p; tx = x; tv = bfdev_radix_next(&r, &tx); i = s; bfdev_radix_for_each_form_safe(v, &r, &x, tv, &tx) { EXPECT(i, v, x, "walk-from-safe"); i++; } VF_EQ(i, mn, "walk-from-safe-count"); break; \
        case 9: if (!mn) break; x = m[s].idx; tx = x; tv = bfdev_radix_prev(&r, &tx); i = s; bfdev_radix_for_each_reverse_continue_safe(v, &r, &x, tv, &tx) { i--; EXPECT(i, v, x, "walk-reverse-continue-safe"); } VF_EQ(i, 0, "walk-reverse-continue-safe-count"); break; \
        case 10: if (!mn) break; x = m[s].idx; v = (TYPE *)m[s].p; tx = x; tv = bfdev_radix_prev(&r, &tx); i = s + 1; bfdev_radix_for_each_reverse_form_safe(v, &r, &x, tv, &tx) { VF_CHECK(i, "walk-reverse-from-safe", "too long"); i--; EXPECT(i, v, x, "walk-reverse-from-safe"); } VF_EQ(i, 0, "walk-reverse-from-safe-count"); break; \
        case 11: if (!mn) break; x = m[s].idx; v = (TYPE *)m[s].p; tx = x; tv = bfdev_radix_next(&r, &tx); i = s + 1; bfdev_radix_for_each_continue_safe(v, &r, &x, tv, &tx) { EXPECT(i, v, x, "walk-continue-safe"); i++; } VF_EQ(i, mn, "walk-continue-safe-count"); break; \
        } } \
        if (vf_chance(1, 4)) { vf_obs(mn); vf_obs(r.tree.level); if (mn) vf_obs(m[mn - 1].idx); } \
        if (r.tree.level >= 3) VF_EV("radix.level3"); if (r.tree.level == 12) VF_EV("radix.full_height"); \
    } \
    if (vf_chance(1, 2)) { TYPE *v, *tv; uint64_t x, tx; size_t i = 0, n = mn; \
        if (vf_chance(1, 2)) { bfdev_radix_for_each_safe(v, &r, &x, tv, &tx) { EXPECT(i, v, x, "drain"); i++; VF_EQ(bfdev_radix_free(&r, x), 0, "drain-free"); } } \
        else { bfdev_radix_for_each_reverse_safe(v, &r, &x, tv, &tx) { i++; EXPECT(mn - i, v, x, "drain"); VF_EQ(bfdev_radix_free(&r, x), 0, "drain-free"); } } \
        VF_EQ(i, n, "drain-count"); VF_EV("radix.drain"); mn = 0; } \
    bfdev_radix_release(&r); VF_PEQ(bfdev_radix_find(&r, 0), NULL, "released"); vfa_done(&A, "release-leak"); free(m); \
}
SCN(r1, uint8_t) SCN(r2, uint16_t) SCN(r3, t3) SCN(r4, uint32_t) SCN(r5, t5) SCN(r8, uint64_t) SCN(r16, t16) SCN(r24, t24) SCN(r100, t100) SCN(r129, t129) SCN(r256, t256)
static void zeroed(void)
{   /* fresh cells start zeroed; charged ranges need no more memory for charged cells */
    BFDEV_DECLARE_RADIX(r, uint32_t); vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); r = BFDEV_RADIX_INIT(&r, &al);
    uint64_t base = vf_below(1000) * 64, n = 1 + vf_below(2000), lo;
    for (int i = 0; i < 40; i++) { uint64_t k = vf_edge64() >> 2; uint32_t *p = bfdev_radix_find(&r, k); if (p) continue; p = bfdev_radix_alloc(&r, k); VF_CHECK(p && *p == 0, "fresh-zero", "fresh cell not zeroed"); vf_obs(k); }
    VF_EV("radix.fresh");
    VF_EQ(bfdev_radix_charge(&r, base, n), 0, "charge"); lo = A.calls;
    for (int i = 0; i < 20; i++) { uint64_t k = base + vf_below(n); VF_CHECK(bfdev_radix_alloc(&r, k), "charged-alloc", "no cell"); }
    VF_EQ(A.calls, lo, "charged-alloc"); VF_EV("radix.charge");
    VF_EQ(bfdev_radix_charge(&r, ULONG_MAX / 4 - 3, 100), -BFDEV_EOVERFLOW, "charge-overflow");
    bfdev_radix_release(&r); vfa_done(&A, "release-leak");
}
VF_SCENARIOS({ "u8", r1, 2 }, { "u16", r2, 1 }, { "b3", r3, 1 }, { "u32", r4, 1 }, { "b5", r5, 1 }, { "u64", r8, 1 }, { "b16", r16, 1 }, { "b24", r24, 1 }, { "b100", r100, 1 }, { "b129", r129, 1 }, { "b256", r256, 1 }, { "fresh", zeroed, 1 });
