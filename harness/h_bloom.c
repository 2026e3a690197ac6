/* C15: Bloom filters against the set of pushed elements. */
#include "vf.h"
#include <bfdev/bloom.h>
static int hm; static unsigned long cookie; static unsigned nfunc;
static unsigned hash(unsigned f, const void *k, void *pd)
{
    uint64_t v = *(const uint64_t *)k; VF_PEQ(pd, &cookie, "callback-data"); VF_CHECK(f < nfunc, "func-index", "function %u of %u", f, nfunc); VF_EV("bloom.hash");
    switch (hm) { case 0: return v + f; case 1: return v & 7; case 2: return vf_mix64(v ^ (uint64_t)f << 56) ; case 3: return f; case 4: return (unsigned)v << 24 | f; case 6: return vf_mix64(v + f * 0x9e3779b97f4a7c15ULL); default: return vf_mix64(v * 31 + f) >> 32; }
}
static void scn(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); bool useal = vf_chance(3, 4); unsigned cap; bfdev_bloom_t *b; uint64_t *set; size_t n = 0, max = 120; uint64_t span = vf_chance(1, 2) ? 1 + vf_below(200) : ~0ULL;
    switch (vf_below(4)) { case 0: cap = 1 + vf_below(200); break; case 1: cap = (1u << vf_below(15)) + vf_below(3) ; break; case 2: cap = 1 + vf_below(30000); break; default: cap = 64 * (1 + vf_below(20)) + vf_range(-1, 1); }
    if (vf_chance(1, 60)) { cap = vf_past64k() << vf_below(5); VF_EV("bloom.past_64k"); }
    nfunc = 1 + vf_below(vf_chance(1, 4) ? 20 : 4); hm = vf_below(6); set = vf_xmalloc(max * sizeof(*set));
    if (vf_chance(1, 40)) { unsigned bad = vf_chance(1, 2) ? 0 : UINT_MAX - vf_below(62); b = bfdev_bloom_create(&al, bad, hash, nfunc, &cookie); if (b) { uint64_t k = vf_rand(); VF_CHECK(!bfdev_bloom_push(b, &k) && bfdev_bloom_peek(b, &k), "extreme-capacity", "element lost at capacity %u", bad); bfdev_bloom_destroy(b); } VF_EQ(A.live, 0, "refused-leak"); VF_EV("bloom.extreme_capacity"); }
    b = bfdev_bloom_create(useal ? &al : NULL, cap, hash, nfunc, &cookie); VF_CHECK(b, "create", "no filter");
    for (int op = 0; op < 100; op++) {
        uint64_t *k = vf_xmalloc(sizeof *k); int c = vf_below(20); bool had = false, pk, pu;
        *k = span == ~0ULL ? vf_rand() : vf_below(span); if (n && vf_chance(1, 3)) *k = set[vf_below(n)];
        for (size_t i = 0; i < n; i++) had |= set[i] == *k;
        if (c < 9 && n < max) {
            pk = bfdev_bloom_peek(b, k); vf_op("push %llx", (long long)*k); pu = bfdev_bloom_push(b, k); VF_EQ(pu, pk, "push-report"); if (had) VF_CHECK(pu, "false-negative", "pushed element reported new"); VF_CHECK(bfdev_bloom_peek(b, k), "push-peek", "just pushed element absent"); set[n++] = *k; VF_EV("bloom.push"); if (pu && !had) VF_EV("bloom.false_positive"); vf_obs(pu);
        } else if (c < 17) { vf_op("peek %llx", (long long)*k); pk = bfdev_bloom_peek(b, k); if (had) VF_CHECK(pk, "false-negative", "pushed element reported absent"); if (!n) VF_CHECK(!pk, "empty", "element present in an empty filter"); VF_EV("bloom.peek"); vf_obs(pk | n << 1); }
        else if (vf_chance(1, 6)) { vf_op("flush"); bfdev_bloom_flush(b); for (size_t i = 0; i < n; i++) VF_CHECK(!bfdev_bloom_peek(b, &set[i]), "flush", "element survives the flush"); if (n) VF_EV("bloom.flush"); n = 0; VF_CHECK(!bfdev_bloom_peek(b, k), "flush", "element present after the flush"); }
        free(k);
    }
    for (size_t i = 0; i < n; i++) VF_CHECK(bfdev_bloom_peek(b, &set[i]), "false-negative", "pushed element reported absent");
    bfdev_bloom_destroy(b); vfa_done(&A, "release-leak"); free(set);
}
/* a filter with well-spread hash functions tells most elements apart: never more false positives than the
 * classical bound (1 - e^(-kn/m))^k of a filter of half the capacity, with ample slack for chance */
static void scn_tells_apart(void)
{
    unsigned cap = 1 + vf_below(vf_chance(1, 2) ? 3000 : 60000), m = 64, n, probes = 3000, fp = 0; vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); uint64_t salt = vf_rand();
    nfunc = 1 + vf_below(6); hm = 6; while (m * 2 <= cap) m *= 2; n = 1 + vf_below(m / nfunc + 1); if (vf_chance(1, 2)) n = 1 + n / 8;
    double e = 1, x = 1.0 - 1.0 / m, q = 1, lim; for (unsigned i = 0, t = n * nfunc; i < t; i++) q *= x; for (unsigned i = 0; i < nfunc; i++) e *= 1 - q; e *= probes; lim = e * 1.5 + 12; for (double r = 1; r * r < e * 1.0; r += 1) lim += 6; 
    bfdev_bloom_t *b = bfdev_bloom_create(&al, cap, hash, nfunc, &cookie); VF_CHECK(b, "create", "no filter");
    for (uint64_t i = 0; i < n; i++) { uint64_t k = vf_mix64(salt + i); bfdev_bloom_push(b, &k); }
    for (uint64_t i = 0; i < probes; i++) { uint64_t k = vf_mix64(salt + 0x100000 + i); fp += bfdev_bloom_peek(b, &k); }
    VF_CHECK(fp <= lim, "tells-apart", "%u of %u absent elements reported present (capacity %u, %u elements, %u functions, expected about %.1f)", fp, probes, cap, n, nfunc, e);
    if (e < probes / 10) VF_EV("bloom.tells_apart"); vf_obs(fp); vf_obs(cap); bfdev_bloom_destroy(b); vfa_done(&A, "release-leak");
}
VF_SCENARIOS({ "bloom", scn, 20 }, { "tells_apart", scn_tells_apart, 1 });
