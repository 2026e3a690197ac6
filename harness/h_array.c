/* C04: dynamic array against an ideal byte sequence. */
#include "vf.h"
#include <bfdev/array.h>

static unsigned char *m; static size_t mlen, mcap;      /* model, in elements */
static void m_resize(size_t n, size_t cell) { if (n > mcap) { mcap = n * 2; m = realloc(m, mcap * cell); } mlen = n; }

static void scn_array(void)
{
    static const size_t cells[] = { 1, 2, 3, 4, 7, 8, 12, 16, 24, 33, 100, 256 };
    size_t cell = cells[vf_below(12)]; vf_alloc_t A; bfdev_array_t a; bool dflt = vf_chance(1, 4); int ops = 3 + vf_below(50);
    vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A);
    bfdev_alloc_t *alp = dflt ? NULL : &al;
    if (vf_chance(1, 2)) bfdev_array_init(&a, alp, cell); else a = BFDEV_ARRAY_INIT(alp, cell);
    m = NULL; mlen = mcap = 0; m_resize(1, cell); mlen = 0;
    size_t reserved = 0;     /* pushes up to here must not allocate */
    for (int i = 0; i < ops; i++) {
        unsigned long n = vf_below(8), old = mlen; unsigned char *p; int r;
        if (vf_chance(1, 8)) n = vf_below(150);
        switch (vf_below(12)) {
        case 0: case 1: case 2: case 3: {
            unsigned long calls = A.calls;
            if (!n && !mlen) break;
            vf_op("push %lu", n); p = bfdev_array_push(&a, n); VF_EV("array.push");
            VF_CHECK(p, "push", "push of %lu elements failed", n);
            m_resize(old + n, cell);
            for (size_t j = 0; j < n * cell; j++) { unsigned char c = vf_rand(); m[old * cell + j] = c; p[j] = c; }
            if (!dflt && old + n <= reserved) VF_CHECK(A.calls == calls, "reserve-keeps-promise", "push inside reserved space allocated memory");
            if (n) VF_PEQ(bfdev_array_data(&a, old), p, "push-position");
            break; }
        case 4: case 5:
            vf_op("pop %lu", n);
            if (!n && !mlen) break;
            p = bfdev_array_pop(&a, n); VF_EV("array.pop");
            if (n > mlen) { VF_PEQ(p, NULL, "pop-too-many"); VF_EV("array.pop_refused"); }
            else { VF_CHECK(p, "pop", "pop of %lu of %zu refused", n, mlen); mlen -= n; VF_CHECK(!memcmp(p, m + mlen * cell, n * cell), "pop-content", "popped elements differ"); }
            break;
        case 6:
            if (!n && !mlen) break;
            p = bfdev_array_peek(&a, n); VF_EV("array.peek");
            if (n > mlen) VF_PEQ(p, NULL, "peek-too-many");
            else { VF_CHECK(p, "peek", "peek of %lu of %zu refused", n, mlen); VF_CHECK(!memcmp(p, m + (mlen - n) * cell, n * cell), "peek-content", "peeked elements differ"); }
            break;
        case 7:
            vf_op("resize %lu", n);
            if (!n && !mlen && !a.data) break;
            r = bfdev_array_resize(&a, n); VF_EV("array.resize"); VF_EQ(r, 0, "resize");
            m_resize(n, cell);
            if (n > old) { p = bfdev_array_data(&a, old); VF_CHECK(p, "resize-access", "no access to resized element"); for (size_t j = 0; j < (n - old) * cell; j++) m[old * cell + j] = p[j] = vf_rand(); }
            break;
        case 8:
            vf_op("reserve %lu", n);
            r = bfdev_array_reserve(&a, n); VF_EV("array.reserve"); VF_EQ(r, 0, "reserve");
            if (mlen + n > reserved) reserved = mlen + n;
            break;
        case 9:
            if (vf_chance(1, 2)) { vf_op("reset"); bfdev_array_reset(&a); mlen = 0; VF_EV("array.reset"); }
            else if (vf_chance(1, 3)) { vf_op("release"); bfdev_array_release(&a); mlen = 0; reserved = 0; VF_EV("array.release"); if (!dflt) VF_EQ(A.live, 0, "release-leak"); }
            break;
        case 10: { /* cannot be represented or allocated */
            unsigned long huge; int k = vf_below(4); size_t was = a.capacity;
            huge = k == 0 ? ULONG_MAX - vf_below(3) : k == 1 ? ULONG_MAX / cell + 1 + vf_below(3) : k == 2 ? ULONG_MAX / cell - vf_below(40) : (1UL << (40 + vf_below(24)));
            if (k == 1 && cell == 1) huge = ULONG_MAX;
            if (dflt && huge <= (1UL << 48) / cell) break;
            vf_op("huge %lu kind %d", huge, k);
            k = vf_below(3);
            if (k == 0) { p = bfdev_array_push(&a, huge); VF_PEQ(p, NULL, "huge-push"); }
            else if (k == 1) { r = bfdev_array_resize(&a, huge); VF_CHECK(r < 0, "huge-resize", "resize to %lu elements of %zu accepted", huge, cell); }
            else { r = bfdev_array_reserve(&a, huge); VF_CHECK(r < 0, "huge-reserve", "reserve of %lu elements of %zu accepted", huge, cell); }
            VF_EV("array.huge_refused"); (void)was;
            p = bfdev_array_pop(&a, vf_chance(1, 2) ? ULONG_MAX : mlen + 1); VF_PEQ(p, NULL, "huge-pop");
            break; }
        case 11:
            for (int k = 0; k < 3; k++) {
                unsigned long x = k == 0 ? mlen : k == 1 ? ULONG_MAX - vf_below(3) : vf_below(mlen + 5);
                p = bfdev_array_data(&a, x); VF_EV("array.data");
                if (x >= mlen) VF_PEQ(p, NULL, "data-out-of-range"); else VF_CHECK(p && !memcmp(p, m + x * cell, cell), "data-content", "element %lu differs", x);
            }
            break;
        }
        VF_EQ(bfdev_array_index(&a), mlen, "length"); VF_EQ(bfdev_array_size(&a), mlen * cell, "size");
        n = vf_below(1000); VF_EQ(bfdev_array_offset(&a, n), n * cell, "offset");
        VF_PEQ(bfdev_array_data(&a, mlen), NULL, "data-out-of-range");
        if (mlen) {
            p = bfdev_array_data(&a, 0); VF_CHECK(p, "data", "first element refused");
            VF_CHECK(!memcmp(p, m, mlen * cell), "content", "content differs from the model (%zu elements of %zu)", mlen, cell);
            vf_obs_mem(p, mlen * cell);
        }
        vf_obs(mlen);
    }
    bfdev_array_release(&a); VF_EQ(bfdev_array_index(&a), 0, "release");
    vfa_done(&A, "release-leak"); free(m);
}
VF_SCENARIOS({ "array", scn_array, 1 });
