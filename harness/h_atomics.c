/* C33: values of every atomic and reference-count operation, sequentially. */
#include "vf.h"
#include <bfdev/atomic.h>
#include <bfdev/cmpxchg.h>
#include <bfdev/refcount.h>
#include <bfdev/log.h>

typedef bfdev_atomic_t A; typedef uintptr_t U;
static void scn_ops(void)
{
    A v = (A)vf_edge64(), m; bfdev_atomic_write(&v, v); m = v;
    for (int i = 2 + vf_below(30); i--;) {
        A x = vf_chance(1, 4) ? (vf_chance(1, 2) ? m : -1) : (A)vf_edge64(), got, want = 0, old; int op = vf_below(24); bool hit;
        /* keep signed sums in range: the primitives wrap, the tests of them need not care */
        vf_op("op %d on %#lx with %#lx", op, (long)m, (long)x);
        switch (op) {
        case 0: bfdev_atomic_add(&v, x); got = 0; m = (A)((U)m + (U)x); break;
        case 1: bfdev_atomic_sub(&v, x); got = 0; m = (A)((U)m - (U)x); break;
        case 2: bfdev_atomic_and(&v, x); got = 0; m &= x; break;
        case 3: bfdev_atomic_or(&v, x); got = 0; m |= x; break;
        case 4: bfdev_atomic_xor(&v, x); got = 0; m ^= x; break;
        case 5: got = bfdev_atomic_fetch_add(&v, x); want = m; m = (A)((U)m + (U)x); break;
        case 6: got = bfdev_atomic_fetch_sub(&v, x); want = m; m = (A)((U)m - (U)x); break;
        case 7: got = bfdev_atomic_fetch_and(&v, x); want = m; m &= x; break;
        case 8: got = bfdev_atomic_fetch_or(&v, x); want = m; m |= x; break;
        case 9: got = bfdev_atomic_fetch_xor(&v, x); want = m; m ^= x; break;
        case 10: got = bfdev_atomic_add_fetch(&v, x); want = m = (A)((U)m + (U)x); break;
        case 11: got = bfdev_atomic_sub_fetch(&v, x); want = m = (A)((U)m - (U)x); break;
        case 12: got = bfdev_atomic_and_fetch(&v, x); want = m &= x; break;
        case 13: got = bfdev_atomic_or_fetch(&v, x); want = m |= x; break;
        case 14: got = bfdev_atomic_xor_fetch(&v, x); want = m ^= x; break;
        case 15: got = bfdev_xchg(&v, x); want = m; m = x; break;
        case 16: case 17: old = vf_chance(1, 2) ? m : (A)vf_edge64(); got = bfdev_cmpxchg(&v, old, x); want = m; if (old == m) { VF_EV("atomics.cas_hit"); m = x; } else VF_EV("atomics.cas_miss"); break;
        case 18: case 19: old = vf_chance(1, 2) ? m : (A)vf_edge64(); hit = old == m; got = old; want = bfdev_try_cmpxchg(&v, &got, x); VF_EQ(want, hit, "try-cmpxchg"); want = hit ? old : m; if (hit) m = x; break;
        case 20: bfdev_atomic_write(&v, x); m = x; got = 0; break;
        default: got = bfdev_atomic_read(&v); want = m;
        }
        VF_CHECK(got == want, "atomic-result", "operation %d returned %#lx, wanted %#lx", op, (long)got, (long)want);
        VF_CHECK(v == m, "atomic-value", "operation %d left %#lx, wanted %#lx", op, (long)v, (long)m); VF_EV("atomics.ops"); vf_obs(op); vf_obs(m);
    }
}
/* ---- counts and what is reported about them ---- */
static char rep[512]; static int nrep;
static int cap(bfdev_log_message_t *msg, void *pdata) { (void)pdata; nrep++; snprintf(rep, sizeof rep, "%.*s", (int)msg->length, msg->buff); return msg->length; }
static void reported(const char *want, const void *who)
{
#ifdef BFDEV_DEBUG_REFCNT
    char p[64]; snprintf(p, sizeof p, "(%p) ", who);
    VF_CHECK(nrep == (want ? 1 : 0), "refcnt-report", "%d reports (%s), wanted %s", nrep, nrep ? rep : "", want ? want : "none");
    if (want) { VF_CHECK(strstr(rep, want) && strstr(rep, p), "refcnt-report", "reported '%s', wanted '%s%s'", rep, p, want); VF_EV("refcnt.reports"); }
#else
    (void)want; (void)who; VF_EQ(nrep, 0, "refcnt-report");
#endif
}
static void scn_refcnt(void)
{
    bfdev_log_write_t was = bfdev_log_default.write; bfdev_refcnt_t r = BFDEV_REFCNT_INIT; A m = 1; bfdev_log_default.write = cap;
    VF_EQ(bfdev_refcnt_get(&r), 1, "refcnt-init");
    for (int i = 2 + vf_below(25); i--;) {
        if (vf_chance(1, 5)) { m = vf_chance(1, 3) ? INTPTR_MAX - (A)vf_below(4) : vf_chance(1, 3) ? -(A)vf_below(5) : (A)vf_below(6); bfdev_refcnt_set(&r, m); VF_EQ(bfdev_refcnt_get(&r), m, "refcnt-set"); }
        A nr = vf_chance(1, 2) ? 1 : 1 + (A)vf_below(6), prev = m, old = -77; int op = vf_below(20); const char *w = NULL; nrep = 0; bool t = false, have = false, fetch = false;
        vf_op("op %d nr %ld on %ld", op, (long)nr, (long)m);
        if ((op < 4 && op % 2) || (op >= 4 && op < 12 && (op & 1)) || (op >= 12 && (op & 1))) nr = 1;
        switch (op) {
        case 0: case 2: bfdev_refcnt_add(&r, nr); break;
        case 1: bfdev_refcnt_inc(&r); break;
        case 3: bfdev_refcnt_fetch_inc(&r, &old); fetch = true; break;
        case 4: bfdev_refcnt_sub(&r, nr); break;
        case 5: bfdev_refcnt_dec(&r); break;
        case 6: t = bfdev_refcnt_sub_test(&r, nr); have = true; break;
        case 7: t = bfdev_refcnt_dec_test(&r); have = true; break;
        case 8: case 10: bfdev_refcnt_fetch_sub(&r, nr, &old); fetch = true; break;
        case 9: bfdev_refcnt_fetch_dec(&r, &old); fetch = true; break;
        case 11: t = bfdev_refcnt_fetch_dec_test(&r, &old); have = fetch = true; break;
        case 12: bfdev_refcnt_addnz(&r, nr); break;
        case 13: bfdev_refcnt_incnz(&r); break;
        case 14: case 18: t = bfdev_refcnt_addnz_test(&r, nr); have = true; break;
        case 15: t = bfdev_refcnt_incnz_test(&r); have = true; break;
        case 16: bfdev_refcnt_fetch_addnz(&r, nr, &old); fetch = true; break;
        case 17: bfdev_refcnt_fetch_incnz(&r, &old); fetch = true; break;
        default: t = bfdev_refcnt_fetch_incnz_test(&r, &old); have = fetch = true;
        }
        if (op < 4) { m = (A)((U)m + (U)nr); w = !prev ? "add use-after-free" : prev < 0 ? "add leaking" : m < 0 ? "add overflow" : NULL; }
        else if (op < 12) { m = (A)((U)m - (U)nr); if (have) VF_EQ(t, prev == nr, "sub-test"); w = prev == nr ? NULL : !prev ? "sub use-after-free" : prev < 0 ? "sub leaking" : m < 0 ? "sub overflow" : NULL; }
        else { if (m) m = (A)((U)m + (U)nr); if (have) VF_EQ(t, !prev, "addnz-test"); w = prev < 0 ? "addnz leaking" : m < 0 ? "addnz overflow" : NULL; }
        if (fetch) VF_EQ(old, prev, "refcnt-fetch");
        VF_EQ(bfdev_refcnt_get(&r), m, "refcnt-value"); reported(w, &r); VF_EV("refcnt.ops"); vf_obs(op); vf_obs(m); vf_obs(nrep);
    }
    bfdev_log_default.write = was;
}
VF_SCENARIOS({ "ops", scn_ops, 2 }, { "refcnt", scn_refcnt, 3 });
