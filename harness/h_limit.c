/* C32: rate limiters against request-by-request definitions. */
#include "vf.h"
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>

typedef __int128 wide_t;
/* a non-decreasing clock of non-zero times */
static bfdev_time_t tick(bfdev_time_t now, bfdev_time_t iv, bfdev_time_t max)
{
    wide_t d, t;
    switch (vf_below(14)) {
    case 0: case 1: d = 0; break;
    case 2: d = iv; break;
    case 3: d = (wide_t)iv - 1; break;
    case 4: d = (wide_t)iv + 1; break;
    case 5: d = (wide_t)iv * vf_below(6) + vf_below(3); break;
    case 6: d = vf_chance(1, 6) ? (wide_t)iv * ((1ULL << 32) + vf_below(3) - 1) : 1; VF_EV("limit.idle_2_32"); break;
    case 7: d = vf_chance(1, 8) ? vf_edge64() >> 1 : 2; break;
    default: d = vf_below((uint64_t)iv / 3 + 2);
    }
    t = now + d; if (t > max) t = max;
    return t;
}
static void scn_rate(void)
{
    bfdev_time_t iv = vf_chance(1, 12) ? 0 : vf_chance(1, 8) ? (bfdev_time_t)(vf_edge64() >> 3) : 1 + (bfdev_time_t)vf_below(120), max, now; unsigned burst = vf_chance(1, 10) ? 0 : vf_chance(1, 10) ? UINT_MAX : 1 + vf_below(8), used = 0, missed = 0; bool started = false; bfdev_time_t begin = 0; bfdev_ratelimit_t l;
    max = (bfdev_time_t)(~0ULL >> 1) - iv - 1; if (vf_chance(1, 2)) bfdev_ratelimit_init(&l, iv, burst); else l = BFDEV_RATELIMIT_INIT(iv, burst);
    now = vf_chance(1, 3) ? 1 : vf_chance(1, 4) ? max - (bfdev_time_t)vf_below(1000) : 1 + (bfdev_time_t)(vf_edge64() >> 2); if (now < 1 || now > max) now = 1;
    for (int s = vf_below(vf_deep ? 600 : 150); s--;) {
        bool want, got; if (vf_chance(1, 40)) { bfdev_ratelimit_reset(&l); started = false; used = missed = 0; VF_EV("limit.reset"); }
        if (iv) { if (!started) { begin = now; started = true; } if ((wide_t)now > (wide_t)begin + iv) { begin = now; used = 0; VF_EV("limit.window"); } want = used < burst; if (want) used++; else missed++; } else want = true;
        got = bfdev_ratelimit(&l, now); vf_op("request at %lld: %d", (long long)now, got);
        VF_CHECK(got == want, "rate-admit", "request at %lld: got %d want %d (window from %lld, interval %lld, %u of %u used)", (long long)now, got, want, (long long)begin, (long long)iv, used, burst);
        VF_EQ(l.missed, missed, "rate-missed"); if (iv) VF_EQ(l.passed, used, "rate-passed"); if (got) VF_EV("limit.rate_admitted"); else VF_EV("limit.rate_refused");
        vf_obs(got * 2 + (now == begin)); now = tick(now, iv, max);
    }
}
static void scn_bucket(void)
{
    bfdev_time_t iv = vf_chance(1, 12) ? 0 : vf_chance(1, 8) ? (bfdev_time_t)(vf_edge64() >> 2) : 1 + (bfdev_time_t)vf_below(vf_chance(1, 3) ? 3 : 120), max = (bfdev_time_t)(~0ULL >> 1), now, prev, last = 0; unsigned cap = vf_chance(1, 10) ? 0 : vf_chance(1, 8) ? UINT_MAX - vf_below(3) : vf_chance(1, 8) ? (unsigned)vf_edge64() : 1 + vf_below(9), passed = 0, missed = 0; wide_t tok = 0; bool started = false; bfdev_tokenbucket_t l;
    if (vf_chance(1, 2)) bfdev_tokenbucket_init(&l, iv, cap); else l = BFDEV_TOKENBUCKET_INIT(iv, cap);
    now = vf_chance(1, 3) ? 1 : 1 + (bfdev_time_t)(vf_edge64() >> 2); if (now < 1) now = 1;
    for (int s = vf_below(vf_deep ? 600 : 150); s--;) {
        bool want = true, got; if (vf_chance(1, 40)) { bfdev_tokenbucket_reset(&l); started = false; passed = missed = 0; VF_EV("limit.reset"); }
        if (started && vf_chance(1, 40)) { bfdev_tokenbucket_update(&l, now); last = now; VF_EV("limit.update"); }
        if (iv) {
            if (!started) { tok = cap; last = now; started = true; }
            wide_t g = ((wide_t)now - last) / iv; last += g * iv; if (g > UINT_MAX) VF_EV("limit.long_idle"); tok += g; if (tok > cap) { tok = cap; VF_EV("limit.capped"); }
            want = tok > 0; if (want) { tok--; passed++; } else missed++;
        }
        got = bfdev_tokenbucket(&l, now); vf_op("request at %lld: %d", (long long)now, got);
        VF_CHECK(got == want, "bucket-admit", "request at %lld: got %d want %d (interval %lld capacity %u)", (long long)now, got, want, (long long)iv, cap);
        VF_EQ(l.passed, passed, "bucket-passed"); VF_EQ(l.missed, missed, "bucket-missed"); if (iv) VF_CHECK(l.current == (unsigned)tok, "bucket-tokens", "%u tokens, want %llu", l.current, (unsigned long long)tok);
        if (got) VF_EV("limit.bucket_admitted"); else VF_EV("limit.bucket_refused"); vf_obs(got * 2 + (tok == 0)); prev = now; now = tick(now, iv, max);
        if (tok > 100 && vf_chance(1, 8)) { unsigned take = vf_below(30); while (take-- && tok) { VF_EQ(bfdev_tokenbucket(&l, prev), true, "bucket-drain"); tok--; passed++; } }
    }
}
VF_SCENARIOS({ "rate", scn_rate, 1 }, { "bucket", scn_bucket, 1 });
