/* C23: double-word arithmetic against 128-bit integers. */
#include "vf.h"
#include <bfdev/dword.h>
typedef unsigned __int128 u128;
#define HI(x) ((uint64_t)((x) >> 64))
#define LO(x) ((uint64_t)(x))

static uint64_t wd(void)
{
    switch (vf_below(5)) {
    case 0: return vf_edge64() | 1ULL << 63;
    case 1: return (vf_edge64() << 32) | (uint32_t)vf_edge64(); /* edges in each half */
    case 2: return vf_chance(1, 2) ? ~0ULL - vf_below(3) : vf_below(3);
    default: return vf_edge64();
    }
}
/* a dividend close to a multiple of d, or arbitrary */
static u128 dividend(u128 d)
{
    u128 q = ((u128)wd() << 64) | wd();
    switch (vf_below(5)) {
    case 0: return q;
    case 1: return (u128)wd();
    case 2: q = HI(d) ? wd() >> vf_below(64) : q; return d * q;
    case 3: q = HI(d) ? wd() >> vf_below(64) : q; return d * q + vf_range(-1, 1);
    default: return d + vf_range(-2, 2);
    }
}
static void scn_div(void)
{
    for (int k = 0; k < 40; k++) {
        uint64_t d = wd(); if (!d) d = 1;
        u128 n = dividend(d), q; uint64_t src[2] = { LO(n), HI(n) }, quot[2] = { 0xdead, 0xbeef }, rem = 0xfeed;
        bool wq = vf_chance(5, 6), wr = vf_chance(5, 6), in_place = vf_chance(1, 4);
        vf_op("udiv %#llx:%#llx / %#llx", (unsigned long long)src[1], (unsigned long long)src[0], (unsigned long long)d);
        q = n / d;
        if (in_place) { bfdev_dword_udiv(quot, src + 1, src, d); rem = src[1]; wq = wr = true; VF_EV("dword.in_place"); }
        else bfdev_dword_udiv(wq ? quot : NULL, wr ? &rem : NULL, src, d);
        if (wq) { VF_EQ(quot[0], LO(q), "udiv-quot-low"); VF_EQ(quot[1], HI(q), "udiv-quot-high"); }
        if (wr) VF_EQ(rem, LO(n % d), "udiv-rem");
        if (HI(q)) VF_EV("dword.wide_quotient"); else VF_EV("dword.narrow_quotient");
        if (d >> 63) VF_EV("dword.normalised");
        vf_obs(quot[0] ^ rem);
    }
}
static void scn_divd(void)
{
    for (int k = 0; k < 40; k++) {
        u128 d = ((u128)(vf_chance(1, 5) ? 0 : wd()) << 64) | wd(), n, q; if (!d) d = 1;
        n = dividend(d); q = n / d;
        uint64_t src[2] = { LO(n), HI(n) }, div[2] = { LO(d), HI(d) }, quot[2] = { 0xdead, 0xbeef }, rem[2] = { 0xfeed, 0xface };
        bool wq = vf_chance(5, 6), wr = vf_chance(5, 6);
        vf_op("udivd %#llx:%#llx / %#llx:%#llx", (unsigned long long)src[1], (unsigned long long)src[0], (unsigned long long)div[1], (unsigned long long)div[0]);
        if (vf_chance(1, 6)) { bfdev_dword_udivd(quot, src, src, div); rem[0] = src[0]; rem[1] = src[1]; wq = wr = true; VF_EV("dword.in_place"); }
        else bfdev_dword_udivd(wq ? quot : NULL, wr ? rem : NULL, src, div);
        if (wq) { VF_EQ(quot[0], LO(q), "udivd-quot-low"); VF_EQ(quot[1], HI(q), "udivd-quot-high"); }
        if (wr) { VF_EQ(rem[0], LO(n % d), "udivd-rem-low"); VF_EQ(rem[1], HI(n % d), "udivd-rem-high"); }
        if (!HI(d)) VF_EV("dword.single_divisor"); else if (HI(d) >> 63) VF_EV("dword.top_divisor"); else VF_EV("dword.double_divisor");
        vf_obs(quot[0] ^ rem[0] ^ rem[1]);
    }
}
static void scn_macros(void)
{
    for (int k = 0; k < 60; k++) {
        uint64_t a = wd(), b = wd(), c = wd(), d = wd(), h, l; u128 x = ((u128)a << 64) | b, y = ((u128)c << 64) | d, r;
        r = x + y; bfdev_dword_addd(h, l, a, b, c, d); VF_EQ(h, HI(r), "add-high"); VF_EQ(l, LO(r), "add-low");
        r = x - y; bfdev_sub_ddmmss(h, l, a, b, c, d); VF_EQ(h, HI(r), "sub-high"); VF_EQ(l, LO(r), "sub-low");
        h = a; l = b; bfdev_sub_ddmmss(h, l, h, l, c, d); VF_EQ(h, HI(r), "sub-high-in-place"); VF_EQ(l, LO(r), "sub-low-in-place");
        r = (u128)a * b; bfdev_umul_ppmm(h, l, a, b); VF_EQ(h, HI(r), "mul-high"); VF_EQ(l, LO(r), "mul-low");
        h = a; l = b; bfdev_umul_ppmm(h, l, h, l); VF_EQ(h, HI(r), "mul-high-in-place"); VF_EQ(l, LO(r), "mul-low-in-place");
        d |= 1ULL << 63; if (vf_chance(1, 3)) a = d - 1 - vf_below(2); /* high word below the divisor */
        if (a >= d) a -= d;
        x = ((u128)a << 64) | b; bfdev_udiv_qrnnd(h, l, a, b, d); VF_EQ(h, LO(x / d), "div-quot"); VF_EQ(l, LO(x % d), "div-rem");
        h = a; l = b; bfdev_udiv_qrnnd(h, l, h, l, d); VF_EQ(h, LO(x / d), "div-quot-in-place"); VF_EQ(l, LO(x % d), "div-rem-in-place");
        VF_EV("dword.macros"); vf_obs(h ^ l);
    }
}
VF_SCENARIOS({ "div", scn_div, 1 }, { "divd", scn_divd, 1 }, { "macros", scn_macros, 1 });
