/* C26: CRCs against bit-at-a-time polynomial division. */
#include "vf.h"
#include <bfdev/crc.h>
#include <bfdev/crypto/crc4-inline.h>
#include <bfdev/crypto/crc7-inline.h>
#include <bfdev/crypto/crc8-inline.h>
#include <bfdev/crypto/crc16-inline.h>
#include <bfdev/crypto/crc32-inline.h>
#include <bfdev/crypto/crc64-inline.h>
#include <bfdev/crypto/crc-ccitt-inline.h>
#include <bfdev/crypto/crc-itut-inline.h>
#include <bfdev/crypto/crc-t10dif-inline.h>
#include <bfdev/crypto/crc-rocksoft-inline.h>

typedef struct { const char *name; unsigned width; bool lsb; uint64_t poly; } alg_t;
static const alg_t ALG[] = {
    { "crc7", 8, false, 0x09 << 1 }, { "crc8", 8, false, 0x07 }, { "crc16", 16, true, 0xa001 }, { "crc32", 32, true, 0xedb88320 },
    { "crc64", 64, false, 0x42f0e1eba9ea3693 }, { "crc_ccitt", 16, true, 0x8408 }, { "crc_itut", 16, false, 0x1021 },
    { "crc_t10dif", 16, false, 0x8bb7 }, { "crc_rocksoft", 64, true, 0x9a6c9329ac4bc9b5 },
};
static uint64_t lib(int a, const void *d, size_t n, uint64_t c)
{
    switch (a) {
    case 0: return bfdev_crc7(d, n, c); case 1: return bfdev_crc8(d, n, c); case 2: return bfdev_crc16(d, n, c); case 3: return bfdev_crc32(d, n, c);
    case 4: return bfdev_crc64(d, n, c); case 5: return bfdev_crc_ccitt(d, n, c); case 6: return bfdev_crc_itut(d, n, c);
    case 7: return bfdev_crc_t10dif(d, n, c); default: return bfdev_crc_rocksoft(d, n, c);
    }
}
static uint64_t lib_inline(int a, const void *d, size_t n, uint64_t c)
{
    switch (a) {
    case 0: return bfdev_crc7_inline(d, n, c); case 1: return bfdev_crc8_inline(d, n, c); case 2: return bfdev_crc16_inline(d, n, c); case 3: return bfdev_crc32_inline(d, n, c);
    case 4: return bfdev_crc64_inline(d, n, c); case 5: return bfdev_crc_ccitt_inline(d, n, c); case 6: return bfdev_crc_itut_inline(d, n, c);
    case 7: return bfdev_crc_t10dif_inline(d, n, c); default: return bfdev_crc_rocksoft_inline(d, n, c);
    }
}
static uint64_t ref(const alg_t *a, const uint8_t *d, size_t n, uint64_t c)
{
    uint64_t mask = a->width == 64 ? ~0ULL : (1ULL << a->width) - 1;
    while (n--) {
        uint8_t b = *d++;
        for (int i = 0; i < 8; i++) {
            if (a->lsb) { bool f = (c ^ b >> i) & 1; c = c >> 1 ^ (f ? a->poly : 0); }
            else { bool f = (c >> (a->width - 1) ^ b >> (7 - i)) & 1; c = (c << 1 ^ (f ? a->poly : 0)) & mask; }
        }
    }
    return c;
}
static uint8_t *data(size_t n, uint8_t **blk)
{
    unsigned off = vf_below(16); int st = vf_below(6); uint8_t *p;
    *blk = vf_xmalloc(off + n); p = *blk + off;
    for (size_t i = 0; i < n; i++) p[i] = st == 0 ? 0 : st == 1 ? 0xff : st == 2 ? (vf_chance(1, 16) ? 1u << vf_below(8) : 0) : vf_rand();
    return p;
}
static size_t len(void) { if (vf_chance(1, 500)) { VF_EV("crc.past_64k"); return vf_past64k(); } return vf_chance(1, 2) ? vf_below(40) : vf_chance(1, 12) ? vf_below(vf_deep ? 20000 : 3000) : vf_below(200); }
static void scn_crc(void)
{
    int k = vf_below(9); const alg_t *a = &ALG[k]; size_t n = len(), at = 0; uint8_t *blk, *d = data(n, &blk);
    uint64_t mask = a->width == 64 ? ~0ULL : (1ULL << a->width) - 1, start = vf_edge64() & mask, want, got;
    static const char *const EV[9] = { "crc.7", "crc.8", "crc.16", "crc.32", "crc.64", "crc.ccitt", "crc.itut", "crc.t10dif", "crc.rocksoft" };
    vf_op("%s of %zu bytes at alignment %u from %#llx", a->name, n, (unsigned)((uintptr_t)d & 7), (unsigned long long)start);
    want = ref(a, d, n, start);
    got = lib(k, d, n, start); VF_CHECK(got == want, a->name, "%s of %zu bytes: got %#llx want %#llx", a->name, n, (unsigned long long)got, (unsigned long long)want);
    got = lib_inline(k, d, n, start); VF_CHECK(got == want, a->name, "inline %s of %zu bytes: got %#llx want %#llx", a->name, n, (unsigned long long)got, (unsigned long long)want);
    got = start;
    while (at < n) { size_t s = 1 + vf_below(vf_chance(1, 2) ? 8 : n); if (s > n - at) s = n - at; got = lib(k, d + at, s, got); at += s; VF_EV("crc.piece"); }
    VF_CHECK(got == want, "composition", "%s in pieces: got %#llx want %#llx", a->name, (unsigned long long)got, (unsigned long long)want);
    VF_EQ(lib(k, d, 0, start), start, "empty");
    for (int i = 0; i < 9; i++) if (i == k) { static vf_ctr_t c[9]; c[i].name = EV[i]; vf_hit(&c[i], 1); }
    if (n >= 16) VF_EV("crc.unrolled");
    vf_obs(want); vf_obs(n << 8 | k); free(blk);
}
/* 4-bit CRC over a bit count; a last partial byte contributes its low bits */
static void scn_crc4(void)
{
    size_t bits = vf_chance(1, 100) ? vf_past64k() + (vf_chance(1, 2) ? 8 * vf_past64k() : 0) : vf_chance(1, 2) ? 8 * vf_below(40) : vf_below(600), n = (bits + 7) / 8; uint8_t *blk, *d = data(n, &blk), c, start = vf_below(16), got;
    vf_op("crc4 of %zu bits from %u", bits, start); c = start;
    for (size_t i = 0; i < n; i++) { unsigned b = d[i], left = bits - i * 8; if (left < 8) b &= (1u << left) - 1; for (int j = 8; j--;) { bool f = (c >> 3 ^ b >> j) & 1; c = (c << 1 ^ (f ? 7 : 0)) & 15; } }
    got = bfdev_crc4(d, bits, start); VF_EQ(got, c, "crc4"); VF_EQ(bfdev_crc4_inline(d, bits, start), c, "crc4");
    if (n) { size_t cut = vf_below(n); VF_EQ(bfdev_crc4(d + cut, bits - cut * 8, bfdev_crc4(d, cut * 8, start)), c, "crc4-composition"); }
    if (bits % 8) { d[n - 1] ^= 0xff << bits % 8; VF_EQ(bfdev_crc4(d, bits, start), c, "crc4-beyond"); VF_EV("crc.4_partial"); }
    vf_obs(c); vf_obs(bits); VF_EV("crc.4"); free(blk);
}
VF_SCENARIOS({ "crc", scn_crc, 7 }, { "crc4", scn_crc4, 1 });
