/* C38: hashes and the seeded generator. */
#include "vf.h"
#include <bfdev/jhash.h>
#include <bfdev/hash.h>
#include <bfdev/stringhash.h>
#include <bfdev/prandom.h>

static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }
/* Jenkins lookup3, hashlittle, by bytes */
static uint32_t lookup3(const uint8_t *k, size_t n, uint32_t init)
{
    uint32_t s[3], w[3]; s[0] = s[1] = s[2] = 0xdeadbeef + (uint32_t)n + init; if (!n) return s[2];
    for (;;) {
        size_t m = n > 12 ? 12 : n; memset(w, 0, sizeof w); for (size_t i = 0; i < m; i++) w[i / 4] |= (uint32_t)k[i] << 8 * (i % 4);
        for (int i = 0; i < 3; i++) s[i] += w[i];
        if (n <= 12) break;
        static const int R[6] = { 4, 6, 8, 16, 19, 4 }; for (int i = 0; i < 6; i++) { int x = i % 3, p = (i + 2) % 3, q = (i + 1) % 3; s[x] -= s[p]; s[x] ^= rot(s[p], R[i]); s[p] += s[q]; }
        n -= 12; k += 12;
    }
    static const int F[7] = { 14, 11, 25, 16, 4, 14, 24 }; for (int i = 0; i < 7; i++) { int x = (i + 2) % 3, p = (i + 1) % 3; s[x] ^= s[p]; s[x] -= rot(s[p], F[i]); }
    return s[2];
}
static void scn_jhash(void)
{
    static bool kat; if (!kat) { const char *g = "Four score and seven years ago"; VF_EQ(lookup3((const uint8_t *)g, 30, 0), 0x17770551u, "oracle"); VF_EQ(lookup3((const uint8_t *)g, 30, 1), 0xcd628161u, "oracle"); VF_EQ(bfdev_jhash(g, 30, 0), 0x17770551u, "jhash-known"); VF_EQ(bfdev_jhash(g, 30, 1), 0xcd628161u, "jhash-known"); VF_EQ(bfdev_jhash("", 0, 0), 0xdeadbeefu, "jhash-known"); kat = true; }
    size_t n = vf_chance(1, 100) ? vf_past64k() : vf_chance(1, 2) ? vf_below(40) : vf_below(400); uint32_t init = (uint32_t)vf_edge64(); uint8_t *key = vf_xmalloc(n + 1); int fill = vf_below(3);
    for (size_t i = 0; i < n; i++) key[i] = fill == 0 ? (uint8_t)vf_rand() : fill == 1 ? 0xff : (uint8_t)vf_below(2); uint32_t want = lookup3(key, n, init);
    vf_op("jhash of %zu bytes, seed %#x", n, init);
    for (int al = 0; al < 4; al++) { uint8_t *raw = vf_xmalloc(n + al); memset(raw, (int)vf_rand(), n + al); memcpy(raw + al, key, n); uint32_t got = bfdev_jhash(raw + al, n, init); VF_CHECK(got == want, "jhash", "hash of %zu bytes at alignment %d is %#x, wanted %#x", n, al, got, want); VF_CHECK(!memcmp(raw + al, key, n), "jhash-key", "the key was changed"); free(raw); }
    free(key); VF_EV("hash.jhash"); if (n > 65535) VF_EV("hash.past_64k"); vf_obs(want); vf_obs(n);
}
static uint32_t pjw(const uint8_t *s) { uint32_t h = 0, g; for (; *s; s++) { h = (h << 4) + *s; g = h & 0xf0000000u; if (g) { h ^= g >> 24; h &= ~g; } } return h; }
static void scn_pjw(void)
{
    static const uint8_t top[] = { 0xff, 0x0f, 0x0f, 0x0f, 0x0f, 0x0f, 0x12 };
    size_t n = vf_chance(1, 100) ? vf_past64k() : vf_below(vf_chance(1, 3) ? 200 : 12); uint8_t *s = vf_xmalloc(n + sizeof top + 1); int how = vf_below(4);
    for (size_t i = 0; i < n; i++) s[i] = how == 0 ? 1 + vf_below(255) : how == 1 ? 128 + vf_below(128) : how == 2 ? 32 + vf_below(95) : vf_chance(1, 2) ? 0x0f : 0xff;
    if (vf_chance(1, 6)) { size_t at = vf_chance(1, 2) ? 0 : n; if (!at) memmove(s + sizeof top, s, n); memcpy(s + at, top, sizeof top); n += sizeof top; } s[n] = 0;
    s = realloc(s, n + 1); vf_op("pjw of %zu bytes", n); unsigned long got = bfdev_pjwhash((const char *)s); uint32_t want = pjw(s); VF_CHECK(got == want, "pjwhash", "hash of %zu bytes is %#lx, wanted %#x", n, got, want); VF_CHECK(got >> 28 == 0, "pjw-range", "hash %#lx above 28 bits", got);
    free(s); VF_EV("hash.pjw"); if (how == 1) VF_EV("hash.pjw_high_bytes"); vf_obs(want); vf_obs(n);
}
static void scn_index(void)
{
    for (int i = 0; i < 20; i++) {
        uint64_t v = vf_edge64(); uint32_t v32 = (uint32_t)v; unsigned b32 = 1 + vf_below(32), b64 = 1 + vf_below(64); vf_op("index %#lx %u %u", (long)v, b32, b64);
        uint32_t h32 = v32 * 0x61c88647u; uint64_t h64 = v * 0x61c8864680b583ebull;
        VF_EQ(bfdev_hashv32(v32), h32, "hashv32"); VF_EQ(bfdev_hashv64(v), h64, "hashv64"); VF_EQ(bfdev_hashvl(v), h64, "hashvl");
        uint64_t a = bfdev_hash32(v32, b32), b = bfdev_hash64(v, b64), c = bfdev_hashl(v, b64); VF_CHECK(a <= (UINT32_MAX >> (32 - b32)), "hash-bits", "%#lx above %u bits", (long)a, b32); VF_CHECK(b <= (UINT64_MAX >> (64 - b64)), "hash-bits", "%#lx above %u bits", (long)b, b64);
        VF_EQ(a, h32 >> (32 - b32), "hash32"); VF_EQ(b, h64 >> (64 - b64), "hash64"); VF_EQ(c, b, "hashl"); VF_EV("hash.index"); vf_obs(a); vf_obs(b);
    }
}
/* taus113 of L'Ecuyer: component j of degree k, bit-recurrence form */
typedef struct { uint32_t z[4]; } taus_t;
static uint32_t step(uint32_t z, int k, int q, int s) { uint32_t b = ((z << q) ^ z) >> (k - s); return ((z & (0xffffffffu << (32 - k))) << s) ^ b; }
static uint32_t taus(taus_t *t) { static const int K[4] = { 31, 29, 28, 25 }, Q[4] = { 6, 2, 13, 3 }, D[4] = { 18, 2, 7, 13 }; uint32_t r = 0; for (int i = 0; i < 4; i++) r ^= t->z[i] = step(t->z[i], K[i], Q[i], D[i]); return r; }
static void same(const bfdev_prandom_t *p, const taus_t *t) { VF_CHECK(p->s1 == t->z[0] && p->s2 == t->z[1] && p->s3 == t->z[2] && p->s4 == t->z[3], "prandom-state", "state differs from the published recurrence"); }
static void scn_prandom(void)
{
    bfdev_prandom_t p, q; taus_t t; int n = 2 + vf_below(60); static const uint32_t M[4] = { 2, 8, 16, 128 };
    if (vf_chance(1, 4)) { if (vf_chance(1, 2)) bfdev_prandom_init(&p); else p = BFDEV_PRANDOM_INIT(); for (int i = 0; i < 4; i++) t.z[i] = BFDEV_PRANDOM_SEED; VF_EV("prandom.default"); vf_obs(1); }
    else {
        uint64_t s = vf_chance(1, 3) ? vf_below(300) : vf_chance(1, 2) ? vf_edge64() : vf_rand(); memset(&p, (int)vf_rand(), sizeof p); memset(&q, (int)vf_rand(), sizeof q); vf_op("seed %#lx", (long)s); bfdev_prandom_seed(&p, s); bfdev_prandom_seed(&q, s);
        uint32_t x = (uint32_t)((s >> 32) ^ (s << 10) ^ s); for (int i = 0; i < 4; i++) t.z[i] = x < M[i] ? x + M[i] : x; for (int i = 0; i < 10; i++) taus(&t); VF_CHECK(!memcmp(&p, &q, sizeof p), "prandom-deterministic", "one seed, two states"); VF_EV("prandom.seeded"); vf_obs(s);
        if (x < 128) VF_EV("prandom.weak_seed");
    }
    same(&p, &t); for (int i = 0; i < 4; i++) VF_CHECK(t.z[i] >= M[i], "prandom-degenerate", "component %d is stuck", i);
    while (n--) { uint32_t a = taus(&t); uint64_t w;
        switch (vf_below(3)) { case 0: VF_EQ(bfdev_prandom_value(&p), a, "prandom-value"); break; case 1: w = (uint64_t)a << 32; w |= taus(&t); VF_EQ(bfdev_prandom_u64(&p), w, "prandom-u64"); break; default: w = (uint64_t)a << 32; w |= taus(&t); VF_EQ(bfdev_prandom_long(&p), w, "prandom-long"); }
        same(&p, &t); VF_EV("prandom.draws"); vf_obs(a); }
}
VF_SCENARIOS({ "jhash", scn_jhash, 2 }, { "pjw", scn_pjw, 2 }, { "index", scn_index, 1 }, { "prandom", scn_prandom, 2 });
