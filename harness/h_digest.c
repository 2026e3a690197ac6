/* C25: digests against straightforward reference implementations of RFC 1321 and FIPS 180-4. */
#include "vf.h"
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
#include <math.h>

/* ---- references: whole message, padded, block by block ---- */
static uint32_t rol(uint32_t v, int n) { return v << n | v >> (32 - n); }
static uint8_t *pad(const uint8_t *d, size_t n, bool be, size_t *blocks)
{
    size_t t = (n + 9 + 63) / 64 * 64; uint8_t *p = vf_xcalloc(t); uint64_t bits = (uint64_t)n * 8;
    memcpy(p, d, n); p[n] = 0x80;
    for (int i = 0; i < 8; i++) p[t - 8 + i] = be ? bits >> (56 - 8 * i) : bits >> (8 * i);
    *blocks = t / 64; return p;
}
static void ref_md5(const uint8_t *d, size_t n, uint8_t *out)
{
    static uint32_t K[64]; static const int S[16] = { 7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21 };
    uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 }; size_t nb; uint8_t *p = pad(d, n, false, &nb);
    if (!K[0]) for (int i = 0; i < 64; i++) K[i] = (uint32_t)floor(fabs(sin(i + 1.0)) * 4294967296.0);
    for (size_t b = 0; b < nb; b++) {
        uint32_t w[16], A = h[0], B = h[1], C = h[2], D = h[3];
        for (int i = 0; i < 16; i++) { uint8_t *q = p + b * 64 + i * 4; w[i] = q[0] | q[1] << 8 | q[2] << 16 | (uint32_t)q[3] << 24; }
        for (int i = 0; i < 64; i++) {
            uint32_t f, t; int g;
            if (i < 16) f = (B & C) | (~B & D), g = i; else if (i < 32) f = (D & B) | (~D & C), g = (5 * i + 1) % 16;
            else if (i < 48) f = B ^ C ^ D, g = (3 * i + 5) % 16; else f = C ^ (B | ~D), g = 7 * i % 16;
            t = D; D = C; C = B; B += rol(A + f + K[i] + w[g], S[i / 16 * 4 + i % 4]); A = t;
        }
        h[0] += A; h[1] += B; h[2] += C; h[3] += D;
    }
    for (int i = 0; i < 16; i++) out[i] = h[i / 4] >> (8 * (i % 4));
    free(p);
}
static void ref_sha1(const uint8_t *d, size_t n, uint8_t *out)
{
    uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 }; size_t nb; uint8_t *p = pad(d, n, true, &nb);
    for (size_t b = 0; b < nb; b++) {
        uint32_t w[80], a = h[0], bb = h[1], c = h[2], dd = h[3], e = h[4];
        for (int i = 0; i < 16; i++) { uint8_t *q = p + b * 64 + i * 4; w[i] = (uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]; }
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for (int i = 0; i < 80; i++) {
            uint32_t f, k, t;
            if (i < 20) f = (bb & c) | (~bb & dd), k = 0x5a827999; else if (i < 40) f = bb ^ c ^ dd, k = 0x6ed9eba1;
            else if (i < 60) f = (bb & c) | (bb & dd) | (c & dd), k = 0x8f1bbcdc; else f = bb ^ c ^ dd, k = 0xca62c1d6;
            t = rol(a, 5) + f + e + k + w[i]; e = dd; dd = c; c = rol(bb, 30); bb = a; a = t;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += dd; h[4] += e;
    }
    for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
    free(p);
}
static uint32_t K2[64];
static void mk_k2(void)
{
    int k = 0; /* first 32 bits of the fractional parts of the cube roots of the first 64 primes */
    for (int p = 2; k < 64; p++) {
        bool prime = true; for (int q = 2; q * q <= p; q++) if (p % q == 0) prime = false;
        if (!prime) continue;
        unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 32; /* floor(cbrt(p) * 2^32) by bisection */
        while (hi - lo > 1) { unsigned __int128 m = (lo + hi) / 2; /* m^3 <= p * 2^96 ?  (m < 2^36) */
            unsigned __int128 m2 = m * m; /* < 2^72 */ unsigned __int128 c_hi = (m2 >> 32) * m, c_lo = (m2 & 0xffffffffu) * m; c_hi += c_lo >> 32;
            if (c_hi < ((unsigned __int128)p << 64) || (c_hi == ((unsigned __int128)p << 64) && !(c_lo & 0xffffffffu))) lo = m; else hi = m; }
        K2[k++] = (uint32_t)lo;
    }
}
static void ref_sha2(const uint8_t *d, size_t n, uint8_t *out, bool is224)
{
    static const uint32_t I[2][8] = { { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 },
        { 0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4 } };
    uint32_t h[8]; size_t nb; uint8_t *p = pad(d, n, true, &nb);
    if (!K2[0]) mk_k2();
    memcpy(h, I[is224], 32);
    for (size_t b = 0; b < nb; b++) {
        uint32_t w[64], v[8]; memcpy(v, h, 32);
#define R(x, k) rol(x, 32 - (k))
        for (int i = 0; i < 16; i++) { uint8_t *q = p + b * 64 + i * 4; w[i] = (uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]; }
        for (int i = 16; i < 64; i++) w[i] = (R(w[i - 2], 17) ^ R(w[i - 2], 19) ^ w[i - 2] >> 10) + w[i - 7] + (R(w[i - 15], 7) ^ R(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 16];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = v[7] + (R(v[4], 6) ^ R(v[4], 11) ^ R(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K2[i] + w[i];
            uint32_t t2 = (R(v[0], 2) ^ R(v[0], 13) ^ R(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            memmove(v + 1, v, 28); v[4] += t1; v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += v[i];
    }
    for (int i = 0; i < (is224 ? 28 : 32); i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
    free(p);
}
static void reference(int alg, const uint8_t *d, size_t n, uint8_t *out)
{
    if (alg == 0) ref_md5(d, n, out); else if (alg == 1) ref_sha1(d, n, out); else ref_sha2(d, n, out, alg == 2);
}
static const int DS[4] = { 16, 20, 28, 32 };
static const char *const NAME[4] = { "md5", "sha1", "sha224", "sha256" };
/* ---- the library ---- */
typedef union { bfdev_md5_ctx_t m; bfdev_sha1_ctx_t s; bfdev_sha2_ctx_t t; } ctx_t;
static void init(int alg, ctx_t *c) { if (alg == 0) bfdev_md5_init(&c->m); else if (alg == 1) bfdev_sha1_init(&c->s); else if (alg == 2) bfdev_sha224_init(&c->t); else bfdev_sha256_init(&c->t); }
static void update(int alg, ctx_t *c, const void *d, size_t n) { if (alg == 0) bfdev_md5_update(&c->m, d, n); else if (alg == 1) bfdev_sha1_update(&c->s, d, n); else bfdev_sha2_update(&c->t, d, n); }
static void finish(int alg, ctx_t *c, void *o) { if (alg == 0) bfdev_md5_finish(&c->m, o); else if (alg == 1) bfdev_sha1_finish(&c->s, o); else if (alg == 2) bfdev_sha224_finish(&c->t, o); else bfdev_sha256_finish(&c->t, o); }

static size_t msg_len(void)
{
    if (vf_chance(1, 400)) { VF_EV("digest.past_64k"); return vf_past64k(); }
    if (vf_chance(1, 3)) return vf_below(130);
    if (vf_chance(1, 2)) return 64 * vf_below(6) + vf_range(52, 76);
    return vf_below(vf_chance(1, 8) ? (vf_deep ? 40000 : 4000) : 600);
}
static void one(int alg, ctx_t *c, bool used)
{
    size_t n = msg_len(), at = 0; uint8_t *d = vf_xmalloc(n), want[32], *o; int st = vf_below(4), off; unsigned pieces = 0;
    for (size_t i = 0; i < n; i++) d[i] = st == 0 ? 0 : st == 1 ? 0xff : vf_rand();
    vf_op("%s of %zu bytes%s", NAME[alg], n, used ? " (context used before)" : "");
    reference(alg, d, n, want); init(alg, c);
    int how = vf_below(5);
    while (at < n) {
        size_t k = how == 0 ? n - at : how == 1 ? vf_below(4) : how == 2 ? vf_below(70) : how == 3 ? (vf_chance(1, 2) ? 64 - at % 64 : 64 * vf_below(3)) : vf_below(n + 1);
        uint8_t *blk, *p; if (k > n - at) k = n - at;
        off = vf_below(8); blk = vf_xmalloc(off + k); p = blk + off; memcpy(p, d + at, k); /* exact end, any alignment */
        vf_op("update %zu", k); update(alg, c, p, k); at += k; pieces++;
        VF_CHECK(!memcmp(p, d + at - k, k), "input-changed", "%s wrote to its input", NAME[alg]); free(blk);
    }
    if (vf_chance(1, 4)) { uint8_t z; update(alg, c, &z, 0); VF_EV("digest.empty_update"); }
    off = vf_below(8); o = vf_xmalloc(off + DS[alg]); finish(alg, c, o + off); /* unaligned, exact output */
    VF_CHECK(!memcmp(o + off, want, DS[alg]), NAME[alg], "%s of %zu bytes in %u pieces: got %02x%02x.. want %02x%02x..", NAME[alg], n, pieces, o[off], o[off + 1], want[0], want[1]);
    vf_obs_mem(want, DS[alg]); free(o); free(d);
    if (pieces > 1) VF_EV("digest.pieces");
    if (n % 64 >= 56) VF_EV("digest.extra_block");
    if (n % 64 == 55) VF_EV("digest.fits_exactly");
}
static void scn_digest(void)
{
    int alg = vf_below(4); ctx_t *c = vf_xmalloc(sizeof(*c)); unsigned k = vf_range(1, 3);
    memset(c, vf_rand(), sizeof(*c)); one(alg, c, false); VF_EVN("digest.md5", alg == 0); VF_EVN("digest.sha1", alg == 1); VF_EVN("digest.sha224", alg == 2); VF_EVN("digest.sha256", alg == 3);
    while (k--) {
        if (vf_chance(1, 3)) { uint8_t junk[100]; memset(junk, 1, sizeof(junk)); init(alg, c); update(alg, c, junk, vf_below(100)); } /* abandoned */
        one(alg, c, true); VF_EV("digest.reused");
    }
    free(c);
}
/* interleaved contexts do not disturb each other; copies continue independently */
static void scn_copies(void)
{
    int alg = vf_below(4); ctx_t *a = vf_xmalloc(sizeof(*a)), *b; size_t n = msg_len(), m = msg_len(), cut = vf_below(n + 1); uint8_t *d = vf_xmalloc(n), *e, wa[32], wb[32], oa[32], ob[32];
    for (size_t i = 0; i < n; i++) d[i] = vf_rand();
    init(alg, a); update(alg, a, d, cut); b = vf_dup(a, sizeof(*a));
    e = vf_xmalloc(cut + m); memcpy(e, d, cut); for (size_t i = 0; i < m; i++) e[cut + i] = vf_rand();
    update(alg, a, d + cut, n - cut); update(alg, b, e + cut, m); finish(alg, b, ob); finish(alg, a, oa);
    reference(alg, d, n, wa); reference(alg, e, cut + m, wb);
    VF_CHECK(!memcmp(oa, wa, DS[alg]), "copy-original", "%s after copying the context", NAME[alg]); VF_CHECK(!memcmp(ob, wb, DS[alg]), "copy-continued", "%s of the copied context", NAME[alg]);
    vf_obs_mem(oa, DS[alg]); VF_EV("digest.copied"); free(a); free(b); free(d); free(e);
}
/* messages whose bit count needs more than 32 bits; expected values from an independent implementation */
static void scn_long(void)
{
    static const char *const want[4] = {
    "83623b98dddd4aea43b4338a0b6c1449",
    "317631fd64bd2c9408be8c2313b9a46c02bd1375",
    "25786a5ab10eb83cfaef963ecf74dc0ed5b66a0537880f602b4fd8f6",
    "395a97e39daf076b0bda3be970320266ac506f18b76aca41fc1a112432268961",
    };
    unsigned tw = 20; int alg; size_t n = ((size_t)1 << 29) + 1234567, k; static uint8_t pat[1 << 20], o[32]; char hex[65]; ctx_t c;
    for (size_t i = 0; i < sizeof(pat); i++) pat[i] = i * 7 + (i >> 8);
    alg = vf_case_no / tw;
#ifndef __OPTIMIZE__
    alg = 9;        /* takes minutes */
#endif
    if (alg > 3 && alg < 8) {       /* more whole blocks in one piece than 16 bits count */
        size_t big = 64 * vf_past64k() + vf_below(64); uint8_t want[32], got[32], *d = vf_xmalloc(big); for (size_t i = 0; i < big; i++) d[i] = i * 7 + (i >> 8);
        reference(alg - 4, d, big, want); init(alg - 4, &c); update(alg - 4, &c, d, big); finish(alg - 4, &c, got);
        VF_CHECK(!memcmp(got, want, DS[alg - 4]), NAME[alg - 4], "%s of %zu bytes in one piece differs", NAME[alg - 4], big); free(d); VF_EV("digest.many_blocks"); return;
    }
    if (alg > 3) { scn_digest(); return; }
    init(alg, &c);
    while (n) { k = n < sizeof(pat) ? n : sizeof(pat); update(alg, &c, pat, k); n -= k; }
    finish(alg, &c, o);
    for (int i = 0; i < DS[alg]; i++) sprintf(hex + 2 * i, "%02x", o[i]);
    VF_CHECK(!strcmp(hex, want[alg]), "long", "%s of a 0.5 GB message: got %s want %s", NAME[alg], hex, want[alg]); vf_obs_mem(o, DS[alg]); VF_EV("digest.long");
}
VF_SCENARIOS({ "digest", scn_digest, 14 }, { "copies", scn_copies, 5 }, { "long", scn_long, 1 });
