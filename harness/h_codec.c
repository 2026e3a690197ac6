/* C24: text codecs against bit-stream definitions. */
#include "vf.h"
#include <bfdev/base64.h>
#include <bfdev/base32.h>
#include <bfdev/ascii85.h>

static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char B32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
#define CANARY 16

static size_t size(void) { if (vf_chance(1, 500)) { VF_EV("codec.past_64k"); return vf_past64k(); } return vf_chance(1, 12) ? vf_below(vf_deep ? 20000 : 3000) : vf_chance(1, 2) ? vf_below(12) : vf_below(120); }
static uint8_t *content(size_t n)
{
    uint8_t *d = vf_xmalloc(n); int st = vf_below(5);
    for (size_t i = 0; i < n; i++) d[i] = st == 0 ? 0 : st == 1 ? 0xff : st == 2 ? (vf_chance(1, 2) ? 0 : vf_rand()) : st == 3 ? 1u << vf_below(8) : vf_rand();
    if (st == 2) for (size_t i = 0; i + 4 <= n; i += 4) if (vf_chance(1, 2)) memset(d + i, 0, 4);
    return d;
}
/* reference: `bits` bits per character, padded with '=' to a whole quantum */
static size_t ref_enc(char *o, const uint8_t *d, size_t n, unsigned bits, unsigned quantum, const char *tab)
{
    size_t nb = n * 8, k = 0;
    for (size_t p = 0; p < nb; p += bits) {
        unsigned v = 0;
        for (unsigned i = 0; i < bits; i++) v = v << 1 | (p + i < nb ? d[(p + i) / 8] >> (7 - (p + i) % 8) & 1 : 0);
        o[k++] = tab[v];
    }
    while (k % quantum) o[k++] = '=';
    return k;
}
typedef void (*enc_t)(void *, const void *, size_t); typedef int (*dec_t)(void *, const void *, size_t);
static void base(unsigned bits, unsigned quantum, unsigned group, const char *tab, enc_t enc, dec_t dec, size_t elen, size_t (*dlenf)(size_t), const uint8_t *d, size_t n)
{
    char *want = vf_xmalloc(n * 2 + 16), *txt; size_t m = ref_enc(want, d, n, bits, quantum, tab), dl, t; uint8_t *out;
    VF_EQ(elen, m, "encode-length");
    txt = vf_xmalloc(m + CANARY); memset(txt, 0x5a, m + CANARY);
    enc(txt, d, n);
    VF_CHECK(!memcmp(txt, want, m), "encoding", "encoding of %zu bytes: got %.40s want %.40s", n, txt, want);
    for (unsigned i = 0; i < CANARY; i++) VF_EQ(txt[m + i], 0x5a, "encode-beyond");
    free(txt); txt = vf_xmalloc(m); enc(txt, d, n); /* exact buffer */
    dl = dlenf(m); VF_CHECK(dl >= n && dl < n + group, "decode-length", "%zu for %zu encoded bytes", dl, n);
    out = vf_xmalloc(dl); memset(out, vf_rand(), dl);
    VF_EQ(dec(out, txt, m), 0, "decode-ret"); VF_CHECK(!memcmp(out, d, n), "round-trip", "decoding of %zu bytes differs", n); vf_obs_mem(out, n); vf_obs(m); free(out);
    t = m; while (t && want[t - 1] == '=') t--;
    if (t != m) { /* unpadded text is the same value */
        free(txt); txt = vf_dup(want, t); dl = dlenf(t); VF_CHECK(dl >= n, "decode-length", "%zu for %zu unpadded", dl, n);
        out = vf_xmalloc(dl); VF_EQ(dec(out, txt, t), 0, "decode-unpadded-ret"); VF_CHECK(!memcmp(out, d, n), "round-trip-unpadded", "decoding of %zu unpadded bytes differs", n); free(out); VF_EV("codec.unpadded");
    }
    free(txt); free(want);
}
static void garbage(dec_t dec, size_t (*dlenf)(size_t), const char *tab)
{
    size_t m = vf_chance(1, 2) ? vf_below(20) : vf_below(200), t, dl = 0, bad; char *txt = vf_xmalloc(m); uint8_t *out; int r;
    for (size_t i = 0; i < m; i++) txt[i] = vf_chance(1, 30) ? (char)vf_rand() : tab[vf_below(strlen(tab))];
    if (m && vf_chance(1, 3)) txt[vf_below(m)] = '=';
    if (m && vf_chance(1, 3)) txt[vf_below(m)] = vf_rand();
    dl = dlenf(m); out = vf_xmalloc(dl); r = dec(out, txt, m);
    for (bad = 0; bad < m && txt[bad] && strchr(tab, txt[bad]); bad++);
    t = bad;
    if (t == m || txt[t] == '=') VF_EQ(r, 0, "garbage-valid-prefix");
    else { VF_CHECK(r < 0, "garbage-accepted", "character %#x accepted", (unsigned char)txt[t]); VF_EV("codec.refused"); }
    vf_obs(r); free(txt); free(out);
}
static void enc64(void *o, const void *d, size_t n) { bfdev_base64_encode(o, d, n); }
static int dec64(void *o, const void *d, size_t n) { return bfdev_base64_decode(o, d, n); }
static void enc32(void *o, const void *d, size_t n) { bfdev_base32_encode(o, d, n); }
static int dec32(void *o, const void *d, size_t n) { return bfdev_base32_decode(o, d, n); }
static size_t dl64(size_t n) { return bfdev_base64_decode_length(n); }
static size_t dl32(size_t n) { return bfdev_base32_decode_length(n); }
static void scn_base64(void)
{
    size_t n = size(); uint8_t *d = content(n); vf_op("base64 %zu", n);
    base(6, 4, 3, B64, enc64, dec64, bfdev_base64_encode_length(n), dl64, d, n); free(d); garbage(dec64, dl64, B64); VF_EV("codec.base64");
}
static void scn_base32(void)
{
    size_t n = size(); uint8_t *d = content(n); vf_op("base32 %zu", n);
    base(5, 8, 5, B32, enc32, dec32, bfdev_base32_encode_length(n), dl32, d, n); free(d); garbage(dec32, dl32, B32); VF_EV("codec.base32");
}
static void scn_ascii85(void)
{
    size_t n = size(), whole = (n + 3) / 4 * 4, m = 0, k, el = bfdev_ascii85_encode_length(n), got, dl; uint8_t *d = content(n), *pad = vf_xcalloc(whole); bool z = false;
    char *want = vf_xmalloc(whole * 2 + 8), *txt; uint8_t *out; int r;
    memcpy(pad, d, n); vf_op("ascii85 %zu", n);
    for (k = 0; k < whole; k += 4) {
        uint32_t v = (uint32_t)pad[k] << 24 | pad[k + 1] << 16 | pad[k + 2] << 8 | pad[k + 3]; char g[5];
        if (!v) { want[m++] = 'z'; z = true; continue; }
        for (int i = 5; i--; v /= 85) g[i] = 33 + v % 85;
        memcpy(want + m, g, 5); m += 5;
    }
    VF_CHECK(m <= el && el == whole / 4 * 5, "encode-length", "%zu for %zu", el, n);
    txt = vf_xmalloc(el + CANARY); memset(txt, 0x5a, el + CANARY); got = 12345; bfdev_ascii85_encode(txt, d, &got, n);
    VF_EQ(got, m, "encoded-length"); VF_CHECK(!memcmp(txt, want, m), "encoding", "encoding of %zu bytes differs", n);
    for (size_t i = m; i < el + CANARY; i++) VF_EQ(txt[i], 0x5a, "encode-beyond");
    free(txt); txt = vf_xmalloc(el); bfdev_ascii85_encode(txt, d, &got, n); free(txt); /* exact buffer */
    txt = vf_dup(want, m); dl = bfdev_ascii85_decode_length(m);
    if (!z) VF_CHECK(dl >= whole, "decode-length", "%zu for %zu", dl, whole);
    if (z && VF_ALONE && vf_case_no < 90) VF_CHECK(dl >= whole, "decode-length-z", "a text of %zu characters with z groups decodes to %zu bytes but the predicted maximum is %zu", m, whole, dl);
    if (dl < whole) dl = whole; /* recorded finding; keep exploring */
    out = vf_xmalloc(dl); got = 54321; VF_EQ(bfdev_ascii85_decode(out, txt, &got, m), 0, "decode-ret"); VF_EQ(got, whole, "decoded-length");
    VF_CHECK(!memcmp(out, pad, whole), "round-trip", "decoding of %zu bytes differs", n); vf_obs_mem(out, whole); vf_obs(n); free(out); free(txt);
    if (z) VF_EV("codec.ascii85_zero");
    if (n % 4) VF_EV("codec.ascii85_partial");
    /* other texts */
    m = vf_below(40); txt = vf_xmalloc(m); out = vf_xmalloc(m * 4);
    for (k = 0; k < m; k++) txt[k] = vf_chance(1, 40) ? (char)vf_rand() : vf_chance(1, 12) ? 'z' : 33 + vf_below(85);
    r = bfdev_ascii85_decode(out, txt, &got, m);
    { bool ok = true; size_t len = 0; k = 0;
      while (k < m && ok) { if (txt[k] == 'z') { k++; len += 4; continue; } if (m - k < 5) { ok = false; break; } for (int i = 0; i < 5; i++) if ((uint8_t)txt[k + i] < 33 || (uint8_t)txt[k + i] > 117) ok = false; k += 5; len += 4; }
      if (ok) { VF_EQ(r, 0, "valid-text"); VF_EQ(got, len, "valid-text-length"); } else { VF_CHECK(r < 0, "garbage-accepted", "malformed text accepted"); VF_EV("codec.refused"); } }
    free(txt); free(out); free(d); free(pad); free(want); VF_EV("codec.ascii85");
}
VF_SCENARIOS({ "base64", scn_base64, 1 }, { "base32", scn_base32, 1 }, { "ascii85", scn_ascii85, 1 });
