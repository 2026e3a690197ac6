/* C27: ARC4 against the textbook algorithm. */
#include "vf.h"
#include <bfdev/arc4.h>

typedef struct { uint8_t s[256]; unsigned i, j; } ref_t;
static void ref_key(ref_t *r, const uint8_t *k, unsigned n)
{
    unsigned j = 0; for (unsigned i = 0; i < 256; i++) r->s[i] = i;
    for (unsigned i = 0; i < 256; i++) { j = (j + r->s[i] + k[i % n]) & 255; uint8_t t = r->s[i]; r->s[i] = r->s[j]; r->s[j] = t; }
    r->i = r->j = 0;
}
static uint8_t ref_next(ref_t *r)
{
    r->i = (r->i + 1) & 255; r->j = (r->j + r->s[r->i]) & 255; uint8_t t = r->s[r->i]; r->s[r->i] = r->s[r->j]; r->s[r->j] = t;
    return r->s[(r->s[r->i] + r->s[r->j]) & 255];
}
static void pieces(bfdev_arc4_ctx_t *c, const uint8_t *want, const uint8_t *in, size_t n, size_t from, size_t to, const char *what)
{
    for (size_t at = from; at < to;) {
        size_t l = vf_chance(1, 8) ? 0 : vf_chance(1, 2) ? 1 + vf_below(5) : 1 + vf_below(n), so = vf_below(9), d; if (l > to - at) l = to - at;
        bool inplace = vf_chance(1, 2); uint8_t *sb = vf_xmalloc(so + l), *src = sb + so, *db, *dst; memcpy(src, in + at, l);
        d = vf_below(9); db = inplace ? NULL : vf_xmalloc(d + l); dst = inplace ? src : db + d;
        vf_op("%s %zu bytes at %zu in place %d", what, l, at, inplace);
        bfdev_arc4_trans(c, dst, src, l); VF_CHECK(!memcmp(dst, want + at, l), what, "output for bytes %zu..%zu differs", at, at + l);
        if (!inplace) { VF_CHECK(!memcmp(src, in + at, l), "source", "the source was changed"); free(db); VF_EV("arc4.copy"); } else VF_EV("arc4.in_place");
        if (!l) VF_EV("arc4.empty_piece");
        free(sb); at += l;
    }
}
static void scn_arc4(void)
{
    unsigned kl = vf_chance(1, 4) ? 1 + vf_below(3) : vf_chance(1, 4) ? 250 + vf_below(12) : vf_chance(1, 10) ? 1 + vf_below(700) : 1 + vf_below(40); int st = vf_below(4);
    size_t n = vf_chance(1, 300) ? vf_past64k() : vf_chance(1, 3) ? vf_below(40) : vf_chance(1, 10) ? vf_below(vf_deep ? 200000 : 20000) : vf_below(900);
    uint8_t *k = vf_xmalloc(kl), *in = vf_xmalloc(n), *want = vf_xmalloc(n); bfdev_arc4_ctx_t c, c2; ref_t r;
    for (unsigned i = 0; i < kl; i++) k[i] = st == 0 ? 0 : st == 1 ? 0xff : st == 2 ? 255 - i : vf_rand();
    for (size_t i = 0; i < n; i++) in[i] = vf_rand();
    memset(&c, vf_rand(), sizeof c);
    if (vf_chance(1, 4)) { uint8_t x[7] = { 1, 2, 3, 4, 5, 6, 7 }; bfdev_arc4_setkey(&c, x, 7); bfdev_arc4_trans(&c, x, x, 7); VF_EV("arc4.rekeyed"); } /* a used context */
    vf_op("key of %u bytes, data of %zu", kl, n);
    bfdev_arc4_setkey(&c, k, kl); ref_key(&r, k, kl); for (size_t i = 0; i < n; i++) want[i] = in[i] ^ ref_next(&r);
    bfdev_arc4_setkey(&c, k, 0);            /* an empty key changes nothing */
    pieces(&c, want, in, n, 0, n / 2, "encrypt"); c2 = c; pieces(&c, want, in, n, n / 2, n, "encrypt"); pieces(&c2, want, in, n, n / 2, n, "copied");
    bfdev_arc4_setkey(&c, k, kl);
    { uint8_t *o = vf_dup(want, n); bfdev_arc4_trans(&c, o, o, n); VF_CHECK(!memcmp(o, in, n), "restore", "a second application does not restore %zu bytes", n); free(o); }
    if (kl > 256) VF_EV("arc4.long_key"); if (kl == 1) VF_EV("arc4.one_byte_key"); if (n > 5000) VF_EV("arc4.long"); if (n > 65535) VF_EV("arc4.past_64k");
    vf_obs_mem(want, n); vf_obs(kl); free(k); free(in); free(want);
}
VF_SCENARIOS({ "arc4", scn_arc4, 1 });
