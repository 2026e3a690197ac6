/* C28: text search against naive matching. */
#include "vf.h"
#include <bfdev/textsearch.h>
#include <bfdev/errno.h>

static const char *const NAME[3] = { "kmp", "bm", "sunday" };
static unsigned up(unsigned c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool occurs(const uint8_t *t, const uint8_t *p, unsigned m, bool ic)
{
    for (unsigned i = 0; i < m; i++) if (ic ? up(t[i]) != up(p[i]) : t[i] != p[i]) return false;
    return true;
}
/* a text served as separate exact-size blocks */
typedef struct { uint8_t **blk; unsigned *end; unsigned n; unsigned calls; } seg_t;
static unsigned seg_next(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss, unsigned consumed, const void **dest)
{
    seg_t *s = tss->pdata; (void)tsc; s->calls++;
    for (unsigned i = 0; i < s->n; i++) if (consumed < s->end[i]) { unsigned lo = i ? s->end[i - 1] : 0; *dest = s->blk[i] + (consumed - lo); return s->end[i] - consumed; }
    return 0;
}
static uint8_t sym(int st)
{
    switch (st) {
    case 0: return 'a' + vf_below(2);
    case 1: return "aAbB"[vf_below(4)];
    case 2: return vf_below(4) ? 0xff : 0xfe;
    case 3: return (uint8_t[]){ 0, 0x80, 0xff, 0x7f }[vf_below(4)];
    case 4: return "@`[{AZazMm\xe1\xc1"[vf_below(12)];
    default: return vf_rand();
    }
}
static void scn_search(void)
{
    int st = vf_below(6), k; unsigned m = vf_chance(1, 2) ? 1 + vf_below(6) : vf_chance(1, 10) ? 1 + vf_below(300) : 1 + vf_below(30);
    unsigned n = vf_chance(1, 500) ? vf_past64k() : vf_chance(1, 20) ? 0 : vf_chance(1, 15) ? vf_below(vf_deep ? 20000 : 3000) : vf_below(120), nfound = 0; bool ic = vf_chance(1, 3), seg = vf_chance(1, 3);
    uint8_t *p = vf_xmalloc(m), *t = vf_xmalloc(n); seg_t s = { 0 };
    if (vf_chance(1, 3)) { unsigned per = 1 + vf_below(4); for (unsigned i = 0; i < m; i++) p[i] = i < per ? sym(st) : p[i - per]; } /* periodic */
    else for (unsigned i = 0; i < m; i++) p[i] = sym(st);
    for (unsigned i = 0; i < n; i++) t[i] = sym(st);
    for (unsigned c = vf_below(6); c-- && n;) { unsigned at = vf_below(n), fr = vf_below(m), l = vf_chance(1, 2) ? m : 1 + vf_below(m); if (l == m) fr = 0; for (unsigned i = 0; i < l && at + i < n && fr + i < m; i++) t[at + i] = p[fr + i]; }
    if (vf_chance(1, 4) && n >= m) memcpy(t + n - m, p, m);     /* an occurrence at the very end */
    if (ic) for (unsigned i = 0; i < n; i++) if (vf_chance(1, 2) && ((t[i] | 32) >= 'a' && (t[i] | 32) <= 'z')) t[i] ^= 32;
    if (n) {
        s.blk = vf_xmalloc(n * sizeof(*s.blk)); s.end = vf_xmalloc(n * sizeof(*s.end));
        for (unsigned at = 0; at < n;) { unsigned l = seg ? 1 + vf_below(vf_chance(1, 2) ? 2 * m : 12) : n; if (l > n - at) l = n - at; s.blk[s.n] = vf_dup(t + at, l); at += l; s.end[s.n++] = at; }
    }
    for (k = 0; k < 3; k++) {
        vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); bfdev_ts_context_t *c; bfdev_ts_linear_t lin; bfdev_ts_state_t own = { 0 }, *tss; uint8_t *pp = vf_dup(p, m);
        int linear = !seg && vf_chance(1, 2); unsigned got, from = 0, want, rounds = 1 + vf_below(2);
        vf_op("%s pattern %u text %u blocks %u icase %d linear %d", NAME[k], m, n, s.n, ic, linear);
        c = bfdev_textsearch_create(&al, NAME[k], pp, m, ic ? BFDEV_TS_IGCASE : 0); VF_CHECK(c, "create", "create refused");
        memset(pp, 0x55, m); free(pp);      /* the search keeps its own copy */
        VF_EQ(bfdev_textsearch_pattern_len(c), m, "pattern-len"); VF_CHECK(occurs(textsearch_pattern_get(c), p, m, ic), "pattern-get", "the pattern kept differs");
        for (unsigned r = 0; r < rounds; r++) {
            bool first = true; from = 0;
            if (!linear) { c->next_block = seg_next; own.pdata = &s; own.offset = vf_rand(); }
            tss = linear ? &lin.tss : &own;
            for (unsigned b = 0;;) {
                want = UINT_MAX;
                for (unsigned i = from; n >= m && i <= n - m; i++) {
                    while (i >= s.end[b]) b++;
                    if (k && i + m > s.end[b]) continue;    /* bm and sunday look inside blocks only */
                    if (occurs(t + i, p, m, ic)) { want = i; break; }
                }
                if (first) got = linear ? bfdev_textsearch_linear(c, &lin, t, n) : bfdev_textsearch_find(c, tss);
                else got = bfdev_textsearch_next(c, tss);
                VF_CHECK(got == want, NAME[k], "%s: %s occurrence of the %u-byte pattern in %u bytes (%u blocks) from %u: got %d want %d", NAME[k], first ? "first" : "next", m, n, s.n, from, (int)got, (int)want);
                first = false;
                if (want == UINT_MAX) { VF_EV("ts.none"); break; }
                nfound++; from = want + m; VF_EV("ts.found"); vf_obs(want);
                if (k == 0 && seg) { unsigned x = 0; while (want >= s.end[x]) x++; if (want + m > s.end[x]) VF_EV("ts.across_blocks"); }
                if (vf_chance(1, 200)) break;   /* abandon and restart */
            }
        }
        bfdev_textsearch_destroy(c); vfa_done(&A, "leak");
    }
    if (ic && nfound) VF_EV("ts.icase_found");
    if (seg) VF_EV("ts.segmented");
    if (nfound > 6) VF_EV("ts.several");
    if (n > 65535) VF_EV("ts.past_64k");
    if (st == 2 || st == 3) VF_EV("ts.high_bytes");
    vf_obs(n << 16 | m); vf_obs(nfound);
    for (unsigned i = 0; i < s.n; i++) free(s.blk[i]);
    free(s.blk); free(s.end); free(t); free(p);
}
/* registry */
static bfdev_ts_context_t own_ctx; static int own_prep;
static bfdev_ts_context_t *o_prepare(const bfdev_alloc_t *a, const void *p, size_t l, unsigned long f) { (void)a; (void)p; (void)f; own_prep = l; return l == 7 ? NULL : &own_ctx; }
static void o_destroy(bfdev_ts_context_t *c) { VF_PEQ(c, &own_ctx, "registry-destroy"); own_prep = -1; }
static unsigned o_find(bfdev_ts_context_t *c, bfdev_ts_state_t *s) { (void)c; return 1000 + s->offset++; }
static const void *o_get(bfdev_ts_context_t *c) { (void)c; return "x"; }
static unsigned o_len(bfdev_ts_context_t *c) { (void)c; return 77; }
static void scn_registry(void)
{
    enum { N = 5 }; bfdev_ts_algorithm_t a[N]; bool in[N] = { 0 }; static const char *const nm[N] = { "own0", "own1", "own2", "own1", "kmp" };
    for (int i = 0; i < N; i++) { memset(&a[i], 0, sizeof a[i]); a[i].name = nm[i]; a[i].find = o_find; a[i].prepare = o_prepare; a[i].destroy = o_destroy; a[i].pattern_get = o_get; a[i].pattern_len = o_len; }
    for (int s = vf_below(30); s--;) {
        int i = vf_below(N), w = -BFDEV_ENOERR, g;
        switch (vf_below(4)) {
        case 0: {
            bool dup = i == 4; for (int j = 0; j < N; j++) if (in[j] && !strcmp(nm[j], nm[i])) dup = true;
            if (vf_chance(1, 6) && !in[i]) { bfdev_ts_algorithm_t bad = a[i]; switch (vf_below(6)) { case 0: bad.name = NULL; break; case 1: bad.find = NULL; break; case 2: bad.prepare = NULL; break; case 3: bad.destroy = NULL; break; case 4: bad.pattern_get = NULL; break; default: bad.pattern_len = NULL; }
                VF_EQ(bfdev_textsearch_register(&bad), -BFDEV_EINVAL, "register-bad"); VF_EV("ts.reg_bad"); break; }
            w = dup ? -BFDEV_EALREADY : -BFDEV_ENOERR; g = bfdev_textsearch_register(&a[i]); VF_EQ(g, w, "register"); if (!dup) in[i] = true; else VF_EV("ts.reg_dup"); vf_obs(i); break; }
        case 1: w = in[i] ? -BFDEV_ENOERR : -BFDEV_ENOENT; VF_EQ(bfdev_textsearch_unregister(&a[i]), w, "unregister"); in[i] = false; vf_obs(16 + i); VF_EV("ts.unreg"); break;
        default: {
            bfdev_ts_context_t *c; bfdev_ts_state_t st = { 5, NULL }; int owner = -1, l = vf_below(9); for (int j = 0; j < N; j++) if (in[j] && !strcmp(nm[j], nm[i])) owner = j;
            if (i == 4) { c = bfdev_textsearch_create(NULL, "kmp", "ab", 2, 0); VF_CHECK(c && c->algo != &a[4], "create-builtin", "wrong algorithm"); bfdev_textsearch_destroy(c); break; }
            own_prep = -2; c = bfdev_textsearch_create(NULL, nm[i], "ab", l, 0);
            if (owner < 0 || l == 7) { VF_PEQ(c, NULL, "create-absent"); VF_EQ(own_prep, owner < 0 ? -2 : 7, "create-absent"); break; }
            VF_PEQ(c, &own_ctx, "create-own"); VF_PEQ(c->algo, &a[owner], "create-own"); VF_EQ(bfdev_textsearch_find(c, &st), 1000, "find-own"); VF_EQ(bfdev_textsearch_next(c, &st), 1001, "next-own");
            VF_EQ(bfdev_textsearch_pattern_len(c), 77, "len-own"); bfdev_textsearch_destroy(c); VF_EQ(own_prep, -1, "destroy-own"); VF_EV("ts.own_algorithm"); vf_obs(32 + i); }
        }
    }
    VF_PEQ(bfdev_textsearch_create(NULL, "none such", "a", 1, 0), NULL, "create-unknown");
    for (int i = 0; i < N; i++) if (in[i]) VF_EQ(bfdev_textsearch_unregister(&a[i]), -BFDEV_ENOERR, "unregister");
}
VF_SCENARIOS({ "search", scn_search, 9 }, { "registry", scn_registry, 1 });
