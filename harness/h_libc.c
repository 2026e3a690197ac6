/* C29: character classes and string helpers. */
#include "vf.h"
#include <ctype.h>
#include <bfdev/string.h>
#include <bfdev/ctype.h>
#include <bfdev/uplower.h>

/* classes of the C locale, written out; above 127 the run-time table follows ISO 8859-1 */
enum { UP, LO, CN, PU, BL, DI, XD, SP, AS, AL, AN, GR, PR, NC };
static const char *const CN_[NC] = { "isupper", "islower", "iscntrl", "ispunct", "isblank", "isdigit", "isxdigit", "isspace", "isascii", "isalpha", "isalnum", "isgraph", "isprint" };
static bool cls(int k, unsigned c)
{
    switch (k) {
    case UP: return (c >= 'A' && c <= 'Z') || (c >= 192 && c <= 222 && c != 215);
    case LO: return (c >= 'a' && c <= 'z') || (c >= 223 && c != 247);
    case CN: return c < 32 || c == 127;
    case BL: return c == ' ' || c == '\t';
    case DI: return c >= '0' && c <= '9';
    case XD: return cls(DI, c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    case SP: return c == ' ' || (c >= 9 && c <= 13) || c == 160;
    case AS: return c < 128;
    case AL: return cls(UP, c) || cls(LO, c);
    case AN: return cls(AL, c) || cls(DI, c);
    case GR: return (c > 32 && c < 127) || c > 160;
    case PR: return cls(GR, c) || c == 32 || c == 160;
    default: return cls(GR, c) && !cls(AN, c);
    }
}
static bool dyn(int k, int c)
{
    switch (k) {
#define D(K, n) case K: return bfdev_##n##_dynamic(c);
    D(UP, isupper) D(LO, islower) D(CN, iscntrl) D(PU, ispunct) D(BL, isblank) D(DI, isdigit) D(XD, isxdigit) D(SP, isspace) D(AS, isascii) D(AL, isalpha) D(AN, isalnum) D(GR, isgraph) default: return bfdev_isprint_dynamic(c);
    }
}
static bool cst(int k, int c)
{
    switch (k) {
#undef D
#define D(K, n) case K: return bfdev_##n##_const(c);
    D(UP, isupper) D(LO, islower) D(CN, iscntrl) D(PU, ispunct) D(BL, isblank) D(DI, isdigit) D(XD, isxdigit) D(SP, isspace) D(AS, isascii) D(AL, isalpha) D(AN, isalnum) D(GR, isgraph) default: return bfdev_isprint_const(c);
    }
}
static bool lib(int k, int c)
{
    switch (k) {
#undef D
#define D(K, n) case K: return bfdev_##n(c);
    D(UP, isupper) D(LO, islower) D(CN, iscntrl) D(PU, ispunct) D(BL, isblank) D(DI, isdigit) D(XD, isxdigit) D(SP, isspace) D(AS, isascii) D(AL, isalpha) D(AN, isalnum) D(GR, isgraph) default: return bfdev_isprint(c);
    }
}
/* every literal character through the macros */
#define LIT(c) { bfdev_isupper(c), bfdev_islower(c), bfdev_iscntrl(c), bfdev_ispunct(c), bfdev_isblank(c), bfdev_isdigit(c), bfdev_isxdigit(c), bfdev_isspace(c), bfdev_isascii(c), bfdev_isalpha(c), bfdev_isalnum(c), bfdev_isgraph(c), bfdev_isprint(c) },
#define L4(c) LIT(c) LIT(c + 1) LIT(c + 2) LIT(c + 3)
#define L16(c) L4(c) L4(c + 4) L4(c + 8) L4(c + 12)
#define LF(n, c) static __attribute__((noinline)) void lit_##n(int (*o)[NC]) { const int l[16][NC] = { L16(c) }; memcpy(o, l, sizeof l); }
LF(0, 0) LF(1, 16) LF(2, 32) LF(3, 48) LF(4, 64) LF(5, 80) LF(6, 96) LF(7, 112) LF(8, 128) LF(9, 144) LF(10, 160) LF(11, 176) LF(12, 192) LF(13, 208) LF(14, 224) LF(15, 240)
static void (*const LITS[16])(int (*)[NC]) = { lit_0, lit_1, lit_2, lit_3, lit_4, lit_5, lit_6, lit_7, lit_8, lit_9, lit_10, lit_11, lit_12, lit_13, lit_14, lit_15 };
static void scn_ctype(void)
{
    int c = vf_case_no / 5 % 256; bool neg = c > 127 && vf_chance(1, 2); int a = neg ? (int)(signed char)c : c; volatile int va = a;
    vf_op("character %d as %d", c, a);
    for (int k = 0; k < NC; k++) {
        bool want = cls(k, c);
        VF_CHECK(dyn(k, va) == want, CN_[k], "run-time %s of %d is %d", CN_[k], a, dyn(k, va));
        VF_CHECK(lib(k, va) == want || c > 127, CN_[k], "%s of %d is %d", CN_[k], a, lib(k, va));
        VF_CHECK(cst(k, va) == (c < 128 && want), CN_[k], "constant %s of %d is %d", CN_[k], a, cst(k, va));
        vf_obs(want);
    }
    if (VF_ALONE && vf_case_no < 5 * 256 && c == 0xe9) for (int k = 0; k < NC; k++)    /* recorded finding */
        VF_CHECK(cst(k, va) == dyn(k, va), "constant-above-127", "%s of %d: constant form %d, run-time form %d", CN_[k], a, cst(k, va), dyn(k, va));
    if (vf_case_no < 5 * 256) {
        static int lit[256][NC]; for (int i = 0; i < 16; i++) LITS[i](lit + 16 * i);
        for (int i = 0; i < 256; i++) for (int k = 0; k < NC; k++) VF_CHECK(!!lit[i][k] == cls(k, i) || i > 127, CN_[k], "literal %s(%d) is %d", CN_[k], i, lit[i][k]);
        VF_EVN("libc.literals", 256 * NC);
    }
    VF_EQ(bfdev_tolower(va), c >= 'A' && c <= 'Z' ? c + 32 : c, "tolower"); VF_EQ(bfdev_toupper(va), c >= 'a' && c <= 'z' ? c - 32 : c, "toupper"); VF_EQ(bfdev_toascii(va), c & 127, "toascii");
    { uint64_t v = vf_edge64(); VF_EQ(bfdev_upper_32_bits(v), v >> 32, "upper32"); VF_EQ(bfdev_lower_32_bits(v), v & 0xffffffff, "lower32"); VF_EQ(bfdev_upper_16_bits((uint32_t)v), (uint32_t)v >> 16, "upper16"); VF_EQ(bfdev_lower_16_bits(v), v & 0xffff, "lower16"); vf_obs(v); }
    VF_EV("libc.ctype"); if (neg) VF_EV("libc.negative");
}
static void scn_string(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = vf_chance(1, 400) ? vf_past64k() : vf_chance(1, 8) ? 0 : vf_chance(1, 10) ? vf_below(vf_deep ? 20000 : 2000) : vf_below(50), lim, k, off = vf_below(9); int ch = vf_chance(1, 2) ? 0x80 + vf_below(128) : 1 + vf_below(255), arg; bool bad = vf_chance(1, 10);
    char *blk = vf_xmalloc(off + n + 1), *s = blk + off, *d; void *p;
    for (k = 0; k < n; k++) s[k] = vf_chance(1, 2) ? 'x' : 1 + vf_below(255);
    s[n] = 0; vf_op("string of %zu", n); if (bad) A.fail_at = 1;
    d = bfdev_strdup(vf_chance(1, 8) && !bad ? NULL : &al, s);
    if (bad) { VF_PEQ(d, NULL, "strdup-refused"); A.fail_at = 0; VF_EV("libc.refused"); }
    else { bool own = A.live; VF_CHECK(d && !memcmp(d, s, n + 1), "strdup", "copy differs"); if (own) VF_EQ(A.bytes, n + 1, "strdup-size"); bfdev_free(own ? &al : NULL, d); }
    VF_PEQ(bfdev_strdup(&al, NULL), NULL, "strdup-null"); VF_PEQ(bfdev_strndup(&al, NULL, 5), NULL, "strndup-null");
    /* bounded copy, also of an array without a terminator inside the bound */
    lim = vf_below(4) ? vf_below(n + 3) : n + vf_below(200); if (n > 65535) VF_EV("libc.past_64k"); { char *e = vf_dup(s, lim <= n ? lim : n + 1); size_t l = lim < n ? lim : n;
        d = bfdev_strndup(&al, e, lim); VF_CHECK(d, "strndup", "refused"); VF_CHECK(!memcmp(d, s, l) && d[l] == 0, "strndup", "bounded copy of %zu at most %zu differs", n, lim); if (lim > n + 1) VF_EV("libc.strndup_beyond"); if (lim < n) VF_EV("libc.strndup_cut"); bfdev_free(&al, d); free(e); }
    vfa_done(&A, "leak");
    /* first byte that differs */
    arg = vf_chance(1, 3) ? (int)(signed char)ch : vf_chance(1, 4) ? ch + 256 : ch; for (k = 0; k < n; k++) s[k] = ch; lim = n ? vf_below(n + 1) : 0; bool at = lim < n && vf_chance(3, 4); if (at) { s[lim] = (ch ^ 1 << vf_below(8)); if (!s[lim]) s[lim] = ch == 5 ? 6 : 5; }
    if (at) VF_EV("libc.diff"); else VF_EV("libc.same");
    p = bfdev_strdiff(s, arg); VF_PEQ(p, at ? s + lim : NULL, "strdiff");
    { char *e = vf_dup(s, n); p = bfdev_memdiff(e, arg, n); VF_PEQ(p, at ? e + lim : NULL, "memdiff"); size_t cut = vf_below(n + 1); p = bfdev_memdiff(e, arg, cut); VF_PEQ(p, at && lim < cut ? e + lim : NULL, "memdiff"); free(e); }
    if (n) { memset(s, 0, n); VF_PEQ(bfdev_strdiff(s, arg), NULL, "strdiff-empty"); VF_PEQ(bfdev_memdiff(s, 0, n), NULL, "memdiff-zero"); s[n - 1] = 1; VF_PEQ(bfdev_memdiff(s, 0, n), s + n - 1, "memdiff-zero"); }
    vf_obs(n); vf_obs(lim); vf_obs(ch); free(blk);
}
VF_SCENARIOS({ "ctype", scn_ctype, 1 }, { "string", scn_string, 4 });
