/* C39: overflow checks, minimum/maximum, rounding, error pointers, once, layout helpers. */
#include "vf.h"
#include <limits.h>
#include <bfdev/overflow.h>
#include <bfdev/minmax.h>
#include <bfdev/math.h>
#include <bfdev/macro.h>
#include <bfdev/align.h>
#include <bfdev/uplower.h>
#include <bfdev/limits.h>
#include <bfdev/errptr.h>
#include <bfdev/once.h>
#include <bfdev/size.h>
#include <bfdev/container.h>
#include <bfdev/struct.h>
#include <bfdev/guards.h>
#include <bfdev/action.h>
#include <bfdev/callback.h>
#include <bfdev/typecheck.h>
#include <bfdev/stringify.h>
#include <bfdev/const.h>
#include <bfdev/time.h>
#include <bfdev/mhelper.h>
#include <bfdev/ascii.h>
#include <bfdev/bits.h>
#include <bfdev/bitops.h>

#define TYPES(X) X(s8, int8_t, INT8_MIN, INT8_MAX) X(s16, int16_t, INT16_MIN, INT16_MAX) X(s32, int32_t, INT32_MIN, INT32_MAX) X(s64, int64_t, INT64_MIN, INT64_MAX) \
                 X(u8, uint8_t, 0, UINT8_MAX) X(u16, uint16_t, 0, UINT16_MAX) X(u32, uint32_t, 0, UINT32_MAX) X(u64, uint64_t, 0, UINT64_MAX)
typedef __int128 W; static int evals, dups; static unsigned epoch, stamp[8192];
/* every place an argument is written gets its own number: being evaluated twice there is seen even when another argument was skipped */
static void seen(unsigned site) { site &= 8191; if (stamp[site] == epoch) dups++; stamp[site] = epoch; evals++; }
#define ONCE2(e, c) (seen(c), (e))
#define ONCE1(e) ONCE2(e, __COUNTER__)
#define ARGS0 (evals = dups = 0, epoch++)
#define ARGSN(n) do { VF_EQ(evals, n, "evaluated-once"); VF_EQ(dups, 0, "evaluated-once"); } while (0)
#define CHK(name, T, lo, hi, a, b, op, OPN, sym) do { \
    W x = (W)(a) op (W)(b); if (#sym[0] == '*' && 0) x = 0; bool fit = x >= (W)(lo) && x <= (W)(hi); T d = (T)0x5a, s; bool o; \
    o = bfdev_overflow_check_##OPN(a, b, &d); VF_CHECK(o == !fit, "overflow-" #OPN, #name ": %ld " sym " %ld reported %s", (long)(a), (long)(b), o ? "overflow" : "no overflow"); VF_CHECK(d == (T)x, "overflow-value", #name ": %ld " sym " %ld stored %ld", (long)(a), (long)(b), (long)d); \
    s = bfdev_overflow_##OPN##_##name(a, b); VF_CHECK(s == (fit ? (T)x : (T)~0ULL), "saturate-" #OPN, #name ": %ld " sym " %ld gave %ld", (long)(a), (long)(b), (long)s); \
    s = bfdev_overflow_##OPN(a, b); VF_CHECK(s == (fit ? (T)x : (T)~0ULL), "saturate-" #OPN, #name ": %ld " sym " %ld gave %ld", (long)(a), (long)(b), (long)s); \
    ARGS0; T e1 = a, e2 = b; s = bfdev_overflow_##OPN(ONCE1(e1), ONCE1(e2)); o = bfdev_overflow_check_##OPN(ONCE1(e1), ONCE1(e2), ONCE1(&d)); ARGSN(5); (void)o; (void)s; \
    if (fit) VF_EV("overflow.fits"); else VF_EV("overflow.does_not"); } while (0)
/* both operands of 64 bits fit a 128-bit product, signed; unsigned products may reach 2^128 and are split */
#define ARITH(name, T, lo, hi) static void arith_##name(T a, T b) { \
    CHK(name, T, lo, hi, a, b, +, add, "+"); CHK(name, T, lo, hi, a, b, -, sub, "-"); \
    if (sizeof(T) == 8 && (W)(hi) == (W)UINT64_MAX) { unsigned __int128 p = (unsigned __int128)a * b; bool fit = !(p >> 64); T d, s; bool o = bfdev_overflow_check_mul(a, b, &d); VF_EQ(o, !fit, "overflow-mul"); VF_EQ(d, (T)p, "overflow-value"); s = bfdev_overflow_mul(a, b); VF_EQ(s, fit ? (T)p : (T)~0ULL, "saturate-mul"); s = bfdev_overflow_mul_u64(a, b); VF_EQ(s, fit ? (T)p : (T)~0ULL, "saturate-mul"); } \
    else CHK(name, T, lo, hi, a, b, *, mul, "*"); }
TYPES(ARITH)
/* values near the ends of the type, near roots, and anything */
static uint64_t pick(void) { switch (vf_below(4)) { case 0: return vf_edge64(); case 1: return (uint64_t)vf_range(-6, 6); case 2: return vf_rand() >> vf_below(64); default: { unsigned s = 4 * (1 + vf_below(16)) - 1; uint64_t v = 1ULL << s; v += vf_range(-3, 3); return vf_chance(1, 2) ? v : -v; } } }
static void scn_overflow(void)
{
    static unsigned row; int8_t sa = (int8_t)row; uint8_t ua = (uint8_t)row; row++; vf_op("row %u", row - 1);
    for (int b = 0; b < 256; b++) { arith_s8(sa, (int8_t)b); arith_u8(ua, (uint8_t)b); }
    for (int i = 0; i < 60; i++) { uint64_t a = pick(), b = pick(); vf_op("pair %#lx %#lx", (long)a, (long)b); if (vf_chance(1, 6)) b = ~a + vf_range(-1, 2);
#define CALL(name, T, lo, hi) arith_##name((T)a, (T)b);
        TYPES(CALL) vf_obs(a); vf_obs(b); }
}
#define MM(name, T, lo, hi) static void mm_##name(T a, T b, T c) { T r, p, q, l = b < c ? b : c, h = b < c ? c : b; \
    ARGS0; r = bfdev_min(ONCE1(a), ONCE1(b)); VF_EQ(r, a < b ? a : b, "min"); r = bfdev_max(ONCE1(a), ONCE1(b)); VF_EQ(r, a > b ? a : b, "max"); r = bfdev_clamp(ONCE1(a), ONCE1(l), ONCE1(h)); VF_EQ(r, a < l ? l : a > h ? h : a, "clamp"); ARGSN(7); \
    r = bfdev_min(bfdev_min(a, b), bfdev_max(b, c)); VF_EQ(r, (a < b ? a : b) < (b > c ? b : c) ? (a < b ? a : b) : (b > c ? b : c), "min-nested"); r = bfdev_max(a, bfdev_clamp(b, l, h)); VF_EQ(r, a > b ? a : b, "max-nested"); \
    r = a; bfdev_min_adj(r, b); VF_EQ(r, a < b ? a : b, "min-adjust"); r = a; bfdev_max_adj(r, b); VF_EQ(r, a > b ? a : b, "max-adjust"); r = a; bfdev_clamp_adj(r, l, h); VF_EQ(r, a < l ? l : a > h ? h : a, "clamp-adjust"); \
    p = a; q = b; bfdev_swap(p, q); VF_CHECK(p == b && q == a, "swap", "not exchanged"); T arr[2] = { a, b }; int i0 = 0; (void)i0; bfdev_swap(arr[0], arr[1]); VF_CHECK(arr[0] == b && arr[1] == a, "swap", "not exchanged"); }
TYPES(MM)
/* nearest integer, halves away from zero */
static W closest(W x, W d) { W n = x < 0 ? -x : x, m = d < 0 ? -d : d, q = (2 * n + m) / (2 * m); if (m & 1) q = (n + m / 2) / m; return (x < 0) != (d < 0) ? -q : q; }
#define RD(name, T, lo, hi) static void rd_##name(T a, T d, unsigned sh) { W up, dn; T r; \
    if (d > 0 && a >= 0 && (W)a + d <= (W)((hi) < INT_MAX ? INT_MAX : (hi))) { W q = ((W)a + d - 1) / d; VF_EQ((uint64_t)BFDEV_DIV_ROUND_UP(a, d), (uint64_t)q, "div-round-up"); VF_EV("math.div_up"); } \
    if (d != 0) { W s = (W)a < 0 ? -(W)a : (W)a, h = ((W)d < 0 ? -(W)d : (W)d) / 2; if (s + h <= (W)(hi)) { W q = closest(a, d); ARGS0; T g = BFDEV_DIV_ROUND_CLOSEST(ONCE1(a), ONCE1(d)); ARGSN(2); if (q >= (W)(lo) && q <= (W)(hi)) VF_EQ((int64_t)g, (int64_t)(T)q, "div-round-closest"); VF_EV("math.div_closest"); } } \
    sh %= sizeof(T) * 8 - 1; T y = (T)((T)1 << sh); if (a < 0) a = (T)(a == (T)(lo) ? 0 : -a); dn = (W)a / y * y; up = ((W)a + y - 1) / y * y; \
    ARGS0; r = bfdev_round_down(ONCE1(a), ONCE1(y)); VF_EQ(r, (T)dn, "round-down"); ARGSN(2); r = bfdev_align_low(a, y); VF_EQ(r, (T)dn, "align-low"); r = a; bfdev_align_low_adj(r, y); VF_EQ(r, (T)dn, "align-low"); VF_EQ(bfdev_align_check(a, y), dn == a, "align-check"); \
    if (up <= (W)(hi)) { ARGS0; r = bfdev_round_up(ONCE1(a), ONCE1(y)); VF_EQ(r, (T)up, "round-up"); ARGSN(2); if ((W)a + y <= (W)(hi)) { r = bfdev_align_high(a, y); VF_EQ(r, (T)up, "align-high"); r = a; bfdev_align_high_adj(r, y); VF_EQ(r, (T)up, "align-high"); } VF_EV("math.round_up"); } }
TYPES(RD)
static void scn_math(void)
{
    for (int i = 0; i < 60; i++) {
        uint64_t a = pick(), b = vf_chance(1, 5) ? a : pick(), c = pick(); unsigned sh = vf_below(64); vf_op("values %#lx %#lx %#lx", (long)a, (long)b, (long)c);
#define CALL2(name, T, lo, hi) mm_##name((T)a, (T)b, (T)c); rd_##name((T)a, (T)b, sh); rd_##name((T)a, (T)(b & 15), sh);
        TYPES(CALL2)
        char *p = (char *)(uintptr_t)(a & INT64_MAX), *q = p; size_t al = (size_t)1 << (sh % 20); uintptr_t dn = (uintptr_t)p / al * al; VF_CHECK((uintptr_t)bfdev_align_ptr_low(p, al) == dn && bfdev_align_ptr_check(p, al) == ((uintptr_t)p == dn), "align-pointer", "low"); bfdev_align_ptr_low_adj(q, al); VF_CHECK((uintptr_t)q == dn, "align-pointer", "low"); q = p; dn = ((uintptr_t)p + al - 1) / al * al; VF_CHECK((uintptr_t)bfdev_align_ptr_high(p, al) == dn, "align-pointer", "high"); bfdev_align_ptr_high_adj(q, al); VF_CHECK((uintptr_t)q == dn, "align-pointer", "high");
        VF_EQ(bfdev_upper_32_bits(a), (uint32_t)(a >> 32), "upper"); VF_EQ(bfdev_lower_32_bits(a), (uint32_t)a, "lower"); VF_EQ(bfdev_upper_16_bits((uint32_t)a), (uint16_t)((uint32_t)a >> 16), "upper"); VF_EQ(bfdev_lower_16_bits((uint32_t)a), (uint16_t)a, "lower"); VF_EQ(bfdev_upper_32_bits((uint32_t)a), 0u, "upper");
        uint64_t rep = 0; for (int k = 0; k < 8; k++) rep |= (a & 255) << 8 * k; VF_EQ(BFDEV_REPEAT_BYTE(a & 255), rep, "repeat-byte"); VF_EQ(bfdev_cmp((int64_t)a > (int64_t)b), (int64_t)a > (int64_t)b ? BFDEV_BT : BFDEV_LT, "cmp");
        bfdev_time_t ta = (bfdev_time_t)a, tb = (bfdev_time_t)b; VF_EQ(bfdev_time_compare(ta, tb), ta < tb ? BFDEV_LT : ta > tb ? BFDEV_BT : BFDEV_EQ, "time-compare"); VF_EQ(bfdev_time_after(ta, tb), ta > tb, "time-after"); VF_EQ(bfdev_time_before(ta, tb), ta < tb, "time-before"); VF_EQ(bfdev_time_after_equal(ta, tb), ta >= tb, "time-after-equal"); VF_EQ(bfdev_time_before_equal(ta, tb), ta <= tb, "time-before-equal");
        { bfdev_time_t x = ta >> 2, y = tb >> 2; VF_EQ(bfdev_time_add(x, y), x + y, "time-add"); VF_EQ(bfdev_time_sub(x, y), x - y, "time-sub"); }
        bfdev_cbfunc_noop(); VF_EQ(((long (*)(void))bfdev_dummy_ret0)(), 0, "ret0"); VF_EQ(((long (*)(void))bfdev_dummy_ret1)(), 1, "ret1");
#define BW(N, W) VF_EQ(BFDEV_BITS_DIV_##N(nr), nr / (W), "bits-div"); VF_EQ(BFDEV_BITS_MOD_##N(nr), nr % (W), "bits-mod"); VF_EQ(BFDEV_BITS_TO_##N(nr), nr / (W) + !!(nr % (W)), "bits-to"); VF_EQ(BFDEV_BITS_PER_##N, (W), "bits-per");
        { size_t nr = a >> 8; BW(U8, 8) BW(U16, 16) BW(U32, 32) BW(U64, 64) BW(CHAR, 8) BW(SHORT, 16) BW(INT, 32) BW(LONG, 64) BW(LONG_LONG, 64) VF_EQ(BFDEV_BITS_WORD(nr), nr / 64, "bits-word"); VF_EQ(BFDEV_BITS_PER_TYPE(uint16_t), 16, "bits-per"); }
        VF_EV("math.triples"); vf_obs(a); vf_obs(b);
    }
}
/* ---- error pointers ---- */
static void scn_errptr(void)
{
    for (int i = 0; i < 30; i++) {
        int e = vf_chance(1, 4) ? (int[]){ -1, -2, -BFDEV_ERRNO_MAX, 1 - BFDEV_ERRNO_MAX }[vf_below(4)] : -1 - (int)vf_below(BFDEV_ERRNO_MAX); void *p = BFDEV_ERR_PTR(e); vf_op("error %d", e);
        VF_CHECK(BFDEV_IS_ERR(p) && BFDEV_IS_INVAL(p), "errptr-is", "%d is not seen as an error", e); VF_EQ(BFDEV_PTR_ERR(p), e, "errptr-value"); VF_EQ(BFDEV_PTR_INVAL(p), e, "errptr-value"); VF_EQ(BFDEV_PTR_ERR_ZERO(p), e, "errptr-value"); VF_EQ(BFDEV_PTR_INVAL_ZERO(p), e, "errptr-value"); VF_EV("errptr.errors");
        size_t n = 1 + vf_below(200); char *q = vf_xmalloc(n); const void *v[] = { q, q + n - 1, &e, (void *)scn_errptr, "x", (void *)1, (void *)(uintptr_t)-(BFDEV_ERRNO_MAX + 1), (void *)(uintptr_t)(vf_rand() >> 1) };
        for (size_t k = 0; k < sizeof v / sizeof *v; k++) { if (!v[k]) continue; VF_CHECK(!BFDEV_IS_ERR(v[k]) && !BFDEV_IS_INVAL(v[k]), "errptr-valid", "%p is taken for an error", v[k]); VF_EQ(BFDEV_PTR_ERR_ZERO(v[k]), 0, "errptr-valid"); VF_EQ(BFDEV_PTR_INVAL_ZERO(v[k]), 0, "errptr-valid"); VF_EV("errptr.valid"); }
        VF_CHECK(!BFDEV_IS_ERR(NULL) && BFDEV_IS_INVAL(NULL), "errptr-null", "null"); VF_EQ(BFDEV_PTR_ERR_ZERO(NULL), 0, "errptr-null"); VF_EQ(BFDEV_PTR_INVAL(NULL), -BFDEV_EPERM, "errptr-null"); VF_EQ(BFDEV_PTR_INVAL_ZERO(NULL), -BFDEV_EPERM, "errptr-null"); free(q); vf_obs(e);
    }
}
/* ---- once, cleanup, actions ---- */
static int ran[4], cleaned; static void hit(int *p) { (*p)++; }
BFDEV_CLEAN_TEMPLATE(count, void *, if (_T) { cleaned++; free(_T); })
static void *guarded(int how) { bfdev_clean(count) void *p = malloc(8); if (how == 1) bfdev_clean_return(p); if (how == 2) return NULL; { bfdev_clean(count) void *in = malloc(4); (void)in; } return NULL; }
static int act(void *d) { return (*(int *)d)++; }
static void scn_once(void)
{
    static int done[3]; static int tries;
    for (int i = 0; i < 20; i++) {
        bool c = vf_chance(1, 3); vf_op("once %d", c); bool r = BFDEV_DO_ONCE_ON(c, hit, &ran[0]); VF_EQ(r, c, "once-result"); if (c) done[0] = 1; VF_EQ(ran[0], done[0], "once"); 
        BFDEV_DO_ONCE(hit, &ran[1]); VF_EQ(ran[1], 1, "once"); bool f = BFDEV_DO_ONCE_DONE(c); if (f) ran[2]++; if (c) done[2] = 1; VF_EQ(ran[2], done[2], "once");
        ARGS0; (void)BFDEV_DO_ONCE_ON(ONCE1(c), hit, &ran[0]); ARGSN(1); if (c) { VF_CHECK(ran[0] >= 1, "once", "second site"); } ran[0] = done[0]; tries++; VF_EV("once.attempts");
        int how = vf_below(3), was = cleaned; void *p = guarded(how); VF_EQ(cleaned - was, how == 1 ? 0 : how == 2 ? 1 : 2, "cleanup-once"); VF_EQ(!!p, how == 1, "cleanup-return"); free(p); VF_EV("guards.scopes");
        int n = vf_below(100); bfdev_action_t a = BFDEV_ACTION_INIT(act, &n), b; int m = n + 7; VF_EQ(bfdev_action_call(&a), m - 7, "action"); VF_EQ(n, m - 6, "action"); bfdev_action_init(&b, act, &n); bfdev_action_update(&b, &m); VF_EQ(bfdev_action_call(&b), n + 6, "action"); bfdev_action_clear(&b); VF_EQ(bfdev_action_call(&b), -BFDEV_ENODATA, "action-clear"); vf_obs(c * 200 + n); vf_obs(how);
    }
    bfdev_cbfunc_noop(); VF_EQ(bfdev_cbfunc_ret0(), 0, "dummy"); VF_EQ(bfdev_cbfunc_ret1(), 1, "dummy"); VF_EQ(((long (*)(void))bfdev_dummy_ret1)(), 1, "dummy"); VF_EQ(((long (*)(void))bfdev_dummy_ret0)(), 0, "dummy");
}
/* ---- layout ---- */
/* argument mapping: what the preprocessor makes of it, as text without blanks */
static void same_text(const char *got, const char *want) { while (*got || *want) { if (*got == ' ') { got++; continue; } VF_CHECK(*got == *want, "map-args", "expands to ...%s where ...%s is meant", got, want); got++, want++; } }
#define TXT2(...) #__VA_ARGS__
#define TXT1(...) TXT2(__VA_ARGS__)
#define F2(t, a) t:a
static void map_args(void)
{
#define SPLITS(X) X(0, "") X(1, "<a>", a) X(2, "<a>,<b>", a, b) X(3, "<a>,<b>,<c>", a, b, c) X(4, "<a>,<b>,<c>,<d>", a, b, c, d) X(5, "<a>,<b>,<c>,<d>,<e>", a, b, c, d, e) X(6, "<a>,<b>,<c>,<d>,<e>,<f>", a, b, c, d, e, f)
#define F1(x) <x>
#define S(n, want, ...) same_text(TXT1(BFDEV_MMAP_SPLITN(n, F1, ##__VA_ARGS__)), want); same_text(TXT1(BFDEV_MMAP_SPLIT##n(F1, ##__VA_ARGS__)), want);
    SPLITS(S)
#define PAIRS(X) X(0, "") X(1, "i:a", i, a) X(2, "i:a,j:b", i, a, j, b) X(3, "i:a,j:b,k:c", i, a, j, b, k, c) X(4, "i:a,j:b,k:c,l:d", i, a, j, b, k, c, l, d) X(5, "i:a,j:b,k:c,l:d,m:e", i, a, j, b, k, c, l, d, m, e) X(6, "i:a,j:b,k:c,l:d,m:e,n:f", i, a, j, b, k, c, l, d, m, e, n, f)
#define A(n, want, ...) same_text(TXT1(BFDEV_MMAP_ARGN(n, F2, ##__VA_ARGS__)), want); same_text(TXT1(BFDEV_MMAP_ARG##n(F2, ##__VA_ARGS__)), want);
    PAIRS(A)
#define DECLS(X) X(0, "") X(1, "i:__arg1", i) X(2, "i:__arg2,j:__arg1", i, j) X(3, "i:__arg3,j:__arg2,k:__arg1", i, j, k) X(4, "i:__arg4,j:__arg3,k:__arg2,l:__arg1", i, j, k, l) X(5, "i:__arg5,j:__arg4,k:__arg3,l:__arg2,m:__arg1", i, j, k, l, m) X(6, "i:__arg6,j:__arg5,k:__arg4,l:__arg3,m:__arg2,n:__arg1", i, j, k, l, m, n)
#define D(n, want, ...) same_text(TXT1(BFDEV_MMAP_DECLN(n, F2, ##__VA_ARGS__)), want); same_text(TXT1(BFDEV_MMAP_DECL##n(F2, ##__VA_ARGS__)), want);
    DECLS(D)
    same_text(TXT1(BFDEV_MMAP_ARG2(BFDEV_MARGFN_DECL, int, a, char *, b)), "inta,char*b"); same_text(TXT1(BFDEV_MMAP_ARG2(BFDEV_MARGFN_LONG, int, a, char *, b)), "longa,longb"); same_text(TXT1(BFDEV_MMAP_ARG2(BFDEV_MARGFN_ARGS, int, a, char *, b)), "a,b"); same_text(TXT1(BFDEV_MMAP_ARG2(BFDEV_MARGFN_CAST, int, a, char *, b)), "(int)a,(char*)b");
    static const unsigned char asc[] = { BFDEV_ASCII_NUL, BFDEV_ASCII_SOH, BFDEV_ASCII_STX, BFDEV_ASCII_ETX, BFDEV_ASCII_EOT, BFDEV_ASCII_ENQ, BFDEV_ASCII_ACK, BFDEV_ASCII_BEL, BFDEV_ASCII_BS, BFDEV_ASCII_HT, BFDEV_ASCII_LF, BFDEV_ASCII_VT, BFDEV_ASCII_FF, BFDEV_ASCII_CR, BFDEV_ASCII_SO, BFDEV_ASCII_SI, BFDEV_ASCII_DLE, BFDEV_ASCII_DC1, BFDEV_ASCII_DC2, BFDEV_ASCII_DC3, BFDEV_ASCII_DC4, BFDEV_ASCII_NAK, BFDEV_ASCII_SYN, BFDEV_ASCII_ETB, BFDEV_ASCII_CAN, BFDEV_ASCII_EM, BFDEV_ASCII_SUB, BFDEV_ASCII_ESC, BFDEV_ASCII_FS, BFDEV_ASCII_GS, BFDEV_ASCII_RS, BFDEV_ASCII_US };
    for (unsigned q = 0; q < sizeof asc; q++) VF_EQ(asc[q], q, "ascii"); VF_EQ(sizeof asc, 32, "ascii"); VF_EQ(BFDEV_ASCII_DEL, 127, "ascii"); VF_EV("layout.mapped");
}
typedef struct { char a; long b; short c[3]; struct { int x, y; } d; char e; } box_t;
typedef struct { int before; bfdev_struct_group(grp, int one; long two; char three;); int after; } grouped_t;
typedef struct { char before; bfdev_struct_group_attr(grp, __attribute__((packed)), char one; long two;); } packed_t;
static void scn_layout(void)
{
    size_t n = 1 + vf_below(9), i = vf_below(n); box_t *v = vf_xcalloc(n * sizeof *v), *p = &v[i]; const box_t *cp = p; vf_op("layout %zu of %zu", i, n);
    VF_CHECK(bfdev_container_of(&p->a, box_t, a) == p && bfdev_container_of(&p->b, box_t, b) == p && bfdev_container_of(&p->c, box_t, c) == p && bfdev_container_of(&p->d, box_t, d) == p && bfdev_container_of(&p->d.y, box_t, d.y) == p && bfdev_container_of(&p->e, box_t, e) == p, "container-of", "wrong container");
    VF_CHECK(bfdev_container_of_safe(&p->b, box_t, b) == p && bfdev_container_of_safe((long *)NULL, box_t, b) == NULL, "container-of-safe", "wrong container"); VF_CHECK(bfdev_container_of_const(&cp->b, box_t, b) == cp && bfdev_container_of_const(&p->b, box_t, b) == p, "container-of-const", "wrong container");
    VF_CHECK(_Generic(bfdev_container_of_const(&cp->b, box_t, b), const box_t *: 1, default: 0) && _Generic(bfdev_container_of_const(&p->b, box_t, b), box_t *: 1, default: 0), "container-of-const", "constness not preserved");
    VF_EQ(bfdev_struct_field(box_t, c), 3 * sizeof(short), "struct-field"); VF_EQ(bfdev_struct_field(box_t, d), sizeof p->d, "struct-field"); VF_EQ(BFDEV_ARRAY_SIZE(p->c), 3, "array-size");
    grouped_t g; memset(&g, 0, sizeof g); g.one = (int)vf_rand(); g.two = (long)vf_rand(); g.three = (char)vf_rand(); VF_CHECK(g.grp.one == g.one && g.grp.two == g.two && g.grp.three == g.three && (void *)&g.grp.two == (void *)&g.two, "struct-group", "members differ"); VF_CHECK(offsetof(grouped_t, after) >= offsetof(grouped_t, three) + 1, "struct-group", "overlap");
    packed_t k; k.one = 3; k.two = (long)vf_rand(); VF_CHECK(k.grp.one == k.one && k.grp.two == k.two && sizeof k.grp == 9, "struct-group", "packed members differ");
    map_args();
    VF_EQ(BFDEV_COUNT_ARGS(), 0, "count-args"); VF_EQ(BFDEV_COUNT_ARGS(a), 1, "count-args"); VF_EQ(BFDEV_COUNT_ARGS(a, b, c, d, e), 5, "count-args"); VF_EQ(BFDEV_COUNT_ARGS(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), 12, "count-args"); VF_CHECK(!strcmp(__bfdev_stringify(BFDEV_ERRNO_MAX), "4096"), "stringify", "wrong"); VF_CHECK(bfdev_typecheck(int, g.one) && bfdev_typecheck_pointer(p), "typecheck", "wrong");
    static const struct { uint64_t got, want; } lim[] = { { BFDEV_UCHAR_MAX, UCHAR_MAX }, { BFDEV_CHAR_MAX, SCHAR_MAX }, { (uint64_t)(int64_t)BFDEV_CHAR_MIN, (uint64_t)SCHAR_MIN }, { BFDEV_USHRT_MAX, USHRT_MAX }, { BFDEV_SHRT_MAX, SHRT_MAX }, { (uint64_t)(int64_t)BFDEV_SHRT_MIN, (uint64_t)SHRT_MIN }, { BFDEV_UINT_MAX, UINT_MAX }, { BFDEV_INT_MAX, INT_MAX }, { (uint64_t)(int64_t)BFDEV_INT_MIN, (uint64_t)INT_MIN }, { BFDEV_ULONG_MAX, ULONG_MAX }, { BFDEV_LONG_MAX, LONG_MAX }, { (uint64_t)BFDEV_LONG_MIN, (uint64_t)LONG_MIN },
 { (uint64_t)BFDEV_ULLONG_MAX, (uint64_t)ULLONG_MAX }, { (uint64_t)BFDEV_LLONG_MAX, (uint64_t)LLONG_MAX }, { (uint64_t)BFDEV_LLONG_MIN, (uint64_t)LLONG_MIN }, { (uint64_t)BFDEV_UINT8_MAX, (uint64_t)UINT8_MAX }, { (uint64_t)BFDEV_UINT16_MAX, (uint64_t)UINT16_MAX }, { (uint64_t)BFDEV_UINT32_MAX, (uint64_t)UINT32_MAX }, { (uint64_t)BFDEV_UINT64_MAX, (uint64_t)UINT64_MAX }, { (uint64_t)BFDEV_INT8_MAX, (uint64_t)INT8_MAX }, { (uint64_t)BFDEV_INT16_MAX, (uint64_t)INT16_MAX }, { (uint64_t)BFDEV_INT32_MAX, (uint64_t)INT32_MAX }, { (uint64_t)BFDEV_INT64_MAX, (uint64_t)INT64_MAX }, { (uint64_t)BFDEV_INT8_MIN, (uint64_t)INT8_MIN }, { (uint64_t)BFDEV_INT16_MIN, (uint64_t)INT16_MIN }, { (uint64_t)BFDEV_INT32_MIN, (uint64_t)INT32_MIN }, { (uint64_t)BFDEV_INT64_MIN, (uint64_t)INT64_MIN }, { (uint64_t)BFDEV_UINTPTR_MAX, (uint64_t)UINTPTR_MAX }, { (uint64_t)BFDEV_INTPTR_MAX, (uint64_t)INTPTR_MAX }, { (uint64_t)BFDEV_INTPTR_MIN, (uint64_t)INTPTR_MIN }, { (uint64_t)BFDEV_PTRDIFF_MAX, (uint64_t)PTRDIFF_MAX }, { (uint64_t)BFDEV_PTRDIFF_MIN, (uint64_t)PTRDIFF_MIN }, { (uint64_t)BFDEV_UINTMAX_MAX, (uint64_t)UINTMAX_MAX }, { (uint64_t)BFDEV_INTMAX_MAX, (uint64_t)INTMAX_MAX }, { (uint64_t)BFDEV_INTMAX_MIN, (uint64_t)INTMAX_MIN }, { (uint64_t)BFDEV_SIZE_MAX, (uint64_t)SIZE_MAX }, { (uint64_t)BFDEV_SSIZE_MAX, (uint64_t)SSIZE_MAX }, { (uint64_t)BFDEV_UCHAR_MIN, 0 }, { (uint64_t)BFDEV_USHRT_MIN, 0 }, { (uint64_t)BFDEV_UINT_MIN, 0 }, { (uint64_t)BFDEV_ULONG_MIN, 0 }, { (uint64_t)BFDEV_ULLONG_MIN, 0 }, { (uint64_t)BFDEV_UINT8_MIN, 0 }, { (uint64_t)BFDEV_UINT16_MIN, 0 }, { (uint64_t)BFDEV_UINT32_MIN, 0 }, { (uint64_t)BFDEV_UINT64_MIN, 0 }, { (uint64_t)BFDEV_UINTPTR_MIN, 0 }, { (uint64_t)BFDEV_UINTMAX_MIN, 0 }, { (uint64_t)BFDEV_SIZE_MIN, 0 }, { (uint64_t)BFDEV_SSIZE_MIN, (uint64_t)INT64_MIN } };
    VF_CHECK(bfdev_is_signed(int8_t) && bfdev_is_signed(long) && !bfdev_is_signed(uint8_t) && bfdev_is_unsigned(size_t) && !bfdev_is_unsigned(int) && bfdev_is_unsigned(bool), "is-signed", "signedness of a type misjudged");
    for (size_t q = 0; q < sizeof lim / sizeof *lim; q++) VF_CHECK(lim[q].got == lim[q].want, "limits", "limit %zu is %#lx", q, (long)lim[q].got);
    uint64_t s = 1; static const uint64_t sz[] = { BFDEV_SZ_1Byte, BFDEV_SZ_2Byte, BFDEV_SZ_4Byte, BFDEV_SZ_8Byte, BFDEV_SZ_16Byte, BFDEV_SZ_32Byte, BFDEV_SZ_64Byte, BFDEV_SZ_128Byte, BFDEV_SZ_256Byte, BFDEV_SZ_512Byte, BFDEV_SZ_1KiB, BFDEV_SZ_2KiB, BFDEV_SZ_4KiB, BFDEV_SZ_8KiB, BFDEV_SZ_16KiB, BFDEV_SZ_32KiB, BFDEV_SZ_64KiB, BFDEV_SZ_128KiB, BFDEV_SZ_256KiB, BFDEV_SZ_512KiB, BFDEV_SZ_1MiB, BFDEV_SZ_2MiB, BFDEV_SZ_4MiB, BFDEV_SZ_8MiB, BFDEV_SZ_16MiB, BFDEV_SZ_32MiB, BFDEV_SZ_64MiB, BFDEV_SZ_128MiB, BFDEV_SZ_256MiB, BFDEV_SZ_512MiB, BFDEV_SZ_1GiB, BFDEV_SZ_2GiB, BFDEV_SZ_4GiB, BFDEV_SZ_8GiB, BFDEV_SZ_16GiB, BFDEV_SZ_32GiB, BFDEV_SZ_64GiB, BFDEV_SZ_128GiB, BFDEV_SZ_256GiB, BFDEV_SZ_512GiB };
    for (size_t q = 0; q < sizeof sz / sizeof *sz; q++, s <<= 1) VF_CHECK(sz[q] == s, "sizes", "size %zu is %#lx", q, (long)sz[q]); for (int q = 0; q < 64; q++) VF_CHECK(BFDEV_BITUL(q) == 1UL << q && BFDEV_BITULL(q) == 1ULL << q, "const-bits", "bit %d", q);
    VF_EV("layout.checked"); vf_obs(g.two); vf_obs(i); free(v);
}
VF_SCENARIOS({ "overflow", scn_overflow, 3 }, { "math", scn_math, 3 }, { "errptr", scn_errptr, 1 }, { "once", scn_once, 1 }, { "layout", scn_layout, 1 });
