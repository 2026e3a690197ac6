/* C20: bit searches and walks. */
#include "vf.h"
#include <bfdev/bitwalk.h>
#include <bfdev/bitmap.h>
#include "constw.inc"
enum { FB, LB, FZ, LZ, NB, PB, NZ, PZ, NAND, PAND, NOPS };
static const char *const names[] = { "first_bit", "last_bit", "first_zero", "last_zero", "next_bit", "prev_bit", "next_zero", "prev_zero", "next_and", "prev_and" };
static inline __attribute__((always_inline)) unsigned run(int op, const ul *a, const ul *b, unsigned n, unsigned o)
{
    switch (op) {
    case FB: return bfdev_find_first_bit(a, n); case LB: return bfdev_find_last_bit(a, n); case FZ: return bfdev_find_first_zero(a, n); case LZ: return bfdev_find_last_zero(a, n);
    case NB: return bfdev_find_next_bit(a, n, o); case PB: return bfdev_find_prev_bit(a, n, o); case NZ: return bfdev_find_next_zero(a, n, o); case PZ: return bfdev_find_prev_zero(a, n, o);
    case NAND: return bfdev_find_next_and_bit(a, b, n, o); default: return bfdev_find_prev_and_bit(a, b, n, o);
    }
}
/* walks: record positions */
static inline __attribute__((always_inline)) unsigned walk(int op, const ul *a, unsigned n, unsigned start, unsigned *out)
{
    unsigned i, k = 0, cap = n + 2;
#define TAKE { out[k++] = i; if (k >= cap) break; }
    switch (op) {
    case 0: bfdev_for_each_bit(i, a, n) TAKE break; case 1: bfdev_for_each_zero(i, a, n) TAKE break;
    case 2: bfdev_for_each_bit_reverse(i, a, n) TAKE break; case 3: bfdev_for_each_zero_reverse(i, a, n) TAKE break;
    case 4: i = start; bfdev_for_each_bit_form(i, a, n) TAKE break; case 5: i = start; bfdev_for_each_zero_form(i, a, n) TAKE break;
    case 6: i = start; bfdev_for_each_bit_reverse_form(i, a, n) TAKE break; case 7: i = start; bfdev_for_each_zero_reverse_form(i, a, n) TAKE break;
    case 8: i = start; bfdev_for_each_bit_continue(i, a, n) TAKE break; case 9: i = start; bfdev_for_each_zero_continue(i, a, n) TAKE break;
    case 10: i = start; bfdev_for_each_bit_reverse_continue(i, a, n) TAKE break; case 11: i = start; bfdev_for_each_zero_reverse_continue(i, a, n) TAKE break;
    }
    return k;
}
#define DEF(N) static __attribute__((flatten, noinline)) unsigned run_##N(int op, const ul *a, const ul *b, unsigned o) { return run(op, a, b, N, o); } \
 static __attribute__((flatten, noinline)) unsigned walk_##N(int op, const ul *a, unsigned s, unsigned *out) { return walk(op, a, N, s, out); }
CONST_ALL(DEF)
static const struct { unsigned n; unsigned (*f)(int, const ul *, const ul *, unsigned); unsigned (*w)(int, const ul *, unsigned, unsigned *); } tab[] = {
#define ROW(N) { N, run_##N, walk_##N },
CONST_ALL(ROW)
};
#define NTAB (sizeof(tab) / sizeof(*tab))
static __attribute__((noinline, noclone)) unsigned run_dyn(int op, const ul *a, const ul *b, unsigned n, unsigned o) { return run(op, a, b, n, o); }
static __attribute__((noinline, noclone)) unsigned walk_dyn(int op, const ul *a, unsigned n, unsigned s, unsigned *out) { return walk(op, a, n, s, out); }
static unsigned ref(int dir, const ul *a, const ul *b, unsigned n, unsigned o, bool inv, bool swap, bool whole)
{
    if (whole) { if (!n) return n; o = dir > 0 ? 0 : n - 1; }
    if (o >= n) return n;
    for (unsigned i = o; i < n; i += dir) { unsigned k = swap ? (i & ~63u) | (56 - (i & 56)) | (i & 7) : i; if ((getb(a, k) & (b ? getb(b, k) : true)) != inv) return i; }
    return n;
}
static unsigned pick_n(void) { if (vf_chance(1, 1500)) { VF_EV("bitwalk.past_64k"); return vf_past64k(); } switch (vf_below(4)) { case 0: return vf_below(70); case 1: { unsigned n = 64 * vf_below(6) + vf_below(3); return n && vf_chance(1, 2) ? n - 1 : n; } case 2: return vf_below(400); default: return vf_below(vf_deep ? 4000 : 1000); } }
static unsigned pick_o(unsigned n) { return vf_chance(1, 12) ? n + vf_below(70) : vf_chance(1, 60) ? UINT_MAX - vf_below(3) : n ? vf_chance(1, 4) ? n - 1 - vf_below(n < 3 ? n : 3) : vf_chance(1, 4) ? (vf_below(n) | 63) : vf_below(n) : 0; }
static ul *sparse(unsigned n, bool ones)
{   /* few set (or clear) bits, garbage beyond n */
    unsigned w = WORDS(n); ul *m = vf_xmalloc(w * 8); int k = vf_below(4);
    for (unsigned i = 0; i < w; i++) m[i] = ones ? ~0UL : 0;
    while (k-- && n) putb(m, vf_chance(1, 3) ? n - 1 : vf_chance(1, 3) ? vf_below(n) & ~63u : vf_below(n), !ones);
    for (unsigned i = n; i < w * 64; i++) putb(m, i, vf_chance(1, 2));
    return m;
}
static void scn_find(void)
{
    for (int r = 0; r < 24; r++) {
        bool k = vf_chance(1, 2); int ki = vf_below(NTAB); unsigned n = k ? tab[ki].n : pick_n(), o = pick_o(n), got, want; int op = vf_below(NOPS); ul *a, *b, *a0, *b0;
        a = vf_chance(1, 2) ? sparse(n, vf_chance(1, 2)) : rand_map(WORDS(n), vf_below(7)); b = vf_chance(1, 2) ? sparse(n, vf_chance(1, 2)) : rand_map(WORDS(n), vf_below(7));
        a0 = vf_dup(a, WORDS(n) * 8); b0 = vf_dup(b, WORDS(n) * 8);
        vf_op("find_%s n=%u o=%u const=%d", names[op], n, o, k);
        got = k ? tab[ki].f(op, a, b, o) : run_dyn(op, a, b, n, o);
        want = op == FB ? ref(1, a, NULL, n, 0, 0, 0, 1) : op == LB ? ref(-1, a, NULL, n, 0, 0, 0, 1) : op == FZ ? ref(1, a, NULL, n, 0, 1, 0, 1) : op == LZ ? ref(-1, a, NULL, n, 0, 1, 0, 1) : op == NB ? ref(1, a, NULL, n, o, 0, 0, 0) : op == PB ? ref(-1, a, NULL, n, o, 0, 0, 0) : op == NZ ? ref(1, a, NULL, n, o, 1, 0, 0) : op == PZ ? ref(-1, a, NULL, n, o, 1, 0, 0) : op == NAND ? ref(1, a, b, n, o, 0, 0, 0) : ref(-1, a, b, n, o, 0, 0, 0);
        VF_CHECK(got == want, names[op], "find_%s in %u bits from %u (%s path): got %u want %u", names[op], n, o, k ? "constant" : "general", got, want);
        VF_CHECK(!memcmp(a, a0, WORDS(n) * 8) && !memcmp(b, b0, WORDS(n) * 8), "readonly", "bitmap changed");
        if (got == n) VF_EV("bitwalk.none"); else VF_EV("bitwalk.found"); if (k && n <= 64) VF_EV("bitwalk.constant_width"); vf_obs((uint64_t)got << 32 | op << 16 | n); free(a); free(b); free(a0); free(b0);
    }
}
static void scn_comp(void)
{
    for (int r = 0; r < 24; r++) {
        unsigned n = pick_n(), o = pick_o(n), got, want; int op = vf_below(4); bool inv = vf_chance(1, 2), swap = vf_chance(1, 2), two = vf_chance(1, 2); ul *a, *b;
        a = vf_chance(1, 2) ? sparse(n, vf_chance(1, 2)) : rand_map(WORDS(n), vf_below(7)); b = vf_chance(1, 2) ? sparse(n, vf_chance(1, 2)) : rand_map(WORDS(n), vf_below(7));
        if (swap && n % 64) { /* a foreign-order map needs whole words: same words suffice */ }
        vf_op("comp %d n=%u o=%u inv=%d swap=%d two=%d", op, n, o, inv, swap, two);
        switch (op) {
        case 0: got = bfdev_comp_find_first_bit(a, n, inv ? ~0UL : 0, swap); want = ref(1, a, NULL, n, 0, inv, swap, 1); break;
        case 1: got = bfdev_comp_find_last_bit(a, n, inv ? ~0UL : 0, swap); want = ref(-1, a, NULL, n, 0, inv, swap, 1); break;
        case 2: got = bfdev_comp_find_next_bit(a, two ? b : NULL, n, o, inv ? ~0UL : 0, swap); want = ref(1, a, two ? b : NULL, n, o, inv, swap, 0); break;
        default: got = bfdev_comp_find_prev_bit(a, two ? b : NULL, n, o, inv ? ~0UL : 0, swap); want = ref(-1, a, two ? b : NULL, n, o, inv, swap, 0); break;
        }
        VF_CHECK(got == want, "comp", "general search %d in %u bits from %u invert %d swap %d two %d: got %u want %u", op, n, o, inv, swap, two, got, want);
        if (swap) VF_EV("bitwalk.swapped"); if (two && op > 1) VF_EV("bitwalk.two_maps"); vf_obs((uint64_t)got << 32 | op << 16 | n | (uint64_t)inv << 30 | (uint64_t)swap << 31); free(a); free(b);
    }
}
static void scn_walk(void)
{
    for (int r = 0; r < 8; r++) {
        bool k = vf_chance(1, 2); int ki = vf_below(NTAB), op = vf_below(12); unsigned n = k ? tab[ki].n : pick_n(), s, *out = vf_xmalloc((n + 3) * 4), cnt, e = 0; ul *a = vf_chance(1, 2) ? sparse(n, vf_chance(1, 2)) : rand_map(WORDS(n), vf_below(7)); bool zero = op & 1, rev = op & 2;
        if (!n) { free(out); free(a); continue; }
        if (op < 4) s = rev ? n - 1 : 0; else s = vf_below(n);
        vf_op("walk %d n=%u start=%u const=%d", op, n, s, k);
        cnt = k ? tab[ki].w(op, a, s, out) : walk_dyn(op, a, n, s, out);
        /* _form starts at the given position whatever it holds; _continue starts after it */
        if (op >= 4 && op < 8) { VF_CHECK(cnt && out[0] == s, "form-start", "form walk does not start at %u", s); e = 1; s = rev ? s - 1 : s + 1; if (s >= n && s != UINT_MAX) s = n; }
        if (op >= 8) s = rev ? s - 1 : s + 1;
        for (unsigned i = s; i < n; i += rev ? -1 : 1) if (getb(a, i) != zero) { VF_CHECK(e < cnt && out[e] == i, "walk", "walk form %d over %u bits (%s path): visit %u is %u, want %u", op, n, k ? "constant" : "general", e, e < cnt ? out[e] : UINT_MAX, i); e++; }
        VF_CHECK(e == cnt, "walk-extra", "walk form %d over %u bits: %u visits, want %u", op, n, cnt, e);
        VF_EV("bitwalk.walk"); VF_EVN("bitwalk.visits", cnt); vf_obs((uint64_t)cnt << 32 ^ op << 20 ^ n); free(out); free(a);
    }
}
VF_SCENARIOS({ "find", scn_find, 3 }, { "comp", scn_comp, 2 }, { "walk", scn_walk, 2 });
