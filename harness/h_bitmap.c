/* C19: bitmaps against their bit-by-bit definition. */
#include "vf.h"
#include <bfdev/bitmap.h>
#include "constw.inc"
enum { EMPTY, FULL, EQUAL, OREQ, INTER, AND, ANDNOT, OR, XOR, SHL, SHR, COMPL, ZERO, FILL, COPY, SET, CLR, NOPS };
static const char *const names[] = { "empty", "full", "equal", "or_equal", "intersects", "and", "andnot", "or", "xor", "shl", "shr", "complement", "zero", "fill", "copy", "set", "clr" };
static inline __attribute__((always_inline)) long run(int op, ul *d, ul *a, ul *b, ul *c, unsigned x, unsigned n)
{
    switch (op) {
    case EMPTY: return bfdev_bitmap_empty(a, n);
    case FULL: return bfdev_bitmap_full(a, n);
    case EQUAL: return bfdev_bitmap_equal(a, b, n);
    case OREQ: return bfdev_bitmap_or_equal(a, b, c, n);
    case INTER: return bfdev_bitmap_intersects(a, b, n);
    case AND: return bfdev_bitmap_and(d, a, b, n);
    case ANDNOT: return bfdev_bitmap_andnot(d, a, b, n);
    case OR: bfdev_bitmap_or(d, a, b, n); return -1;
    case XOR: bfdev_bitmap_xor(d, a, b, n); return -1;
    case SHL: bfdev_bitmap_shl(d, a, x, n); return -1;
    case SHR: bfdev_bitmap_shr(d, a, x, n); return -1;
    case COMPL: bfdev_bitmap_complement(d, a, n); return -1;
    case ZERO: bfdev_bitmap_zero(d, n); return -1;
    case FILL: bfdev_bitmap_fill(d, n); return -1;
    case COPY: bfdev_bitmap_copy(d, a, n); return -1;
    case SET: bfdev_bitmap_set(d, x, n); return -1;
    case CLR: bfdev_bitmap_clr(d, x, n); return -1;
    }
    return -1;
}
#define DEF(N) static __attribute__((flatten, noinline)) long run_##N(int op, ul *d, ul *a, ul *b, ul *c, unsigned x) { \
    if (op == SHL || op == SHR || (op != SET && op != CLR)) return run(op, d, a, b, c, x, N); \
    /* ranged updates: constant starts as well */ \
    if (N % 8 == 0 || N == 1 || N == 63 || N == 65) switch (x) { case 0: return run(op, d, a, b, c, 0, N); case 1: return run(op, d, a, b, c, 1, N); case 8: return run(op, d, a, b, c, 8, N); case 24: return run(op, d, a, b, c, 24, N); case 63: return run(op, d, a, b, c, 63, N); case 64: return run(op, d, a, b, c, 64, N); case 72: return run(op, d, a, b, c, 72, N); case 128: return run(op, d, a, b, c, 128, N); } \
    return run(op, d, a, b, c, x, N); }
CONST_ALL(DEF)
typedef long (*run_t)(int, ul *, ul *, ul *, ul *, unsigned);
static const struct { unsigned n; run_t f; } tab[] = {
#define ROW(N) { N, run_##N },
CONST_ALL(ROW)
};
#define NTAB (sizeof(tab) / sizeof(*tab))
static __attribute__((noinline, noclone)) long run_dyn(int op, ul *d, ul *a, ul *b, ul *c, unsigned x, unsigned n)
{
    switch (op) { case EQUAL: if (x & 1) return bfdev_bitmap_comp_equal(a, b, n); break; case INTER: if (x & 1) return bfdev_bitmap_comp_intersects(a, b, n); break; case AND: if (x & 1) return bfdev_bitmap_comp_and(d, a, b, n); break; }
    return run(op, d, a, b, c, x, n);
}
static void one(int op, bool k)
{
    unsigned n, w, x = 0, extra, lo = 0; ul *d, *a, *b, *c, *d0, *a0, *b0, *c0; int ki = 0; long got, want = -1; int style = vf_below(7); bool al;
    if (k) { ki = vf_below(NTAB); n = tab[ki].n; } else switch (vf_below(4)) { case 0: n = vf_below(70); break; case 1: n = 64 * vf_below(6) + vf_range(0, 2); if (n && vf_chance(1, 2)) n--; break; case 2: n = vf_below(400); break; default: n = vf_below(vf_deep ? 5000 : 1200); }
    if (!k && vf_chance(1, 3000)) { n = vf_past64k(); VF_EV("bitmap.past_64k"); }
    w = WORDS(n);
    if (op == SET || op == CLR) { static const unsigned ks[] = { 0, 1, 8, 24, 63, 64, 72, 128 }; x = k && vf_chance(2, 3) ? ks[vf_below(8)] : vf_chance(1, 3000) ? vf_past64k() : vf_below(vf_chance(1, 2) ? 66 : 300); lo = x; w = WORDS(x + n); }
    if (op == SHL || op == SHR) { x = k && n <= 64 ? vf_below(vf_chance(1, 2) ? n : 64) : vf_chance(1, 6) ? 64 * vf_below(8) : vf_below(n + (vf_chance(1, 4) ? 200 : 1)); }
    if (op == EQUAL || op == INTER || op == AND) x = vf_below(2);
    if (!w && k) w = 1;
    extra = vf_chance(1, 2) ? 0 : 1 + vf_below(2);
    a = rand_map(w + extra, style); b = rand_map(w + extra, vf_chance(1, 2) ? style : (int)vf_below(7)); c = rand_map(w + extra, vf_below(7)); d = rand_map(w + extra, vf_below(7));
    if (op == FULL && vf_chance(2, 3)) { for (unsigned i = 0; i < n; i++) putb(a, i, true); if (n && vf_chance(1, 2)) putb(a, vf_chance(1, 2) ? n - 1 : vf_below(n), false); }
    if (op == EMPTY && vf_chance(2, 3)) { for (unsigned i = 0; i < n; i++) putb(a, i, false); if (n && vf_chance(1, 2)) putb(a, vf_chance(1, 2) ? n - 1 : vf_below(n), true); }
    if (op == EQUAL && vf_chance(3, 4)) { for (unsigned i = 0; i < n; i++) putb(b, i, getb(a, i)); if (n && vf_chance(1, 2)) { unsigned i = vf_chance(1, 2) ? n - 1 : vf_below(n); putb(b, i, !getb(a, i)); } }
    if (op == OREQ && vf_chance(3, 4)) { for (unsigned i = 0; i < n; i++) putb(c, i, getb(a, i) | getb(b, i)); if (n && vf_chance(1, 2)) { unsigned i = vf_chance(1, 2) ? n - 1 : vf_below(n); putb(c, i, !getb(c, i)); } }
    if ((op == INTER || op == AND) && vf_chance(1, 2)) { for (unsigned i = 0; i < n; i++) putb(b, i, getb(b, i) & !getb(a, i)); if (n && vf_chance(1, 2)) { unsigned i = vf_chance(1, 2) ? n - 1 : vf_below(n); putb(a, i, 1); putb(b, i, 1); } }
    if (op == ANDNOT && vf_chance(1, 2)) { for (unsigned i = 0; i < n; i++) putb(b, i, getb(b, i) | getb(a, i)); }
    d0 = vf_dup(d, (w + extra) * 8); a0 = vf_dup(a, (w + extra) * 8); b0 = vf_dup(b, (w + extra) * 8); c0 = vf_dup(c, (w + extra) * 8);
    al = op >= AND && op <= COPY && op != ZERO && op != FILL && vf_chance(1, 3);
    { ul *dd = d; if (al) { if (vf_chance(1, 2) || op == SHL || op == SHR || op == COMPL || op == COPY) dd = a; else dd = b; if (op == COPY) dd = d; }
    vf_op("%s n=%u x=%u const=%d dest=%s", names[op], n, x, k, dd == d ? "own" : dd == a ? "a" : "b");
    got = k ? tab[ki].f(op, dd, a, b, c, x) : run_dyn(op, dd, a, b, c, x, n);
    if (dd != d) { memcpy(d0, dd == a ? a0 : b0, (w + extra) * 8); VF_EV("bitmap.in_place"); }
    /* result of predicates */
    { bool em = true, fu = true, eq = true, oe = true, in = false, an = false;
      for (unsigned i = 0; i < n; i++) { bool A = getb(a0, i), B = getb(b0, i), C = getb(c0, i); em &= !A; fu &= A; eq &= A == B; oe &= (A | B) == C; in |= A && B; an |= A && !B; }
      switch (op) { case EMPTY: want = em; break; case FULL: want = fu; break; case EQUAL: want = eq; break; case OREQ: want = oe; break; case INTER: want = in; break; case AND: want = in; break; case ANDNOT: want = an; break; } }
    if (want >= 0) { VF_CHECK(got == want, names[op], "%s of %u bits (%s path) says %ld, definition %ld", names[op], n, k ? "constant" : "general", got, want); VF_EVN("bitmap.true", got == 1); VF_EVN("bitmap.false", got == 0); }
    /* destination */
    if (op >= AND) {
        unsigned hw = op == SET || op == CLR ? 0 : WORDS(n);
        if (op == SET || op == CLR) {
            for (unsigned i = 0; i < (w + extra) * 64; i++) { bool v = i >= lo && i < lo + n ? op == SET : getb(d0, i); VF_CHECK(getb(dd, i) == v, names[op], "%s start %u count %u: bit %u is %d", names[op], lo, n, i, !v); }
        } else {
            for (unsigned i = 0; i < n; i++) {
                bool A = getb(a0, i), B = getb(b0, i), v = false;
                switch (op) { case AND: v = A & B; break; case ANDNOT: v = A & !B; break; case OR: v = A | B; break; case XOR: v = A ^ B; break; case SHL: v = i >= x && getb(a0, i - x); break; case SHR: v = (uint64_t)i + x < n && getb(a0, i + x); break; case COMPL: v = !A; break; case ZERO: v = false; break; case FILL: v = true; break; case COPY: v = A; break; }
                VF_CHECK(getb(dd, i) == v, names[op], "%s of %u bits by %u (%s path): bit %u is %d", names[op], n, x, k ? "constant" : "general", i, !v);
            }
            if (op >= AND && op <= COMPL) for (unsigned i = n; i < hw * 64; i++) { VF_CHECK(!getb(dd, i), "tail", "%s of %u bits by %u (%s path): bit %u beyond the length is set", names[op], n, x, k ? "constant" : "general", i); VF_EV("bitmap.tail_bits"); }
            for (unsigned i = hw; i < w + extra; i++) if (!(k && i == 0)) VF_CHECK(dd[i] == d0[i], "beyond", "%s of %u bits changed word %u", names[op], n, i);
        }
        if (dd != d) { for (unsigned i = 0; i < w + extra; i++) VF_EQ(d[i], d[i], "own"); }
        else { VF_CHECK(!memcmp(a, a0, (w + extra) * 8), "source", "%s changed its source", names[op]); }
        if (dd != b) VF_CHECK(!memcmp(b, b0, (w + extra) * 8), "source", "%s changed its source", names[op]);
    } else VF_CHECK(!memcmp(a, a0, (w + extra) * 8) && !memcmp(b, b0, (w + extra) * 8) && !memcmp(d, d0, (w + extra) * 8), "source", "%s changed an operand", names[op]);
    vf_obs((uint64_t)op << 56 | (uint64_t)x << 32 | n); if (op < ZERO && w) vf_obs_mem(dd, w * 8); else if (op == ZERO || op == FILL || op == COPY) for (unsigned i = 0; i < n; i++) vf_obs(getb(dd, i)); else if (w) vf_obs_mem(dd, w * 8); }
    if (k) VF_EV("bitmap.constant_width"); else VF_EV("bitmap.general"); if (n % 64) VF_EV("bitmap.ragged");
    free(a); free(b); free(c); free(d); free(a0); free(b0); free(c0); free(d0);
}
static void scn_const(void) { for (int i = 0; i < 40; i++) one(vf_below(NOPS), true); }
static void scn_dyn(void) { for (int i = 0; i < 30; i++) one(vf_below(NOPS), false); }
static void scn_misc(void)
{
    for (int r = 0; r < 10; r++) {
        unsigned n = vf_below(vf_chance(1, 2) ? 140 : 900), w = WORDS(n); ul *d = rand_map(w, 2), *o = rand_map(w, vf_below(7)), *p = rand_map(w, vf_below(7)), *m = rand_map(w, vf_below(7)), *o0 = vf_dup(o, w * 8); bool inpl = vf_chance(1, 3);
        bfdev_bitmap_comp_replace(inpl ? o : d, o, p, m, n);
        for (unsigned i = 0; i < n; i++) VF_CHECK(getb(inpl ? o : d, i) == (getb(m, i) ? getb(p, i) : getb(o0, i)), "replace", "replace of %u bits: bit %u", n, i);
        for (unsigned i = n; i < w * 64; i++) VF_CHECK(!getb(inpl ? o : d, i), "tail", "replace of %u bits: bit %u beyond the length is set", n, i);
        VF_EV("bitmap.replace"); vf_obs(n); free(d); free(o); free(p); free(m); free(o0);
    }
    { vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); unsigned n = vf_chance(1, 12) ? 0 : 1 + vf_below(1000); bool z = vf_chance(1, 2), own = vf_chance(1, 2); ul *m;
      m = z ? bfdev_bitmap_zalloc(own ? &al : NULL, n) : bfdev_bitmap_alloc(own ? &al : NULL, n);
      if (!n) VF_PEQ(m, NULL, "alloc-zero");
      else { VF_CHECK(m, "alloc", "no bitmap"); if (!z) memset(m, 0x5a, WORDS(n) * 8); if (own) VF_EQ(A.live, 1, "alloc-own"); for (unsigned i = 0; i < n; i++) { if (z) VF_CHECK(!getb(m, i), "zalloc", "bit %u set in a zeroed bitmap", i); putb(m, i, 1); } VF_CHECK(bfdev_bitmap_full(m, n), "alloc-full", "filled bitmap not full"); bfdev_bitmap_free(own ? &al : NULL, m); VF_EV("bitmap.alloc"); }
      vfa_done(&A, "alloc-leak"); }
}
VF_SCENARIOS({ "const", scn_const, 4 }, { "dyn", scn_dyn, 4 }, { "misc", scn_misc, 1 });
