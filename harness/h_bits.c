/* C21: word-level bit primitives against their definitions; with GENERIC the portable fallbacks instead of the builtin forms. */
#include "vf.h"
#include <bfdev/config.h>
#ifdef GENERIC
# define _BFDEV_ASM_BITOPS_H_
# include <bfdev/asm-generic/bitops.h>
#endif
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/log2.h>
#include <bfdev/bitrev.h>
#include <bfdev/swab.h>
#include <bfdev/byteorder.h>
#include <bfdev/unaligned.h>
#include <bfdev/bcd.h>
#include <bfdev/bitfield.h>
#include <bfdev/bitflags.h>
#include <bfdev/popcount.h>
#include <bfdev/align.h>
#include "lits.inc"
typedef unsigned long ul;
#define OPQ(x) ({ __typeof__(x) _v = (x); __asm__ volatile("" : "+r"(_v)); _v; })
static int r_first(uint64_t v) { for (int i = 0; i < 64; i++) if (v >> i & 1) return i; return 64; }
static int r_last(uint64_t v) { for (int i = 63; i >= 0; i--) if (v >> i & 1) return i; return 64; }
static int r_cnt(uint64_t v) { int c = 0; for (int i = 0; i < 64; i++) c += v >> i & 1; return c; }
static int r_nth(uint64_t v, unsigned n, bool top) { for (int k = 0; k < 64; k++) { int i = top ? 63 - k : k; if (v >> i & 1) if (!n--) return i; } return 64; }
static uint64_t r_rev(uint64_t v, int w) { uint64_t o = 0; for (int i = 0; i < w; i++) if (v >> i & 1) o |= 1ULL << (w - 1 - i); return o; }
static uint64_t r_swab(uint64_t v, int bytes) { uint64_t o = 0; for (int i = 0; i < bytes; i++) o |= (v >> (8 * i) & 255) << (8 * (bytes - 1 - i)); return o; }
static uint64_t r_grp(uint64_t v, int w, int g) /* swap neighbouring groups of g bits in w-bit value */
{ uint64_t o = 0; for (int i = 0; i < w; i++) if (v >> i & 1) o |= 1ULL << (i ^ g); return o; }
#define EQ(got, want, key) do { uint64_t _a = (got), _b = (want); VF_CHECK(_a == _b, key, #got " of 0x%llx: got 0x%llx want 0x%llx", (long long)v, (long long)_a, (long long)_b); } while (0)
static void word(uint64_t v)
{
    int f = r_first(v), l = r_last(v), fz = r_first(~v), lz = r_last(~v), c = r_cnt(v);
    v = OPQ(v);
    EQ(bfdev_ffs(v), v ? f + 1 : 0, "ffs"); EQ(bfdev_fls(v), v ? l + 1 : 0, "fls"); EQ(bfdev_ffz(v), ~v ? fz + 1 : 0, "ffz"); EQ(bfdev_flz(v), ~v ? lz + 1 : 0, "flz");
    EQ(bfdev_ffs64(v), v ? f + 1 : 0, "ffs"); EQ(bfdev_fls64(v), v ? l + 1 : 0, "fls"); EQ(bfdev_ffz64(v), ~v ? fz + 1 : 0, "ffz"); EQ(bfdev_flz64(v), ~v ? lz + 1 : 0, "flz");
    if (v) { EQ(bfdev_ffsuf(v), f, "ffsuf"); EQ(bfdev_flsuf(v), l, "flsuf"); EQ(bfdev_ctz(v), f, "ctz"); EQ(bfdev_clz(v), 63 - l, "clz"); EQ(bfdev_ffsuf64(v), f, "ffsuf"); EQ(bfdev_flsuf64(v), l, "flsuf"); EQ(bfdev_ctz64(v), f, "ctz"); EQ(bfdev_clz64(v), 63 - l, "clz"); }
    if (~v) { EQ(bfdev_ffzuf(v), fz, "ffzuf"); EQ(bfdev_flzuf(v), lz, "flzuf"); EQ(bfdev_ffzuf64(v), fz, "ffzuf"); EQ(bfdev_flzuf64(v), lz, "flzuf"); }
    { unsigned n = vf_below(vf_chance(1, 3) ? 70 : c + 2), m, have;
#define NTH(fn, val, top, cnt) \
      EQ(fn(v, n), r_nth(val, n, top), #fn); EQ(fn##64(v, n), r_nth(val, n, top), #fn); \
      m = n; EQ(fn##p(v, &m), r_nth(val, n, top), #fn "p"); if (r_nth(val, n, top) == 64) VF_EQ(m, n - (cnt), #fn "p-rest"); \
      m = n; EQ(fn##p64(v, &m), r_nth(val, n, top), #fn "p64"); if (r_nth(val, n, top) == 64) VF_EQ(m, n - (cnt), #fn "p-rest");
      have = c; NTH(bfdev_ffns, v, false, have) NTH(bfdev_flns, v, true, have) have = 64 - c; NTH(bfdev_ffnz, ~v, false, have) NTH(bfdev_flnz, ~v, true, have) }
    /* population */
    EQ(bfdev_popcount64(v), c, "popcount64"); EQ(bfdev_popcount64_const(v), c, "popcount64"); EQ(bfdev_popparity64(v), c & 1, "parity64"); EQ(bfdev_popparity64_const(v), c & 1, "parity64");
    EQ(bfdev_popcount32(v), r_cnt((uint32_t)v), "popcount32"); EQ(bfdev_popcount32_const(v), r_cnt((uint32_t)v), "popcount32"); EQ(bfdev_popparity32(v), r_cnt((uint32_t)v) & 1, "parity32"); EQ(bfdev_popparity32_const(v), r_cnt((uint32_t)v) & 1, "parity32");
    EQ(bfdev_popcount16(v), r_cnt((uint16_t)v), "popcount16"); EQ(bfdev_popcount16_const(v), r_cnt((uint16_t)v), "popcount16"); EQ(bfdev_popparity16(v), r_cnt((uint16_t)v) & 1, "parity16"); EQ(bfdev_popparity16_const(v), r_cnt((uint16_t)v) & 1, "parity16");
    EQ(bfdev_popcount8(v), r_cnt((uint8_t)v), "popcount8"); EQ(bfdev_popcount8_const(v), r_cnt((uint8_t)v), "popcount8"); EQ(bfdev_popparity8(v), r_cnt((uint8_t)v) & 1, "parity8"); EQ(bfdev_popparity8_const(v), r_cnt((uint8_t)v) & 1, "parity8");
    /* reversal */
    EQ(bfdev_bitrev8(v), r_rev(v, 8), "bitrev8"); EQ((uint8_t)bfdev_bitrev8_const(v), r_rev(v, 8), "bitrev8-const"); EQ(bfdev_bitrev16(v), r_rev(v, 16), "bitrev16"); EQ((uint16_t)bfdev_bitrev16_const(v), r_rev(v, 16), "bitrev16-const");
    EQ(bfdev_bitrev32(v), r_rev(v, 32), "bitrev32"); EQ(bfdev_bitrev32_const(v), r_rev(v, 32), "bitrev32-const"); EQ(bfdev_bitrev64(v), r_rev(v, 64), "bitrev64"); EQ(bfdev_bitrev64_const(v), r_rev(v, 64), "bitrev64-const");
    /* byte order */
    EQ(bfdev_swab16(v), r_swab(v, 2), "swab16"); EQ(bfdev_swab32(v), r_swab(v, 4), "swab32"); EQ(bfdev_swab64(v), r_swab(v, 8), "swab64"); EQ(bfdev_swab(v), r_swab(v, 8), "swab");
    EQ(bfdev_swab16_const(v), r_swab(v, 2), "swab16"); EQ(bfdev_swab32_const(v), r_swab(v, 4), "swab32"); EQ(bfdev_swab64_const(v), r_swab(v, 8), "swab64"); EQ(bfdev_fswab16(v), r_swab(v, 2), "swab16"); EQ(bfdev_fswab32(v), r_swab(v, 4), "swab32"); EQ(bfdev_fswab64(v), r_swab(v, 8), "swab64");
    EQ(bfdev_swahb32(v), r_grp((uint32_t)v, 32, 8), "swahb32"); EQ(bfdev_swahw32(v), r_grp((uint32_t)v, 32, 16), "swahw32"); EQ(bfdev_swahb64(v), r_grp(v, 64, 8), "swahb64"); EQ(bfdev_swahw64(v), r_grp(v, 64, 16), "swahw64"); EQ(bfdev_swahl64(v), r_grp(v, 64, 32), "swahl64");
    EQ(bfdev_swahb32_const(v), r_grp((uint32_t)v, 32, 8), "swahb32"); EQ(bfdev_swahw32_const(v), r_grp((uint32_t)v, 32, 16), "swahw32"); EQ(bfdev_swahb64_const(v), r_grp(v, 64, 8), "swahb64"); EQ(bfdev_swahw64_const(v), r_grp(v, 64, 16), "swahw64"); EQ(bfdev_swahl64_const(v), r_grp(v, 64, 32), "swahl64");
    { uint16_t a = v, a1 = v; uint32_t b = v, b1 = v; uint64_t d = v, d1 = v; ul e = v;
      EQ(bfdev_swab16p(&a), r_swab(v, 2), "swab16p"); EQ(bfdev_swab32p(&b), r_swab(v, 4), "swab32p"); EQ(bfdev_swab64p(&d), r_swab(v, 8), "swab64p"); EQ(bfdev_swabp(&e), r_swab(v, 8), "swabp");
      EQ(bfdev_swahb32p(&b), r_grp(b, 32, 8), "swahb32p"); EQ(bfdev_swahw32p(&b), r_grp(b, 32, 16), "swahw32p"); EQ(bfdev_swahb64p(&d), r_grp(v, 64, 8), "swahb64p"); EQ(bfdev_swahw64p(&d), r_grp(v, 64, 16), "swahw64p"); EQ(bfdev_swahl64p(&d), r_grp(v, 64, 32), "swahl64p");
      EQ(bfdev_cpu_to_le16p(&a), (uint16_t)v, "le16p"); EQ(bfdev_cpu_to_le32p(&b), (uint32_t)v, "le32p"); EQ(bfdev_cpu_to_le64p(&d), v, "le64p"); EQ(bfdev_cpu_to_be16p(&a), r_swab(v, 2), "be16p"); EQ(bfdev_cpu_to_be32p(&b), r_swab(v, 4), "be32p"); EQ(bfdev_cpu_to_be64p(&d), r_swab(v, 8), "be64p");
      bfdev_swab16s(&a); EQ(a, r_swab(v, 2), "swab16s"); bfdev_swab32s(&b); EQ(b, r_swab(v, 4), "swab32s"); bfdev_swab64s(&d); EQ(d, r_swab(v, 8), "swab64s"); bfdev_swabs(&e); EQ(e, r_swab(v, 8), "swabs");
      b = b1; bfdev_swahb32s(&b); EQ(b, r_grp(b1, 32, 8), "swahb32s"); b = b1; bfdev_swahw32s(&b); EQ(b, r_grp(b1, 32, 16), "swahw32s"); d = d1; bfdev_swahb64s(&d); EQ(d, r_grp(v, 64, 8), "swahb64s"); d = d1; bfdev_swahw64s(&d); EQ(d, r_grp(v, 64, 16), "swahw64s"); d = d1; bfdev_swahl64s(&d); EQ(d, r_grp(v, 64, 32), "swahl64s");
      a = a1; bfdev_cpu_to_be16s(&a); EQ(a, r_swab(v, 2), "be16s"); bfdev_be16_to_cpus(&a); EQ(a, (uint16_t)v, "be16s"); b = b1; bfdev_cpu_to_be32s(&b); EQ(b, r_swab(v, 4), "be32s"); bfdev_be32_to_cpus(&b); EQ(b, (uint32_t)v, "be32s"); d = d1; bfdev_cpu_to_be64s(&d); EQ(d, r_swab(v, 8), "be64s"); bfdev_be64_to_cpus(&d); EQ(d, v, "be64s");
      bfdev_cpu_to_le16s(&a); bfdev_le32_to_cpus(&b); EQ(a, (uint16_t)v, "le16s"); EQ(b, (uint32_t)v, "le32s"); }
    EQ(bfdev_cpu_to_le16(v), (uint16_t)v, "le16"); EQ(bfdev_cpu_to_le32(v), (uint32_t)v, "le32"); EQ(bfdev_cpu_to_le64(v), v, "le64"); EQ(bfdev_le16_to_cpu(v), (uint16_t)v, "le16"); EQ(bfdev_le32_to_cpu(v), (uint32_t)v, "le32"); EQ(bfdev_le64_to_cpu(v), v, "le64");
    EQ(bfdev_cpu_to_be16(v), r_swab(v, 2), "be16"); EQ(bfdev_cpu_to_be32(v), r_swab(v, 4), "be32"); EQ(bfdev_cpu_to_be64(v), r_swab(v, 8), "be64"); EQ(bfdev_be16_to_cpu(v), r_swab(v, 2), "be16"); EQ(bfdev_be32_to_cpu(v), r_swab(v, 4), "be32"); EQ(bfdev_be64_to_cpu(v), r_swab(v, 8), "be64");
    EQ(bfdev_cpu_to_be16_const(v), r_swab(v, 2), "be16"); EQ(bfdev_cpu_to_be32_const(v), r_swab(v, 4), "be32"); EQ(bfdev_cpu_to_be64_const(v), r_swab(v, 8), "be64"); EQ(bfdev_be16_to_cpu_const(v), r_swab(v, 2), "be16"); EQ(bfdev_be32_to_cpu_const(v), r_swab(v, 4), "be32"); EQ(bfdev_be64_to_cpu_const(v), r_swab(v, 8), "be64");
    EQ(bfdev_htons_const(v), r_swab(v, 2), "htons"); EQ(bfdev_htonl_const(v), r_swab(v, 4), "htonl"); EQ(bfdev_ntohs_const(v), r_swab(v, 2), "ntohs"); EQ(bfdev_ntohl_const(v), r_swab(v, 4), "ntohl");
    EQ(bfdev_cpu_to_le_long(v), v, "le_long"); EQ(bfdev_cpu_to_be_long(v), r_swab(v, 8), "be_long"); EQ(bfdev_le_long_to_cpu(v), v, "le_long"); EQ(bfdev_be_long_to_cpu(v), r_swab(v, 8), "be_long");
    /* logs and powers */
    { uint32_t w = v; EQ(bfdev_ilog2(v), v < 2 ? 0 : l, "ilog2"); EQ(bfdev_ilog2(w), w < 2 ? 0 : r_last(w), "ilog2"); EQ(bfdev_ilog2_dynamic(v), v < 2 ? 0 : l, "ilog2"); EQ(bfdev_ilog2_64_dynamic(v), v < 2 ? 0 : l, "ilog2");
      EQ(bfdev_pow2_check(v), c == 1, "pow2_check"); EQ(bfdev_pow2_rounddown(v), v < 2 ? v : 1ULL << l, "pow2_rounddown"); if (v <= 1ULL << 63) EQ(bfdev_pow2_roundup(v), v < 2 ? v : c == 1 ? v : 2ULL << l, "pow2_roundup"); }
    /* masks */
    { unsigned n = 1 + vf_below(64), lo = vf_below(64), hi = lo + vf_below(64 - lo); uint64_t m = 0; for (unsigned i = 0; i < n; i++) m |= 1ULL << i; EQ(BFDEV_BIT_LOW_MASK(n), m, "low_mask"); m = 0; for (unsigned i = n & 63; i < 64; i++) m |= 1ULL << i; EQ(BFDEV_BIT_HIGH_MASK(n & 63), m, "high_mask"); m = 0; for (unsigned i = lo; i <= hi; i++) m |= 1ULL << i; EQ(BFDEV_BIT_RANGE(hi, lo), m, "range"); EQ(BFDEV_BIT_RANGE_ULL(hi, lo), m, "range"); EQ(BFDEV_BIT(n), 1ULL << (n % 64), "bit"); EQ(BFDEV_BIT_ULL(n), 1ULL << (n % 64), "bit"); EQ(BFDEV_BIT_SHIFT(lo, v), v << lo, "bit_shift"); EQ(BFDEV_BIT_SHIFT_ULL(lo, v), v << lo, "bit_shift"); }
    /* rotation */
    { unsigned s = vf_chance(1, 4) ? (unsigned)vf_edge64() : vf_below(70);
#define ROT(W) { uint##W##_t x = v, wl = 0, wr = 0; for (int i = 0; i < W; i++) if (x >> i & 1) { wl |= (uint##W##_t)((uint##W##_t)1 << ((i + s) % W)); wr |= (uint##W##_t)((uint##W##_t)1 << ((i + W - s % W) % W)); } EQ(bfdev_rol##W(x, s), wl, "rol" #W); EQ(bfdev_ror##W(x, s), wr, "ror" #W); }
      ROT(8) ROT(16) ROT(32) ROT(64) }
    VF_EV("bits.word"); vf_obs(v);
}
static void scn_word(void) { for (int i = 0; i < 12; i++) word(vf_edge64()); }
static uint64_t v;
/* literal operands take the constant-expression forms */
#define ONE(L) v = L; \
    EQ(bfdev_ilog2(L), L < 2 ? 0 : r_last(L), "const-ilog2"); EQ(bfdev_ilog2_const(L), L < 2 ? 0 : r_last(L), "const-ilog2_const"); EQ(bfdev_pow2_rounddown(L), L < 2 ? L : 1ULL << r_last(L), "const-rounddown"); EQ(bfdev_pow2_roundup((L <= 1ULL << 63 ? L : 1)), L < 2 || L > 1ULL << 63 ? (L > 1ULL << 63 ? 1 : L) : r_cnt(L) == 1 ? L : 2ULL << (r_last(L) & 63), "const-roundup"); \
    EQ(bfdev_popcount64(L), r_cnt(L), "const-popcount"); EQ(bfdev_popcount32((uint32_t)L), r_cnt((uint32_t)L), "const-popcount"); EQ(bfdev_popcount16((uint16_t)L), r_cnt((uint16_t)L), "const-popcount"); EQ(bfdev_popcount8((uint8_t)L), r_cnt((uint8_t)L), "const-popcount"); EQ(bfdev_popparity64(L), r_cnt(L) & 1, "const-parity"); EQ(bfdev_popparity32((uint32_t)L), r_cnt((uint32_t)L) & 1, "const-parity"); EQ(bfdev_popparity16((uint16_t)L), r_cnt((uint16_t)L) & 1, "const-parity"); EQ(bfdev_popparity8((uint8_t)L), r_cnt((uint8_t)L) & 1, "const-parity"); \
    EQ((uint8_t)bfdev_bitrev8(L), r_rev(L, 8), "const-bitrev8"); EQ((uint16_t)bfdev_bitrev16(L), r_rev(L, 16), "const-bitrev16"); EQ(bfdev_bitrev32(L), r_rev(L, 32), "const-bitrev32"); EQ(bfdev_bitrev64(L), r_rev(L, 64), "const-bitrev64"); \
    EQ(bfdev_swab16(L), r_swab(L, 2), "const-swab"); EQ(bfdev_swab32(L), r_swab(L, 4), "const-swab"); EQ(bfdev_swab64(L), r_swab(L, 8), "const-swab"); EQ(bfdev_swahb32(L), r_grp((uint32_t)L, 32, 8), "const-swahb"); EQ(bfdev_swahw32(L), r_grp((uint32_t)L, 32, 16), "const-swahw"); EQ(bfdev_swahb64(L), r_grp(L, 64, 8), "const-swahb"); EQ(bfdev_swahw64(L), r_grp(L, 64, 16), "const-swahw"); EQ(bfdev_swahl64(L), r_grp(L, 64, 32), "const-swahl"); \
    EQ(bfdev_cpu_to_be32(L), r_swab(L, 4), "const-be"); EQ(bfdev_ffs(L), L ? r_first(L) + 1 : 0, "const-ffs"); EQ(bfdev_fls(L), L ? r_last(L) + 1 : 0, "const-fls");
static void scn_lits(void) { LITS(ONE) VF_EV("bits.literals"); vf_obs(vf_rand()); vf_obs(1); }
/* single-bit updates */
typedef struct { int pad; ul flags[2]; } fs_t;
BFDEV_BITFLAGS(plain5, 5)
BFDEV_BITFLAGS_ATOMIC(atom9, 9)
BFDEV_BITFLAGS_STRUCT(st70, fs_t, flags[0], 70)
BFDEV_BITFLAGS_STRUCT_ATOMIC(sa3, fs_t, flags[0], 3)
static void scn_single(void)
{
    unsigned words = 1 + vf_below(4), n = words * 64; ul *m = vf_xmalloc(words * 8); unsigned char *ref = vf_xmalloc(n);
    for (unsigned i = 0; i < words; i++) m[i] = vf_edge64();
    for (unsigned i = 0; i < n; i++) ref[i] = m[i / 64] >> (i % 64) & 1;
    for (int k = 0; k < 40; k++) {
        unsigned b = vf_chance(1, 4) ? 64 * vf_below(words) + (vf_chance(1, 2) ? 63 : 0) : vf_below(n); int order = vf_below(3), op = vf_below(9); bool at = vf_chance(1, 2), val = vf_chance(1, 2), old, got = false, has = op >= 4; unsigned p = order == 2 ? b ^ 56 : b;
        old = ref[p]; vf_op("bit op %d bit %u order %d atomic %d val %d", op, b, order, at, val);
#define DO(fn, ...) (order == 0 ? (at ? bfdev_bit_atomic_##fn(m, b, ##__VA_ARGS__) : bfdev_bit_##fn(m, b, ##__VA_ARGS__)) : order == 1 ? (at ? bfdev_bit_atomic_##fn##_le(m, b, ##__VA_ARGS__) : bfdev_bit_##fn##_le(m, b, ##__VA_ARGS__)) : (at ? bfdev_bit_atomic_##fn##_be(m, b, ##__VA_ARGS__) : bfdev_bit_##fn##_be(m, b, ##__VA_ARGS__)))
        switch (op) {
        case 0: DO(clr); ref[p] = 0; break; case 1: DO(set); ref[p] = 1; break; case 2: DO(flip); ref[p] ^= 1; break; case 3: DO(change, val); ref[p] = val; break;
        case 4: got = DO(test); break; case 5: got = DO(test_clr); ref[p] = 0; break; case 6: got = DO(test_set); ref[p] = 1; break; case 7: got = DO(test_flip); ref[p] ^= 1; break;
        case 8: if (order == 1) { got = at ? bfdev_bit_atomic_test_change_le(m, b, val) : bfdev_bit_test_change(m, b, val); } else if (order == 0) got = at ? bfdev_bit_atomic_test_change(m, b, val) : bfdev_bit_test_change(m, b, val); else got = at ? bfdev_bit_atomic_test_change_be(m, b, val) : bfdev_bit_test_change_be(m, b, val); ref[p] = val; break;
        }
        if (has) VF_EQ(got, old, "bit-old");
        for (unsigned i = 0; i < n; i++) VF_CHECK((m[i / 64] >> (i % 64) & 1) == ref[i], "bit-update", "operation %d on bit %u order %d atomic %d: bit %u wrong", op, b, order, at, i);
        VF_EV("bits.single"); vf_obs(op << 16 | b);
    }
    { ul w = vf_rand(), w0; fs_t s; bool o;
#define FL(name, P, W, B) w0 = W; o = w0 >> B & 1; VF_EQ(name##_test(P), o, "flag-test"); VF_EQ(name##_test_flip(P), o, "flag"); VF_EQ(W, w0 ^ 1UL << B, "flag"); VF_EQ(name##_test_set(P), !o, "flag"); VF_EQ(W, w0 | 1UL << B, "flag"); VF_EQ(name##_test_clr(P), true, "flag"); VF_EQ(W, w0 & ~(1UL << B), "flag"); name##_set(P); VF_EQ(W, w0 | 1UL << B, "flag"); name##_flip(P); VF_EQ(W, w0 & ~(1UL << B), "flag"); name##_set(P); name##_clr(P); VF_EQ(W, w0 & ~(1UL << B), "flag");
      FL(plain5, &w, w, 5) FL(atom9, &w, w, 9) s.flags[0] = vf_rand(); s.flags[1] = vf_rand(); FL(st70, &s, s.flags[1], 6) FL(sa3, &s, s.flags[0], 3) VF_EV("bits.flags"); }
    free(m); free(ref);
}
#define FIELD(T, W) { T lo = vf_below(W), len = 1 + vf_below(W - lo); T mask = 0, reg = vf_edge64(), val = vf_chance(1, 2) ? vf_edge64() : vf_below(1ULL << (len > 40 ? 40 : len)); uint64_t mx; \
    for (unsigned i = 0; i < len; i++) mask |= (T)((T)1 << (lo + i)); mx = len == 64 ? ~0ULL : (1ULL << len) - 1; \
    VF_EQ(BFDEV_FIELD_GET(mask, reg), (reg >> lo) & mx, "field-get"); VF_EQ(BFDEV_FIELD_MAX(mask), mx, "field-max"); VF_EQ(BFDEV_FIELD_PREP(mask, val), (T)((T)((T)(val & mx) << lo)), "field-prep"); VF_EQ(BFDEV_FIELD_FIT(mask, val), val <= mx, "field-fit"); \
    VF_EQ(BFDEV_FIELD_GET(mask, (T)((reg & ~mask) | BFDEV_FIELD_PREP(mask, val))), val & mx, "field-roundtrip"); VF_EV("bits.field"); vf_obs(mask); vf_obs(val); }
#define ALIGN(TV, TA) { TA a = (TA)1 << vf_below(sizeof(TA) * 8 - ((TA)-1 < 0)); TV x = vf_edge64(); if ((TV)-1 < 0) { /* keep within range */ if (x < 0) x = -(x / 2); } \
    unsigned __int128 X = (unsigned __int128)(uint64_t)x, A = (unsigned __int128)(uint64_t)a, lo = X / A * A, hi = (X + A - 1) / A * A; uint64_t tmax = (TV)-1 < 0 ? (uint64_t)((TV)((1ULL << (sizeof(TV) * 8 - 1)) - 1)) : (uint64_t)(TV)-1; \
    VF_EQ((uint64_t)bfdev_align_low(x, a), (uint64_t)lo, "align-low"); VF_EQ(bfdev_align_check(x, a), X % A == 0, "align-check"); if (hi <= tmax && hi <= 0x7fffffff) VF_EQ((uint64_t)bfdev_align_high(x, a), (uint64_t)hi, "align-high"); else if (hi <= tmax && sizeof(TV) == 8 && A <= tmax / 4 && (uint64_t)x <= tmax - (uint64_t)a) VF_EQ((uint64_t)bfdev_align_high(x, a), (uint64_t)hi, "align-high"); \
    { TV y = x; bfdev_align_low_adj(y, a); VF_EQ((uint64_t)y, (uint64_t)lo, "align-adj"); } VF_EV("bits.align"); vf_obs(x); vf_obs(a); }
static void scn_misc(void)
{
    FIELD(uint8_t, 8) FIELD(uint16_t, 16) FIELD(uint32_t, 32) FIELD(uint64_t, 64) FIELD(ul, 64)
    ALIGN(uint64_t, uint64_t) ALIGN(uint64_t, uint32_t) ALIGN(uint32_t, uint32_t) ALIGN(uint64_t, int) ALIGN(uint64_t, uint16_t) ALIGN(size_t, unsigned) ALIGN(int, int) ALIGN(uint16_t, int)
    { ul a = 1UL << vf_below(40), p = vf_edge64() >> 4; char *q = (char *)p; VF_EQ((ul)bfdev_align_ptr_low(q, a), p / a * a, "align-ptr"); VF_EQ((ul)bfdev_align_ptr_high(q, a), (p + a - 1) / a * a, "align-ptr"); VF_EQ(bfdev_align_ptr_check(q, a), p % a == 0, "align-ptr"); bfdev_align_ptr_high_adj(q, a); VF_EQ((ul)q, (p + a - 1) / a * a, "align-ptr"); q = (char *)p; bfdev_align_ptr_low_adj(q, a); VF_EQ((ul)q, p / a * a, "align-ptr"); }
    /* BCD: every value */
    { unsigned b = vf_below(100), bcd = (b / 10) << 4 | b % 10; VF_EQ(bfdev_bin2bcd(OPQ(b)), bcd, "bin2bcd"); VF_EQ(bfdev_bcd2bin(OPQ(bcd)), b, "bcd2bin"); VF_EQ(bfdev_bin2bcd_const(b), bcd, "bin2bcd"); VF_EQ(bfdev_bcd2bin_const(bcd), b, "bcd2bin"); VF_EQ(bfdev_bin2bcd_dynamic(b), bcd, "bin2bcd"); VF_EQ(bfdev_bcd2bin_dynamic(bcd), b, "bcd2bin"); VF_EV("bits.bcd"); }
    /* unaligned access at every offset of an exact-size block */
    for (int sz = 2; sz <= 8; sz *= 2) {
        unsigned off = vf_below(9); unsigned char *m = vf_xmalloc(off + sz), *p = m + off; uint64_t x = vf_rand(), le = 0, be = 0; for (int i = 0; i < off + sz; i++) m[i] = vf_rand();
        for (int i = 0; i < sz; i++) { le |= (uint64_t)p[i] << (8 * i); be = be << 8 | p[i]; }
#define UA(B) VF_EQ(bfdev_unaligned_get_u##B(p), le, "unaligned-get"); VF_EQ(bfdev_unaligned_get_le##B(p), le, "unaligned-le"); VF_EQ(bfdev_unaligned_get_be##B(p), be, "unaligned-be"); \
        { uint##B##_t y; unsigned char pre[16]; memcpy(pre, m, off); bfdev_unaligned_set_u##B(p, x); y = x; VF_CHECK(!memcmp(p, &y, sz), "unaligned-set", "store"); memset(p, ~p[0], sz); bfdev_unaligned_set_le##B(p, x); for (int i = 0; i < sz; i++) VF_EQ(p[i], x >> (8 * i) & 255, "unaligned-set-le"); memset(p, ~p[0], sz); bfdev_unaligned_set_be##B(p, x); for (int i = 0; i < sz; i++) VF_EQ(p[i], x >> (8 * (sz - 1 - i)) & 255, "unaligned-set-be"); VF_CHECK(!memcmp(pre, m, off), "unaligned-before", "bytes before changed"); }
        if (sz == 2) { UA(16) } else if (sz == 4) { UA(32) memset(p, ~(int)x, sz); bfdev_unaligned_set_uint(p, x); VF_EQ(bfdev_unaligned_get_uint(p), (unsigned)x, "unaligned-uint"); } else { UA(64) memset(p, ~(int)x, sz); bfdev_unaligned_set_ulong(p, x); VF_EQ(bfdev_unaligned_get_ulong(p), x, "unaligned-ulong"); }
        VF_EV("bits.unaligned"); vf_obs(off << 8 | sz); free(m);
    }
    /* arrays */
    { unsigned n = vf_below(9); uint16_t *a = vf_xmalloc(2 * n), *a0; uint32_t *b = vf_xmalloc(4 * n), *b0; uint64_t *c = vf_xmalloc(8 * n), *c0; for (unsigned i = 0; i < n; i++) a[i] = vf_rand(), b[i] = vf_rand(), c[i] = vf_rand(); a0 = vf_dup(a, 2 * n); b0 = vf_dup(b, 4 * n); c0 = vf_dup(c, 8 * n);
      bfdev_swab16_array(a, n); bfdev_swab32_array(b, n); bfdev_swab64_array(c, n); for (unsigned i = 0; i < n; i++) { VF_EQ(a[i], r_swab(a0[i], 2), "swab-array"); VF_EQ(b[i], r_swab(b0[i], 4), "swab-array"); VF_EQ(c[i], r_swab(c0[i], 8), "swab-array"); }
      bfdev_swab_array((ul *)c, n); VF_CHECK(!memcmp(c, c0, 8 * n), "swab-array", "double swap"); bfdev_cpu_to_le16_array(a, a0, n); bfdev_cpu_to_le32_array(b, b0, n); bfdev_le64_to_cpu_array(c, c0, n); VF_CHECK(!memcmp(a, a0, 2 * n) && !memcmp(b, b0, 4 * n) && !memcmp(c, c0, 8 * n), "le-array", "little-endian copy"); memset(c, 0, 8 * n); bfdev_cpu_to_le_long_array((ul *)c, (ul *)c0, n); VF_CHECK(!memcmp(c, c0, 8 * n), "le-array", "long copy"); memset(c, 0, 8 * n); bfdev_le_long_to_cpu_array((ul *)c, (ul *)c0, n); VF_CHECK(!memcmp(c, c0, 8 * n), "le-array", "long copy");
      memset(a, 0, 2 * n); bfdev_le16_to_cpu_array(a, a0, n); memset(b, 0, 4 * n); bfdev_le32_to_cpu_array(b, b0, n); memset(c, 0, 8 * n); bfdev_cpu_to_le64_array(c, c0, n); VF_CHECK(!memcmp(a, a0, 2 * n) && !memcmp(b, b0, 4 * n) && !memcmp(c, c0, 8 * n), "le-array", "little-endian copy");
      free(a); free(b); free(c); free(a0); free(b0); free(c0); }
}
VF_SCENARIOS({ "word", scn_word, 4 }, { "single", scn_single, 2 }, { "misc", scn_misc, 4 }, { "lits", scn_lits, 1 });
