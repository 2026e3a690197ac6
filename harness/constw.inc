/* every compile-time width the fast paths distinguish */
#define CONST_SMALL(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) \
 X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50) X(51) X(52) X(53) X(54) X(55) X(56) X(57) X(58) X(59) X(60) X(61) X(62) X(63) X(64)
#define CONST_BIG(X) X(65) X(71) X(72) X(80) X(100) X(127) X(128) X(129) X(136) X(192) X(200) X(256) X(320)
#define CONST_ALL(X) CONST_SMALL(X) CONST_BIG(X)
typedef unsigned long ul;
#define WORDS(n) (((n) + 63) / 64)
static inline bool getb(const ul *m, unsigned i) { return m[i / 64] >> (i % 64) & 1; }
static inline void putb(ul *m, unsigned i, bool v) { if (v) m[i / 64] |= 1UL << (i % 64); else m[i / 64] &= ~(1UL << (i % 64)); }
static ul rand_word(int style)
{
    switch (style) { case 0: return 0; case 1: return ~0UL; case 2: return vf_rand(); case 3: return 1UL << vf_below(64); case 4: return ~(1UL << vf_below(64)); case 5: return vf_edge64(); default: return vf_chance(1, 4) ? vf_edge64() : vf_chance(1, 2) ? 0 : ~0UL; }
}
static ul *rand_map(unsigned words, int style)
{
    ul *m = vf_xmalloc(words * sizeof(ul));
    for (unsigned i = 0; i < words; i++) m[i] = rand_word(style);
    return m;
}
