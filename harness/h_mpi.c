/* C22: big integers against an independent base-2^32 reference; histories over a small set of
 * variables with every aliasing of destination and operands. */
#include "vf.h"
#include <bfdev/mpi.h>

#define RMAX 1024
typedef struct { int n; bool neg; uint32_t d[RMAX]; } ref_t;

static void r_trim(ref_t *r) { while (r->n && !r->d[r->n - 1]) r->n--; if (!r->n) r->neg = false; }
static int r_cmpabs(const ref_t *a, const ref_t *b)
{
    if (a->n != b->n) return a->n < b->n ? -1 : 1;
    for (int i = a->n; i--;) if (a->d[i] != b->d[i]) return a->d[i] < b->d[i] ? -1 : 1;
    return 0;
}
static int r_cmp(const ref_t *a, const ref_t *b)
{
    if (a->neg != b->neg) return a->neg ? -1 : 1;
    return a->neg ? -r_cmpabs(a, b) : r_cmpabs(a, b);
}
static void r_addabs(ref_t *o, const ref_t *a, const ref_t *b)
{
    ref_t t; uint64_t c = 0; int n = a->n > b->n ? a->n : b->n;
    for (int i = 0; i < n; i++) {
        c += (uint64_t)(i < a->n ? a->d[i] : 0) + (i < b->n ? b->d[i] : 0);
        t.d[i] = (uint32_t)c; c >>= 32;
    }
    t.d[n] = (uint32_t)c; t.n = n + 1; t.neg = false; r_trim(&t);
    memcpy(o->d, t.d, t.n * 4); o->n = t.n;
}
static void r_subabs(ref_t *o, const ref_t *a, const ref_t *b) /* |a| >= |b| */
{
    int64_t c = 0; int n = a->n; ref_t t;
    for (int i = 0; i < n; i++) {
        c += (int64_t)a->d[i] - (i < b->n ? b->d[i] : 0);
        t.d[i] = (uint32_t)c; c >>= 32;
    }
    t.n = n; t.neg = false; r_trim(&t);
    memcpy(o->d, t.d, t.n * 4); o->n = t.n;
}
static void r_add(ref_t *o, const ref_t *a, const ref_t *b, bool bneg)
{
    if (a->neg == bneg) { bool s = a->neg; r_addabs(o, a, b); o->neg = s; }
    else if (r_cmpabs(a, b) >= 0) { bool s = a->neg; r_subabs(o, a, b); o->neg = s; }
    else { r_subabs(o, b, a); o->neg = bneg; }
    r_trim(o);
}
static void r_mul(ref_t *o, const ref_t *a, const ref_t *b)
{
    ref_t t; memset(t.d, 0, (a->n + b->n + 1) * 4);
    for (int i = 0; i < a->n; i++) {
        uint64_t c = 0;
        for (int j = 0; j < b->n; j++) {
            c += (uint64_t)a->d[i] * b->d[j] + t.d[i + j];
            t.d[i + j] = (uint32_t)c; c >>= 32;
        }
        t.d[i + b->n] = (uint32_t)c;
    }
    t.n = a->n + b->n; t.neg = a->neg != b->neg; r_trim(&t);
    memcpy(o->d, t.d, t.n * 4); o->n = t.n; o->neg = t.neg;
}
static void r_set(ref_t *o, uint64_t v) { o->n = 2; o->neg = false; o->d[0] = (uint32_t)v; o->d[1] = v >> 32; r_trim(o); }
static void r_copy(ref_t *o, const ref_t *a) { o->n = a->n; o->neg = a->neg; memmove(o->d, a->d, a->n * 4); }
static void r_shl(ref_t *o, const ref_t *a, unsigned s)
{
    ref_t t; unsigned w = s / 32, b = s % 32; uint64_t c = 0;
    memset(t.d, 0, w * 4);
    for (int i = 0; i < a->n; i++) { c |= (uint64_t)a->d[i] << b; t.d[i + w] = (uint32_t)c; c >>= 32; }
    t.d[a->n + w] = (uint32_t)c; t.n = a->n + w + 1; t.neg = a->neg; r_trim(&t);
    r_copy(o, &t);
}
static void r_shr(ref_t *o, const ref_t *a, uint64_t s)
{
    ref_t t; uint64_t w = s / 32; unsigned b = s % 32;
    t.n = 0; t.neg = a->neg;
    for (int i = 0; w < (uint64_t)a->n && i + w < (uint64_t)a->n; i++) {
        uint64_t v = a->d[i + w]; if (i + w + 1 < (uint64_t)a->n) v |= (uint64_t)a->d[i + w + 1] << 32;
        t.d[t.n++] = (uint32_t)(v >> b);
    }
    r_trim(&t); r_copy(o, &t);
}
static void r_bit(ref_t *o, const ref_t *a, const ref_t *b, int op)
{
    ref_t t; t.n = a->n > b->n ? a->n : b->n; t.neg = false;
    for (int i = 0; i < t.n; i++) {
        uint32_t x = i < a->n ? a->d[i] : 0, y = i < b->n ? b->d[i] : 0;
        t.d[i] = op == 0 ? x & y : op == 1 ? x | y : x ^ y;
    }
    r_trim(&t); r_copy(o, &t);
}

#define NV 5
static bfdev_mpi_t V[NV]; static ref_t M[NV];
static vf_alloc_t A;

static void load(const bfdev_mpi_t *v, ref_t *r)
{
    bool plus; const BFDEV_MPI_TYPE *p = bfdev_mpi_data(v, &plus); unsigned long n = bfdev_mpi_length(v);
    VF_CHECK(n * 2 < RMAX, "length", "%lu limbs", n);
    VF_CHECK(!n || p[n - 1], "normalised", "top limb of a %lu limb value is zero", n);
    VF_CHECK(n || plus, "negative-zero", "zero with a negative sign");
    VF_CHECK(n || *p == 0, "zero-data", "data of zero");
    VF_EQ(bfdev_mpi_size(v), n * sizeof(BFDEV_MPI_TYPE), "size");
    for (unsigned long i = 0; i < n; i++) { r->d[2 * i] = (uint32_t)p[i]; r->d[2 * i + 1] = p[i] >> 32; }
    r->n = 2 * n; r->neg = !plus; r_trim(r);
}
static void verify(const char *op)
{
    static ref_t r;
    for (int i = 0; i < NV; i++) {
        load(&V[i], &r);
        VF_CHECK(r.n == M[i].n && r.neg == M[i].neg && !memcmp(r.d, M[i].d, r.n * 4), op,
                 "v%d is %s%d words (low %08x), expected %s%d words (low %08x)", i, r.neg ? "-" : "", r.n, r.n ? r.d[0] : 0,
                 M[i].neg ? "-" : "", M[i].n, M[i].n ? M[i].d[0] : 0);
        vf_obs(r.n ? r.d[0] ^ ((uint64_t)r.n << 32) : r.neg);
    }
}
static uint64_t limb(void) { return vf_chance(1, 3) ? (vf_chance(1, 2) ? ~0ULL : 0) : vf_edge64(); }
static void fresh(int i, unsigned long n)
{
    BFDEV_MPI_TYPE *b = vf_xmalloc(n * 8); bool plus = vf_chance(1, 2); static ref_t r;
    int style = vf_below(5);
    for (unsigned long k = 0; k < n; k++)
        b[k] = style == 0 ? ~0ULL : style == 1 ? limb() : style == 2 ? vf_rand() : style == 3 ? (k + 1 == n ? 1ULL << vf_below(64) : 0) : vf_edge64();
    vf_op("v%d = import %lu limbs style %d %s", i, n, style, plus ? "+" : "-");
    VF_EQ(bfdev_mpi_import(&V[i], b, n, plus), 0, "import");
    r.n = 2 * n; r.neg = !plus;
    for (unsigned long k = 0; k < n; k++) { r.d[2 * k] = (uint32_t)b[k]; r.d[2 * k + 1] = b[k] >> 32; }
    r_trim(&r); r_copy(&M[i], &r); free(b);
    VF_EV("mpi.import");
}
static void check_div(const char *op, const ref_t *a, const ref_t *b, const ref_t *q, const ref_t *r)
{
    static ref_t t;
    VF_CHECK(r_cmpabs(r, b) < 0, op, "remainder not below the divisor");
    VF_CHECK(!r->n || r->neg == a->neg, op, "remainder sign differs from the dividend's");
    if (!q) return;
    r_mul(&t, q, b); r_add(&t, &t, r, r->neg);
    VF_CHECK(!r_cmp(&t, a), op, "quotient*divisor+remainder differs from the dividend");
}
static void scn_history(void)
{
    static ref_t ta, tb, tq, tr, one; unsigned maxl = vf_chance(1, 8) ? (vf_deep ? 60 : 24) : vf_chance(1, 2) ? 3 : 7;
    unsigned steps = vf_range(4, 24);
    vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); bool own = vf_chance(1, 2);
    for (int i = 0; i < NV; i++) { bfdev_mpi_init(&V[i], own ? &al : NULL); M[i].n = 0; M[i].neg = false; }
    verify("init");
    for (int i = 0; i < NV; i++) if (vf_chance(4, 5)) fresh(i, vf_below(maxl + 1));
    verify("import");
    while (steps--) {
        int d = vf_below(NV), a = vf_below(NV), b = vf_below(NV), e, op = vf_below(28); uint64_t vi = limb(); unsigned s; int rv;
        if (vf_chance(1, 3)) a = d;
        if (vf_chance(1, 3)) b = vf_chance(1, 2) ? d : a;
        if (M[d].n > 200) fresh(d, vf_below(maxl + 1));
        if (M[a].n > 200) fresh(a, vf_below(maxl + 1));
        if (M[b].n > 200) fresh(b, vf_below(maxl + 1));
        if (vf_chance(1, 6)) { vi = M[a].n ? M[a].d[0] | (uint64_t)(M[a].n > 1 ? M[a].d[1] : 0) << 32 : 0; vi += vf_range(-1, 1); }
        if (d == a || d == b) VF_EV("mpi.aliased");
        if (!M[a].n || !M[b].n) VF_EV("mpi.zero_operand");
        r_copy(&ta, &M[a]); r_copy(&tb, &M[b]);
        vf_op("op %d d=%d a=%d(%d) b=%d(%d) vi=%#llx", op, d, a, M[a].neg ? -M[a].n : M[a].n, b, M[b].neg ? -M[b].n : M[b].n, (unsigned long long)vi);
        switch (op) {
        case 0: case 1:
            r_add(&M[d], &ta, &tb, tb.neg); VF_EQ(bfdev_mpi_add(&V[d], &V[a], &V[b]), 0, "add-ret"); verify("add"); VF_EV("mpi.add"); break;
        case 2: case 3:
            r_add(&M[d], &ta, &tb, tb.n ? !tb.neg : false); VF_EQ(bfdev_mpi_sub(&V[d], &V[a], &V[b]), 0, "sub-ret"); verify("sub"); VF_EV("mpi.sub"); break;
        case 4: case 5:
            r_mul(&M[d], &ta, &tb); VF_EQ(bfdev_mpi_mul(&V[d], &V[a], &V[b]), 0, "mul-ret"); verify("mul"); VF_EV("mpi.mul"); break;
        case 6: case 7: case 8: case 9: /* quotient and remainder in two variables, either may be an operand */
            do e = vf_below(NV); while (e == d);
            if (vf_chance(1, 3)) { e = vf_chance(1, 2) ? a : b; if (e == d) e = (d + 1) % NV; }
            if (!vf_chance(1, 6)) { /* a dividend that makes the quotient digit estimate hard */
                int k = vf_below(NV); if (!M[k].n) fresh(k, 1 + vf_below(maxl + 1));
            }
            r_copy(&ta, &M[a]); r_copy(&tb, &M[b]);
            if (vf_chance(1, 6) && tb.n) { /* one variable for both results: the quotient stays */
                bfdev_mpi_t q, r; bfdev_mpi_init(&q, NULL); bfdev_mpi_init(&r, NULL);
                VF_EQ(bfdev_mpi_div(&q, &r, &V[a], &V[b]), 0, "div-ret"); load(&q, &tq); load(&r, &tr); check_div("div", &ta, &tb, &tq, &tr);
                bfdev_mpi_release(&q); bfdev_mpi_release(&r);
                VF_EQ(bfdev_mpi_div(&V[d], &V[d], &V[a], &V[b]), 0, "div-single-ret"); r_copy(&M[d], &tq); verify("div-single"); VF_EV("mpi.div_single"); break;
            }
            rv = bfdev_mpi_div(&V[d], &V[e], &V[a], &V[b]);
            if (!tb.n) { VF_CHECK(rv < 0, "div-zero", "division by zero gave %d", rv); VF_EV("mpi.div_zero"); verify("div-zero-unchanged"); break; }
            VF_EQ(rv, 0, "div-ret");
            load(&V[d], &tq); load(&V[e], &tr); check_div("div", &ta, &tb, &tq, &tr);
            r_copy(&M[d], &tq); r_copy(&M[e], &tr); verify("div"); VF_EV("mpi.div");
            if (tb.n > 2 && tq.n > 1) VF_EV("mpi.div_long");
            if (d == a || d == b || e == a || e == b) VF_EV("mpi.div_aliased");
            break;
        case 10: case 11:
            rv = bfdev_mpi_mod(&V[d], &V[a], &V[b]);
            if (!tb.n) { VF_CHECK(rv < 0, "mod-zero", "modulo zero gave %d", rv); verify("mod-zero-unchanged"); break; }
            VF_EQ(rv, 0, "mod-ret"); load(&V[d], &tr); check_div("mod", &ta, &tb, NULL, &tr);
            { /* agree with the division */
                bfdev_mpi_t q, r; bfdev_mpi_init(&q, NULL); bfdev_mpi_init(&r, NULL);
                if (d != a && d != b) {
                    VF_EQ(bfdev_mpi_div(&q, &r, &V[a], &V[b]), 0, "div-ret"); load(&q, &tq); VF_EQ(bfdev_mpi_cmp(&r, &V[d]), 0, "mod-agrees");
                    check_div("mod", &ta, &tb, &tq, &tr);
                } else {
                    bfdev_mpi_t x, y; bfdev_mpi_init(&x, NULL); bfdev_mpi_init(&y, NULL);
                    BFDEV_MPI_TYPE buf[RMAX / 2];
                    for (int k = 0; k < (ta.n + 1) / 2; k++) buf[k] = ta.d[2 * k] | (uint64_t)(2 * k + 1 < ta.n ? ta.d[2 * k + 1] : 0) << 32;
                    bfdev_mpi_import(&x, buf, (ta.n + 1) / 2, !ta.neg);
                    for (int k = 0; k < (tb.n + 1) / 2; k++) buf[k] = tb.d[2 * k] | (uint64_t)(2 * k + 1 < tb.n ? tb.d[2 * k + 1] : 0) << 32;
                    bfdev_mpi_import(&y, buf, (tb.n + 1) / 2, !tb.neg);
                    VF_EQ(bfdev_mpi_div(&q, &r, &x, &y), 0, "div-ret"); load(&q, &tq); VF_EQ(bfdev_mpi_cmp(&r, &V[d]), 0, "mod-agrees");
                    check_div("mod", &ta, &tb, &tq, &tr); bfdev_mpi_release(&x); bfdev_mpi_release(&y);
                }
                bfdev_mpi_release(&q); bfdev_mpi_release(&r);
            }
            r_copy(&M[d], &tr); verify("mod"); VF_EV("mpi.mod"); break;
        case 12: r_set(&tb, vi); r_add(&M[d], &ta, &tb, false); VF_EQ(bfdev_mpi_addi(&V[d], &V[a], vi), 0, "addi-ret"); verify("addi"); VF_EV("mpi.addi"); break;
        case 13: r_set(&tb, vi); r_add(&M[d], &ta, &tb, tb.n > 0); VF_EQ(bfdev_mpi_subi(&V[d], &V[a], vi), 0, "subi-ret"); verify("subi"); VF_EV("mpi.subi"); break;
        case 14: r_set(&tb, vi); r_mul(&M[d], &ta, &tb); VF_EQ(bfdev_mpi_muli(&V[d], &V[a], vi), 0, "muli-ret"); verify("muli"); VF_EV("mpi.muli"); break;
        case 15: case 16:
            do e = vf_below(NV); while (e == d);
            r_set(&tb, vi);
            if (vf_chance(1, 6) && vi) {
                bfdev_mpi_t q, r; bfdev_mpi_init(&q, NULL); bfdev_mpi_init(&r, NULL);
                VF_EQ(bfdev_mpi_divi(&q, &r, &V[a], vi), 0, "divi-ret"); load(&q, &tq); load(&r, &tr); check_div("divi", &ta, &tb, &tq, &tr);
                bfdev_mpi_release(&q); bfdev_mpi_release(&r);
                VF_EQ(bfdev_mpi_divi(&V[d], &V[d], &V[a], vi), 0, "divi-single-ret"); r_copy(&M[d], &tq); verify("divi-single"); VF_EV("mpi.divi_single"); break;
            }
            rv = bfdev_mpi_divi(&V[d], &V[e], &V[a], vi);
            if (!vi) { VF_CHECK(rv < 0, "divi-zero", "division by zero gave %d", rv); verify("divi-zero-unchanged"); break; }
            VF_EQ(rv, 0, "divi-ret"); load(&V[d], &tq); load(&V[e], &tr); check_div("divi", &ta, &tb, &tq, &tr);
            r_copy(&M[d], &tq); r_copy(&M[e], &tr); verify("divi"); VF_EV("mpi.divi"); break;
        case 17:
            r_set(&tb, vi); rv = bfdev_mpi_modi(&V[d], &V[a], vi);
            if (!vi) { VF_CHECK(rv < 0, "modi-zero", "modulo zero gave %d", rv); verify("modi-zero-unchanged"); break; }
            VF_EQ(rv, 0, "modi-ret"); load(&V[d], &tr); check_div("modi", &ta, &tb, NULL, &tr);
            { unsigned __int128 m = 0; for (int k = ta.n; k--;) m = ((m << 32) | ta.d[k]) % vi; r_set(&tq, (uint64_t)m); VF_EQ(r_cmpabs(&tq, &tr), 0, "modi"); }
            r_copy(&M[d], &tr); verify("modi"); VF_EV("mpi.modi"); break;
        case 18: case 19: case 20:
            r_bit(&M[d], &ta, &tb, op - 18);
            rv = op == 18 ? bfdev_mpi_and(&V[d], &V[a], &V[b]) : op == 19 ? bfdev_mpi_or(&V[d], &V[a], &V[b]) : bfdev_mpi_xor(&V[d], &V[a], &V[b]);
            VF_EQ(rv, 0, "bit-ret"); verify(op == 18 ? "and" : op == 19 ? "or" : "xor"); VF_EV("mpi.bitwise"); break;
        case 21:
            if (vf_chance(1, 6)) { /* a result no memory can hold is refused */
                uint64_t w = vf_chance(1, 2) ? -vf_below(130) : 1ULL << vf_range(40, 63); if (!M[a].n) { r_copy(&M[d], &M[a]); VF_EQ(bfdev_mpi_shli(&V[d], &V[a], w | 1ULL << 40), 0, "shl-huge-zero"); verify("shl-huge-zero"); break; }
                rv = bfdev_mpi_shli(&V[d], &V[a], w | 1ULL << 40); VF_CHECK(rv < 0, "shl-huge", "left shift by %#llx gave %d", (unsigned long long)w, rv); verify("shl-huge-unchanged"); VF_EV("mpi.shl_huge"); break;
            }
            s = vf_chance(1, 4) ? vf_below(4) * 64 : vf_below(vf_chance(1, 2) ? 65 : 400); if (s > 64u * maxl) s %= 129;
            r_shl(&M[d], &ta, s); VF_EQ(bfdev_mpi_shli(&V[d], &V[a], s), 0, "shl-ret"); verify("shl"); VF_EV("mpi.shl"); break;
        case 22: {
            uint64_t w = vf_chance(1, 8) ? vf_edge64() : vf_chance(1, 4) ? vf_below(8) * 64 : vf_below(64 * (maxl + 2));
            if (vf_chance(1, 8)) { w = 1ULL << vf_range(32, 63) | vf_below(700); VF_EV("mpi.shr_huge"); }
            r_shr(&M[d], &ta, w > 0xffffffffu ? 0xffffffffu : w); VF_EQ(bfdev_mpi_shri(&V[d], &V[a], w), 0, "shr-ret"); verify("shr"); VF_EV("mpi.shr"); break;
        }
        case 23:
            VF_EQ(bfdev_mpi_cmp(&V[a], &V[b]), r_cmp(&ta, &tb), "cmp");
            r_set(&tb, vi); VF_EQ(bfdev_mpi_cmpi(&V[a], vi), r_cmp(&ta, &tb), "cmpi"); verify("cmp-unchanged"); VF_EV("mpi.cmp"); break;
        case 24: {
            if (vf_chance(1, 6)) { /* far above the number, and above every number memory can hold */
                uint64_t far = 1ULL << vf_range(32, 63) | vf_below(64 * (maxl + 1)); VF_EQ(bfdev_mpi_btesti(&V[d], far), 0, "btest-far"); VF_EQ(bfdev_mpi_bclri(&V[d], far), 0, "bclr-far"); verify("bclr-far");
                VF_CHECK((rv = bfdev_mpi_bseti(&V[d], far | 1ULL << 48)) < 0, "bset-far", "setting bit %#llx gave %d", (unsigned long long)far, rv); verify("bset-far"); VF_EV("mpi.bit_far"); break;
            }
            unsigned bit = vf_below(64 * (maxl + 1)); bool was = bit / 32 < (unsigned)M[d].n && (M[d].d[bit / 32] >> (bit % 32) & 1);
            VF_EQ(bfdev_mpi_btesti(&V[d], bit), was, "btest"); r_set(&one, 1); r_shl(&one, &one, bit);
            if (vf_chance(1, 2)) { bool n = M[d].neg; r_bit(&M[d], &M[d], &one, 1); M[d].neg = n; VF_EQ(bfdev_mpi_bseti(&V[d], bit), 0, "bset-ret"); verify("bset"); }
            else { bool n = M[d].neg; if (was) r_bit(&M[d], &M[d], &one, 2); M[d].neg = n && M[d].n; VF_EQ(bfdev_mpi_bclri(&V[d], bit), 0, "bclr-ret"); verify("bclr"); }
            VF_EV("mpi.bit"); break;
        }
        case 25: r_set(&M[d], vi); VF_EQ(bfdev_mpi_seti(&V[d], vi), 0, "seti-ret"); verify("seti"); break;
        case 26: r_copy(&M[d], &ta); VF_EQ(bfdev_mpi_set(&V[d], &V[a]), 0, "set-ret"); verify("set"); break;
        case 27:
            if (vf_chance(1, 4)) { bfdev_mpi_release(&V[d]); M[d].n = 0; M[d].neg = false; verify("release"); VF_EV("mpi.release"); }
            else fresh(d, vf_below(maxl + 1));
            break;
        }
    }
    for (int i = 0; i < NV; i++) bfdev_mpi_release(&V[i]);
    if (own) vfa_done(&A, "leak");
    else { free(A.tab); }
}
/* divisions built so that the estimate of a quotient limb is too large */
static void scn_division(void)
{
    static ref_t a, b, q, r, t; unsigned nb = vf_range(2, 6), nq = vf_range(1, 5); BFDEV_MPI_TYPE bb[8], qq[8], rr[8];
    vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A);
    for (unsigned i = 0; i < nb; i++) bb[i] = limb();
    for (unsigned i = 0; i < nq; i++) qq[i] = limb();
    if (!bb[nb - 1]) bb[nb - 1] = 1ULL << vf_below(64);
    if (vf_chance(1, 3)) bb[nb - 1] |= 1ULL << 63;
    for (int i = 0; i < 4; i++) bfdev_mpi_init(&V[i], &al);
    bfdev_mpi_import(&V[0], bb, nb, vf_chance(1, 2)); bfdev_mpi_import(&V[1], qq, nq, vf_chance(1, 2));
    load(&V[0], &b); load(&V[1], &q);
    int tries = 0; do { for (unsigned i = 0; i < nb; i++) rr[i] = ++tries > 40 ? 0 : vf_chance(1, 2) ? bb[i] - vf_below(2) : limb(); rr[nb - 1] %= bb[nb - 1] + (bb[nb - 1] != ~0ULL); /* at most the divisor's top */
        r.n = 2 * nb; for (unsigned i = 0; i < nb; i++) { r.d[2 * i] = (uint32_t)rr[i]; r.d[2 * i + 1] = rr[i] >> 32; } r.neg = false; r_trim(&r);
    } while (r_cmpabs(&r, &b) >= 0);
    r_mul(&a, &q, &b); r.neg = a.n ? a.neg : false; if (!q.n) r.neg = vf_chance(1, 2);
    r_trim(&r); r_add(&a, &a, &r, r.neg);
    for (int k = 0; k < (a.n + 1) / 2; k++) rr[0] = 0;
    { BFDEV_MPI_TYPE buf[32]; for (int k = 0; k < (a.n + 1) / 2; k++) buf[k] = a.d[2 * k] | (uint64_t)(2 * k + 1 < a.n ? a.d[2 * k + 1] : 0) << 32;
      VF_EQ(bfdev_mpi_import(&V[2], buf, (a.n + 1) / 2, !a.neg), 0, "import"); }
    VF_EQ(bfdev_mpi_div(&V[1], &V[3], &V[2], &V[0]), 0, "div-ret");
    load(&V[1], &t); VF_CHECK(t.n == q.n && t.neg == q.neg && !memcmp(t.d, q.d, t.n * 4), "quotient", "wrong quotient (%d words want %d)", t.n, q.n);
    vf_obs_mem(t.d, t.n * 4);
    load(&V[3], &t); VF_CHECK(!r_cmp(&t, &r), "remainder", "wrong remainder (%d words want %d)", t.n, r.n);
    vf_obs_mem(t.d, t.n * 4);
    VF_EQ(bfdev_mpi_mod(&V[2], &V[2], &V[0]), 0, "mod-ret"); load(&V[2], &t); VF_CHECK(!r_cmp(&t, &r), "mod-remainder", "wrong remainder");
    VF_EV("mpi.hard_division");
    for (int i = 0; i < 4; i++) bfdev_mpi_release(&V[i]);
    vfa_done(&A, "leak");
}
VF_SCENARIOS({ "history", scn_history, 3 }, { "division", scn_division, 2 });
