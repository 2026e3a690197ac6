/* C33: atomic operations, atomic bits and reference counts under threads. */
#include "vf.h"
#include "vf_thread.h"
#include <bfdev/atomic.h>
#include <bfdev/cmpxchg.h>
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/bitflags.h>
#include <bfdev/refcount.h>

enum { OPS = 400 };
static int nthr(void) { return 2 + vf_below(5); }
static int ops;
/* ---- every value-returning operation is one step of a single chain of values ---- */
typedef struct { bfdev_atomic_t from, to; bool failed; } edge_t;
static edge_t ed[VT_MAX][OPS]; static int en[VT_MAX]; static bfdev_atomic_t var; static bfdev_atomic_t salt;
static void th_chain(int id)
{
    for (int i = 0; i < ops; i++) {
        edge_t *e = &ed[id][en[id]++]; bfdev_atomic_t u = (bfdev_atomic_t)(((uint64_t)salt << 24) + id * OPS + i + 1), o; e->failed = false; vt_delay();
        switch (vt_below(11)) {
        case 9: e->from = bfdev_atomic_fetch_xor(&var, u); e->to = e->from ^ u; break;
        case 10: e->to = bfdev_atomic_xor_fetch(&var, u); e->from = e->to ^ u; break;
        case 0: e->from = bfdev_atomic_fetch_add(&var, u); e->to = e->from + u; break;
        case 1: e->to = bfdev_atomic_add_fetch(&var, u); e->from = e->to - u; break;
        case 2: e->from = bfdev_atomic_fetch_sub(&var, u); e->to = e->from - u; break;
        case 3: e->to = bfdev_atomic_sub_fetch(&var, u); e->from = e->to + u; break;
        case 4: case 5: e->from = bfdev_xchg(&var, u); e->to = u; break;
        case 6: o = bfdev_atomic_read(&var); vt_delay(); e->from = bfdev_cmpxchg(&var, o, u); e->to = u; e->failed = e->from != o; break;
        case 7: o = bfdev_atomic_read(&var); do { e->from = o; vt_delay(); } while (!bfdev_try_cmpxchg(&var, &o, u)); e->to = u; if (o != e->from) vf_fail("try-cmpxchg", "a successful try_cmpxchg changed the expected value"); break;
        default: o = bfdev_atomic_read(&var); e->from = o; vt_delay(); e->failed = !bfdev_try_cmpxchg(&var, &o, u); if (!e->failed && o != e->from) vf_fail("try-cmpxchg", "a successful try_cmpxchg changed the expected value"); if (e->failed && o == e->from) vf_fail("try-cmpxchg", "a failed try_cmpxchg reports the value expected"); e->from = o; e->to = u;
        }
    }
}
typedef struct { bfdev_atomic_t v; int in, out, up; } node_t;
static int ncmp(const void *a, const void *b) { bfdev_atomic_t x = ((const node_t *)a)->v, y = ((const node_t *)b)->v; return x < y ? -1 : x > y; }
static node_t *node(node_t *t, int n, bfdev_atomic_t v) { node_t k = { v }; return bsearch(&k, t, n, sizeof *t, ncmp); }
static int root(node_t *t, int i) { while (t[i].up != i) i = t[i].up = t[t[i].up].up; return i; }
static void check_chain(int n, bfdev_atomic_t init, bfdev_atomic_t fin)
{
    static node_t t[VT_MAX * OPS * 2 + 2]; int m = 0, k = 0, edges = 0, fails = 0, first = -1;
    t[m++].v = init; t[m++].v = fin;
    for (int i = 0; i < n; i++) for (int j = 0; j < en[i]; j++) if (!ed[i][j].failed) { t[m++].v = ed[i][j].from; t[m++].v = ed[i][j].to; }
    for (int i = 0; i < m; i++) t[i].in = t[i].out = 0;
    qsort(t, m, sizeof *t, ncmp); for (int i = 0; i < m; i++) if (!k || t[k - 1].v != t[i].v) t[k++] = t[i];
    for (int i = 0; i < k; i++) t[i].up = i;
    for (int i = 0; i < n; i++) for (int j = 0; j < en[i]; j++) if (!ed[i][j].failed) { node_t *a = node(t, k, ed[i][j].from), *b = node(t, k, ed[i][j].to); a->out++; b->in++; t[root(t, a - t)].up = root(t, b - t); edges++; }
    for (int i = 0; i < k; i++) {
        int want = (t[i].v == init) - (t[i].v == fin);
        VF_CHECK(t[i].out - t[i].in == want, "lost-update", "value %#lx was reached %d times and left %d times: updates are not one chain", (long)t[i].v, t[i].in, t[i].out);
        if (edges) { if (first < 0) first = root(t, i); VF_CHECK(root(t, i) == first, "lost-update", "the updates fall into separate chains"); }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < en[i]; j++) if (ed[i][j].failed) { VF_CHECK(node(t, k, ed[i][j].from), "cmpxchg-value", "a failed compare-exchange reports %#lx, which was never there", (long)ed[i][j].from); fails++; }
    /* how the threads took turns */
    int sw = 0, who = -1; bfdev_atomic_t v = init; uint64_t sig = 0; (void)v;
    for (int i = 0; i < n; i++) for (int j = 0; j < en[i]; j++) if (!ed[i][j].failed) { bool own = j && !ed[i][j - 1].failed && ed[i][j - 1].to == ed[i][j].from; if (!own) { sw++; sig = vf_mix64(sig ^ (i * 1000003ULL + j)); } }
    (void)who; VF_EVN("threads.chain_steps", edges); VF_EVN("threads.cas_failed", fails); VF_EVN("threads.handovers", sw); vf_obs(sig); vf_obs(fails);
}
static void scn_chain(void)
{
    int n = nthr(); bfdev_atomic_t init = (bfdev_atomic_t)(vf_edge64() >> 8); ops = 20 + vf_below(OPS - 20); salt = vf_rand() & 0xffff;
    memset(en, 0, sizeof en); bfdev_atomic_write(&var, init); vf_op("%d threads of %d operations", n, ops); vt_run(n, th_chain); check_chain(n, init, bfdev_atomic_read(&var));
}
/* ---- sums, and what a reader may see ---- */
static bfdev_atomic_t ctr[2]; static long long sum[VT_MAX]; static bool upward; static unsigned long seen[VT_MAX];
static void th_sum(int id)
{
    bfdev_atomic_t last = 0; bool have = false; long long s = 0;
    for (int i = 0; i < ops; i++) {
        bfdev_atomic_t v = 1 + vt_below(1000), r; vt_delay();
        if (upward && !(vt_rand() & 3)) { r = bfdev_atomic_read(&ctr[0]); if (have && r < last) vf_fail("backwards", "a counter that only grows was read as %ld after %ld", (long)r, (long)last); last = r; have = true; seen[id]++; continue; }
        switch (vt_below(upward ? 3 : 6)) {
        case 0: bfdev_atomic_add(&ctr[0], v); s += v; break;
        case 1: r = bfdev_atomic_fetch_add(&ctr[0], v); s += v; if (upward && have && r < last) vf_fail("backwards", "fetch_add went backwards"); last = r; have = true; break;
        case 2: r = bfdev_atomic_add_fetch(&ctr[0], v); s += v; if (upward && have && r < last + v) vf_fail("backwards", "add_fetch went backwards"); last = r; have = true; break;
        case 3: bfdev_atomic_sub(&ctr[0], v); s -= v; break;
        case 4: bfdev_atomic_fetch_sub(&ctr[0], v); s -= v; break;
        default: bfdev_atomic_sub_fetch(&ctr[0], v); s -= v;
        }
    }
    sum[id] = s;
}
static void scn_sum(void)
{
    int n = nthr(); long long t = 0; upward = vf_chance(1, 2); ops = 50 + vf_below(1000); ctr[0] = ctr[1] = 0; memset(seen, 0, sizeof seen); vt_run(n, th_sum);
    for (int i = 0; i < n; i++) { t += sum[i]; VF_EVN("threads.reads", seen[i]); }
    VF_EQ(bfdev_atomic_read(&ctr[0]), t, "sum"); VF_EQ(ctr[1], 0, "neighbour"); vf_obs(t); vf_obs(n); VF_EVN("threads.sum_steps", n * ops);
}
/* ---- disjoint bits of shared words: each thread is sequential on its own ---- */
static unsigned long word[4]; static unsigned char owner[256]; static bool bval[256]; static int nbits; static unsigned long mask[VT_MAX][2];
static void th_bits(int id)
{
    unsigned char mine[256]; int k = 0; unsigned long st[2] = { 0, 0 };
    for (int b = 0; b < nbits; b++) if (owner[b] == id) { mine[k++] = b; }
    for (int i = 0; i < 2; i++) st[i] = word[i] & 0;
    for (int b = 0; b < k; b++) if (bval[mine[b]]) st[mine[b] / 64] |= 1UL << mine[b] % 64;
    if (!k) return;
    for (int i = 0; i < ops; i++) {
        int b = mine[vt_below(k)], w = b / 64, how = vt_below(26); unsigned long m = 1UL << b % 64, sub = mask[id][w] & vt_rand(), old = st[w], r = 0, want = 0; bfdev_atomic_t *a = (bfdev_atomic_t *)&word[w]; bool v = vt_rand() & 1, cmp = true; vt_delay();
        /* the number of this bit in little- and big-endian numbering */
        unsigned le = b ^ BFDEV_BITOPS_LE_SWIZZLE, be = b ^ BFDEV_BITOPS_BE_SWIZZLE;
        switch (how) {
        case 0: bfdev_bit_atomic_set(word, b); st[w] |= m; cmp = false; break;
        case 1: bfdev_bit_atomic_clr(word, b); st[w] &= ~m; cmp = false; break;
        case 2: bfdev_bit_atomic_flip(word, b); st[w] ^= m; cmp = false; break;
        case 3: bfdev_bit_atomic_change(word, b, v); st[w] = v ? st[w] | m : st[w] & ~m; cmp = false; break;
        case 4: r = bfdev_bit_atomic_test(word, b); want = !!(old & m); break;
        case 5: r = bfdev_bit_atomic_test_set(word, b); st[w] |= m; want = !!(old & m); break;
        case 6: r = bfdev_bit_atomic_test_clr(word, b); st[w] &= ~m; want = !!(old & m); break;
        case 7: r = bfdev_bit_atomic_test_flip(word, b); st[w] ^= m; want = !!(old & m); break;
        case 8: r = bfdev_bit_atomic_test_change(word, b, v); st[w] = v ? st[w] | m : st[w] & ~m; want = !!(old & m); break;
        case 9: bfdev_atomic_or(a, sub); st[w] |= sub; cmp = false; break;
        case 10: bfdev_atomic_and(a, ~sub); st[w] &= ~sub; cmp = false; break;
        case 11: bfdev_atomic_xor(a, sub); st[w] ^= sub; cmp = false; break;
        case 12: r = bfdev_atomic_fetch_or(a, sub) & mask[id][w]; st[w] |= sub; want = old; break;
        case 13: r = bfdev_atomic_fetch_and(a, ~sub) & mask[id][w]; st[w] &= ~sub; want = old; break;
        case 14: r = bfdev_atomic_fetch_xor(a, sub) & mask[id][w]; st[w] ^= sub; want = old; break;
        case 15: r = bfdev_atomic_or_fetch(a, sub) & mask[id][w]; st[w] |= sub; want = st[w]; break;
        case 16: r = bfdev_atomic_and_fetch(a, ~sub) & mask[id][w]; st[w] &= ~sub; want = st[w]; break;
        case 17: r = bfdev_atomic_xor_fetch(a, sub) & mask[id][w]; st[w] ^= sub; want = st[w]; break;
        case 18: r = bfdev_bit_atomic_test_set_le(word, le); st[w] |= m; want = !!(old & m); break;
        case 19: r = bfdev_bit_atomic_test_clr_be(word, be); st[w] &= ~m; want = !!(old & m); break;
        case 20: bfdev_bit_atomic_flip_be(word, be); st[w] ^= m; cmp = false; break;
        case 21: bfdev_bit_atomic_set_le(word, le); st[w] |= m; cmp = false; break;
        case 22: bfdev_bit_atomic_clr_be(word, be); st[w] &= ~m; cmp = false; break;
        case 23: r = bfdev_bit_atomic_test_change_le(word, le, v); st[w] = v ? st[w] | m : st[w] & ~m; want = !!(old & m); break;
        case 24: r = bfdev_bit_atomic_test_be(word, be); want = !!(old & m); break;
        default: r = bfdev_bit_atomic_test_flip_le(word, le); st[w] ^= m; want = !!(old & m);
        }
        if (cmp && r != want) vf_fail("own-bits", "operation %d of thread %d on bit %d: got %#lx want %#lx", how, id, b, r, want);
    }
    for (int b = 0; b < k; b++) bval[mine[b]] = st[mine[b] / 64] >> mine[b] % 64 & 1;
}
static void scn_bits(void)
{
    int n = nthr(); nbits = vf_chance(1, 2) ? 128 : 64; ops = 50 + vf_below(1000); memset(mask, 0, sizeof mask); memset(word, 0, sizeof word); uint64_t h = 0;
    for (int b = 0; b < nbits; b++) { owner[b] = vf_below(n); bval[b] = vf_chance(1, 2); if (bval[b]) word[b / 64] |= 1UL << b % 64; mask[owner[b]][b / 64] |= 1UL << b % 64; }
    word[2] = 0x1234; vt_run(n, th_bits);
    for (int b = 0; b < nbits; b++) { VF_CHECK((word[b / 64] >> b % 64 & 1) == bval[b], "final-bits", "bit %d of thread %d ends as %d", b, owner[b], !bval[b]); h = h * 3 + bval[b]; }
    VF_EQ(word[2], 0x1234, "neighbour"); VF_EVN("threads.bit_steps", n * ops); vf_obs(h); vf_obs(n);
}
/* ---- contended bits: test-and-set elects one winner ---- */
static long in_cs, cs_count[8]; static unsigned long entered[VT_MAX], lost[VT_MAX]; static int lockbit[8], nlocks, flagbits;
BFDEV_BITFLAGS(lf, 5)
static void th_lock(int id)
{
    for (int i = 0; i < ops; i++) {
        int l = vt_below(nlocks), b = lockbit[l]; bool got, rel = vt_rand() & 1; vt_delay();
        switch (vt_below(3)) { case 0: got = !bfdev_bit_atomic_test_set(word, b); break; case 1: got = !bfdev_bit_atomic_test_set_le(word, b ^ BFDEV_BITOPS_LE_SWIZZLE); break; default: got = !bfdev_bit_atomic_test_change(word, b, true); }
        if (!got) { lost[id]++; continue; }
        cs_count[l]++; entered[id]++; vt_delay();      /* plain: only the winner is here */
        if (rel) { if (!bfdev_bit_atomic_test_clr(word, b)) vf_fail("lock-lost", "the bit a thread had won was cleared by another"); } else bfdev_bit_atomic_clr(word, b);
    }
}
static void scn_lock(void)
{
    int n = nthr(); unsigned long e = 0, lo = 0; long c = 0; nlocks = 1 + vf_below(3); ops = 50 + vf_below(800); memset(entered, 0, sizeof entered); memset(lost, 0, sizeof lost); memset(cs_count, 0, sizeof cs_count); word[0] = word[1] = 0;
    for (int i = 0; i < nlocks; i++) lockbit[i] = i * 20 + vf_below(20) + (vf_chance(1, 2) ? 64 : 0);
    vt_run(n, th_lock); for (int i = 0; i < n; i++) { e += entered[i]; lo += lost[i]; } for (int i = 0; i < nlocks; i++) c += cs_count[i];
    VF_EQ(c, e, "mutual-exclusion"); VF_EQ(word[0] | word[1], 0, "lock-left"); VF_EVN("threads.lock_won", e); VF_EVN("threads.lock_lost", lo); vf_obs(e); vf_obs(lo);
}
/* ---- contended bits: every change of a bit is seen by exactly the operation that made it ---- */
static long ups[VT_MAX][8], downs[VT_MAX][8];
static void th_turns(int id)
{
    for (int i = 0; i < ops; i++) {
        int l = vt_below(nlocks), b = lockbit[l], w = b / 64, old, now; unsigned long m = 1UL << b % 64; unsigned le = b ^ BFDEV_BITOPS_LE_SWIZZLE, be = b ^ BFDEV_BITOPS_BE_SWIZZLE; bool v = vt_rand() & 1; bfdev_atomic_t *a = (bfdev_atomic_t *)&word[w]; vt_delay();
        switch (vt_below(16)) {
        case 0: old = bfdev_bit_atomic_test_set(word, b); now = 1; break;
        case 1: old = bfdev_bit_atomic_test_clr(word, b); now = 0; break;
        case 2: old = bfdev_bit_atomic_test_flip(word, b); now = !old; break;
        case 3: old = bfdev_bit_atomic_test_change(word, b, v); now = v; break;
        case 4: old = bfdev_bit_atomic_test_set_le(word, le); now = 1; break;
        case 5: old = bfdev_bit_atomic_test_clr_le(word, le); now = 0; break;
        case 6: old = bfdev_bit_atomic_test_flip_le(word, le); now = !old; break;
        case 7: old = bfdev_bit_atomic_test_change_le(word, le, v); now = v; break;
        case 8: old = bfdev_bit_atomic_test_set_be(word, be); now = 1; break;
        case 9: old = bfdev_bit_atomic_test_clr_be(word, be); now = 0; break;
        case 10: old = bfdev_bit_atomic_test_flip_be(word, be); now = !old; break;
        case 11: old = bfdev_bit_atomic_test_change_be(word, be, v); now = v; break;
        case 12: old = !!(bfdev_atomic_fetch_or(a, m) & m); now = 1; break;
        case 13: old = !!(bfdev_atomic_fetch_and(a, ~m) & m); now = 0; break;
        case 14: old = !!(bfdev_atomic_fetch_xor(a, m) & m); now = !old; break;
        default: now = !!(bfdev_atomic_xor_fetch(a, m) & m); old = !now;
        }
        if (now && !old) ups[id][l]++; if (old && !now) downs[id][l]++;
    }
}
static void scn_turns(void)
{
    int n = nthr(); nlocks = 1 + vf_below(3); ops = 50 + vf_below(1500); memset(ups, 0, sizeof ups); memset(downs, 0, sizeof downs); bool first[8]; word[0] = word[1] = 0;
    for (int i = 0; i < nlocks; i++) { lockbit[i] = i * 20 + vf_below(20) + (vf_chance(1, 2) ? 64 : 0); first[i] = vf_chance(1, 2); if (first[i]) word[lockbit[i] / 64] |= 1UL << lockbit[i] % 64; }
    vt_run(n, th_turns);
    for (int i = 0; i < nlocks; i++) {
        long u = 0, d = 0; for (int t = 0; t < n; t++) { u += ups[t][i]; d += downs[t][i]; } bool last = word[lockbit[i] / 64] >> lockbit[i] % 64 & 1; word[lockbit[i] / 64] &= ~(1UL << lockbit[i] % 64);
        VF_CHECK(u - d == (long)last - first[i], "turns", "%ld operations saw themselves set the bit and %ld clear it, from %d to %d", u, d, first[i], last); VF_EVN("threads.turns", u + d); vf_obs(u); vf_obs(d);
    }
    VF_EQ(word[0] | word[1], 0, "neighbour");
}
/* ---- reference counts ---- */
typedef struct { bfdev_refcnt_t ref; int payload[4]; int dead; } obj_t;
static obj_t *obj; static int drops_to_zero[VT_MAX], revived[VT_MAX], refused[VT_MAX], start[VT_MAX];
static void th_ref(int id)
{
    int held = start[id], use = 0; bfdev_atomic_t old;
    for (int i = 0; i < ops || held; i++) {
        bool zero = false; vt_delay();
        if (held && i < ops) { if (__atomic_load_n(&obj->dead, __ATOMIC_RELAXED)) vf_fail("used-after-zero", "the object died while thread %d held %d references", id, held); use += obj->payload[id & 3]; }
        if (!held) {     /* no reference: only a conditional increment may take one */
            bool isz; int k = vt_below(4), nr = 1;
            switch (k) { case 0: isz = bfdev_refcnt_incnz_test(&obj->ref); break; case 1: isz = bfdev_refcnt_fetch_incnz_test(&obj->ref, &old); if (isz != !old) vf_fail("incnz-old", "old %ld, result %d", (long)old, isz); break; case 2: nr = 2; isz = bfdev_refcnt_addnz_test(&obj->ref, 2); break; default: bfdev_refcnt_fetch_incnz(&obj->ref, &old); isz = !old; }
            if (isz) { refused[id]++; if (i > ops) break; continue; }
            held += nr; revived[id]++; if (__atomic_load_n(&obj->dead, __ATOMIC_RELAXED)) vf_fail("revived", "a conditional increment succeeded on a dead object"); continue;
        }
        int op = i >= ops ? 3 : vt_below(9), nr = held > 2 ? 1 + vt_below(held) : 1;
        switch (op) {
        case 0: bfdev_refcnt_inc(&obj->ref); held++; break;
        case 1: bfdev_refcnt_fetch_inc(&obj->ref, &old); held++; if (old < 1) vf_fail("inc-old", "old count %ld while a reference was held", (long)old); break;
        case 2: bfdev_refcnt_add(&obj->ref, 3); held += 3; break;
        case 3: held--; zero = bfdev_refcnt_dec_test(&obj->ref); break;
        case 4: held--; zero = bfdev_refcnt_fetch_dec_test(&obj->ref, &old); if (zero != (old == 1)) vf_fail("dec-old", "old count %ld, reported %d", (long)old, zero); break;
        case 5: held -= nr; zero = bfdev_refcnt_sub_test(&obj->ref, nr); break;
        case 6: if (bfdev_refcnt_incnz_test(&obj->ref)) vf_fail("incnz-live", "a conditional increment failed while a reference was held"); held++; break;
        case 7: if (bfdev_refcnt_get(&obj->ref) < held) vf_fail("get", "count below the references this thread holds"); break;
        default: held--; bfdev_refcnt_fetch_dec(&obj->ref, &old); zero = old == 1;
        }
        if (zero) { drops_to_zero[id]++; for (int k = 0; k < 4; k++) obj->payload[k] = -1; __atomic_store_n(&obj->dead, 1, __ATOMIC_RELAXED); if (held) vf_fail("zero-early", "zero was reported while %d references were held", held); }
    }
    (void)use;
}
static void scn_ref(void)
{
    int n = nthr(), tot = 0, z = 0, rv = 0, rf = 0; obj = vf_xcalloc(sizeof *obj); obj->ref = BFDEV_REFCNT_INIT; ops = vf_chance(1, 2) ? 3 + vf_below(20) : 20 + vf_below(300);
    memset(drops_to_zero, 0, sizeof drops_to_zero); memset(revived, 0, sizeof revived); memset(refused, 0, sizeof refused);
    for (int i = 0; i < n; i++) { start[i] = vf_chance(1, 3) ? 0 : 1 + vf_below(3); tot += start[i]; } if (!tot) { start[0] = 1; tot = 1; }
    bfdev_refcnt_set(&obj->ref, tot); vt_run(n, th_ref);
    for (int i = 0; i < n; i++) { z += drops_to_zero[i]; rv += revived[i]; rf += refused[i]; }
    VF_EQ(z, 1, "zero-once"); VF_EQ(bfdev_refcnt_get(&obj->ref), 0, "final-count"); VF_CHECK(bfdev_refcnt_incnz_test(&obj->ref) && bfdev_refcnt_get(&obj->ref) == 0, "revive-zero", "a count of zero was revived");
    VF_EV("threads.ref_zero"); VF_EVN("threads.ref_revived", rv); VF_EVN("threads.ref_refused", rf); vf_obs(rv); vf_obs(rf); vf_obs(n); free(obj);
}
/* ---- every update of a word sets (or clears, or flips) one more bit: the results name their own order ---- */
enum { WORDS = 300 }; static unsigned long lw[WORDS], lres[WORDS][64]; static unsigned char lown[64], lhow; static int nw;
static void th_ladder(int id)
{
    for (int w = 0; w < nw; w++) for (int b = 0; b < 64; b++) if (lown[b] == id) {
        bfdev_atomic_t *a = (bfdev_atomic_t *)&lw[w]; unsigned long m = 1UL << b, r; if (!(vt_rand() & 15)) vt_delay();
        switch (lhow) {
        case 0: r = bfdev_atomic_or_fetch(a, m); break;
        case 1: r = bfdev_atomic_fetch_or(a, m) | m; break;
        case 2: r = ~bfdev_atomic_and_fetch(a, ~m); break;
        case 3: r = ~bfdev_atomic_fetch_and(a, ~m) | m; break;
        case 4: r = bfdev_atomic_xor_fetch(a, m); break;
        case 5: r = bfdev_atomic_fetch_xor(a, m) ^ m; break;
        case 6: r = bfdev_atomic_add_fetch(a, m); break;
        default: r = ~bfdev_atomic_sub_fetch(a, m);
        }
        lres[w][b] = r;
    }
}
static void scn_ladder(void)
{
    int n = nthr(); bool inv; lhow = vf_below(8); nw = 20 + vf_below(WORDS - 20); inv = lhow == 2 || lhow == 3 || lhow == 7; uint64_t sig = 0;
    for (int b = 0; b < 64; b++) lown[b] = vf_below(n); for (int w = 0; w < nw; w++) lw[w] = inv ? ~0UL : 0;
    vf_op("%d threads, %d words, operation %d", n, nw, lhow); vt_run(n, th_ladder);
    for (int w = 0; w < nw; w++) {
        unsigned char at[65] = { 0 }; VF_EQ(lw[w], inv ? 0 : ~0UL, "ladder-final"); int sw = 0, who = -1; unsigned char seq[65];
        for (int b = 0; b < 64; b++) { unsigned long r = lres[w][b]; int c = __builtin_popcountl(r); VF_CHECK(r >> b & 1, "ladder-own", "the result %#lx of an update lacks the update itself (bit %d)", r, b); VF_CHECK(!at[c], "ladder-order", "two updates both report being number %d", c); at[c] = 1; seq[c] = b; }
        for (int c = 2; c <= 64; c++) { VF_CHECK(lres[w][seq[c]] == (lres[w][seq[c - 1]] | 1UL << seq[c]), "ladder-order", "update %d reports %#lx after %#lx", c, lres[w][seq[c]], lres[w][seq[c - 1]]); if (lown[seq[c]] != who) { who = lown[seq[c]]; sw++; sig = vf_mix64(sig ^ (c * 64 + who)); } }
        VF_EVN("threads.ladder_steps", 64); VF_EVN("threads.ladder_handovers", sw);
    }
    vf_obs(sig);
}
VF_SCENARIOS({ "chain", scn_chain, 3 }, { "sum", scn_sum, 1 }, { "bits", scn_bits, 2 }, { "lock", scn_lock, 1 }, { "turns", scn_turns, 1 }, { "ladder", scn_ladder, 2 }, { "refcount", scn_ref, 3 });
