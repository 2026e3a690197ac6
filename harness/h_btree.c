/* C08: B+tree against an ordered-map model (keys enumerate in descending order). */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/btree.h>

#define KL 3
typedef struct { uintptr_t k[KL]; void *v; } kv_t;
static kv_t *m; static size_t mn; static unsigned kl;      /* model, descending */
static int kc(const uintptr_t *a, const uintptr_t *b) { for (unsigned i = 0; i < kl; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static size_t pos(const uintptr_t *k) { size_t i = 0; while (i < mn && kc(m[i].k, k) > 0) i++; return i; }
static bool at(size_t i, const uintptr_t *k) { return i < mn && !kc(m[i].k, k); }
static unsigned long ops_clash, ops_remove; static void *clash_seen[2]; static bool veto; static void *removed_seen;
static int clash_cb(bfdev_btree_root_t *r, void *old, void *nw) { ops_clash++; clash_seen[0] = old; clash_seen[1] = nw; return -77; }
static void *remove_cb(bfdev_btree_root_t *r, void *v) { ops_remove++; removed_seen = v; return veto ? (void *)&veto : NULL; }
static const bfdev_btree_ops_t ops0 = { bfdev_btree_alloc, bfdev_btree_free, bfdev_btree_key_find, NULL, NULL };
static const bfdev_btree_ops_t ops1 = { bfdev_btree_alloc, bfdev_btree_free, bfdev_btree_key_find, clash_cb, remove_cb };
static unsigned long nrel; static bool *live;
static kv_t *relm; static size_t relpos;
static void rel_cb(void *v, void *pd) { VF_PEQ(pd, &nrel, "release-data"); VF_CHECK(relpos < mn, "release", "released more values than stored"); VF_PEQ(v, m[relpos].v, "release-order"); relpos++; nrel++; }
/* key buffers live on the heap with exact size */
static uintptr_t *kb[4];
static uintptr_t *K(int i, const uintptr_t *src) { memcpy(kb[i], src, kl * sizeof(uintptr_t)); return kb[i]; }
static void EXPECT(size_t i, const void *v, const uintptr_t *k, const char *key)
{
    VF_CHECK(i < mn, key, "enumeration too long");
    VF_PEQ(v, m[i].v, key); VF_CHECK(!kc(k, m[i].k), key, "wrong key reported");
}

static void walk(bfdev_btree_root_t *r)
{
    uintptr_t *k = kb[0], *t = kb[1]; void *v, *tv; size_t i = 0, s = mn ? vf_below(mn) : 0; int how = vf_below(12);
    vf_op("walk %d", how);
    switch (how) {
    case 0: bfdev_btree_for_each(r, k, v) { EXPECT(i, v, k, "walk"); i++; } VF_EQ(i, mn, "walk-count"); break;
    case 1: bfdev_btree_for_each_reverse(r, k, v) { i++; EXPECT(mn - i, v, k, "walk-reverse"); } VF_EQ(i, mn, "walk-reverse-count"); break;
    case 2: bfdev_btree_for_each_safe(r, k, v, t, tv) { EXPECT(i, v, k, "walk-safe"); i++; } VF_EQ(i, mn, "walk-safe-count"); break;
    case 3: bfdev_btree_for_each_reverse_safe(r, k, v, t, tv) { i++; EXPECT(mn - i, v, k, "walk-reverse-safe"); } VF_EQ(i, mn, "walk-reverse-safe-count"); break;
    case 4: if (!mn) break; K(0, m[s].k); v = m[s].v; i = s; bfdev_btree_for_each_from(r, k, v) { EXPECT(i, v, k, "walk-from"); i++; } VF_EQ(i, mn, "walk-from-count"); break;
    case 5: if (!mn) break; K(0, m[s].k); v = m[s].v; i = s + 1; bfdev_btree_for_each_reverse_from(r, k, v) { i--; EXPECT(i, v, k, "walk-reverse-from"); } VF_EQ(i, 0, "walk-reverse-from-count"); break;
    case 6: if (!mn) break; K(0, m[s].k); i = s + 1; bfdev_btree_for_each_continue(r, k, v) { EXPECT(i, v, k, "walk-continue"); i++; } VF_EQ(i, mn, "walk-continue-count"); break;
    case 7: if (!mn) break; K(0, m[s].k); i = s; bfdev_btree_for_each_reverse_continue(r, k, v) { i--; EXPECT(i, v, k, "walk-reverse-continue"); } VF_EQ(i, 0, "walk-reverse-continue-count"); break;
    case 8: if (!mn) break; K(0, m[s].k); i = s + 1; bfdev_btree_for_each_continue_safe(r, k, v, t, tv) { EXPECT(i, v, k, "walk-continue-safe"); i++; } VF_EQ(i, mn, "walk-continue-safe-count"); break;
    case 9: if (!mn) break; K(0, m[s].k); i = s; bfdev_btree_for_each_reverse_continue_safe(r, k, v, t, tv) { i--; EXPECT(i, v, k, "walk-reverse-continue-safe"); } VF_EQ(i, 0, "walk-reverse-continue-safe-count"); break;
    case 10: if (!mn) break; K(0, m[s].k); v = m[s].v; i = s; bfdev_btree_for_each_from_safe(r, k, v, t, tv) { EXPECT(i, v, k, "walk-from-safe"); i++; } VF_EQ(i, mn, "walk-from-safe-count"); break;
    case 11: if (!mn) break; K(0, m[s].k); v = m[s].v; i = s + 1; bfdev_btree_for_each_reverse_from_safe(r, k, v, t, tv) { i--; EXPECT(i, v, k, "walk-reverse-from-safe"); } VF_EQ(i, 0, "walk-reverse-from-safe-count"); break;
    }
    VF_EV("btree.walk");
}
static void ends(bfdev_btree_root_t *r)
{
    void *v;
    v = bfdev_btree_first(r, kb[0]); if (mn) EXPECT(0, v, kb[0], "first"); else VF_PEQ(v, NULL, "first-empty");
    v = bfdev_btree_last(r, kb[0]); if (mn) EXPECT(mn - 1, v, kb[0], "last"); else VF_PEQ(v, NULL, "last-empty");
}
static void gen(uintptr_t *k, int pat, unsigned long span, unsigned long *seq)
{
    for (unsigned i = 0; i < kl; i++) switch (pat) {
        case 0: k[i] = vf_below(span); break;
        case 1: k[i] = vf_chance(1, 2) ? vf_below(3) : ~0UL - vf_below(3); if (vf_chance(1, 2)) k[i] = vf_edge64(); break;
        case 2: k[i] = i + 1 == kl ? (*seq)++ : 0; break;
        case 3: k[i] = i + 1 == kl ? 1000000 - (*seq)++ : 0; break;
        default: k[i] = vf_rand();
    }
}
static void run(bool big)
{
    static bfdev_btree_layout_t cust; bfdev_btree_layout_t *lay; vf_alloc_t A; bfdev_btree_root_t r; unsigned long seq = 0, span; int pat; size_t cap; int ops; bool hooks = vf_chance(1, 3), useal = vf_chance(3, 4);
    vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A);
    switch (vf_below(6)) {
    case 0: lay = &bfdev_btree_layout32; break; case 1: lay = &bfdev_btree_layout64; break; case 2: lay = &bfdev_btree_layoutptr; break;
    default: cust.keylen = 1 + vf_below(KL); cust.keynum = 2 + vf_below(8); cust.ptrindex = cust.keylen * cust.keynum; cust.nodesize = (cust.keylen + 1) * cust.keynum * sizeof(uintptr_t); lay = &cust; VF_EV("btree.custom_layout"); break;
    }
    kl = lay->keylen; for (int i = 0; i < 4; i++) kb[i] = vf_xmalloc(kl * sizeof(uintptr_t));
    if (vf_chance(1, 2)) bfdev_btree_init(&r, lay, (bfdev_btree_ops_t *)(hooks ? &ops1 : &ops0), NULL); else r = BFDEV_BTREE_INIT(lay, hooks ? &ops1 : &ops0, NULL);
    r.alloc = useal ? &al : NULL;
    cap = big ? 300 + vf_below(vf_deep ? 3000 : 700) : 1 + vf_below(60); ops = cap * 4 + 6; span = vf_chance(1, 2) ? cap : 1 + vf_below(8); pat = vf_below(5); mn = 0; m = vf_xmalloc((cap + 1) * sizeof(*m));
    vf_op("layout keylen %u keynum %u cap %zu pat %d", lay->keylen, lay->keynum, cap, pat);
    for (int op = 0; op < ops; op++) {
        int grow = (op / (int)cap) % 2 == 0 ? 6 : 3, c = vf_below(10); uintptr_t k[KL]; size_t i; void *v, *got; int ret;
        if (c < grow && mn < cap) {
            gen(k, pat, span, &seq); i = pos(k); v = (void *)(uintptr_t)(vf_rand() | 1);
            vf_op("insert %lx", (long)k[kl - 1]); ops_clash = 0;
            ret = bfdev_btree_insert(&r, K(2, k), v);
            VF_CHECK(!kc(kb[2], k), "key-untouched", "caller's key was modified");
            if (at(i, k)) {
                VF_EV("btree.duplicate");
                if (hooks) { VF_EQ(ret, -77, "clash-result"); VF_EQ(ops_clash, 1, "clash-called"); VF_PEQ(clash_seen[0], m[i].v, "clash-old"); VF_PEQ(clash_seen[1], v, "clash-new"); }
                else VF_EQ(ret, -BFDEV_EALREADY, "duplicate-result");
            } else {
                VF_EQ(ret, 0, "insert-result"); VF_EV("btree.insert");
                memmove(m + i + 1, m + i, (mn - i) * sizeof(*m)); memcpy(m[i].k, k, sizeof k); m[i].v = v; mn++;
            }
            if (vf_chance(1, 30)) { ret = bfdev_btree_insert(&r, K(2, k), NULL); VF_EQ(ret, -BFDEV_EINVAL, "insert-null"); }
        } else if (c < 8) {
            if (mn && vf_chance(3, 4)) memcpy(k, m[vf_chance(1, 4) ? 0 : vf_chance(1, 4) ? mn - 1 : vf_below(mn)].k, sizeof k); else { unsigned long z = vf_below(2000); gen(k, vf_chance(1, 3) ? 1 : pat, span, &z); if (vf_chance(1, 4)) memset(k, 0, sizeof k); if (mn && vf_chance(1, 4)) { memcpy(k, m[mn - 1].k, sizeof k); if (k[kl - 1]) k[kl - 1]--; } }
            i = pos(k); vf_op("remove %lx %s", (long)k[kl - 1], at(i, k) ? "present" : "absent"); ops_remove = 0; veto = vf_chance(1, 10);
            got = bfdev_btree_remove(&r, K(2, k));
            VF_CHECK(!kc(kb[2], k), "key-untouched", "caller's key was modified");
            if (!at(i, k)) { VF_PEQ(got, NULL, "remove-absent"); VF_EQ(ops_remove, 0, "remove-absent-callback"); VF_EV("btree.remove_absent"); }
            else {
                if (hooks) { VF_EQ(ops_remove, 1, "remove-callback"); VF_PEQ(removed_seen, m[i].v, "remove-callback"); }
                if (hooks && veto) { VF_PEQ(got, &veto, "remove-veto"); VF_EV("btree.veto"); }
                else { VF_PEQ(got, m[i].v, "remove-result"); memmove(m + i, m + i + 1, (mn - i - 1) * sizeof(*m)); mn--; VF_EV("btree.remove"); if (!mn) VF_EV("btree.emptied"); }
            }
        } else if (c == 8) {
            bool pr = mn && vf_chance(1, 2); unsigned long z = vf_below(2000);
            if (pr) memcpy(k, m[vf_below(mn)].k, sizeof k); else { gen(k, vf_chance(1, 3) ? 1 : pat, span, &z); if (vf_chance(1, 4)) memset(k, 0, sizeof k); }
            i = pos(k); v = (void *)(uintptr_t)(vf_rand() | 1); vf_op("update %lx", (long)k[kl - 1]);
            ret = bfdev_btree_update(&r, K(2, k), v); VF_EV("btree.update");
            VF_EQ(ret, at(i, k) ? 0 : -BFDEV_ENOENT, at(i, k) ? "update" : "update-absent"); if (at(i, k)) m[i].v = v;
        } else if (mn) {
            size_t s = vf_below(mn); K(0, m[s].k); v = bfdev_btree_next(&r, kb[0]); if (s + 1 < mn) EXPECT(s + 1, v, kb[0], "next"); else VF_PEQ(v, NULL, "next-end");
            s = vf_below(mn); K(0, m[s].k); v = bfdev_btree_prev(&r, kb[0]); if (s) EXPECT(s - 1, v, kb[0], "prev"); else VF_PEQ(v, NULL, "prev-end"); VF_EV("btree.step");
        }
        for (int q = 0; q < 3; q++) {
            unsigned long z = vf_below(2000);
            if (mn && vf_chance(1, 2)) memcpy(k, m[vf_below(mn)].k, sizeof k); else { gen(k, vf_chance(1, 3) ? 1 : pat, span, &z); if (vf_chance(1, 5)) memset(k, 0, sizeof k); }
            i = pos(k); vf_op("lookup %lx", (long)k[kl - 1]); got = bfdev_btree_lookup(&r, K(2, k)); VF_PEQ(got, at(i, k) ? m[i].v : NULL, at(i, k) ? "lookup" : "lookup-absent"); VF_EV("btree.lookup");
        }
        if (!big || vf_chance(1, 20)) { ends(&r); walk(&r); }
        if (vf_chance(1, 6)) { vf_obs(mn); if (mn) vf_obs(m[0].k[0] ^ (m[mn - 1].k[0] << 1) ^ r.height << 8); }
        if (r.height >= 3) VF_EV("btree.height3");
        if (vf_chance(1, 200)) {
            bool cb = vf_chance(1, 2); vf_op("release"); nrel = 0; relpos = 0; veto = false;
            bfdev_btree_release(&r, cb ? rel_cb : NULL, &nrel); VF_EV("btree.release"); if (cb) VF_EQ(nrel, mn, "release-count"); mn = 0;
            if (useal) VF_EQ(A.live, 0, "release-leak"); ends(&r);
        }
    }
    if (vf_chance(1, 3)) { /* empty it by a safe walk with removal */
        uintptr_t *k = kb[0], *t = kb[1]; void *v, *tv; size_t i = 0; bool rev = vf_chance(1, 2); veto = false;
        if (rev) { size_t n = mn; bfdev_btree_for_each_reverse_safe(&r, k, v, t, tv) { i++; VF_CHECK(i <= n, "drain", "too long"); VF_PEQ(v, m[n - i].v, "drain"); VF_PEQ(bfdev_btree_remove(&r, K(2, k)), v, "drain-remove"); } VF_EQ(i, n, "drain-count"); }
        else { bfdev_btree_for_each_safe(&r, k, v, t, tv) { VF_CHECK(i < mn, "drain", "too long"); VF_PEQ(v, m[i].v, "drain"); i++; VF_PEQ(bfdev_btree_remove(&r, K(2, k)), v, "drain-remove"); } VF_EQ(i, mn, "drain-count"); }
        mn = 0; VF_EV("btree.drain"); ends(&r);
    }
    veto = false; nrel = 0; relpos = 0; vf_obs(mn); vf_obs(A.allocs);
    bfdev_btree_release(&r, rel_cb, &nrel); VF_EQ(nrel, mn, "release-count"); mn = 0; ends(&r);
    vfa_done(&A, "release-leak"); for (int i = 0; i < 4; i++) free(kb[i]); free(m);
}
static void scn_small(void) { run(false); }
static void scn_big(void) { run(true); }
VF_SCENARIOS({ "btree", scn_small, 10 }, { "btree_big", scn_big, 1 });
