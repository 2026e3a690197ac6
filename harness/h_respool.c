/* C18: resource pools, scope guards, actions. */
#include "vf.h"
#include <bfdev/respool.h>
#include <bfdev/guards.h>
#include <bfdev/action.h>

typedef struct { bfdev_respool_node_t node; unsigned id, key; } res_t;
typedef struct { unsigned id, key; res_t *r; int style; } ent_t;
static ent_t model[300]; static size_t nm; /* [0] newest */
static unsigned *log_id; static size_t nlog; static void *want_pd; static unsigned long released, made, taken;
static unsigned char *state; /* per id: 1 live, 2 released, 3 taken back */
static void rel(bfdev_respool_node_t *n, void *pd, int style)
{
    res_t *r = (res_t *)n;
    VF_PEQ(pd, want_pd, "release-data"); VF_EQ(state[r->id], 1, "release-once"); VF_EQ(r->key % 3, style, "own-release");
    state[r->id] = 2; log_id[nlog++] = r->id; released++; memset(r, 0xdd, sizeof *r); free(r);
}
static void rel0(bfdev_respool_node_t *n, void *pd) { rel(n, pd, 0); }
static void rel1(bfdev_respool_node_t *n, void *pd) { rel(n, pd, 1); }
static void rel2(bfdev_respool_node_t *n, void *pd) { rel(n, pd, 2); }
static const bfdev_respool_release_t rels[3] = { rel0, rel1, rel2 };
struct probe { unsigned key; size_t seen; bool any; };
static long find_cb(const bfdev_respool_node_t *n, const void *d)
{
    struct probe *p = (void *)d; const res_t *r = (const res_t *)n;
    VF_CHECK(p->seen < nm && r == model[p->seen].r, "find-order", "node %zu offered to the match callback is not tracked node %zu", p->seen, p->seen);
    p->seen++; return r->key == p->key ? 0 : vf_chance(1, 2) ? 1 : -7;
}
static void drop(size_t i) { memmove(&model[i], &model[i + 1], (nm - i - 1) * sizeof *model); nm--; }
static BFDEV_DEFINE_RESPOOL(gpool);
static void verify(bfdev_respool_t *p)
{
    size_t i = 0; bfdev_respool_node_t *w;
    VF_EQ(bfdev_respool_check_empty(p), nm == 0, "empty");
    bfdev_list_for_each_entry(w, &p->nodes, list) { VF_CHECK(i < nm && (res_t *)w == model[i].r, "tracked", "pool position %zu", i); i++; }
    VF_EQ(i, nm, "count");
}
static void scn_pool(void)
{
    bfdev_respool_t *p; unsigned nkeys = 1 + vf_below(vf_chance(1, 2) ? 4 : 200), maxid = 400, ids = 0; res_t *r; int ops = 150; bool g = vf_chance(1, 8);
    nm = nlog = 0; released = made = taken = 0; log_id = vf_xmalloc(maxid * sizeof *log_id); state = vf_xcalloc(maxid);
    p = g ? &gpool : vf_xmalloc(sizeof *p); if (!g) { if (vf_chance(1, 2)) bfdev_respool_init(p); else *p = BFDEV_RESPOOL_INIT(p); }
    while (ops--) {
        size_t i, log0 = nlog; struct probe pr = { vf_below(nkeys), 0, false }; bfdev_respool_node_t *m; unsigned want = UINT_MAX; int pd;
        want_pd = vf_chance(1, 2) ? &pd : NULL;
        for (i = 0; i < nm; i++) if (model[i].key == pr.key) { want = model[i].id; break; }
        switch (vf_below(16)) {
        case 0 ... 6:
            if (ids == maxid || nm == 280) break;
            r = vf_xmalloc(sizeof *r); r->id = ids++; r->key = vf_below(nkeys); r->node.release = rels[r->key % 3]; state[r->id] = 1; made++;
            vf_op("insert %u key %u", r->id, r->key); bfdev_respool_insert(p, &r->node); memmove(&model[1], model, nm * sizeof *model); model[0] = (ent_t){ r->id, r->key, r }; nm++; VF_EV("respool.insert"); break;
        case 7: case 8:
            vf_op("find %u", pr.key); m = bfdev_respool_find(p, find_cb, &pr);
            if (want == UINT_MAX) { VF_PEQ(m, NULL, "find-absent"); VF_EQ(pr.seen, nm, "find-all"); VF_EV("respool.find_absent"); } else { VF_PEQ(m, &model[i].r->node, "find"); VF_EV("respool.find"); } break;
        case 9: case 10:
            vf_op("find_remove %u", pr.key); m = bfdev_respool_find_remove(p, find_cb, &pr);
            if (want == UINT_MAX) VF_PEQ(m, NULL, "find-remove-absent"); else { VF_PEQ(m, &model[i].r->node, "find-remove"); state[want] = 3; taken++; free(model[i].r); drop(i); VF_EV("respool.find_remove"); }
            VF_EQ(nlog, log0, "remove-no-release"); break;
        case 11: case 12:
            /* the match data is also what the release routine gets */
            vf_op("find_release %u", pr.key); want_pd = &pr; m = bfdev_respool_find_release(p, find_cb, &pr);
            if (want == UINT_MAX) { VF_PEQ(m, NULL, "find-release-absent"); VF_EQ(nlog, log0, "absent-no-release"); } else { VF_PEQ(m, &model[i].r->node, "find-release"); VF_EQ(nlog, log0 + 1, "find-release-count"); VF_EQ(log_id[log0], want, "find-release-id"); drop(i); VF_EV("respool.find_release"); } break;
        case 13:
            if (!nm) break; i = vf_below(nm); vf_op("release %u", model[i].id); want = model[i].id; bfdev_respool_release(p, &model[i].r->node, want_pd);
            VF_EQ(nlog, log0 + 1, "release-count"); VF_EQ(log_id[log0], want, "release-id"); drop(i); VF_EV("respool.release"); break;
        case 14:
            if (!nm) break; i = vf_below(nm); vf_op("remove %u", model[i].id); bfdev_respool_remove(p, &model[i].r->node); VF_EQ(nlog, log0, "remove-no-release"); state[model[i].id] = 3; taken++; free(model[i].r); drop(i); VF_EV("respool.remove"); break;
        case 15:
            if (!vf_chance(1, 6)) break;
            vf_op("release_all (%zu)", nm); bfdev_respool_release_all(p, want_pd); VF_EQ(nlog, log0 + nm, "release-all-count");
            for (i = 0; i < nm; i++) VF_EQ(log_id[log0 + i], model[i].id, "release-all-order");
            if (nm) VF_EV("respool.release_all"); nm = 0; break;
        }
        verify(p); vf_obs(nm | (uint64_t)nlog << 32);
    }
    bfdev_respool_release_all(p, want_pd); nm = 0; VF_CHECK(bfdev_respool_check_empty(p), "empty-after-all", "pool still lists resources after it was released"); VF_EQ(released + taken, made, "conservation");
    if (!g) free(p); free(log_id); free(state);
}

static int opened, closed, act_depth; static char *seq; static size_t nseq;
typedef struct { int id; } handle_t;
static handle_t *h_open(int id) { handle_t *h = vf_xmalloc(sizeof *h); h->id = id; opened++; return h; }
static void h_close(handle_t *h) { seq[nseq++] = (char)h->id; closed++; free(h); }
BFDEV_CLEAN_TEMPLATE(handle, handle_t *, if (_T) h_close(_T))
static handle_t *guarded(int exit_at, bool hand_on, int base)
{
    bfdev_clean(handle) handle_t *a = h_open(base + 1);
    if (exit_at == 0) return NULL;
    bfdev_clean(handle) handle_t *b = NULL;
    if (exit_at == 1) return NULL;
    b = h_open(base + 2);
    for (int i = 0; i < 3; i++) {
        bfdev_clean(handle) handle_t *c = h_open(base + 3 + i);
        if (exit_at == 2 + i) return NULL;
        if (i == 1) continue;
    }
    if (hand_on) bfdev_clean_return(b);
    a = bfdev_clean_lasting(b);      /* replaces a: caller's old a must be closed by hand */
    return NULL;
}
static void scn_guard(void)
{
    char want[16]; size_t nw; handle_t *got;
    seq = vf_xmalloc(200); nseq = 0; opened = closed = 0;
    for (int round = 0; round < 8; round++) {
        int e = vf_below(6); bool ho = vf_chance(1, 2); size_t s0 = nseq; int base = 10 * round, o0;
        if (e == 5 && !ho) ho = true;
        o0 = opened - closed; got = guarded(e, ho, base); nw = 0; vf_op("guard exit %d hand %d", e, ho);
        switch (e) {
        case 0: want[nw++] = base + 1; break;
        case 1: want[nw++] = base + 1; break;
        case 2: want[nw++] = base + 3; want[nw++] = base + 2; want[nw++] = base + 1; break;
        case 3: want[nw++] = base + 3; want[nw++] = base + 4; want[nw++] = base + 2; want[nw++] = base + 1; break;
        case 4: want[nw++] = base + 3; want[nw++] = base + 4; want[nw++] = base + 5; want[nw++] = base + 2; want[nw++] = base + 1; break;
        default: want[nw++] = base + 3; want[nw++] = base + 4; want[nw++] = base + 5; want[nw++] = base + 1; break;
        }
        VF_EQ(nseq - s0, nw, "guard-count"); VF_CHECK(!memcmp(seq + s0, want, nw), "guard-order", "cleanup order");
        if (e == 5) { VF_CHECK(got && got->id == base + 2, "guard-handed", "handed-on resource"); VF_EQ(opened - closed - o0, 1, "guard-open"); free(got); closed++; VF_EV("guard.handed_on"); } else { VF_PEQ(got, NULL, "guard-null"); VF_EV("guard.cleanup"); }
        vf_obs(e * 2 + ho);
    }
    VF_EQ(opened, closed, "guard-conservation"); free(seq);
}
static void *act_data; static int act_calls, act_ret, act_which;
static int act0(void *d) { act_data = d; act_calls++; act_which = 0; return act_ret; }
static int act1(void *d) { act_data = d; act_calls++; act_which = 1; return act_ret; }
static BFDEV_DEFINE_ACTION(gact, act1, &act_ret);
static void scn_action(void)
{
    bfdev_action_t *a = vf_xmalloc(sizeof *a); bfdev_action_func_t f[2] = { act0, act1 }; int cur = vf_below(2); char objs[8]; const void *d = &objs[0]; bool cleared = false; int c0;
    bfdev_action_init(a, f[cur], d); if (vf_chance(1, 2)) *a = BFDEV_ACTION_INIT(f[cur], d);
    c0 = act_calls; act_ret = 5; VF_EQ(bfdev_action_call(&gact), 5, "action-static"); VF_PEQ(act_data, &act_ret, "action-static"); VF_EQ(act_calls, c0 + 1, "action-once");
    for (int i = 0; i < 30; i++) {
        int r; c0 = act_calls; act_ret = vf_chance(1, 3) ? 0 : (int)vf_rand();
        switch (vf_below(6)) {
        case 0: d = vf_chance(1, 4) ? NULL : &objs[vf_below(8)]; bfdev_action_update(a, d); break;
        case 1: bfdev_action_clear(a); cleared = true; VF_EV("action.clear"); break;
        case 2: cur = vf_below(2); d = &objs[vf_below(8)]; bfdev_action_init(a, f[cur], d); cleared = false; break;
        default: break;
        }
        r = bfdev_action_call(a); vf_op("call %d cleared %d", r, cleared);
        if (cleared) { VF_EQ(r, -BFDEV_ENODATA, "action-cleared"); VF_EQ(act_calls, c0, "action-cleared"); }
        else { VF_EQ(r, act_ret, "action-result"); VF_EQ(act_calls, c0 + 1, "action-once"); VF_EQ(act_which, cur, "action-func"); VF_PEQ(act_data, d, "action-data"); VF_EV("action.call"); }
        vf_obs((unsigned)r);
    }
    (void)act_depth; free(a);
}
VF_SCENARIOS({ "respool", scn_pool, 4 }, { "guard", scn_guard, 1 }, { "action", scn_action, 1 });
