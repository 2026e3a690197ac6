/* C01: doubly linked, singly linked and hash lists against an ideal sequence. */
#include "vf.h"
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>

#define NN 20
#define NH 3
typedef struct { int id; bfdev_list_head_t l; long pad; bfdev_slist_head_t s; bfdev_hlist_node_t h; int tail; } node_t;
typedef struct { int n, v[NN * 2]; } seq_t;

static node_t *N[NN];
static seq_t M[NH];
static int where[NN];                  /* list index or -1 */

static void sq_ins(seq_t *s, int at, int id) { memmove(s->v + at + 1, s->v + at, (s->n - at) * sizeof(int)); s->v[at] = id; s->n++; }
static void sq_del(seq_t *s, int at) { memmove(s->v + at, s->v + at + 1, (s->n - at - 1) * sizeof(int)); s->n--; }
static int sq_find(seq_t *s, int id) { for (int i = 0; i < s->n; i++) if (s->v[i] == id) return i; return -1; }
static int pick_free(void) { int t = vf_below(NN); for (int i = 0; i < NN; i++) if (where[(t + i) % NN] < 0) return (t + i) % NN; return -1; }
static int pick_used(void) { int t = vf_below(NN); for (int i = 0; i < NN; i++) if (where[(t + i) % NN] >= 0) return (t + i) % NN; return -1; }

static void setup(void)
{
    for (int i = 0; i < NN; i++) { N[i] = vf_xmalloc(sizeof(node_t)); memset(N[i], 0x5a, sizeof(node_t)); N[i]->id = i; where[i] = -1; }
    for (int i = 0; i < NH; i++) M[i].n = 0;
}
static void teardown(void) { for (int i = 0; i < NN; i++) free(N[i]); }

/* ---- comparing a walk with the model ---- */
static int got[NN * 4], ngot;
static void g_add(int id, const char *key) { if (ngot >= NN * 3) vf_fail(key, "walk does not end"); got[ngot++] = id; }
static void g_cmp(const int *want, int n, int dir, const char *key)
{
    VF_CHECK(ngot == n, key, "walk visited %d element(s), model has %d", ngot, n);
    for (int i = 0; i < n; i++) VF_CHECK(got[i] == want[dir > 0 ? i : -i], key, "position %d: visited node %d, model has %d", i, got[i], want[dir > 0 ? i : -i]);
    vf_obs_mem(got, ngot * sizeof(int));
}
#define LE(p) bfdev_list_entry(p, node_t, l)
#define WALK(key, want, n, dir, loop, idx) do { ngot = 0; loop g_add(idx, key); g_cmp(want, n, dir, key); VF_EV(key); } while (0)

/* ================= list ================= */
static bfdev_list_head_t LH[NH];

static void list_verify(int q)
{
    seq_t *s = &M[q]; bfdev_list_head_t *h = &LH[q], *p; node_t *e; int *v = s->v, n = s->n, *last = v + n - 1, k;
    WALK("list_for_each", v, n, 1, bfdev_list_for_each(p, h), LE(p)->id);
    WALK("list_for_each_reverse", last, n, -1, bfdev_list_for_each_reverse(p, h), LE(p)->id);
    switch (vf_below(4)) {
    case 0: WALK("list_for_each_entry", v, n, 1, bfdev_list_for_each_entry(e, h, l), e->id); break;
    case 1: WALK("list_for_each_entry_reverse", last, n, -1, bfdev_list_for_each_entry_reverse(e, h, l), e->id); break;
    }
    VF_EQ(bfdev_list_check_empty(h), n == 0, "list_check_empty");
    e = bfdev_list_first_entry_or_null(h, node_t, l); VF_PEQ(e, n ? N[v[0]] : NULL, "list_first_or_null");
    e = bfdev_list_last_entry_or_null(h, node_t, l); VF_PEQ(e, n ? N[*last] : NULL, "list_last_or_null");
    VF_EQ(bfdev_list_check_head(h, h), 1, "list_check_head");
    if (!n) return;
    VF_PEQ(bfdev_list_first_entry(h, node_t, l), N[v[0]], "list_first");
    VF_PEQ(bfdev_list_last_entry(h, node_t, l), N[*last], "list_last");
    k = vf_below(n); e = N[v[k]];
    VF_EQ(bfdev_list_check_head(h, &e->l), 0, "list_check_head");
    VF_EQ(bfdev_list_check_first(h, &e->l), k == 0, "list_check_first");
    VF_EQ(bfdev_list_check_end(h, &e->l), k == n - 1, "list_check_end");
    VF_EQ(bfdev_list_check_another(h, &e->l), n == 1, "list_check_another");
    VF_PEQ(bfdev_list_next_entry_or_null(e, h, l), k < n - 1 ? N[v[k + 1]] : NULL, "list_next_or_null");
    VF_PEQ(bfdev_list_prev_entry_or_null(e, h, l), k ? N[v[k - 1]] : NULL, "list_prev_or_null");
    if (k < n - 1) VF_PEQ(bfdev_list_next_entry(e, l), N[v[k + 1]], "list_next");
    if (k) VF_PEQ(bfdev_list_prev_entry(e, l), N[v[k - 1]], "list_prev");
    p = &e->l;
    switch (vf_below(8)) {
    case 0: WALK("list_from", v + k, n - k, 1, bfdev_list_for_each_from(p, h), LE(p)->id); break;
    case 1: WALK("list_reverse_from", v + k, k + 1, -1, bfdev_list_for_each_reverse_from(p, h), LE(p)->id); break;
    case 2: WALK("list_continue", v + k + 1, n - k - 1, 1, bfdev_list_for_each_continue(p, h), LE(p)->id); break;
    case 3: WALK("list_reverse_continue", v + k - 1, k, -1, bfdev_list_for_each_reverse_continue(p, h), LE(p)->id); break;
    case 4: WALK("list_entry_from", v + k, n - k, 1, bfdev_list_for_each_entry_from(e, h, l), e->id); break;
    case 5: WALK("list_entry_reverse_from", v + k, k + 1, -1, bfdev_list_for_each_entry_reverse_from(e, h, l), e->id); break;
    case 6: WALK("list_entry_continue", v + k + 1, n - k - 1, 1, bfdev_list_for_each_entry_continue(e, h, l), e->id); break;
    case 7: WALK("list_entry_reverse_continue", v + k - 1, k, -1, bfdev_list_for_each_entry_reverse_continue(e, h, l), e->id); break;
    }
}

static unsigned kill_mask;
static seq_t *kill_seq;
static void l_kill(int q, int id)
{
    g_add(id, "list_safe_walk");
    if (!(kill_mask >> id & 1)) return;
    if (id & 1) bfdev_list_del(&N[id]->l); else bfdev_list_del_init(&N[id]->l);
    memset(&N[id]->l, 0xdd, sizeof N[id]->l);
    where[id] = -1;
}
#define SAFE(key, loop, idx, wv, wn, dir) do { seq_t old = *s; ngot = 0; loop l_kill(q, idx); g_cmp(old.v + (wv), wn, dir, key); VF_EV(key); } while (0)
static void list_safe(int q)
{
    seq_t *s = &M[q]; bfdev_list_head_t *h = &LH[q], *p, *t; node_t *e, *f; int n = s->n, k, j;
    kill_mask = vf_chance(1, 4) ? ~0u : (unsigned)vf_rand();
    k = n ? (int)vf_below(n) : 0;
    vf_op("list_safe list %d mask %x from %d", q, kill_mask, k);
    j = vf_below(n ? 12 : 4);
    p = n ? &N[s->v[k]]->l : NULL; e = n ? N[s->v[k]] : NULL;
    switch (j) {
    case 0: SAFE("list_for_each_safe", bfdev_list_for_each_safe(p, t, h), LE(p)->id, 0, n, 1); break;
    case 1: SAFE("list_for_each_reverse_safe", bfdev_list_for_each_reverse_safe(p, t, h), LE(p)->id, n - 1, n, -1); break;
    case 2: SAFE("list_for_each_entry_safe", bfdev_list_for_each_entry_safe(e, f, h, l), e->id, 0, n, 1); break;
    case 3: SAFE("list_for_each_entry_reverse_safe", bfdev_list_for_each_entry_reverse_safe(e, f, h, l), e->id, n - 1, n, -1); break;
    case 4: SAFE("list_from_safe", bfdev_list_for_each_from_safe(p, t, h), LE(p)->id, k, n - k, 1); break;
    case 5: SAFE("list_reverse_from_safe", bfdev_list_for_each_reverse_from_safe(p, t, h), LE(p)->id, k, k + 1, -1); break;
    case 6: SAFE("list_continue_safe", bfdev_list_for_each_continue_safe(p, t, h), LE(p)->id, k + 1, n - k - 1, 1); break;
    case 7: SAFE("list_reverse_continue_safe", bfdev_list_for_each_reverse_continue_safe(p, t, h), LE(p)->id, k - 1, k, -1); break;
    case 8: SAFE("list_entry_from_safe", bfdev_list_for_each_entry_from_safe(e, f, h, l), e->id, k, n - k, 1); break;
    case 9: SAFE("list_entry_reverse_from_safe", bfdev_list_for_each_entry_reverse_from_safe(e, f, h, l), e->id, k, k + 1, -1); break;
    case 10: SAFE("list_entry_continue_safe", bfdev_list_for_each_entry_continue_safe(e, f, h, l), e->id, k + 1, n - k - 1, 1); break;
    case 11: SAFE("list_entry_reverse_continue_safe", bfdev_list_for_each_entry_reverse_continue_safe(e, f, h, l), e->id, k - 1, k, -1); break;
    }
    for (int i = 0; i < s->n;) if (where[s->v[i]] < 0) sq_del(s, i); else i++;
}

static void list_op(void)
{
    int q = vf_below(NH), r = vf_below(NH), f = pick_free(), u = pick_used(), op = vf_below(17), at, bt, w, x;
    switch (op) {
    case 0: case 1:
        if (f < 0) break;
        vf_op("list %d add front %d", q, f); bfdev_list_add(&LH[q], &N[f]->l); sq_ins(&M[q], 0, f); where[f] = q; VF_EV("list.add_front"); break;
    case 2: case 3:
        if (f < 0) break;
        vf_op("list %d add back %d", q, f); bfdev_list_add_prev(&LH[q], &N[f]->l); sq_ins(&M[q], M[q].n, f); where[f] = q; VF_EV("list.add_back"); break;
    case 4:
        if (f < 0 || u < 0) break;
        w = where[u]; at = sq_find(&M[w], u); vf_op("list add %d after %d", f, u);
        bfdev_list_add(&N[u]->l, &N[f]->l); sq_ins(&M[w], at + 1, f); where[f] = w; VF_EV("list.add_after"); break;
    case 5:
        if (f < 0 || u < 0) break;
        w = where[u]; at = sq_find(&M[w], u); vf_op("list add %d before %d", f, u);
        bfdev_list_add_prev(&N[u]->l, &N[f]->l); sq_ins(&M[w], at, f); where[f] = w; VF_EV("list.add_before"); break;
    case 6: case 7: case 8:
        if (u < 0) break;
        w = where[u]; at = sq_find(&M[w], u); vf_op("list del %d kind %d", u, op);
        if (op == 6) bfdev_list_del(&N[u]->l);
        else if (op == 7) bfdev_list_deluf(&N[u]->l);
        else { bfdev_list_del_init(&N[u]->l); VF_EQ(bfdev_list_check_empty(&N[u]->l), 1, "list_del_init"); }
        sq_del(&M[w], at); where[u] = -1; VF_EV("list.del"); break;
    case 9: case 10:
        if (u < 0 || f < 0) break;
        w = where[u]; at = sq_find(&M[w], u); vf_op("list replace %d by %d", u, f);
        if (op == 9) bfdev_list_replace(&N[u]->l, &N[f]->l);
        else { bfdev_list_replace_init(&N[u]->l, &N[f]->l); VF_EQ(bfdev_list_check_empty(&N[u]->l), 1, "list_replace_init"); }
        M[w].v[at] = f; where[f] = w; where[u] = -1; VF_EV("list.replace"); break;
    case 11:
        if (u < 0) break;
        w = where[u]; sq_del(&M[w], sq_find(&M[w], u)); vf_op("list move %d to front of %d", u, q);
        bfdev_list_move(&LH[q], &N[u]->l); sq_ins(&M[q], 0, u); where[u] = q; VF_EV("list.move"); break;
    case 12:
        if (u < 0) break;
        w = where[u]; sq_del(&M[w], sq_find(&M[w], u)); vf_op("list move %d to back of %d", u, q);
        bfdev_list_move_prev(&LH[q], &N[u]->l); sq_ins(&M[q], M[q].n, u); where[u] = q; VF_EV("list.move_prev"); break;
    case 13: {
        int v2 = pick_used();
        if (u < 0 || v2 == u) break;
        /* also aim at neighbours */
        if (vf_chance(1, 2) && M[where[u]].n > 1) { at = sq_find(&M[where[u]], u); v2 = M[where[u]].v[(at + 1) % M[where[u]].n]; }
        if (vf_chance(1, 2)) { x = u; u = v2; v2 = x; }
        w = where[u]; x = where[v2]; at = sq_find(&M[w], u); bt = sq_find(&M[x], v2); vf_op("list swap %d %d", u, v2);
        bfdev_list_swap(&N[u]->l, &N[v2]->l); M[w].v[at] = v2; M[x].v[bt] = u; where[u] = x; where[v2] = w; VF_EV("list.swap"); break; }
    case 14: case 15: {
        /* splice list r into q (head or tail); source re-initialised */
        seq_t src;
        if (q == r) break;
        src = M[r]; vf_op("list splice %d into %d kind %d", r, q, op);
        bool init = vf_chance(1, 2); int pos = -1; bfdev_list_head_t *where_to = &LH[q];
        if (M[q].n && vf_chance(1, 3)) { pos = vf_below(M[q].n); where_to = &N[M[q].v[pos]]->l; }
        if (op == 14) { if (init) bfdev_list_splice_init(where_to, &LH[r]); else bfdev_list_splice(where_to, &LH[r]); }
        else { if (init) bfdev_list_splice_tail_init(where_to, &LH[r]); else bfdev_list_splice_prev(where_to, &LH[r]); }
        if (!init) bfdev_list_head_init(&LH[r]);
        if (op == 14) at = pos < 0 ? 0 : pos + 1; else at = pos < 0 ? M[q].n : pos;
        for (int i = 0; i < src.n; i++) { sq_ins(&M[q], at + i, src.v[i]); where[src.v[i]] = q; }
        M[r].n = 0; VF_EV("list.splice"); break; }
    case 16: list_safe(q); break;
    }
}
static void scn_list(void)
{
    setup();
    for (int i = 0; i < NH; i++) bfdev_list_head_init(&LH[i]);
    int ops = 4 + vf_below(70);
    for (int i = 0; i < ops; i++) {
        list_op();
        if (vf_chance(2, 3)) list_verify(vf_below(NH));
    }
    for (int i = 0; i < NH; i++) list_verify(i);
    teardown();
}

/* ================= slist ================= */
static bfdev_slist_head_t SH[NH];
#define SE(p) bfdev_slist_entry(p, node_t, s)
static void slist_verify(int q)
{
    seq_t *s = &M[q]; bfdev_slist_head_t *h = &SH[q], *p; node_t *e; int *v = s->v, n = s->n, k;
    WALK("slist_for_each", v, n, 1, bfdev_slist_for_each(p, h), SE(p)->id);
    WALK("slist_for_each_entry", v, n, 1, bfdev_slist_for_each_entry(e, h, s), e->id);
    VF_EQ(bfdev_slist_check_empty(h), n == 0, "slist_check_empty");
    VF_PEQ(bfdev_slist_first_entry(h, node_t, s), n ? N[v[0]] : NULL, "slist_first");
    if (!n) return;
    k = vf_below(n); e = N[v[k]]; p = &e->s;
    VF_EQ(bfdev_slist_check_first(h, p), k == 0, "slist_check_first");
    VF_EQ(bfdev_slist_check_end(p), k == n - 1, "slist_check_end");
    VF_EQ(bfdev_slist_check_another(h, p), n == 1, "slist_check_another");
    VF_PEQ(bfdev_slist_next_entry(e, s), k < n - 1 ? N[v[k + 1]] : NULL, "slist_next");
    switch (vf_below(5)) {
    case 0: WALK("slist_from", v + k, n - k, 1, bfdev_slist_for_each_from(p), SE(p)->id); break;
    case 1: WALK("slist_continue", v + k + 1, n - k - 1, 1, bfdev_slist_for_each_continue(p), SE(p)->id); break;
    case 2: WALK("slist_entry_from", v + k, n - k, 1, bfdev_slist_for_each_entry_from(e, s), e->id); break;
    case 3: WALK("slist_entry_continue", v + k + 1, n - k - 1, 1, bfdev_slist_for_each_entry_continue(e, s), e->id); break;
    case 4: p = NULL; e = NULL;
        WALK("slist_from_null", v, 0, 1, bfdev_slist_for_each_from(p), SE(p)->id);
        p = NULL; WALK("slist_continue_null", v, 0, 1, bfdev_slist_for_each_continue(p), SE(p)->id);
        WALK("slist_entry_continue_null", v, 0, 1, bfdev_slist_for_each_entry_continue(e, s), e->id); break;
    }
}
static void s_kill(int q, int id)
{
    g_add(id, "slist_safe_walk");
    if (!(kill_mask >> id & 1)) return;
    bfdev_slist_del(&SH[q], &N[id]->s);
    memset(&N[id]->s, 0xdd, sizeof N[id]->s); where[id] = -1;
}
#define SSAFE(key, loop, idx, wv, wn) do { seq_t old = *s; ngot = 0; loop s_kill(q, idx); g_cmp(old.v + (wv), wn, 1, key); VF_EV(key); } while (0)
static void slist_safe(int q)
{
    seq_t *s = &M[q]; bfdev_slist_head_t *h = &SH[q], *p, *t; node_t *e, *f; int n = s->n, k;
    kill_mask = vf_chance(1, 4) ? ~0u : (unsigned)vf_rand();
    k = n ? (int)vf_below(n) : 0; p = n ? &N[s->v[k]]->s : NULL; e = n ? N[s->v[k]] : NULL;
    vf_op("slist_safe list %d mask %x from %d", q, kill_mask, k);
    switch (vf_below(n ? 6 : 2)) {
    case 0: SSAFE("slist_for_each_safe", bfdev_slist_for_each_safe(p, t, h), SE(p)->id, 0, n); break;
    case 1: SSAFE("slist_for_each_entry_safe", bfdev_slist_for_each_entry_safe(e, f, h, s), e->id, 0, n); break;
    case 2: SSAFE("slist_from_safe", bfdev_slist_for_each_from_safe(p, t), SE(p)->id, k, n - k); break;
    case 3: SSAFE("slist_continue_safe", bfdev_slist_for_each_continue_safe(p, t), SE(p)->id, k + 1, n - k - 1); break;
    case 4: SSAFE("slist_entry_from_safe", bfdev_slist_for_each_entry_from_safe(e, f, s), e->id, k, n - k); break;
    case 5: SSAFE("slist_entry_continue_safe", bfdev_slist_for_each_entry_continue_safe(e, f, s), e->id, k + 1, n - k - 1); break;
    }
    for (int i = 0; i < s->n;) if (where[s->v[i]] < 0) sq_del(s, i); else i++;
}
static void scn_slist(void)
{
    setup();
    for (int i = 0; i < NH; i++) bfdev_slist_head_init(&SH[i]);
    int ops = 4 + vf_below(60);
    for (int i = 0; i < ops; i++) {
        int q = vf_below(NH), f = pick_free(), u = pick_used(), w, at;
        switch (vf_below(7)) {
        case 0: case 1: if (f < 0) break;
            vf_op("slist %d add front %d", q, f); bfdev_slist_add(&SH[q], &N[f]->s); sq_ins(&M[q], 0, f); where[f] = q; VF_EV("slist.add_front"); break;
        case 2: case 3: if (f < 0 || u < 0) break;
            w = where[u]; at = sq_find(&M[w], u); vf_op("slist add %d after %d", f, u);
            bfdev_slist_add(&N[u]->s, &N[f]->s); sq_ins(&M[w], at + 1, f); where[f] = w; VF_EV("slist.add_after"); break;
        case 4: if (u < 0) break;
            w = where[u]; vf_op("slist del %d", u); bfdev_slist_del(&SH[w], &N[u]->s); sq_del(&M[w], sq_find(&M[w], u)); where[u] = -1; VF_EV("slist.del"); break;
        case 5: if (u < 0 || f < 0) break;
            w = where[u]; at = sq_find(&M[w], u); vf_op("slist replace %d by %d", u, f);
            bfdev_slist_replace(&SH[w], &N[u]->s, &N[f]->s); M[w].v[at] = f; where[f] = w; where[u] = -1; VF_EV("slist.replace"); break;
        case 6: slist_safe(q); break;
        }
        if (vf_chance(2, 3)) slist_verify(vf_below(NH));
    }
    for (int i = 0; i < NH; i++) slist_verify(i);
    teardown();
}

/* ================= hlist ================= */
static bfdev_hlist_head_t HH[NH];
#define HE(p) bfdev_hlist_entry(p, node_t, h)
static void hlist_verify(int q)
{
    seq_t *s = &M[q]; bfdev_hlist_head_t *h = &HH[q]; bfdev_hlist_node_t *p; node_t *e; int *v = s->v, n = s->n, k;
    WALK("hlist_for_each", v, n, 1, bfdev_hlist_for_each(p, h), HE(p)->id);
    WALK("hlist_for_each_entry", v, n, 1, bfdev_hlist_for_each_entry(e, h, h), e->id);
    VF_EQ(bfdev_hlist_check_empty(h), n == 0, "hlist_check_empty");
    VF_PEQ(bfdev_hlist_first_entry(h, node_t, h), n ? N[v[0]] : NULL, "hlist_first");
    if (!n) return;
    k = vf_below(n); e = N[v[k]]; p = &e->h;
    VF_EQ(bfdev_hlist_check_first(h, p), k == 0, "hlist_check_first");
    VF_EQ(bfdev_hlist_check_end(p), k == n - 1, "hlist_check_end");
    VF_EQ(bfdev_hlist_check_another(h, p), n == 1, "hlist_check_another");
    VF_EQ(bfdev_hlist_check_unhashed(p), 0, "hlist_check_unhashed");
    VF_PEQ(bfdev_hlist_next_entry(e, h), k < n - 1 ? N[v[k + 1]] : NULL, "hlist_next");
    switch (vf_below(5)) {
    case 0: WALK("hlist_from", v + k, n - k, 1, bfdev_hlist_for_each_from(p), HE(p)->id); break;
    case 1: WALK("hlist_continue", v + k + 1, n - k - 1, 1, bfdev_hlist_for_each_continue(p), HE(p)->id); break;
    case 2: WALK("hlist_entry_from", v + k, n - k, 1, bfdev_hlist_for_each_entry_from(e, h), e->id); break;
    case 3: WALK("hlist_entry_continue", v + k + 1, n - k - 1, 1, bfdev_hlist_for_each_entry_continue(e, h), e->id); break;
    case 4: p = NULL; e = NULL;
        WALK("hlist_from_null", v, 0, 1, bfdev_hlist_for_each_from(p), HE(p)->id);
        p = NULL; WALK("hlist_continue_null", v, 0, 1, bfdev_hlist_for_each_continue(p), HE(p)->id);
        WALK("hlist_entry_continue_null", v, 0, 1, bfdev_hlist_for_each_entry_continue(e, h), e->id); break;
    }
}
static void h_kill(int q, int id)
{
    g_add(id, "hlist_safe_walk");
    if (!(kill_mask >> id & 1)) return;
    if (id & 1) bfdev_hlist_del(&N[id]->h); else bfdev_hlist_del_init(&N[id]->h);
    memset(&N[id]->h, 0xdd, sizeof N[id]->h); where[id] = -1;
}
#define HSAFE(key, loop, idx, wv, wn) do { seq_t old = *s; ngot = 0; loop h_kill(q, idx); g_cmp(old.v + (wv), wn, 1, key); VF_EV(key); } while (0)
static void hlist_safe(int q)
{
    seq_t *s = &M[q]; bfdev_hlist_head_t *h = &HH[q]; bfdev_hlist_node_t *p, *t; node_t *e, *f; int n = s->n, k;
    kill_mask = vf_chance(1, 4) ? ~0u : (unsigned)vf_rand();
    k = n ? (int)vf_below(n) : 0; p = n ? &N[s->v[k]]->h : NULL; e = n ? N[s->v[k]] : NULL;
    vf_op("hlist_safe list %d mask %x from %d", q, kill_mask, k);
    switch (vf_below(n ? 6 : 2)) {
    case 0: HSAFE("hlist_for_each_safe", bfdev_hlist_for_each_safe(p, t, h), HE(p)->id, 0, n); break;
    case 1: HSAFE("hlist_for_each_entry_safe", bfdev_hlist_for_each_entry_safe(e, f, h, h), e->id, 0, n); break;
    case 2: HSAFE("hlist_from_safe", bfdev_hlist_for_each_from_safe(p, t), HE(p)->id, k, n - k); break;
    case 3: HSAFE("hlist_continue_safe", bfdev_hlist_for_each_continue_safe(p, t), HE(p)->id, k + 1, n - k - 1); break;
    case 4: HSAFE("hlist_entry_from_safe", bfdev_hlist_for_each_entry_from_safe(e, f, h), e->id, k, n - k); break;
    case 5: HSAFE("hlist_entry_continue_safe", bfdev_hlist_for_each_entry_continue_safe(e, f, h), e->id, k + 1, n - k - 1); break;
    }
    for (int i = 0; i < s->n;) if (where[s->v[i]] < 0) sq_del(s, i); else i++;
}
static void scn_hlist(void)
{
    setup();
    for (int i = 0; i < NH; i++) bfdev_hlist_head_init(&HH[i]);
    int ops = 4 + vf_below(70);
    for (int i = 0; i < ops; i++) {
        int q = vf_below(NH), r = vf_below(NH), f = pick_free(), u = pick_used(), w, at, op = vf_below(11);
        switch (op) {
        case 0: case 1: if (f < 0) break;
            vf_op("hlist %d add front %d", q, f); bfdev_hlist_head_add(&HH[q], &N[f]->h); sq_ins(&M[q], 0, f); where[f] = q; VF_EV("hlist.head_add"); break;
        case 2: case 3: if (f < 0 || u < 0) break;
            w = where[u]; at = sq_find(&M[w], u); vf_op("hlist add %d after %d", f, u);
            bfdev_hlist_next_add(&N[u]->h, &N[f]->h); sq_ins(&M[w], at + 1, f); where[f] = w; VF_EV("hlist.next_add"); break;
        case 4: case 5: if (f < 0 || u < 0) break;
            w = where[u]; at = sq_find(&M[w], u); vf_op("hlist add %d before %d", f, u);
            bfdev_hlist_prev_add(&N[u]->h, &N[f]->h); sq_ins(&M[w], at, f); where[f] = w; VF_EV("hlist.prev_add"); break;
        case 6: case 7: if (u < 0) break;
            w = where[u]; vf_op("hlist del %d kind %d", u, op); sq_del(&M[w], sq_find(&M[w], u)); where[u] = -1; VF_EV("hlist.del");
            if (op == 6) bfdev_hlist_del(&N[u]->h);
            else { bfdev_hlist_del_init(&N[u]->h); VF_EQ(bfdev_hlist_check_unhashed(&N[u]->h), 1, "hlist_check_unhashed"); }
            break;
        case 8: if (u < 0 || f < 0) break;
            w = where[u]; at = sq_find(&M[w], u); vf_op("hlist replace %d by %d", u, f);
            bfdev_hlist_replace(&N[u]->h, &N[f]->h); M[w].v[at] = f; where[f] = w; where[u] = -1; VF_EV("hlist.replace"); break;
        case 9: if (q == r || M[q].n) break;
            vf_op("hlist head %d -> %d", r, q); bfdev_hlist_head_replace(&HH[r], &HH[q]); VF_EV("hlist.head_replace");
            M[q] = M[r]; M[r].n = 0; for (int k = 0; k < M[q].n; k++) where[M[q].v[k]] = q; break;
        case 10: hlist_safe(q); break;
        }
        if (vf_chance(2, 3)) hlist_verify(vf_below(NH));
    }
    for (int i = 0; i < NH; i++) hlist_verify(i);
    teardown();
}
VF_SCENARIOS({ "list", scn_list, 3 }, { "slist", scn_slist, 2 }, { "hlist", scn_hlist, 2 });
