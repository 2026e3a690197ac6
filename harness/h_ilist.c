/* C02: indexed list and notifier chain against a sorted model. */
#include "vf.h"
#include <bfdev/ilist.h>
#include <bfdev/notifier.h>

#define NN 24
typedef struct { int id, key; bfdev_ilist_node_t n; int in; } nd_t;
static nd_t *N[NN];
static int seq[NN], nseq;
static char cookie;

static long cmp3(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pdata)
{
    int x = bfdev_ilist_entry(a, nd_t, n)->key, y = bfdev_ilist_entry(b, nd_t, n)->key;
    VF_CHECK(pdata == &cookie, "cmp-pdata", "comparison got %p", pdata);
    return x < y ? -1 : x > y;
}
static void ins_sorted(int id)
{   /* equal keys keep their order of addition */
    int at = 0;
    while (at < nseq && N[seq[at]]->key <= N[id]->key) at++;
    memmove(seq + at + 1, seq + at, (nseq - at) * sizeof(int)); seq[at] = id; nseq++;
}
static void del_id(int id)
{
    int at = 0; while (seq[at] != id) at++;
    memmove(seq + at, seq + at + 1, (nseq - at - 1) * sizeof(int)); nseq--;
}
static void il_verify(bfdev_ilist_head_t *h)
{
    nd_t *e, *t; bfdev_list_head_t *p; int i = 0;
    bfdev_ilist_for_each_entry(e, h, n) { VF_CHECK(i < nseq, "order", "extra element"); VF_CHECK(e->id == seq[i], "order", "position %d: node %d key %d, model node %d key %d", i, e->id, e->key, seq[i], N[seq[i]]->key); i++; vf_obs(e->key); }
    VF_CHECK(i == nseq, "order", "walk saw %d of %d", i, nseq);
    i = nseq;
    bfdev_ilist_for_each_entry_reverse(e, h, n) { VF_CHECK(i > 0, "reverse", "extra element"); i--; VF_EQ(e->id, seq[i], "reverse"); }
    VF_EQ(i, 0, "reverse");
    i = 0; bfdev_ilist_for_each(p, h) i++; VF_EQ(i, nseq, "for_each");
    i = 0; bfdev_ilist_for_each_reverse(p, h) i++; VF_EQ(i, nseq, "for_each_reverse");
    VF_EQ(bfdev_ilist_head_empty(h), nseq == 0, "empty");
    if (!nseq) return;
    VF_EQ(bfdev_ilist_entry(bfdev_ilist_first(h), nd_t, n)->id, seq[0], "first");
    VF_EQ(bfdev_ilist_entry(bfdev_ilist_last(h), nd_t, n)->id, seq[nseq - 1], "last");
    int k = vf_below(nseq);
    e = N[seq[k]]; i = k; bfdev_ilist_for_each_entry_from(e, h, n) { VF_EQ(e->id, seq[i], "from"); i++; } VF_EQ(i, nseq, "from");
    e = N[seq[k]]; i = k + 1; bfdev_ilist_for_each_entry_continue(e, h, n) { VF_EQ(e->id, seq[i], "continue"); i++; } VF_EQ(i, nseq, "continue");
    e = N[seq[k]]; i = k; bfdev_ilist_for_each_entry_reverse_from(e, h, n) { VF_EQ(e->id, seq[i], "reverse_from"); i--; } VF_EQ(i, -1, "reverse_from");
    e = N[seq[k]]; i = k - 1; bfdev_ilist_for_each_entry_reverse_continue(e, h, n) { VF_EQ(e->id, seq[i], "reverse_continue"); i--; } VF_EQ(i, -1, "reverse_continue");
    /* the same walks over bare nodes, and every "safe" form left unmodified (their deletions are driven below) */
#define NB(P) (bfdev_ilist_entry(bfdev_list_entry(P, bfdev_ilist_node_t, node_list), nd_t, n))
#define UP(ST, END, TAG, ...) do { i = ST; __VA_ARGS__ { VF_CHECK(i < nseq, TAG, "too long"); VF_EQ(CUR, seq[i], TAG); i++; } VF_EQ(i, nseq, TAG); } while (0)
#define DN(ST, TAG, ...) do { i = ST; __VA_ARGS__ { VF_CHECK(i >= 0, TAG, "too long"); VF_EQ(CUR, seq[i], TAG); i--; } VF_EQ(i, -1, TAG); } while (0)
    bfdev_list_head_t *q, *st = &N[seq[k]]->n.node_list;
#define CUR (NB(p)->id)
    UP(0, 0, "node-walk", bfdev_ilist_for_each(p, h)); DN(nseq - 1, "node-walk-reverse", bfdev_ilist_for_each_reverse(p, h));
    p = st; UP(k, 0, "node-from", bfdev_ilist_for_each_from(p, h)); p = st; DN(k, "node-reverse-from", bfdev_ilist_for_each_reverse_from(p, h));
    p = st; UP(k + 1, 0, "node-continue", bfdev_ilist_for_each_continue(p, h)); p = st; DN(k - 1, "node-reverse-continue", bfdev_ilist_for_each_reverse_continue(p, h));
    UP(0, 0, "node-safe", bfdev_ilist_for_each_safe(p, q, h)); DN(nseq - 1, "node-reverse-safe", bfdev_ilist_for_each_reverse_safe(p, q, h));
    p = st; q = p->next; UP(k, 0, "node-from-safe", bfdev_ilist_for_each_from_safe(p, q, h)); p = st; q = p->prev; DN(k, "node-reverse-from-safe", bfdev_ilist_for_each_reverse_from_safe(p, q, h));
    p = st; UP(k + 1, 0, "node-continue-safe", bfdev_ilist_for_each_continue_safe(p, q, h)); p = st; DN(k - 1, "node-reverse-continue-safe", bfdev_ilist_for_each_reverse_continue_safe(p, q, h));
#undef CUR
#define CUR (e->id)
    e = N[seq[k]]; UP(k, 0, "from-safe", bfdev_ilist_for_each_entry_from_safe(e, t, h, n)); e = N[seq[k]]; DN(k, "reverse-from-safe", bfdev_ilist_for_each_entry_reverse_from_safe(e, t, h, n));
    e = N[seq[k]]; UP(k + 1, 0, "continue-safe", bfdev_ilist_for_each_entry_continue_safe(e, t, h, n)); e = N[seq[k]]; DN(k - 1, "reverse-continue-safe", bfdev_ilist_for_each_entry_reverse_continue_safe(e, t, h, n));
}
static void scn_ilist(void)
{
    BFDEV_ILIST_HEAD(h);
    int nk = 1 + vf_below(8), ops = 4 + vf_below(80), ub = 1 + vf_below(NN);
    if (vf_chance(1, 2)) bfdev_ilist_head_init(&h);
    nseq = 0;
    for (int i = 0; i < NN; i++) { N[i] = vf_xmalloc(sizeof(nd_t)); N[i]->id = i; N[i]->in = 0; bfdev_ilist_node_init(&N[i]->n); }
    for (int i = 0; i < ops; i++) {
        int id = vf_below(ub), op = vf_below(10);
        if (op < 8) {
            if (!N[id]->in) {
                N[id]->key = vf_below(nk); vf_op("add node %d key %d", id, N[id]->key);
                bfdev_ilist_add(&h, &N[id]->n, cmp3, &cookie); ins_sorted(id); N[id]->in = 1; VF_EV("ilist.add");
            } else {
                vf_op("del node %d key %d", id, N[id]->key);
                bfdev_ilist_del(&h, &N[id]->n); del_id(id); N[id]->in = 0; VF_EV("ilist.del");
                VF_EQ(bfdev_ilist_node_empty(&N[id]->n), 1, "node_empty");
            }
        } else {        /* delete during a safe walk */
            nd_t *e, *t; int k = 0, old[NN], on = nseq; unsigned mask = vf_rand();
            memcpy(old, seq, sizeof old); vf_op("safe walk mask %x", mask);
            if (op == 8) bfdev_ilist_for_each_entry_safe(e, t, &h, n) { VF_EQ(e->id, old[k], "safe"); k++; if (mask >> e->id & 1) { bfdev_ilist_del(&h, &e->n); del_id(e->id); e->in = 0; } }
            else bfdev_ilist_for_each_entry_reverse_safe(e, t, &h, n) { VF_EQ(e->id, old[on - 1 - k], "reverse_safe"); k++; if (mask >> e->id & 1) { bfdev_ilist_del(&h, &e->n); del_id(e->id); e->in = 0; } }
            VF_EQ(k, on, "safe"); VF_EV("ilist.safe");
        }
        il_verify(&h);
    }
    for (int i = 0; i < NN; i++) free(N[i]);
}

/* ---- notifier ---- */
typedef struct { int id; bfdev_notifier_node_t n; int in, ret; bool self_unreg; } nt_t;
static nt_t *T[NN];
static int clog_[NN * 2], nclog;
static int argcookie;
static bfdev_notifier_t *nhead;
static bfdev_notifier_ret_t nt_entry(void *args, void *pdata)
{
    nt_t *t = pdata;
    VF_CHECK(args == &argcookie, "args", "callback got %p", args);
    if (nclog >= NN * 2) vf_fail("call-count", "more calls than subscribers");
    clog_[nclog++] = t->id;
    if (t->self_unreg) { bfdev_notifier_unregister(nhead, &t->n); t->ret &= ~BFDEV_NOTIFI_RET_REMOVE; VF_EV("notifier.self-unregister"); }
    return t->ret;
}
static void scn_notifier(void)
{
    BFDEV_DEFINE_NOTIFIER(h);
    int nk = 1 + vf_below(6), ops = 4 + vf_below(60), ub = 1 + vf_below(NN), live = 0;
    if (vf_chance(1, 2)) bfdev_notifier_init(&h);
    nhead = &h;
    for (int i = 0; i < NN; i++) { T[i] = vf_xmalloc(sizeof(nt_t)); memset(T[i], 0x33, sizeof(nt_t)); T[i]->id = i; T[i]->in = 0; }
    for (int i = 0; i < ops; i++) {
        int id = vf_below(ub), op = vf_below(8);
        if (op < 5) {
            if (!T[id]->in) {
                T[id]->n.priority = vf_chance(1, 10) ? (vf_chance(1, 2) ? INT_MIN : INT_MAX) : (int)vf_below(nk) - nk / 2;
                T[id]->n.pdata = T[id]; T[id]->n.entry = nt_entry;
                vf_op("register %d prio %d", id, T[id]->n.priority);
                if (vf_chance(1, 12)) {
                    T[id]->n.entry = NULL; VF_CHECK(bfdev_notifier_register(&h, &T[id]->n) < 0, "null-entry", "subscriber without callback accepted"); VF_EV("notifier.refused");
                } else { VF_EQ(bfdev_notifier_register(&h, &T[id]->n), 0, "register"); T[id]->in = 1; live++; VF_EV("notifier.register"); }
            } else { vf_op("unregister %d", id); bfdev_notifier_unregister(&h, &T[id]->n); T[id]->in = 0; live--; VF_EV("notifier.unregister"); }
        } else {
            unsigned lim = vf_chance(1, 2) ? ~0u : vf_below(live + 3), base = vf_below(5), called = base; bool count = vf_chance(3, 4); int r, stop = 0, removed = 0;
            for (int k = 0; k < NN; k++) { T[k]->ret = vf_chance(1, 6) ? (int)vf_below(4) : 0; T[k]->self_unreg = vf_chance(1, 16); }
            nclog = 0;
            vf_op("call limit %u live %d", lim, live);
            r = bfdev_notifier_call(&h, &argcookie, lim, count ? &called : NULL); VF_EV("notifier.call");
            if (count) VF_EQ(called - base, nclog, "called_num");
            for (int k = 0; k < nclog; k++) {
                nt_t *t = T[clog_[k]]; vf_obs(t->n.priority);
                VF_CHECK(t->in, "dead-call", "subscriber %d called though not registered", t->id);
                for (int m = 0; m < k; m++) VF_CHECK(clog_[m] != clog_[k], "twice", "subscriber %d called twice", clog_[k]);
                if (k) VF_CHECK(T[clog_[k - 1]]->n.priority <= t->n.priority, "priority-order", "priority %d called before %d", T[clog_[k - 1]]->n.priority, t->n.priority);
                if (t->ret & BFDEV_NOTIFI_RET_STOP) { VF_CHECK(k == nclog - 1, "stop", "calls went on after a stop"); stop = 1; }
            }
            if (!stop) VF_EQ(nclog, lim < live ? lim : live, "call-count");
            /* whoever was left out must not rank before whoever was called */
            if (nclog) for (int k = 0; k < NN; k++) if (T[k]->in) {
                int was = 0; for (int m = 0; m < nclog; m++) was |= clog_[m] == k;
                if (!was) VF_CHECK(T[k]->n.priority >= T[clog_[nclog - 1]]->n.priority, "skipped", "subscriber %d of priority %d was passed over", k, T[k]->n.priority);
            }
            VF_EQ(!!(r & BFDEV_NOTIFI_RET_STOP), stop, "stop-result");
            VF_EQ(!!(r & BFDEV_NOTIFI_RET_REMOVE), 0, "remove-result");
            VF_EQ(r, nclog ? T[clog_[nclog - 1]]->ret & ~BFDEV_NOTIFI_RET_REMOVE : BFDEV_NOTIFI_RET_DONE, "call-result");
            for (int k = 0; k < nclog; k++) if (T[clog_[k]]->self_unreg || T[clog_[k]]->ret & BFDEV_NOTIFI_RET_REMOVE) { T[clog_[k]]->in = 0; live--; removed++; VF_EV("notifier.removed"); }
            if (stop) VF_EV("notifier.stopped");
            vf_obs(nclog);
        }
    }
    for (int i = 0; i < NN; i++) free(T[i]);
}
VF_SCENARIOS({ "ilist", scn_ilist, 2 }, { "notifier", scn_notifier, 1 });
