/* C34: the lock-free list under concurrent pushes, pops and take-alls. */
#include "vf.h"
#include "vf_thread.h"
#include <time.h>
#include <bfdev/llist.h>

enum { NODES = 3000, EVTS = 6000 };
typedef struct { bfdev_slist_head_t list; int push; int owner; } node_t;
typedef struct { int64_t t0, t1, k0, k1; int id, taker, pos, batch, bpos; bool empty; } push_t; /* one node's entry: push interval, who took it where */
typedef struct { int64_t t0, t1; int first, len; bool lastnull; } take_t;
typedef struct { node_t *nd; int nn, np, nt, no; push_t p[EVTS]; take_t t[EVTS]; int order[EVTS]; int seq; } thr_t;
static bfdev_slist_head_t head; static thr_t T[VT_MAX]; static int ops, nth; static bool takeall, solo;
static int64_t now(void) { struct timespec s; clock_gettime(CLOCK_MONOTONIC, &s); return s.tv_sec * 1000000000LL + s.tv_nsec; }
static void push(int id, node_t **v, int n)
{
    thr_t *t = &T[id]; int b = t->seq++; bool one = n == 1 && vt_below(4); if (t->np + n > EVTS) return;
    for (int i = 0; i < n; i++) { push_t *p = &t->p[t->np + i]; *p = (push_t){ .id = id, .taker = -1, .batch = b, .bpos = i }; v[i]->push = id * EVTS + t->np + i; v[i]->owner = -1; if (i + 1 < n) v[i]->list.next = &v[i + 1]->list; }
    int64_t t0 = now(), t1; vt_delay();
    bool e = one ? bfdev_llist_add(&head, &v[0]->list) : bfdev_llist_split(&head, &v[0]->list, &v[n - 1]->list);
    t1 = now(); for (int i = 0; i < n; i++) { push_t *p = &t->p[t->np + i]; p->t0 = t0; p->t1 = t1; p->empty = e; } t->np += n;
}
static void push_new(int id) { thr_t *t = &T[id]; node_t *v[6]; int n = vt_below(3) ? 1 : 1 + vt_below(6); if (t->nn < n) return; for (int i = 0; i < n; i++) v[i] = &t->nd[--t->nn]; push(id, v, n); }
static void got(int id, node_t *nd)
{
    thr_t *t = &T[id]; int k = nd->push; if (nd->owner != -1) vf_fail("taken-twice", "an entry was handed out twice"); nd->owner = id;
    t->order[t->no++] = k;
}
static void take(int id)
{
    thr_t *t = &T[id]; if (t->nt >= EVTS || t->no > EVTS - NODES) return;
    take_t *k = &t->t[t->nt++]; node_t *v[8]; int n = 0, lim = 1 + vt_below(5); bool again = !vt_below(4); *k = (take_t){ .first = t->no, .t0 = now() }; vt_delay();
    if (takeall) {
        bfdev_slist_head_t *l = bfdev_llist_destroy(&head); k->t1 = now();
        while (l) { bfdev_slist_head_t *nx = l->next; node_t *nd = bfdev_container_of(l, node_t, list); got(id, nd); if (t->no - k->first > NODES) vf_fail("taken-cycle", "a taken chain does not end"); if (again && n < lim) v[n++] = nd; l = nx; }
        k->lastnull = t->no > k->first;
    } else {
        bfdev_slist_head_t *l = bfdev_llist_del(&head); k->t1 = now();
        if (l) { k->lastnull = !l->next; node_t *nd = bfdev_container_of(l, node_t, list); got(id, nd); if (again) v[n++] = nd; }
    }
    k->len = t->no - k->first;
    if (n) push(id, v, n);
}
static void th(int id)
{
    for (int i = 0; i < ops; i++) { vt_delay(); if (takeall) { if (vt_below(10) < 6) push_new(id); else take(id); } else if (id == 0) { if (solo && vt_below(3) == 0) push_new(id); else take(id); } else push_new(id); }
}
static int bystart(const void *a, const void *b) { const take_t *x = *(take_t *const *)a, *y = *(take_t *const *)b; return x->t0 < y->t0 ? -1 : x->t0 > y->t0; }
static int byend(const void *a, const void *b) { const take_t *x = *(take_t *const *)a, *y = *(take_t *const *)b; return x->t1 < y->t1 ? -1 : x->t1 > y->t1; }
static push_t *P(int k) { return &T[k / EVTS].p[k % EVTS]; }
static void scn(bool all)
{
    static take_t *st[VT_MAX * EVTS], *en[VT_MAX * EVTS]; int n = 2 + vf_below(5), m = 0, pushes = 0, taken = 0, empties = 0, drained = 0, mixed = 0; uint64_t sig = 0;
    takeall = all; solo = vf_chance(1, 2); nth = n; ops = 10 + vf_below(190); head.next = NULL;
    for (int i = 0; i < n; i++) { T[i].nd = vf_xcalloc(NODES / 2 * sizeof(node_t)); T[i].nn = NODES / 2; T[i].np = T[i].nt = T[i].no = T[i].seq = 0; }
    vf_op("%s: %d threads of %d", all ? "take-all" : "pop", n, ops); vt_run(n, th);
    /* the rest, by the one thread left */
    vt_me = &vt[0]; vt_me->jitter = 0; while (head.next) take(0);
    take(0);
    for (int i = 0; i < n; i++) { pushes += T[i].np; taken += T[i].no; for (int j = 0; j < T[i].nt; j++) { st[m] = en[m] = &T[i].t[j]; m++; drained += T[i].t[j].lastnull; } }
    for (int i = 0; i < n; i++) for (int j = 0, b = -1; j < T[i].np; j++) { if (T[i].p[j].batch != b) empties += T[i].p[j].empty; b = T[i].p[j].batch; }
    VF_EQ(taken, pushes, "exactly-once"); VF_EQ(empties, drained, "empty-report");
    for (int i = 0; i < n; i++) for (int j = 0; j < T[i].nt; j++) {
        take_t *k = &T[i].t[j]; int64_t minend = INT64_MAX; int who = -1; bool mix = false;
        for (int o = k->first; o < k->first + k->len; o++) {
            push_t *p = P(T[i].order[o]), *q = o > k->first ? P(T[i].order[o - 1]) : NULL;
            VF_CHECK(p->taker == -1, "exactly-once", "an entry was taken twice"); p->taker = i; p->pos = o; p->k0 = k->t0; p->k1 = k->t1; if (who != -1 && who != p->id) mix = true; who = p->id; sig = vf_mix64(sig ^ (p->id + 8 * i));
            if (all && p->bpos) VF_CHECK(q && q->id == p->id && q->batch == p->batch && q->bpos == p->bpos - 1, "batch-order", "a pushed batch came out torn or reordered");
            VF_CHECK(minend >= p->t0, "lifo", "an earlier push came out above a later one"); if (q && all && q->batch != p->batch && q->id == p->id) VF_CHECK(q->batch > p->batch, "lifo", "one thread's pushes came out in push order");
            if (!all || !(o + 1 < k->first + k->len) || P(T[i].order[o + 1])->batch != p->batch || P(T[i].order[o + 1])->id != p->id) if (p->t1 < minend) minend = p->t1;
        }
        mixed += mix;
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < T[i].np; j++) VF_CHECK(T[i].p[j].taker >= 0, "exactly-once", "a pushed entry was never taken");
    /* nothing pushed before one removal began is left for a removal that began after that one ended */
    qsort(st, m, sizeof *st, bystart); qsort(en, m, sizeof *en, byend); int64_t latest = INT64_MIN; int e = 0;
    if (all) for (int s = 0; s < m; s++) {
        while (e < m && en[e]->t1 < st[s]->t0) { if (en[e]->t0 > latest) latest = en[e]->t0; e++; }
        int i = 0; while (st[s] < T[i].t || st[s] >= T[i].t + EVTS) i++;
        for (int o = st[s]->first; o < st[s]->first + st[s]->len; o++) VF_CHECK(P(T[i].order[o])->t1 >= latest, "left-behind", "an entry pushed before a take-all began was taken by a later one");
    } else {
        /* one popper: a pop finding nothing, and last in first out by the clock */
        thr_t *t = &T[0]; int64_t mn = INT64_MAX; int nx = t->no;
        for (int j = t->nt; j--;) { take_t *k = &t->t[j]; while (nx > k->first + k->len) { push_t *p = P(t->order[--nx]); if (p->t1 < mn) mn = p->t1; } if (!k->len) { VF_CHECK(mn >= k->t0, "pop-empty", "a pop found nothing while an entry was in the list"); VF_EV("llist.pop_empty"); } }
        for (int a = 0; a < t->no; a++) for (int b = a + 1; b < t->no; b++) { push_t *x = P(t->order[a]), *y = P(t->order[b]);
            if (y->t1 < x->k0 && x->k1 <= y->k0) VF_CHECK(!(x->t1 < y->t0), "lifo", "an earlier push was popped before a later one that was in the list"); if (y->id == x->id && y->batch == x->batch && !(y->id == 0)) VF_CHECK(x->bpos < y->bpos, "batch-order", "a pushed batch was popped out of order"); }
    }
    VF_EVN("llist.pushes", pushes); VF_EVN("llist.empty_reports", empties); VF_EVN("llist.removals", m); VF_EVN("llist.mixed_takes", mixed);
    vf_obs(sig); vf_obs(empties); vf_obs(m); for (int i = 0; i < n; i++) free(T[i].nd);
}
static void scn_pop(void) { scn(false); }
static void scn_all(void) { scn(true); }
VF_SCENARIOS({ "popper", scn_pop, 1 }, { "takeall", scn_all, 1 });
