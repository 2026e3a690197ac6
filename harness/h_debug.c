/* C41: a checked build notices misuse of linked structures and of the block heap, says so, and leaves
 * everything as it was; it says nothing about legal use.  Every byte of every member, head and pool
 * is compared around each misuse. */
#include "vf.h"
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>
#include <bfdev/ilist.h>
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#include <bfdev/memalloc.h>
#include <bfdev/poison.h>
#include <bfdev/log.h>

static char rep[1024]; static int nrep; static unsigned lvl;
static int cap(bfdev_log_message_t *msg, void *pdata)
{
    (void)pdata; nrep++; if (msg->level < lvl) lvl = msg->level;
    snprintf(rep, sizeof rep, "%.*s", (int)msg->length, msg->buff); return msg->length;
}
static bfdev_log_write_t was;
static bool had[64];     /* has been a member */
static void begin(void) { memset(had, 0, sizeof had); was = bfdev_log_default.write; bfdev_log_default.write = cap; nrep = 0; lvl = 99; }
static void end(void) { bfdev_log_default.write = was; }
static void quiet(const char *what) { VF_CHECK(!nrep, "false-report", "legal %s was reported: %s", what, rep); VF_EV("debug.legal"); }

#define N 24
static unsigned char snap[65536];
static void *st; static size_t sz;
static void take(void *p, size_t n) { st = p; sz = n; memcpy(snap, p, n); nrep = 0; lvl = 99; }
static void refused(const char *what, const void *a, const void *b)
{
    char x[40], y[40];
    VF_CHECK(nrep > 0, "unreported", "%s went unreported", what);
    VF_CHECK(lvl <= BFDEV_LEVEL_ERR, "report-level", "%s reported at level %u only", what, lvl);
    snprintf(x, sizeof x, "%p", a); snprintf(y, sizeof y, "%p", b);
    VF_CHECK(strstr(rep, x) || strstr(rep, y), "report-names-no-member", "%s reported as '%s' without naming %s or %s", what, rep, x, y);
    VF_CHECK(!memcmp(snap, st, sz), "misuse-changed-something", "%s was reported (%s) but carried out or left traces", what, rep);
    vf_obs(nrep); vf_obs(strlen(what)); nrep = 0; lvl = 99; VF_EV("debug.refused");
}
static int pick_in(const int *in, int want)
{   /* a member with in[i] == want (want>=0), any member of any list (-2); or -1 */
    int c[N], n = 0;
    for (int i = 0; i < N; i++) if (want == -2 ? in[i] >= 0 : in[i] == want) c[n++] = i;
    return n ? c[vf_below(n)] : -1;
}

/* ---- doubly linked ---- */
static void scn_list(void)
{
    struct { bfdev_list_head_t h[3], n[N]; } *s = vf_xcalloc(sizeof *s); int in[N]; bfdev_list_head_t *a, *b, *keep;
    begin();
    for (int i = 0; i < 3; i++) bfdev_list_head_init(&s->h[i]);
    for (int i = 0; i < N; i++) { in[i] = -1; s->n[i].next = s->n[i].prev = NULL; }
    for (int step = 30 + vf_below(60); step--;) {
        int i = vf_below(N), l = vf_below(3), j = pick_in(in, l);
        a = j >= 0 && vf_chance(3, 4) ? &s->n[j] : &s->h[l]; vf_op("list op on %d list %d pos %d", i, l, j);
        if (vf_chance(2, 3)) {     /* legal */
            if (in[i] < 0) { in[i] = l; if (vf_chance(1, 2)) bfdev_list_add(a, &s->n[i]); else bfdev_list_add_prev(a, &s->n[i]); }
            else if (vf_chance(1, 2)) { bfdev_list_del(&s->n[i]); in[i] = -1; }
            else if (a != &s->n[i]) { in[i] = l; if (vf_chance(1, 2)) bfdev_list_move(a, &s->n[i]); else bfdev_list_move_prev(a, &s->n[i]); }
            quiet("list operation"); had[i] = true; vf_obs(i << 1 | 1); continue;
        }
        switch (vf_below(8)) {
        case 0: i = pick_in(in, -1); if (i < 0 || !had[i]) break;
            take(s, sizeof *s); bfdev_list_del(&s->n[i]); refused("removing a list member twice", &s->n[i], NULL); VF_EV("debug.list_del"); break;
        case 1: if (in[i] < 0) break; keep = s->n[i].next; s->n[i].next = BFDEV_POISON_LIST1;
            take(s, sizeof *s); bfdev_list_del(&s->n[i]); refused("removing a list member with a dead next link", &s->n[i], NULL); s->n[i].next = keep; VF_EV("debug.list_del"); break;
        case 2: if (in[i] < 0) break; keep = s->n[i].prev; s->n[i].prev = BFDEV_POISON_LIST2;
            take(s, sizeof *s); bfdev_list_del(&s->n[i]); refused("removing a list member with a dead prev link", &s->n[i], NULL); s->n[i].prev = keep; VF_EV("debug.list_del"); break;
        case 3: if (in[i] < 0) break;
            take(s, sizeof *s); bfdev_list_add(&s->n[i], &s->n[i]); refused("adding a list member after itself", &s->n[i], NULL); VF_EV("debug.list_add"); break;
        case 4: if (in[i] < 0) break;
            take(s, sizeof *s); bfdev_list_add_prev(s->n[i].next, &s->n[i]); refused("adding a list member where it already is", &s->n[i], NULL); VF_EV("debug.list_add"); break;
        case 5: if (in[i] < 0) break;
            take(s, sizeof *s); bfdev_list_add(s->n[i].prev, &s->n[i]); refused("adding a list member where it already is", &s->n[i], NULL); VF_EV("debug.list_add"); break;
        case 6:     /* a neighbour's back link is wrong */
            i = pick_in(in, -1); if (i < 0) break; b = a->next; keep = b->prev; b->prev = &s->n[(i + 1 + vf_below(N - 1)) % N]; if (b->prev == keep) { break; }
            take(s, sizeof *s); bfdev_list_add(a, &s->n[i]); refused("adding between members that do not point at each other", a, b); b->prev = keep; VF_EV("debug.list_add"); break;
        case 7:     /* a neighbour's forward link is wrong */
            i = pick_in(in, -1); if (i < 0) break; b = a->prev; keep = b->next; b->next = &s->n[(i + 1 + vf_below(N - 1)) % N]; if (b->next == keep) { break; }
            take(s, sizeof *s); bfdev_list_add_prev(a, &s->n[i]); refused("adding between members that do not point at each other", a, b); b->next = keep; VF_EV("debug.list_add"); break;
        }
    }
    end(); free(s);
}

/* ---- singly linked ---- */
static void scn_slist(void)
{
    struct { bfdev_slist_head_t h[2], n[N]; } *s = vf_xcalloc(sizeof *s); int in[N];
    begin();
    for (int i = 0; i < 2; i++) bfdev_slist_head_init(&s->h[i]);
    for (int i = 0; i < N; i++) in[i] = -1;
    for (int step = 30 + vf_below(60); step--;) {
        int i = vf_below(N), l = vf_below(2), j = pick_in(in, l); bfdev_slist_head_t *a = j >= 0 && vf_chance(3, 4) ? &s->n[j] : &s->h[l], *p;
        vf_op("slist op on %d list %d pos %d", i, l, j);
        if (vf_chance(2, 3)) {
            if (in[i] < 0) { in[i] = l; bfdev_slist_add(a, &s->n[i]); }
            else { bfdev_slist_del(&s->h[in[i]], &s->n[i]); in[i] = -1; }
            quiet("slist operation"); had[i] = true; vf_obs(i << 1 | 1); continue;
        }
        switch (vf_below(3)) {
        case 0: i = pick_in(in, -1); if (i < 0 || !had[i]) break;
            take(s, sizeof *s); bfdev_slist_del(&s->h[l], &s->n[i]); refused("removing an slist member twice", &s->n[i], NULL); VF_EV("debug.slist_del"); break;
        case 1: if (in[i] < 0) break;
            take(s, sizeof *s); bfdev_slist_add(&s->n[i], &s->n[i]); refused("adding an slist member after itself", &s->n[i], NULL); VF_EV("debug.slist_add"); break;
        case 2: if (in[i] < 0) break; for (p = &s->h[in[i]]; p->next != &s->n[i]; p = p->next);
            take(s, sizeof *s); bfdev_slist_add(p, &s->n[i]); refused("adding an slist member where it already is", &s->n[i], p); VF_EV("debug.slist_add"); break;
        }
    }
    end(); free(s);
}

/* ---- bucket lists ---- */
static void scn_hlist(void)
{
    struct { bfdev_hlist_head_t h[3]; bfdev_hlist_node_t n[N]; } *s = vf_xcalloc(sizeof *s); int in[N]; void *keep;
    begin();
    for (int i = 0; i < 3; i++) bfdev_hlist_head_init(&s->h[i]);
    for (int i = 0; i < N; i++) { in[i] = -1; bfdev_hlist_node_init(&s->n[i]); }
    for (int step = 30 + vf_below(60); step--;) {
        int i = vf_below(N), l = vf_below(3), j = pick_in(in, l); vf_op("hlist op on %d list %d pos %d", i, l, j);
        if (vf_chance(2, 3)) {
            if (in[i] < 0) {
                in[i] = l;
                if (j < 0 || vf_chance(1, 3)) bfdev_hlist_head_add(&s->h[l], &s->n[i]);
                else if (vf_chance(1, 2)) bfdev_hlist_next_add(&s->n[j], &s->n[i]); else bfdev_hlist_prev_add(&s->n[j], &s->n[i]);
            } else { bfdev_hlist_del(&s->n[i]); in[i] = -1; }
            quiet("hlist operation"); had[i] = true; vf_obs(i << 1 | 1); continue;
        }
        switch (vf_below(6)) {
        case 0: i = pick_in(in, -1); if (i < 0 || !had[i]) break;
            take(s, sizeof *s); bfdev_hlist_del(&s->n[i]); refused("removing an hlist member twice", &s->n[i], NULL); VF_EV("debug.hlist_del"); break;
        case 1: if (in[i] < 0) break; keep = s->n[i].next; s->n[i].next = BFDEV_POISON_HLIST1;
            take(s, sizeof *s); bfdev_hlist_del(&s->n[i]); refused("removing an hlist member with a dead next link", &s->n[i], NULL); s->n[i].next = keep; VF_EV("debug.hlist_del"); break;
        case 2: if (in[i] < 0) break; keep = s->n[i].pprev; s->n[i].pprev = BFDEV_POISON_HLIST2;
            take(s, sizeof *s); bfdev_hlist_del(&s->n[i]); refused("removing an hlist member with a dead back link", &s->n[i], NULL); s->n[i].pprev = keep; VF_EV("debug.hlist_del"); break;
        case 3: if (!s->h[l].node) break;
            take(s, sizeof *s); bfdev_hlist_head_add(&s->h[l], s->h[l].node); refused("adding an hlist member that is already first", s->h[l].node, &s->h[l]); VF_EV("debug.hlist_add"); break;
        case 4: if (in[i] < 0 || !s->n[i].next) break;
            take(s, sizeof *s); bfdev_hlist_next_add(&s->n[i], s->n[i].next); refused("adding an hlist member where it already is", s->n[i].next, &s->n[i]); VF_EV("debug.hlist_add"); break;
        case 5: if (in[i] < 0 || !s->n[i].next) break;
            take(s, sizeof *s); bfdev_hlist_prev_add(s->n[i].next, &s->n[i]); refused("adding an hlist member where it already is", s->n[i].next, &s->n[i]); VF_EV("debug.hlist_add"); break;
        }
    }
    end(); free(s);
}

/* ---- indexed lists ---- */
typedef struct { bfdev_ilist_node_t n; int key; } inode_t;
static long icmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pd)
{ (void)pd; return ((const inode_t *)a)->key - ((const inode_t *)b)->key; }
static void scn_ilist(void)
{
    struct { bfdev_ilist_head_t h; inode_t n[N]; } *s = vf_xcalloc(sizeof *s); int in[N];
    begin(); bfdev_ilist_head_init(&s->h);
    for (int i = 0; i < N; i++) { in[i] = -1; bfdev_ilist_node_init(&s->n[i].n); s->n[i].key = vf_below(6); }
    for (int step = 30 + vf_below(60); step--;) {
        int i = vf_below(N); vf_op("ilist op on %d key %d", i, s->n[i].key);
        if (vf_chance(2, 3)) {
            if (in[i] < 0) { in[i] = 0; s->n[i].key = vf_below(6); bfdev_ilist_add(&s->h, &s->n[i].n, icmp, NULL); }
            else { in[i] = -1; bfdev_ilist_del(&s->h, &s->n[i].n); }
            quiet("ilist operation"); vf_obs(i << 1 | 1); continue;
        }
        if (vf_chance(1, 6)) {      /* adding what is already in is ignored */
            if (in[i] < 0) continue;
            take(s, sizeof *s); bfdev_ilist_add(&s->h, &s->n[i].n, icmp, NULL);
            VF_CHECK(!memcmp(snap, s, sizeof *s), "misuse-changed-something", "adding an ilist member again changed something"); VF_EV("debug.ilist_again"); continue;
        }
        bfdev_ilist_node_t *f; bfdev_list_head_t *bad, *keep, *p, *st0; int k = 0, idx = vf_chance(1, 2);
        if (s->h.node_list.next == &s->h.node_list) continue;
        f = bfdev_ilist_first(&s->h); st0 = idx ? &f->index_list : &s->h.node_list;
        for (p = st0; k++, (p = p->next) != st0;);
        for (bad = st0, k = vf_below(k); k--; bad = bad->next);
        keep = bad->prev; bad->prev = &s->n[vf_below(N)].n.node_list; if (bad->prev == keep) { continue; }
        bool add = vf_chance(1, 2); i = pick_in(in, add ? -1 : 0); if (i < 0) { bad->prev = keep; continue; }
        take(s, sizeof *s);
        if (add) bfdev_ilist_add(&s->h, &s->n[i].n, icmp, NULL); else bfdev_ilist_del(&s->h, &s->n[i].n);
        refused(idx ? "changing an indexed list whose index is broken" : "changing an indexed list whose chain is broken", bad, idx ? bad : (void *)&s->h.node_list); bad->prev = keep;
        if (idx) VF_EV("debug.ilist_index"); else VF_EV("debug.ilist_chain");
    }
    end(); free(s);
}

/* ---- trees ---- */
typedef struct { bfdev_rb_node_t n; long key; long agg; } rnode_t;
static long rcmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pd)
{ (void)pd; return ((const rnode_t *)a)->key < ((const rnode_t *)b)->key ? -1 : 1; }
static long ragg(rnode_t *n)
{
    long m = n->key; rnode_t *l = (rnode_t *)n->n.left, *r = (rnode_t *)n->n.right;
    if (l && l->agg > m) m = l->agg;
    if (r && r->agg > m) m = r->agg;
    return m;
}
static void cb_rotate(bfdev_rb_node_t *node, bfdev_rb_node_t *succ) { ((rnode_t *)succ)->agg = ((rnode_t *)node)->agg; ((rnode_t *)node)->agg = ragg((rnode_t *)node); }
static void cb_copy(bfdev_rb_node_t *node, bfdev_rb_node_t *succ) { ((rnode_t *)succ)->agg = ((rnode_t *)node)->agg; }
static void cb_prop(bfdev_rb_node_t *node, bfdev_rb_node_t *stop)
{
    for (; node != stop; node = node->parent) { long a = ragg((rnode_t *)node); if (a == ((rnode_t *)node)->agg) break; ((rnode_t *)node)->agg = a; }
}
static const bfdev_rb_callbacks_t rcbs = { .rotate = cb_rotate, .copy = cb_copy, .propagate = cb_prop };
static void scn_rbtree(void)
{
    struct { bfdev_rb_root_cached_t c; rnode_t n[N]; } *s = vf_xcalloc(sizeof *s); int in[N], kind = vf_below(4); void *keep, **slot;
    begin(); s->c.root.node = NULL;
    for (int i = 0; i < N; i++) in[i] = -1;
#define RBINS(i) do { s->n[i].key = s->n[i].agg = (long)vf_below(50); \
        kind == 0 ? bfdev_rb_insert(&s->c.root, &s->n[i].n, rcmp, NULL) : kind == 1 ? bfdev_rb_insert_augmented(&s->c.root, &s->n[i].n, rcmp, NULL, &rcbs) \
        : kind == 2 ? bfdev_rb_cached_insert(&s->c, &s->n[i].n, rcmp, NULL) : bfdev_rb_cached_insert_augmented(&s->c, &s->n[i].n, rcmp, NULL, &rcbs); } while (0)
#define RBDEL(i) do { switch (kind) { case 0: bfdev_rb_delete(&s->c.root, &s->n[i].n); break; case 1: bfdev_rb_delete_augmented(&s->c.root, &s->n[i].n, &rcbs); break; \
        case 2: bfdev_rb_cached_delete(&s->c, &s->n[i].n); break; default: bfdev_rb_cached_delete_augmented(&s->c, &s->n[i].n, &rcbs); } } while (0)
    for (int step = 30 + vf_below(60); step--;) {
        int i = vf_below(N); vf_op("rbtree kind %d op on %d", kind, i);
        if (vf_chance(2, 3)) {
            if (in[i] < 0) { in[i] = 0; RBINS(i); } else { in[i] = -1; RBDEL(i); }
            quiet("rbtree operation"); had[i] = true; vf_obs(i << 1 | 1); continue;
        }
        switch (vf_below(3)) {
        case 0: i = pick_in(in, -1); if (i < 0 || !had[i]) break;
            take(s, sizeof *s); RBDEL(i); refused("removing a tree member twice", &s->n[i].n, NULL); VF_EV("debug.rb_del"); break;
        case 1: if (in[i] < 0 || s->c.leftmost == &s->n[i].n) break;
            switch (vf_below(3)) {
            case 0: slot = (void **)&s->n[i].n.left; keep = *slot; *slot = BFDEV_POISON_RBNODE1; break;
            case 1: slot = (void **)&s->n[i].n.right; keep = *slot; *slot = BFDEV_POISON_RBNODE2; break;
            default: slot = (void **)&s->n[i].n.parent; keep = *slot; *slot = BFDEV_POISON_RBNODE3; }
            take(s, sizeof *s); RBDEL(i); refused("removing a tree member with one dead link", &s->n[i].n, NULL); *slot = keep; VF_EV("debug.rb_del"); break;
        case 2: if (in[i] < 0) break;
            bfdev_rb_node_t *p = s->n[i].n.parent, **link = !p ? &s->c.root.node : p->left == &s->n[i].n ? &p->left : &p->right;
            take(s, sizeof *s); bfdev_rb_link(p, link, &s->n[i].n); refused("linking a tree member where it already is", &s->n[i].n, link); VF_EV("debug.rb_link"); break;
        }
    }
    end(); free(s);
}

typedef struct { bfdev_heap_node_t n; long key; } hnode_t;
static long hcmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pd)
{ (void)pd; long x = ((const hnode_t *)a)->key, y = ((const hnode_t *)b)->key; return x < y ? -1 : x > y; }
static void scn_heap(void)
{
    struct { bfdev_heap_root_t r; hnode_t n[N]; } *s = vf_xcalloc(sizeof *s); int in[N]; void *keep, **slot;
    begin(); s->r.node = NULL;
    for (int i = 0; i < N; i++) in[i] = -1;
    for (int step = 30 + vf_below(60); step--;) {
        int i = vf_below(N); vf_op("heap op on %d", i);
        if (vf_chance(2, 3)) {
            if (in[i] < 0) { in[i] = 0; s->n[i].key = vf_below(40); bfdev_heap_insert(&s->r, &s->n[i].n, hcmp, NULL); }
            else { in[i] = -1; bfdev_heap_delete(&s->r, &s->n[i].n, hcmp, NULL); }
            quiet("heap operation"); had[i] = true; vf_obs(i << 1 | 1); continue;
        }
        switch (vf_below(3)) {
        case 0: i = pick_in(in, -1); if (i < 0 || !had[i]) break;
            take(s, sizeof *s); bfdev_heap_delete(&s->r, &s->n[i].n, hcmp, NULL); refused("removing a heap member twice", &s->n[i].n, NULL); VF_EV("debug.heap_del"); break;
        case 1: if (in[i] < 0) break;
            switch (vf_below(3)) {
            case 0: slot = (void **)&s->n[i].n.left; keep = *slot; *slot = BFDEV_POISON_HPNODE1; break;
            case 1: slot = (void **)&s->n[i].n.right; keep = *slot; *slot = BFDEV_POISON_HPNODE2; break;
            default: slot = (void **)&s->n[i].n.parent; keep = *slot; *slot = BFDEV_POISON_HPNODE3; }
            take(s, sizeof *s); bfdev_heap_delete(&s->r, &s->n[i].n, hcmp, NULL); refused("removing a heap member with one dead link", &s->n[i].n, NULL); *slot = keep; VF_EV("debug.heap_del"); break;
        case 2: if (in[i] < 0) break;
            bfdev_heap_node_t *p = s->n[i].n.parent, **link = !p ? &s->r.node : p->left == &s->n[i].n ? &p->left : &p->right;
            take(s, sizeof *s); bfdev_heap_link(&s->r, p, link, &s->n[i].n); refused("linking a heap member where it already is", &s->n[i].n, link); VF_EV("debug.heap_link"); break;
        }
    }
    end(); free(s);
}

/* ---- block heap ---- */
#define POOL 6144
static void scn_memalloc(void)
{
    struct { bfdev_memalloc_head_t h; char pool[POOL] __attribute__((aligned(16))); } *s = vf_xcalloc(sizeof *s);
    void *live[N], *gone[N]; int i; bfdev_memalloc_find_t f[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    begin(); bfdev_memalloc_init(&s->h, f[vf_below(3)], s->pool, POOL);
    memset(live, 0, sizeof live); memset(gone, 0, sizeof gone);
    for (int step = 30 + vf_below(60); step--;) {
        i = vf_below(N); vf_op("memalloc op on %d", i);
        if (vf_chance(2, 3)) {
            if (!live[i]) {     /* no block that was freed may be named again once anything was handed out */
                size_t n = 1 + vf_below(400); memset(gone, 0, sizeof gone);
                if ((live[i] = bfdev_memalloc_alloc(&s->h, n))) memset(live[i], 0x11 * (i & 7), n);
            } else if (vf_chance(1, 3)) { void *q; memset(gone, 0, sizeof gone); if ((q = bfdev_memalloc_realloc(&s->h, live[i], 1 + vf_below(500)))) live[i] = q; }
            else { bfdev_memalloc_free(&s->h, live[i]); gone[i] = live[i]; live[i] = NULL; }
            quiet("block heap operation"); vf_obs(i << 1 | 1); continue;
        }
        if (!gone[i]) continue;
        take(s, sizeof *s);
        if (vf_chance(1, 2)) { bfdev_memalloc_free(&s->h, gone[i]); refused("freeing a block twice", gone[i], gone[i]); VF_EV("debug.block_free"); }
        else { VF_PEQ(bfdev_memalloc_realloc(&s->h, gone[i], vf_below(600)), NULL, "dead-block-resized"); refused("resizing a freed block", gone[i], gone[i]); VF_EV("debug.block_realloc"); }
    }
    end(); free(s);
}
VF_SCENARIOS({ "list", scn_list, 1 }, { "slist", scn_slist, 1 }, { "hlist", scn_hlist, 1 }, { "ilist", scn_ilist, 1 },
             { "rbtree", scn_rbtree, 1 }, { "heap", scn_heap, 1 }, { "memalloc", scn_memalloc, 1 });
