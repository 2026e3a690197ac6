/* C03: sorting and searching. */
#include "vf.h"
#include <sys/resource.h>
#include <bfdev/types.h>
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/list.h>

static int rank_[256]; static char cookie; static int cmpmode;
static const char *lo, *hi; static size_t cell;
static size_t ncmp;
static void mk_rank(void)
{
    int kinds = vf_chance(1, 4) ? 1 + vf_below(3) : 256, rev = vf_chance(1, 2);
    for (int i = 0; i < 256; i++) rank_[i] = kinds == 256 ? i : (int)vf_below(kinds);
    if (rev) for (int i = 0; i < 256; i++) rank_[i] = -rank_[i];
    cmpmode = vf_below(3);
}
static long sgn(int a, int b)
{
    if (cmpmode == 0) return a < b ? -1 : a > b;
    if (cmpmode == 1) return (long)a - b;
    return a < b ? LONG_MIN : a > b ? LONG_MAX : 0;
}
static long acmp(const void *a, const void *b, void *pd)
{
    ncmp++;
    VF_CHECK(pd == &cookie, "pdata", "comparison got %p", pd);
    VF_CHECK((char *)a >= lo && (char *)a + cell <= hi && ((char *)a - lo) % cell == 0, "operand", "comparison on an address that is no element");
    VF_CHECK((char *)b >= lo && (char *)b + cell <= hi && ((char *)b - lo) % cell == 0, "operand", "comparison on an address that is no element");
    return sgn(rank_[*(unsigned char *)a], rank_[*(unsigned char *)b]);
}
static size_t qcell; static int qcmp(const void *a, const void *b) { return memcmp(a, b, qcell); }

static size_t pick_n(void)
{
    switch (vf_below(8)) { case 0: return vf_below(4); case 1: return 2 + vf_below(6); case 2: case 3: return 2 + vf_below(20); case 4: return 1 + vf_below(70);
    case 5: return (size_t)1 << vf_below(8); case 6: return ((size_t)1 << vf_below(8)) + 1; default: return vf_below(vf_deep ? 3000 : 400); }
}
static void gen_keys(unsigned char *k, size_t n)
{
    int mode = vf_below(7), m = 1 + vf_below(255);
    for (size_t i = 0; i < n; i++) switch (mode) {
    case 0: k[i] = i * 255 / (n ? n : 1); break;
    case 1: k[i] = 255 - i * 255 / (n ? n : 1); break;
    case 2: k[i] = 7; break;
    case 3: k[i] = (i < n / 2 ? i : n - i) & 255; break;
    case 4: k[i] = i % m; break;
    case 5: k[i] = vf_below(m); break;
    default: k[i] = vf_rand(); }
}
static void scn_sort(void)
{
    static const size_t cells[] = { 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 24, 40, 64, 100 };
    size_t n = pick_n(); int r;
    cell = cells[vf_below(sizeof cells / sizeof *cells)];
    unsigned char *k = vf_xmalloc(n), *a = vf_xmalloc(n * cell), *o;
    gen_keys(k, n); mk_rank();
    for (size_t i = 0; i < n; i++) { a[i * cell] = k[i]; for (size_t j = 1; j < cell; j++) a[i * cell + j] = j == 1 ? i : j == 2 ? i >> 8 : vf_rand(); }
    o = vf_dup(a, n * cell);
    lo = (char *)a; hi = lo + n * cell; ncmp = 0;
    vf_op("sort n=%zu cell=%zu", n, cell);
    r = bfdev_sort(a, n, cell, acmp, &cookie); VF_EV("sort");
    if (n > 1) VF_EQ(r, 0, "sort-result");
    for (size_t i = 1; i < n; i++) VF_CHECK(rank_[a[(i - 1) * cell]] <= rank_[a[i * cell]], "order", "element %zu of %zu (size %zu) out of order", i, n, cell);
    vf_obs_mem(a, n * cell); vf_obs(ncmp);
    qcell = cell; qsort(a, n, cell, qcmp); qsort(o, n, cell, qcmp);
    VF_CHECK(!n || !memcmp(a, o, n * cell), "permutation", "result is not a permutation of the input (n=%zu cell=%zu)", n, cell);
    free(a); free(o); free(k);
}

/* elements larger than the stack; every 4099th byte belongs to the element it travels with */
static void scn_sort_big(void)
{
    struct rlimit rl = { 8 << 20, 8 << 20 }; setrlimit(RLIMIT_STACK, &rl);
    size_t n = 2 + vf_below(4), at; cell = ((size_t)9 << 20) + vf_below(3 << 20); unsigned char *a = vf_xmalloc(n * cell), seen[8] = { 0 }, key[8]; mk_rank();
    for (size_t i = 0; i < n; i++) { for (at = 1; at < cell; at += 4099) a[i * cell + at] = i; a[i * cell + cell - 1] = i; a[i * cell] = key[i] = vf_rand(); }
    lo = (char *)a; hi = lo + n * cell; vf_op("sort n=%zu cell=%zu", n, cell); VF_EQ(bfdev_sort(a, n, cell, acmp, &cookie), 0, "sort-result");
    for (size_t i = 0; i < n; i++) { unsigned char *e = a + i * cell, id = e[1]; VF_CHECK(id < n && !seen[id] && key[id] == e[0], "permutation", "big elements mixed up"); seen[id] = 1; for (at = 1; at < cell; at += 4099) VF_CHECK(e[at] == id, "permutation", "an element was torn apart at %zu", at); VF_EQ(e[cell - 1], id, "permutation"); if (i) VF_CHECK(rank_[e[-(long)cell]] <= rank_[e[0]], "order", "element %zu out of order", i); vf_obs(id); }
    free(a); VF_EV("sort.big");
}

typedef struct { int id; unsigned char key; bfdev_list_head_t l; } ent_t;
static long lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pd)
{
    VF_CHECK(pd == &cookie, "pdata", "comparison got %p", pd);
    return sgn(rank_[bfdev_list_entry(a, ent_t, l)->key], rank_[bfdev_list_entry(b, ent_t, l)->key]);
}
static void scn_list_sort(void)
{
    size_t n = pick_n(), i = 0; BFDEV_LIST_HEAD(h); ent_t *e, *p; unsigned char *k = vf_xmalloc(n), *seen = vf_xcalloc(n);
    ent_t **all = vf_xmalloc(n * sizeof *all);
    gen_keys(k, n); mk_rank();
    for (i = 0; i < n; i++) { all[i] = e = vf_xmalloc(sizeof *e); e->id = i; e->key = k[i]; bfdev_list_add_prev(&h, &e->l); }
    vf_op("list_sort n=%zu", n);
    bfdev_list_sort(&h, lcmp, &cookie); VF_EV("list_sort");
    i = 0; p = NULL;
    bfdev_list_for_each_entry(e, &h, l) {
        VF_CHECK(i < n, "list-permutation", "more elements than before");
        VF_CHECK(!seen[e->id], "list-permutation", "element twice"); seen[e->id] = 1;
        if (p) {
            VF_CHECK(rank_[p->key] <= rank_[e->key], "list-order", "position %zu of %zu out of order", i, n);
            if (rank_[p->key] == rank_[e->key]) VF_CHECK(p->id < e->id, "stability", "equal elements %d and %d swapped (n=%zu)", p->id, e->id, n);
        }
        p = e; i++; vf_obs(e->id);
    }
    VF_EQ(i, n, "list-permutation");
    p = NULL; i = 0;
    bfdev_list_for_each_entry_reverse(e, &h, l) { VF_CHECK(i < n, "list-backward", "backward walk too long"); if (p) VF_PEQ(bfdev_list_next_entry(e, l), p, "list-backward"); p = e; i++; }
    VF_EQ(i, n, "list-backward");
    for (i = 0; i < n; i++) free(all[i]);
    free(k); free(seen); free(all);
}

static int want;
static long find(const void *node, void *pd)
{
    int v;
    VF_CHECK(pd == &want, "pdata", "search callback got %p", pd);
    VF_CHECK((char *)node >= lo && (char *)node + cell <= hi && ((char *)node - lo) % cell == 0, "operand", "probe of an address that is no element");
    ncmp++;
    memcpy(&v, node, sizeof v);
    return sgn(v, want);
}
static void scn_bsearch(void)
{
    size_t n = pick_n(), i; int v = -50 + (int)vf_below(100), step = vf_below(4); char *a, *r;
    cell = sizeof(int) + vf_below(3) * 4; a = vf_xmalloc(n * cell); cmpmode = vf_below(3);
    for (i = 0; i < n; i++) { memset(a + i * cell, 0, cell); memcpy(a + i * cell, &v, sizeof v); v += step ? (int)vf_below(step + 1) : 1; }
    lo = a; hi = a + n * cell;
    for (int t = 0; t < 12; t++) {
        bool have = false; int x;
        if (n && t < 8) memcpy(&want, a + (t == 0 ? 0 : t == 1 ? n - 1 : vf_below(n)) * cell, sizeof want); else want = vf_range(-120, 800);
        if (t > 4) want += vf_range(-1, 1);
        for (i = 0; i < n; i++) { memcpy(&x, a + i * cell, sizeof x); have |= x == want; }
        ncmp = 0;
        r = t & 1 ? bfdev_bsearch(a, n, cell, find, &want) : bfdev_bsearch_inline(a, n, cell, find, &want); VF_EV("bsearch");
        if (!have) VF_PEQ(r, NULL, "bsearch-false-hit");
        else {
            VF_CHECK(r, "bsearch-miss", "value %d present in %zu elements but not found", want, n);
            VF_CHECK(r >= lo && r + cell <= hi && (r - lo) % cell == 0, "bsearch-address", "result is no element");
            memcpy(&x, r, sizeof x); VF_EQ(x, want, "bsearch-value"); VF_EV("bsearch.hit");
        }
        VF_CHECK(ncmp <= 64, "bsearch-probes", "%zu probes", ncmp);
        vf_obs(have); vf_obs(r ? r - a : -1);
    }
    free(a);
}
VF_SCENARIOS({ "sort", scn_sort, 80 }, { "list_sort", scn_list_sort, 80 }, { "bsearch", scn_bsearch, 40 }, { "sort_big", scn_sort_big, 1 });
