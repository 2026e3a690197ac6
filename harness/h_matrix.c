/* C37: matrices and edit distance. */
#include "vf.h"
#include <bfdev/matrix.h>
#include <bfdev/levenshtein.h>
#include <bfdev/errno.h>

typedef BFDEV_MATRIX_TYPE E;
typedef struct { bfdev_matrix_t m; E *v; unsigned r, c; } mat_t; /* r == 0: nothing assigned yet */
static E val(int how) { return how == 0 ? (E)vf_range(-9, 9) : how == 1 ? (E)vf_edge64() : (E)vf_rand(); }
static void model(mat_t *x, unsigned r, unsigned c, const E *v) { E *n = vf_xmalloc(r * c * sizeof *n); memcpy(n, v, r * c * sizeof *n); free(x->v); x->v = n; x->r = r; x->c = c; }
static void cmp(mat_t *x, bool all)
{
    VF_EQ(x->m.row, x->r, "rows"); VF_EQ(x->m.col, x->c, "columns"); if (!x->r) return;
    for (unsigned i = 0; i < x->r; i++) for (unsigned j = 0; j < x->c; j++) { if (!all && vf_chance(3, 4)) continue; const E *p = bfdev_matrix_data(&x->m, i, j); VF_CHECK(p, "data", "no element at %u,%u of %ux%u", i, j, x->r, x->c); VF_CHECK(*p == x->v[i * x->c + j], "element", "element %u,%u of %ux%u is %#lx, wanted %#lx", i, j, x->r, x->c, (long)*p, (long)x->v[i * x->c + j]); }
    for (int i = 0; i < 4; i++) {
        unsigned a = x->r, b = x->c, r = vf_below(a), c = vf_below(b);
        if (i == 0) r = a; else if (i == 1) c = b; else if (i == 2) r = a + vf_below(20); else if (vf_chance(1, 2)) r = UINT_MAX - vf_below(3); else c = b + vf_below(9);
        VF_CHECK(!bfdev_matrix_data(&x->m, r, c), "data-range", "element %u,%u of %ux%u was handed out", r, c, a, b);
    }
    VF_EV("matrix.compared"); vf_obs_mem(x->v, x->r * x->c * sizeof *x->v);
}
static void scn_matrix(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); enum { N = 4 }; mat_t x[N] = { 0 }; int how = vf_below(3), small = vf_below(3) ? 4 : 17;
    for (int i = 0; i < N; i++) if (i & 1) bfdev_matrix_init(&x[i].m, &al); else x[i].m = BFDEV_MATRIX_INIT(&al);
    unsigned dim = 1 + vf_below(small); bool square = vf_chance(1, 2);
    for (int k = 4 + vf_below(24); k--;) {
        int d = vf_below(N), a = vf_below(N), b = vf_below(N), op = vf_below(12), ret; mat_t *D = &x[d], *P = &x[a], *Q = &x[b];
        if (op >= 4 && (!P->r || !Q->r)) op = 0;
        switch (op) {
        case 0: case 1: case 2: case 3: {
            unsigned r = square ? dim : 1 + vf_below(small), c = square ? dim : vf_chance(1, 3) ? dim : 1 + vf_below(small); E *t = vf_xmalloc(r * c * sizeof *t); for (unsigned i = 0; i < r * c; i++) t[i] = val(how);
            vf_op("import %d %ux%u", d, r, c); ret = bfdev_matrix_import(&D->m, t, r, c); VF_EQ(ret, 0, "import"); model(D, r, c, t); free(t); VF_EV("matrix.imports"); break; }
        case 4: case 5: {
            bool sub = vf_chance(1, 2), ok = P->r == Q->r && P->c == Q->c; vf_op("%s %d=%d,%d", sub ? "sub" : "add", d, a, b); ret = sub ? bfdev_matrix_sub(&D->m, &P->m, &Q->m) : bfdev_matrix_add(&D->m, &P->m, &Q->m);
            VF_EQ(ret, ok ? 0 : -BFDEV_EINVAL, "addsub"); if (!ok) { VF_EV("matrix.refused"); break; }
            E *t = vf_xmalloc(P->r * P->c * sizeof *t); for (unsigned i = 0; i < P->r * P->c; i++) t[i] = sub ? P->v[i] - Q->v[i] : P->v[i] + Q->v[i]; model(D, P->r, P->c, t); free(t); VF_EV("matrix.addsub"); break; }
        case 6: case 7: case 8: {
            bool ok = P->c == Q->r; vf_op("mul %d=%d,%d", d, a, b); ret = bfdev_matrix_mul(&D->m, &P->m, &Q->m); VF_EQ(ret, ok ? 0 : -BFDEV_EINVAL, "mul"); if (!ok) { VF_EV("matrix.refused"); break; }
            unsigned r = P->r, c = Q->c; E *t = vf_xcalloc(r * c * sizeof *t); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) for (unsigned l = 0; l < P->c; l++) t[i * c + j] += P->v[i * P->c + l] * Q->v[l * c + j];
            if (d == a || d == b) VF_EV("matrix.mul_aliased"); model(D, r, c, t); free(t); VF_EV("matrix.mul"); break; }
        case 9: case 10: {
            vf_op("trans %d=%d", d, a); ret = bfdev_matrix_trans(&D->m, &P->m); VF_EQ(ret, 0, "trans"); unsigned r = P->c, c = P->r; E *t = vf_xmalloc(r * c * sizeof *t); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) t[i * c + j] = P->v[j * r + i];
            if (d == a) VF_EV("matrix.trans_aliased"); model(D, r, c, t); free(t); VF_EV("matrix.trans"); break; }
        default:
            if (vf_chance(1, 5)) { vf_op("release %d", d); bfdev_matrix_release(&D->m); free(D->v); D->v = NULL; D->r = D->c = 0; }
            else { vf_op("set %d=%d", d, a); ret = bfdev_matrix_set(&D->m, &P->m); VF_EQ(ret, 0, "set"); if (d != a) model(D, P->r, P->c, P->v); }
        }
        for (int i = 0; i < N; i++) cmp(&x[i], i == d);
    }
    for (int i = 0; i < N; i++) { bfdev_matrix_release(&x[i].m); free(x[i].v); }
    vfa_done(&A, "leak");
}
/* ---- edit distance ---- */
enum { L = 40 };
static const char *S, *T; static int sl, tl; static unsigned cs, cw, ca, cd; static uint64_t memo[L + 1][L + 1];
/* cheapest way to turn S[i..] into T[j..], no character edited twice */
static uint64_t best(int i, int j)
{
    if (i == sl) return (uint64_t)(tl - j) * ca; if (j == tl) return (uint64_t)(sl - i) * cd; if (memo[i][j] != UINT64_MAX) return memo[i][j];
    uint64_t v, m = best(i + 1, j) + cd; v = best(i, j + 1) + ca; if (v < m) m = v; v = best(i + 1, j + 1) + (S[i] == T[j] ? 0 : cs); if (v < m) m = v;
    if (i + 1 < sl && j + 1 < tl && S[i] == T[j + 1] && S[i + 1] == T[j]) { v = best(i + 2, j + 2) + cw; if (v < m) m = v; }
    return memo[i][j] = m;
}
static void scn_edit(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); char *a, *b, buf[3 * L]; int alpha = 1 + vf_below(vf_chance(1, 4) ? 250 : 4); unsigned lim = vf_chance(1, 5) ? 1000000 : 1 + vf_below(12);
    sl = vf_below(vf_chance(1, 3) ? L + 1 : 8); cs = vf_below(lim); cw = vf_below(lim); ca = vf_below(lim); cd = vf_below(lim); if (vf_chance(1, 4)) cs = cw = ca = cd = 1;
    a = vf_xmalloc(sl + 1); for (int i = 0; i < sl; i++) a[i] = (char)(1 + vf_below(alpha)); a[sl] = 0;
    uint64_t paid = UINT64_MAX;
    if (vf_chance(1, 2)) { /* by a script of known cost */
        int n = 0; unsigned rate = 1 + vf_below(6); paid = 0;
        for (int i = 0; i <= sl;) {
            if (n >= L - 2) { paid += (uint64_t)(sl - i) * cd; break; }
            if (vf_chance(1, 8) && vf_chance(rate, 6)) { buf[n++] = (char)(1 + vf_below(alpha)); paid += ca; continue; } if (i == sl) break;
            if (!vf_chance(rate, 12)) buf[n++] = a[i++];
            else switch (vf_below(3)) { case 0: paid += cd; i++; break; case 1: buf[n++] = (char)(1 + vf_below(alpha)); paid += cs; i++; break; default: if (i + 1 < sl) { buf[n++] = a[i + 1]; buf[n++] = a[i]; paid += cw; i += 2; } else buf[n++] = a[i++]; }
        }
        tl = n;
    } else { tl = vf_below(vf_chance(1, 3) ? L + 1 : 8); for (int i = 0; i < tl; i++) buf[i] = (char)(1 + vf_below(alpha)); }
    b = vf_xmalloc(tl + 1); memcpy(b, buf, tl); b[tl] = 0; S = a; T = b; memset(memo, 255, sizeof memo); uint64_t want = best(0, 0); unsigned got;
    vf_op("distance of %d and %d characters, costs %u %u %u %u", sl, tl, cs, cw, ca, cd);
    got = bfdev_levenshtein(&al, a, b, cs, cw, ca, cd); VF_CHECK(got == want, "distance", "distance %u, wanted %lu", got, (long)want); if (paid != UINT64_MAX) { VF_CHECK(got <= paid, "distance-script", "distance %u, a script costs %lu", got, (long)paid); VF_EV("edit.scripts"); }
    /* lengths bound the strings: nothing outside is read */
    char *ea = vf_dup(a, sl), *eb = vf_dup(b, tl); VF_EQ(bfdev_levenshtein_len(&al, ea, eb, sl, tl, cs, cw, ca, cd), want, "distance-len"); VF_EQ(bfdev_levenshtein_len(&al, eb, ea, tl, sl, cs, cw, cd, ca), want, "distance-symmetry");
    VF_EQ(bfdev_levenshtein(&al, a, a, cs, cw, ca, cd), 0, "distance-self");
    vfa_done(&A, "leak"); free(ea); free(eb); free(a); free(b); VF_EV("edit.distances"); if (want) VF_EV("edit.nonzero"); vf_obs(want); vf_obs(sl * 100 + tl); vf_obs(cs ^ cw << 8);
}
VF_SCENARIOS({ "matrix", scn_matrix, 1 }, { "edit", scn_edit, 2 });
