/* C31: state machines against an independent interpreter of the same tables. */
#include "vf.h"
#include <bfdev/fsm.h>
#include <bfdev/errno.h>

enum { NS = 9, NT = 5, LOGMAX = 400 };
enum { K_EXIT = 1, K_ACT, K_ENTER, K_EXC };
typedef struct { int kind, id; const void *a, *b; } rec_t;
typedef struct { unsigned salt; int failrate; } evd_t;
static bfdev_fsm_state_t S[NS]; static bfdev_fsm_transition_t T[NS][NT], X[NS]; static int sdata[NS], tdata[NS * NT + NS];
static rec_t L[LOGMAX], M[LOGMAX]; static int ln, mn;

/* whether a callback fails is a function of the event and of its place in the sequence */
static int verdict(const evd_t *e, int pos) { if (pos >= 60) return -77; uint64_t h = vf_mix64(e->salt * 977ULL + pos); return e->failrate && h % 100 < (unsigned)e->failrate ? (h >> 20 & 1 ? -1 - (int)(h >> 30 & 63) : 5) : 0; }
static bool guard_ok(unsigned salt, int cond) { return vf_mix64(salt * 31ULL + cond * 7919ULL) % 3 != 0; }
static bool exc_any(unsigned salt, int id) { return vf_mix64(salt * 131ULL + id) % 3 == 0; }

static int put(int kind, int id, const void *a, const void *b, bfdev_fsm_event_t *ev)
{
    if (ln == LOGMAX) vf_fail("runaway", "more than %d callbacks for one event", LOGMAX);
    L[ln] = (rec_t){ kind, id, a, b }; return verdict(ev->pdata, ln++);
}
static int on_enter(bfdev_fsm_event_t *e, void *d) { return put(K_ENTER, (int *)d - sdata, NULL, NULL, e); }
static int on_exit_(bfdev_fsm_event_t *e, void *d) { return put(K_EXIT, (int *)d - sdata, NULL, NULL, e); }
static int on_act(bfdev_fsm_event_t *e, void *d, void *c, void *n) { return put(K_ACT, (int *)d - tdata, c, n, e); }
static long on_guard(bfdev_fsm_event_t *e, const void *cond) { return guard_ok(((evd_t *)e->pdata)->salt, *(const int *)cond) ? 0 : (*(const int *)cond & 1 ? 1 : -1); }
static bfdev_fsm_transition_t *on_exc(bfdev_fsm_event_t *e, void *d) { int id = (int *)d - sdata; put(K_EXC, id, NULL, NULL, e); return exc_any(((evd_t *)e->pdata)->salt, id) ? &X[id] : NULL; }

/* the model */
static const bfdev_fsm_state_t *m_cur, *m_prev, *m_err, *m_stack[4096]; static int m_depth;
static int mput(int kind, int id, const void *a, const void *b, evd_t *e) { if (mn == LOGMAX) vf_harness_error("model runaway"); M[mn] = (rec_t){ kind, id, a, b }; return verdict(e, mn++); }
static void m_move(const bfdev_fsm_state_t *s) { m_prev = m_cur; m_cur = s; }
static int model(unsigned type, evd_t *e)
{
    const bfdev_fsm_state_t *at = m_cur; int r;
    if (!at) return -BFDEV_EINVAL;
    for (;;) {
        const bfdev_fsm_transition_t *t = NULL;
        for (; at && !t; at = t ? at : at->parent) {
            for (unsigned i = 0; i < at->tnum && !t; i++) { const bfdev_fsm_transition_t *c = &at->trans[i]; if (c->type == type && (!c->guard || guard_ok(e->salt, *(const int *)c->cond))) t = c; }
            if (!t && at->exception) { int id = at - S; mput(K_EXC, id, NULL, NULL, e); if (exc_any(e->salt, id)) t = &X[id]; VF_EV("fsm.exception"); }
            if (t) break; if (at->parent) VF_EV("fsm.parent");
        }
        if (!t) { VF_EV("fsm.unmatched"); return BFDEV_FSM_NOCHANGE; }
        const bfdev_fsm_state_t *to = t->next;
        if (!to && t->stack < 0) { if (m_depth < -t->stack) { VF_EV("fsm.pop_empty"); return -BFDEV_EOVERFLOW; } m_depth += t->stack; to = m_stack[m_depth]; VF_EV("fsm.pop"); }
        if (!to) { VF_EV("fsm.no_next"); m_move(m_err); r = m_err && m_err->enter ? mput(K_ENTER, m_err - S, NULL, NULL, e) : 0; return r ? r : -BFDEV_ENOENT; }
        while (to->entry) { to = to->entry; VF_EV("fsm.entry"); }
        if (at != to && t->stack <= 0 && at->exit && (r = mput(K_EXIT, at - S, NULL, NULL, e))) { VF_EV("fsm.exit_fails"); return r; }
        if (t->action && (r = mput(K_ACT, (int *)t->data - tdata, at->data, to->data, e))) { VF_EV("fsm.action_fails"); return r; }
        if (at != to && t->stack >= 0 && to->enter && (r = mput(K_ENTER, to - S, NULL, NULL, e))) { VF_EV("fsm.enter_fails"); return r; }
        m_move(to);
        if (to == m_err) { VF_EV("fsm.error_state"); return -BFDEV_EFAULT; }
        if (at == to) { VF_EV("fsm.self"); return BFDEV_FSM_SELFLOOP; }
        if (!to->tnum && !to->exception) { VF_EV("fsm.finish"); return BFDEV_FSM_FINISH; }
        if (t->stack > 0) { m_stack[m_depth++] = at; VF_EV("fsm.push"); }
        if (!t->cross) { VF_EV("fsm.changed"); return BFDEV_FSM_CHANGED; }
        VF_EV("fsm.cross"); at = to;
    }
}
static void trans(bfdev_fsm_transition_t *t, int id, int *cond, int n)
{
    memset(t, 0, sizeof *t); t->type = vf_below(4); t->stack = vf_chance(1, 3) ? vf_range(-2, 1) : 0;
    t->next = vf_chance(1, 12) || (t->stack < 0 && vf_chance(3, 4)) ? NULL : &S[vf_below(n)];
    if (vf_chance(1, 2)) { t->guard = on_guard; t->cond = cond; } t->cross = vf_chance(1, 6); t->data = &tdata[id];
    if (t->cross || vf_chance(2, 3)) t->action = on_act;
}
static void scn_fsm(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); int n = 1 + vf_below(NS), steps = vf_below(vf_deep ? 400 : 120), fr = vf_chance(1, 2) ? 0 : vf_below(30); static int conds[NS * NT + NS]; bfdev_fsm_t f; bool fresh = true;
    for (int i = 0; i < n; i++) {
        bfdev_fsm_state_t *s = &S[i]; memset(s, 0, sizeof *s); s->data = &sdata[i];
        if (vf_chance(3, 4)) s->enter = on_enter; if (vf_chance(3, 4)) s->exit = on_exit_; if (vf_chance(1, 6)) s->exception = on_exc;
        s->tnum = vf_chance(1, 6) ? 0 : 1 + vf_below(NT); s->trans = T[i]; if (!s->tnum && vf_chance(1, 2)) s->trans = NULL;
        if (i && vf_chance(1, 2)) s->parent = &S[vf_below(i)]; if (i + 1 < n && vf_chance(1, 6)) s->entry = &S[i + 1 + vf_below(n - i - 1)];
        for (unsigned t = 0; t < NT; t++) { conds[i * NT + t] = vf_below(50); trans(&T[i][t], i * NT + t, &conds[i * NT + t], n); }
        trans(&X[i], NS * NT + i, &conds[i], n); X[i].guard = NULL;
    }
    m_err = vf_chance(1, 4) ? NULL : &S[vf_below(n)]; m_cur = &S[vf_below(n)]; m_prev = NULL; m_depth = 0;
    if (vf_chance(1, 2)) bfdev_fsm_init(&f, &al, m_cur, m_err); else f = BFDEV_FSM_INIT(&al, m_cur, m_err);
    while (steps--) {
        evd_t e = { vf_rand(), fr }; bfdev_fsm_event_t ev = { vf_below(5), &e }; int want, got;
        if (vf_chance(1, 60) || !m_cur) { m_cur = &S[vf_below(n)]; bfdev_fsm_reset(&f, m_cur); m_depth = 0; fresh = true; vf_op("reset to %d", (int)(m_cur - S)); VF_EV("fsm.reset"); if (!A.live) VF_EV("fsm.reset_empty"); }
        const bfdev_fsm_state_t *was = m_cur, *wasp = m_prev; ln = mn = 0; int from = m_cur - S;
        if (vf_chance(1, 60)) { want = m_err && m_err->enter ? (m_move(m_err), mput(K_ENTER, m_err - S, NULL, NULL, &e)) : (m_move(m_err), 0); got = bfdev_fsm_error(&f, &ev); VF_EV("fsm.forced_error"); }
        else { want = model(ev.type, &e); got = bfdev_fsm_handle(&f, &ev); }
        vf_op("event %u in state %d: %d, now %d", ev.type, from, got, m_cur ? (int)(m_cur - S) : -1);
        VF_EQ(got, want, "result"); VF_PEQ(bfdev_fsm_curr(&f), m_cur, "current"); if (m_cur != was || m_prev != wasp) fresh = false; if (!fresh) VF_PEQ(bfdev_fsm_prev(&f), m_prev, "previous");
        VF_EQ(ln, mn, "callbacks");
        for (int i = 0; i < mn; i++) VF_CHECK(L[i].kind == M[i].kind && L[i].id == M[i].id && L[i].a == M[i].a && L[i].b == M[i].b, "callback-order", "callback %d: kind %d of %d, want kind %d of %d", i, L[i].kind, L[i].id, M[i].kind, M[i].id);
        if (m_cur) VF_EQ(bfdev_fsm_finished(&f), !m_cur->tnum && !m_cur->exception, "finished");
        VF_EQ(f.stack.index, m_depth, "stack-depth"); if (m_depth) VF_PEQ(*(const bfdev_fsm_state_t **)bfdev_array_data(&f.stack, m_depth - 1), m_stack[m_depth - 1], "stack-top");
        if (m_depth > 1) VF_EV("fsm.nested"); if (m_cur == NULL) { bfdev_fsm_event_t e2 = { 1, &e }; VF_EQ(bfdev_fsm_handle(&f, &e2), -BFDEV_EINVAL, "no-state"); VF_EV("fsm.no_state"); }
        vf_obs(want * 256 ^ (m_cur ? m_cur - S : 255));
        if (m_depth > 4000) break;
    }
    bfdev_fsm_reset(&f, &S[0]); bfdev_array_release(&f.stack); vfa_done(&A, "leak");
}
VF_SCENARIOS({ "fsm", scn_fsm, 1 });
