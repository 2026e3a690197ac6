/* Instantiated per element type / shape / kind:
 *   NAME, T, REC (record header bytes), DECL (declaration of variable q), DYN (0/1), SZ (element count)
 *   Q(op): bfdev_fifo_##op or bfdev_ringbuf_##op, QF: struct member, RING 0/1 */
static void NAME(void)
{
    DECL; typeof(q) *qp = &q;
    unsigned long start = vf_chance(1, 2) ? 0 : vf_chance(2, 3) ? (unsigned long)-vf_below(200) : vf_rand(), cap; vf_alloc_t A; bfdev_alloc_t al = VFA_ALLOC(&A); bool useal = vf_chance(2, 3);
    T *m; size_t mn = 0;            /* queued elements (flat) */
    typedef struct { size_t n; T *d; } rec_t; rec_t *rq; size_t rn = 0, used = 0; int nops = 20 + vf_below(150);
    const size_t maxrep = REC == 0 || REC >= 8 ? ~0UL : (1UL << (8 * (REC & 7))) - 1;
    int again = 0;
    q = INITQ(&q);
again:
    vfa_init(&A);
    if (DYN) {
        size_t want = vf_chance(1, 30) ? vf_below(2) : vf_chance(1, REC ? 3 : 20) ? 200 + vf_below(vf_chance(1, 4) ? 70000 : 900) : 1 + vf_below(40), rnd = 1; while (rnd < want) rnd <<= 1; int ret;
        VF_CHECK(Q(check_dynamic)(qp), "dynamic", "not dynamic"); VF_CHECK(!Q(initialized)(&q), "initialized", "initialised before allocation");
        if (vf_chance(1, 10)) { A.fail_at = 1; VF_EQ(Q(alloc)(&q, &al, 2 + want), -BFDEV_ENOMEM, "alloc-refused"); VF_CHECK(!Q(initialized)(&q), "alloc-refused", "initialised although nothing was allocated"); VF_EQ(A.live, 0, "alloc-refused"); VF_EV("queue.alloc_refused"); }
        ret = Q(alloc)(&q, useal ? &al : NULL, want); vf_op("alloc %zu", want);
        if (want < 2) { VF_EQ(ret, -BFDEV_EINVAL, "alloc-tiny"); VF_EQ(A.live, 0, "alloc-tiny"); return; }
        VF_EQ(ret, 0, "alloc"); cap = rnd; VF_EV("queue.dynamic");
        VF_CHECK(sizeof(T) * cap == (useal ? A.bytes : sizeof(T) * cap), "alloc-size", "%zu bytes for %zu elements", A.bytes, cap);
    } else { cap = SZ; VF_CHECK(!Q(check_dynamic)(qp), "dynamic", "dynamic"); VF_EQ(Q(alloc)(&q, NULL, 8), -BFDEV_EINVAL, "alloc-static"); VF_EV("queue.static"); }
    VF_CHECK(Q(initialized)(&q), "initialized", "not initialised"); VF_EQ(Q(size)(&q), cap, "size"); VF_EQ(Q(esize)(&q), sizeof(T), "esize"); VF_EQ(Q(recsize)(&q), REC, "recsize");
    q.QF.in = q.QF.out = start;     /* any position of the free-running counters */
    if ((long)start < 0 && (long)start > -201) VF_EV("queue.near_wrap");
    m = vf_xmalloc(sizeof(T) * (cap + 1)); rq = vf_xmalloc(sizeof(rec_t) * (cap + 2));
    for (int op = 0; op < nops; op++) {
        int c = vf_below(20); size_t n, got, k; T *buf, *cmp;
        n = vf_chance(1, 4) ? vf_below(3) : vf_chance(1, 6) ? cap + vf_below(4) - 2 : vf_chance(1, 3) ? vf_below(cap + 1) : vf_below(cap / 3 + 2);
        if (REC && vf_chance(1, 8) && maxrep < cap) n = maxrep + vf_below(4) - 2;
        buf = vf_xmalloc(sizeof(T) * n); fillb(buf, sizeof(T) * n);
        switch (c) {
        case 0: case 1: case 2: case 3: case 4: /* bulk in */
            vf_op("in %zu (cap %zu used %zu)", n, (size_t)cap, REC ? used : mn);
            got = Q(in)(&q, buf, n);
            if (!REC) {
                if (!RING) { k = n < cap - mn ? n : cap - mn; VF_EQ(got, k, "in-result"); memcpy(m + mn, buf, k * sizeof(T)); mn += k; VF_EV("queue.in"); if (k < n) VF_EV("queue.in_partial"); }
                else { k = n < cap ? n : cap; VF_EQ(got, k, "in-result"); if (mn + k > cap) { size_t drop = mn + k - cap; memmove(m, m + drop, (mn - drop) * sizeof(T)); mn -= drop; VF_EV("queue.overwrite"); } memcpy(m + mn, buf, k * sizeof(T)); mn += k; VF_EV("queue.in"); }
            } else if (!RING) {
                if (n > maxrep || n + REC > cap - used) { VF_EQ(got, 0, "record-refused"); VF_EV("queue.record_refused"); if (n > maxrep) VF_EV("queue.record_too_long"); }
                else { VF_EQ(got, n, "record-in"); rq[rn].n = n; rq[rn].d = memcpy(vf_xmalloc(n * sizeof(T)), buf ? (void *)buf : (void *)"", n * sizeof(T)); rn++; used += n + REC; VF_EV("queue.record_in"); }
            } else {
                /* a record that cannot be represented may be cut, never corrupted */
                if (n <= maxrep && n + REC <= cap) VF_EQ(got, n, "record-in"); else { VF_CHECK(got <= n && got <= maxrep && got + REC <= cap || !got, "record-in", "claims to hold %zu elements (cap %zu)", got, (size_t)cap); VF_EV("queue.record_oversize"); }
                if (REC < cap && !(got == 0 && n)) {
                    while (used + got + REC > cap) { used -= rq[0].n + REC; free(rq[0].d); memmove(rq, rq + 1, --rn * sizeof(*rq)); VF_EV("queue.record_dropped"); }
                    rq[rn].n = got; rq[rn].d = memcpy(vf_xmalloc(got * sizeof(T)), buf ? (void *)buf : (void *)"", got * sizeof(T)); rn++; used += got + REC; VF_EV("queue.record_in");
                }
            }
            break;
        case 5: case 6: case 7: case 8: /* bulk out / peek */
        {   bool peek = c == 5 || (c == 6 && vf_chance(1, 2));
            vf_op("%s %zu", peek ? "out_peek" : "out", n); cmp = vf_dup(buf, n * sizeof(T));
            got = peek ? Q(out_peek)(&q, buf, n) : Q(out)(&q, buf, n);
            if (!REC) { k = n < mn ? n : mn; VF_EQ(got, k, "out-result"); if (k) { VF_CHECK(!memcmp(buf, m, k * sizeof(T)), "out-data", "wrong elements"); vf_obs_mem(buf, k * sizeof(T)); } if (!peek) { memmove(m, m + k, (mn - k) * sizeof(T)); mn -= k; } VF_EV("queue.out"); }
            else if (!rn) { VF_EQ(got, 0, "out-empty"); k = 0; }
            else { k = n < rq[0].n ? n : rq[0].n; VF_EQ(got, k, "record-out"); if (k) { VF_CHECK(!memcmp(buf, rq[0].d, k * sizeof(T)), "record-data", "wrong record contents"); vf_obs_mem(buf, k * sizeof(T)); } VF_EV("queue.record_out"); if (k < rq[0].n) VF_EV("queue.record_truncated"); if (!peek) { used -= rq[0].n + REC; free(rq[0].d); memmove(rq, rq + 1, --rn * sizeof(*rq)); } }
            if (n > k) VF_CHECK(!memcmp(buf + k, cmp + k, (n - k) * sizeof(T)), "buffer-tail", "wrote past what it delivered");
            free(cmp); break;
        }
        case 9: case 10: case 11: case 12: /* single put */
        {   T v; fillb(&v, sizeof v); vf_op("put"); got = Q(put)(&q, v);
            if (!REC) {
                if (!RING) { VF_EQ(!!got, mn < cap, "put-result"); if (mn < cap) m[mn++] = v; else VF_EV("queue.put_full"); }
                else { VF_EQ(!!got, mn == cap, "put-result"); if (mn == cap) { memmove(m, m + 1, (mn - 1) * sizeof(T)); mn--; VF_EV("queue.overwrite"); } m[mn++] = v; }
                VF_EV("queue.put");
            } else if (REC + 1 > cap) VF_EQ(got, 0, "put-record");
            else if (!RING && used + REC + 1 > cap) VF_EQ(got, 0, "put-record");
            else { VF_EQ(got, 1, "put-record"); while (used + 1 + REC > cap) { used -= rq[0].n + REC; free(rq[0].d); memmove(rq, rq + 1, --rn * sizeof(*rq)); VF_EV("queue.record_dropped"); } rq[rn].n = 1; rq[rn].d = vf_dup(&v, sizeof v); rn++; used += 1 + REC; VF_EV("queue.put"); }
            break; }
        case 13: case 14: case 15: case 16: /* single get / peek */
        {   T v, w; bool peek = c == 13; fillb(&v, sizeof v); w = v; vf_op("%s", peek ? "peek" : "get"); got = peek ? Q(peek)(&q, &v) : Q(get)(&q, &v);
            if (!REC) { VF_EQ(got, mn != 0, "get-result"); if (mn) { VF_CHECK(!memcmp(&v, m, sizeof v), "get-data", "wrong element"); if (!peek) memmove(m, m + 1, --mn * sizeof(T)); VF_EV("queue.get"); } else VF_CHECK(!memcmp(&v, &w, sizeof v), "get-empty", "wrote on empty"); }
            else if (!rn) VF_EQ(got, 0, "get-empty");
            else { VF_EQ(got, rq[0].n ? 1 : 0, "get-record"); if (rq[0].n) VF_CHECK(!memcmp(&v, rq[0].d, sizeof v), "get-data", "wrong element"); if (!peek) { used -= rq[0].n + REC; free(rq[0].d); memmove(rq, rq + 1, --rn * sizeof(*rq)); } VF_EV("queue.get"); }
            break; }
        case 17: if (vf_chance(1, 8)) { vf_op("reset/homing"); if (vf_chance(1, 2)) Q(reset)(&q); else Q(homing)(&q); mn = used = 0; while (rn) free(rq[--rn].d); VF_EV("queue.flush"); } break;
        default: break;
        }
        { size_t len = REC ? used : mn; VF_EQ(Q(len)(&q), len, "len"); VF_EQ(Q(check_empty)(&q), !len, "empty"); VF_EQ(Q(check_full)(&q), len == cap, "full"); if (len == cap) VF_EV("queue.full"); if (vf_chance(1, 6)) vf_obs(len); }
        free(buf);
    }
    /* drain */
    if (!REC) { T v; for (size_t i = 0; i < mn; i++) { VF_EQ(Q(get)(&q, &v), 1, "drain"); VF_CHECK(!memcmp(&v, m + i, sizeof v), "drain-data", "wrong element"); } VF_EQ(Q(get)(&q, &v), 0, "drain-end"); }
    else { for (size_t i = 0; i < rn; i++) { T *b = vf_xmalloc(rq[i].n * sizeof(T)); VF_EQ(Q(out)(&q, b, rq[i].n), rq[i].n, "drain"); if (rq[i].n) VF_CHECK(!memcmp(b, rq[i].d, rq[i].n * sizeof(T)), "drain-data", "wrong record"); free(b); } }
    VF_CHECK(Q(check_empty)(&q), "drain-end", "not empty");
    while (rn) free(rq[--rn].d); free(rq); free(m);
    if (DYN) { if (vf_chance(1, 2)) FREEQ(&q.QF); else Q(free)(&q); VF_CHECK(!Q(initialized)(&q), "freed", "still initialised"); VF_EQ(Q(len)(&q), 0, "freed"); VF_CHECK(Q(check_empty)(&q), "freed", "not empty after release"); vfa_done(&A, "release-leak");
        /* the same queue object may be allocated again */
        if (again < 2 && vf_chance(1, 2)) { again++; mn = rn = used = 0; start = vf_chance(1, 2) ? 0 : vf_rand(); nops = vf_below(30); VF_EV("queue.allocated_again"); goto again; } }
}
#undef NAME
#undef T
#undef REC
#undef DECL
#undef DYN
#undef SZ
#undef INITQ
