/* one writer, one reader, no lock: NAME T(elements) REC(header elements) DYN SZ DECL INITQ */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define ST CAT(NAME, _st)
static DECL(CAT(NAME, _q));
static struct { unsigned long n, cap, rd, skipped; uint64_t key; unsigned wmode, rmode; } ST;
static T CAT(NAME, _val)(unsigned long s)
{
    T v; unsigned char *b = (void *)&v; uint64_t h = vf_mix64(ST.key + s);
    if (sizeof(T) >= 8) { memcpy(b, &s, 8); for (size_t i = 8; i < sizeof(T); i++) b[i] = h >> 8 * (i & 7); } /* carries its own number */
    else for (size_t i = 0; i < sizeof(T); i++) b[i] = h >> 8 * i;
    return v;
}
static bool CAT(NAME, _same)(const T *v, unsigned long s) { T w = CAT(NAME, _val)(s); return !memcmp(v, &w, sizeof w); }
static unsigned long CAT(NAME, _rlen)(unsigned long s) { unsigned long m = ST.cap - REC < 40 ? ST.cap - REC : 40; if (REC == 1 && m > 200) m = 200; return 1 + vf_mix64(ST.key ^ s * 3) % m; }

static void CAT(NAME, _writer)(void)
{
    typeof(CAT(NAME, _q)) *q = &CAT(NAME, _q); T buf[200]; unsigned long s = 0;
    while (s < ST.n) {
        unsigned op = ST.wmode < 8 ? ST.wmode : vt_below(6);
        if (op != 1) vt_delay();
#if REC
        unsigned long k = CAT(NAME, _rlen)(s), got; for (unsigned long i = 0; i < k; i++) buf[i] = CAT(NAME, _val)(s * 64 + i);
        if (op == 1) { do got = bfdev_fifo_in(q, buf, k); while (!got); }
        else {
            unsigned long used = bfdev_fifo_len(q); if (used > ST.cap) vf_fail("length", "the writer sees %lu elements in a queue of %lu", used, ST.cap);
            bool fits = ST.cap - used >= k + REC; got = bfdev_fifo_in(q, buf, k);
            if (fits && !got) vf_fail("refused", "a record of %lu was refused with %lu of %lu used", k, used, ST.cap); else if (fits) cnt[0][C_fits]++;
        }
        if (got && got != k) vf_fail("record-in", "a record of %lu was taken as %lu", k, got);
        if (got) s++; else { waits(0, s); sched_yield(); }
#else
        if (op == 0) { T v = CAT(NAME, _val)(s); if (bfdev_fifo_put(q, v)) s++; else { waits(0, s); sched_yield(); } }
        else if (op == 1) { T v = CAT(NAME, _val)(s); unsigned turns = 0; while (!bfdev_fifo_put(q, v)) turns++; s++; if (turns) cnt[0][C_wpolled]++; }
        else if (op == 2) { if (!bfdev_fifo_check_full(q)) { T v = CAT(NAME, _val)(s); if (!bfdev_fifo_put(q, v)) vf_fail("refused", "not full, but the put was refused"); s++; cnt[0][C_fits]++; } else { waits(0, s); sched_yield(); } }
        else {
            unsigned long k = 1 + vt_below(ST.cap + 2 < 200 ? ST.cap + 2 : 200), left = ST.n - s, used = bfdev_fifo_len(q), got; if (k > left) k = left;
            if (used > ST.cap) vf_fail("length", "the writer sees %lu elements in a queue of %lu", used, ST.cap);
            for (unsigned long i = 0; i < k; i++) buf[i] = CAT(NAME, _val)(s + i);
            got = bfdev_fifo_in(q, buf, k); unsigned long room = ST.cap - used, want = k < room ? k : room;
            if (got < want || got > k) vf_fail("refused", "%lu of %lu taken with room for %lu", got, k, room); if (want) cnt[0][C_fits]++; if (got < k) cnt[0][C_partial]++;
            s += got; if (!got) { waits(0, s); sched_yield(); }
        }
#endif
    }
}
static void CAT(NAME, _reader)(void)
{
    typeof(CAT(NAME, _q)) *q = &CAT(NAME, _q); T buf[220], v; unsigned long s = 0; bool sync = false; (void)sync;
    while (s < ST.n) {
        unsigned op = ST.rmode < 8 ? ST.rmode : vt_below(8);
        if (op != 1) vt_delay();
#if REC
        unsigned long k = CAT(NAME, _rlen)(s), max = op == 2 ? 1 + vt_below(k) : 220, got, want = k < max ? k : max;
        bool seen = op > 3 && !bfdev_fifo_check_empty(q); if (seen) cnt[1][C_seen]++;
        if (op > 5) { unsigned long p = bfdev_fifo_out_peek(q, buf, max); if (seen && !p) vf_fail("empty", "not empty, but nothing to peek"); if (p) { seen = true; if (p != want) vf_fail("peek", "record %lu of %lu peeked as %lu", s, k, p); for (unsigned long i = 0; i < p; i++) if (!CAT(NAME, _same)(buf + i, s * 64 + i)) vf_fail("peek", "record %lu peeked wrong at %lu", s, i); } }
        if (op == 1) { unsigned turns = 0; while (!(got = bfdev_fifo_out(q, buf, max))) turns++; if (turns) cnt[1][C_rpolled]++; }
        else got = bfdev_fifo_out(q, buf, max);
        if (seen && !got) vf_fail("empty", "not empty, but nothing came out");
        if (!got) { waits(1, s); sched_yield(); continue; }
        if (got != want) vf_fail("record-out", "record %lu of %lu came out as %lu", s, k, got);
        for (unsigned long i = 0; i < got; i++) if (!CAT(NAME, _same)(buf + i, s * 64 + i)) vf_fail("content", "record %lu came out wrong at %lu", s, i);
        s++; ST.rd++;
#else
        if (sync) {
            int d = __atomic_load_n(&w_done, __ATOMIC_SEQ_CST); unsigned long f;
            if (!bfdev_fifo_get(q, &v)) { if (d) { ST.skipped += ST.n - s; s = ST.n; } sched_yield(); continue; }
            memcpy(&f, &v, sizeof v < 8 ? sizeof v : 8); if (f < s || f >= ST.n || !CAT(NAME, _same)(&v, f)) vf_fail("homing", "element %lu came after the queue was emptied at %lu", f, s);
            ST.skipped += f - s; ST.rd++; s = f + 1; sync = false; continue;
        }
        if (op == 0 || op == 2) {
            bool seen = op == 2 && !bfdev_fifo_check_empty(q); if (seen) cnt[1][C_seen]++;
            if (!bfdev_fifo_get(q, &v)) { if (seen) vf_fail("empty", "not empty, but nothing came out"); waits(1, s); sched_yield(); continue; }
            if (!CAT(NAME, _same)(&v, s)) vf_fail("content", "element %lu came out wrong", s); s++; ST.rd++;
        } else if (op == 1) { unsigned turns = 0; while (!bfdev_fifo_get(q, &v)) turns++; if (turns) cnt[1][C_rpolled]++; if (!CAT(NAME, _same)(&v, s)) vf_fail("content", "element %lu came out wrong", s); s++; ST.rd++; }
        else if (op == 3) { if (!bfdev_fifo_peek(q, &v)) { waits(1, s); sched_yield(); continue; } if (!CAT(NAME, _same)(&v, s)) vf_fail("peek", "element %lu peeked wrong", s); if (vt_below(2)) { if (!bfdev_fifo_get(q, &v)) vf_fail("empty", "peeked, but nothing came out"); if (!CAT(NAME, _same)(&v, s)) vf_fail("content", "element %lu came out wrong", s); s++; ST.rd++; } }
        else if (op == 4 && sizeof(T) >= 8 && ST.rmode >= 8 && !vt_below(6)) { /* skip what is there, resume with whatever comes */
            unsigned long l = bfdev_fifo_len(q); bfdev_fifo_homing(q); cnt[1][C_homing]++; sync = true; s += l; ST.skipped += l;
        } else {
            unsigned long k = 1 + vt_below(ST.cap + 2 < 200 ? ST.cap + 2 : 200), l = bfdev_fifo_len(q), want = k < l ? k : l, got;
            if (l > ST.cap) vf_fail("length", "the reader sees %lu elements in a queue of %lu", l, ST.cap);
            if (op == 7) { got = bfdev_fifo_out_peek(q, buf, k); if (got < want || got > k) vf_fail("peek", "%lu of %lu peeked with %lu there", got, k, l); for (unsigned long i = 0; i < got; i++) if (!CAT(NAME, _same)(buf + i, s + i)) vf_fail("peek", "element %lu peeked wrong", s + i); want = got; }
            got = bfdev_fifo_out(q, buf, k); if (got < want || got > k) vf_fail("empty", "%lu of %lu came out with %lu there", got, k, l); if (want) cnt[1][C_seen]++;
            for (unsigned long i = 0; i < got; i++) if (!CAT(NAME, _same)(buf + i, s + i)) vf_fail("content", "element %lu came out wrong", s + i);
            s += got; ST.rd += got; if (!got) { waits(1, s); sched_yield(); }
        }
#endif
    }
}
static void CAT(NAME, _th)(int id) { if (id) CAT(NAME, _reader)(); else { CAT(NAME, _writer)(); __atomic_store_n(&w_done, 1, __ATOMIC_SEQ_CST); } }
static void CAT(NAME, _scn)(void)
{
    typeof(CAT(NAME, _q)) *q = &CAT(NAME, _q); CAT(NAME, _q) = INITQ(q);
#if DYN
    { static const unsigned long C[] = { 2, 4, 8, 16, 32, 64, 128 }; unsigned long c = C[vf_below(7)]; while (c < REC + 2) c *= 2; if (bfdev_fifo_alloc(q, NULL, c)) vf_harness_error("alloc"); ST.cap = c; }
#else
    ST.cap = SZ;
#endif
    unsigned long base = vf_chance(1, 2) ? 0 : vf_chance(1, 2) ? 0 - vf_below(300) : vf_rand(); q->fifo.in = q->fifo.out = base;
    ST.key = vf_rand(); ST.n = 20 + vf_below(vf_chance(1, 4) ? 3000 : 400); ST.rd = ST.skipped = 0; w_done = 0; ST.wmode = vf_chance(2, 3) ? 99 : vf_below(4); ST.rmode = vf_chance(2, 3) ? 99 : vf_below(4);
    vf_op("%lu through %lu at %lx, modes %u %u", ST.n, ST.cap, base, ST.wmode, ST.rmode); vt_run(2, CAT(NAME, _th));
    if (ST.rd + ST.skipped != ST.n) vf_fail("conservation", "%lu read and %lu skipped of %lu", ST.rd, ST.skipped, ST.n);
    VF_EQ(bfdev_fifo_len(q), 0, "length"); VF_CHECK(bfdev_fifo_check_empty(q), "length", "not empty at the end");
    vf_checks_total += ST.n; vf_obs(wsig[0] + ST.n); vf_obs(wsig[8]); tally(ST.n);
#if DYN
    bfdev_fifo_dynamic_free(&q->fifo);
#endif
}
#undef NAME
#undef T
#undef REC
#undef DYN
#undef SZ
#undef DECL
#undef INITQ
#undef ST
#undef CAT
#undef CAT_
