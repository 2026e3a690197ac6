/* C48: objects and inputs beyond 4 GiB.  Address space is reserved sparsely; long inputs and outputs are
 * one small block mapped again and again, ended by memory of their own. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/array.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/memalloc.h>
#include <bfdev/allocpool.h>
#include <bfdev/bitmap.h>
#include <bfdev/bitwalk.h>
#include <bfdev/bloom.h>
#include <bfdev/bsearch.h>
#include <bfdev/string.h>
#include <bfdev/crc.h>
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>
#include <bfdev/arc4.h>
#include <bfdev/base32.h>
#include <bfdev/base64.h>
#include <bfdev/ascii85.h>
#include <bfdev/jhash.h>
#include <bfdev/mpi.h>
#include <bfdev/textsearch.h>
#include <bfdev/matrix.h>
#include <bfdev/argv.h>
#include <bfdev/sort.h>
#include <bfdev/scnprintf.h>

#define G4 ((size_t)1 << 32)
#define PER ((size_t)15 << 20)          /* period of long data: no power of two; divisible by 3, 4 and 5 */
#define PAGE ((size_t)4096)
static size_t up(size_t n) { return (n + PAGE - 1) & ~(PAGE - 1); }
static uint8_t *reserve(size_t n) { void *p = mmap(NULL, up(n) + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) vf_harness_error("no address space"); mprotect((char *)p + up(n), PAGE, PROT_NONE); return p; }
static void release(void *p, size_t n) { munmap(p, up(n) + PAGE); }
static size_t whole(size_t n, size_t per) { return n / per * per; }
/* n bytes whose whole periods share one block; what is left over is memory of its own */
static uint8_t *cyclic(size_t n, size_t per, void (*fill)(uint8_t *, size_t))
{
    uint8_t *p = reserve(n), *one; int fd = memfd_create("vf", 0); size_t at;
    if (fd < 0 || ftruncate(fd, per)) vf_harness_error("memfd");
    one = mmap(NULL, per, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (one == MAP_FAILED) vf_harness_error("map"); if (fill) fill(one, per);
    for (at = 0; at + per <= n; at += per) if (mmap(p + at, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) vf_harness_error("map");
    if (fill) memcpy(p + at, one, n - at); munmap(one, per); close(fd);
    return p;
}
static void fill_rand(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = vf_rand() >> 40; }
static void fill_fixed(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = i * 7 + (i >> 8) + (i >> 16) * 3; }
static void fill_a(uint8_t *p, size_t n) { memset(p, 'a', n); }
static size_t beyond(void) { return G4 + 1 + vf_below(vf_chance(1, 2) ? 100000 : 100000000); }

/* allocator over sparse memory */
typedef struct { uint8_t *p; size_t n; } sp_t; static sp_t sp[64]; static unsigned nsp; static size_t sp_bytes;
static void *sp_get(size_t n) { if (nsp == 64) vf_harness_error("blocks"); if (n > (size_t)1 << 40) return NULL; sp[nsp].n = n; sp_bytes += n; return sp[nsp++].p = reserve(n); }
static void *sp_alloc(size_t n, void *pd) { return sp_get(n); }
static void sp_free(void *p, void *pd) { unsigned i; if (!p) return; for (i = 0; i < nsp && sp[i].p != p; i++); VF_CHECK(i < nsp, "foreign-block", "free of a block that was never given out"); sp_bytes -= sp[i].n; release(p, sp[i].n); sp[i] = sp[--nsp]; }
static void *sp_realloc(void *p, size_t n, void *pd)
{   /* moves by remapping */
    unsigned i; if (!p) return sp_get(n); for (i = 0; i < nsp && sp[i].p != p; i++); VF_CHECK(i < nsp, "foreign-block", "realloc of a block that was never given out"); if (n > (size_t)1 << 40) return NULL;
    size_t k = n < sp[i].n ? n : sp[i].n, o = sp[i].n; uint8_t *q = reserve(n); if (mremap(p, up(k), up(k), MREMAP_MAYMOVE | MREMAP_FIXED, q) == MAP_FAILED) vf_harness_error("remap");
    munmap((char *)p + up(k), up(o) + PAGE - up(k)); sp_bytes += n - o; sp[i].p = q; sp[i].n = n; return q;
}
static const bfdev_alloc_ops_t sp_ops = { sp_alloc, sp_alloc, sp_realloc, sp_free };
static const bfdev_alloc_t sp_al = { .ops = &sp_ops };
static void sp_done(void) { VF_EQ(nsp, 0, "release-leak"); }

static void scn_array(void)
{
    size_t cells = vf_chance(1, 2) ? 1 : vf_chance(1, 2) ? 1 + vf_below(40) : (G4 >> vf_below(4)) + vf_below(9), first = 1 + vf_below(9), many = beyond() / cells + 1 + vf_below(3); uint8_t *p, *q;
    bfdev_array_t a = BFDEV_ARRAY_INIT(&sp_al, cells); vf_op("array of %zu-byte cells, %zu then %zu", cells, first, many);
    p = bfdev_array_push(&a, first); VF_CHECK(p, "push", "refused"); p[0] = 1; p[cells * first - 1] = 2;
    if (vf_chance(1, 2)) { VF_EQ(bfdev_array_reserve(&a, many), 0, "reserve"); VF_CHECK(bfdev_array_size(&a) >= (first + many) * cells || bfdev_array_size(&a) >= first * cells, "size", "too small"); }
    q = bfdev_array_push(&a, many); VF_CHECK(q, "push", "%zu elements of %zu bytes refused", many, cells); q[many * cells - 1] = 3; q[0] = 4;      /* faults when the block is too small */
    VF_EQ(bfdev_array_index(&a), first + many, "count"); p = bfdev_array_data(&a, 0); VF_EQ(p[0], first * cells == 1 ? 2 : 1, "contents"); VF_EQ(p[cells * first - 1], 2, "contents"); VF_PEQ(q, p + first * cells, "address"); VF_PEQ(bfdev_array_data(&a, first + many - 1), q + (many - 1) * cells, "address");
    VF_PEQ(bfdev_array_peek(&a, many), q, "peek"); VF_PEQ(bfdev_array_peek(&a, 1), q + (many - 1) * cells, "peek"); VF_PEQ(bfdev_array_peek(&a, many + first + 1), NULL, "peek");
    VF_EQ(((uint8_t *)bfdev_array_peek(&a, 1))[cells - 1], 3, "contents"); size_t drop = 1 + vf_below(many - 1); VF_PEQ(bfdev_array_pop(&a, drop), q + (many - drop) * cells, "pop"); VF_EQ(bfdev_array_index(&a), first + many - drop, "count");
    if (vf_chance(1, 2)) { size_t more = 1 + vf_below(5); uint8_t *z; VF_EQ(bfdev_array_resize(&a, first + many), 0, "resize"); z = bfdev_array_push(&a, more); VF_CHECK(z, "push", "refused"); q = bfdev_array_data(&a, first); VF_PEQ(z, q + many * cells, "address"); z[0] = 5; z[more * cells - 1] = 6; VF_EQ(q[many * cells - 1], 3, "contents"); if (first > 1 || cells > 1) VF_EQ(((uint8_t *)bfdev_array_data(&a, 0))[0], 1, "contents"); VF_EQ(bfdev_array_index(&a), first + many + more, "count"); VF_EV("huge.array_more"); }
    VF_EQ(bfdev_array_resize(&a, first + many), 0, "resize"); VF_EQ(bfdev_array_index(&a), first + many, "count"); bfdev_array_release(&a); sp_done(); vf_obs(many); vf_obs(cells); VF_EV("huge.array");
}
typedef struct { uint32_t w[4]; } t16_t;
/* what the i-th byte of everything that ever went into the queue is */
#define QUEUE(name, QQ, T, REC, DECL) \
static void name(void) \
{ \
    DECL; q = QQ##INIT(&q); size_t n = (G4 + 1 + vf_below(2000000)) / sizeof(T) + 1, cap, small = 1 + vf_below(50000), k; uint8_t *src, *dst; unsigned long start; \
    src = cyclic((n + small) * sizeof(T), PER, fill_rand); dst = cyclic((n + small) * sizeof(T), PER, NULL); size_t tail = whole((n + small) * sizeof(T), PER), tl = (n + small) * sizeof(T) - tail; \
    for (cap = 2; cap < n + small + REC; cap <<= 1); VF_EQ(Q(alloc)(&q, &sp_al, n + small + REC), 0, "alloc"); VF_EQ(Q(size)(&q), cap, "size"); VF_EQ(sp_bytes, cap * sizeof(T), "alloc-size"); \
    start = vf_chance(1, 2) ? vf_rand() : cap - vf_below(n); q.QF.in = q.QF.out = start; vf_op("%s cap %zu start %lu n %zu", #name, cap, start, n); \
    if (REC) { size_t r = Q(in)(&q, src, n); VF_EQ(r, n, "record-in"); VF_EQ(Q(len)(&q), n + REC, "len"); r = Q(out)(&q, dst, n + small); VF_EQ(r, n, "record-out"); \
        size_t w = whole(n, PER); VF_CHECK(!memcmp(dst + w, src + w, n < tail ? tail - w : n - w), "record-data", "damaged"); for (size_t at = 0; at + PER <= n; at += PER) VF_CHECK(!memcmp(dst + at, src + at, 4096), "record-data", "damaged"); VF_EQ(Q(len)(&q), 0, "len"); } \
    else { \
        VF_EQ(Q(in)(&q, src, n), n, "in"); VF_EQ(Q(len)(&q), n, "len"); VF_EQ(Q(in)(&q, src + n * sizeof(T), small), small, "in"); VF_EQ(Q(len)(&q), n + small, "len"); \
        if (((vf_case_no / vf_total_weight()) + (vf_case_no / vf_total_weight()) / 6) % 2 == 0) {      /* all at once */ k = Q(out)(&q, dst, n + small + 5); VF_EQ(k, n + small, "out"); VF_CHECK(!memcmp(dst, src, PER) && !memcmp(dst + tail, src + tail, tl), "data", "damaged"); VF_EV("huge.queue_at_once"); } \
        else { size_t done = 0, step = (PER + vf_below(90000000)) / sizeof(T); while (done < n + small) { k = Q(out)(&q, dst, step); VF_EQ(k, step < n + small - done ? step : n + small - done, "out"); \
            size_t i = 0, b = k * sizeof(T), off = done * sizeof(T); VF_CHECK(!memcmp(dst + whole(b, PER) , src + off + whole(b, PER), b - whole(b, PER) < PER && b >= PER ? 0 : b), "data", "damaged at element %zu", done); if (b >= PER) { size_t lo = whole(b - 1, PER); VF_CHECK(!memcmp(dst + lo, src + off + lo, b - lo), "data", "damaged at element %zu", done); } done += k; } VF_EV("huge.queue_in_steps"); } \
        VF_EQ(Q(len)(&q), 0, "len"); VF_CHECK(Q(check_empty)(&q), "empty", "not empty"); \
    } \
    Q(free)(&q); sp_done(); release(src, (n + small) * sizeof(T)); release(dst, (n + small) * sizeof(T)); vf_obs(n); vf_obs(start); VF_EV("huge.queue"); \
}
#define Q(x) bfdev_fifo_##x
#define QF fifo
QUEUE(fifo_u8, BFDEV_FIFO_DYNAMIC_, uint8_t, 0, BFDEV_DECLARE_FIFO_DYNAMIC(q, uint8_t))
QUEUE(fifo_16, BFDEV_FIFO_DYNAMIC_, t16_t, 0, BFDEV_DECLARE_FIFO_DYNAMIC(q, t16_t))
QUEUE(fifo_rec, BFDEV_FIFO_DYNAMIC_, uint8_t, 6, BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, uint8_t, 6))
#undef Q
#undef QF
#define Q(x) bfdev_ringbuf_##x
#define QF ringbuf
QUEUE(ring_u8, BFDEV_RINGBUF_DYNAMIC_, uint8_t, 0, BFDEV_DECLARE_RINGBUF_DYNAMIC(q, uint8_t))
QUEUE(ring_16, BFDEV_RINGBUF_DYNAMIC_, t16_t, 0, BFDEV_DECLARE_RINGBUF_DYNAMIC(q, t16_t))
QUEUE(ring_rec, BFDEV_RINGBUF_DYNAMIC_, uint8_t, 6, BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, uint8_t, 6))
static void scn_queue(void)
{
    static void (*const F[6])(void) = { fifo_u8, ring_u8, fifo_16, ring_16, fifo_rec, ring_rec }; unsigned c = (vf_case_no / vf_total_weight()) % 6; F[c](); vf_obs(c);
}

typedef struct { uint8_t *p; size_t n; uint32_t mark; } blk_t;
static void marks(blk_t *b, unsigned nb) { for (unsigned i = 0; i < nb; i++) { uint32_t v; memcpy(&v, b[i].p, 4); VF_EQ(v, b[i].mark, "contents"); memcpy(&v, b[i].p + b[i].n - 4, 4); VF_EQ(v, b[i].mark, "contents"); } }
static void mark(blk_t *b) { b->mark = vf_rand(); memcpy(b->p, &b->mark, 4); memcpy(b->p + b->n - 4, &b->mark, 4); }
static void fresh(blk_t *b, unsigned nb, uint8_t *pool, size_t size, uint8_t *p, size_t n)
{
    VF_CHECK(p >= pool && n <= size && p + n <= pool + size, "outside", "a block of %zu outside its pool", n);
    for (unsigned i = 0; i < nb; i++) VF_CHECK(p + n <= b[i].p || b[i].p + b[i].n <= p, "overlap", "blocks of %zu and %zu overlap", n, b[i].n);
}
static void scn_memalloc(void)
{
    static const bfdev_memalloc_find_t F[3] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    size_t size = 4 * G4 + vf_below(8 * G4) / 16 * 16; uint8_t *pool = reserve(size); bfdev_memalloc_head_t h; blk_t b[40]; unsigned nb = 0; bfdev_memalloc_init(&h, F[vf_below(3)], pool, size); void *all; size_t most = size - 4096;
    all = bfdev_memalloc_alloc(&h, most); VF_CHECK(all, "whole", "nearly the whole pool refused"); VF_PEQ(bfdev_memalloc_alloc(&h, G4), NULL, "full"); bfdev_memalloc_free(&h, all);
    for (int op = 0; op < 300; op++) {
        size_t n = vf_chance(1, 3) ? 8 + vf_below(5000) : vf_chance(1, 2) ? G4 - 40 + vf_below(80) : G4 + vf_below(G4); uint8_t *p;
        if (nb < 40 && vf_chance(1, 2)) { vf_op("alloc %zu", n); p = bfdev_memalloc_alloc(&h, n); if (p) { fresh(b, nb, pool, size, p, n); b[nb].p = p; b[nb].n = n; mark(b + nb++); VF_EVN("huge.block", n >= G4); } else VF_EV("huge.refused"); }
        else if (nb && vf_chance(1, 4)) {
            unsigned i = vf_below(nb); if (n > b[i].n && b[i].n > 100000) continue; blk_t old = b[i]; vf_op("resize %zu to %zu", b[i].n, n); p = bfdev_memalloc_realloc(&h, b[i].p, n);
            if (p) { uint32_t v; memcpy(&v, p, 4); VF_EQ(v, old.mark, "resize-contents"); if (n >= old.n) { memcpy(&v, p + old.n - 4, 4); VF_EQ(v, old.mark, "resize-contents"); } b[i] = b[--nb]; fresh(b, nb, pool, size, p, n); b[nb].p = p; b[nb].n = n; mark(b + nb++); VF_EV("huge.resized"); }
        } else if (nb) { unsigned i = vf_below(nb); vf_op("free %zu", b[i].n); bfdev_memalloc_free(&h, b[i].p); b[i] = b[--nb]; }
        marks(b, nb);
    }
    while (nb) bfdev_memalloc_free(&h, b[--nb].p); VF_CHECK(bfdev_memalloc_alloc(&h, most), "recovered", "the largest block no longer fits after everything was freed"); release(pool, size); vf_obs(size); vf_obs(vf_rand()); VF_EV("huge.memalloc");
}
static void scn_allocpool(void)
{
    size_t size = 4 * G4 + vf_below(8 * G4), left; uint8_t *pool = reserve(size); bfdev_allocpool_t ap = BFDEV_ALLOCPOOL_INIT(pool, size); blk_t b[40]; unsigned nb = 0;
    for (int op = 0; op < 40; op++) {
        size_t n = vf_chance(1, 3) ? 8 + vf_below(5000) : vf_chance(1, 2) ? G4 - 40 + vf_below(80) : G4 + vf_below(G4), al = vf_chance(1, 3) ? (size_t)1 << vf_below(36) : 8; uint8_t *p = bfdev_allocpool_alloc(&ap, n, al); vf_op("alloc %zu align %zu", n, al);
        if (p) { fresh(b, nb, pool, size, p, n); b[nb].p = p; b[nb].n = n; mark(b + nb++); VF_EV("huge.block"); }
        else { uint8_t *end = pool; for (unsigned i = 0; i < nb; i++) if (b[i].p + b[i].n > end) end = b[i].p + b[i].n; left = pool + size - end; VF_CHECK(left < n + al + 8, "refused", "%zu bytes (alignment %zu) refused with %zu left", n, al, left); VF_EV("huge.refused"); }
        marks(b, nb);
    }
    while (nb) bfdev_allocpool_free(&ap, b[--nb].p); release(pool, size); vf_obs(size); vf_obs(vf_rand()); VF_EV("huge.allocpool");
}
/* bit counts up to the largest an unsigned int holds */
static void scn_bitmap(void)
{
    unsigned bits = vf_chance(2, 3) ? UINT_MAX - vf_below(vf_chance(1, 2) ? 63 : 140) : 0x80000000u + vf_below(0x7fffff00u), a, z, at; size_t bytes = ((size_t)bits + 63) / 64 * 8; bool own = vf_chance(1, 2); unsigned long *m = own ? bfdev_bitmap_zalloc(&sp_al, bits) : (void *)reserve(bytes), *o = own ? bfdev_bitmap_alloc(&sp_al, bits) : (void *)reserve(bytes);
    if (own) { VF_CHECK(m && o, "alloc", "refused"); VF_CHECK(sp_bytes >= 2 * (((size_t)bits + 7) / 8), "alloc", "%zu bytes for two maps of %u bits", sp_bytes, bits); VF_EV("huge.bitmap_alloc"); }
    a = bits - 1 - vf_below(3000); z = a + vf_below(bits - a); vf_op("bitmap of %u bits, %u..%u set", bits, a, z);
    VF_CHECK(bfdev_bitmap_empty(m, bits), "empty", "an empty map is not"); bfdev_bitmap_set(m, a, z - a + 1);
    for (at = a > 200 ? a - 200 : 0; ; at++) { VF_EQ(m[at / 64] >> (at % 64) & 1, at >= a && at <= z, "set"); if (at == bits - 1) break; }
    VF_EQ(bfdev_find_first_bit(m, bits), a, "first-bit"); VF_EQ(bfdev_find_last_bit(m, bits), z, "last-bit"); VF_EQ(bfdev_find_first_zero(m, bits), 0, "first-zero");
    VF_EQ(bfdev_find_next_bit(m, bits, a), a, "next-bit"); if (a < z) VF_EQ(bfdev_find_next_bit(m, bits, a + 1), a + 1, "next-bit"); if (z + 1 < bits) { VF_EQ(bfdev_find_next_bit(m, bits, z + 1), bits, "next-bit"); VF_EQ(bfdev_find_next_zero(m, bits, a), z + 1, "next-zero"); VF_EQ(bfdev_find_prev_bit(m, bits, z), z, "prev-bit"); VF_EQ(bfdev_find_prev_bit(m, bits, bits - 1), z, "prev-bit"); } else VF_EQ(bfdev_find_next_zero(m, bits, a), bits, "next-zero");
    VF_EQ(bfdev_find_last_zero(m, bits), z + 1 < bits ? bits - 1 : a - 1, "last-zero"); VF_CHECK(!bfdev_bitmap_equal(m, o, bits), "equal", "different maps count as equal"); VF_CHECK(!bfdev_bitmap_intersects(m, o, bits), "intersects", "disjoint maps meet");
    if (vf_chance(1, 2)) VF_EQ(bfdev_find_prev_bit(m, bits, a - 1), bits, "prev-bit");
    bfdev_bitmap_set(o, z, 1); VF_CHECK(bfdev_bitmap_intersects(m, o, bits), "intersects", "a common bit goes unseen"); bfdev_bitmap_clr(m, a, z - a + 1); VF_CHECK(bfdev_bitmap_empty(m, bits), "clear", "bits survive"); VF_CHECK(!bfdev_bitmap_empty(o, bits), "empty", "a map with one bit counts as empty");
    VF_EQ(bfdev_find_first_bit(m, bits), bits, "first-bit"); VF_EQ(bfdev_find_last_bit(m, bits), bits, "last-bit");
    if (vf_case_no % 4 == 0) { bfdev_bitmap_fill(m, bits); VF_CHECK(bfdev_bitmap_full(m, bits), "full", "a filled map is not full"); VF_EQ(m[(bits - 1) / 64] >> ((bits - 1) % 64) & 1, 1, "fill"); VF_EQ(bfdev_find_first_zero(m, bits), bits, "first-zero"); bfdev_bitmap_clr(m, a, 1); VF_EQ(bfdev_find_first_zero(m, bits), a, "first-zero"); VF_CHECK(!bfdev_bitmap_full(m, bits), "full", "a hole goes unseen");
        bfdev_bitmap_zero(m, bits); VF_CHECK(bfdev_bitmap_empty(m, bits), "zero", "bits survive"); VF_EV("huge.bitmap_filled"); }
    if (vf_case_no % 4 == 1) { unsigned sh = vf_below(a); bfdev_bitmap_shr(m, o, sh, bits); VF_EQ(bfdev_find_first_bit(m, bits), z - sh, "shift"); VF_EQ(bfdev_find_last_bit(m, bits), z - sh, "shift"); bfdev_bitmap_zero(o, bits); bfdev_bitmap_shl(o, m, sh, bits); VF_EQ(bfdev_find_first_bit(o, bits), z, "shift"); VF_EQ(bfdev_find_last_bit(o, bits), z, "shift"); VF_EV("huge.bitmap_shift"); }
    else if (vf_case_no % 4 == 2) { bfdev_bitmap_copy(m, o, bits); VF_EQ(bfdev_find_first_bit(m, bits), z, "copy"); VF_CHECK(bfdev_bitmap_equal(m, o, bits), "copy", "the copy differs"); VF_EV("huge.bitmap_copy"); }
    if (own) { bfdev_bitmap_free(&sp_al, m); bfdev_bitmap_free(&sp_al, o); sp_done(); } else { release(m, bytes); release(o, bytes); } vf_obs(bits); vf_obs(a); VF_EV("huge.bitmap");
}
static unsigned b_hash(unsigned f, const void *k, void *pd) { return vf_mix64(*(const uint64_t *)k + f * 77); }
static void scn_bloom(void)
{
    unsigned cap = vf_chance(1, 3) ? UINT_MAX - 63 - vf_below(100) : 0x80000000u + vf_below(0x7ffffe00u), nf = 1 + vf_below(5), fp = 0; uint64_t salt = vf_rand(), k; bfdev_bloom_t *b = bfdev_bloom_create(&sp_al, cap, b_hash, nf, NULL); VF_CHECK(b, "create", "refused");
    for (uint64_t i = 0; i < 3000; i++) { k = vf_mix64(salt + i); VF_EQ(bfdev_bloom_push(b, &k), bfdev_bloom_peek(b, &k) && 0, "push"); }
    for (uint64_t i = 0; i < 3000; i++) { k = vf_mix64(salt + i); VF_CHECK(bfdev_bloom_peek(b, &k), "false-negative", "pushed element reported absent"); k = vf_mix64(salt + 100000 + i); fp += bfdev_bloom_peek(b, &k); }
    VF_CHECK(fp <= 8, "tells-apart", "%u of 3000 absent elements reported present by a filter of %u bits", fp, cap); if (vf_chance(1, 2)) { bfdev_bloom_flush(b); for (uint64_t i = 0; i < 3000; i++) { k = vf_mix64(salt + i); VF_CHECK(!bfdev_bloom_peek(b, &k), "flush", "an element survives the flush"); } }
    bfdev_bloom_destroy(b); sp_done(); vf_obs(cap); vf_obs(nf); VF_EV("huge.bloom");
}
static uint8_t *bs_base; static size_t bs_esize, bs_want; static unsigned long bs_n;
static long bs_find(const void *node, void *pd) { size_t off = (const uint8_t *)node - bs_base, i = off / bs_esize; VF_EQ(off % bs_esize, 0, "element"); bs_n++; return i < bs_want ? -1 : i > bs_want; }
static void scn_bsearch(void)
{
    bs_base = (uint8_t *)(uintptr_t)4096;      /* never touched */
    for (int r = 0; r < 2000; r++) {
        size_t num = vf_chance(1, 2) ? G4 + vf_below(G4) : vf_rand() >> (4 + vf_below(25)); bs_esize = vf_chance(1, 2) ? 1 : 1 + vf_below(vf_chance(1, 2) ? 40 : 1000000); if (!num || num > ((size_t)1 << 62) / bs_esize) continue;
        bs_want = vf_chance(1, 6) ? num + vf_below(2) : vf_chance(1, 2) ? num - 1 - vf_below(num < 5 ? num : 5) : vf_below(num); bs_n = 0; void *p = bfdev_bsearch(bs_base, num, bs_esize, bs_find, NULL);
        if (bs_want < num) VF_PEQ(p, bs_base + bs_want * bs_esize, "found"); else VF_PEQ(p, NULL, "absent"); VF_CHECK(bs_n <= 64, "probes", "%lu probes", bs_n); VF_EVN("huge.bsearch", num > G4); if (!(r % 100)) vf_obs(num);
    }
}
static void scn_string(void)
{
    size_t n = beyond(); uint8_t *t = cyclic(n, PER, fill_a); size_t w = whole(n, PER), at = w + vf_below(n - w);
    if (at == n - 1) at--; VF_PEQ(bfdev_memdiff(t, 'a', n), NULL, "memdiff"); t[at] = 'b'; VF_PEQ(bfdev_memdiff(t, 'a', n), t + at, "memdiff"); t[at] = 'a'; t[n - 1] = 0; VF_PEQ(bfdev_strdiff((char *)t, 'a'), NULL, "strdiff"); t[at] = 'c'; if (at < n - 1) VF_PEQ(bfdev_strdiff((char *)t, 'a'), t + at, "strdiff");
    memset(t + w, 'x', n - w); VF_EQ(bfdev_scnprintf((char *)t + w, G4 + vf_below(3), "%d", 12345), 5, "scnprintf"); VF_CHECK(!memcmp(t + w, "12345", n - w < 6 ? n - w : 6), "scnprintf", "text differs");
    release(t, n); vf_obs(n); vf_obs(at); VF_EV("huge.string");
}
/* one call over everything equals a call per piece, which the checksum's own check settles */
static uint64_t crc(int alg, const void *p, size_t n, uint64_t c)
{
    switch (alg) { case 0: return bfdev_crc7(p, n, c); case 1: return bfdev_crc8(p, n, c); case 2: return bfdev_crc16(p, n, c); case 3: return bfdev_crc32(p, n, c); case 4: return bfdev_crc64(p, n, c); case 5: return bfdev_crc_ccitt(p, n, c);
    case 6: return bfdev_crc_itut(p, n, c); case 7: return bfdev_crc_t10dif(p, n, c); case 8: return bfdev_crc_rocksoft(p, n, c); default: return bfdev_crc4(p, n, c); }
}
static void scn_crc(void)
{
    int alg = (vf_case_no / vf_total_weight()) % 10; size_t n = G4 + 1 + vf_below(1000000), at = 0, bytes, k; if (alg == 9) n = n / 8 * 8; bytes = alg == 9 ? n / 8 : n; uint8_t *t = cyclic(bytes, PER, fill_rand); uint64_t seed = vf_rand(), whole_crc, parts = seed; vf_op("crc %d of %zu", alg, n);
    if (alg == 9) seed = parts = seed & 15;
    whole_crc = crc(alg, t, n, seed); while (at < bytes) { k = 100000000 + vf_below(200000000); if (k > bytes - at) k = bytes - at; parts = crc(alg, t + at, alg == 9 ? k * 8 : k, parts); at += k; }
    VF_EQ(whole_crc, parts, "crc"); release(t, bytes); vf_obs(whole_crc); vf_obs(alg); VF_EV("huge.crc");
}
#define DIGEST_LEN (G4 + 1234567)
static void scn_digest(void)
{   /* expected values from an independent implementation (hashlib) */
    static const char *const want[4] = { "2a48d3dc55134ea7f8c5b16029ada379", "c41e3f5292fcbfb0f1d13cec9f0ea3df2acfedce", "cc60fbfeba1f9ce078c01d94adf7321f9bfd236ebdc832e0f9dff859", "f52e8a85d1e24f9d81554a6993be7749c8fce9bb9a7072926302df402a9d383e" }; static const int DS[4] = { 16, 20, 28, 32 };
    int alg = (vf_case_no / vf_total_weight()) % 4; uint8_t *t = cyclic(DIGEST_LEN, PER, fill_fixed), o[32]; char hex[65]; size_t cut = vf_below(200), n = DIGEST_LEN - cut;
    if (alg == 0) { bfdev_md5_ctx_t c; bfdev_md5_init(&c); bfdev_md5_update(&c, (char *)t, cut); bfdev_md5_update(&c, (char *)t + cut, n); bfdev_md5_finish(&c, o); }
    else if (alg == 1) { bfdev_sha1_ctx_t c; bfdev_sha1_init(&c); bfdev_sha1_update(&c, (char *)t, cut); bfdev_sha1_update(&c, (char *)t + cut, n); bfdev_sha1_finish(&c, o); }
    else { bfdev_sha2_ctx_t c; if (alg == 2) bfdev_sha224_init(&c); else bfdev_sha256_init(&c); bfdev_sha2_update(&c, (char *)t, cut); bfdev_sha2_update(&c, (char *)t + cut, n); if (alg == 2) bfdev_sha224_finish(&c, o); else bfdev_sha256_finish(&c, o); }
    for (int i = 0; i < DS[alg]; i++) sprintf(hex + 2 * i, "%02x", o[i]);
    VF_CHECK(!strcmp(hex, want[alg]), "digest", "algorithm %d over %zu bytes: got %s want %s", alg, (size_t)DIGEST_LEN, hex, want[alg]); release(t, DIGEST_LEN); vf_obs_mem(o, DS[alg]); vf_obs(cut); VF_EV("huge.digest");
}
static void scn_arc4(void)
{
    size_t n = beyond(), at = 0, k, w = whole(n, PER); uint8_t *t = cyclic(n, PER, fill_rand), *o = cyclic(n, PER, NULL), *p = cyclic(n, PER, NULL), key[16]; bfdev_arc4_ctx_t c, d; for (int i = 0; i < 16; i++) key[i] = vf_rand();
    bfdev_arc4_setkey(&c, key, 16); d = c; bfdev_arc4_trans(&c, o, t, n); while (at < n) { k = 100000000 + vf_below(200000000); if (k > n - at) k = n - at; bfdev_arc4_trans(&d, p + at, t + at, k); at += k; }
    VF_CHECK(!memcmp(o + w, p + w, n - w), "arc4", "the end of the stream differs"); VF_CHECK(!memcmp(o, p, PER), "arc4", "the last whole block differs"); memset(o, 0, 64); memset(p, 0, 64); bfdev_arc4_trans(&c, o, o, 64); bfdev_arc4_trans(&d, p, p, 64); VF_CHECK(!memcmp(o, p, 64), "arc4", "the stream goes on differently");
    vf_obs_mem(p, 64); release(t, n); release(o, n); release(p, n); VF_EV("huge.arc4");
}
static void scn_codec(void)
{
    static const size_t IN[3] = { 5, 3, 4 }, OUT[3] = { 8, 4, 5 }; int c = (vf_case_no / vf_total_weight()) % 3; size_t n = beyond(), full, eper = PER / IN[c] * OUT[c], elen, tin, tout, el; uint8_t *t = cyclic(n, PER, fill_rand), *e, *d, *want; vf_op("codec %d of %zu", c, n);
    elen = c == 0 ? bfdev_base32_encode_length(n) : c == 1 ? bfdev_base64_encode_length(n) : bfdev_ascii85_encode_length(n); VF_EQ(elen, (n + IN[c] - 1) / IN[c] * OUT[c], "encode-length"); e = cyclic(elen, eper, NULL); tin = whole(n, PER); tout = tin / IN[c] * OUT[c];
    if (c == 0) bfdev_base32_encode(e, t, n), el = elen; else if (c == 1) bfdev_base64_encode(e, t, n), el = elen; else { bfdev_ascii85_encode(e, t, &el, n); VF_CHECK(el <= elen && el + 4 >= elen, "encoded", "%zu characters", el); }
    want = vf_xcalloc(eper + 8); size_t wl = el - tout; if (c == 0) bfdev_base32_encode(want, t + tin, n - tin); else if (c == 1) bfdev_base64_encode(want, t + tin, n - tin); else bfdev_ascii85_encode(want, t + tin, &wl, n - tin);
    VF_EQ(wl, el - tout, "encoded"); VF_CHECK(!memcmp(e + tout, want, wl), "encoded", "the end differs"); if (c == 0) bfdev_base32_encode(want, t, PER); else if (c == 1) bfdev_base64_encode(want, t, PER); else bfdev_ascii85_encode(want, t, &full, PER); VF_CHECK(!memcmp(e, want, eper), "encoded", "a whole block differs");
    size_t dl = c == 0 ? bfdev_base32_decode_length(el) : c == 1 ? bfdev_base64_decode_length(el) : bfdev_ascii85_decode_length(el); VF_CHECK(dl >= n, "decode-length", "%zu for %zu bytes", dl, n); d = cyclic(dl, PER, NULL); 
    int r = c == 0 ? bfdev_base32_decode(d, e, el) : c == 1 ? bfdev_base64_decode(d, e, el) : bfdev_ascii85_decode(d, e, &dl, el); VF_EQ(r, 0, "decode"); if (c == 2) VF_EQ(dl, (n + 3) / 4 * 4, "decoded"); VF_CHECK(!memcmp(d, t, PER) && !memcmp(d + tin, t + tin, n - tin), "decoded", "not what was encoded");
    release(d, c == 2 ? bfdev_ascii85_decode_length(el) : dl); release(e, elen); release(t, n); free(want); vf_obs(n); vf_obs(c); VF_EV("huge.codec");
}
static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }
static uint32_t lookup3(const uint8_t *k, size_t n, uint32_t init)
{
    uint32_t s[3], w[3]; s[0] = s[1] = s[2] = 0xdeadbeef + (uint32_t)n + init;
    for (;;) { size_t m = n > 12 ? 12 : n; memset(w, 0, sizeof w); memcpy(w, k, m); for (int i = 0; i < 3; i++) s[i] += w[i]; if (n <= 12) break;
        static const int R[6] = { 4, 6, 8, 16, 19, 4 };
#pragma GCC unroll 6
        for (int i = 0; i < 6; i++) { int x = i % 3, p = (i + 2) % 3, q = (i + 1) % 3; s[x] -= s[p]; s[x] ^= rot(s[p], R[i]); s[p] += s[q]; } n -= 12; k += 12; }
    static const int F[7] = { 14, 11, 25, 16, 4, 14, 24 }; for (int i = 0; i < 7; i++) { int x = (i + 2) % 3, p = (i + 1) % 3; s[x] ^= s[p]; s[x] -= rot(s[p], F[i]); }
    return s[2];
}
static void scn_jhash(void)
{
    size_t n = G4 + 1 + vf_below(1000); uint8_t *t = cyclic(n, PER, fill_rand); uint32_t init = vf_rand(); VF_EQ(bfdev_jhash(t, n, init), lookup3(t, n, init), "jhash"); release(t, n); vf_obs(init); vf_obs(n); VF_EV("huge.jhash");
}
static void scn_mpi(void)
{   /* numbers of more than 2^32 bits */
    bfdev_mpi_t a = BFDEV_MPI_INIT(&sp_al), b = BFDEV_MPI_INIT(&sp_al); unsigned long v = vf_rand() | 1, bit = G4 + vf_below(G4), lo = bit + vf_below(64); vf_op("mpi shift by %lu", bit);
    VF_EQ(bfdev_mpi_seti(&a, v), 0, "set"); VF_EQ(bfdev_mpi_shli(&b, &a, bit), 0, "shl"); for (unsigned i = 0; i < 64; i++) VF_EQ(bfdev_mpi_btesti(&b, bit + i), v >> i & 1, "shifted"); VF_EQ(bfdev_mpi_btesti(&b, bit - 1), 0, "shifted"); VF_EQ(bfdev_mpi_btesti(&b, bit & 0xffffffffu), 0, "shifted"); VF_EQ(bfdev_mpi_btesti(&b, bit + 64), 0, "shifted");
    VF_EQ(bfdev_mpi_shri(&b, &b, bit), 0, "shr"); VF_EQ(bfdev_mpi_cmp(&a, &b), 0, "shift-back");
    if (vf_chance(1, 2)) { VF_EQ(bfdev_mpi_bseti(&a, lo), 0, "bset"); VF_EQ(bfdev_mpi_btesti(&a, lo), 1, "btest"); VF_EQ(bfdev_mpi_btesti(&a, lo - 1), 0, "btest"); VF_EQ(bfdev_mpi_btesti(&a, lo + 1), 0, "btest"); VF_EQ(bfdev_mpi_btesti(&a, 0), 1, "btest"); VF_EQ(bfdev_mpi_bclri(&a, lo), 0, "bclr"); VF_EQ(bfdev_mpi_cmp(&a, &b), 0, "bclr"); }
    bfdev_mpi_release(&a); bfdev_mpi_release(&b); sp_done(); vf_obs(bit); vf_obs(v); VF_EV("huge.mpi");
}
static void scn_search(void)
{
    static const char *const NAME[3] = { "kmp", "bm", "sunday" }; static uint8_t *text; static const size_t max = UINT_MAX;
    if (!text) text = cyclic(max, PER, fill_a);
    bool sure = vf_case_no % 2; unsigned alg = vf_below(3), m = 1 + vf_below(30), n = sure || vf_chance(1, 2) ? UINT_MAX - vf_below(60) : 0x80000000u + vf_below(0x7fffff00u), w = whole(max, PER), at, got; uint8_t pat[30]; bool icase = vf_chance(1, 4), none = !sure && vf_chance(2, 3), there = n >= w + m && (sure || vf_chance(2, 3));
    if (none && vf_chance(2, 3)) { there = false; n = UINT_MAX - vf_below(m); alg = 1 + vf_below(2); }
    if (alg && !none) { icase = false; if (m > 6) m = 1 + m % 6; }      /* these scans compare backwards: keep a case within seconds */
    for (unsigned i = 0; i < m; i++) pat[i] = i == m / 2 || none ? 'b' + (none ? vf_below(3) : 0) : vf_chance(2, 3) ? 'a' : 'b'; at = there ? n - m - (sure || vf_chance(1, 2) ? 0 : vf_below(n - m - w + 1)) : 0; memset(text + w, 'a', max - w); if (there) memcpy(text + at, pat, m);
    vf_op("%s: %u in %u at %u%s", NAME[alg], m, n, at, icase ? " folded" : ""); bfdev_ts_context_t *ts = bfdev_textsearch_create(&sp_al, NAME[alg], pat, m, icase ? BFDEV_TS_IGCASE : 0); VF_CHECK(ts, "create", "refused"); bfdev_ts_linear_t li;
    got = bfdev_textsearch_linear(ts, &li, text, n); if (!there) VF_EQ(got, UINT_MAX, "absent");
    else { unsigned first = at; for (unsigned s = at > w + m ? at - m : w; s < at; s++) if (!memcmp(text + s, pat, m)) { first = s; break; } VF_EQ(got, first, "found"); VF_EVN("huge.found", first > INT_MAX); }
    bfdev_textsearch_destroy(ts); sp_done(); vf_obs(got); vf_obs(n); VF_EV("huge.search");
}
/* allocator that only notes what it is asked for */
static size_t no_asked; static void *no_alloc(size_t n, void *pd) { no_asked = n; return NULL; } static void *no_realloc(void *p, size_t n, void *pd) { no_asked = n; return NULL; } static void no_free(void *p, void *pd) { VF_CHECK(!p, "foreign-block", "free of a block that was never given out"); }
static const bfdev_alloc_ops_t no_ops = { no_alloc, no_alloc, no_realloc, no_free }; static const bfdev_alloc_t no_al = { .ops = &no_ops };
/* allocator that gives one large repeating block */
static uint8_t *one_p; static size_t one_n; static void *one_realloc(void *p, size_t n, void *pd) { if (p || one_p) return NULL; one_n = n; return one_p = cyclic(n, PER, NULL); } static void *one_alloc(size_t n, void *pd) { return one_realloc(NULL, n, pd); } static void one_free(void *p, void *pd) { if (p) { VF_PEQ(p, one_p, "foreign-block"); release(one_p, one_n); one_p = NULL; } }
static const bfdev_alloc_ops_t one_ops = { one_alloc, one_alloc, one_realloc, one_free }; static const bfdev_alloc_t one_al = { .ops = &one_ops };
static void no_room(int r, size_t need, const char *what) { VF_CHECK(r < 0, "room", "%s: success without memory", what); VF_CHECK(no_asked >= need, "room", "%s: asked for %zu bytes where %zu are needed", what, no_asked, need); no_asked = 0; }
static void scn_matrix(void)
{   /* products of the two dimensions beyond 32 bits */
    uint32_t r = 0x10001 + vf_below(1000), c = (uint32_t)(G4 / r) + 1 + vf_below(40); size_t n = (size_t)r * c; bfdev_matrix_t a = BFDEV_MATRIX_INIT(&sp_al), b = BFDEV_MATRIX_INIT(&sp_al), d = BFDEV_MATRIX_INIT(&no_al), e = BFDEV_MATRIX_INIT(&one_al); unsigned long *v = vf_xcalloc((r > c ? r : c) * sizeof *v), *t; vf_op("matrix %u x %u", r, c); no_asked = 0;
    VF_EQ(bfdev_matrix_import(&a, (void *)v, r, 1), 0, "import"); VF_EQ(bfdev_matrix_import(&b, (void *)v, 1, c), 0, "import"); no_room(bfdev_matrix_mul(&d, &a, &b), n * 8, "mul");
    if ((vf_case_no / vf_total_weight()) % 4 == 0) {
        t = (void *)cyclic(n * 8, PER, fill_rand); VF_EQ(bfdev_matrix_import(&e, (void *)t, r, c), 0, "import"); VF_CHECK(one_n >= n * 8, "room", "%zu bytes for a matrix of %zu", one_n, n * 8);
        for (int i = 0; i < 50; i++) { uint32_t y = i < 2 ? r - 1 : vf_below(r), x = i < 1 ? c - 1 : vf_below(c); size_t at = ((size_t)y * c + x) * 8; VF_PEQ(bfdev_matrix_data(&e, y, x), one_p + at, "data"); if (at >= whole(n * 8, PER)) VF_EQ(*(unsigned long *)(one_p + at), *(unsigned long *)((uint8_t *)t + at), "imported"); }
        VF_PEQ(bfdev_matrix_data(&e, r, 0), NULL, "data"); VF_PEQ(bfdev_matrix_data(&e, 0, c), NULL, "data"); no_room(bfdev_matrix_import(&d, (void *)t, r, c), n * 8, "import"); release(t, n * 8);
        no_room(bfdev_matrix_add(&d, &e, &e), n * 8, "add"); no_room(bfdev_matrix_sub(&d, &e, &e), n * 8, "sub"); no_room(bfdev_matrix_set(&d, &e), n * 8, "set"); no_room(bfdev_matrix_trans(&d, &e), n * 8, "trans"); bfdev_matrix_release(&e); VF_EV("huge.matrix_whole");
    }
    bfdev_matrix_release(&a); bfdev_matrix_release(&b); bfdev_matrix_release(&d); sp_done(); free(v); vf_obs(r); vf_obs(c); VF_EV("huge.matrix");
}
static void scn_pattern(void)
{   /* patterns beyond 2^30 bytes: what remains of a text from some place on */
    static const char *const NAME[3] = { "kmp", "bm", "sunday" }; bool sunday = (vf_case_no / vf_total_weight()) % 2; size_t m = sunday ? ((size_t)1 << 31) + vf_below(100000000) : ((size_t)1 << 30) + 1 + vf_below(1000000), skip = vf_below(3 * PER), n = m + skip; uint8_t *t = cyclic(n, PER, fill_rand); bfdev_ts_linear_t li; bfdev_ts_context_t *ts; unsigned got;
    for (int i = 0; i < 3; i++) VF_PEQ(bfdev_textsearch_create(&no_al, NAME[i], t, G4 + vf_below(5), 0), NULL, "too-long");
    if (n == whole(n, PER)) { release(t, n); return; }
    t[n - 1] ^= 0x55; vf_op("%s: pattern of %zu in text of %zu", sunday ? "sunday" : "kmp", m, n); ts = bfdev_textsearch_create(&sp_al, sunday ? "sunday" : "kmp", t + skip, m, 0); VF_CHECK(ts, "create", "refused"); VF_EQ(bfdev_textsearch_pattern_len(ts), m, "pattern-len"); VF_CHECK(!memcmp(textsearch_pattern_get(ts), t + skip, m), "pattern", "differs");
    got = bfdev_textsearch_linear(ts, &li, t, n); VF_EQ(got, skip, "found"); t[n - 1] ^= 0xff; got = bfdev_textsearch_linear(ts, &li, t, n); VF_EQ(got, UINT_MAX, "absent"); bfdev_textsearch_destroy(ts); sp_done(); release(t, n); vf_obs(m); vf_obs(skip); VF_EV("huge.pattern");
}
static void fill_words(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = i & 1 ? ' ' : 'w'; }
static void scn_argv(void)
{   /* so many words that their addresses alone fill more than 4 GiB */
    size_t words = ((size_t)1 << 29) + vf_below(100000), n = words * 2; uint8_t *t = cyclic(n, PER, fill_words); unsigned argc = 77; t[n - 1] = 0; vf_op("argv of %zu words", words); no_asked = 0;
    VF_PEQ(bfdev_argv_split(&no_al, (char *)t, &argc), NULL, "split"); VF_CHECK(no_asked >= (words + 1) * sizeof(char *) + n, "room", "argv: asked for %zu bytes where %zu are needed", no_asked, (words + 1) * sizeof(char *) + n); release(t, n); vf_obs(words); VF_EV("huge.argv");
}
static void fill_gap(uint8_t *p, size_t n) { memset(p, ' ', n); }
static void scn_argv_long(void)
{   /* a word, or a gap before the first word, that is itself almost 8 GiB long */
    bool gap = (vf_case_no / vf_total_weight()) % 2; size_t n = 2 * G4 - vf_below(1000000); uint8_t *t = cyclic(n, PER, gap ? fill_gap : fill_a); unsigned argc = 77; memcpy(t + n - 5, gap ? "b c " : "a \tx", 5); vf_op("argv of %zu bytes, a long %s", n, gap ? "gap" : "word"); no_asked = 0;
    VF_EQ(bfdev_argv_count((char *)t), 2, "count"); VF_PEQ(bfdev_argv_split(&no_al, (char *)t, &argc), NULL, "split"); VF_CHECK(no_asked >= 3 * sizeof(char *) + n, "room", "argv: asked for %zu bytes where %zu are needed", no_asked, 3 * sizeof(char *) + n); release(t, n); vf_obs(n); vf_obs(gap); VF_EV("huge.argv_long");
}
/* elements of 4 GiB and more: their first and last page are their own, what lies between is shared */
static size_t so_cell; static char *so_base; static size_t so_n;
static long so_cmp(const void *a, const void *b, void *pd) { VF_CHECK(!(((char *)a - so_base) % so_cell) && !(((char *)b - so_base) % so_cell) && (char *)a < so_base + so_n * so_cell && (char *)b < so_base + so_n * so_cell && (char *)a >= so_base && (char *)b >= so_base, "operand", "comparison on an address that is no element"); return (long)*(unsigned char *)a - *(unsigned char *)b; }
static void scn_sort(void)
{
    static const uint8_t PERM[4][6] = { { 3, 1, 2, 0, 5, 4 }, { 5, 4, 3, 2, 1, 0 }, { 0, 1, 2, 3, 4, 5 }, { 2, 5, 0, 4, 1, 3 } }; unsigned k = vf_case_no / vf_total_weight(), n = so_n = 4 + vf_below(3); size_t per = (size_t)16 << 20; so_cell = k % 3 == 2 ? G4 + 2 * PAGE * vf_below(5000) : G4; uint8_t *p = reserve(n * so_cell), seen[6] = { 0 }; int fd = memfd_create("vf", 0); if (fd < 0 || ftruncate(fd, per)) vf_harness_error("memfd"); so_base = (char *)p; vf_op("sort %u elements of %zu", n, so_cell);
    for (unsigned i = 0; i < n; i++) { for (size_t at = PAGE; at < so_cell - PAGE; ) { size_t s = so_cell - PAGE - at < per ? so_cell - PAGE - at : per; if (mmap(p + i * so_cell + at, s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) vf_harness_error("map"); at += s; } p[i * so_cell] = p[(i + 1) * so_cell - 1] = PERM[k % 4][i]; }
    VF_EQ(bfdev_sort(p, n, so_cell, so_cmp, NULL), 0, "sort"); for (unsigned i = 0; i < n; i++) { uint8_t v = p[i * so_cell]; VF_CHECK(!i || p[(i - 1) * so_cell] < v, "order", "element %u of %u out of order", i, n); VF_CHECK(v < 6 && !seen[v], "permutation", "element %u twice", v); seen[v] = 1; VF_EQ(p[(i + 1) * so_cell - 1], v, "permutation"); }
    close(fd); release(p, n * so_cell); vf_obs(so_cell); vf_obs(k % 4); vf_obs(n); VF_EV("huge.sort");
}
#ifdef HUGE_ONLY
#pragma GCC diagnostic ignored "-Wunused-function"
VF_SCENARIOS(HUGE_ONLY);
#else
VF_SCENARIOS({ "argv", scn_argv, 1 }, { "argv-long", scn_argv_long, 1 }, { "sort", scn_sort, 1 }, { "pattern", scn_pattern, 1 }, { "matrix", scn_matrix, 1 }, { "array", scn_array, 3 }, { "memalloc", scn_memalloc, 3 }, { "allocpool", scn_allocpool, 3 }, { "bsearch", scn_bsearch, 2 }, { "bloom", scn_bloom, 2 }, { "bitmap", scn_bitmap, 3 }, { "queue", scn_queue, 1 }, { "string", scn_string, 1 }, { "crc", scn_crc, 1 }, { "digest", scn_digest, 1 }, { "arc4", scn_arc4, 1 }, { "codec", scn_codec, 1 }, { "jhash", scn_jhash, 1 }, { "mpi", scn_mpi, 1 }, { "search", scn_search, 2 });
#endif
