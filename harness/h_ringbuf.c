/* C13: generated shapes of queue_body.inc over every ringbuf element type, capacity and record size. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/ringbuf.h>
#include <bfdev/circle.h>
typedef struct { uint8_t b[3]; } t3_t; typedef struct { uint32_t w[3]; } t12_t;
static void fillb(void *p, size_t n) { uint8_t *b = p; while (n--) *b++ = vf_rand(); }
#define Q(x) bfdev_ringbuf_##x
#define QF ringbuf
#define RING 1
#define FREEQ bfdev_ringbuf_dynamic_free

#define NAME ringbuf_uint8_t_r0_dyn
#define T uint8_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC(q, uint8_t)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint32_t_r0_dyn
#define T uint32_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC(q, uint32_t)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_t3_t_r0_dyn
#define T t3_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC(q, t3_t)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_t12_t_r0_dyn
#define T t12_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC(q, t12_t)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint64_t_r0_dyn
#define T uint64_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC(q, uint64_t)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r0_2
#define T uint8_t
#define REC 0
#define DYN 0
#define SZ 2
#define DECL BFDEV_DECLARE_RINGBUF(q, uint8_t, 2)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r0_16
#define T uint8_t
#define REC 0
#define DYN 0
#define SZ 16
#define DECL BFDEV_DECLARE_RINGBUF(q, uint8_t, 16)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_t3_t_r0_8
#define T t3_t
#define REC 0
#define DYN 0
#define SZ 8
#define DECL BFDEV_DECLARE_RINGBUF(q, t3_t, 8)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint64_t_r0_64
#define T uint64_t
#define REC 0
#define DYN 0
#define SZ 64
#define DECL BFDEV_DECLARE_RINGBUF(q, uint64_t, 64)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_t12_t_r0_4
#define T t12_t
#define REC 0
#define DYN 0
#define SZ 4
#define DECL BFDEV_DECLARE_RINGBUF(q, t12_t, 4)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r1_dyn
#define T uint8_t
#define REC 1
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, uint8_t, 1)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r2_dyn
#define T uint8_t
#define REC 2
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, uint8_t, 2)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_char_r4_dyn
#define T char
#define REC 4
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, char, 4)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint32_t_r1_dyn
#define T uint32_t
#define REC 1
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, uint32_t, 1)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_t3_t_r2_dyn
#define T t3_t
#define REC 2
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, t3_t, 2)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r8_dyn
#define T uint8_t
#define REC 8
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, uint8_t, 8)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint16_t_r3_dyn
#define T uint16_t
#define REC 3
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_RINGBUF_DYNAMIC_RECORD(q, uint16_t, 3)
#define INITQ BFDEV_RINGBUF_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r1_16
#define T uint8_t
#define REC 1
#define DYN 0
#define SZ 16
#define DECL BFDEV_DECLARE_RINGBUF_RECORD(q, uint8_t, 16, 1)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r2_64
#define T uint8_t
#define REC 2
#define DYN 0
#define SZ 64
#define DECL BFDEV_DECLARE_RINGBUF_RECORD(q, uint8_t, 64, 2)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint32_t_r1_8
#define T uint32_t
#define REC 1
#define DYN 0
#define SZ 8
#define DECL BFDEV_DECLARE_RINGBUF_RECORD(q, uint32_t, 8, 1)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_char_r4_2
#define T char
#define REC 4
#define DYN 0
#define SZ 2
#define DECL BFDEV_DECLARE_RINGBUF_RECORD(q, char, 2, 4)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
#define NAME ringbuf_uint8_t_r1_512
#define T uint8_t
#define REC 1
#define DYN 0
#define SZ 512
#define DECL BFDEV_DECLARE_RINGBUF_RECORD(q, uint8_t, 512, 1)
#define INITQ BFDEV_RINGBUF_INIT
#include "queue_body.inc"
static BFDEV_DEFINE_RINGBUF(g_ring, uint32_t, 8);
static void global_ring(void)
{
    static uint32_t next_in; static size_t have; uint32_t v;
    for (int i = 0; i < 20; i++) { if (vf_chance(2, 3)) { bfdev_ringbuf_put(&g_ring, next_in); next_in++; if (have < 8) have++; } else { VF_EQ(bfdev_ringbuf_get(&g_ring, &v), have != 0, "global-get"); if (have) { VF_EQ(v, next_in - have, "global-order"); have--; } } VF_EQ(bfdev_ringbuf_len(&g_ring), have, "global-len"); vf_obs(next_in); vf_obs(have); } VF_EV("queue.global");
}
static void circle(void)
{   /* an ideal ring keeps at most size - 1 elements */
    unsigned long size = 1UL << (1 + vf_below(7)), count = vf_below(size), tail = vf_below(size), head = (tail + count) & (size - 1), end, sp; int ih = head, it = tail, is = size;
    BFDEV_DEFINE_CIRCLE(c, &size); VF_PEQ(c.buffer, &size, "circle-init"); VF_EQ(c.head | c.tail, 0, "circle-init");
    for (end = 0; end < count && tail + end < size; end++);
    for (sp = 0; sp < size - 1 - count && head + sp < size; sp++);
    VF_EQ(BFDEV_CIRCLE_CNT(head, tail, size), count, "circle-count"); VF_EQ(BFDEV_CIRCLE_SPACE(head, tail, size), size - 1 - count, "circle-space");
    VF_EQ(BFDEV_CIRCLE_CNT_END(head, tail, size), end, "circle-count-end"); VF_EQ(BFDEV_CIRCLE_SPACE_END(head, tail, size), sp, "circle-space-end");
    VF_EQ(BFDEV_CIRCLE_CNT(ih, it, is), (int)count, "circle-count-int"); VF_EQ(BFDEV_CIRCLE_SPACE(ih, it, is), (int)(size - 1 - count), "circle-space-int"); VF_EQ(BFDEV_CIRCLE_CNT_END(ih, it, is), (int)end, "circle-count-end-int"); VF_EQ(BFDEV_CIRCLE_SPACE_END(ih, it, is), (int)sp, "circle-space-end-int");
    unsigned long off = vf_rand() * size; /* free-running indices */ VF_EQ(BFDEV_CIRCLE_CNT(head + off, tail + off, size), count, "circle-count-free"); VF_EQ(BFDEV_CIRCLE_SPACE(head + off, tail + off, size), size - 1 - count, "circle-space-free");
    vf_obs(size ^ head << 10 ^ tail << 20); vf_obs(end ^ sp << 10); VF_EV("circle.checked");
}
VF_SCENARIOS({ "ringbuf_uint8_t_r0_dyn", ringbuf_uint8_t_r0_dyn, 3 }, { "ringbuf_uint32_t_r0_dyn", ringbuf_uint32_t_r0_dyn, 3 }, { "ringbuf_t3_t_r0_dyn", ringbuf_t3_t_r0_dyn, 3 }, { "ringbuf_t12_t_r0_dyn", ringbuf_t12_t_r0_dyn, 3 }, { "ringbuf_uint64_t_r0_dyn", ringbuf_uint64_t_r0_dyn, 3 }, { "ringbuf_uint8_t_r0_2", ringbuf_uint8_t_r0_2, 1 }, { "ringbuf_uint8_t_r0_16", ringbuf_uint8_t_r0_16, 1 }, { "ringbuf_t3_t_r0_8", ringbuf_t3_t_r0_8, 1 }, { "ringbuf_uint64_t_r0_64", ringbuf_uint64_t_r0_64, 1 }, { "ringbuf_t12_t_r0_4", ringbuf_t12_t_r0_4, 1 }, { "ringbuf_uint8_t_r1_dyn", ringbuf_uint8_t_r1_dyn, 4 }, { "ringbuf_uint8_t_r2_dyn", ringbuf_uint8_t_r2_dyn, 4 }, { "ringbuf_char_r4_dyn", ringbuf_char_r4_dyn, 2 }, { "ringbuf_uint32_t_r1_dyn", ringbuf_uint32_t_r1_dyn, 2 }, { "ringbuf_t3_t_r2_dyn", ringbuf_t3_t_r2_dyn, 2 }, { "ringbuf_uint8_t_r8_dyn", ringbuf_uint8_t_r8_dyn, 1 }, { "ringbuf_uint16_t_r3_dyn", ringbuf_uint16_t_r3_dyn, 1 }, { "ringbuf_uint8_t_r1_16", ringbuf_uint8_t_r1_16, 1 }, { "ringbuf_uint8_t_r2_64", ringbuf_uint8_t_r2_64, 1 }, { "ringbuf_uint32_t_r1_8", ringbuf_uint32_t_r1_8, 1 }, { "ringbuf_char_r4_2", ringbuf_char_r4_2, 1 }, { "ringbuf_uint8_t_r1_512", ringbuf_uint8_t_r1_512, 1 }, { "ringbuf_global", global_ring, 1 }, { "circle", circle, 10 });
