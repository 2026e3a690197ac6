/* C12: generated shapes of queue_body.inc over every fifo element type, capacity and record size. */
#include "vf.h"
#include <bfdev/errno.h>
#include <bfdev/fifo.h>
typedef struct { uint8_t b[3]; } t3_t; typedef struct { uint32_t w[3]; } t12_t;
static void fillb(void *p, size_t n) { uint8_t *b = p; while (n--) *b++ = vf_rand(); }
#define Q(x) bfdev_fifo_##x
#define QF fifo
#define RING 0
#define FREEQ bfdev_fifo_dynamic_free

#define NAME fifo_uint8_t_r0_dyn
#define T uint8_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC(q, uint8_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint32_t_r0_dyn
#define T uint32_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC(q, uint32_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_t3_t_r0_dyn
#define T t3_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC(q, t3_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_t12_t_r0_dyn
#define T t12_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC(q, t12_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint64_t_r0_dyn
#define T uint64_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC(q, uint64_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r0_2
#define T uint8_t
#define REC 0
#define DYN 0
#define SZ 2
#define DECL BFDEV_DECLARE_FIFO(q, uint8_t, 2)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r0_16
#define T uint8_t
#define REC 0
#define DYN 0
#define SZ 16
#define DECL BFDEV_DECLARE_FIFO(q, uint8_t, 16)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_t3_t_r0_8
#define T t3_t
#define REC 0
#define DYN 0
#define SZ 8
#define DECL BFDEV_DECLARE_FIFO(q, t3_t, 8)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_uint64_t_r0_64
#define T uint64_t
#define REC 0
#define DYN 0
#define SZ 64
#define DECL BFDEV_DECLARE_FIFO(q, uint64_t, 64)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_t12_t_r0_4
#define T t12_t
#define REC 0
#define DYN 0
#define SZ 4
#define DECL BFDEV_DECLARE_FIFO(q, t12_t, 4)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r1_dyn
#define T uint8_t
#define REC 1
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, uint8_t, 1)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r2_dyn
#define T uint8_t
#define REC 2
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, uint8_t, 2)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_char_r4_dyn
#define T char
#define REC 4
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, char, 4)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint32_t_r1_dyn
#define T uint32_t
#define REC 1
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, uint32_t, 1)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_t3_t_r2_dyn
#define T t3_t
#define REC 2
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, t3_t, 2)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r8_dyn
#define T uint8_t
#define REC 8
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, uint8_t, 8)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint16_t_r3_dyn
#define T uint16_t
#define REC 3
#define DYN 1
#define SZ 0
#define DECL BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(q, uint16_t, 3)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r1_16
#define T uint8_t
#define REC 1
#define DYN 0
#define SZ 16
#define DECL BFDEV_DECLARE_FIFO_RECORD(q, uint8_t, 16, 1)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r2_64
#define T uint8_t
#define REC 2
#define DYN 0
#define SZ 64
#define DECL BFDEV_DECLARE_FIFO_RECORD(q, uint8_t, 64, 2)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_uint32_t_r1_8
#define T uint32_t
#define REC 1
#define DYN 0
#define SZ 8
#define DECL BFDEV_DECLARE_FIFO_RECORD(q, uint32_t, 8, 1)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_char_r4_2
#define T char
#define REC 4
#define DYN 0
#define SZ 2
#define DECL BFDEV_DECLARE_FIFO_RECORD(q, char, 2, 4)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
#define NAME fifo_uint8_t_r1_512
#define T uint8_t
#define REC 1
#define DYN 0
#define SZ 512
#define DECL BFDEV_DECLARE_FIFO_RECORD(q, uint8_t, 512, 1)
#define INITQ BFDEV_FIFO_INIT
#include "queue_body.inc"
static BFDEV_DEFINE_FIFO(g_fifo, uint32_t, 8); static BFDEV_DEFINE_FIFO_RECORD(g_rfifo, char, 64, 2);
static void global_fifo(void)
{   /* statically initialised queues behave like any other */
    static uint32_t next_in, next_out; uint32_t v; char b[40], c[40];
    for (int i = 0; i < 20; i++) { if (vf_chance(1, 2)) { bool full = bfdev_fifo_check_full(&g_fifo); VF_EQ(bfdev_fifo_put(&g_fifo, next_in), !full, "global-put"); next_in += !full; } else { bool e = bfdev_fifo_check_empty(&g_fifo); VF_EQ(bfdev_fifo_get(&g_fifo, &v), !e, "global-get"); if (!e) { VF_EQ(v, next_out, "global-order"); next_out++; } } VF_EQ(bfdev_fifo_len(&g_fifo), next_in - next_out, "global-len"); vf_obs(next_in); }
    int n = 1 + vf_below(38); memset(b, 'a' + n % 26, n); VF_EQ(bfdev_fifo_in(&g_rfifo, b, n), n, "global-record"); VF_EQ(bfdev_fifo_out(&g_rfifo, c, 40), n, "global-record"); VF_CHECK(!memcmp(b, c, n), "global-record", "contents differ"); VF_EV("queue.global");
}
VF_SCENARIOS({ "fifo_uint8_t_r0_dyn", fifo_uint8_t_r0_dyn, 3 }, { "fifo_uint32_t_r0_dyn", fifo_uint32_t_r0_dyn, 3 }, { "fifo_t3_t_r0_dyn", fifo_t3_t_r0_dyn, 3 }, { "fifo_t12_t_r0_dyn", fifo_t12_t_r0_dyn, 3 }, { "fifo_uint64_t_r0_dyn", fifo_uint64_t_r0_dyn, 3 }, { "fifo_uint8_t_r0_2", fifo_uint8_t_r0_2, 1 }, { "fifo_uint8_t_r0_16", fifo_uint8_t_r0_16, 1 }, { "fifo_t3_t_r0_8", fifo_t3_t_r0_8, 1 }, { "fifo_uint64_t_r0_64", fifo_uint64_t_r0_64, 1 }, { "fifo_t12_t_r0_4", fifo_t12_t_r0_4, 1 }, { "fifo_uint8_t_r1_dyn", fifo_uint8_t_r1_dyn, 4 }, { "fifo_uint8_t_r2_dyn", fifo_uint8_t_r2_dyn, 4 }, { "fifo_char_r4_dyn", fifo_char_r4_dyn, 2 }, { "fifo_uint32_t_r1_dyn", fifo_uint32_t_r1_dyn, 2 }, { "fifo_t3_t_r2_dyn", fifo_t3_t_r2_dyn, 2 }, { "fifo_uint8_t_r8_dyn", fifo_uint8_t_r8_dyn, 1 }, { "fifo_uint16_t_r3_dyn", fifo_uint16_t_r3_dyn, 1 }, { "fifo_uint8_t_r1_16", fifo_uint8_t_r1_16, 1 }, { "fifo_uint8_t_r2_64", fifo_uint8_t_r2_64, 1 }, { "fifo_uint32_t_r1_8", fifo_uint32_t_r1_8, 1 }, { "fifo_char_r4_2", fifo_char_r4_2, 1 }, { "fifo_uint8_t_r1_512", fifo_uint8_t_r1_512, 1 }, { "fifo_global", global_fifo, 1 });
