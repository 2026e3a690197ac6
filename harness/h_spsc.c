/* C44: one writer and one reader share a FIFO without a lock. */
#include "vf.h"
#include "vf_thread.h"
#include <bfdev/errno.h>
#include <bfdev/fifo.h>
typedef struct { uint64_t w; uint32_t x; } __attribute__((packed)) t12_t; typedef struct { uint64_t w[5]; } t40_t;
enum { C_wait_full, C_fits, C_partial, C_wpolled, C_wait_empty, C_seen, C_homing, C_rpolled, C_N };
static unsigned long cnt[2][64]; static int w_done;
static uint64_t wsig[16]; /* where either side had to wait: the interleaving */
static inline void waits(int side, unsigned long s) { cnt[side][side ? C_wait_empty : C_wait_full]++; wsig[side * 8] = vf_mix64(wsig[side * 8] + s + 1); }
static void tally(unsigned long n)
{
    VF_EVN("spsc.passed", n);
    VF_EVN("spsc.waited_for_room", cnt[0][C_wait_full]); VF_EVN("spsc.room_seen_and_used", cnt[0][C_fits]); VF_EVN("spsc.partly_taken", cnt[0][C_partial]); VF_EVN("spsc.polled_for_room", cnt[0][C_wpolled]);
    VF_EVN("spsc.waited_for_data", cnt[1][C_wait_empty]); VF_EVN("spsc.data_seen_and_got", cnt[1][C_seen]); VF_EVN("spsc.emptied", cnt[1][C_homing]); VF_EVN("spsc.polled_for_data", cnt[1][C_rpolled]);
    wsig[0] = wsig[8] = 0; memset(cnt, 0, sizeof cnt);
}

#define NAME spsc_uint8_r0_dyn
#define T uint8_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC(n, uint8_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_uint32_r0_dyn
#define T uint32_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC(n, uint32_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_uint64_r0_dyn
#define T uint64_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC(n, uint64_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_t12_r0_dyn
#define T t12_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC(n, t12_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_t40_r0_dyn
#define T t40_t
#define REC 0
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC(n, t40_t)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_uint64_r0_2
#define T uint64_t
#define REC 0
#define DYN 0
#define SZ 2
#define DECL(n) BFDEV_DECLARE_FIFO(n, uint64_t, 2)
#define INITQ BFDEV_FIFO_INIT
#include "spsc_body.inc"
#define NAME spsc_uint8_r0_16
#define T uint8_t
#define REC 0
#define DYN 0
#define SZ 16
#define DECL(n) BFDEV_DECLARE_FIFO(n, uint8_t, 16)
#define INITQ BFDEV_FIFO_INIT
#include "spsc_body.inc"
#define NAME spsc_uint64_r0_64
#define T uint64_t
#define REC 0
#define DYN 0
#define SZ 64
#define DECL(n) BFDEV_DECLARE_FIFO(n, uint64_t, 64)
#define INITQ BFDEV_FIFO_INIT
#include "spsc_body.inc"
#define NAME spsc_t40_r0_4
#define T t40_t
#define REC 0
#define DYN 0
#define SZ 4
#define DECL(n) BFDEV_DECLARE_FIFO(n, t40_t, 4)
#define INITQ BFDEV_FIFO_INIT
#include "spsc_body.inc"
#define NAME spsc_uint8_r1_dyn
#define T uint8_t
#define REC 1
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(n, uint8_t, 1)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_uint8_r2_dyn
#define T uint8_t
#define REC 2
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(n, uint8_t, 2)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_t12_r1_dyn
#define T t12_t
#define REC 1
#define DYN 1
#define SZ 0
#define DECL(n) BFDEV_DECLARE_FIFO_DYNAMIC_RECORD(n, t12_t, 1)
#define INITQ BFDEV_FIFO_DYNAMIC_INIT
#include "spsc_body.inc"
#define NAME spsc_uint8_r2_64
#define T uint8_t
#define REC 2
#define DYN 0
#define SZ 64
#define DECL(n) BFDEV_DECLARE_FIFO_RECORD(n, uint8_t, 64, 2)
#define INITQ BFDEV_FIFO_INIT
#include "spsc_body.inc"
#define NAME spsc_t12_r1_8
#define T t12_t
#define REC 1
#define DYN 0
#define SZ 8
#define DECL(n) BFDEV_DECLARE_FIFO_RECORD(n, t12_t, 8, 1)
#define INITQ BFDEV_FIFO_INIT
#include "spsc_body.inc"
const vf_scn_t vf_scns[] = {
    { "spsc_uint8_r0_dyn", spsc_uint8_r0_dyn_scn, 1 },
    { "spsc_uint32_r0_dyn", spsc_uint32_r0_dyn_scn, 1 },
    { "spsc_uint64_r0_dyn", spsc_uint64_r0_dyn_scn, 1 },
    { "spsc_t12_r0_dyn", spsc_t12_r0_dyn_scn, 1 },
    { "spsc_t40_r0_dyn", spsc_t40_r0_dyn_scn, 1 },
    { "spsc_uint64_r0_2", spsc_uint64_r0_2_scn, 1 },
    { "spsc_uint8_r0_16", spsc_uint8_r0_16_scn, 1 },
    { "spsc_uint64_r0_64", spsc_uint64_r0_64_scn, 1 },
    { "spsc_t40_r0_4", spsc_t40_r0_4_scn, 1 },
    { "spsc_uint8_r1_dyn", spsc_uint8_r1_dyn_scn, 1 },
    { "spsc_uint8_r2_dyn", spsc_uint8_r2_dyn_scn, 1 },
    { "spsc_t12_r1_dyn", spsc_t12_r1_dyn_scn, 1 },
    { "spsc_uint8_r2_64", spsc_uint8_r2_64_scn, 1 },
    { "spsc_t12_r1_8", spsc_t12_r1_8_scn, 1 },
    { NULL, NULL, 0 }
};
