/* threads for the concurrent harnesses: common start line, injected delays */
#ifndef VF_THREAD_H
#define VF_THREAD_H
#include <pthread.h>
#include <sched.h>
enum { VT_MAX = 8 };
typedef struct { int id; uint64_t rng; unsigned jitter; void (*fn)(int); pthread_t t; } vt_t;
static vt_t vt[VT_MAX]; static int vt_n, vt_ready, vt_go;
static __thread vt_t *vt_me;
static inline uint64_t vt_rand(void) { return vf_mix64(vt_me->rng += 0x9e3779b97f4a7c15ULL); }
static inline uint64_t vt_below(uint64_t n) { return vt_rand() % n; }
/* a delay that spreads the interleavings */
static inline void vt_delay(void)
{
    unsigned r = vt_rand() & 1023;
    if (r >= vt_me->jitter) return;
    if (r % 8 == 0) sched_yield();
    else if (r % 64 == 1) usleep(r & 7);
    else for (volatile unsigned i = 0; i < (r & 127); i++) ;
}
static void *vt_main(void *p)
{
    vt_me = p; __atomic_add_fetch(&vt_ready, 1, __ATOMIC_SEQ_CST);
    while (!__atomic_load_n(&vt_go, __ATOMIC_SEQ_CST)) if (!(vt_rand() & 63)) sched_yield();
    vt_me->fn(vt_me->id); return NULL;
}
/* run fn(0..n-1) at once; returns when all have ended */
static void vt_run(int n, void (*fn)(int))
{
    static const unsigned JIT[4] = { 0, 20, 200, 700 }; unsigned j = JIT[vf_below(4)];
    vt_n = n; vt_ready = vt_go = 0;
    for (int i = 0; i < n; i++) { vt[i] = (vt_t){ i, vf_rand(), j, fn, 0 }; if (pthread_create(&vt[i].t, NULL, vt_main, &vt[i])) vf_harness_error("pthread_create"); }
    while (__atomic_load_n(&vt_ready, __ATOMIC_SEQ_CST) < n) sched_yield();
    __atomic_store_n(&vt_go, 1, __ATOMIC_SEQ_CST);
    for (int i = 0; i < n; i++) pthread_join(vt[i].t, NULL);
}
#endif
