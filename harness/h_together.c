/* C45: threads that share no object. Every sequential harness runs, with its own
 * oracles and its own state (its own copy of the module), in several threads of one
 * process over one copy of the library. */
#include "vf.h"
#include "vf_thread.h"
#include <dlfcn.h>

enum { MODS = 64 };
typedef void (*case_fn)(uint64_t, long, long);
static char names[MODS][32]; static case_fn fn[MODS][COPIES]; static unsigned long (*checks[MODS][COPIES])(void); static int nmods;
static void load_modules(void)
{
    const char *p = MODULES; int n;
    while (*p && sscanf(p, "%31s%n", names[nmods], &n) == 1) {
        for (int k = 0; k < COPIES; k++) {
            char path[512]; snprintf(path, sizeof path, MODPATH, names[nmods], k);
            void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); vf_harness_error("dlopen"); }
            if (!(fn[nmods][k] = (case_fn)dlsym(h, "vf_module_case"))) vf_harness_error("dlsym");
            checks[nmods][k] = (unsigned long (*)(void))dlsym(h, "vf_module_checks");
        }
        nmods++; p += n; while (*p == ' ') p++;
    }
}
static struct { int mod, copy, n; long from; } job[VT_MAX]; static int active, overlapped;
static void th(int id)
{
    for (int i = 0; i < job[id].n; i++) {
        vt_delay(); if (__atomic_add_fetch(&active, 1, __ATOMIC_RELAXED) > 1) __atomic_store_n(&overlapped, 1, __ATOMIC_RELAXED);
        fn[job[id].mod][job[id].copy](vf_seed, vf_case_no, job[id].from + i); __atomic_sub_fetch(&active, 1, __ATOMIC_RELAXED);
    }
}
static void run(bool same)
{
    vf_watchdog(2 * vf_limit_cpu);
    int n = 2 + vf_below(COPIES - 1), m0 = vf_case_no % (nmods ? nmods : 1); unsigned long before = 0, after = 0; unsigned used[MODS] = { 0 };
    if (!nmods) { load_modules(); m0 = vf_case_no % nmods; }
    for (int i = 0; i < n; i++) {
        int m = same || !i ? m0 : (int)vf_below(nmods); job[i].mod = m; job[i].copy = used[m]++; job[i].n = 1 + vf_below(3); job[i].from = vf_below(1L << 40);
        vf_op("thread %d runs %d cases of %s from %ld", i, job[i].n, names[m], job[i].from);
    }
    for (int i = 0; i < n; i++) before += checks[job[i].mod][job[i].copy]();
    overlapped = 0; vt_run(n, th);
    for (int i = 0; i < n; i++) { after += checks[job[i].mod][job[i].copy](); vf_obs(vf_mix64(job[i].from) + job[i].mod); }
    vf_checks_total += after - before; VF_EVN("together.overlapped", overlapped); VF_EVN("together.oracle_checks", after - before);
    static vf_ctr_t ctr[MODS]; for (int i = 0; i < n; i++) { ctr[job[i].mod].name = names[job[i].mod]; vf_hit(&ctr[job[i].mod], job[i].n); }
}
static void scn_same(void) { run(true); }
static void scn_mixed(void) { run(false); }
VF_SCENARIOS({ "same", scn_same, 1 }, { "mixed", scn_mixed, 1 });
