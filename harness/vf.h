/* Common runtime-monitoring support: numbered deterministic cases, event counters,
 * oracles, an accounting/fault-injecting allocator and a CPU-time watchdog. */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
# define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/mman.h>

#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define VF_MSAN 1
# endif
#endif
#ifndef VF_MSAN
# define VF_MSAN 0
#endif

typedef struct { const char *name; void (*fn)(void); unsigned weight; } vf_scn_t;
extern const vf_scn_t vf_scns[];

/* ---------- random numbers (splitmix64) ---------- */
static uint64_t vf_state;
static inline uint64_t vf_mix64(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t vf_rand(void)
{
    return vf_mix64(vf_state += 0x9e3779b97f4a7c15ULL);
}
static inline uint64_t vf_below(uint64_t n) { return n ? vf_rand() % n : 0; }
static inline long vf_range(long lo, long hi) { return lo + (long)vf_below((uint64_t)(hi - lo) + 1); }
static inline bool vf_chance(unsigned num, unsigned den) { return vf_below(den) < num; }
static inline size_t vf_past64k(void) { return ((size_t)1 << 16) * vf_range(1, 2) + vf_range(-9, 90); }  /* sizes that no 16-bit count can hold */
/* edge-biased word */
static inline uint64_t vf_edge64(void)
{
    uint64_t v;
    switch (vf_below(12)) {
    case 0: return 0;
    case 1: return ~0ULL;
    case 2: return 1ULL << vf_below(64);
    case 3: return (1ULL << vf_below(64)) - 1;
    case 4: return ~(1ULL << vf_below(64));
    case 5: return ~0ULL << vf_below(64);
    case 6: return vf_below(16);
    case 7: return -vf_below(16);
    case 8: v = vf_rand(); return v & vf_rand() & vf_rand();
    case 9: v = vf_rand(); return v | vf_rand() | vf_rand();
    case 10: return vf_rand() >> vf_below(64);
    default: return vf_rand();
    }
}

/* ---------- run state ---------- */
static uint64_t vf_seed;
static long vf_case_no = -1;
#ifdef VF_MODULE
#define VF_ALONE 0      /* recorded findings are reported by the check of their own property only */
#else
#define VF_ALONE 1
#endif
static int vf_deep;                 /* 0 quick, 1 thorough */
static bool vf_tracing;
static const char *vf_scn_name = "";
static uint64_t vf_hash;            /* hash of what this case observed */
static unsigned long vf_obs_cnt;    /* observations in this case */
static unsigned long vf_checks_total, vf_obs_total, vf_cases_total;
static long *vf_progress;           /* shared with the runner */
static const char *vf_statsfile;
static uint64_t *vf_sigs; static size_t vf_nsigs, vf_capsigs;

typedef struct vf_ctr { const char *name; unsigned long n; struct vf_ctr *next; } vf_ctr_t;
static vf_ctr_t *vf_ctrs;
static inline void vf_hit(vf_ctr_t *c, unsigned long n)
{
    if (!c->n) { c->next = vf_ctrs; vf_ctrs = c; }
    c->n += n;
}
#define VF_EVN(nm, k) do { static vf_ctr_t _c = { nm, 0, NULL }; unsigned long _k = (k); if (_k) vf_hit(&_c, _k); } while (0)
#define VF_EV(nm) VF_EVN(nm, 1)

static inline void vf_obs(uint64_t v)
{
    vf_hash = vf_mix64(vf_hash ^ (v + 0x9e3779b97f4a7c15ULL + (vf_hash << 6)));
    vf_obs_cnt++;
}
static inline void vf_obs_mem(const void *p, size_t n)
{
    const unsigned char *b = p; uint64_t h = 1469598103934665603ULL;
    while (n--) h = (h ^ *b++) * 1099511628211ULL;
    vf_obs(h);
}
#define vf_op(...) do { if (vf_tracing) { fprintf(stderr, "OP "); fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); } } while (0)

static void vf_dump_stats(void)
{
    FILE *f; vf_ctr_t *c;
    if (!vf_statsfile) return;
    f = fopen(vf_statsfile, "w");
    if (!f) return;
    fprintf(f, "cases %lu\nobs %lu\nchecks %lu\n", vf_cases_total, vf_obs_total + vf_obs_cnt, vf_checks_total);
    for (c = vf_ctrs; c; c = c->next) fprintf(f, "ev %s %lu\n", c->name, c->n);
    for (size_t i = 0; i < vf_nsigs; i++) fprintf(f, "s %llx\n", (unsigned long long)vf_sigs[i]);
    fclose(f);
}

static void __attribute__((noreturn, format(printf, 2, 3)))
vf_fail(const char *key, const char *fmt, ...)
{
    va_list ap;
    fflush(stdout);
    fprintf(stderr, "\nVF-FAIL key=%s:%s case=%ld msg=", vf_scn_name, key, vf_case_no);
    va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
    fputc('\n', stderr);
    fflush(stderr);
    vf_dump_stats();
    _exit(70);
}
#define VF_CHECK(cond, key, ...) do { vf_checks_total++; if (__builtin_expect(!(cond), 0)) vf_fail(key, __VA_ARGS__); } while (0)
/* compare two integers */
#define VF_EQ(got, want, key) do { \
    long long _g = (long long)(got), _w = (long long)(want); vf_checks_total++; \
    if (__builtin_expect(_g != _w, 0)) vf_fail(key, "%s: got %lld (0x%llx) want %lld (0x%llx)", #got, _g, (unsigned long long)_g, _w, (unsigned long long)_w); } while (0)
#define VF_PEQ(got, want, key) do { \
    const void *_g = (const void *)(got), *_w = (const void *)(want); vf_checks_total++; \
    if (__builtin_expect(_g != _w, 0)) vf_fail(key, "%s: got %p want %p", #got, _g, _w); } while (0)

static void __attribute__((noreturn)) vf_harness_error(const char *msg)
{
    fprintf(stderr, "VF-HARNESS-ERROR %s\n", msg);
    _exit(90);
}
static void *vf_xmalloc(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) vf_harness_error("out of memory");
    return p;
}
static inline void *vf_xcalloc(size_t n) { void *p = vf_xmalloc(n); memset(p, 0, n); return p; }
/* exact-size copy so that ASan sees any byte beyond it */
static inline void *vf_dup(const void *p, size_t n) { void *q = vf_xmalloc(n); if (n) memcpy(q, p, n); return q; }

/* ---------- accounting / fault-injecting allocator ---------- */
typedef struct { void *p; size_t n; } vf_blk_t;
typedef struct {
    vf_blk_t *tab; size_t cap, live;
    size_t bytes, peak;
    unsigned long allocs, frees, reallocs, calls, failed;
    long fail_at;      /* call number (1-based) that fails; 0 = never */
    bool fail_persist; /* all calls from fail_at on fail */
    size_t max_size;   /* larger requests are refused (like a real heap would) */
} vf_alloc_t;

static inline void vfa_init(vf_alloc_t *a) { memset(a, 0, sizeof(*a)); a->max_size = (size_t)64 << 20; }
static inline size_t vfa_slot(vf_alloc_t *a, void *p)
{
    size_t i = vf_mix64((uintptr_t)p) & (a->cap - 1);
    while (a->tab[i].p && a->tab[i].p != p) i = (i + 1) & (a->cap - 1);
    return i;
}
static inline void vfa_insert(vf_alloc_t *a, void *p, size_t n)
{
    size_t i;
    if ((a->live + 1) * 2 > a->cap) {
        vf_blk_t *old = a->tab; size_t oc = a->cap;
        a->cap = oc ? oc * 2 : 64; a->tab = vf_xcalloc(a->cap * sizeof(*a->tab));
        for (i = 0; i < oc; i++) if (old[i].p) a->tab[vfa_slot(a, old[i].p)] = old[i];
        free(old);
    }
    i = vfa_slot(a, p); a->tab[i].p = p; a->tab[i].n = n; a->live++;
    a->bytes += n; if (a->bytes > a->peak) a->peak = a->bytes;
}
static inline size_t vfa_remove(vf_alloc_t *a, void *p, const char *what)
{
    size_t i, j, n;
    if (!a->cap) vf_fail("foreign-block", "%s of %p which this allocator never gave out", what, p);
    i = vfa_slot(a, p);
    if (!a->tab[i].p) vf_fail("foreign-block", "%s of %p which is not a live block of this allocator", what, p);
    n = a->tab[i].n; a->tab[i].p = NULL; a->live--; a->bytes -= n;
    for (j = (i + 1) & (a->cap - 1); a->tab[j].p; j = (j + 1) & (a->cap - 1)) {
        vf_blk_t b = a->tab[j]; a->tab[j].p = NULL; a->tab[vfa_slot(a, b.p)] = b;
    }
    return n;
}
static inline bool vfa_fails(vf_alloc_t *a, size_t n)
{
    a->calls++;
    if ((a->fail_at && (a->fail_persist ? (long)a->calls >= a->fail_at : (long)a->calls == a->fail_at)) || n > a->max_size) {
        a->failed++; return true;
    }
    return false;
}
static void *vfa_alloc(size_t n, void *pd)
{
    vf_alloc_t *a = pd; void *p;
    if (vfa_fails(a, n)) return NULL;
    p = vf_xmalloc(n); a->allocs++;
    if (!VF_MSAN) memset(p, 0xa5, n);
    vfa_insert(a, p, n);
    return p;
}
static void *vfa_zalloc(size_t n, void *pd)
{
    vf_alloc_t *a = pd; void *p;
    if (vfa_fails(a, n)) return NULL;
    p = vf_xcalloc(n); a->allocs++;
    vfa_insert(a, p, n);
    return p;
}
static void vfa_free(void *p, void *pd)
{
    vf_alloc_t *a = pd; size_t n;
    if (!p) return;     /* like free() */
    n = vfa_remove(a, p, "free"); a->frees++;
    if (!VF_MSAN) memset(p, 0xdd, n);
    free(p);
}
static void *vfa_realloc(void *p, size_t n, void *pd)
{   /* always moves */
    vf_alloc_t *a = pd; void *q; size_t o;
    if (vfa_fails(a, n)) return NULL;
    a->reallocs++;
    o = vfa_remove(a, p, "realloc");
    q = vf_xmalloc(n);
    if (!VF_MSAN) memset(q, 0xa5, n);
    memcpy(q, p, o < n ? o : n);
    if (!VF_MSAN) memset(p, 0xdd, o);
    free(p);
    vfa_insert(a, q, n);
    return q;
}
static inline void vfa_done(vf_alloc_t *a, const char *key)
{
    if (a->live) vf_fail(key, "%zu block(s), %zu bytes still held after release", a->live, a->bytes);
    free(a->tab); a->tab = NULL; a->cap = 0;
}
#ifdef _BFDEV_ALLOCATOR_H_
# error "include vf.h first"
#endif
#include <bfdev/config.h>
#include <bfdev/allocator.h>
static const bfdev_alloc_ops_t vfa_ops = { vfa_alloc, vfa_zalloc, vfa_realloc, vfa_free };
#define VFA_ALLOC(a) BFDEV_ALLOC_INIT(&vfa_ops, (a))

/* ---------- main loop ---------- */
static unsigned vf_limit_cpu = 20;
#if defined(__has_feature)
# if __has_feature(thread_sanitizer)
#  define VF_HAS_TSAN 1
# endif
#endif
#ifndef VF_HAS_TSAN
# define VF_HAS_TSAN 0
#endif
#include <sys/resource.h>
static void vf_on_alarm(int sig)
{
    char b[160]; int n;
    (void)sig;
    n = snprintf(b, sizeof b, "\nVF-HANG key=%s:hang case=%ld msg=no end after %us of CPU time\n", vf_scn_name, vf_case_no, vf_limit_cpu);
    if (write(2, b, n)) {}
    _exit(71);
}
static inline void vf_watchdog(unsigned sec)
{
    struct itimerval it = { {0, 0}, { (long)sec, 0 } };
    setitimer(ITIMER_PROF, &it, NULL);
#if defined(__SANITIZE_THREAD__) || (defined(__clang__) && VF_HAS_TSAN)      /* holds signals back until the next call it knows: let the kernel end a loop that makes none */
    struct rusage u; struct rlimit l; getrusage(RUSAGE_SELF, &u); getrlimit(RLIMIT_CPU, &l);
    l.rlim_cur = sec ? (rlim_t)(u.ru_utime.tv_sec + u.ru_stime.tv_sec + 2) + sec : l.rlim_max; setrlimit(RLIMIT_CPU, &l);
#endif
}

static int vf_total_weight(void)
{
    int t = 0;
    for (const vf_scn_t *s = vf_scns; s->name; s++) t += s->weight;
    return t;
}
#ifdef VF_MODULE
/* loaded several times into one process, each copy with its own state: run one case */
__attribute__((visibility("default"))) void vf_module_case(uint64_t seed, long shown, long n)
{
    int tw = vf_total_weight(); const vf_scn_t *s = vf_scns; unsigned r;
    for (r = (unsigned)(n % tw); r >= s->weight; s++) r -= s->weight;
    if (!strncmp(s->name, "regist", 6)) s = vf_scns;      /* a registry belongs to the whole process */
    vf_case_no = shown; vf_scn_name = s->name; vf_hash = 0; vf_obs_cnt = 0;
    vf_state = vf_mix64(vf_mix64(seed + 0x1234567) ^ vf_mix64((uint64_t)n * 0x9e3779b97f4a7c15ULL + 77));
    s->fn(); vf_cases_total++;
}
__attribute__((visibility("default"))) unsigned long vf_module_checks(void) { return vf_checks_total; }
#elif !defined(VF_NO_MAIN)
int main(int argc, char **argv)
{
    long from = 0, to = 1, step = 1; const char *progress = NULL, *only = NULL, *digest = NULL; uint64_t *digests = NULL;
    int tw;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--seed")) vf_seed = strtoull(argv[++i], NULL, 0);
        else if (!strcmp(argv[i], "--from")) from = atol(argv[++i]);
        else if (!strcmp(argv[i], "--to")) to = atol(argv[++i]);
        else if (!strcmp(argv[i], "--step")) step = atol(argv[++i]);
        else if (!strcmp(argv[i], "--stats")) vf_statsfile = argv[++i];
        else if (!strcmp(argv[i], "--progress")) progress = argv[++i];
        else if (!strcmp(argv[i], "--digest")) digest = argv[++i];
        else if (!strcmp(argv[i], "--only")) only = argv[++i];
        else if (!strcmp(argv[i], "--deep")) vf_deep = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--cpu")) vf_limit_cpu = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--trace")) vf_tracing = true;
        else if (!strcmp(argv[i], "--list")) {
            for (const vf_scn_t *s = vf_scns; s->name; s++) printf("%s %u\n", s->name, s->weight);
            return 0;
        } else vf_harness_error("bad argument");
    }
    if (progress) {
        int fd = open(progress, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096)) vf_harness_error("progress file");
        vf_progress = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (vf_progress == MAP_FAILED) vf_harness_error("progress map");
    }
    if (digest) {       /* what each case observed, for comparison with other builds */
        int fd = open(digest, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, (off_t)to * 8)) vf_harness_error("digest file");
        digests = mmap(NULL, (size_t)to * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (digests == MAP_FAILED) vf_harness_error("digest map");
    }
    signal(SIGPROF, vf_on_alarm);
    tw = vf_total_weight();
    for (long n = from; n < to; n += step) {
        const vf_scn_t *s = vf_scns; unsigned r;
        /* the scenario of a case: fixed round-robin by weight */
        for (r = (unsigned)(n % tw); r >= s->weight; s++) r -= s->weight;
        if (only && strcmp(only, s->name)) continue;
        vf_case_no = n; vf_scn_name = s->name;
        vf_hash = vf_mix64((uint64_t)(s - vf_scns)); vf_obs_cnt = 0;
        vf_state = vf_mix64(vf_mix64(vf_seed + 0x1234567) ^ vf_mix64((uint64_t)n * 0x9e3779b97f4a7c15ULL + 77));
        if (vf_progress) *(volatile long *)vf_progress = n;
        vf_watchdog(vf_limit_cpu);
        vf_op("case %ld scenario %s", n, s->name);
        s->fn();
        if (digests) digests[n] = vf_hash ? vf_hash : 1;
        vf_cases_total++;
        vf_obs_total += vf_obs_cnt;
        if (vf_obs_cnt >= 2) {
            if (vf_nsigs == vf_capsigs) {
                vf_capsigs = vf_capsigs ? vf_capsigs * 2 : 1024;
                vf_sigs = realloc(vf_sigs, vf_capsigs * sizeof(*vf_sigs));
                if (!vf_sigs) vf_harness_error("out of memory");
            }
            vf_sigs[vf_nsigs++] = vf_hash;
        }
        vf_obs_cnt = 0;
        if (vf_progress) ((volatile long *)vf_progress)[1 + (s - vf_scns)]++;
    }
    vf_watchdog(0);
    if (vf_progress) *(volatile long *)vf_progress = -2;
    vf_dump_stats();
    fflush(stdout);
    _exit(0);
}
#endif
#define VF_SCENARIOS(...) const vf_scn_t vf_scns[] = { __VA_ARGS__, { NULL, NULL, 0 } }
#endif
