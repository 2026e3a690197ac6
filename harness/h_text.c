/* C30: bounded formatting, argument splitting, error names, log lines. */
#include "vf.h"
#include <bfdev/scnprintf.h>
#include <bfdev/argv.h>
#include <bfdev/errname.h>
#include <bfdev/errno.h>
#include <bfdev/log.h>
#include <bfdev/bug.h>
#include <setjmp.h>
#include <signal.h>

static char *word(size_t n) { char *p = vf_xmalloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = vf_chance(1, 10) ? '%' : 33 + vf_below(94); p[n] = 0; return p; }
static int vscn(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = bfdev_vscnprintf(b, n, f, a); va_end(a); return r; }
static void scn_printf(void)
{
    size_t wl = vf_chance(1, 2) ? vf_below(20) : vf_below(vf_chance(1, 10) ? 6000 : 200), len; if (vf_chance(1, 400)) { wl = vf_past64k(); VF_EV("text.past_64k"); } size_t size; char *s = word(wl), *full, *b; int r, how = vf_below(5), prec = vf_below(wl + 4), width = vf_chance(1, 1500) ? (int)vf_past64k() : vf_range(-30, 30); long long v = vf_edge64();
    /* the ideal text, from the C library, and it is checked independently where it is simple */
    switch (how) {
    case 0: len = asprintf(&full, "%s", s); VF_CHECK(len == wl && !strcmp(full, s), "self", "?"); break;
    case 1: len = asprintf(&full, "%s%lld", s, v); break;
    case 2: len = asprintf(&full, "<%.*s>", prec, s); break;
    case 3: len = asprintf(&full, "%*lld|%s|%c", width, v, s, 'q'); break;
    default: full = strdup(""); len = 0;
    }
    switch (vf_below(6)) { case 0: size = len; break; case 1: size = len + 1; break; case 2: size = len + 2; break; case 3: size = vf_below(4); break; case 4: size = len + vf_below(300); break; default: size = vf_below(len + 2); }
    b = vf_xmalloc(size); memset(b, 0x7e, size); vf_op("form %d of %zu characters into %zu", how, len, size);
    bool v_ = vf_chance(1, 2);
    switch (how) {
    case 0: r = v_ ? vscn(b, size, "%s", s) : bfdev_scnprintf(b, size, "%s", s); break;
    case 1: r = v_ ? vscn(b, size, "%s%lld", s, v) : bfdev_scnprintf(b, size, "%s%lld", s, v); break;
    case 2: r = v_ ? vscn(b, size, "<%.*s>", prec, s) : bfdev_scnprintf(b, size, "<%.*s>", prec, s); break;
    case 3: r = v_ ? vscn(b, size, "%*lld|%s|%c", width, v, s, 'q') : bfdev_scnprintf(b, size, "%*lld|%s|%c", width, v, s, 'q'); break;
    default: r = v_ ? vscn(b, size, "%s", "") : bfdev_scnprintf(b, size, "%s", ""); break;
    }
    size_t want = !size ? 0 : len < size ? len : size - 1;
    VF_EQ(r, want, "scnprintf-length"); if (size) VF_CHECK(!memcmp(b, full, want) && b[want] == 0, "scnprintf-text", "the text stored differs");
    if (len >= size) VF_EV("text.truncated"); else VF_EV("text.fits"); if (!size) VF_EV("text.no_room");
    vf_obs(want); vf_obs_mem(full, want); free(b); free(full); free(s);
}
static bool sep(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static void scn_argv(void)
{
    vf_alloc_t A; vfa_init(&A); bfdev_alloc_t al = VFA_ALLOC(&A); size_t n = vf_chance(1, 10) ? 0 : vf_chance(1, 10) ? vf_below(3000) : vf_below(60); unsigned den = 1 + vf_below(8), big = 0, words = 0, got = 99, k = 0; bool bad = vf_chance(1, 10);
    if (vf_chance(1, 800)) { big = 1 + vf_below(2); n = vf_past64k() * 2; den = big == 1 ? 3 : 20000; VF_EV("text.argv_past_64k"); }
    char *s = vf_xmalloc(n + 1), **v; for (size_t i = 0; i < n; i++) s[i] = vf_chance(1, den) ? " \t\r\n"[vf_below(4)] : vf_chance(1, 8) ? "\v\f\x80\xff\x01\""[vf_below(6)] : 'a' + vf_below(26); s[n] = 0; if (big == 1) for (size_t i = 1; i < n; i += 2) s[i] = ' ', s[i - 1] = 'x';
    for (size_t i = 0; i < n; i++) if (!sep(s[i]) && (!i || sep(s[i - 1]))) words++;
    vf_op("%zu characters, %u words", n, words);
    VF_EQ(bfdev_argv_count(s), words, "argv-count"); if (bad) A.fail_at = 1;
    v = bfdev_argv_split(&al, s, vf_chance(1, 6) ? NULL : &got);
    if (bad) { VF_PEQ(v, NULL, "argv-refused"); VF_EV("text.argv_refused"); }
    else {
        VF_CHECK(v, "argv-split", "refused"); VF_CHECK(got == words || got == 99, "argv-split-count", "%u for %u", got, words);
        for (size_t i = 0; i < n; i++) if (!sep(s[i]) && (!i || sep(s[i - 1]))) { size_t l = 0; while (i + l < n && !sep(s[i + l])) l++; VF_CHECK(v[k] && strlen(v[k]) == l && !memcmp(v[k], s + i, l), "argv-word", "word %u differs", k); k++; }
        VF_PEQ(v[words], NULL, "argv-end"); memset(v[0] ? v[0] : s, 'Z', v[0] ? strlen(v[0]) : 0); bfdev_argv_destroy(&al, v);
    }
    if (words > 20) VF_EV("text.many_words"); if (!words) VF_EV("text.no_words"); if (n && sep(s[n - 1])) VF_EV("text.trailing");
    vf_obs(words); vf_obs_mem(s, n); vfa_done(&A, "leak"); free(s);
}
typedef struct { int code; const char *name, *info; } en_t;
static const en_t EN[] = {
#define E(n, c, i) { c, "-" #n, i },
#include "errnames.inc"
};
static void scn_errname(void)
{
    int n = sizeof EN / sizeof *EN, c = vf_case_no < 20000 ? (int)(vf_case_no / 12 % 700) - 350 : (int)vf_edge64(), a; const char *info = "?", *nm; const en_t *e = NULL; if (c == INT_MIN) c++; a = c < 0 ? -c : c;
    for (int i = 0; i < n; i++) if (EN[i].code == a) e = &EN[i];
    vf_op("error code %d", c); bfdev_errname_t *f = bfdev_errname_find(c); nm = bfdev_errname(c, &info);
    if (!e) { VF_PEQ(f, NULL, "errname-unknown"); VF_PEQ(nm, NULL, "errname-unknown"); VF_EV("text.errname_unknown"); }
    else { VF_CHECK(f && f->errnum == a && nm, "errname", "code %d not found", c); VF_CHECK(!strcmp(nm, e->name + (c > 0)) || !c, "errname", "code %d is %s", c, nm); VF_CHECK(!strcmp(info, e->info), "errname-info", "code %d: %s", c, info); VF_PEQ(bfdev_errname(c, NULL), nm, "errname"); VF_EV("text.errname"); }
    vf_obs(c); vf_obs(!!e);
}
/* ---- log lines ---- */
static const char *const LV[] = { "emerg", "alert", "crit", "error", "warning", "notice", "info", "debug", "default" };
static const int CL[] = { 91, 31, 35, 33, 34, 96, 92, 90, 39 };
static unsigned w_calls; static char w_text[BFDEV_LOG_BUFF_SIZE + 8]; static size_t w_len; static unsigned w_level; static void *w_pd; static int w_ret;
static int w_write(bfdev_log_message_t *m, void *pd) { w_calls++; w_level = m->level; w_pd = pd; w_len = m->length; VF_CHECK(m->length < BFDEV_LOG_BUFF_SIZE, "log-length", "line of %zu", m->length); memcpy(w_text, m->buff, m->length + 1); VF_EQ(w_text[w_len], 0, "log-terminator"); return w_ret; }
static size_t line(char *o, unsigned lvl, unsigned long fl, const char *text)
{
    char t[8192]; size_t n = 0; *t = 0; if (fl & BFDEV_LOG_LEVEL) n += sprintf(t + n, "[%s] ", LV[lvl]); if (fl & BFDEV_LOG_COLOR) n += sprintf(t + n, "\033[%dm", CL[lvl]);
    n += snprintf(t + n, sizeof t - n, "%s", text); if (n > BFDEV_LOG_BUFF_SIZE - 1) n = BFDEV_LOG_BUFF_SIZE - 1; t[n] = 0;
    if (fl & BFDEV_LOG_COLOR) n += sprintf(t + n, "\033[0m"); if (n > BFDEV_LOG_BUFF_SIZE - 1) n = BFDEV_LOG_BUFF_SIZE - 1;
    memcpy(o, t, n); o[n] = 0; return n;
}
static bfdev_log_t g_log;
#undef bfdev_log_conf
#define bfdev_log_conf (&g_log)
static unsigned arg_n; static char *arg(char *t) { arg_n++; return t; }
static int via_list(const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = bfdev_vlog(fmt, ap); va_end(ap); return r; }
static void scn_log(void)
{
    bfdev_log_t l; unsigned def = vf_below(9), rec = vf_chance(1, 8) ? vf_rand() : vf_below(10), parsed = BFDEV_LEVEL_DEFAULT, lvl; unsigned long fl = vf_below(4);
    bfdev_log_init(&l, def, rec, fl, w_write, &l); VF_CHECK(l.write == w_write && l.pdata == &l && l.flags == fl, "log-init", "?");
    for (int s = 1 + vf_below(6); s--;) {
        char fmt[80], want[BFDEV_LOG_BUFF_SIZE + 8], *txt = word(vf_chance(1, 4) ? 480 + vf_below(45) : vf_chance(1, 8) ? vf_below(2000) : vf_below(60)), *full; size_t k = 0, wl; bool soh = false; const char *end = NULL; int mode = vf_below(4), r, calls = w_calls;
        if (vf_chance(1, 6)) { fl = vf_below(4); l.flags = fl; } if (vf_chance(1, 6)) l.record_level = rec = vf_below(10); if (vf_chance(1, 6)) l.default_level = def = vf_below(9);
        parsed = BFDEV_LEVEL_DEFAULT; for (int p = vf_below(3); p--;) { char c = vf_chance(1, 6) ? 'c' : '0' + vf_below(10); fmt[k++] = 1; fmt[k++] = c; if (c >= '0' && c <= '9') parsed = c - '0'; }
        size_t at = k; if (vf_chance(1, 12)) { fmt[k++] = 1; fmt[k] = 0; soh = true; VF_EV("text.log_bare_soh"); } else k += sprintf(fmt + k, "%s", vf_chance(1, 8) ? "" : "%s"); fmt[k] = 0;
        asprintf(&full, fmt + at, txt); vf_op("log line, level %u default %u threshold %u flags %lu", parsed, def, rec, fl);
#ifndef VF_MODULE   /* not exported to modules */
        VF_EQ(bfdev_log_level(fmt, &end), parsed, "log-level"); VF_PEQ(end, fmt + at, "log-level-end"); VF_EQ(bfdev_log_level(fmt, NULL), parsed, "log-level");
#endif
        lvl = parsed >= BFDEV_LEVEL_DEFAULT ? def : parsed; w_ret = vf_range(-3, 600); wl = line(want, lvl, fl, full);
        if (mode == 0) {    /* the level macros, configured by macro */
            unsigned m = vf_below(11); g_log = l; lvl = m >= 8 ? def : m; wl = line(want, lvl, fl, txt); arg_n = 0;
#define TXT arg(txt)
            switch (m) { case 0: r = bfdev_log_emerg("%s", TXT); break; case 1: r = bfdev_log_alert("%s", TXT); break; case 2: r = bfdev_log_crit("%s", TXT); break; case 3: r = bfdev_log_err("%s", TXT); break; case 4: r = bfdev_log_warn("%s", TXT); break; case 5: r = bfdev_log_notice("%s", TXT); break; case 6: r = bfdev_log_info("%s", TXT); break; case 7: r = bfdev_log_debug("%s", TXT); break; case 8: r = bfdev_log("%s", TXT); break; case 9: r = via_list("%s", TXT); VF_EV("text.log_list"); break; default: r = bfdev_log_none("%s", TXT); }
            if (m == 10 || (m < 8 && (int)m > BFDEV_LOGLEVEL_MAX)) { VF_EQ(arg_n, 0, "log-compiled-out"); VF_EQ(w_calls, calls, "log-compiled-out"); VF_EQ(r, 0, "log-compiled-out"); VF_EV("text.log_compiled_out"); free(full); free(txt); continue; }
            VF_EQ(arg_n, 1, "log-argument");
            VF_EV("text.log_macro");
        } else r = bfdev_log_core(&l, fmt, txt);
        if (lvl > rec) { VF_EQ(w_calls, calls, "log-threshold"); VF_EQ(r, 0, "log-threshold-ret"); VF_EV("text.log_dropped"); }
        else {
            VF_EQ(w_calls, calls + 1, "log-delivered"); VF_EQ(r, w_ret, "log-ret"); VF_EQ(w_level, lvl, "log-msg-level"); VF_PEQ(w_pd, &l, "log-pdata");
            VF_CHECK(w_len == wl && !memcmp(w_text, want, wl), "log-line", "line of %zu characters, want %zu: %.60s / %.60s", w_len, wl, w_text, want); VF_EV("text.log_line"); if (wl == BFDEV_LOG_BUFF_SIZE - 1) VF_EV("text.log_long"); if (fl & 1) VF_EV("text.log_color"); if (fl & 2) VF_EV("text.log_level");
            vf_obs_mem(w_text, w_len);
        }
        (void)soh; vf_obs(lvl * 16 + rec); free(full); free(txt);
    }
}
/* assertions: the condition once, a report only when it holds, and the end of the program only for a fatal one */
static sigjmp_buf bug_jmp; static void bug_abort(int s) { (void)s; siglongjmp(bug_jmp, 1); }
static unsigned bug_seen; static bool bug_cond(bool c) { bug_seen++; return c; }
static void scn_assert(void)
{
    static volatile unsigned calls; static volatile bool ended, c; bfdev_log_init(&g_log, 4, 9, 0, w_write, &g_log); w_ret = 0; struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = bug_abort;
#ifdef VF_MODULE        /* signals belong to the whole process */
    unsigned forms = 4;
#else
    unsigned forms = 6; sigaction(SIGABRT, &sa, &old);
#endif
   
    for (int s = 1 + vf_below(6); s--;) {
        int mode = vf_below(forms); volatile int line = 0; char num[24]; c = (vf_chance(1, 2) && (mode != 3 || forms == 6)) || mode > 3 || mode == 1 || mode == 2; calls = w_calls; bug_seen = 0; ended = false; unsigned tag = vf_below(1000); vf_op("assertion form %d on %d", mode, c);
        if (!sigsetjmp(bug_jmp, 1)) {
            switch (mode) {
            case 0: line = __LINE__; VF_EQ(BFDEV_WARN_ON(bug_cond(c)), c, "warn-value"); VF_EQ(bug_seen, 1, "assert-once"); break;
            case 1: line = __LINE__; BFDEV_WARN(); break;
            case 2: BFDEV_WARN_MSG("watch %u\n", tag); break;
            case 3: line = __LINE__; VF_EQ(BFDEV_BUG_ON(bug_cond(c)), c, "bug-value"); VF_EQ(bug_seen, 1, "assert-once"); break;
            case 4: line = __LINE__; BFDEV_BUG(); break;
            default: BFDEV_BUG_MSG("watch %u\n", tag); break;
            }
        } else ended = true;
        if (mode == 3 || !mode) VF_EQ(bug_seen, 1, "assert-once"); VF_CHECK(ended == (mode > 2 && c), "assert-end", "form %d on %d %s", mode, c, ended ? "ended the program" : "went on");
        bool told = BFDEV_LOGLEVEL_MAX >= BFDEV_LEVEL_ALERT && c; VF_EQ(w_calls, calls + told, "assert-report");
        if (told) { VF_EQ(w_level, BFDEV_LEVEL_ALERT, "assert-level"); sprintf(num, ":%d,", line); if (line) VF_CHECK(strstr(w_text, "h_text.c") && strstr(w_text, num) && strstr(w_text, "'scn_assert'") && strstr(w_text, mode > 2 ? "BUG" : "WARN"), "assert-place", "report says %s", w_text); else { sprintf(num, "watch %u\n", tag); VF_CHECK(!strcmp(w_text, num), "assert-text", "report says %s", w_text); } }
        if (ended) VF_EV("text.assert_fatal"); else if (told) VF_EV("text.assert_warned"); else VF_EV("text.assert_silent"); vf_obs(mode * 2 + c); vf_obs(ended);
    }
    if (forms == 6) sigaction(SIGABRT, &old, NULL);
}
/* a format the C library cannot carry out: what is reported still is the text that is stored */
static const wchar_t NO_CHAR[] = { 'a', 0x4e2d, 'b', 0 };
static void scn_unprintable(void)
{
    size_t size = vf_below(vf_chance(1, 4) ? 600 : 24); char *b = vf_xmalloc(size), *s = word(vf_below(30)), *t; bool v_ = vf_chance(1, 2); memset(b, 0x7e, size); int r;
    if (asprintf(&t, "%s%ls", s, NO_CHAR) >= 0) { free(t); free(b); free(s); VF_EV("text.locale_prints"); return; }
    vf_op("a format that fails into %zu", size);
    r = v_ ? vscn(b, size, "%s%ls", s, NO_CHAR) : bfdev_scnprintf(b, size, "%s%ls", s, NO_CHAR);
    VF_CHECK(r >= 0 && (size_t)r < size + !size, "scnprintf-failed", "%d reported of a buffer of %zu", r, size);
    if (size) VF_CHECK(memchr(b, 0, size) == b + r, "scnprintf-failed", "%d reported, %zu characters stored", r, strnlen(b, size));
    VF_EV("text.failed_format"); 
    /* the same in a log line */
    bfdev_log_t l; unsigned calls = w_calls; unsigned df = vf_below(8), fl = vf_below(4); bfdev_log_init(&l, df, 9, fl, w_write, &l); w_ret = 0; memset(w_text, 0x7e, sizeof(w_text));
    bfdev_log_core(&l, "%s%ls", s, NO_CHAR); VF_EQ(w_calls, calls + 1, "log-failed"); VF_EQ(strnlen(w_text, sizeof(w_text)), w_len, "log-failed");
    vf_obs(r); vf_obs_mem(w_text, w_len); free(b); free(s);
}
/* the default sink: stderr up to warning, stdout beyond */
static void scn_sink(void)
{
    int so, se, mo = memfd_create("o", 0), me = memfd_create("e", 0), r[6]; char bo[8192] = "", be[8192] = "", wo[8192] = "", we[8192] = "", ln[600]; size_t no = 0, ne = 0; ssize_t g; bfdev_log_t keep = bfdev_log_default; unsigned n = 1 + vf_below(6), lv[6];
    if (mo < 0 || me < 0) vf_harness_error("memfd");
    fflush(stdout); fflush(stderr); so = dup(1); se = dup(2); dup2(mo, 1); dup2(me, 2);
    bfdev_log_default.flags = vf_below(4); bfdev_log_default.record_level = vf_below(9); bfdev_log_default.default_level = vf_below(9);
    for (unsigned i = 0; i < n; i++) {
        char f[8]; lv[i] = vf_below(9); int k = 0; if (lv[i] < 8) { f[k++] = 1; f[k++] = '0' + lv[i]; } f[k++] = '%'; f[k++] = 'u'; f[k++] = '\n'; f[k] = 0; if (lv[i] == 8) lv[i] = bfdev_log_default.default_level;
        r[i] = bfdev_log_core(NULL, f, (unsigned)i); char t[16]; sprintf(t, "%u\n", i);
        if (lv[i] <= bfdev_log_default.record_level) { size_t l = line(ln, lv[i], bfdev_log_default.flags, t); if (lv[i] > BFDEV_LEVEL_WARNING) { memcpy(wo + no, ln, l); no += l; } else { memcpy(we + ne, ln, l); ne += l; } } else r[i] = 1 - !!r[i];
    }
    fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); close(so); close(se); bfdev_log_default = keep;
    lseek(mo, 0, SEEK_SET); lseek(me, 0, SEEK_SET); g = read(mo, bo, sizeof bo); VF_CHECK(g == (ssize_t)no && !memcmp(bo, wo, no), "log-stdout", "standard output got %zd bytes, want %zu", g, no);
    g = read(me, be, sizeof be); VF_CHECK(g == (ssize_t)ne && !memcmp(be, we, ne), "log-stderr", "standard error got %zd bytes, want %zu", g, ne);
    for (unsigned i = 0; i < n; i++) VF_EQ(r[i], 1, "log-default-ret");
    if (no) VF_EV("text.sink_stdout"); if (ne) VF_EV("text.sink_stderr"); vf_obs_mem(wo, no); vf_obs_mem(we, ne); close(mo); close(me);
}
#ifdef VF_MODULE        /* the default sink belongs to the whole process */
# define scn_sink scn_argv
#endif
VF_SCENARIOS({ "scnprintf", scn_printf, 4 }, { "unprintable", scn_unprintable, 1 }, { "assert", scn_assert, 1 }, { "argv", scn_argv, 3 }, { "errname", scn_errname, 1 }, { "log", scn_log, 3 }, { "sink", scn_sink, 1 });
