// Every logging call form, level, decoration and length against an independent formatter, with locks, nested hooks and hook changes.
// MC-LDFLAGS: -Wl,--wrap=vsyslog,--wrap=syslog,--wrap=__vsyslog_chk,--wrap=__syslog_chk,--wrap=exit
// MC-VARIANT: plainstrerror HAVE_STRERROR_R
#include <wchar.h>
#include "mc.h"
#include <u/libu.h>
#include <setjmp.h>
#include <syslog.h>
const char *mc_property = "P29", *mc_level = "model_checking";
/* ---- sinks */
enum { NS = 4, CAP = 2600 };
typedef struct { int sink, level, held; const void *arg; size_t n; char s[CAP]; } seen;    /* sink: 0 system log, 1/2 hooks */
static seen S[NS]; static int ns, depth, locks, unlocks, badlock, nest, sink_errno;
static int la, lb, ha, hb; static int other_at; static void other(int when);
static void rec(int sink, int level, const void *arg, const char *s) { if (ns == NS) { ns++; return; } seen *e = &S[ns++]; e->sink = sink; e->level = level; e->arg = arg; e->held = depth; e->n = strlen(s); snprintf(e->s, CAP, "%s", s); if (sink_errno) errno = sink_errno; }
void __wrap_vsyslog(int pri, const char *fmt, va_list ap) { char b[CAP]; vsnprintf(b, sizeof b, fmt, ap); rec(0, pri, NULL, b); }
void __wrap_syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap); }
void __wrap___vsyslog_chk(int pri, int f, const char *fmt, va_list ap) { (void)f; __wrap_vsyslog(pri, fmt, ap); }
void __wrap___syslog_chk(int pri, int f, const char *fmt, ...) { (void)f; va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap); }
static jmp_buf exit_jb; static int exit_armed, exit_code; extern void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (!exit_armed) __real_exit(c); exit_armed = 0; exit_code = c; longjmp(exit_jb, 1); }
static int lock(void *a) { if (a != &la) badlock++; if (depth == 0) other(0); locks++; depth++; if (sink_errno) errno = sink_errno; return 0; }
static int unlock(void *a) { if (a != &lb) badlock++; unlocks++; if (depth-- <= 0) badlock++; if (depth == 0) other(1); return 0; }
static int hook1(void *arg, int level, const char *s) { rec(1, level, arg, s); if (nest > 0) { nest--; u_log_write_ex(LOG_USER, LOG_NOTICE, 0, 0, "x", 1, "x", "nested %d", nest); } return mc_arg() ? -1 : 0; }
static int hook2(void *arg, int level, const char *s) { rec(2, level, arg, s); return 0; }
static int cur;                                                                   /* what is installed now */
static void install(int w) { u_log_hook_t o = (u_log_hook_t)&ha; void *oa = &nest; int d = depth; u_log_set_hook(w == 0 ? NULL : w == 1 ? hook1 : hook2, w == 0 ? NULL : w == 1 ? (void *)&ha : (void *)&hb, &o, &oa);
    MC_CHECK(depth == d, "lock", "changing the hook leaves the lock at depth %d", depth - d);
    MC_CHECK(o == (cur == 0 ? NULL : cur == 1 ? hook1 : hook2) && oa == (cur == 0 ? NULL : cur == 1 ? (void *)&ha : (void *)&hb), "set_hook", "the previous hook was not returned"); cur = w; }
static int other_to, in_other, other_done;
static void other(int when) { if (in_other || other_at != when) return; in_other = 1; other_at = -1; other_done++; install(other_to); in_other = 0; }   /* another thread, while the lock is free */
static void start(int sink, int locked) { ns = depth = locks = unlocks = badlock = nest = sink_errno = 0; other_at = -1; in_other = other_done = 0; cur = 0; u_log_set_hook(NULL, NULL, NULL, NULL); u_log_set_lock(NULL, NULL); u_log_set_unlock(NULL, NULL); if (locked) { u_log_set_lock(lock, &la); u_log_set_unlock(unlock, &lb); } install(sink); locks = unlocks = 0; }
/* ---- reference */
static const char *lab(int l) { static const char *n[] = { "emg", "alr", "crt", "err", "wrn", "ntc", "inf", "dbg" }; return n[l]; }
static char want[2 * CAP]; static size_t wn;
static void expect(int lev, int ctx, int err, const char *file, int line, const char *func, const char *m)
{
    int k = ctx ? sprintf(want, "[%s][%d:%s:%d:%s] ", lab(lev), (int)getpid(), file, line, func) : sprintf(want, "[%s][%d:::] ", lab(lev), (int)getpid());
    k += sprintf(want + k, "%s ", m); if (err) k += sprintf(want + k, "[errno: %d, %s]", err, strerror(err)); wn = k;
}
static size_t rtrim(const char *s, size_t n) { return n && s[n - 1] == ' ' ? n - 1 : n; }
static int same(const char *a, size_t n, const char *b, size_t m) { if (n == m && !memcmp(a, b, n)) return 1; size_t x = rtrim(a, n), y = rtrim(b, m); return x == y && !memcmp(a, b, x); }
static void judge(int rc, int first, int sink, int fac, int lev, size_t raw, int locked, const char *what)
{
    int got = ns - first, must = sink ? wn < U_MAX_LOG_LENGTH : raw < U_MAX_LOG_LENGTH; if (raw >= U_MAX_LOG_LENGTH) must = 0;
    MC_CHECK(got <= 1, "twice", "%s: %d messages for one call", what, got);
    MC_CHECK(!must || got == 1, "lost", "%s: message of %zu characters (%zu with decorations) not delivered, result %d", what, raw, wn, rc);
    MC_CHECK((rc == 0) == (got == 1), "verdict", "%s: result %d with %d messages delivered (length %zu, %zu decorated)", what, rc, got, raw, wn);
    if (got) { seen *e = &S[first]; MC_CHECK(e->sink == sink, "sink", "%s: delivered to sink %d, installed %d", what, e->sink, sink);
        MC_CHECK(e->arg == (sink == 0 ? NULL : sink == 1 ? (void *)&ha : (void *)&hb), "hook_arg", "%s: hook called with another argument", what);
        MC_CHECK(e->level == (sink ? lev : (fac | lev)), "level", "%s: level %d delivered as %d", what, lev, e->level);
        MC_CHECK(same(e->s, e->n, want, wn), "text", "%s: got (%zu) \"%s\" want (%zu) \"%s\"", what, e->n, mc_esc(e->s, e->n > 160 ? 160 : e->n), wn, mc_esc(want, wn > 160 ? 160 : wn));
        if (locked) MC_CHECK(e->held == 1, "lock", "%s: delivered with the lock held %d times", what, e->held); }
    if (locked) MC_CHECK(depth == 0 && locks == unlocks && !badlock && (got ? locks == 1 : locks <= 1), "lock", "%s: lock taken %d times, released %d times, depth %d", what, locks, unlocks, depth);
    else MC_CHECK(!locks && !unlocks, "lock", "%s: removed lock called", what);
}
static const int errs[] = { 0, ENOENT, EINTR, EADDRNOTAVAIL, 200, 5000, -1, INT32_MIN };
static void run_levels(void)
{
    static const char *ms[] = { "", "x", "hello", "100% %s %n", "tail ", "a\nb\tc" }; static const char *fs[] = { "f.c", "/a/b%s.c", "" };
    int sink = mc_choose(2), locked = mc_choose(2), lev = mc_choose(8), ctx = mc_choose(2), err = errs[mc_choose(8)], fac = mc_choose(2) ? LOG_LOCAL3 : LOG_USER; const char *m = ms[mc_choose(6)], *file = fs[mc_choose(3)]; int en = mc_choose(2) ? ERANGE : 0, se = mc_choose(2) ? EIO : 0, line = mc_choose(2) ? 2000000000 : 0;
    start(sink, locked); mc_op("level %d %s error %d sink %s%s message \"%s\"", lev, ctx ? "with context" : "plain", err, sink ? "hook" : "system log", locked ? " locked" : "", mc_escs(m)); expect(lev, ctx, err, file, line, "fn", m); sink_errno = se; errno = en;
    int rc = u_log_write_ex(fac, lev, ctx, err, file, line, "fn", "%s", m), e = errno; mc_transitions(1); mc_state(mc_h64(mc_h64(lev, ctx), err + 7 * sink)); MC_CHECK(e == en, "errno", "error number %d became %d", en, e); judge(rc, 0, sink, fac, lev, strlen(m), locked, "u_log_write_ex");
}
static void run_lengths(void)
{
    static char m[4200]; static char file[1100]; int sink = mc_choose(2), ctx = mc_choose(2), err = errs[mc_choose(4)], fl = ctx ? mc_choose(3) * 500 + 1 : 1; size_t n = mc_choose(mc_tier ? 2100 : 1100); if (n >= 1099) n = n == 1099 ? 2047 : n;
    for (size_t i = 0; i < n; i++) m[i] = 'a' + i % 23; m[n] = 0; memset(file, 'f', fl); file[fl] = 0; mc_op("%zu characters, %s, error %d, %s, file name of %d", n, sink ? "hook" : "system log", err, ctx ? "context" : "plain", fl); mc_state(mc_h64(n, sink * 2 + ctx + 4 * err));
    start(sink, 1); expect(LOG_ERR, ctx, err, file, 7, "g", m); errno = ENOMEM; int rc = u_log_write_ex(LOG_USER, LOG_ERR, ctx, err, file, 7, "g", "%s", m), e = errno; mc_transitions(1); MC_CHECK(e == ENOMEM, "errno", "error number became %d", e); judge(rc, 0, sink, LOG_USER, LOG_ERR, n, 1, "u_log_write_ex");
    /* the next message is unaffected */
    ns = locks = unlocks = 0; expect(LOG_INFO, 0, 0, "", 0, "", "next"); rc = u_log_write_ex(LOG_USER, LOG_INFO, 0, 0, "y", 1, "y", "next"); judge(rc, 0, sink, LOG_USER, LOG_INFO, 4, 1, "next message");
}
/* the hook logs too; another thread changes the hook while the lock is free; hooks and locks are changed between messages */
static void run_history(void)
{
    int n = mc_tier ? 5 : 4, sink = mc_choose(3), locked = mc_choose(2); start(sink, locked); mc_op("sink %d, %s", sink, locked ? "locked" : "no lock");
    for (int i = 0; i < n; i++) {
        int op = mc_choose(8); ns = locks = unlocks = 0; sink_errno = 0; nest = 0; other_at = -1; other_done = 0;
        if (op < 3) { mc_op("set hook %d", op); install(op); if (locked) MC_CHECK(depth == 0 && locks == unlocks && !badlock, "lock", "set_hook: lock %d unlock %d", locks, unlocks); }
        else if (op == 3) { locked = !locked; mc_op("%s the lock", locked ? "install" : "remove"); u_log_set_lock(locked ? lock : NULL, &la); u_log_set_unlock(locked ? unlock : NULL, &lb); }
        else if (op == 4) { mc_op("log"); expect(LOG_WARNING, 0, EPERM, "", 0, "", "m"); int s = cur; errno = 3; int rc = u_log_write_ex(LOG_USER, LOG_WARNING, 0, EPERM, "z", 1, "z", "m"), e = errno; MC_CHECK(e == 3, "errno", "became %d", e); judge(rc, 0, s, LOG_USER, LOG_WARNING, 1, locked, "log"); }
        else if (op == 5) { mc_op("log something too long"); static char big[1500]; memset(big, 'q', 1400); expect(LOG_WARNING, 0, 0, "", 0, "", big); int s = cur; errno = 3; int rc = u_log_write_ex(LOG_USER, LOG_WARNING, 0, 0, "z", 1, "z", "%s", big), e = errno; MC_CHECK(e == 3, "errno", "became %d", e); judge(rc, 0, s, LOG_USER, LOG_WARNING, 1400, locked, "log"); }
        else if (op == 6) { mc_op("log from within the hook"); nest = 2; int s = cur; errno = 3; int rc = u_log_write_ex(LOG_USER, LOG_WARNING, 0, 0, "z", 1, "z", "outer"), e = errno; MC_CHECK(e == 3 && rc == 0, "errno", "became %d, result %d", e, rc); MC_CHECK(ns == (s == 1 ? 3 : 1), "nested", "%d messages", ns);
            for (int k = 0; k < ns; k++) { char mm[16]; snprintf(mm, sizeof mm, "nested %d", 2 - k); expect(k ? LOG_NOTICE : LOG_WARNING, 0, 0, "", 0, "", k ? mm : "outer"); MC_CHECK(S[k].sink == s && same(S[k].s, S[k].n, want, wn), "nested", "message %d is \"%s\"", k, mc_escs(S[k].s)); if (locked) MC_CHECK(S[k].held == k + 1, "lock", "message %d with the lock at depth %d", k, S[k].held); }
            if (locked) MC_CHECK(depth == 0 && locks == ns && unlocks == ns && !badlock, "lock", "%d messages, %d locks, %d unlocks", ns, locks, unlocks); }
        else { if (!locked) mc_discard(); int when = mc_choose(2); other_to = mc_choose(3); other_at = when; mc_op("log while another thread sets hook %d just %s", other_to, when ? "after" : "before"); expect(LOG_CRIT, 0, 0, "", 0, "", "raced"); int s = when ? cur : other_to; int rc = u_log_write_ex(LOG_USER, LOG_CRIT, 0, 0, "z", 1, "z", "raced");
            MC_CHECK(other_done == 1, "lock", "the lock was never free"); MC_CHECK(locks == 2 && unlocks == 2, "lock", "%d locks and %d unlocks for two operations", locks, unlocks); locks = unlocks = 1; judge(rc, 0, s, LOG_USER, LOG_CRIT, 5, 1, "raced log"); cur = other_to; }
        mc_transitions(1); mc_state(mc_h64(mc_h64(cur, locked), i * 8 + op));
    }
}
/* ---- the macros.  One function set per prefix. */
static const char *mfile = __FILE__; static int mline; static int evals; static int truth, d = 7; static int ev(void) { evals++; return truth; }
static const char *text; static int terr;                                        /* what the macro should log */
typedef struct { int ret, logged; } out;
#define L mline = __LINE__;
#define FAMILYN(P, N) \
static int N##m0(void) { text = "a 1"; terr = 0; L u_##P("a %d", 1); return 5; } \
static int N##m1(void) { text = "a 1"; terr = 0; L P##_err("a %d", 1); return 5; err: return 6; } \
static int N##m2(void) { text = "ev() %d > 0"; terr = 0; L P##_ifb (ev() %d > 0) { return 6; } return 5; } \
static int N##m3(void) { text = "ev() %d > 0"; terr = 0; L P##_if (ev() %d > 0); return 5; } \
static int N##m4(void) { text = "n 2"; terr = 0; L P##_ifm (ev(), "n %d", 2); return 5; } \
static int N##m5(void) { text = "ev() %d > 0"; terr = 0; L P##_return_if (ev() %d > 0, 6); return 5; } \
static int N##m6(void) { text = "ev() %d > 0"; terr = EACCES; L P##_return_sif (ev() %d > 0, 6); return 5; } \
static int N##m7(void) { text = "n 2"; terr = 0; L P##_return_ifm (ev(), 6, "n %d", 2); return 5; } \
static int N##m8(void) { text = "n 2"; terr = EACCES; L P##_return_sifm (ev(), 6, "n %d", 2); return 5; } \
static int N##m9(void) { text = "ev() %d > 0"; terr = 0; L P##_err_if (ev() %d > 0); return 5; err: return 6; } \
static int N##m10(void) { text = "ev() %d > 0"; terr = EACCES; L P##_err_sif (ev() %d > 0); return 5; err: return 6; } \
static int N##m11(void) { text = "n 2"; terr = 0; L P##_err_ifm (ev(), "n %d", 2); return 5; err: return 6; } \
static int N##m12(void) { text = "n 2"; terr = EACCES; L P##_err_sifm (ev(), "n %d", 2); return 5; err: return 6; } \
static int N##m13(void) { int rc = 5; text = "ev() %d > 0"; terr = 0; L P##_err_rcif (ev() %d > 0, 6); return rc; err: return rc; } \
static int N##m14(void) { text = "ev() %d > 0"; terr = 0; L P##_goto_if (ev() %d > 0, out); return 5; out: return 6; } \
static int N##m15(void) { text = "errno: 2 (No such file or directory)"; terr = 0; L P##_strerror(ENOENT); return 5; } \
static int N##x0(void) { P##_ifb (ev() && LONG) { return 6; } return 5; } \
static int N##x1(void) { P##_return_if (ev() && LONG, 6); return 5; } \
static int N##x2(void) { P##_err_if (ev() && LONG); return 5; err: return 6; } \
static int N##x3(void) { int rc = 5; P##_err_rcif (ev() && LONG, 6); return rc; err: return rc; } \
static int N##x4(void) { P##_goto_if (ev() && LONG, out); return 5; out: return 6; } \
static int N##x5(void) { P##_if (ev() && LONG); return 5; } \
static int N##x6(void) { P##_err_sif (ev() && LONG); return 5; err: return 6; } \
static int N##x7(void) { P##_return_sif (ev() && LONG, 6); return 5; }
#define FAMILY(P) FAMILYN(P, P)
#define T10(s) s s s s s s s s s s
#define LONG sizeof T10(T10("a condition."))                                      /* its text is longer than any message */
FAMILY(emerg) FAMILY(alert) FAMILY(crit) FAMILY(err) FAMILY(warn) FAMILY(notice) FAMILY(info) FAMILY(con) FAMILY(dbg)
static int nm5(void) { nop_return_if (ev() %d > 0, 6); return 5; } static int nm9(void) { nop_err_if (ev() %d > 0); return 5; err: return 6; } static int nm14(void) { nop_goto_if (ev() %d > 0, out); return 5; out: return 6; }
/* the same header as a debug build sees it */
#undef u_dbg
#undef dbg_err
#undef dbg_if
#undef dbg_ifb
#undef dbg_ifm
#undef dbg_return_if
#undef dbg_return_sif
#undef dbg_return_ifm
#undef dbg_return_sifm
#undef dbg_err_if
#undef dbg_err_sif
#undef dbg_err_ifm
#undef dbg_err_sifm
#undef dbg_err_rcif
#undef dbg_goto_if
#undef dbg_strerror
#undef TIMER_ON
#undef TIMER_STEP
#undef TIMER_OFF
#undef _U_CARPAL_H_
#undef DEBUG
#define DEBUG 1
#include <toolbox/carpal.h>
FAMILYN(dbg, debug)
#undef DEBUG
#define ROW(P) { P##m0, P##m1, P##m2, P##m3, P##m4, P##m5, P##m6, P##m7, P##m8, P##m9, P##m10, P##m11, P##m12, P##m13, P##m14, P##m15 }
static int (*fam[11][16])(void) = { ROW(emerg), ROW(alert), ROW(crit), ROW(err), ROW(warn), ROW(notice), ROW(info), ROW(dbg), ROW(con), ROW(debug), { [5] = nm5, [9] = nm9, [14] = nm14 } };
#define XROW(P) { P##x0, P##x1, P##x2, P##x3, P##x4, P##x5, P##x6, P##x7 }
static int (*xfam[10][8])(void) = { XROW(emerg), XROW(alert), XROW(crit), XROW(err), XROW(warn), XROW(notice), XROW(info), XROW(dbg), XROW(con), XROW(debug) };
static const char *pname[] = { "emerg", "alert", "crit", "err", "warn", "notice", "info", "dbg", "con", "dbg (debug build)", "nop" }; static const char *mname[] = { "u_*", "*_err", "*_ifb", "*_if", "*_ifm", "*_return_if", "*_return_sif", "*_return_ifm", "*_return_sifm", "*_err_if", "*_err_sif", "*_err_ifm", "*_err_sifm", "*_err_rcif", "*_goto_if", "*_strerror" };
static const int always[16] = { 1, 1, [15] = 1 }, jumps[16] = { 0, 1, 1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0 };
static void run_macros(void)
{
    int p = mc_choose(11), m = mc_choose(16), sink = p != 8 ? mc_choose(2) : 1, locked = p != 8 ? mc_choose(2) : 0; if (!fam[p][m]) mc_discard(); int lev = p == 9 ? 7 : p; truth = mc_choose(2); mc_op("%s, macro %s, condition %s", pname[p], mname[m], truth ? "true" : "false"); mc_state(p * 64 + m * 2 + truth);
    start(sink, locked); evals = 0; sink_errno = EIO; facility = LOG_LOCAL1; char con[300] = ""; FILE *sv = stderr; if (p == 8) stderr = fmemopen(con, sizeof con, "w"); errno = EACCES; int r = fam[p][m](), e = errno; if (p == 8) { fclose(stderr); stderr = sv; }
    mc_transitions(1); int fire = always[m] || truth; MC_CHECK(e == EACCES, "errno", "%s %s: error number became %d", pname[p], mname[m], e); MC_CHECK(evals == !always[m], "eval", "%s %s: condition evaluated %d times", pname[p], mname[m], evals);
    MC_CHECK(r == (fire && jumps[m] ? 6 : 5), "flow", "%s %s: went the wrong way", pname[p], mname[m]);
    if (p == 8) { char w[300] = ""; if (fire) sprintf(w, "%s", text); if (fire && terr) sprintf(w + strlen(w), " [errno: %d, %s]", terr, strerror(terr)); if (fire) strcat(w, "\n"); MC_CHECK(!strcmp(con, w), "console", "wrote \"%s\" want \"%s\"", mc_escs(con), mc_escs(w)); MC_CHECK(ns == 0, "sink", "console message logged"); return; }
    if (p == 7 || p == 10) { MC_CHECK(ns == 0, "debug", "message from a macro that logs nothing"); return; }
    if (!fire) { MC_CHECK(ns == 0, "spurious", "%s %s: message although the condition is false", pname[p], mname[m]); MC_CHECK(locks == unlocks, "lock", "lock left"); return; }
    char fn[24]; snprintf(fn, sizeof fn, "%sm%d", p == 9 ? "debug" : pname[p], m); expect(lev, lev != 6, terr, mfile, mline, fn, text); judge(0, 0, sink, LOG_LOCAL1, lev, strlen(text), locked, mname[m]);
}
/* the message cannot be delivered (longer than the limit, console not writable): control must flow as if it had been */
static void run_undelivered(void)
{
    static const int J[8] = { 1, 1, 1, 1, 1, 0, 1, 1 }; int p = mc_choose(10), m = mc_choose(8), sink = p != 8 ? mc_choose(2) : 1, locked = p != 8 ? mc_choose(2) : 0; truth = mc_choose(2); mc_op("%s, form %d, condition %s", pname[p], m, truth ? "true" : "false"); mc_state(p * 16 + m * 2 + truth); mc_transitions(1);
    start(sink, locked); evals = 0; facility = LOG_LOCAL1; FILE *sv = stderr; if (p == 8) stderr = fopen("/dev/null", "r"); errno = EACCES; int r = xfam[p][m](), e = errno; if (p == 8) { fclose(stderr); stderr = sv; }
    MC_CHECK(e == EACCES, "errno", "%s form %d: error number became %d", pname[p], m, e); MC_CHECK(evals == 1, "eval", "%s form %d: condition evaluated %d times", pname[p], m, evals); MC_CHECK(r == (truth && J[m] ? 6 : 5), "flow", "%s form %d: went the wrong way though only the message was lost", pname[p], m);
    MC_CHECK(ns <= (truth && p != 7 && p != 8), "spurious", "%d messages", ns); MC_CHECK(locks == unlocks && depth == 0 && !badlock, "lock", "lock left");
}
static void run_console(void)
{
    int n = mc_choose(600), err = errs[mc_choose(8)], en = mc_choose(2) ? EDOM : 0, bad = mc_choose(2); static char m[700], con[2000], w[2000]; memset(m, 'c', n); m[n] = 0; memset(con, 0, sizeof con); FILE *sv = stderr, *f = bad ? fopen("/dev/null", "r") : fmemopen(con, sizeof con, "w"); mc_op("console, %d characters, error %d%s", n, err, bad ? ", unwritable" : ""); stderr = f; errno = en; int rc = u_console_write_ex(err, "f", 1, "f", "%s", m), e = errno; stderr = sv; fclose(f); mc_transitions(1); mc_state(n * 8 + (err & 7));
    MC_CHECK(e == en, "errno", "error number %d became %d", en, e); if (bad) { if (n) MC_CHECK(rc != 0, "console", "success on an unwritable console"); return; }
    sprintf(w, "%s", m); if (err) sprintf(w + n, " [errno: %d, %s]", err, strerror(err)); strcat(w, "\n"); MC_CHECK(rc == 0 && !strcmp(w, con), "console", "wrote \"%s\"", mc_escs(con));
}
static void run_die(void)
{
    int how = mc_choose(4), sink = mc_choose(2), locked = mc_choose(2); start(sink, locked); facility = LOG_LOCAL2; truth = how != 3; evals = 0; int line = 0, code = 9, done = 0; mc_op("die form %d", how); mc_state(how * 2 + sink); mc_transitions(1);
    if (!setjmp(exit_jb)) { exit_armed = 1; errno = EACCES; switch (how) { case 0: mline = __LINE__; die(9, "bye %d", 3); break; case 1: mline = __LINE__; u_log_die(9, LOG_USER, 1, ENOENT, "bye %d", 3); break; default: mline = __LINE__; die_if (ev() %d > 0); } done = 1; exit_armed = 0; }
    line = mline; (void)line; MC_CHECK(done == (how == 3), "die", "form %d %s", how, done ? "returned" : "exited"); if (done) { MC_CHECK(ns == 0, "die", "message without death"); return; }
    MC_CHECK(exit_code == (how < 2 ? code : EXIT_FAILURE), "die", "exit code %d", exit_code); expect(LOG_CRIT, 1, how == 1 ? ENOENT : 0, __FILE__, mline, __FUNCTION__, how < 2 ? "bye 3" : "ev() %d > 0"); judge(0, 0, sink, how == 1 ? LOG_USER : LOG_LOCAL2, LOG_CRIT, 12, locked, "die");
}
static void run_strerror(void)
{
    int en = errs[mc_choose(8)], sz = mc_choose(80); char *b = malloc(sz + 1); memset(b, '#', sz + 1); char w[128]; snprintf(w, sizeof w, "%s", strerror(en)); mc_op("error %d into %d bytes", en, sz); mc_state(en * 100 + sz); mc_transitions(1); errno = 0; int rc = u_strerror_r(en, b, sz); MC_CHECK(rc == 0, "strerror", "failed");
    MC_CHECK(b[sz] == '#', "strerror", "wrote beyond the buffer"); if (sz) MC_CHECK(strlen(b) == (strlen(w) < (size_t)sz ? strlen(w) : (size_t)sz - 1) && !strncmp(b, w, strlen(b)), "strerror", "\"%s\"", mc_escs(b)); free(b);
}
/* every error number there is, decorated on both kinds of sink and by itself */
static void run_errnos(void)
{
    int en = mc_choose(150) - 2, how = mc_choose(4); mc_op("error number %d, form %d", en, how); mc_state(mc_h64(en + 5, how)); start(how, how & 1); errno = EDOM;
    if (how < 2) { expect(LOG_ALERT, how, en, "f", 3, "g", "m"); int rc = u_log_write_ex(LOG_USER, LOG_ALERT, how, en, "f", 3, "g", "m"), e = errno; MC_CHECK(e == EDOM, "errno", "became %d", e); judge(rc, 0, how, LOG_USER, LOG_ALERT, 1, how & 1, "u_log_write_ex"); }
    else if (how == 2) { static char con[600], w[600]; memset(con, 0, sizeof con); FILE *sv = stderr, *f = fmemopen(con, sizeof con, "w"); stderr = f; int rc = u_console_write_ex(en, "f", 1, "f", "m"); stderr = sv; fclose(f); strcpy(w, "m"); if (en) sprintf(w + 1, " [errno: %d, %s]", en, strerror(en)); strcat(w, "\n"); MC_CHECK(rc == 0 && !strcmp(w, con), "console", "wrote \"%s\"", mc_escs(con)); }
    else { char b[256]; memset(b, 'x', sizeof b); int rc = u_strerror_r(en, b, sizeof b); MC_CHECK(rc == 0 && !strcmp(b, strerror(en)), "strerror", "\"%.100s\"", mc_escs(b)); }
    mc_transitions(1);
}
/* only one of the two lock functions installed: it is called all the same */
static void run_half(void)
{
    int w = mc_choose(2), sink = mc_choose(3), op = mc_choose(3); start(0, 0); install(sink); u_log_set_lock(w ? NULL : lock, &la); u_log_set_unlock(w ? unlock : NULL, &lb); mc_op("only %s installed", w ? "unlock" : "lock"); mc_state(w * 16 + sink * 4 + op); locks = unlocks = badlock = depth = 0; if (w) depth = 1; static char big[1400]; memset(big, 'q', 1300); mc_transitions(1);
    if (op == 2) u_log_set_hook(NULL, NULL, NULL, NULL); else u_log_write_ex(LOG_USER, LOG_ERR, 0, 0, "f", 1, "f", "%s", op ? big : "m"); if (op == 1) MC_CHECK(w ? unlocks <= 1 && !locks : locks <= 1 && !unlocks, "lock", "lock %d unlock %d", locks, unlocks); else MC_CHECK(locks == !w && unlocks == w && !badlock, "lock", "lock called %d times, unlock %d times", locks, unlocks);
}
/* a message that cannot be formatted: refused, or told whole, never told in part as if it were whole */
static void run_unprintable(void)
{
    int sink = mc_choose(3), locked = mc_choose(2), ctx = mc_choose(2), pos = mc_choose(3), en = mc_choose(2) ? ENOENT : 0; static const char *f[] = { "%lc-tail", "head-%lc-tail", "head-%lc" }; wchar_t w = 0x20ac; start(sink, locked); mc_op("a wide character the locale cannot express, form %d, sink %d", pos, sink); mc_state(pos * 64 + sink * 16 + locked * 8 + ctx * 2 + !en); errno = EDOM;
    static char t[64]; if (snprintf(t, sizeof t, f[pos], (wint_t)w) >= 0) mc_discard(); errno = EDOM; mc_transitions(1); int rc = u_log_write_ex(LOG_USER, LOG_ERR, ctx, en, "f", 1, "f", f[pos], (wint_t)w), e = errno; MC_CHECK(e == EDOM, "errno", "became %d", e);
    MC_CHECK(rc != 0 && ns == 0, "unprintable", "result %d with %d messages delivered: \"%s\"", rc, ns, ns ? mc_esc(S[0].s, S[0].n > 100 ? 100 : S[0].n) : ""); MC_CHECK(depth == 0 && locks == unlocks && !badlock, "lock", "lock %d unlock %d", locks, unlocks);
}
const struct mc_scn mc_scns[] = {
    { "every level, flag, error number and sink", run_levels, MC_QT, 4, 0, 0, 0, "8 levels, both sinks, decorations, error numbers, messages, locks, errno values, over the direct call" },
    { "every message length", run_lengths, MC_QT, 4, 0, 0, 0, "messages of 0 to 1099 (thorough 2099) characters with every decoration, both sinks" },
    { "histories of hooks, locks and nested logging", run_history, MC_QT, 3, 0, 0, 0, "4 (thorough 5) steps: set hook, toggle lock, log, too long, log within the hook, hook changed by another thread whenever the lock is free" },
    { "hook returning an error", run_history, MC_Q | MC_T, 3, 0, 0, 1, "the same with a hook that returns an error" },
    { "every logging macro", run_macros, MC_QT, 2, 0, 0, 0, "16 macros for each of 9 prefixes (dbg in both builds) and nop, condition true and false" },
    { "macros whose message cannot be delivered", run_undelivered, MC_QT, 2, 0, 0, 0, "8 conditional macros for each prefix with a text over the limit or an unwritable console" },
    { "console messages", run_console, MC_QT, 1, 0, 0, 0, "0 to 599 characters, error numbers, unwritable console" },
    { "dying", run_die, MC_QT, 1, 0, 0, 0, "die, u_log_die, die_if" },
    { "every error number", run_errnos, MC_QT, 1, 0, 0, 0, "-2 to 147 on both sinks, the console and alone" },
    { "one lock function only", run_half, MC_QT, 1, 0, 0, 0, "lock or unlock alone installed" },
    { "a message that cannot be formatted", run_unprintable, MC_QT, 1, 0, 0, 0, "a wide character outside the locale, every position, sink and decoration" },
    { "error strings", run_strerror, MC_QT, 1, 0, 0, 0, "every buffer size" },
    { 0 },
};
