// The test runner with modelled processes: every dependency graph, completion order, exit status, fork failure and interruption.
// MC-VARIANT: nofork HAVE_FORK
// MC-LDFLAGS: @vfs -Wl,--wrap=fork,--wrap=vfork,--wrap=wait3,--wrap=wait4,--wrap=wait,--wrap=waitpid,--wrap=kill,--wrap=exit,--wrap=_exit,--wrap=_Exit,--wrap=time,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=sigaction,--wrap=signal,--wrap=fflush
#include "mc.h"
#include <u/libu.h>
#include <ctype.h>
#include <getopt.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "vfs.h"
const char *mc_property = "P32", *mc_level = "model_checking";
enum { NS = 4, NC = 320, PID0 = 7000 };
static int active;
/* --- the process model --- */
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
static char *lib0; static size_t libn;
#define NOASAN __attribute__((no_sanitize("address"), noinline))
NOASAN static void raw(char *d, const char *s, size_t n) { volatile char *vd = d; const volatile char *vs = s; while (n >= 8) { *(volatile long *)vd = *(const volatile long *)vs; vd += 8; vs += 8; n -= 8; } while (n--) *vd++ = *vs++; }
static struct { void *p; size_t n; char *copy; } hp[1024]; static int nh;   /* blocks the library holds */
static void *hm(size_t n) { void *p = mc_malloc(n); if (p) { if (nh == 1024) abort(); hp[nh].p = p; hp[nh++].n = n; } return p; }
static void hf(void *p) { for (int i = 0; i < nh; i++) if (hp[i].p == p) { hp[i] = hp[--nh]; break; } mc_free(p); }
static void *hc(size_t a, size_t b) { void *p = hm(a * b); if (p) memset(p, 0, a * b); return p; }
static void *hr(void *p, size_t n) { void *q = hm(n); if (!p || !q) return q; size_t o = 0; for (int i = 0; i < nh; i++) if (hp[i].p == p) o = hp[i].n; memcpy(q, p, o < n ? o : n); hf(p); return q; }
static char *base, *snap, *libsnap; static size_t snapn; static char *snaplo; static int snaph;
static jmp_buf forkjb, endjb; static int inchild, childstat;
NOASAN static void take(void) { char here; snaplo = (char *)((uintptr_t)__builtin_frame_address(0) & ~15ul) - 256; (void)here; snapn = base - snaplo; if (snapn > 200000) abort(); raw(snap, snaplo, snapn); raw(libsnap, lib0, libn); for (int i = 0; i < nh; i++) { hp[i].copy = malloc(hp[i].n + 1); raw(hp[i].copy, hp[i].p, hp[i].n); } snaph = nh; }
NOASAN static void back2(volatile char *pad) { pad[0] = 1; raw(snaplo, snap, snapn); longjmp(forkjb, 1); }
NOASAN static void back(void) { volatile char *pad = __builtin_alloca(65536); pad[9] = 3; back2(pad); }
static void thaw(void) { raw(lib0, libsnap, libn); if (nh != snaph) mc_fail("child", "a test process leaked or released the runner's memory"); for (int i = 0; i < nh; i++) { raw(hp[i].p, hp[i].copy, hp[i].n); free(hp[i].copy); hp[i].copy = NULL; } }
typedef struct { int run, reaped, killed, lost, stat, who; } proc_t;
static proc_t pr[NC]; static int np, forkfails, intr, exited, exitcode, waits, foreign, eintrs, losts; static long clk;
static int running(void) { int n = 0; for (int i = 0; i < np; i++) n += pr[i].run; return n; }
static int hang, allow_intr, allow_fork, allow_eintr, allow_lost, allow_foreign, oneorder;
static struct sigaction sact[65]; static int sset[65];
static int poke(const char *where)         /* a signal arrives? */
{
    if (!allow_intr || intr || !active || inchild) return 0; int s = mc_dev(2); if (!s) return 0; static const int S[] = { SIGINT, SIGTERM, SIGQUIT }; int g = S[mc_choose(3)];
    mc_op("signal %d arrives %s", g, where); intr = 1; MC_CHECK(sset[g] && sact[g].sa_handler != SIG_DFL, "no-handler", "signal %d is not handled", g); if (sact[g].sa_handler == SIG_IGN) return 0; sact[g].sa_handler(g); return sact[g].sa_flags & SA_RESTART ? 0 : 1;
}
static int isproc(int pid) { return pid >= PID0 && pid < PID0 + np; }
int __real_fork(void); int __wrap_fork(void)
{
    if (!active) return __real_fork(); if (inchild) mc_fail("child", "a test process starts processes");
    if (allow_fork && mc_dev(2)) { forkfails++; mc_op("fork fails"); errno = EAGAIN; return -1; }
    if (np == NC) mc_fail("runaway", "%d processes", np); int i = np++; memset(&pr[i], 0, sizeof pr[i]); pr[i].run = 1; pr[i].who = -1;
    take(); if (setjmp(forkjb) == 0) { inchild = 1; return 0; }
    inchild = 0; thaw(); pr[i].stat = childstat; MC_CHECK(pr[i].who >= 0, "child", "a test process ended without running its case"); poke("after a start"); return PID0 + i;
}
int __real_vfork(void); int __wrap_vfork(void) { return __wrap_fork(); }
static int await(int which, int *st, int opt, struct rusage *ru)
{
    if (inchild) mc_fail("child", "a test process waits"); if (++waits > 4000) mc_fail("runaway", "waiting for ever");
    if (poke("while waiting")) { hang = 1; errno = EINTR; return -1; }
    if (allow_eintr && mc_dev(2)) { eintrs++; mc_op("wait interrupted"); errno = EINTR; return -1; }
    int c[NC], n = 0; for (int i = 0; i < np; i++) if (pr[i].run && (which < 0 || which == PID0 + i)) c[n++] = i;
    if (which > 0 && !isproc(which)) mc_fail("wait-target", "waits for process %d", which);
    if (allow_lost && n && mc_dev(2)) { mc_op("the children were reaped behind the runner's back"); losts++; for (int i = 0; i < np; i++) if (pr[i].run) { pr[i].run = 0; pr[i].lost = 1; } n = 0; }
    if (allow_foreign && !foreign && which < 0 && mc_dev(2)) { foreign = 1; mc_op("some other child ends"); if (st) *st = mc_choose(2) ? SIGSEGV : 0; if (ru) memset(ru, 0, sizeof *ru); return 99; }
    if (!n) { errno = ECHILD; return -1; }
    if (hang) { int k = 0; for (int i = 0; i < n; i++) if (pr[c[i]].killed) c[k++] = c[i]; if (!(n = k)) { if (opt & WNOHANG) return 0; mc_fail("stuck", "interrupted while it waits, the runner goes on waiting for cases that hang"); } }   /* from here on nothing ends by itself */
    int k = oneorder ? 0 : mc_choose(n + !!(opt & WNOHANG)); if (k == n) return 0; int i = c[k];
    /* equivalent finish orders: a killed process is like any other */
    pr[i].run = 0; pr[i].reaped = 1; if (st) *st = pr[i].killed ? SIGKILL : pr[i].stat; if (ru) { memset(ru, 0, sizeof *ru); ru->ru_utime.tv_sec = 61; ru->ru_utime.tv_usec = 5; }
    mc_op("process of case %d ends%s", pr[i].who, pr[i].killed ? " killed" : ""); clk++; return PID0 + i;
}
int __real_wait3(int *, int, void *); int __wrap_wait3(int *s, int o, struct rusage *r) { return active ? await(-1, s, o, r) : __real_wait3(s, o, r); }
int __real_wait4(int, int *, int, void *); int __wrap_wait4(int p, int *s, int o, struct rusage *r) { return active ? await(p, s, o, r) : __real_wait4(p, s, o, r); }
int __real_waitpid(int, int *, int); int __wrap_waitpid(int p, int *s, int o) { return active ? await(p, s, o, NULL) : __real_waitpid(p, s, o); }
int __real_wait(int *); int __wrap_wait(int *s) { return active ? await(-1, s, 0, NULL) : __real_wait(s); }
int __real_kill(int, int); int __wrap_kill(int p, int s)
{
    if (!active) return __real_kill(p, s); if (!isproc(p)) mc_fail("kill-target", "kill(%d, %d)", p, s); proc_t *q = &pr[p - PID0]; if (q->reaped) mc_fail("kill-target", "kills the process of case %d which is already gone", q->who);
    if (q->lost) { errno = ESRCH; return -1; } mc_op("kill case %d with signal %d", q->who, s); if (s == SIGKILL || s == SIGTERM || s == SIGINT || s == SIGQUIT) q->killed = 1; return 0;
}
static void leave(int st) { childstat = st; back(); }
void __real_exit(int) __attribute__((noreturn)); void __wrap_exit(int c) { if (!active) __real_exit(c); if (inchild) leave((c & 255) << 8); exited = 1; exitcode = c & 255; longjmp(endjb, 1); }
void __real__exit(int) __attribute__((noreturn)); void __wrap__exit(int c) { if (!active) __real__exit(c); __wrap_exit(c); }
void __wrap__Exit(int c) { __wrap__exit(c); }
int __real_sigaction(int, const struct sigaction *, struct sigaction *); int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (!active) return __real_sigaction(s, a, o); if (o) *o = sact[s]; if (a) { sact[s] = *a; sset[s] = 1; } return 0; }
typedef void (*shf)(int); shf __real_signal(int, shf); shf __wrap_signal(int s, shf h) { if (!active) return __real_signal(s, h); shf o = sact[s].sa_handler; sact[s].sa_handler = h; sact[s].sa_flags = SA_RESTART; sset[s] = 1; return o; }
time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { if (!active) return __real_time(t); poke("between steps"); if (t) *t = clk; return clk; }
int __real_gettimeofday(void *, void *); int __wrap_gettimeofday(struct timeval *t, void *z) { if (!active) return __real_gettimeofday(t, z); t->tv_sec = clk; t->tv_usec = 0; return 0; }
int __real_clock_gettime(int, void *); int __wrap_clock_gettime(int c, struct timespec *t) { if (!active) return __real_clock_gettime(c, t); t->tv_sec = clk; t->tv_nsec = 0; return 0; }
static FILE *conout; int __real_fflush(FILE *); int __wrap_fflush(FILE *f) { return __real_fflush(f); }
/* --- the test programme --- */
enum { W_PASS, W_FAIL, W_ABRT, W_SKIP, W_NOT };          /* W_NOT: anything but a pass */
static unsigned char cdep[NC][NC];
static int allcodes, names;
static int ns, ncs[NS], first[NS], nc, sdep[NS][NS], started[NC], code[NC], suite_of[NC], maxp, serial, kinds, devcodes, lone, unmet; static char *what;
static const int CODES[] = { 0, 1, -1000, 2, 3, 7, -1 };   /* -1000: dies of a signal */
static int finished(int c) { if (serial) return started[c] == 2; for (int i = 0; i < np; i++) if (pr[i].who == c) return pr[i].reaped || pr[i].killed; return 0; }
static int settled(int c);       /* finished, or will never run */
static int willskip(int c) { for (int d = 0; d < nc; d++) if (cdep[c][d] && (started[d] ? code[d] != 0 || !finished(d) : 1)) return 1; return 0; }
static int settled(int c) { return started[c] ? finished(c) : 1; }
static int body(u_test_case_t *tc, int i)
{
    mc_op("case %d runs", i); MC_CHECK(!started[i], "once", "case %d runs twice", i); MC_CHECK(!lone, "graph", "case %d runs though the dependencies cannot be met", i);
    MC_CHECK(inchild == !serial, "sandbox", "case %d runs %s", i, inchild ? "in a process" : "in the runner itself");
    for (int d = 0; d < nc; d++) if (cdep[i][d]) { MC_CHECK(started[d], "order", "case %d runs before case %d, which it depends on", i, d); MC_CHECK(finished(d), "order", "case %d starts while case %d, which it depends on, is running", i, d); MC_CHECK(code[d] == 0, "unmet", "case %d runs though case %d failed", i, d); }
    int s = suite_of[i]; for (int t = 0; t < ns; t++) if (sdep[s][t]) for (int d = first[t]; d < first[t] + ncs[t]; d++) { MC_CHECK(started[d] && finished(d), "order", "suite %d starts before suite %d, which it depends on, has finished", s, t); MC_CHECK(code[d] == 0, "unmet", "suite %d runs though suite %d failed", s, t); }
    if (!serial) { pr[np - 1].who = i; MC_CHECK(maxp == 0 || running() <= maxp, "parallel", "%d cases at a time, at most %d allowed", running(), maxp); }
    if (allcodes) { int k = mc_choose(serial ? 260 : 256 + 64); started[i] = serial ? 1 : 2; static const int odd[] = { -1, 256, -256, 512 }; code[i] = k < 256 ? k : serial ? odd[k - 256] : -1000; mc_op("case %d %s %d", i, code[i] == -1000 ? "dies of signal" : "returns", code[i] == -1000 ? k - 255 : code[i]); if (serial) { started[i] = 2; return code[i]; } if (code[i] == -1000) leave((k - 255) | (mc_choose(2) ? 0x80 : 0)); return code[i]; }
    started[i] = serial ? 1 : 2; int k = devcodes ? mc_dev(kinds) : mc_choose(kinds); if (serial && CODES[k] == -1000) mc_discard(); code[i] = CODES[k];
    if (k) mc_op("case %d %s %d", i, k == 2 ? "dies" : "returns", CODES[k]); if (serial) { poke("inside a case"); started[i] = 2; return code[i]; }
    if (code[i] == -1000) leave(SIGSEGV); return code[i];
}
#define F1(i) static int f##i(u_test_case_t *t) { return body(t, ((i) / 10 - 1) * 8 + (i) % 10); }
#define F8(i) F1(i##0) F1(i##1) F1(i##2) F1(i##3) F1(i##4) F1(i##5) F1(i##6) F1(i##7)
F8(1) F8(2) F8(3) F8(4) F8(5) F8(6) F8(7) F8(8) F8(9)
F8(10) F8(11) F8(12) F8(13) F8(14) F8(15) F8(16) F8(17) F8(18) F8(19) F8(20) F8(21) F8(22) F8(23) F8(24) F8(25) F8(26) F8(27) F8(28) F8(29) F8(30) F8(31) F8(32) F8(33) F8(34) F8(35) F8(36) F8(37) F8(38) F8(39) F8(40)
#define N8(i) f##i##0, f##i##1, f##i##2, f##i##3, f##i##4, f##i##5, f##i##6, f##i##7,
static int (*const FN[NC])(u_test_case_t *) = { N8(1) N8(2) N8(3) N8(4) N8(5) N8(6) N8(7) N8(8) N8(9)
    N8(10) N8(11) N8(12) N8(13) N8(14) N8(15) N8(16) N8(17) N8(18) N8(19) N8(20) N8(21) N8(22) N8(23) N8(24) N8(25) N8(26) N8(27) N8(28) N8(29) N8(30) N8(31) N8(32) N8(33) N8(34) N8(35) N8(36) N8(37) N8(38) N8(39) N8(40) };
static int quiet(void *a, int l, const char *s) { return 0; }
static void begin(void)
{
    if (!lib0) { lib0 = __start_libdata; libn = __stop_libdata - __start_libdata; snap = malloc(200001); libsnap = malloc(libn + 1); }
    memset(pr, 0, sizeof pr); np = forkfails = intr = exited = exitcode = waits = foreign = eintrs = losts = inchild = 0; nh = 0; memset(sact, 0, sizeof sact); memset(sset, 0, sizeof sset); clk = 1000000;
    hang = allcodes = names = 0; for (int i = 0; i < NC; i++) if (i < nc) memset(cdep[i], 0, nc); ns = nc = 0; memset(ncs, 0, sizeof ncs); memset(sdep, 0, sizeof sdep); memset(started, 0, sizeof started); memset(code, 0, sizeof code);
    maxp = U_TEST_MAX_PARALLEL; serial = 0; kinds = 3; devcodes = 0; lone = unmet = 0; allow_intr = allow_fork = allow_eintr = allow_lost = allow_foreign = oneorder = 0;
    vfs_dir("/vfs/a"); u_memory_set_malloc(hm); u_memory_set_free(hf); u_memory_set_calloc(hc); u_memory_set_realloc(hr); u_log_set_hook(quiet, NULL, NULL, NULL);
}
static char *lib1; static char *realout;
void mc_init(void) { lib0 = __start_libdata; libn = __stop_libdata - __start_libdata; lib1 = malloc(libn + 1); raw(lib1, lib0, libn); snap = malloc(200001); libsnap = malloc(libn + 1); }
static FILE *keepout;
void mc_cleanup(void) { active = 0; inchild = 0; if (keepout) { stdout = keepout; keepout = NULL; } for (int i = 0; i < nh; i++) { free(hp[i].copy); hp[i].copy = NULL; } nh = 0; raw(lib0, lib1, libn); mc_mem_install(); vfs_reset(); unsetenv("TZ"); }
static u_test_t *T; static u_test_suite_t *S[NS]; static u_test_case_t *H[NC];
/* names: 1: nearly as long as allowed and alike up to their ends; 2: each the beginning of the next; 3: alike but for case */
static const char *nm(char l, int i)
{
    static char b[8][160]; static int k; char *s = b[k = (k + 1) & 7]; memset(s, 0, 160);
    if (names == 1) { memset(s, 'q', U_TEST_ID_MAX - 1 - 4); sprintf(s + U_TEST_ID_MAX - 1 - 4, "%c%02dz", l, i); } else if (names == 2) { s[0] = l; memset(s + 1, 'a', i); } else if (names == 3) { s[0] = l; for (int j = 0; j < 6; j++) s[1 + j] = i >> j & 1 ? 'N' : 'n'; } else sprintf(s, "%c%02dz", l, i); return s;
}
static const char *cid(int i) { return nm('c', i); }
static const char *sid(int i) { return nm('S', i); }
static int inword(char c) { return isalnum((unsigned char)c); }
static char *find(char *t, const char *id) { size_t n = strlen(id); for (char *p = t; (p = strstr(p, id)); p++) if ((p == t || !inword(p[-1])) && !inword(p[n])) return p; return NULL; }
#define OK(e) do { if (e) mc_fail("setup", "%s failed", #e); } while (0)
static void suite(int n) { first[ns] = nc; ncs[ns] = n; OK(u_test_suite_new(sid(ns), &S[ns])); for (int i = 0; i < n; i++) { suite_of[nc] = ns; if (nc & 1) { OK(u_test_case_new(cid(nc), FN[nc], &H[nc])); OK(u_test_case_add(H[nc], S[ns])); } else { H[nc] = NULL; OK(u_test_case_register(cid(nc), FN[nc], S[ns])); } nc++; } OK(u_test_suite_add(S[ns], T)); ns++; }
static void cneeds(int a, int b) { mc_note("case %d needs case %d", a, b); cdep[a][b] = 1; if (H[a] && (b & 1)) OK(u_test_case_dep_register(cid(b), H[a])); else OK(u_test_case_depends_on(cid(a), cid(b), S[suite_of[a]])); }
static void sneeds(int a, int b) { mc_note("suite %d needs suite %d", a, b); sdep[a][b] = 1; if (b & 1) OK(u_test_suite_dep_register(sid(b), S[a])); else OK(u_test_suite_depends_on(sid(a), sid(b), T)); }
static int cyclic(int n, int (*e)(int, int)) { char out[NC] = { 0 }; for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) if (!out[i]) { int ok = 1; for (int j = 0; j < n; j++) if (e(i, j) && !out[j]) ok = 0; out[i] = ok; } for (int i = 0; i < n; i++) if (!out[i]) return 1; return 0; }
static int ce(int a, int b) { return cdep[a][b]; } static int se(int a, int b) { return sdep[a][b]; }
/* the report, whatever its format: the word next to an identifier, and the figures */
static char rep[65536]; static int xml; static const char *outpath;
static int word(const char *p) { if (!strncmp(p, "PASS", 4)) return W_PASS; if (!strncmp(p, "FAIL", 4)) return W_FAIL; if (!strncmp(p, "ABRT", 4)) return W_ABRT; if (!strncmp(p, "SKIP", 4)) return W_SKIP; return W_NOT; }
static const char *WN[] = { "PASS", "FAIL", "ABRT", "SKIP", "not PASS" };
static int status(const char *id, const char **at)
{
    char *p = find(rep, id); MC_CHECK(p, "report", "%s is not in the report", id); MC_CHECK(!find(p + 1, id), "report", "%s is in the report twice", id); if (at) *at = p;
    if (xml) { p = strstr(p, "<status>"); MC_CHECK(p, "report", "no status of %s", id); return word(p + 8); }
    while (p > rep && *p != '[') p--; return word(p + 1);
}
static unsigned figure(const char *from, const char *nm) { const char *p = strstr(from, nm); MC_CHECK(p, "report", "no \"%s\"", nm); p += strlen(nm); unsigned v; MC_CHECK(sscanf(p, "%u", &v) == 1, "report", "no figure for \"%s\"", nm); return v; }
static void figures(const char *from, int suites, const unsigned w[5], const char *of)
{
    static const char *N[2][5] = { { "Number of test cases:", "Passed:", "Failed:", "Aborted:", "Skipped:" }, { "<total>", "<passed>", "<failed>", "<aborted>", "<skipped>" } };
    const char *t = N[xml][0]; if (!xml && suites) t = "Number of test suites:"; unsigned tot = w[0] + w[1] + w[2] + w[3] + w[4]; unsigned g = figure(from, t); MC_CHECK(g == tot, "figures", "%u in all reported for %s, expected %u", g, of, tot); if (w[4]) return;
    const char *at = strstr(from, t); for (int i = 0; i < 4; i++) { g = figure(at, N[xml][1 + i]); MC_CHECK(g == w[i], "figures", "%u %s reported for %s, expected %u", g, WN[i], of, w[i]); }
}
static int run(int ac, const char *const *av)
{
    char *a[12]; for (int i = 0; i < ac; i++) a[i] = (char *)av[i]; a[ac] = NULL; optind = 0; opterr = 0; static volatile int rc; rc = 12345; char here; base = (char *)__builtin_frame_address(0) + 64; (void)here; active = 1;
#ifdef MC_VARIANT_nofork        /* no processes: every case runs in the runner, the options about processes do not exist */
    { int k = 1; for (int i = 1; i < ac; i++) { if (!strcmp(a[i], "-s")) continue; if (!strcmp(a[i], "-p")) { i++; continue; } a[k++] = a[i]; } a[ac = k] = NULL; serial = 1; }
#endif
    if (setjmp(endjb) == 0) rc = u_test_run(ac, a, T);
    active = 0; if (inchild) mc_fail("child", "a test process returned into the main programme"); return rc;
}
static int wantc[NC], wants[NS];
static void expect(void)
{
    int nostart = 0; for (int i = 0; i < nc; i++) wantc[i] = -1; for (int s = 0; s < ns; s++) wants[s] = -1;
    for (int r = 0; r <= ns; r++) for (int s = 0; s < ns; s++) { if (wants[s] >= 0) continue; int sk = 0, wait = 0; for (int t = 0; t < ns; t++) if (sdep[s][t]) { if (wants[t] < 0) wait = 1; else if (wants[t] != W_PASS) sk = 1; } if (wait) continue;
        int bad = 0; for (int q = 0; q <= ncs[s]; q++) for (int i = first[s]; i < first[s] + ncs[s]; i++) { if (wantc[i] >= 0) continue; int cs = sk, cw = 0; for (int d = 0; d < nc; d++) if (cdep[i][d]) { if (wantc[d] < 0) cw = 1; else if (wantc[d] != W_PASS) cs = 1; } if (cw && !sk) continue;
            if (cs) { MC_CHECK(!started[i], "unmet", "case %d ran", i); wantc[i] = W_SKIP; bad = 1; continue; }
            if (!started[i]) { nostart++; wantc[i] = W_NOT; bad = 1; continue; }
            int lost = 0; for (int k = 0; k < np; k++) if (pr[k].who == i && pr[k].lost) lost = 1; int c = code[i]; wantc[i] = lost ? W_NOT : c == 0 ? W_PASS : c == 1 ? W_FAIL : c == -1000 || c == 2 ? W_ABRT : c == 3 ? W_SKIP : W_NOT; if (wantc[i]) bad = 1; }
        wants[s] = sk ? W_SKIP : bad ? W_FAIL : W_PASS; }
    if (!losts) MC_CHECK(nostart == forkfails, "once", "%d case(s) never ran, %d could not be started", nostart, forkfails);
}
static void judge(int rc)
{
    for (int i = 0; i < np; i++) if (pr[i].run && !pr[i].killed) mc_fail("orphan", "case %d is still running when the runner ends", pr[i].who);
    if (exited) { MC_CHECK(intr, "exit", "the runner exits by itself with %d", exitcode); MC_CHECK(exitcode != 0, "interrupted", "interrupted, yet the outcome is success"); mc_outcome(mc_h64(3, np)); goto done; }
    if (lone) { MC_CHECK(rc != 0, "graph", "the dependencies cannot be met, yet the outcome is success"); mc_outcome(4); goto done; }
    int k = vfs_name(outpath); int full = k >= 0; rep[0] = 0; if (full) { vnode_t *v = &vn[vname[k].ino]; if (v->len >= sizeof rep) abort(); memcpy(rep, v->d, v->len); rep[v->len] = 0; }
    if (intr) { int all = 1; for (int i = 0; i < nc; i++) { int good = started[i] == 2 && code[i] == 0; for (int q = 0; q < np; q++) if (pr[q].who == i && (pr[q].killed || pr[q].lost)) good = 0; if (!good) all = 0; if (rep[0] && !good) MC_CHECK(status(cid(i), NULL) != W_PASS, "truth", "interrupted: case %d did not succeed but is reported as passed", i); } MC_CHECK(rc != 0 || all, "interrupted", "interrupted before everything ran, yet the outcome is success"); goto done; }
    expect(); int ok = 1; for (int s = 0; s < ns; s++) ok &= wants[s] == W_PASS;
    if (vfs_hits) { if (!ok) MC_CHECK(rc != 0, "outcome", "success"); else if (rc == 0) MC_CHECK(full && strstr(rep, xml ? "</test>\n" : sid(0)), "report-lost", "the report was not written, yet the outcome is success"); if (rc) goto done; }
    MC_CHECK((rc == 0) == ok, "outcome", "the outcome is %s", rc ? "failure though everything passed" : "success though not everything passed"); MC_CHECK(full, "report", "no report"); if (losts) goto done;
    unsigned tw[5] = { 0 }; uint64_t o = 7;
    for (int s = 0; s < ns; s++) { const char *at; int g = status(sid(s), &at); MC_CHECK(wants[s] == W_NOT ? g != W_PASS : g == wants[s], "truth", "suite %d is reported as %s, expected %s", s, WN[g], WN[wants[s]]); tw[g]++; unsigned w[5] = { 0 };
        for (int i = first[s]; i < first[s] + ncs[s]; i++) { g = status(cid(i), NULL); MC_CHECK(wantc[i] == W_NOT ? g != W_PASS : g == wantc[i], "truth", "case %d is reported as %s, expected %s", i, WN[g], WN[wantc[i]]); w[g]++; o = mc_h64(o, g); } figures(at, 0, w, sid(s)); }
    figures(rep, 1, tw, "the test"); mc_outcome(mc_h64(o, np));
done:
    u_test_free(T); vfs_judge(); if (!exited) MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
static const char *const MODE[][2] = { { "-p", "1" }, { "-p", "2" }, { "-p", "3" }, { NULL }, { "-s" }, { "-p", "0" } }; static const int MP[] = { 1, 2, 3, U_TEST_MAX_PARALLEL, 1, 0 };
static int talk; extern FILE *__real_fopen(const char *, const char *);
static void go(int mode, int withxml)
{
    const char *av[10] = { "t", "-o", outpath = "/vfs/a/r" }; int ac = 3; xml = withxml; if (xml) { av[ac++] = "-f"; av[ac++] = "xml"; } if (MODE[mode][0]) av[ac++] = MODE[mode][0]; if (MODE[mode][1]) av[ac++] = MODE[mode][1]; serial = mode == 4; maxp = MP[mode]; static FILE *nul; FILE *keep = stdout, *keep2 = stderr; if (talk) { if (!nul) nul = __real_fopen("/dev/null", "w"); av[ac++] = talk == 1 ? "-v" : talk == 2 ? "-d" : "-vd"; stdout = stderr = nul; }
    mc_note("%s", mode == 4 ? "one after the other" : mode == 5 ? "no limit" : mode == 3 ? "default limit" : av[ac - 1]);
    if (cyclic(nc, ce) || cyclic(ns, se) || unmet) lone = 1; talk = 0; int r = run(ac, av); stdout = keep; stderr = keep2; judge(r);
}
static void test(void) { OK(u_test_new("prog", &T)); }
static void graph(int n, int self, int dag) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i != j || self) && !(dag && i < j) && mc_choose(2)) cneeds(i, j); }
static void s_graph3(void) { begin(); test(); suite(3); graph(3, 1, 0); int m = mc_choose(mc_tier ? 6 : 5); go(m, 0); }
static void s_graph4(void) { begin(); test(); suite(4); graph(4, 0, 0); if (cyclic(nc, ce)) mc_discard(); devcodes = 1; kinds = mc_tier ? 3 : 2; static const int M[] = { 0, 1, 2, 3 }; go(M[mc_choose(mc_tier ? 4 : 3)], 0); }
static void s_graph5(void) { begin(); test(); suite(5); int lim = 1 + mc_arg(); for (int i = 1; i < 5; i++) for (int j = 0; j < i; j++) if (mc_choose(2)) { int a = lim == 2 ? 4 - i : i, b = lim == 2 ? 4 - j : j; cneeds(a, b); } devcodes = 1; kinds = 2; go(mc_choose(4), 0); }
static void s_suites(void) { begin(); test(); int n = 2 + mc_choose(2); for (int i = 0; i < n; i++) suite(mc_choose(3)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (mc_choose(2)) sneeds(i, j); for (int s = 0; s < n; s++) if (ncs[s] == 2 && mc_choose(2)) cneeds(first[s], first[s] + 1); kinds = 2; static const int M[] = { 0, 3, 4 }; go(M[mc_choose(3)], 1); }
static void s_codes(void) { begin(); test(); kinds = 7; talk = mc_choose(mc_tier ? 4 : 3); suite(2); int d = mc_choose(3); if (d) cneeds(d - 1, 2 - d); if (mc_choose(2)) { suite(1); if (mc_choose(2)) sneeds(0, 1); } go(mc_choose(5), mc_choose(2)); }
static void s_everycode(void) { begin(); test(); kinds = 7; suite(1); if (mc_choose(2)) { suite(1); kinds = 1; sneeds(1, 0); } allcodes = 1; int m = mc_choose(2) ? 4 : 3; go(m, mc_choose(2)); }
static void s_names(void)
{
    begin(); names = 1 + mc_choose(3); test(); suite(3); int more = mc_choose(3); if (more) { suite(1); suite(1); if (more == 1) { sneeds(1, 0); sneeds(2, 1); } else { sneeds(0, 2); sneeds(1, 2); } } graph(3, 0, 0); devcodes = 1; kinds = 2; static const int M[] = { 0, 3, 4 }; go(M[mc_choose(3)], mc_choose(2));
}
static void s_deep(void)      /* long chains of dependencies */
{
    begin(); test(); static const int N[] = { 10, 20, 40, 70, 130, 260 }; int n = N[mc_choose(6)], back = mc_choose(2), skip = mc_choose(3); suite(n); for (int i = 1; i < n; i++) { int a = back ? n - 1 - i : i, b = back ? n - i : i - 1; cneeds(a, b); if (skip == 1 && i > 3) cneeds(a, back ? a + 3 : a - 3); if (skip == 2 && i > 1) cneeds(a, back ? n - 1 : 0); } oneorder = 1; devcodes = 0; kinds = 1; static const int M[] = { 0, 3, 4 }; go(M[mc_choose(3)], 0);
}
static void s_wide(void) { begin(); test(); static const int N[] = { 130, 255, 256, 257, 300 }; int n = N[mc_choose(5)]; suite(n); if (mc_choose(2)) for (int i = 1; i < n; i++) cneeds(i, 0); oneorder = 1; kinds = 1; static const int P[] = { 0, 128, 256, 257, 400 }; maxp = P[mc_choose(5)]; char p[8]; sprintf(p, "%d", maxp); const char *av[] = { "t", "-o", outpath = "/vfs/a/r", "-p", p }; xml = mc_choose(2); if (xml) mc_discard(); judge(run(5, av)); }
static void s_faults(void)
{
    begin(); test(); suite(2); suite(mc_choose(3)); int d = mc_choose(3); if (d) cneeds(d - 1, 2 - d); d = mc_choose(3); if (d) sneeds(d - 1, 2 - d); if (ncs[1] == 2 && mc_choose(2)) cneeds(2, 3); devcodes = 1; kinds = 2;
    allow_fork = allow_eintr = allow_foreign = 1; allow_lost = mc_arg(); go(mc_choose(4), 0);
}
static void s_intr(void) { begin(); test(); suite(2); suite(mc_choose(3)); int d = mc_choose(3); if (d) cneeds(d - 1, 2 - d); d = mc_choose(3); if (d) sneeds(d - 1, 2 - d); devcodes = 1; kinds = 3; allow_intr = 1; allow_eintr = mc_arg(); go(mc_choose(5), 0); }
static void s_dups(void)      /* the same dependency declared again, and on something that does not exist */
{
    begin(); test(); suite(3); suite(1); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) if (i != j) { int k = mc_choose(3); if (k == 0) continue; cneeds(i, j); if (k == 2) { if (H[i]) OK(u_test_case_dep_register(cid(j), H[i])); else OK(u_test_case_depends_on(cid(i), cid(j), S[0])); } }
    int k = mc_choose(3); if (k) { OK(u_test_suite_dep_register(sid(0), S[1])); sdep[1][0] = 1; if (k == 2) OK(u_test_suite_dep_register(sid(0), S[1])); }
    k = mc_choose(7); const char *nope = "none"; if (k == 1) OK(u_test_case_depends_on(cid(0), nope, S[0])); if (k == 2) OK(u_test_suite_depends_on(sid(0), nope, T)); if (k == 3) OK(u_test_case_dep_register(cid(3), H[1])); if (k && k < 4) unmet = 1;   /* a case of another suite */
    if (k == 4) MC_CHECK(u_test_case_depends_on(nope, cid(0), S[0]) != 0, "setup", "a dependency of a case that does not exist is taken"); if (k == 5) MC_CHECK(u_test_suite_depends_on(nope, sid(0), T) != 0, "setup", "a dependency of a suite that does not exist is taken"); if (k == 6) { char lg[200]; memset(lg, 'x', 199); lg[199] = 0; MC_CHECK(u_test_case_depends_on(cid(0), lg, S[0]) != 0, "setup", "an oversized name is taken"); MC_CHECK(u_test_case_register(lg, FN[9], S[0]) != 0, "setup", "an oversized name is taken"); u_test_suite_t *x; MC_CHECK(u_test_suite_new(lg, &x) != 0, "setup", "an oversized name is taken"); }
    kinds = 2; devcodes = 1; go(mc_choose(2) ? 4 : 1, 0);
}
static void s_many(void)      /* the default limit, with more cases than it */
{
    begin(); test(); static const int N[] = { 31, 32, 33, 34, 64, 65 }; int n = N[mc_choose(6)]; suite(n); int shape = mc_choose(4); int p = mc_choose(3);
    if (shape == 1) for (int i = 1; i < n; i++) cneeds(i, 0); if (shape == 2) for (int i = 0; i < n / 2; i++) cneeds(i, n - 1); if (shape == 3) { for (int i = n / 2; i < n; i++) cneeds(i, 0); }
    oneorder = 1; xml = 0; kinds = 1; const char *av[] = { "t", "-o", outpath = "/vfs/a/r", "-p", p == 1 ? "33" : "31" }; maxp = p == 0 ? 32 : p == 1 ? 33 : 31; judge(run(p ? 5 : 3, av));
}
/* reporters */
static int seq, badat; static char order[400];
static int rt(FILE *f, u_test_t *t, u_test_rep_tag_t g) { MC_CHECK(t == T, "reporter", "another test"); strcat(order, g == U_TEST_REP_HEAD ? "<" : ">"); return ++seq == badat; }
static int rs(FILE *f, u_test_suite_t *s, u_test_rep_tag_t g) { char b[8]; int i; for (i = 0; i < ns && S[i] != s; i++) ; snprintf(b, 8, "%c%d", g == U_TEST_REP_HEAD ? '(' : ')', i); strcat(order, b); return ++seq == badat; }
static int rc_(FILE *f, u_test_case_t *c) { fprintf(f, "x"); strcat(order, "c"); return ++seq == badat; }
static void s_reporters(void)
{
    begin(); test(); suite(1); suite(2); seq = 0; order[0] = 0; OK(u_test_set_u_test_rep(T, rt)); OK(u_test_set_u_test_suite_rep(T, rs)); OK(u_test_set_u_test_case_rep(T, rc_)); badat = mc_choose(11); kinds = 1; OK(u_test_set_outfn(T, "/vfs/a/r"));
    const char *av[] = { "t", "-s" }; serial = 1; int rc = run(2, av); MC_CHECK(!exited, "exit", "exits"); MC_CHECK((rc == 0) == (badat == 0 || badat > 9), "report-lost", "reporter call %d failed, outcome %d", badat, rc);
    if (rc == 0) MC_CHECK(!strcmp(order, "<(1cc)1(0c)0>") || !strcmp(order, "<(0c)0(1cc)1>"), "reporter", "reporters are called as %s", order); if (rc == 0) MC_CHECK(vfs_has("/vfs/a/r", "xxx", 3), "reporter", "the report is not what the reporters wrote"); mc_outcome(rc); u_test_free(T); vfs_judge(); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
static void s_files(void)     /* where the report goes, and failing to write it */
{
    begin(); test(); suite(1); int two = mc_choose(2); if (two) suite(mc_choose(3) * 110); kinds = 1; serial = 1; xml = mc_choose(2); int by = mc_choose(3); const char *av[8] = { "t", "-s" }; int ac = 2; outpath = "/vfs/a/r"; FILE *so = NULL;
    if (by == 0) { av[ac++] = "-o"; av[ac++] = outpath; } else if (by == 1) OK(u_test_set_outfn(T, outpath)); else { av[ac++] = "-o"; av[ac++] = "-"; keepout = stdout; stdout = so = fopen(outpath, "w"); } if (xml) { av[ac++] = "-f"; av[ac++] = mc_choose(2) ? "xml" : "XML"; }
    if (by < 2 && mc_choose(2)) vfs_file(outpath, "something much older and longer than anything", 45); if (by < 2) vfs_errs = vfs_faults = 1; int rc = run(ac, av); vfs_faults = 0;
    if (so) { stdout = keepout; keepout = NULL; MC_CHECK(vst[vfs_st(so)].open == 1, "stdout", "the programme's standard output is closed"); fclose(so); } judge(rc);
}
static void s_options(void)
{
    begin(); test(); suite(3); kinds = 1; static const char *const O[][3] = { { "-p", "x" }, { "-p", "-1" }, { "-p", "" }, { "-f", "htm" }, { "-z" }, { "-h" }, { "-p" }, { "-p", "99999999999999" } }; int o = mc_choose(8); const char *av[4] = { "t", O[o][0], O[o][1], NULL }; FILE *ke = stderr; stderr = fopen("/vfs/a/e", "w");
    mc_note("%s %s", O[o][0], O[o][1] ? O[o][1] : ""); lone = 1; int rc = run(O[o][1] ? 3 : 2, av); fclose(stderr); stderr = ke; MC_CHECK(exited ? exitcode != 0 : rc != 0, "options", "a bad command line is a success"); mc_outcome(exited); u_test_free(T); vfs_judge();
}
static void s_elapsed(void)   /* time spent is not a time of day */
{
    begin(); test(); suite(1); kinds = 1; static const char *Z[] = { "UTC", "IST-5:30", "NST+3:30", "NPT-5:45" }; setenv("TZ", Z[mc_choose(4)], 1); tzset(); xml = mc_choose(2); serial = mc_choose(2); const char *av[8] = { "t", "-o", outpath = "/vfs/a/r" }; int ac = 3; if (serial) av[ac++] = "-s"; if (xml) { av[ac++] = "-f"; av[ac++] = "xml"; } int rc = run(ac, av); MC_CHECK(rc == 0, "outcome", "failure");
    char want[32]; vnode_t *v = &vn[vname[vfs_name(outpath)].ino]; memcpy(rep, v->d, v->len); rep[v->len] = 0; char *p = strstr(rep, cid(0)); MC_CHECK(p, "report", "no case"); const char *t = serial ? "00:00" : "01:01.000005"; MC_CHECK(strstr(p, t), "elapsed", "the time spent (%s) is reported otherwise: %s", t, mc_escs(p)); mc_outcome(serial); u_test_free(T); vfs_judge();
}
/* what a case says: its name, then the message, whole and on its line */
static int says(u_test_case_t *tc, const char *m, int how) { if (how == 0) return u_test_case_printf(tc, "%s", m); if (how == 1) { u_test_err_ifm(1 == 1, "%s", m); return 99; } if (how == 2) { u_test_err_if (3 + 4 == 7); return 99; } u_test_err_if (3 + 4 == 8); u_test_err_ifm(0, "%s", m); return 77; err: return 55; }
static void s_says(void)
{
    static const char *ID[] = { "c", "a name with blanks", "%s%n" }; const char *id = ID[mc_choose(3)]; int how = mc_choose(4), n = 1 + mc_choose(40) * (mc_choose(2) ? 53 : 1); static char m[2300], out[2600], w[2600]; memset(m, 'm', n); m[n] = 0; if (n > 3) memcpy(m + 1, "%s", 2); u_test_case_t *tc; mc_op("a case says %d characters, form %d", n, how); MC_CHECK(u_test_case_new(id, NULL, &tc) == 0, "setup", "case"); memset(out, 0, sizeof out); FILE *so = stdout, *f = fmemopen(out, sizeof out, "w"); stdout = f; int rc = says(tc, m, how); fflush(f); stdout = so; fclose(f); snprintf(w, sizeof w, how == 3 ? "" : "{%s} %s\n", id, how == 2 ? "3 + 4 == 7" : m); u_test_case_free(tc);
    MC_CHECK(!strcmp(out, w), "says", "\"%s\" instead of \"%s\"", mc_esc(out, strlen(out) > 100 ? 100 : strlen(out)), mc_esc(w, strlen(w) > 100 ? 100 : strlen(w))); MC_CHECK(how == 0 ? rc >= 0 : rc == (how == 3 ? 77 : 55), "says", "result %d", rc); mc_transitions(1);
}
const struct mc_scn mc_scns[] = {
    { "three-cases", s_graph3, MC_QT, 8, 0, 0, 0, "every dependency graph over 3 cases (loops too), every status of each, every finish order, limits 1-3, default, serial" },
    { "four-cases", s_graph4, MC_QT, 10, 2, 4, 0, "every loop-free graph over 4 cases, every finish order, limits 1-3; up to 2 failing (thorough: 4 failing or crashing) cases" },
    { "five-cases", s_graph5, MC_T, 10, 1, 2, 0, "every graph over 5 cases in registration order, every finish order" },
    { "five-cases-rev", s_graph5, MC_T, 10, 1, 2, 1, "the same in reverse registration order" },
    { "suites", s_suites, MC_QT, 8, 0, 0, 0, "2 or 3 suites of 0-2 cases, every dependency graph between the suites (loops too), every pass/fail" },
    { "every status", s_everycode, MC_QT, 3, 0, 0, 0, "every value a case can return and every signal it can die of, alone or needed by another suite" },
    { "names", s_names, MC_QT, 6, 1, 3, 0, "names of the greatest length alike up to their last characters, names that begin others, names alike but for case: every graph over 3 cases, 1 or 3 suites" },
    { "deep", s_deep, MC_QT, 3, 0, 0, 0, "chains of 10 to 260 cases, three shapes, both orders of registration; one finish order" },
    { "wide", s_wide, MC_QT, 3, 0, 0, 0, "130 to 300 cases under limits of 128 to 400 and none; one finish order" },
    { "statuses", s_codes, MC_QT, 5, 0, 0, 0, "every exit status class and a crash for each of 2-3 cases, both report formats" },
#ifndef MC_VARIANT_nofork
    { "faults", s_faults, MC_QT, 6, 2, 5, 0, "2 suites; fork failures, interrupted waits, foreign children, failing cases: up to 2 (thorough 5) together at every point" },
    { "lost", s_faults, MC_QT, 6, 1, 4, 1, "the same with children reaped by someone else" },
#endif
    { "interrupts", s_intr, MC_QT, 6, 2, 5, 0, "a termination signal at every point: inside waits, between steps, inside a case" },
    { "interrupts-eintr", s_intr, MC_T, 6, 2, 5, 1, "the same together with interrupted waits" },
    { "duplicates", s_dups, MC_QT, 6, 1, 3, 0, "dependencies declared twice, on something missing, of something missing; names too long" },
    { "many", s_many, MC_QT, 3, 0, 0, 0, "31 to 65 cases against limits of 31, 32 (default) and 33, four shapes of dependency; one finish order" },
    { "reporters", s_reporters, MC_QT, 1, 0, 0, 0, "custom reporters: order of calls, each call failing in turn" },
    { "report-file", s_files, MC_QT, 4, 1, 3, 0, "report by option, by setter, to standard output; every failing file call" },
    { "messages", s_says, MC_QT, 1, 0, 0, 0, "messages of 1 to 2068 characters by each macro and the call" },
#ifndef MC_VARIANT_nofork
    { "options", s_options, MC_QT, 1, 0, 0, 0, "bad command lines" },
#endif
    { "elapsed", s_elapsed, MC_QT, 3, 0, 0, 0, "time spent under zones with odd offsets" },
    { 0 },
};
