// Self-test of the engine: programs with known numbers of executions and known faults (see check.py --selftest).
#include "mc.h"
const char *mc_property = "SELF", *mc_level = "model_checking";
static int x, y;
/* two threads of n steps each: C(2n, n) interleavings */
static void s_inter(void) { int a = 0, b = 0, n = 6; while (a < n || b < n) { int t = a == n ? 1 : b == n ? 0 : mc_choose(2); if (t) b++; else a++; mc_op("%d", t); } mc_outcome(1); }
static void s_product(void) { mc_choose(3); mc_choose(4); mc_choose(5); mc_outcome(2); }
static void s_dev(void) { for (int i = 0; i < 10; i++) mc_dev(2); mc_outcome(3); } /* at most 2 of 10: 1 + 10 + 45 */
static void s_discard(void) { int a = mc_choose(6); if (a % 2) mc_discard(); mc_outcome(4); }
static void s_lost(void) { x = 0; int pc[2] = { 0, 0 }, r[2]; for (int i = 0; i < 4; i++) { int t = pc[0] == 2 ? 1 : pc[1] == 2 ? 0 : mc_choose(2); mc_op("%d", t); if (pc[t]++ == 0) r[t] = x; else x = r[t] + 1; } MC_CHECK(x == 2, "lost-update", "x is %d", x); }
static void s_rare(void) { int ok = 1; for (int i = 0; i < 8; i++) ok &= mc_choose(4) == 3; MC_CHECK(!ok, "rare", "one execution in 65536"); }
static void s_overflow(void) { volatile char *p = malloc(8); if (mc_choose(9) == 8) p[8] = 1; free((void *)p); }
static void s_uaf(void) { volatile char *p = malloc(8); int d = mc_choose(2); if (d) free((void *)p); y = p[0]; if (!d) free((void *)p); }
static void s_double(void) { void *p = mc_malloc(8); mc_free(p); if (mc_choose(2)) mc_free(p); }
static void s_oom(void) { mc_oom = 1; void *p[3]; int n = 0; for (int i = 0; i < 3; i++) if ((p[n] = mc_malloc(5))) n++; while (n) mc_free(p[--n]); mc_oom = 0; mc_outcome(5); } /* 1 + 3 */
static void s_crash(void) { if (mc_choose(3) == 2) *(volatile int *)0 = 1; }
static void s_prune(void) { int a = 0; for (int i = 0; i < 20; i++) { mc_prune(mc_h64(1, a), 20 - i); a += mc_choose(2); a %= 5; mc_state(a); } mc_outcome(6); }
/* fails once, in the worker that explores it, and never again */
static int seen_all;
static void s_once(void) { int c = mc_choose(50); if (c == 20) seen_all = 1; if (c == 49 && seen_all) mc_fail("once", "depends on an earlier execution"); }
static void s_oncecrash(void) { int c = mc_choose(50); if (c == 20) seen_all = 1; if (c == 49 && seen_all) *(volatile int *)0 = 1; }
void mc_cleanup(void) { mc_oom = 0; }
const struct mc_scn mc_scns[] = {
    { "ok-inter", s_inter, MC_QT, 3, 0, 0, 0, "924" }, { "ok-product", s_product, MC_QT, 2, 0, 0, 0, "60" }, { "ok-dev", s_dev, MC_QT, 2, 2, 2, 0, "56" }, { "ok-discard", s_discard, MC_QT, 1, 0, 0, 0, "3" }, { "ok-oom", s_oom, MC_QT, 1, 1, 1, 0, "4" },
    { "ok-prune", s_prune, MC_QT, 0, 0, 0, 0, "" },
    { "bad-lost", s_lost, MC_QT, 1, 0, 0, 0, "lost-update" }, { "bad-rare", s_rare, MC_QT, 2, 0, 0, 0, "rare" }, { "bad-overflow", s_overflow, MC_QT, 1, 0, 0, 0, "" }, { "bad-uaf", s_uaf, MC_QT, 1, 0, 0, 0, "" }, { "bad-double", s_double, MC_QT, 1, 0, 0, 0, "" }, { "bad-crash", s_crash, MC_QT, 1, 0, 0, 0, "" }, 
    { "bad-once", s_once, MC_QT, 0, 0, 0, 0, "" }, { "bad-oncecrash", s_oncecrash, MC_QT, 0, 0, 0, 0, "" }, 
    { 0 } };
