// Bounded hash map caches: eviction policies.
#include "hmap_model.h"
const char *mc_property = "P10", *mc_level = "model_checking";
static void run_cache(void)
{
    memset(&g, 0, sizeof g);
    g.pcy = U_HMAP_PCY_FIFO + mc_choose(4); g.max = 1 + mc_choose(3);
    g.type = mc_choose(2); g.owns = mc_choose(2); g.overwrite = mc_choose(2);
    g.size = 1; g.hash = mc_choose(2); g.kt = 0; g.vt = 0; g.easy = g.owns && mc_choose(2);
    int K = g.max + 1, D = mc_tier ? (K == 4 ? 5 : 6) : K == 4 ? 4 : 5;
    hm_init(K);
    for (int d = 0; d < D; d++) {
        int o = mc_choose(3 * K);
        if (o < K) hm_put(o); else if (o < 2 * K) hm_get(o - K); else hm_del(o - 2 * K);
    }
    hm_close();
}
/* full caches of more entries: order kept through longer access patterns */
static void run_order(void)
{
    memset(&g, 0, sizeof g);
    g.pcy = U_HMAP_PCY_FIFO + mc_choose(4); g.max = 4; g.type = mc_choose(2); g.owns = mc_choose(2); g.overwrite = 1; g.size = 1; g.hash = 2 * mc_choose(2);
    hm_init(7);
    for (int i = 0; i < 4; i++) hm_put(i);
    int D = mc_tier ? 6 : 5;
    for (int d = 0; d < D; d++) { int o = mc_choose(8); if (o < 4) hm_get(o); else if (o < 6) hm_put(o - 4); else if (o == 6) hm_del(1); else hm_put(4); }
    hm_put(5); hm_put(6); hm_put(0); hm_put(1); hm_put(2);
    hm_close();
}
/* accesses while the cache fills, and many of them */
static void run_counts(void)
{
    static const int C[] = { 0, 1, 2, 3, 127, 128, 255, 256, 300 };
    memset(&g, 0, sizeof g);
    g.pcy = U_HMAP_PCY_FIFO + mc_choose(4); g.max = 2 + mc_choose(2); g.type = mc_choose(2); g.owns = mc_choose(2); g.overwrite = 1; g.size = 1;
    hm_init(g.max + 3);
    for (int i = 0; i < g.max; i++) { hm_put(i); int k = g.max == 2 || mc_tier ? 9 : 5; for (int c = C[mc_choose(k)]; c > 0; c--) hm_get(i); if (i) for (int c = mc_choose(3); c > 0; c--) hm_get(0); }
    hm_put(g.max); for (int c = mc_choose(4); c > 0; c--) hm_get(g.max);
    hm_put(g.max + 1); hm_put(g.max + 2); hm_put(0);
    hm_close();
}
/* maximum at, below and above the table size, every slot colliding */
static void run_full(void)
{
    memset(&g, 0, sizeof g);
    g.pcy = U_HMAP_PCY_FIFO + mc_choose(4); g.max = 11 + mc_choose(3); g.type = mc_choose(2); g.owns = mc_choose(2); g.size = 1; g.hash = mc_choose(3);
    g.overwrite = mc_choose(2);
    hm_init(g.max + 4);
    for (int i = 0; i < g.max; i++) hm_put(i);
    for (int d = 0; d < (mc_tier ? 4 : 3); d++) { int o = mc_choose(6); if (o < 3) hm_put(g.max + o); else if (o == 3) hm_del(5); else if (o == 4) hm_get(0); else hm_clear(); }
    hm_put(g.max + 3);
    hm_close();
}
/* two caches of different policies at the same time */
static void run_two(void)
{
    int D = mc_tier ? 5 : 4, K = 3, x = mc_choose(2) * 5, y = mc_choose(2) * 5, pcy = 16 + mc_choose(16); sw_begin(); SW(g); SW(h); SW(nkeys); sw_reg(m, 8 * sizeof *m); SW(now_); SW(nv); SW(nobjs); SW(nkrel); SW(nvrel); sw_reg(krel, 64 * sizeof *krel); sw_reg(vrel, 64 * sizeof *vrel); sw_reg(keyof, 64 * sizeof *keyof); sw_reg(objs, 64 * sizeof *objs);
    for (int w = 0; w < 2; w++) { int v = w ? y : x; sw_to(w); memset(&g, 0, sizeof g); g.type = v & 1; g.overwrite = v >> 1 & 1; g.owns = v >> 2; g.size = w ? 14 : 1; g.kt = pcy || v == 5 ? 0 : v % 3; g.hash = g.kt ? 2 : v & 1; if (pcy) { g.pcy = U_HMAP_PCY_FIFO + (w ? pcy / 4 % 4 : pcy % 4); g.max = 1 + w; g.overwrite = 1; } hm_init(K); hm_put(0); }
    for (int d = 0; d < D; d++) { int w = mc_choose(2), c = mc_choose(pcy ? 6 : 5); sw_to(w); if (c < 3) hm_put(c); else if (c == 5) hm_get(0); else if (c == 3) hm_del(0); else hm_clear(); sw_to(!w); hm_check("meanwhile"); }
    sw_to(0); hm_close(); sw_to(1); hm_check("the other one freed"); hm_put(1); hm_close();
}
const struct mc_scn mc_scns[] = {
    { "caches", run_cache, MC_QT, 5, 0, 0, 0, "all sequences of 4-5 (thorough 5-6) puts, gets and deletes over max+1 keys; FIFO/LRU/LFU/custom, max 1..3, chaining/linear, owned or not, overwrite or not, default or constant hash" },
    { "order", run_order, MC_QT, 5, 0, 0, 0, "4-entry caches: every sequence of 5 (thorough 6) accesses, then five insertions" },
    { "full-table", run_full, MC_QT, 5, 0, 0, 0, "caches whose maximum is near the table size (11..13 of 13 slots)" },
    { "two caches", run_two, MC_QT, 4, 0, 0, 0, "every history of 4 (5) operations on two caches of every pair of policies" },
    { "counts", run_counts, MC_QT, 5, 0, 0, 0, "2- and 3-entry caches accessed 0 to 300 times per entry while they fill and after evictions" },
    { 0 } };
