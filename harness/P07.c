// Priority queue against a multiset model.
#include "mc.h"
#include <u/libu.h>
#include "two.h"
#include <math.h>
const char *mc_property = "P07", *mc_level = "model_checking";
void mc_cleanup(void) {}
static const double keysets[3][4] = { { 0, 1, 2, 3 }, { -1.5, 0, 1e300, -1e300 }, { 1.0, 1.0000000000000002, -0.0, INFINITY } };
static const double *K;
static u_pq_t *q; static size_t cap, n; static struct { double k; void *v; } m[5200]; static char cell[12000]; static int nc;

static int quiet;
static void check(const char *op)
{
    if (quiet) return;
    MC_CHECK(!!u_pq_empty(q) == (n == 0), "empty", "%s: empty says %d with %zu entries", op, u_pq_empty(q), n);
    MC_CHECK(!!u_pq_full(q) == (n == cap), "full", "%s: full says %d with %zu of %zu", op, u_pq_full(q), n, cap);
    if (n) {
        double top = m[0].k, k = 12345; for (size_t i = 1; i < n; i++) if (m[i].k > top) top = m[i].k;
        void *v = u_pq_peekmax(q, &k); size_t i = 0;
        MC_CHECK(k == top, "peek-key", "%s: top key is %g, the greatest stored is %g", op, k, top);
        while (i < n && !(m[i].v == v && m[i].k == k)) i++;
        MC_CHECK(i < n, "peek-entry", "%s: top entry was not stored with key %g", op, k);
        MC_CHECK(u_pq_peekmax(q, NULL) == v, "peek-stable", "%s: peeking twice differs", op);
    }
}
static void push(double k, int nul)
{
    void *v = nul ? NULL : &cell[nc]; nc++;
    mc_op("push %g -> %d", k, nul ? -1 : nc - 1);
    int rc = u_pq_push(q, k, v);
    if (n == cap) MC_CHECK(rc == -2, "full-push", "push on a full queue returned %d", rc);
    else { MC_CHECK(rc == 0, "push", "push refused with %zu of %zu", n, cap); m[n].k = k; m[n++].v = v; }
    check("push");
}
static void pop(int wantk)
{
    double k = 777, top = 0; void *pk = n ? u_pq_peekmax(q, NULL) : NULL, *v = u_pq_delmax(q, wantk ? &k : NULL);
    mc_op("pop");
    if (n == 0) { MC_CHECK(v == NULL && (!wantk || k == 777), "pop-empty", "pop of an empty queue returned something"); check("pop"); return; }
    top = m[0].k; for (size_t i = 1; i < n; i++) if (m[i].k > top) top = m[i].k;
    if (wantk) MC_CHECK(k == top, "pop-key", "popped key %g, greatest is %g", k, top);
    MC_CHECK(v == pk, "pop-peek", "pop returned another entry than peek");
    size_t i = 0; while (i < n && !(m[i].v == v && m[i].k == top)) i++;
    MC_CHECK(i < n, "pop-entry", "popped an entry not stored with the greatest key %g", top);
    m[i] = m[--n]; check("pop");
}
static void start(size_t c) { cap = c; n = 0; nc = 0; q = NULL; mc_note("capacity %zu", c); MC_CHECK(u_pq_create(c, &q) == 0 && q, "create", "create failed"); check("create"); }
static void finish(void)
{
    uint64_t h = mc_h64(cap, n); double last = INFINITY;
    while (n) { double k; k = m[0].k; for (size_t i = 1; i < n; i++) if (m[i].k > k) k = m[i].k; MC_CHECK(k <= last, "order", "order"); last = k; h = mc_hash(h, &k, sizeof k); pop(1); }
    pop(1); mc_outcome(h); u_pq_free(q);
}
static void seqs(void)
{
    K = keysets[mc_choose(3)];
    start(2 + (size_t)mc_choose(4));
    int depth = mc_tier ? 9 : 7;
    for (int d = 0; d < depth; d++) { int c = mc_choose(5); if (c < 4) push(K[c], c == 2 && (d & 1)); else pop(d & 1); mc_state(mc_h64(mc_h64(cap, n), c)); }
    finish();
}
static void heaps(void)     /* fill to any shape, pop some, push, drain */
{
    K = keysets[0];
    int N = mc_tier ? 9 : 7; start((size_t)N + (size_t)mc_choose(2));
    for (int i = 0; i < N; i++) push(K[mc_choose(4)], 0);
    int p = mc_choose(4); for (int i = 0; i < p; i++) pop(1);
    push(K[mc_choose(4)], 0); finish();
}
static void perms(void)     /* all orders of distinct keys */
{
    int N = mc_tier ? 9 : 8; char used[16] = { 0 }; start((size_t)N);
    for (int i = 0; i < N; i++) { int r = mc_choose(N - i), k = 0; while (used[k] || r--) k++; used[k] = 1; push(k, 0); }
    push(3.5, 0); finish();
}
static void big(void)
{
    int how = mc_choose(6); size_t N = 60; start(N);
    for (size_t i = 0; i < N; i++) push(how == 0 ? (double)i : how == 1 ? -(double)i : how == 2 ? (double)(i * 37 % 61) : how == 3 ? (double)(i & 3) : how == 4 ? (double)(i * i % 53) : 5.0, 0);
    for (int i = 0; i < 30; i++) { pop(1); if (i % 3 == 0) push(i % 7, 0); }
    finish();
}
/* large heaps, judged by count and order (keys distinct, so that the entry is determined) */
static void scale(void)
{
    static const int N[] = { 61, 130, 257, 513, 1025, 2050, 5000 }; int N0 = N[mc_choose(7)], how = mc_choose(6), i, k = 0; static char got[20000]; memset(got, 0, sizeof got); double key; char *base = cell; static double of[12000];
    mc_op("%d entries in arrangement %d", N0, how); MC_CHECK(u_pq_create(N0, &q) == 0, "create", "failed"); 
    for (i = 0; i < N0; i++, k++) { of[k] = how == 0 ? i : how == 1 ? -i : how == 2 ? (double)((long)i * 7919 % 10007) : how == 3 ? 1e9 + i / 1024. : how == 4 ? (i & 1 ? i : -i) : 1 + i * 1e-12; MC_CHECK(!u_pq_full(q), "full", "full with %d of %d", i, N0); MC_CHECK(u_pq_push(q, of[k], base + k) == 0, "push", "refused with %d of %d", i, N0); }
    MC_CHECK(u_pq_full(q) && u_pq_push(q, 1, NULL) == -2, "full", "not full with %d of %d", N0, N0);
    double last = INFINITY; for (i = 0; i < N0 / 2; i++) { char *v = u_pq_delmax(q, &key); MC_CHECK(v >= base && v < base + k && !got[v - base] && of[v - base] == key, "pop-entry", "pop %d is not an entry stored with key %g", i, key); MC_CHECK(key < last, "order", "pop %d: key %g after %g", i, key, last); last = key; got[v - base] = 1; }
    for (i = 0; i < N0 / 2; i++, k++) { of[k] = last + 1 + (i * 31 % 8191) + i * 1e-6; MC_CHECK(u_pq_push(q, of[k], base + k) == 0, "push", "refused"); } last = INFINITY;
    for (i = 0; i < N0; i++) { char *v = u_pq_delmax(q, &key); MC_CHECK(v >= base && v < base + k && !got[v - base] && of[v - base] == key, "pop-entry", "pop %d is not an entry stored with key %g", i, key); MC_CHECK(key < last, "order", "pop %d: key %g after %g", i, key, last); last = key; got[v - base] = 1; }
    MC_CHECK(u_pq_empty(q) && !u_pq_delmax(q, NULL), "empty", "entries left"); u_pq_free(q); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(N0, how));
}
static void refused(void)
{
    u_pq_t *x = NULL; mc_op("refused");
    MC_CHECK(u_pq_create(0, &x) != 0 && u_pq_create(1, &x) != 0 && u_pq_create(4, NULL) != 0, "create-bad", "bad creation accepted");
    MC_CHECK(u_pq_push(NULL, 1, NULL) == -1 && u_pq_delmax(NULL, NULL) == NULL, "null", "NULL accepted"); u_pq_free(NULL);
}
/* two queues at the same time */
static void two(void)
{
    int D = mc_tier ? 7 : 6; K = keysets[mc_choose(2)]; sw_begin(); SW(q); SW(cap); SW(n); SW(nc); sw_reg(m, 16 * sizeof *m); size_t c0 = 2 + (size_t)mc_choose(2), c1 = 2 + (size_t)mc_choose(2) * 2;
    for (int w = 0; w < 2; w++) { sw_to(w); start(w ? c1 : c0); nc = 6000 * w; } sw_to(0); push(K[1], 0); sw_to(1); push(K[2], 0);
    for (int d = 0; d < D; d++) { int c = mc_choose(8), w = c & 1; sw_to(w); c >>= 1; if (c < 3) push(K[c + (c && w)], 0); else pop(1); sw_to(!w); check("meanwhile"); }
    sw_to(0); finish(); sw_to(1); check("the other one freed"); finish(); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void sparse(void)
{
    int D = mc_tier ? 8 : 7; K = keysets[mc_choose(3)]; quiet = 0; start(2 + (size_t)mc_choose(3)); quiet = 1;
    for (int d = 0; d < D; d++) {
        int o = mc_choose(6); double k = 777, top = -INFINITY; void *v; size_t i = 0; for (size_t j = 0; j < n; j++) if (m[j].k > top) top = m[j].k;
        if (o < 3) { push(K[o], 0); continue; }
        if (o == 5) { mc_op("full?"); MC_CHECK(!!u_pq_full(q) == (n == cap) && !!u_pq_empty(q) == (n == 0), "full", "full says %d, empty says %d with %zu of %zu", u_pq_full(q), u_pq_empty(q), n, cap); continue; }
        mc_op(o == 3 ? "pop" : "peek"); if (!n && o == 4) mc_discard(); v = o == 3 ? u_pq_delmax(q, &k) : u_pq_peekmax(q, &k); if (!n) { MC_CHECK(!v && k == 777, "pop-empty", "something"); continue; }
        while (i < n && !(m[i].v == v && m[i].k == k)) i++; MC_CHECK(k == top && i < n, "pop-entry", "key %g, the greatest is %g", k, top); if (o == 3) m[i] = m[--n];
    }
    quiet = 0; check("end"); finish();
}
const struct mc_scn mc_scns[] = {
    { "seqs", seqs, MC_QT, 4, 0, 0, 0, "capacities 2..5, 3 key sets of 4 values (ties, huge, negative, infinite), all push/pop sequences to depth 7 (9), then drained" },
    { "heaps", heaps, MC_QT, 4, 0, 0, 0, "all 7 (9) pushes over 4 key values, 0..3 pops, one more push, drain" },
    { "perms", perms, MC_QT, 3, 0, 0, 0, "all orders of 8 (9) distinct keys" },
    { "two queues", two, MC_QT, 4, 0, 0, 0, "every history of 6 (7) pushes and pops on two queues of 2 to 4 entries" },
    { "sparse", sparse, MC_QT, 4, 0, 0, 0, "every history of 7 (8) pushes, pops and looks, nothing else looked at in between" },
    { "big", big, MC_QT, 1, 0, 0, 0, "60-entry heaps in 6 patterns" },
    { "scale", scale, MC_QT, 1, 0, 0, 0, "61 to 5000 entries in 6 arrangements (close, far and large keys), half drained, refilled, drained" },
    { "refused", refused, MC_QT, 0, 0, 0, 0, "NULL and tiny arguments" },
    { 0 }
};
