// Pointer lists against an array model.
#include "mc.h"
#include <u/libu.h>
#include "two.h"
const char *mc_property = "P06", *mc_level = "model_checking";
static u_list_t *l; static void *m[4200]; static size_t n; static char cell[8];
void mc_cleanup(void) {}
static int ix(void *p) { return p == NULL ? -1 : (int)((char *)p - cell); }

static int quiet;
static void check(const char *op)
{
    if (quiet) return;
    MC_CHECK(u_list_count(l) == n, "count", "%s: count %zu, expected %zu", op, u_list_count(l), n);
    for (size_t i = 0; i < n; i++) MC_CHECK(u_list_get_n(l, i) == m[i], "get-n", "%s: element %zu is %d, expected %d", op, i, ix(u_list_get_n(l, i)), ix(m[i]));
    for (size_t i = n; i < n + 3; i++) MC_CHECK(u_list_get_n(l, i) == NULL, "get-past", "%s: an element past the end (%zu of %zu) exists", op, i, n);
    void *it = &it; size_t k = 0;
    for (void *p = u_list_first(l, &it); p; p = u_list_next(l, &it)) {
        MC_CHECK(k < n && p == m[k], "iterate", "%s: iteration step %zu gives %d", op, k, ix(p)); k++;
    }
    MC_CHECK(k == n, "iterate-count", "%s: iteration visits %zu of %zu", op, k, n);
    MC_CHECK(u_list_next(l, &it) == NULL, "iterate-end", "%s: iteration continues past its end", op);
    MC_CHECK(u_list_first(l, NULL) == (n ? m[0] : NULL), "first", "%s: first is wrong", op);
    void *p; size_t i; k = 0;
    u_list_foreach(l, p, it) { MC_CHECK(k < n && p == m[k], "foreach", "%s: foreach step %zu", op, k); k++; }
    MC_CHECK(k == n, "foreach", "%s: foreach visits %zu of %zu", op, k, n);
    k = 0; u_list_iforeach(l, p, it, i) { MC_CHECK(i == k && k < n && p == m[k], "iforeach", "%s: indexed foreach step %zu", op, k); k++; }
    MC_CHECK(k == n, "iforeach", "%s: indexed foreach visits %zu of %zu", op, k, n);
    uint64_t h = n; for (size_t j = 0; j < n; j++) h = mc_h64(h, (uint64_t)ix(m[j]));
    mc_state(h);
}
static void ins(size_t at, void *p) { memmove(m + at + 1, m + at, (n - at) * sizeof *m); m[at] = p; n++; }
static void del(size_t at) { memmove(m + at, m + at + 1, (n - at - 1) * sizeof *m); n--; }
static void run(void)
{
    int nv = mc_arg() ? 2 : 3, depth = mc_arg() ? (mc_tier ? 8 : 6) : (mc_tier ? 5 : 4);
    size_t pre = mc_arg() ? 0 : (size_t)mc_choose(4);
    n = 0; l = NULL; MC_CHECK(u_list_create(&l) == 0 && l, "create", "create failed"); check("create");
    for (size_t i = 0; i < pre; i++) { MC_CHECK(u_list_add(l, &cell[i % (size_t)nv]) == 0, "add", "add failed"); ins(n, &cell[i % (size_t)nv]); }
    check("prefill");
    for (int d = 0; d < depth; d++) {
        int na = nv, nins = (int)(n + 2) * nv, ndel = nv + 1, ndn = (int)n + 1;
        if (mc_arg()) { na = nv; nins = nv * 2; ndn = n ? 2 : 1; }
        int c = mc_choose(na + nins + ndel + ndn + 1 + 1);
        if (c < na) { mc_op("add %d", c); MC_CHECK(u_list_add(l, &cell[c]) == 0, "add", "add refused"); ins(n, &cell[c]); check("add"); continue; }
        c -= na;
        if (c < nins) { size_t at = mc_arg() ? (c / nv ? n / 2 : 0) : (size_t)(c / nv); int v = c % nv; mc_op("insert %d at %zu of %zu", v, at, n);
            int rc = u_list_insert(l, &cell[v], at);
            if (at > n) MC_CHECK(rc != 0, "insert-past", "insert at %zu of %zu accepted", at, n); else { MC_CHECK(rc == 0, "insert", "insert at %zu of %zu refused", at, n); ins(at, &cell[v]); }
            check("insert"); continue; }
        c -= nins;
        if (c < ndel) { void *v = c < nv ? (void *)&cell[c] : (void *)&cell[7]; mc_op("delete value %d", ix(v));
            size_t at = 0; while (at < n && m[at] != v) at++;
            int rc = u_list_del(l, v);
            if (at == n) MC_CHECK(rc != 0, "del-absent", "deleting an absent element succeeded"); else { MC_CHECK(rc == 0, "del", "delete failed"); del(at); }
            check("del"); continue; }
        c -= ndel;
        if (c < ndn) { size_t at = mc_arg() ? (c == 0 ? n - 1 : 0) : (size_t)c; if (mc_arg() && n == 0) at = 0; void *got = &got; mc_op("delete position %zu of %zu", at, n);
            int rc = u_list_del_n(l, at, (c & 1) ? NULL : &got);
            if (at >= n) MC_CHECK(rc != 0, "deln-past", "deleting position %zu of %zu succeeded", at, n);
            else { MC_CHECK(rc == 0, "deln", "delete position failed"); if (!(c & 1)) MC_CHECK(got == m[at], "deln-value", "deleting position %zu handed back %d", at, ix(got)); del(at); }
            check("del-n"); continue; }
        c -= ndn;
        if (c == 0) { mc_op("clear"); MC_CHECK(u_list_clear(l) == 0, "clear", "clear failed"); n = 0; check("clear"); continue; }
        /* iterate, deleting every element of the first kind through the iterator idiom */
        mc_op("iterate and delete value 0");
        if (nv > 0) { void *it, *p; for (p = u_list_first(l, &it); p; p = u_list_next(l, &it)) if (p == &cell[0]) MC_CHECK(u_list_del(l, p) == 0, "iter-del", "delete while iterating failed");
            size_t k = 0; for (size_t i = 0; i < n; i++) if (m[i] != &cell[0]) m[k++] = m[i]; n = k; check("iterate-delete"); }
    }
    uint64_t h = 1; for (size_t j = 0; j < n; j++) h = mc_h64(h, (uint64_t)ix(m[j]));
    mc_outcome(h); u_list_free(l);
}
/* lists of many distinct elements */
static void scale(void)
{
    static char pool[4200]; static const size_t N[] = { 10, 40, 129, 300, 1030, 4100 }; size_t k = N[mc_choose(6)], at, i; int how = mc_choose(4), dels = mc_choose(4); void *got; n = 0;
    mc_op("%zu elements, built %s, then deletions of kind %d", k, how == 0 ? "by adding" : how == 1 ? "at the head" : how == 2 ? "in the middle" : "at positions all over", dels);
    if (k > 1100 && (how == 3 || dels == 3) && !mc_tier) mc_discard();
    MC_CHECK(u_list_create(&l) == 0, "create", "failed");
    for (i = 0; i < k; i++) { at = how == 0 ? n : how == 1 ? 0 : how == 2 ? n / 2 : (i * 37) % (n + 1); MC_CHECK((how ? u_list_insert(l, pool + i, at) : u_list_add(l, pool + i)) == 0, "insert", "insert at %zu of %zu refused", at, n); ins(at, pool + i); if (k < 200) check("insert"); }
    check("built");
    for (i = 0; n && i < k - 3; i++) {
        if (dels == 0) { at = n - 1; got = NULL; MC_CHECK(u_list_del_n(l, at, &got) == 0 && got == m[at], "deln", "position %zu of %zu", at, n); }
        else if (dels == 1) { at = n / 2; got = NULL; MC_CHECK(u_list_del_n(l, at, &got) == 0 && got == m[at], "deln", "position %zu of %zu", at, n); }
        else if (dels == 2) { at = 0; MC_CHECK(u_list_del(l, m[0]) == 0, "del", "failed"); }
        else { at = (i * 61) % n; MC_CHECK(u_list_del(l, m[at]) == 0, "del", "failed"); }
        del(at); if (k < 200 || i % 97 == 0) check("delete");
    }
    check("deleted"); MC_CHECK(u_list_add(l, pool) == 0, "add", "failed"); ins(n, pool); check("add"); u_list_free(l); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* elements that differ in one byte of the pointer only; and the null pointer, which the list stores like any other */
static void values(void)
{
    int b = mc_choose(7), z = mc_choose(2); void *v[3]; v[0] = (void *)0x0101010101010101; v[1] = (void *)(0x0101010101010101 ^ ((uintptr_t)2 << 8 * b)); v[2] = z ? NULL : (void *)8; n = 0; MC_CHECK(u_list_create(&l) == 0, "create", "failed");
    for (int i = 0; i < 6; i++) { int c = mc_choose(4); if (c == 3) break; MC_CHECK(u_list_add(l, v[c]) == 0, "add", "failed"); ins(n, v[c]); }
    int d = mc_choose(3); size_t at = 0; while (at < n && m[at] != v[d]) at++; mc_op("%zu elements differing in byte %d, delete kind %d", n, b, d); int rc = u_list_del(l, v[d]); MC_CHECK((rc == 0) == (at < n), "del", "deleting a%s element: %d", at < n ? "" : "n absent", rc); if (at < n) del(at);
    MC_CHECK(u_list_count(l) == n, "count", "count %zu, expected %zu", u_list_count(l), n); for (size_t i = 0; i < n; i++) MC_CHECK(u_list_get_n(l, i) == m[i], "get-n", "element %zu", i); u_list_free(l); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* two lists at the same time */
static void two(void)
{
    int D = mc_tier ? 5 : 4; sw_begin(); SW(l); SW(n); sw_reg(m, 16 * sizeof *m);
    for (int w = 0; w < 2; w++) { sw_to(w); n = 0; l = NULL; MC_CHECK(u_list_create(&l) == 0 && l, "create", "create failed"); for (int i = 0; i < 2 * w; i++) { MC_CHECK(u_list_add(l, &cell[i]) == 0, "add", "add failed"); ins(n, &cell[i]); } check("create"); }
    for (int d = 0; d < D; d++) {
        int c = mc_choose(12), v = mc_choose(2), w = c & 1; void *p = &cell[v]; sw_to(w); if (c > 7 && v) mc_discard();
        switch (c >> 1) {
        case 0: mc_op("add %d", v); MC_CHECK(u_list_add(l, p) == 0, "add", "add refused"); ins(n, p); break;
        case 1: mc_op("insert %d at the head", v); MC_CHECK(u_list_insert(l, p, 0) == 0, "insert", "insert refused"); ins(0, p); break;
        case 2: { size_t at = 0; while (at < n && m[at] != p) at++; mc_op("delete value %d", v); int rc = u_list_del(l, p); MC_CHECK((rc == 0) == (at < n), "del", "delete: %d", rc); if (at < n) del(at); break; }
        case 3: { size_t at = v ? n - 1 : n; void *g = &g; mc_op("delete position %zu of %zu", at, n); int rc = u_list_del_n(l, at, &g); MC_CHECK((rc == 0) == (at < n), "deln", "delete position: %d", rc); if (at < n) { MC_CHECK(g == m[at], "deln-value", "another element"); del(at); } break; }
        case 4: mc_op("clear"); MC_CHECK(u_list_clear(l) == 0, "clear", "clear failed"); n = 0; break;
        default: mc_op("recreate"); u_list_free(l); l = NULL; n = 0; MC_CHECK(u_list_create(&l) == 0, "create", "create failed"); break;
        }
        check("step"); sw_to(!w); check("meanwhile");
        { void *a, *b, *pa, *pb; size_t k = 0; u_list_t *o = l; pb = u_list_first(o, &b); size_t no = n; static void *mo[16]; memcpy(mo, m, n * sizeof *m); sw_to(w); pa = u_list_first(l, &a);   /* two walks in step */
          for (; pa || pb; k++) { MC_CHECK(k < n ? pa == m[k] : !pa, "iterate", "walking both: step %zu", k); MC_CHECK(k < no ? pb == mo[k] : !pb, "iterate", "walking both: step %zu", k); if (pa) pa = u_list_next(l, &a); if (pb) pb = u_list_next(o, &b); } }
    }
    for (int w = 0; w < 2; w++) { sw_to(w); u_list_free(l); if (!w) { sw_to(1); check("the other one freed"); } } MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void sparse(void)
{
    int D = mc_tier ? 6 : 5, nc = 0; static char pool[64]; l = NULL; n = 0; quiet = 0; MC_CHECK(u_list_create(&l) == 0, "create", "create failed");
#define FILL() do { for (int i = 0; i < 3; i++) { void *p = &pool[nc++]; MC_CHECK(u_list_add(l, p) == 0, "add", "add refused"); ins(n, p); } } while (0)
    if (mc_choose(2)) FILL();
    for (int d = 0; d < D; d++) {
        void *p = &pool[nc], *g = &g; size_t at; int o = mc_choose(13);
        switch (o) {
        case 0: mc_op("add"); nc++; MC_CHECK(u_list_add(l, p) == 0, "add", "add refused"); ins(n, p); break;
        case 1: case 2: at = o == 1 ? 0 : n / 2; mc_op("insert at %zu of %zu", at, n); nc++; MC_CHECK(u_list_insert(l, p, at) == 0, "insert", "insert refused"); ins(at, p); break;
        case 3: mc_op("add three"); FILL(); break;
        case 4: case 5: case 6: at = o == 4 ? 0 : o == 5 ? n / 2 : n - 1; if (!n) mc_discard(); mc_op("delete position %zu of %zu", at, n); MC_CHECK(u_list_del_n(l, at, &g) == 0 && g == m[at], "deln", "delete position %zu of %zu", at, n); del(at); break;
        case 7: if (!n) mc_discard(); at = n / 2; mc_op("delete the value at %zu of %zu", at, n); MC_CHECK(u_list_del(l, m[at]) == 0, "del", "delete failed"); del(at); break;
        case 8: mc_op("clear"); MC_CHECK(u_list_clear(l) == 0, "clear", "clear failed"); n = 0; break;
        case 9: mc_op("recreate"); u_list_free(l); l = NULL; n = 0; MC_CHECK(u_list_create(&l) == 0, "create", "create failed"); break;
        default: at = o == 10 ? 0 : o == 11 ? n / 2 : n - 1; if (!n) mc_discard(); mc_op("get %zu of %zu", at, n); MC_CHECK(u_list_get_n(l, at) == m[at], "get-n", "element %zu of %zu", at, n); break;
        }
    }
    for (size_t i = n; i-- > 0;) MC_CHECK(u_list_get_n(l, i) == m[i], "get-n", "element %zu of %zu, from the end", i, n); check("end"); u_list_free(l); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
const struct mc_scn mc_scns[] = {
    { "run", run, MC_QT, 3, 0, 0, 0, "3 element values (repeats allowed), every position, 0..3 initial elements, all operation sequences to depth 4 (5)" },
    { "long", run, MC_QT, 4, 0, 0, 1, "2 element values, positions head/middle/tail, all operation sequences to depth 6 (8)" },
    { "scale", scale, MC_QT, 1, 0, 0, 0, "10 to 4100 distinct elements built in 4 ways and deleted in 4" },
    { "two lists", two, MC_QT, 4, 0, 0, 0, "every history of 4 (5) operations on two lists, walked in step" },
    { "sparse", sparse, MC_QT, 4, 0, 0, 0, "every history of 5 (6) of 13 edits and lookups, nothing else looked at in between" },
    { "values", values, MC_QT, 2, 0, 0, 0, "every list of up to 6 elements that differ in one byte of the pointer, null included, and a deletion" },
    { 0 }
};
