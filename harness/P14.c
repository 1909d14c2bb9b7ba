// JSON lookups and edits against a model tree.
#include "json_model.h"
#include "two.h"
const char *mc_property = "P14", *mc_level = "model_checking";

struct nd { int live, type, parent, first, last, next, prev; char key[300], val[32]; u_json_t *o; char fqn[2048]; };
static struct nd N[128]; static int nn; static int indexed; static u_json_t *root;
static void fqns(int i)
{
    int k = 0;
    for (int c = N[i].first; c >= 0; c = N[c].next, k++) {
        if (N[i].type == JA) snprintf(N[c].fqn, sizeof N[c].fqn, "%s[%d]", N[i].fqn, k); else snprintf(N[c].fqn, sizeof N[c].fqn, "%s.%s", N[i].fqn, N[c].key);
        fqns(c);
    }
}
/* first element in document order with this path */
static int bypath(int i, const char *p)
{
    if (!strcmp(N[i].fqn, p)) return i;
    for (int c = N[i].first; c >= 0; c = N[c].next) { int r = bypath(c, p); if (r >= 0) return r; }
    return -1;
}
static void bindn(int i, u_json_t *o)
{
    N[i].o = o;
    if (N[i].type != JA && N[i].type != JO) return;
    u_json_it_t it; u_json_it(u_json_child_first(o), &it);
    for (int c = N[i].first; c >= 0; c = N[c].next) { u_json_t *x = u_json_it_next(&it); MC_CHECK(x, "children", "an element is missing"); bindn(c, x); }
}
static u_json_t *expect(const char *p) { int r = strlen(p) < U_JSON_FQN_SZ ? bypath(0, p) : -1; return r < 0 ? NULL : N[r].o; }
static void check_node(int i, const char *op)
{
    u_json_t *o = N[i].o; const char *v = u_json_get_val(o); u_json_it_t it; int k = 0; long l; char b;
    if (N[i].type == JA || N[i].type == JO) {
        MC_CHECK(v == NULL, "value", "%s: a container has a value", op);
        u_json_it(u_json_child_first(o), &it);
        for (int c = N[i].first; c >= 0; c = N[c].next, k++) {
            MC_CHECK(u_json_it_next(&it) == N[c].o, "iterate", "%s: forward iteration of %s goes wrong at child %d", op, N[i].fqn, k);
            if (N[i].type == JA) MC_CHECK(u_json_array_get_nth(o, (unsigned)k) == N[c].o, "nth", "%s: element %d of %s is another one (%s)", op, k, N[i].fqn, indexed ? "indexed" : "not indexed");
        }
        MC_CHECK(u_json_it_next(&it) == NULL, "iterate", "%s: forward iteration of %s does not end", op, N[i].fqn);
        u_json_it(u_json_child_last(o), &it);
        for (int c = N[i].last; c >= 0; c = N[c].prev) MC_CHECK(u_json_it_prev(&it) == N[c].o, "iterate-back", "%s: backward iteration of %s goes wrong", op, N[i].fqn);
        MC_CHECK(u_json_it_prev(&it) == NULL, "iterate-back", "%s: backward iteration of %s does not end", op, N[i].fqn);
        if (N[i].type == JA) {
            MC_CHECK((int)u_json_array_count(o) == k, "array-count", "%s: %s counts %u of %d", op, N[i].fqn, u_json_array_count(o), k);
            for (int e = k; e < k + 2; e++) MC_CHECK(u_json_array_get_nth(o, (unsigned)e) == NULL, "nth-past", "%s: element %d of %d exists", op, e, k);
        } else MC_CHECK(u_json_array_get_nth(o, 0) == NULL && u_json_array_count(o) == 0, "nth-object", "%s: an object has array elements", op);
        for (int c = N[i].first; c >= 0; c = N[c].next) check_node(c, op);
    } else {
        MC_CHECK(v && !strcmp(v, N[i].val), "value", "%s: %s is %s, expected %s", op, N[i].fqn, v ? v : "NULL", N[i].val);
        int rc = u_json_get_int(o, &l);
        if (N[i].type == JN) MC_CHECK(rc == 0 && l == atol(N[i].val), "int", "%s: %s reads as %ld", op, N[i].fqn, l); else MC_CHECK(rc != 0, "int", "%s: a non-number reads as a number", op);
        rc = u_json_get_bool(o, &b);
        if (N[i].type == JT || N[i].type == JF) MC_CHECK(rc == 0 && b == (N[i].type == JT), "bool", "%s: boolean is wrong", op); else MC_CHECK(rc != 0, "bool", "%s: a non-boolean reads as one", op);
    }
    /* paths, absolute and relative, from every element */
    static const char *rel[] = { ".", ".a", "[0]", "[1]", "..a", "..b", "..a[0]", "..a.a", ".[0]", ".[1]", ".[0].a", ".[0][0]", "", "..", "..a[0][0]", ".b[1]", "..a[1]" };
    for (int q = 0; q < (int)(sizeof rel / sizeof *rel); q++) {
        u_json_t *got = u_json_cache_get(o, rel[q]), *want = NULL;
        if (indexed) {
            want = expect(rel[q]);
            if (!want && N[i].parent >= 0) { char f[4096]; snprintf(f, sizeof f, "%s%s", N[i].fqn, rel[q]); want = expect(f); }
        }
        MC_CHECK(got == want, "path", "%s: path \"%s\" from %s finds %s", op, rel[q], N[i].fqn, got ? want ? "another element" : "an element that is not there" : "nothing");
        if (want) { const char *x = u_json_cache_get_val(o, rel[q]); MC_CHECK(x == u_json_get_val(want) || (x && !strcmp(x, u_json_get_val(want))), "path-value", "%s: value by path differs", op);
            int w = -1; for (int j = 0; j < nn; j++) if (N[j].live && N[j].o == want) w = j;
            long ll = -7; char bb = 9; double dd; int irc = u_json_cache_get_int(o, rel[q], &ll), brc = u_json_cache_get_bool(o, rel[q], &bb), drc = u_json_cache_get_real(o, rel[q], &dd);
            MC_CHECK((irc == 0) == (N[w].type == JN) && (drc == 0) == (N[w].type == JN) && (brc == 0) == (N[w].type == JT || N[w].type == JF), "path-typed", "%s: typed access by path differs from the element's type", op);
            if (irc == 0) MC_CHECK(ll == atol(N[w].val) && dd == atof(N[w].val), "path-typed", "%s: number by path differs", op); }
    }
    u_json_t *self = u_json_cache_get(root, N[i].fqn);
    MC_CHECK(self == (indexed ? expect(N[i].fqn) : NULL), "path-own", "%s: %s is not found under its own path", op, N[i].fqn);
}
static int quiet;
static void check(const char *op) { if (quiet) { strcpy(N[0].fqn, "."); fqns(0); return; } strcpy(N[0].fqn, "."); fqns(0); check_node(0, op); uint64_t h = mc_hs(indexed, "s"); for (int i = 0; i < nn; i++) if (N[i].live) h = mc_hs(mc_hs(mc_h64(h, N[i].type), N[i].fqn), N[i].val); mc_state(h); }

static int addn(int parent, int type, const char *key, const char *val)
{
    int i = nn++; struct nd *x = &N[i]; memset(x, 0, sizeof *x); x->live = 1; x->type = type; x->parent = parent; x->first = x->last = x->next = x->prev = -1; strcpy(x->key, key); strcpy(x->val, val);
    if (parent >= 0) { x->prev = N[parent].last; if (x->prev >= 0) N[x->prev].next = i; else N[parent].first = i; N[parent].last = i; }
    return i;
}
static void kill_(int i) { for (int c = N[i].first; c >= 0; c = N[c].next) kill_(c); N[i].live = 0; }
static void load(const char *t)
{
    nn = 0; indexed = 0; root = NULL;
    MC_CHECK(jparse(t, 16), "harness", "bad text %s", t);
    for (int i = 0; i < jcount; i++) { char k[300], v[32]; snprintf(k, sizeof k, "%.*s", J[i].keyl, J[i].key); snprintf(v, sizeof v, "%.*s", J[i].vall, J[i].val); addn(J[i].parent, J[i].type, k, J[i].type == JT ? "true" : J[i].type == JF ? "false" : J[i].type == JZ ? "null" : v); }
    mc_op("decode %s", mc_escs(t));
    MC_CHECK(u_json_decode(t, &root) == 0, "decode", "cannot decode %s", t);
    bindn(0, root); check("decode");
}
static int live_nth(int k) { for (int i = 0; i < nn; i++) if (N[i].live && k-- == 0) return i; return -1; }
static int nlive(void) { int n = 0; for (int i = 0; i < nn; i++) n += N[i].live; return n; }
static const char *akey[] = { "a", "b" };
static void do_op(void)
{
    int o = mc_choose(6), n = nlive(), rc, i;
    if (o == 0) { mc_op("index"); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); }
    else if (o == 1) { i = live_nth(mc_choose(n > 2 ? 3 : n)); mc_op("unindex from %s", N[i].fqn); MC_CHECK(u_json_unindex(N[i].o) == 0, "unindex", "removing the index failed"); indexed = 0; check("unindex"); }
    else if (o == 2) {
        if (n < 2) return;
        i = live_nth(1 + mc_choose(n - 1)); mc_op("remove %s", N[i].fqn); rc = u_json_remove(N[i].o);
        if (indexed) { MC_CHECK(rc != 0, "remove-indexed", "removal from an indexed tree succeeded"); check("refused remove"); return; }
        MC_CHECK(rc == 0, "remove", "removal failed");
        int p = N[i].parent; if (N[i].prev >= 0) N[N[i].prev].next = N[i].next; else N[p].first = N[i].next; if (N[i].next >= 0) N[N[i].next].prev = N[i].prev; else N[p].last = N[i].prev;
        kill_(i); check("remove");
    } else if (o == 3) {
        int k = 0, cs[64]; for (i = 0; i < nn; i++) if (N[i].live && (N[i].type == JA || N[i].type == JO)) cs[k++] = i;
        int p = cs[mc_choose(k)], kind = mc_choose(3), key = N[p].type == JO ? mc_choose(2) : 0; u_json_t *c = NULL;
        mc_op("add %s under %s", kind == 0 ? "number" : kind == 1 ? "array" : "object", N[p].fqn);
        rc = kind == 0 ? u_json_new_int(akey[key], 70 + nn, &c) : kind == 1 ? u_json_new_array(akey[key], &c) : u_json_new_object(akey[key], &c);
        MC_CHECK(rc == 0, "new", "creation failed"); rc = u_json_add(N[p].o, c);
        if (indexed) { MC_CHECK(rc != 0, "add-indexed", "addition to an indexed tree succeeded"); u_json_free(c); check("refused add"); return; }
        MC_CHECK(rc == 0, "add", "addition failed");
        char v[32]; sprintf(v, "%d", 70 + nn); i = addn(p, kind == 0 ? JN : kind == 1 ? JA : JO, akey[key], kind == 0 ? v : ""); N[i].o = c; check("add");
    } else if (o == 4) {
        static const struct { int t; const char *v; int mt; } tv[] = { { U_JSON_TYPE_UNKNOWN, "33", 0 }, { U_JSON_TYPE_STRING, "zz", JS }, { U_JSON_TYPE_NUMBER, "44", JN }, { U_JSON_TYPE_TRUE, NULL, JT }, { U_JSON_TYPE_NULL, NULL, JZ }, { U_JSON_TYPE_STRING, NULL, JS }, { U_JSON_TYPE_ARRAY, NULL, JA } };
        i = live_nth(mc_choose(n)); int k = mc_choose(7), from = mc_choose(2) ? i : 0; char f[2048]; strcpy(f, N[i].fqn); int w = indexed ? bypath(0, f) : -1;
        if (n < 1) return;
        mc_op("set %s to type %d value %s, from %s", f, tv[k].t, tv[k].v ? tv[k].v : "NULL", N[from].fqn); rc = u_json_cache_set_tv(N[from].o, f, tv[k].t, tv[k].v);
        int ok = w >= 0 && N[w].type != JA && N[w].type != JO && tv[k].t != U_JSON_TYPE_ARRAY;
        int nt = ok ? tv[k].mt ? tv[k].mt : N[w].type : 0; if (ok && (nt == JS || nt == JN) && !tv[k].v) ok = 0;
        MC_CHECK((rc == 0) == ok, "set-tv", "setting by path %s", rc ? "failed" : "succeeded");
        if (ok) { N[w].type = nt; strcpy(N[w].val, nt == JS || nt == JN ? tv[k].v : nt == JT ? "true" : nt == JF ? "false" : "null"); }
        check("set by path");
    } else {
        i = live_nth(mc_choose(n)); if (N[i].type != JS && N[i].type != JN) return;
        mc_op("set value of %s", N[i].fqn); MC_CHECK(u_json_set_val(N[i].o, "55") == 0, "set-val", "setting a value failed"); strcpy(N[i].val, "55"); check("set value");
    }
}
static void fin(void) { mc_op("destroy"); u_json_free(root); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); }
static const char *docs[] = { "{}", "[]", "[1,\"x\",true]", "{\"a\":[1,[2,3]],\"b\":{\"a\":null}}", "{\"a\":[1],\"a\":[2,3]}", "{\"a[0]\":5,\"a\":[6,7]}", "[[1,2],[],{\"a\":[0]}]", "{\"a.a\":1,\"a\":{\"a\":2}}", "{\"\":{\"\":1},\"b\":[{},{\"a\":false}]}", "[{\"a\":1},{\"a\":1,\"b\":2},[[4],5]]", "[0,1,2,3,4,5,6]" };
static void run_ops(void) { int k = mc_choose(11); load(docs[k]); int D = mc_tier ? k < 2 ? 4 : 3 : k < 3 ? 3 : 2; for (int d = 0; d < D; d++) do_op(); fin(); }
static void run_cycle(void) { int c = mc_choose(11); load(docs[c]); int k = mc_tier ? 2 : c < 3 ? 2 : 1; do_op(); mc_op("index"); u_json_unindex(root); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); for (int i = 0; i < k; i++) do_op(); fin(); }
/* generated shapes */
static char T[4096]; static int tn, budget;
static void gen(int depth)
{
    int c = mc_choose(depth ? 4 : 2);
    if (c < 2) { int n = 0; T[tn++] = "[{"[c]; while (budget > 0 && mc_choose(2)) { budget--; if (n++) T[tn++] = ','; if (c) tn += sprintf(T + tn, "\"%s\":", mc_choose(2) ? "a" : "b"); gen(depth + 1); } T[tn++] = "]}"[c]; }
    else tn += sprintf(T + tn, "%s", c == 2 ? "9" : "\"s\"");
    T[tn] = 0;
}
static void run_shapes(void) { tn = 0; budget = mc_tier ? 6 : 4; gen(0); load(T); mc_op("index"); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); u_json_unindex(root); indexed = 0; check("unindex"); MC_CHECK(u_json_index(root) == 0, "index", "indexing again failed"); indexed = 1; check("index again"); fin(); }
static void run_remove(void) { tn = 0; budget = mc_tier ? 5 : 4; gen(0); load(T); if (nlive() > 1) { int i = live_nth(1 + mc_choose(nlive() - 1)); mc_op("remove %s", N[i].fqn); MC_CHECK(u_json_remove(N[i].o) == 0, "remove", "removal failed"); int p = N[i].parent; if (N[i].prev >= 0) N[N[i].prev].next = N[i].next; else N[p].first = N[i].next; if (N[i].next >= 0) N[N[i].next].prev = N[i].prev; else N[p].last = N[i].prev; kill_(i); check("remove"); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); } fin(); }
static void run_arrays(void) { int n = mc_choose(41); tn = sprintf(T, "["); for (int i = 0; i < n; i++) tn += sprintf(T + tn, "%s%d", i ? "," : "", i * 3); strcpy(T + tn, "]"); load(T); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); fin(); }
/* large arrays, from text or built, plain or as an object's member */
static void run_large(void)
{
    static const int ns[] = { 0, 1, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 5000 }; int n = ns[mc_choose(mc_tier ? 20 : 17)], how = mc_choose(4), idx = mc_choose(2), ok = 1; u_json_t *top = NULL, *a = NULL, *c;
    mc_op("%d elements", n);
    if (how < 2) { char *t = malloc(n * 8 + 64); int l = sprintf(t, how ? "{\"b\":[" : "["); for (int i = 0; i < n; i++) l += sprintf(t + l, "%s%d", i ? "," : "", i * 3); strcpy(t + l, how ? "]}" : "]"); MC_CHECK(u_json_decode(t, &top) == 0, "decode", "refused"); free(t); a = how ? u_json_child_first(top) : top; }
    else { if (how == 3) ok = !u_json_new_object(NULL, &top) && !u_json_new_array("b", &a) && !u_json_add(top, a); else { ok = !u_json_new_array(NULL, &top); a = top; } for (int i = 0; i < n; i++) ok &= !u_json_new_int(NULL, i * 3, &c) && !u_json_add(a, c); MC_CHECK(ok, "build", "cannot build"); }
    u_json_t **E = malloc((n + 1) * sizeof *E); int k = 0; u_json_it_t it; u_json_it(u_json_child_first(a), &it); while ((c = u_json_it_next(&it))) { MC_CHECK(k < n, "iterate", "too many elements"); E[k++] = c; } MC_CHECK(k == n, "iterate", "%d of %d elements", k, n);
    if (idx) MC_CHECK(u_json_index(top) == 0, "index", "indexing failed");
    MC_CHECK((int)u_json_array_count(a) == n, "array-count", "%u of %d", u_json_array_count(a), n);
    u_json_it(u_json_child_last(a), &it); for (k = n - 1; k >= 0; k--) MC_CHECK(u_json_it_prev(&it) == E[k], "iterate-back", "element %d", k); MC_CHECK(u_json_it_prev(&it) == NULL, "iterate-back", "does not end");
    for (int i = 0; i < n + 3; i++) if (idx || n < 300 || i < 3 || i > n - 3 || i % 61 == 0) { char p[64], v[32]; c = u_json_array_get_nth(a, (unsigned)i); MC_CHECK(c == (i < n ? E[i] : NULL), "nth", "element %d of %d is wrong (%s)", i, n, idx ? "indexed" : "not indexed"); if (i < n) { sprintf(v, "%d", i * 3); MC_CHECK(!strcmp(u_json_get_val(c), v), "value", "element %d is %s", i, u_json_get_val(c)); } sprintf(p, how & 1 ? "..b[%d]" : ".[%d]", i); c = u_json_cache_get(top, p); MC_CHECK(c == (idx && i < n ? E[i] : NULL), "path", "%s", p); }
    free(E); root = top; fin(); mc_state(mc_h64(n, how * 2 + idx));
}
/* long key chains: paths beyond the internal name size */
static void run_long(void)
{
    int kl = 60 + mc_choose(60), d = 2 + mc_choose(3), arr = mc_choose(2); char t[8192]; int l = 0, i;
    for (i = 0; i < d; i++) { l += sprintf(t + l, "{\""); memset(t + l, 'a' + i, kl); l += kl; l += sprintf(t + l, "\":"); }
    l += sprintf(t + l, arr ? "[1,2,[3,4]]" : "{\"a\":1,\"b\":[2,3]}"); for (i = 0; i < d; i++) t[l++] = '}'; t[l] = 0;
    load(t); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); fin();
}
/* two trees at the same time, either indexed or not */
static void run_two(void)
{
    static const char *t[] = { "{\"a\":[1]}", "[{\"a\":2},3]", "{\"a\":{\"b\":\"x\"},\"b\":4}" }; int D = mc_tier ? 3 : 2, x = mc_choose(mc_tier ? 3 : 2), y = mc_choose(mc_tier ? 3 : 2), ix = mc_choose(4); sw_begin(); sw_reg(N, 10 * sizeof *N); SW(nn); SW(indexed); SW(root);
    for (int w = 0; w < 2; w++) { sw_to(w); load(t[w ? y : x]); if (ix >> w & 1) { mc_op("index"); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); } }
    for (int d = 0; d < D; d++) { int w = mc_choose(2); sw_to(w); do_op(); sw_to(!w); check("meanwhile"); }
    { u_json_it_t i[2]; int c[2]; u_json_t *p[2]; for (int w = 0; w < 2; w++) { sw_to(w); u_json_it(u_json_child_first(root), &i[w]); c[w] = N[0].first; }   /* two walks in step */
      do for (int w = 0; w < 2; w++) { sw_to(w); p[w] = u_json_it_next(&i[w]); MC_CHECK(p[w] == (c[w] < 0 ? NULL : N[c[w]].o), "iterate", "walking both: a wrong element of tree %d", w); if (c[w] >= 0) c[w] = N[c[w]].next; } while (p[0] || p[1]); }
    sw_to(0); u_json_free(root); sw_to(1); check("the other one freed"); fin();
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void run_sparse(void)
{
    static const char *t[] = { "{\"a\":[1,2],\"b\":3}", "[{\"a\":2},3]" }, *q[] = { "..a", "..b", "..a[0]", ".[0].a", ".[1]", "..a[1]" }; int D = mc_tier ? 6 : 5; quiet = 0; load(t[mc_choose(2)]); quiet = 1; if (mc_choose(2)) { MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); }
    for (int d = 0; d < D; d++) {
        int o = mc_choose(11), rc, i, n;
        if (o == 0) { mc_op("index"); MC_CHECK(u_json_index(root) == 0, "index", "indexing failed"); indexed = 1; check("index"); continue; }
        if (o == 1) { mc_op("unindex"); MC_CHECK(u_json_unindex(root) == 0, "unindex", "removing the index failed"); indexed = 0; continue; }
        if (o == 2) { i = N[0].first; if (indexed || i < 0) mc_discard(); mc_op("remove the first child"); MC_CHECK(u_json_remove(N[i].o) == 0, "remove", "removal failed"); n = N[i].next; N[0].first = n; if (n >= 0) N[n].prev = -1; else N[0].last = -1; kill_(i); check("remove"); continue; }
        if (o == 3) { u_json_t *c = NULL; if (indexed) mc_discard(); mc_op("add a number"); MC_CHECK(u_json_new_int("a", 70 + nn, &c) == 0, "new", "creation failed"); rc = u_json_add(root, c); MC_CHECK(rc == 0, "add", "addition failed"); char v[32]; sprintf(v, "%d", 70 + nn); i = addn(0, JN, "a", v); N[i].o = c; check("add"); continue; }
        if (o < 10) { int k = o - 4; mc_op("look for %s", q[k]); u_json_t *x = u_json_cache_get(root, q[k]); u_json_t *want = indexed ? expect(q[k]) : NULL; MC_CHECK(x == want, "path", "%s is %s", q[k], x ? "wrong" : "not found"); }
        else { int a = -1; for (int i = 0; i < nn && a < 0; i++) if (N[i].live && N[i].type == JA) a = i; if (a < 0) mc_discard(); int k = 0, c; for (c = N[a].first; c >= 0; c = N[c].next) k++; c = N[a].first; unsigned e = mc_choose(2); mc_op("element %u of %s", e, N[a].fqn); if (e && c >= 0) c = N[c].next; MC_CHECK(u_json_array_get_nth(N[a].o, e) == (c < 0 ? NULL : N[c].o), "nth", "element %u", e); MC_CHECK((int)u_json_array_count(N[a].o) == k, "array-count", "%u of %d", u_json_array_count(N[a].o), k); }
    }
    quiet = 0; check("end"); fin();
}
const struct mc_scn mc_scns[] = {
    { "edits", run_ops, MC_QT, 3, 0, 0, 0, "11 documents, every sequence of 2 (3 for the small ones; thorough 3 and 4) index, unindex, remove, add, set operations on every element" },
    { "edits-indexed", run_cycle, MC_QT, 3, 0, 0, 0, "as above, one edit, indexing, then 1 (2 for the small ones; thorough 2) operations" },
    { "shapes", run_shapes, MC_QT, 4, 0, 0, 0, "every document of up to 4 (thorough 6) elements: lookups before, during and after indexing" },
    { "removal", run_remove, MC_QT, 4, 0, 0, 0, "removing each element of every document of up to 4 (thorough 5) elements" },
    { "arrays", run_arrays, MC_QT, 1, 0, 0, 0, "arrays of every size up to 40" },
    { "two trees", run_two, MC_QT, 4, 0, 0, 0, "every history of 2 (3) operations on two trees of 2 (3) kinds, indexed or not, walked in step" },
    { "sparse", run_sparse, MC_QT, 4, 0, 0, 0, "every history of 5 (6) edits and lookups, nothing else looked at in between" },
    { "large", run_large, MC_QT, 2, 0, 0, 0, "arrays of 0..2000 (5000) elements, decoded or built, at the root or below, indexed or not" },
    { "long-paths", run_long, MC_QT, 2, 0, 0, 0, "paths of 120..600 characters" },
    { 0 } };
