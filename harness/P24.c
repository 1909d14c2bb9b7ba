// Edits and queries of configuration trees against the reference tree, after every operation.
#include "mc.h"
#include <u/libu.h>
#include "config_model.h"
#include "similar.h"
const char *mc_property = "P24", *mc_level = "model_checking";
static cn *M; static u_config_t *C;
static cn *nodes[256]; static int nn;
static void collect(cn *m) { nodes[nn++] = m; for (m = m->sub; m; m = m->next) collect(m); }
static u_config_t *real(cn *m) { if (!m->up) return C; u_config_t *p = real(m->up); int i = 0; for (cn *x = m->up->sub; x != m; x = x->next) i++; return u_config_get_child_n(p, NULL, i); }
static const char *show(const char *s) { return s ? s : "(none)"; }
static const char *Q[] = { "a", "b", "c", "a.b", "a.c", "b.a", "b.a.c", "a.a", "zz", "a.zz", "zz.a", "A", "", ".", "a.", ".a" };
static void query(cn *at)
{
    u_config_t *r = real(at), *g;
    for (int q = 0; q < (at->up ? 8 : 16); q++) for (int n = 0; n < 3; n++) {
        cn *w = cm_path(at, Q[q], n); g = (void *)1; int rc = u_config_get_subkey_nth(r, Q[q], n, &g);
        MC_CHECK((rc == 0) == (w != NULL), "nth", "entry %d of \"%s\" is %s", n, Q[q], w ? "not found" : "found"); if (w) MC_CHECK(g == real(w), "nth", "entry %d of \"%s\" is another entry (%s)", n, Q[q], show(u_config_get_value(g)));
        if (n) continue;
        rc = u_config_get_subkey(r, Q[q], &g); MC_CHECK((rc == 0) == (w != NULL) && (!w || g == real(w)), "subkey", "\"%s\"", Q[q]);
        const char *v = u_config_get_subkey_value(r, Q[q]), *wv = w ? w->v : NULL; MC_CHECK(!v == !wv && (!v || !strcmp(v, wv)), "subkey-value", "value of \"%s\" is \"%s\", expected \"%s\"", Q[q], show(v), show(wv));
        int o = -7, wi = 42, wrc = 0; if (wv) { char *e; long l = strtol(wv, &e, 10); if (e == wv) wrc = -1; else wi = (int)l; } rc = u_config_get_subkey_value_i(r, Q[q], 42, &o); MC_CHECK((rc == 0) == (wrc == 0) && (rc || o == wi), "value-i", "integer of \"%s\" (%s): %d, %d", Q[q], show(wv), rc, o);
        static const char *t[] = { "yes", "enable", "1", "on" }, *f[] = { "no", "disable", "0", "off" }; int wb = wv ? -1 : 42; for (int i = 0; wv && i < 4; i++) { if (!strcasecmp(wv, t[i])) wb = 1; if (!strcasecmp(wv, f[i])) wb = 0; }
        o = -7; rc = u_config_get_subkey_value_b(r, Q[q], 42, &o); MC_CHECK((rc == 0) == (wb >= 0) && (rc || o == wb), "value-b", "boolean of \"%s\" (%s): %d, %d", Q[q], show(wv), rc, o);
    }
    static const char *K[] = { "a", "b", "c", "", "B" }; for (int k = 0; k < 5; k++) for (int n = 0; n < 3; n++) { cn *w = cm_child(at, K[k], strlen(K[k]), n); g = u_config_get_child_n(r, K[k], n); MC_CHECK(g == (w ? real(w) : NULL), "child-n", "child %d named \"%s\"", n, K[k]); if (!n) MC_CHECK(u_config_get_child(r, K[k]) == g, "child", "child named \"%s\"", K[k]); }
}
static cn *order[512]; static int no, at; static void pre(cn *m, int post) { for (m = m->sub; m; m = m->next) { if (!post) order[no++] = m; pre(m, post); if (post) order[no++] = m; } }
static void cb(u_config_t *c) { MC_CHECK(at < no && c == real(order[at]), "walk", "visit %d is not the right entry", at); at++; }
static void judge(void) { cm_cmp(M, C, "tree"); nn = 0; collect(M); for (int i = 0; i < nn; i++) query(nodes[i]); }
static void walks(void) { for (int p = 0; p < 2; p++) { no = at = 0; pre(M, p); u_config_walk(C, p ? U_CONFIG_WALK_POSTORDER : U_CONFIG_WALK_PREORDER, cb); MC_CHECK(at == no, "walk", "%d visits, expected %d", at, no); } }
static void end(void) { walks(); u_config_free(C); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); }
static void begin(void) { cm_reset(); M = cm_add(NULL, NULL, 0); MC_CHECK(u_config_create(&C) == 0, "create", "failed"); }
static const char *P[] = { "a", "b", "a.b", "a.c", "b.a.c", "c" }, *V[] = { "1", "${a}", "${b", "${a.b}x", NULL, " no ", "" };
static void step(int np, int nv)
{
    nn = 0; collect(M); int op = mc_choose(5), rc, wrc; cn *m; u_config_t *c;
    if (op < 2) { const char *p = P[mc_choose(np)], *v = V[mc_choose(nv)]; mc_op("%s_key %s %s", op ? "set" : "add", p, show(v)); wrc = cm_set(M, p, v, op); rc = op ? u_config_set_key(C, p, v) : u_config_add_key(C, p, v); MC_CHECK((rc == 0) == (wrc == 0), "verdict", "%s", rc ? "refused" : "accepted"); }
    else if (op == 2) { m = nodes[mc_choose(nn)]; c = real(m); const char *v = V[mc_choose(nv)]; mc_op("set_value of %s to %s", show(m->k), show(v)); wrc = cm_setval(m, v); rc = u_config_set_value(c, v); MC_CHECK((rc == 0) == (wrc == 0), "verdict", "%s", rc ? "refused" : "accepted"); }
    else if (op == 3) { if (nn < 2) mc_discard(); m = nodes[1 + mc_choose(nn - 1)]; c = real(m); mc_op("delete %s", m->k); u_config_t *up = real(m->up); if (m->up->up && mc_choose(2)) { MC_CHECK(u_config_del_child(C, c) != 0, "del-stranger", "an entry of another section was deleted"); return; } MC_CHECK(u_config_del_child(up, c) == 0, "del", "failed"); cm_del(m); }
    else { m = nodes[mc_choose(nn)]; static const char *K[] = { "a", "b" }; const char *k = K[mc_choose(2)]; c = real(m); mc_op("add child %s to %s", k, show(m->k)); u_config_t *n = NULL; MC_CHECK(u_config_add_child(c, k, &n) == 0 && n, "add-child", "failed"); cn *x = cm_add(m, k, 1); MC_CHECK(n == real(x), "add-child", "not the new entry"); }
}
static void run_edit(void) { int d = mc_tier ? 4 : 3, np = mc_tier ? 5 : 6, nv = 7; begin(); for (int i = 0; i < d; i++) { step(np, nv); judge(); uint64_t h = cm_hash(M, 3); mc_state(h); mc_prune(h, d - i - 1); } end(); }
/* edits of a loaded tree with repeated and nested keys */
static void run_loaded(void)
{
    static const char *T[] = { "a 1\na 2\nb\n{\na 3\na 4\nb\n{\nc 5\n}\n}\na 6\n", "a\n{\nb 1\nb 2\n}\na\n{\nb 3\n}\nb.a.c 9\n", "a on\nb ${a}\nc\n{\na off\nb ${a}\nb ${b}\n}\n" }; const char *t = T[mc_choose(3)]; char *d = strdup(t); 
    cm_reset(); M = cm_add(NULL, NULL, 0); cm_load(M, t, 0); mc_op("load \"%s\"", mc_escs(t)); MC_CHECK(u_config_load_from_buf(d, strlen(t), &C) == 0, "load", "refused"); free(d); judge();
    int dd = mc_tier ? 3 : 2; for (int i = 0; i < dd; i++) { step(6, 7); judge(); uint64_t h = cm_hash(M, 5); mc_state(h); mc_prune(h, dd - i - 1); } end();
}
static int by_val(u_config_t **a, u_config_t **b) { const char *x = u_config_get_value(*a), *y = u_config_get_value(*b); return strcmp(x ? x : "", y ? y : ""); }
static void run_sort(void)
{
    begin(); int n = mc_choose(5); static const char *v[] = { "3", "1", "2" }; for (int i = 0; i < n; i++) { const char *x = v[mc_choose(3)]; char k[4] = { 'k', (char)('0' + i), 0 }; u_config_add_key(C, k, x); cm_set(M, k, x, 0); }
    mc_op("sort %d entries", n); int rc = u_config_sort_children(C, by_val); MC_CHECK(rc == 0 || n == 0, "sort", "failed"); int seen = 0; const char *last = "";
    for (int i = 0; i < n; i++) { u_config_t *c = u_config_get_child_n(C, NULL, i); MC_CHECK(c, "sort", "an entry was lost"); cn *m = cm_child(M, u_config_get_key(c), 2, 0); MC_CHECK(m && !strcmp(m->v, u_config_get_value(c)), "sort", "a value changed"); seen |= 1 << (u_config_get_key(c)[1] - '0'); MC_CHECK(strcmp(last, u_config_get_value(c)) <= 0, "sort", "out of order"); last = u_config_get_value(c); }
    MC_CHECK(seen == (1 << n) - 1 && !u_config_get_child_n(C, NULL, n), "sort", "not the same entries"); u_config_free(C); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
static void run_sortmany(void)
{
    static const int N[] = { 10, 63, 64, 65, 100, 127, 128, 129, 200, 257, 1000 }; int n = N[mc_choose(11)], kind = mc_choose(4); begin(); u_config_t *c; static char seen[1024]; memset(seen, 0, sizeof seen); mc_op("sort %d entries, arrangement %d", n, kind); if (!mc_tier && n == 1000 && kind) mc_discard();
    for (int i = 0; i < n; i++) { char k[8], v[8]; sprintf(k, "k%d", i); int x = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? i * 37 % n : i % 2; sprintf(v, "%04d", x); MC_CHECK(u_config_add_key(C, k, v) == 0, "add", "failed"); }
    MC_CHECK(u_config_sort_children(C, by_val) == 0, "sort", "failed"); char last[8] = "";
    for (int i = 0; i < n; i++) { c = u_config_get_child_n(C, NULL, i); MC_CHECK(c, "sort", "an entry was lost"); int k = atoi(u_config_get_key(c) + 1); MC_CHECK(!seen[k], "sort", "an entry is there twice"); seen[k] = 1; int x = kind == 0 ? k : kind == 1 ? n - k : kind == 2 ? k * 37 % n : k % 2; MC_CHECK(atoi(u_config_get_value(c)) == x, "sort", "a value changed"); MC_CHECK(strcmp(last, u_config_get_value(c)) <= 0, "sort", "out of order"); strcpy(last, u_config_get_value(c)); }
    MC_CHECK(!u_config_get_child_n(C, NULL, n), "sort", "too many entries"); u_config_free(C); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_state(mc_h64(n, kind));
}
/* typed getters over every short text */
static void run_typed(void)
{
    static const char A[] = "onyes10fNOa- "; char t[8]; int n = 0; for (int i = 0; i < 3 + mc_tier; i++) { int c = mc_choose(14); if (c == 13) break; t[n++] = A[c]; } t[n] = 0; static const char *W[] = { "yes", "enable", "on", "no", "disable", "off", "YES", "Enable", "ON", "No", "DISABLE", "Off", "yess", "enabled", "onn", "offf", "true", "false", "2147483647", "2147483648", "-2147483648", "-2147483649" };
    const char *v = t; if (n == 0) { int w = mc_choose(23); if (w < 22) v = W[w]; } begin(); mc_op("typed value \"%s\"", v); u_config_add_key(C, "a", v); cm_set(M, "a", v, 0); int o = -7, rc; v = M->sub->v; errno = 0; char *e; long l = strtol(v, &e, 10); int ok = e != v && l >= -2147483648L && l <= 2147483647L;
    rc = u_config_get_subkey_value_i(C, "a", 5, &o); MC_CHECK((rc == 0) == ok && (!ok || o == l), "value-i", "\"%s\": %d, %d", v, rc, o);
    static const char *tr[] = { "yes", "enable", "1", "on" }, *fa[] = { "no", "disable", "0", "off" }; int wb = -1; for (int i = 0; i < 4; i++) { if (!strcasecmp(v, tr[i])) wb = 1; if (!strcasecmp(v, fa[i])) wb = 0; } rc = u_config_get_subkey_value_b(C, "a", 5, &o); MC_CHECK((rc == 0) == (wb >= 0) && (wb < 0 || o == wb), "value-b", "\"%s\": %d, %d", v, rc, o); end();
}
/* substitution */
static void run_subst(void)
{
    static const char A[] = "${}ab."; char t[12]; int n = 0; for (int i = 0; i < 7 + mc_tier; i++) { int c = mc_choose(7); if (c == 6) break; t[n++] = A[c]; } t[n] = 0; int where = mc_choose(2); begin(); u_config_set_key(C, "a", "1"); cm_set(M, "a", "1", 1); u_config_set_key(C, "b.a", "2"); cm_set(M, "b.a", "2", 1); u_config_set_key(C, "b.b", "3"); cm_set(M, "b.b", "3", 1);
    const char *k = where ? "b.x" : "x"; mc_op("set %s to \"%s\"", k, t); int rc = u_config_set_key(C, k, t), wrc = cm_set(M, k, t, 1); MC_CHECK((rc == 0) == (wrc == 0), "verdict", "\"%s\" %s", t, rc ? "refused" : "accepted"); cm_cmp(M, C, "tree"); mc_state(cm_hash(M, 8)); u_config_free(C); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
/* many references in one value, from short to long */
static void run_refs(void)
{
    static char t[4096], big[1200]; static const char *R[] = { "${a}", "${b.a}", "${b.b}", "${zz}", "${big}" }, *sep[] = { "", " ", "-long separator-" }; static const int bl[] = { 1, 127, 128, 129, 1000 };
    int n = mc_choose(mc_tier ? 41 : 21), r = mc_choose(6), s = mc_choose(3), l = mc_choose(5), where = mc_choose(2), k = 0; if (l && r < 4) mc_discard(); memset(big, 'B', bl[l]); big[bl[l]] = 0; begin();
    u_config_set_key(C, "a", "1"); cm_set(M, "a", "1", 1); u_config_set_key(C, "b.a", ""); cm_set(M, "b.a", "", 1); u_config_set_key(C, "b.b", "three"); cm_set(M, "b.b", "three", 1); u_config_set_key(C, "big", big); cm_set(M, "big", big, 1);
    *t = 0; for (int i = 0; i < n; i++) k += sprintf(t + k, "%s%s", R[r < 5 ? r : i % 5], sep[s]); const char *key = where ? "b.x" : "x"; mc_op("set %s to %d references (kind %d, separator \"%s\", values of %d)", key, n, r, sep[s], bl[l]);
    int rc = u_config_set_key(C, key, t), wrc = cm_set(M, key, t, 1); MC_CHECK((rc == 0) == (wrc == 0), "verdict", "%s", rc ? "refused" : "accepted"); cm_cmp(M, C, "tree"); mc_state(cm_hash(M, 12)); u_config_free(C); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
/* keys that are nearly the same */
static void run_similar(void)
{
    static char a[600], b[600]; int f = mc_choose(SIM_FAMS), l = sim_len[mc_choose(sim_n(512))], in = mc_choose(2), d = mc_tier ? 4 : 3; sim_pair(f, l, a, b); begin(); cn *m = M; u_config_t *c = C; if (in) { u_config_add_child(C, "s", &c); m = cm_add(M, "s", 1); } mc_op("keys \"%s\" and \"%s\" after %d others%s", mc_escs(a + (l > 8 ? l - 4 : 0)), mc_escs(b + (l > 8 ? l - 4 : 0)), l, in ? ", in a section" : ""); if (l == 512 && in) mc_discard();
    for (int i = 0; i < d; i++) {
        int q = mc_choose(7); char *k = q & 1 ? b : a; char v[4] = { 'v', (char)('0' + i), 0 }; cn *e = cm_child(m, k, strlen(k), 0); int wrc, rc;
        if (q < 4) { mc_op("%s key %d", q < 2 ? "add" : "set", q & 1); wrc = cm_set(m, k, cm_dup(v, 2), q > 1); rc = q < 2 ? u_config_add_key(c, k, v) : u_config_set_key(c, k, v); MC_CHECK((rc == 0) == (wrc == 0), "verdict", "%s", rc ? "refused" : "accepted"); }
        else if (q < 6) { mc_op("delete key %d", q & 1); u_config_t *x = u_config_get_child(c, k); MC_CHECK(!x == !e, "child", "key %d is %s", q & 1, x ? "found" : "not found"); if (!e) continue; MC_CHECK(u_config_del_child(c, x) == 0, "del", "failed"); cm_del(e); }
        else { char t[4000]; mc_op("reload"); sprintf(t, "%s 1\n%s ${%s}\n%s ${%s}\n", a, b, a, a, b); if (in || l > 500) mc_discard(); u_config_free(C); C = NULL; cm_reset(); M = m = cm_add(NULL, NULL, 0); cm_load(M, t, 0); MC_CHECK(u_config_load_from_buf(t, strlen(t), &C) == 0, "load", "refused"); c = C; }
        cm_cmp(M, C, "tree"); for (int j = 0; j < 2; j++) for (int n = 0; n < 3; n++) { char *z = j ? b : a; cn *w = cm_child(m, z, strlen(z), n); u_config_t *g = u_config_get_child_n(c, z, n), *g2 = NULL; MC_CHECK(g == (w ? real(w) : NULL), "child-n", "child %d with key %d", n, j); int r = u_config_get_subkey_nth(c, z, n, &g2); MC_CHECK((r == 0) == (w != NULL) && (!w || g2 == g), "nth", "entry %d with key %d", n, j); const char *v2 = n ? NULL : u_config_get_subkey_value(c, z); if (!n) MC_CHECK(!v2 == !(w && w->v) && (!v2 || !strcmp(v2, w->v)), "subkey-value", "key %d", j); }
        mc_state(cm_hash(M, f));
    }
    end();
}
/* two trees at the same time */
static void run_two(void)
{
    struct { cn *m; u_config_t *c; } t[2]; int D = mc_tier ? 3 : 2; begin(); t[0].m = M; t[0].c = C; M = cm_add(NULL, NULL, 0); MC_CHECK(u_config_create(&C) == 0, "create", "failed"); t[1].m = M; t[1].c = C;
#define TURN(w) (M = t[w].m, C = t[w].c)
    for (int w = 0; w < 2; w++) { TURN(w); cm_set(M, "a.b", w ? "y" : "x", 0); MC_CHECK(u_config_set_key(C, "a.b", w ? "y" : "x") == 0, "set", "failed"); }
    for (int d = 0; d < D; d++) { int w = mc_choose(2); TURN(w); mc_note("[tree %d]", w); step(4, 4); judge(); TURN(!w); judge(); }
    TURN(0); walks(); u_config_free(C); TURN(1); judge(); end();
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void run_sparse(void)
{
    static const char *q[] = { "a", "b", "a.b", "a.a" }; int D = mc_tier ? 4 : 3; begin(); MC_CHECK(u_config_set_key(C, "a.b", "x") == 0, "set", "failed"); cm_set(M, "a.b", "x", 1);
    for (int d = 0; d < D; d++) {
        if (!mc_choose(2)) { step(4, 3); continue; }
        int k = mc_choose(4); mc_op("look for %s", q[k]); cn *w = cm_path(M, q[k], 0); const char *v = u_config_get_subkey_value(C, q[k]); u_config_t *g = NULL; int rc = u_config_get_subkey(C, q[k], &g);
        MC_CHECK((rc == 0) == (w != NULL) && (!w || g == real(w)), "subkey", "\"%s\"", q[k]); MC_CHECK(!v == !(w && w->v) && (!v || !strcmp(v, w->v)), "subkey-value", "value of \"%s\" is \"%s\"", q[k], show(v));
    }
    judge(); end();
}
const struct mc_scn mc_scns[] = {
    { "two trees", run_two, MC_QT, 4, 0, 0, 0, "every history of 2 (3) edits of two trees" },
    { "sparse", run_sparse, MC_QT, 4, 0, 0, 0, "every history of 3 (4) edits and lookups, nothing else looked at in between" },
    { "similar", run_similar, MC_QT, 2, 0, 0, 0, "pairs of keys alike in up to 512 characters, differing in case, last, first or high byte or in length: every sequence of 3 (4) adds, sets, deletions and reloads with references" },
    { "edit", run_edit, MC_QT, 3, 0, 0, 0, "every sequence of 3 (4) add, set, set-value, delete and add-child operations over 6 (5) paths and 7 values from an empty tree; every query on every entry after each" },
    { "loaded", run_loaded, MC_QT, 3, 0, 0, 0, "every sequence of 2 (3) of them from 3 loaded trees with repeated and nested keys" },
    { "sort", run_sort, MC_QT, 1, 0, 0, 0, "every list of up to 4 values sorted" },
    { "sortmany", run_sortmany, MC_QT, 1, 0, 0, 0, "lists of 10 to 1000 values in 4 arrangements sorted" },
    { "typed", run_typed, MC_QT, 1, 0, 0, 0, "every text of up to 3 (4) of 13 characters, and all boolean words and integer bounds, through the typed getters" },
    { "subst", run_subst, MC_QT, 2, 0, 0, 0, "every value of up to 7 (8) characters over the substitution syntax, at the top level and in a section" },
    { "refs", run_refs, MC_QT, 1, 0, 0, 0, "values of up to 20 (40) references of 5 kinds and mixed, to texts of 0 to 1000 characters" },
    { 0 }
};
