// Print or save every small configuration tree and load the text again.
#include "mc.h"
#include <u/libu.h>
#include "config_model.h"
const char *mc_property = "P25", *mc_level = "model_checking";
enum { W_FP, W_BUF, W_SUBFP, W_SUBBUF, W_N };
static const char *wname[] = { "u_config_print_to_fp", "u_config_save_to_buf", "u_config_print_to_fp of a section", "u_config_save_to_buf of a section" };
static char *written(u_config_t *c, int buf, size_t *n)
{
    char *t = NULL; 
    if (!buf) { FILE *f = open_memstream(&t, n); u_config_print_to_fp(c, f, 0); MC_CHECK(!ferror(f) && fclose(f) == 0, "stream", "the stream was damaged"); return t; }
    size_t z = 1 << 14; t = malloc(z); MC_CHECK(u_config_save_to_buf(c, t, z) == 0, "save", "a large enough buffer was refused"); *n = strlen(t); return t;
}
/* the tree m (real counterpart c) written in way w and loaded gives m again */
static void round_trip(cn *m, u_config_t *c, int w)
{
    size_t n; int sub = w >= W_SUBFP; if (sub) { m = m->sub; if (!m) return; c = u_config_get_child_n(c, NULL, 0); }
    char *t = written(c, w & 1, &n); u_config_t *r = NULL; MC_CHECK(u_config_load_from_buf(t, n, &r) == 0, "reload", "the text of %s, \"%s\", does not load", wname[w], mc_esc(t, n < 100 ? n : 100));
    mc_note("%s: \"%s\"", wname[w], mc_esc(t, n < 100 ? n : 100));
    cm_loose = 1; if (sub) { u_config_t *k = u_config_get_child_n(r, NULL, 0); MC_CHECK(k && !u_config_get_child_n(r, NULL, 1), "children", "%s: the section is not alone at top level", wname[w]); cm_cmp(m, k, wname[w]); } else cm_cmp(m, r, wname[w]);
    free(t); u_config_free(r);
}
static void all_ways(cn *m, u_config_t *c) { mc_transitions(W_N); for (int w = 0; w < W_N; w++) round_trip(m, c, w); cm_loose = 1; cm_cmp(m, c, "the tree printed"); u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); }
/* every short key and value text */
static const char valph[] = "a#\\ {}$\".\t\r'"; 
static void run_text(void)
{
    char k[8] = "k", v[8]; int pos = mc_choose(3), key = mc_arg(), n = mc_choose((mc_tier ? 6 : 5) - key) + key, na = key ? 9 : 12; const char *al = key ? "a#\\$\".'{}" : valph; char *s = key ? k : v; v[0] = 0; if (key) strcpy(v, "v");
    for (int i = 0; i < n; i++) s[i] = al[mc_choose(na)]; s[n] = 0;
    if (!key && n && (cm_blank(v[0]) || cm_blank(v[n - 1]) || v[n - 1] == '\r')) mc_discard(); if (!key && strstr(v, "${")) mc_discard();
    if (key && (k[0] == '{' || k[0] == '}' || strstr(k, "${"))) mc_discard(); if (key && pos != 2 && strchr(k, '.')) mc_discard();
    mc_op("key \"%s\", value \"%s\", %s", mc_escs(k), mc_escs(v), pos == 0 ? "at top level" : pos == 1 ? "in a section" : key ? "as a section" : "between others");
    cm_reset(); cn *m = cm_add(NULL, NULL, 0); u_config_t *c, *p, *q; u_config_create(&c); p = c; cn *mp = m;
    if (pos == 2 && !key) { MC_CHECK(u_config_add_child(p, "b", &q) == 0 && u_config_set_value(q, "1") == 0, "setup", "b refused"); cm_add(mp, "b", 1)->v = "1"; }
    if (pos == 1) { MC_CHECK(u_config_add_child(p, "s", &p) == 0, "setup", "refused"); mp = cm_add(mp, "s", 1); }
    MC_CHECK(u_config_add_child(p, k, &q) == 0, "setup", "key refused"); cn *e = cm_add(mp, k, strlen(k));
    if (key && pos == 2) { MC_CHECK(u_config_add_child(q, "x", &q) == 0, "setup", "refused"); e = cm_add(e, "x", 1); }
    MC_CHECK(u_config_set_value(q, v) == 0, "setup", "value refused"); e->v = cm_dup(v, strlen(v));
    if (pos == 2 && !key) { MC_CHECK(u_config_add_child(p, "b", &q) == 0 && u_config_set_value(q, "2") == 0, "setup", "b refused"); cm_add(mp, "b", 1)->v = "2"; }
    mc_state(cm_hash(m, 3)); all_ways(m, c);
}
/* every small tree: entries with a value, without, and sections, repeated names, include directives among them */
static int budget;
static void grow(cn *m, u_config_t *c, int depth)
{
    static const char *vals[] = { "v", "", NULL, "# x\\#" };
    while (budget > 0 && mc_choose(2)) {
        budget--; int kind = mc_choose(depth < 3 ? 6 : 5); const char *k = kind == 4 ? (mc_choose(2) ? "include" : "-include") : mc_choose(2) ? "a" : "b"; u_config_t *q;
        MC_CHECK(u_config_add_child(c, k, &q) == 0, "setup", "refused"); if (kind == 4) { MC_CHECK(u_config_set_value(q, mc_choose(2) ? "f" : "") == 0, "setup", "refused"); continue; }
        cn *e = cm_add(m, k, 1); if (kind < 4) { if (vals[kind]) { MC_CHECK(u_config_set_value(q, vals[kind]) == 0, "setup", "refused"); e->v = vals[kind]; } } else grow(e, q, depth + 1);
    }
}
static void run_tree(void) { cm_reset(); cn *m = cm_add(NULL, NULL, 0); u_config_t *c; u_config_create(&c); budget = mc_tier ? 5 : 4; grow(m, c, 0); char buf[2000]; (void)u_config_save_to_buf(c, buf, sizeof buf); mc_op("tree \"%s\"", mc_escs(buf));
    u_config_t *f = u_config_get_child_n(c, NULL, 0); int inc = f && cm_isinc(u_config_get_key(f)); mc_state(cm_hash(m, 5)); mc_transitions(W_N); for (int w = 0; w < (inc ? W_SUBFP : W_N); w++) round_trip(m, c, w); u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); }
/* loaded texts, printed, loaded, printed */
static void run_loaded(void)
{
    static const char *line[] = { "a v\n", "b\n{\n", "}\n", "a.b w\n", "c ${a}\n", "d\\#e f\\#g # h\n", "  a\t x y  \n", "e\n{\n}\n", "a ${none}\n", "q\\ r\\\n", "b\n", "x.y.z \"1\"\n" };
    char t[512] = ""; int n = mc_choose(mc_tier ? 7 : 6); for (int i = 0; i < n; i++) strcat(t, line[mc_choose(12)]); mc_op("text \"%s\"", mc_escs(t));
    cm_reset(); cn *m = cm_add(NULL, NULL, 0); u_config_t *c = NULL; int ok = cm_load(m, t, 0) == 0; if (u_config_load_from_buf(t, strlen(t), &c)) { if (ok) mc_fail("setup", "refused"); mc_discard(); } if (!ok) mc_fail("setup", "accepted");
    for (int i = 0; i < cm_n; i++) if (cm_pool[i].v && *cm_pool[i].v && cm_pool[i].sub) { u_config_free(c); mc_discard(); } /* an entry with both a value and children has no text of its own */
    mc_state(cm_hash(m, 7)); all_ways(m, c);
}
/* every buffer size; long values and keys */
static void run_size(void)
{
    static const int len[] = { 0, 1, 2, 7, 63, 64, 127, 128, 129, 255, 256, 1023, 1024, 1025, 4095, 4096, 5000 }; char *v = malloc(6000); int l = len[mc_choose(17)], shape = mc_choose(3), with = mc_choose(3);
    memset(v, with == 1 ? '#' : 'z', l); if (with == 2 && l > 1) { v[l / 2] = '#'; v[l - 1] = '\\'; } v[l] = 0; cm_reset(); cn *m = cm_add(NULL, NULL, 0), *e; u_config_t *c, *q; u_config_create(&c);
    mc_op("%s of %d bytes", shape == 0 ? "value" : shape == 1 ? "key" : "nested value", l); if (shape == 1 && !l) { free(v); u_config_free(c); return; }
    if (shape == 0) { u_config_add_child(c, "k", &q); u_config_set_value(q, v); e = cm_add(m, "k", 1); e->v = v; } else if (shape == 1) { u_config_add_child(c, v, &q); u_config_set_value(q, "x"); e = cm_add(m, v, l); e->v = "x"; }
    else { u_config_add_child(c, "s", &q); e = cm_add(m, "s", 1); u_config_add_child(q, "k", &q); u_config_set_value(q, v); e = cm_add(e, "k", 1); e->v = v; }
    size_t n; char *t = written(c, 1, &n); int lo = mc_tier || n < 300 ? 0 : (int)n - 150, first = -1; char *b;
    for (size_t z = lo; z <= n + 3; z++) { b = malloc(z ? z : 1); memset(b, 7, z); int rc = u_config_save_to_buf(c, b, z); if (rc == 0) { if (first < 0) first = z; MC_CHECK(memchr(b, 0, z) && !strcmp(b, t), "save", "buffer of %zu bytes: success, but the text is cut at %zu of %zu", z, strnlen(b, z), n); } else MC_CHECK(z <= n, "save", "buffer of %zu bytes refused for %zu", z, n); free(b); }
    MC_CHECK(first == (int)n + 1, "save", "the smallest accepted buffer is %d bytes for a text of %zu", first, n); free(t); mc_state(mc_h64(l, shape)); all_ways(m, c); free(v);
}
/* keys that only look like include directives */
static void run_words(void)
{
    static const char *K[] = { "includes", "include2", "INCLUDE", "Include", "includE", "includ", "inc", "i", "-includes", "-INCLUDE", "-Include", "-includ", "--include", "-", "-i", "xinclude", "includeinclude", "include-", "incl", "include_dir", "+include", "#include", "include\\" };
    cm_reset(); cn *m = cm_add(NULL, NULL, 0), *mp = m; u_config_t *c, *p, *q; u_config_create(&c); p = c; int in = mc_choose(3); if (in) { MC_CHECK(u_config_add_child(p, "s", &p) == 0, "setup", "refused"); mp = cm_add(m, "s", 1); }
    for (int i = 0; i < 2; i++) { int w = mc_choose(i ? 24 : 23); if (w == 23) break; const char *k = K[w]; int shape = mc_choose(3); mc_op("key \"%s\"%s", mc_escs(k), shape ? shape == 1 ? "" : " as a section" : " with a value"); MC_CHECK(u_config_add_child(p, k, &q) == 0, "setup", "refused"); cn *e = cm_add(mp, k, strlen(k)); if (shape == 0) { MC_CHECK(u_config_set_value(q, "f") == 0, "setup", "refused"); e->v = "f"; } if (shape == 2) { MC_CHECK(u_config_add_child(q, k, &q) == 0 && u_config_set_value(q, "1") == 0, "setup", "refused"); cm_add(e, k, strlen(k))->v = "1"; } }
    if (in == 2) { MC_CHECK(u_config_add_child(c, "t", &q) == 0 && u_config_set_value(q, "1") == 0, "setup", "refused"); cm_add(m, "t", 1)->v = "1"; } mc_state(cm_hash(m, 21)); all_ways(m, c);
}
const struct mc_scn mc_scns[] = {
    { "words", run_words, MC_QT, 2, 0, 0, 0, "pairs of 23 keys that resemble include directives without being one, with a value, empty or as sections" },
    { "value", run_text, MC_QT, 3, 0, 0, 0, "every value over a # \\ blank { } $ \" . tab cr ' up to 4 (5) bytes, at top level, in a section and between others of one name" },
    { "key", run_text, MC_QT, 3, 0, 0, 1, "every key over a # \\ $ \" . ' { } up to 4 (5) bytes" },
    { "tree", run_tree, MC_QT, 4, 0, 0, 0, "every tree of up to 4 (5) entries, 4 levels deep, with repeated names, missing and empty values, empty sections and include directives" },
    { "loaded", run_loaded, MC_QT, 3, 0, 0, 0, "every text of up to 5 (6) of 12 lines that loads" },
    { "size", run_size, MC_QT, 2, 0, 0, 0, "key and value lengths around internal limits x every buffer size" },
    { 0 }
};
