// Diagnostic dumps of maps, JSON trees, URIs and configurations: everything is shown literally and nothing changes.
// MC-LIBCFLAGS: -DDEBUG
#include "mc.h"
#include <u/libu.h>
#include <unistd.h>
const char *mc_property = "P37", *mc_level = "model_checking";
static const char *TX[] = { "a", "", "%s", "%n%n%n%n", "100%", "%5$s %*d", "[x:y]", "\xe9 z", "b", "%%" }; enum { NT = 10 };
/* --- captured output: debug messages through the hook, console messages through stderr --- */
static char out[1 << 16]; static size_t on; static int lines;
static int hook(void *a, int l, const char *s) { size_t n = strlen(s); MC_CHECK(a == out && l == LOG_DEBUG, "level", "level %d", l); MC_CHECK(on + n + 2 < sizeof out, "endless", "output does not end"); memcpy(out + on, s, n); on += n; out[on++] = '\n'; out[on] = 0; lines++; return 0; }
static void start(void) { on = 0; lines = 0; out[0] = 0; u_log_set_hook(hook, out, NULL, NULL); }
static FILE *sve; static int which;
static void con(int w) { which = w; memset(out, 0, sizeof out); FILE *f = fmemopen(out, sizeof out, "w"); if (!f) mc_discard(); if (w) { fflush(stdout); sve = stdout; stdout = f; } else { sve = stderr; stderr = f; } }
static void coff(void) { if (which) { fclose(stdout); stdout = sve; } else { fclose(stderr); stderr = sve; } on = strlen(out); }
static int count(const char *s) { int k = 0; for (const char *p = out; (p = strstr(p, s)); p += strlen(s)) k++; return k; }
/* --- maps --- */
static u_hmap_t *hm; static int K[8], V[8], live[8], nk, kt, vt, sf; static char okeys[8][8]; static char vals[8][8];
static u_string_t *mystr(u_hmap_o_t *o) { u_string_t *s = NULL; char b[64]; snprintf(b, sizeof b, "<%p>", u_hmap_o_get_val(o)); if (u_string_create(b, strlen(b) + (sf == 2), &s)) return NULL; return s; }
static int pcy(void *a, void *b) { (void)a; (void)b; return 0; }
static size_t hk(const void *k, size_t n) { (void)k; return n / 2; }
static int cmp8(const void *a, const void *b) { return memcmp(a, b, 8); }
static int cmpp(const void *a, const void *b) { return a == b ? 0 : a < b ? -1 : 1; }
static void what(int i, char *b, size_t n)
{
    if (sf) { void *v = NULL; u_hmap_o_t *o = NULL; const void *k = kt == 0 ? (const void *)TX[K[i]] : (const void *)okeys[i]; if (u_hmap_get(hm, k, &o) == 0 && o) v = u_hmap_o_get_val(o); snprintf(b, n, "<%p>", v); return; }
    if (kt && vt != 1) { snprintf(b, n, "[]"); return; } snprintf(b, n, "[%s:%s]", kt == 0 ? TX[K[i]] : "", vt == 1 ? TX[V[i]] : "");
}
static void open_(int pol, int type)
{
    u_hmap_opts_t *o = NULL; MC_CHECK(u_hmap_opts_new(&o) == 0, "setup", "options"); u_hmap_opts_init(o); u_hmap_opts_set_type(o, type ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN); u_hmap_opts_set_size(o, 5);
    if (kt) { u_hmap_opts_set_key_type(o, kt == 1 ? U_HMAP_OPTS_DATATYPE_OPAQUE : U_HMAP_OPTS_DATATYPE_POINTER); if (kt == 1) u_hmap_opts_set_key_sz(o, 8); u_hmap_opts_set_hashfunc(o, hk); u_hmap_opts_set_option(o, U_HMAP_OPTS_HASH_STRONG); u_hmap_opts_set_compfunc(o, kt == 1 ? cmp8 : cmpp); }
    u_hmap_opts_set_val_type(o, vt == 0 ? U_HMAP_OPTS_DATATYPE_POINTER : vt == 1 ? U_HMAP_OPTS_DATATYPE_STRING : U_HMAP_OPTS_DATATYPE_OPAQUE); if (vt == 2) u_hmap_opts_set_val_sz(o, 8);
    if (pol) { static const int P[] = { 0, U_HMAP_PCY_FIFO, U_HMAP_PCY_LRU, U_HMAP_PCY_LFU, U_HMAP_PCY_CUSTOM }; u_hmap_opts_set_policy(o, P[pol]); u_hmap_opts_set_max(o, 3); if (pol == 4) u_hmap_opts_set_policy_cmp(o, pcy); }
    if (sf) u_hmap_opts_set_strfunc(o, mystr);
    start(); u_hmap_opts_dbg(o); MC_CHECK(lines > 1 && strstr(out, "options"), "options", "the options are not shown"); MC_CHECK(strstr(out, sf ? "serializer: set" : "serializer: not set"), "options", "the serializer is not shown as it is");
    MC_CHECK(u_hmap_new(o, &hm) == 0, "setup", "map"); u_hmap_opts_free(o);
}
static int put(int i) { const void *k = kt == 0 ? (const void *)TX[K[i]] : (const void *)okeys[i], *v = vt == 1 ? (const void *)TX[V[i]] : (const void *)vals[i]; u_hmap_o_t *o = u_hmap_o_new(hm, k, v); return o ? u_hmap_put(hm, o, NULL) : -1; }
static void dumps(int pol)
{
    char w[64], x[64]; size_t l0 = mc_live();
    for (int q = 0; q < 2; q++) {
        if (q && !pol) break; start(); mc_op(q ? "u_hmap_pcy_dbg" : "u_hmap_dbg"); if (q) u_hmap_pcy_dbg(hm); else u_hmap_dbg(hm);
        MC_CHECK(mc_live() == l0, "leak", "%zd blocks more", (ssize_t)(mc_live() - l0));
        for (int i = 0; i < nk; i++) { if (!live[i]) continue; what(i, w, sizeof w); int same = 0; for (int j = 0; j < nk; j++) if (live[j]) { what(j, x, sizeof x); for (const char *p = x; (p = strstr(p, w)); p += strlen(w)) same++; } MC_CHECK(count(w) == same, "text", "%s shows %s %d times instead of %d: %s", q ? "u_hmap_pcy_dbg" : "u_hmap_dbg", mc_escs(w), count(w), same, mc_escs(out)); }
        MC_CHECK(sf || count("[]") == (kt && vt != 1 ? u_hmap_count(hm) : 0), "extra", "elements shown that are not there"); }
    for (int i = 0; i < nk; i++) if (live[i]) { u_hmap_o_t *o = NULL; MC_CHECK(u_hmap_get(hm, kt == 0 ? (const void *)TX[K[i]] : (const void *)okeys[i], &o) == 0 && o, "changed", "an element has gone"); if (vt == 1) MC_CHECK(!strcmp(u_hmap_o_get_val(o), TX[V[i]]), "changed", "a value has changed"); }
}
static void params(int *pol, int *type) { kt = mc_choose(3); vt = mc_choose(3); sf = mc_choose(3); *pol = mc_choose(5); *type = mc_choose(2); for (int i = 0; i < 8; i++) { snprintf(okeys[i], 8, "k%d", i); memset(vals[i], 'v', 8); } }
static void run_maps(void)
{
    int pol, type; params(&pol, &type); open_(pol, type); nk = mc_choose(4); memset(live, 0, sizeof live);
    for (int i = 0; i < nk; i++) { K[i] = mc_choose(mc_tier ? NT : 4) ; V[i] = kt == 0 && vt == 1 ? mc_choose(mc_tier ? 6 : 3) + 1 : (K[i] * 3 + i) % NT; live[i] = 1; if (kt == 0) for (int j = 0; j < i; j++) if (K[j] == K[i]) mc_discard(); mc_op("put %s, %s", mc_escs(TX[K[i]]), mc_escs(TX[V[i]])); MC_CHECK(put(i) == 0, "setup", "put"); }
    dumps(pol); u_hmap_free(hm); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_state(mc_h64(pol * 9 + kt * 3 + vt, nk));
}
static void run_texts(void) { int pol = mc_choose(5), type = mc_choose(2); kt = 0; vt = 1; sf = 0; open_(pol, type); nk = 2; memset(live, 0, sizeof live); for (int i = 0; i < 2; i++) { K[i] = mc_choose(NT); V[i] = mc_choose(NT); live[i] = 1; if (i && K[0] == K[1]) mc_discard(); mc_op("put %s, %s", mc_escs(TX[K[i]]), mc_escs(TX[V[i]])); MC_CHECK(put(i) == 0, "setup", "put"); } dumps(pol); u_hmap_free(hm); MC_CHECK(mc_live() == 0, "leak", "blocks left"); }
/* objects whose text is near or over the serializer's internal size: no crash, no leak, the map is as it was */
static void run_long(void)
{
    int pol = mc_choose(5), type = mc_choose(2), l = 245 + mc_choose(16); kt = 0; vt = 1; sf = 0; open_(pol, type); nk = 0; char v[300]; memset(v, 'L', l); v[l] = 0; mc_op("value of %d characters", l); u_hmap_o_t *o = u_hmap_o_new(hm, "k", v); MC_CHECK(o && u_hmap_put(hm, o, NULL) == 0, "setup", "put"); size_t l0 = mc_live();
    start(); u_hmap_dbg(hm); if (l < 250) MC_CHECK(count("[k:L") == 1 && count("L]") == 1, "text", "a long value is not shown"); start(); if (pol) u_hmap_pcy_dbg(hm); MC_CHECK(mc_live() == l0, "leak", "blocks left"); o = NULL; MC_CHECK(u_hmap_get(hm, "k", &o) == 0 && !strcmp(u_hmap_o_get_val(o), v), "changed", "value"); u_hmap_free(hm); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_outcome(l);
}
static void run_fault(void)
{
    int pol, type; params(&pol, &type); open_(pol, type); nk = 2; for (int i = 0; i < 2; i++) { K[i] = i * 2; V[i] = i + 1; live[i] = 1; MC_CHECK(put(i) == 0, "setup", "put"); } size_t l0 = mc_live();
    mc_op("dumps with failing allocations"); mc_oom = 1; start(); u_hmap_dbg(hm); if (pol) u_hmap_pcy_dbg(hm); mc_oom = 0; MC_CHECK(mc_live() == l0, "leak", "%zd blocks more", (ssize_t)(mc_live() - l0)); dumps(pol); u_hmap_free(hm); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
/* --- JSON --- */
static char T[4096]; static int tn, nodes; static struct { const char *type; char key[32], val[32]; } ND[32];
static void jgen(int left, const char *key)
{
    static const char *S[] = { "%s", "", "a%d" }; int k = mc_choose(left > 0 ? 7 : 5), me = nodes++; snprintf(ND[me].key, 32, "%s", key); ND[me].val[0] = 0;
    switch (k) { case 0: ND[me].type = "string"; { const char *s = S[mc_choose(3)]; snprintf(ND[me].val, 32, "%s", s); tn += sprintf(T + tn, "\"%s\"", s); } return; case 1: ND[me].type = "number"; strcpy(ND[me].val, "-1e5"); tn += sprintf(T + tn, "-1e5"); return; case 2: ND[me].type = "true"; tn += sprintf(T + tn, "true"); return; case 3: ND[me].type = "false"; tn += sprintf(T + tn, "false"); return; case 4: ND[me].type = "null"; tn += sprintf(T + tn, "null"); return;
    case 5: ND[me].type = "array"; T[tn++] = '['; { int n = mc_choose(3); for (int i = 0; i < n; i++) { if (i) T[tn++] = ','; jgen(left - 1, ""); } } T[tn++] = ']'; T[tn] = 0; return;
    default: ND[me].type = "object"; T[tn++] = '{'; { int n = mc_choose(3); for (int i = 0; i < n; i++) { const char *kk = i ? "%n" : S[mc_choose(3)]; tn += sprintf(T + tn, "%s\"%s\":", i ? "," : "", kk); jgen(left - 1, kk); } } T[tn++] = '}'; T[tn] = 0; return; }
}
static void run_json(void)
{
    tn = 0; nodes = 0; T[0] = 0; int arr = mc_choose(2); ND[0].type = arr ? "array" : "object"; ND[0].key[0] = 0; ND[0].val[0] = 0; nodes = 1; T[tn++] = arr ? '[' : '{'; int n = mc_choose(3), sh = mc_tier && n == 2 ? mc_choose(3) : 0; static const int DP[3][2] = { { 2, 0 }, { 0, 2 }, { 1, 1 } }; for (int i = 0; i < n; i++) { if (i) T[tn++] = ','; if (!arr) tn += sprintf(T + tn, "\"k%d\":", i); char k[8] = ""; if (!arr) sprintf(k, "k%d", i); jgen(mc_tier ? DP[sh][i] : 1, k); } T[tn++] = arr ? ']' : '}'; T[tn] = 0;
    u_json_t *jo = NULL; u_log_set_hook(hook, out, NULL, NULL); on = 0; MC_CHECK(u_json_decode(T, &jo) == 0, "setup", "decode %s", T); int idx = mc_choose(2); if (idx) u_json_index(jo); size_t l0 = mc_live(); mc_op("u_json_print %s", mc_escs(T));
    con(0); u_json_print(jo); coff(); MC_CHECK(mc_live() == l0, "leak", "blocks left");
    char *p = out; for (int i = 0; i < nodes; i++) { char *e = strchr(p, '\n'), w[128]; MC_CHECK(e, "text", "element %d of %d is not shown", i, nodes); *e = 0; while (*p == ' ') p++; if (*ND[i].type == 'a' || *ND[i].type == 'o') snprintf(w, sizeof w, "%s %s", ND[i].type, ND[i].key); else snprintf(w, sizeof w, "%s %s : '%s'", ND[i].type, ND[i].key, ND[i].val); MC_CHECK(!strcmp(p, w), "text", "element %d: \"%s\" instead of \"%s\"", i, mc_escs(p), mc_escs(w)); p = e + 1; } MC_CHECK(!*p, "extra", "more is shown: %s", p);
    char *s = NULL; MC_CHECK(u_json_encode(jo, &s) == 0, "changed", "encode"); u_free(s); u_json_free(jo); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_state(mc_hs(1, T));
}
/* --- URIs --- */
static void run_uri(void)
{
    static const char *V[] = { NULL, "a", "%41%s", "x" }; static const char *N[] = { "scheme", "userinfo", "user", "pwd", "host", "port", "path", "query", "fragment" }; u_uri_t *u = NULL; const char *v[9]; for (int i = 0; i < 9; i++) v[i] = NULL; u_log_set_hook(hook, out, NULL, NULL); on = 0;
    MC_CHECK(u_uri_new(0, &u) == 0, "setup", "new"); int (*set[])(u_uri_t *, const char *) = { u_uri_set_scheme, u_uri_set_userinfo, u_uri_set_user, u_uri_set_pwd, u_uri_set_host, u_uri_set_port, u_uri_set_path, u_uri_set_query, u_uri_set_fragment };
    for (int i = 0; i < 9; i++) { int c = mc_choose(i == 0 || i == 5 ? 2 : mc_tier ? 4 : 3); if (!c) continue; const char *val = i == 5 ? "80" : V[c]; MC_CHECK(set[i](u, val) == 0, "setup", "set %s", N[i]); v[i] = val; }
    static const char *(*const get[])(u_uri_t *) = { u_uri_get_scheme, u_uri_get_userinfo, u_uri_get_user, u_uri_get_pwd, u_uri_get_host, u_uri_get_port, u_uri_get_path, u_uri_get_query, u_uri_get_fragment }; char g[9][300];
    for (int i = 0; i < 9; i++) { const char *t = get[i](u); snprintf(g[i], 300, "%s", t ? t : ""); if (v[i] && i != 1 && !(i > 1 && i < 4 && v[1])) MC_CHECK(!strcmp(g[i], v[i]), "setup", "%s is %s", N[i], g[i]); }
    int ext = mc_choose(2); size_t l0 = mc_live(); mc_op("u_uri_print, %s", ext ? "extended" : "plain"); con(0); u_uri_print(u, ext); coff(); MC_CHECK(mc_live() == l0, "leak", "blocks left");
    char w[2048]; int k = 0; w[0] = 0; for (int i = 0; i < 9; i++) { if (i == 2 || i == 3 || !*g[i]) continue; k += sprintf(w + k, "%s: \"%s\"\n", N[i], g[i]); if (i == 1 && ext) { k += sprintf(w + k, "{\n"); for (int j = 2; j < 4; j++) if (*g[j]) k += sprintf(w + k, "  %s: \"%s\"\n", N[j], g[j]); k += sprintf(w + k, "}\n"); } }
    MC_CHECK(!strcmp(w, out), "text", "shown: %s instead of: %s", mc_escs(out), mc_escs(w)); for (int i = 0; i < 9; i++) { const char *t = get[i](u); MC_CHECK(!strcmp(t ? t : "", g[i]), "changed", "%s", N[i]); } u_uri_free(u); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_state(mc_hs(2, out));
}
/* --- configurations: what goes to the standard output is what goes to a file --- */
static void run_config(void)
{
    static const char *KV[] = { "a", "a.b", "c.%s.d", "a.e", "%n" }, *VV[] = { "v", "%s%n", "", NULL }; u_config_t *c = NULL; u_log_set_hook(hook, out, NULL, NULL); on = 0; MC_CHECK(u_config_create(&c) == 0, "setup", "create"); int n = mc_choose(mc_tier ? 5 : 4); for (int i = 0; i < n; i++) { int k = mc_choose(5), v = mc_choose(3); mc_op("%s = %s", KV[k], VV[v]); (void)u_config_set_key(c, KV[k], VV[v]); }
    int lev = mc_choose(3); static char file[1 << 14]; memset(file, 0, sizeof file); FILE *f = fmemopen(file, sizeof file, "w"); u_config_print_to_fp(c, f, lev); fclose(f); size_t l0 = mc_live(); con(1); u_config_print(c, lev); coff(); MC_CHECK(!strcmp(file, out), "text", "standard output got %s, a file %s", mc_escs(out), mc_escs(file)); MC_CHECK(mc_live() == l0, "leak", "blocks left"); u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_state(mc_hs(3, out));
}
static void run_null(void) { start(); u_hmap_dbg(NULL); u_hmap_opts_dbg(NULL); u_hmap_pcy_dbg(NULL); u_json_print(NULL); static const int R[] = { U_HMAP_ERR_NONE, U_HMAP_ERR_FAIL, U_HMAP_ERR_EXISTS }; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) MC_CHECK(u_hmap_strerror(R[i]) && strcmp(u_hmap_strerror(R[i]), u_hmap_strerror(R[j])), "strerror", "codes %d and %d", i, j); mc_op("missing arguments"); mc_outcome(1); }
const struct mc_scn mc_scns[] = {
    { "maps", run_maps, MC_QT, 5, 0, 0, 0, "every key and value kind, policy, table type and serializer, up to 3 elements" },
    { "texts", run_texts, MC_QT, 3, 0, 0, 0, "every pair of keys and of values out of 10 texts with format directives and brackets" },
    { "long", run_long, MC_QT, 1, 0, 0, 0, "texts around the serializer's buffer" },
    { "faults", run_fault, MC_QT, 3, 1, 2, 0, "every failing allocation (thorough: every pair)" },
    { "json", run_json, MC_QT, 4, 0, 0, 0, "documents of up to 2 elements per level, 2 levels (thorough: 3 in one branch), indexed or not" },
    { "uri", run_uri, MC_QT, 4, 0, 0, 0, "every combination of component values" },
    { "config", run_config, MC_QT, 2, 0, 0, 0, "every sequence of up to 3 (4) settings" },
    { "null", run_null, MC_QT, 0, 0, 0, 0, "missing arguments, error names" },
    { 0 } };
