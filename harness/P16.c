// URI recomposition and component setters.
#include "uri_model.h"
const char *mc_property = "P16", *mc_level = "model_checking";

static char V[NCOMP][400], A[400];  /* model of the object */
static int literal;                 /* parsed from a bracketed host, not set since */
static void getters(u_uri_t *u, const char *op)
{
    for (int i = 0; i < NCOMP; i++) { const char *g = ugetters[i](u); MC_CHECK(g && !strcmp(g, V[i]), "component", "%s: %s reads \"%s\", expected \"%s\"", op, ucn[i], g ? mc_escs(g) : "NULL", V[i]); }
}
/* what the text must parse to */
static void expect(char E[NCOMP][400], int *has_auth)
{
    struct um m; char t[1024];
    memcpy(E, V, sizeof V);
    *has_auth = 1;
    if (*A) { sprintf(t, "s://%s", A); MC_CHECK(um_parse(t, &m), "harness", "bad authority"); for (int i = CUI; i <= CPORT; i++) sprintf(E[i], "%.*s", m.n[i], m.b[i]); }
    else {
        if (*E[CUI]) { sprintf(t, "s://%s@", E[CUI]); um_parse(t, &m); sprintf(E[CU], "%.*s", m.n[CU], m.b[CU]); sprintf(E[CP], "%.*s", m.n[CP], m.b[CP]); }
        else sprintf(E[CUI], "%s%s%s", E[CU], *E[CP] ? ":" : "", E[CP]);
        *has_auth = *E[CUI] || *E[CH] || *E[CPORT];
    }
    if (*has_auth && *E[CPATH] && *E[CPATH] != '/') { memmove(E[CPATH] + 1, E[CPATH], strlen(E[CPATH]) + 1); E[CPATH][0] = '/'; }
}
static void knead(u_uri_t *u)
{
    char E[NCOMP][400], *s = malloc(U_URI_STRMAX), *s2 = malloc(U_URI_STRMAX), *t; int ha, big = 0; struct um m;
    expect(E, &ha); memset(s, 'x', U_URI_STRMAX);
    mc_op("recompose");
    int rc = u_uri_knead(u, s);
    MC_CHECK(rc == 0, "knead", "recomposition failed");
    MC_CHECK(memchr(s, 0, U_URI_STRMAX), "unterminated", "text is not terminated");
    getters(u, "recompose");
    t = malloc(strlen(s) + 3);
    sprintf(t, "%s%s", *E[CS] ? "" : "s:", s);
    MC_CHECK(um_parse(t, &m), "text", "recomposed \"%s\" is not a URI", mc_escs(t));
    for (int i = *E[CS] ? 0 : 1; i < NCOMP; i++) {
        if (m.n[i] != (int)strlen(E[i]) || memcmp(m.b[i], E[i], m.n[i])) mc_fail("text", "recomposed \"%s\" has %s \"%.*s\", expected \"%s\"", mc_escs(t), ucn[i], m.n[i], m.b[i], E[i]);
        if (m.n[i] > U_TOKEN_SZ - 3) big = 1;
    }
    int lit = *A ? strchr(A, '[') != NULL : literal || strchr(V[CH], ':');
    MC_CHECK(m.literal == lit, "brackets", "recomposed \"%s\" %s square brackets", mc_escs(t), m.literal ? "has" : "lacks");
    MC_CHECK(ha || !m.has_auth || !strncmp(E[CPATH], "//", 2), "text", "recomposed \"%s\" has an authority from nowhere", mc_escs(t));
    MC_CHECK(u_uri_knead(u, s2) == 0 && !strcmp(s, s2), "again", "recomposing again gives \"%s\"", mc_escs(s2));
    if (*E[CS] && !big) {
        u_uri_t *w = NULL;
        MC_CHECK(u_uri_crumble(s, 0, &w) == 0, "reparse", "recomposed \"%s\" does not parse", mc_escs(s));
        for (int i = 0; i < NCOMP; i++) MC_CHECK(!strcmp(ugetters[i](w), E[i]), "reparse", "recomposed \"%s\" parses to %s \"%s\", expected \"%s\"", mc_escs(s), ucn[i], mc_escs(ugetters[i](w)), E[i]);
        u_uri_free(w);
    }
    mc_state(mc_hs(1, s));
    free(s); free(s2); free(t);
}
static void set(u_uri_t *u, int c, const char *v)
{
    int fits = strlen(v) < U_TOKEN_SZ;
    mc_op("set %s to \"%s\"", ucn[c], mc_escs(v));
    int rc = usetters[c](u, v);
    MC_CHECK((rc == 0) == fits, "set", "setting %s to %zu characters %s", ucn[c], strlen(v), rc ? "failed" : "succeeded");
    if (fits) strcpy(V[c], v); else snprintf(V[c], sizeof V[c], "%s", ugetters[c](u));
    if (c == CH && fits) literal = 0;
    getters(u, "set");
}
static void set_auth(u_uri_t *u, const char *v) { mc_op("set authority to \"%s\"", v); MC_CHECK(u_uri_set_authority(u, v) == 0, "set", "setting the authority failed"); strcpy(A, v); getters(u, "set authority"); MC_CHECK(!strcmp(u_uri_get_authority(u), v), "component", "authority reads %s", u_uri_get_authority(u)); }
static u_uri_t *fresh(void) { u_uri_t *u = NULL; memset(V, 0, sizeof V); *A = 0; literal = 0; MC_CHECK(u_uri_new(mc_choose(2) ? U_URI_OPT_DONT_PARSE_USERINFO : 0, &u) == 0, "new", "creation failed"); strcpy(V[CPATH], "/"); getters(u, "new"); return u; }
static void fin(u_uri_t *u) { u_uri_free(u); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); }

static const char *vals[NCOMP][8] = {
    { "s", "a+b-c.1", "" }, { "u", "u:p:q", "%41;x", "" }, { "v", "a%20b", "" }, { "w", "!", "" }, { "h", "1.2.3.4", "::1", "w-_~.x", "fe80::1:2", "v1.x", "" },
    { "80", "http", "" }, { "/", "p", "/p/q", "//p", "p:q@r//", "/%7e", "", "///" }, { "q", "a=b&c=/?:@", "%00", "" }, { "f", "/?:@x", "" } };
static const int nvals[NCOMP] = { 3, 4, 3, 3, 7, 3, 8, 4, 3 };
static const char *auths[] = { "", "x.y:1", "a:b@[::1]:2", "@" };

/* every combination of component values */
static void run_combos(void)
{
    u_uri_t *u = fresh();
    static const int full[2][NCOMP] = { { 1, 2, 1, 1, 4, 1, 4, 1, 1 }, { 2, 3, 2, 2, 6, 2, 8, 3, 2 } };
    static const char *sm_host[] = { "h", "::1", "v1.x", "1.2.3.4" }, *sm_path[] = { "p", "/p/q", "//p", "" };
    if (mc_tier == 0) { for (int c = 0; c < NCOMP; c++) { int n = full[0][c], k = mc_choose(n + 1); if (k < n) set(u, c, c == CH ? sm_host[k] : c == CPATH ? sm_path[k] : vals[c][k]); } }
    else for (int c = 0; c < NCOMP; c++) { int n = full[1][c], k = mc_choose(n + 1); if (k < n) set(u, c, vals[c][k]); }
    int a = mc_choose(mc_tier ? 2 : 3); if (a) set_auth(u, auths[a]);
    knead(u); fin(u);
}
/* every sequence of settings, including overwrites and resets */
static void run_seq(void)
{
    u_uri_t *u = fresh(); int D = mc_tier ? 4 : 3;
    if (mc_choose(2)) set(u, CS, "s");
    for (int d = 0; d < D; d++) { int c = mc_choose(NCOMP + 1); if (c == NCOMP) set_auth(u, auths[mc_choose(4)]); else set(u, c, vals[c][mc_choose(nvals[c])]); }
    knead(u); fin(u);
}
static u_uri_t *parsed(const char *t, int opt)
{
    struct um m; u_uri_t *u = NULL;
    if (!um_parse(t, &m) || m.fuzzy || m.maxn > U_TOKEN_SZ - 3) return NULL;
    mc_op("parse \"%s\"", mc_escs(t));
    MC_CHECK(u_uri_crumble(t, opt ? U_URI_OPT_DONT_PARSE_USERINFO : 0, &u) == 0, "parse", "refused \"%s\"", mc_escs(t));
    for (int i = 0; i < NCOMP; i++) sprintf(V[i], "%.*s", (i == CU || i == CP) && opt ? 0 : m.n[i], m.b[i]);
    literal = m.literal; *A = 0; getters(u, "parse"); return u;
}
static const char *seeds[] = { "s:", "s:p", "s:/p/q", "s:////p", "s://h", "s://u:p@h:80/x?q#f", "s://[::1]:1/a", "s://[v1.x]/", "s://u@[v9.a:b]", "file:///etc/passwd", "s://u@/p", "s://:8/", "s://@h", "mailto:a@b.c", "s:?q", "s:#f", "s://1.2.3.4?x", "s://h?", "s:p//q" };
static void run_edit(void)
{
    u_uri_t *u = parsed(seeds[mc_choose(19)], mc_choose(2)); MC_CHECK(u, "harness", "bad seed");
    knead(u);
    int D = mc_tier ? 3 : 2; for (int d = 0; d < D; d++) { int c = mc_choose(NCOMP + 1); if (c == NCOMP) set_auth(u, auths[mc_choose(4)]); else set(u, c, vals[c][mc_choose(nvals[c])]); knead(u); }
    fin(u);
}
static char T[4096]; static int tn;
static void chars(const char *a, int max) { int k = (int)strlen(a); for (int i = 0; i < max; i++) { int c = mc_choose(k + 1); if (c == k) break; T[tn++] = a[c]; } T[tn] = 0; }
static void run_texts(void)
{
    static const char *pre[] = { "s:", "s://", "s://h", "s://u:p@", "s://[::1]" };
    strcpy(T, pre[mc_choose(5)]); tn = (int)strlen(T); chars("a1:/?#@.", mc_tier ? 7 : 5);
    u_uri_t *u = parsed(T, 0); if (!u) { mc_discard(); }
    knead(u); fin(u);
}
static void run_lengths(void)
{
    u_uri_t *u = fresh(); char b[400]; int n = 122 + mc_choose(10), only = mc_choose(NCOMP + 1); memset(b, 'a', n); b[n] = 0; set(u, CS, "s");
    for (int c = 0; c < NCOMP; c++) if (only == NCOMP || only == c) { if (only != NCOMP || n < U_TOKEN_SZ) set(u, c, b); else MC_CHECK(usetters[c](u, b) != 0, "set", "setting %s to %d characters succeeded", ucn[c], n); }
    if (n < U_TOKEN_SZ) knead(u);
    for (int c = 0; c < NCOMP; c++) MC_CHECK(usetters[c](u, NULL) != 0 && usetters[c](NULL, "x") != 0 && ugetters[c](NULL) == NULL, "set-null", "a NULL argument was accepted");
    fin(u);
}
const struct mc_scn mc_scns[] = {
    { "combinations", run_combos, MC_QT, 3, 0, 0, 0, "every combination of component values (thorough: more values), with and without an explicit authority" },
    { "sequences", run_seq, MC_QT, 3, 0, 0, 0, "every sequence of 3 (thorough 4) settings out of 39 values, with overwriting and clearing" },
    { "parse-edit", run_edit, MC_QT, 3, 0, 0, 0, "19 parsed URIs, every sequence of 2 (thorough 3) settings, recomposed after each" },
    { "parsed", run_texts, MC_QT, 3, 0, 0, 0, "every URI made of 5 beginnings and up to 5 (thorough 7) characters of a1:/?#@." },
    { "lengths", run_lengths, MC_QT, 1, 0, 0, 0, "values of 122..131 characters in each and in all components" },
    { 0 } };
