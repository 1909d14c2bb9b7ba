// JSON acceptance against a reference grammar.
#include "json_model.h"
#include "json_gen.h"
#include <pthread.h>
const char *mc_property = "P12", *mc_level = "model_checking";

static void judge(void)
{
    char status[U_LEXER_ERR_SZ]; u_json_t *jo = NULL;
    char *t = malloc(tn + 1); memcpy(t, T, tn + 1);
    mc_op("decode \"%s\"", mc_escs(T));
    int want = jparse(t, U_JSON_MAX_DEPTH), vt = jvtff;
    uint64_t h = want ? jhash(0) : 0;
    int rc = u_json_decode(t, &jo);
    if (rc == 0 && !want) mc_fail("accepts-malformed", "accepted: \"%s\"", mc_escs(T));
    if (rc == 0 && vt && mc_is_known("vt-ff-blank")) mc_known("vt-ff-blank");
    MC_CHECK(!(rc != 0 && want), "refuses-wellformed", "refused: \"%s\"", mc_escs(T));
    MC_CHECK((jo != NULL) == (rc == 0), "object-on-failure", "object returned with status %d", rc);
    if (jo) { jcmp(jo, 0, "decoded"); u_json_free(jo); }
    int vwant = jparse(t, 1 << 30);
    int vrc = u_json_validate(t, status);
    MC_CHECK((vrc == 0) == vwant, "validate-verdict", "validation says %d for \"%s\"", vrc, mc_escs(T));
    if (vrc) MC_CHECK(memchr(status, 0, sizeof status) != NULL, "status", "error text is not terminated");
    MC_CHECK(mc_live() == 0, "leak", "%zu blocks left after judging \"%s\"", mc_live(), mc_escs(T));
    free(t);
    mc_state(want ? h : 1);
}
static void run_tokens(void) { gen_tokens(mc_tier ? 6 : 5); judge(); }
static void run_inner(void) { static const char *pre[] = { "[", "{\"k\":", "[1", "{\"k\":[", "[{\"a\":1}" }; const char *p = pre[mc_choose(5)]; char tmp[4096]; gen_tokens(mc_tier ? 5 : 4); strcpy(tmp, T); tn = 0; tput(p); tput(tmp); judge(); }
static void run_number(void) { gen_chars(mc_choose(2) ? "[" : "{\"a\":[1,", "01-+.eE", 7, mc_tier ? 7 : 6, "]"); judge(); }
static void run_string(void) { static const char a[] = "a\\\"u0F/\n\x7f\xc3g"; gen_chars(mc_choose(2) ? "[\"" : "{\"", a, (int)sizeof a - 1, mc_tier ? 6 : 5, T[0] == '[' ? "\"]" : "\":0}"); judge(); }
static void run_uni(void) { static const char a[] = "09afAFgG@`/: "; gen_chars("[\"\\u", a, (int)sizeof a - 1, 4, "\"]"); judge(); }
static void run_chars(void) { static const char a[] = "[]{},:\"1 a"; gen_chars("", a, (int)sizeof a - 1, mc_tier ? 7 : 6, ""); judge(); }
static void run_lit(void) { gen_literal(); judge(); }
static void run_lim(void) { gen_limits(); judge(); }
static void run_depth(void) { gen_depth(); judge(); }
static void run_byte(void) { int w = mc_choose(6), c = 1 + mc_choose(255); char b[2] = { (char)c, 0 }; static const char *f[] = { "[\"x%sy\"]", "[%s1]", "[1%s]", "{\"a\"%s:1}", "{%s\"a\":1}", "%s[1]" }; tn = sprintf(T, f[w], b); judge(); }
static void run_esc(void) { int w = mc_choose(12), c = 1 + mc_choose(255); static const char *f[] = { "[\"\\%c\"]", "[\"\\%c1234\"]", "[\"\\%c00e9x\"]", "{\"\\%c1234\":1}", "{\"\\%c\":1}", "[\"\\u%c234\"]", "[\"\\u1%c34\"]", "[\"\\u12%c4\"]", "[\"\\u123%c\"]", "{\"\\u123%c\":1}", "[\"\\\\%c1234\"]", "[\"\\u12345%c\"]" }; tn = sprintf(T, f[w], c); judge(); }
static void run_edit(void)
{
    static const char *doc[] = { "[-10.5e-3,0,12E+4]", "[-1]", "[\"a\\n\\u00e9\",-0.0e0]", "{\"a\":[true,{}],\"b\":null}", " { \"k\" : -7 , \"l\" : [ false ] } " };
    const char *d = doc[mc_choose(5)]; int n = (int)strlen(d), ins = mc_choose(3), at = mc_choose(n + 1), c;
    if (ins == 2) { if (at == n) mc_discard(); tn = sprintf(T, "%.*s%s", at, d, d + at + 1); } /* one character removed */
    else { if (!ins && at == n) mc_discard(); c = 1 + mc_choose(255); tn = sprintf(T, "%.*s%c%s", at, d, c, d + at + !ins); }
    judge();
}
static void run_many(void)
{
    static const int ns[] = { 1, 10, 1000, 3000 }; int n = ns[mc_choose(4)] - mc_choose(2), obj = mc_choose(2); char *s = malloc(n * 24 + 32); size_t l = 0;
    s[l++] = obj ? '{' : '['; for (int i = 0; i < n; i++) l += sprintf(s + l, obj ? "%s\"k%d\":%d" : "%s%.0d%d", i ? "," : "", obj ? i : 0, i); s[l++] = obj ? '}' : ']'; s[l] = 0;
    u_json_t *jo = NULL; mc_op("decode %d elements", n);
    MC_CHECK(jparse(s, 16), "harness", "bad harness text");
    MC_CHECK(u_json_decode(s, &jo) == 0, "refuses-wellformed", "refused a container of %d elements", n);
    u_json_it_t it; u_json_it(u_json_child_first(jo), &it); int k = 0; while (u_json_it_next(&it)) k++;
    MC_CHECK(k == n, "tree-children", "%d of %d elements decoded", k, n);
    u_json_free(jo); free(s); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
/* long flat containers must not exhaust the stack: run on a 128 kB one */
static char *hs_; static int hrc[3]; static char hst[U_LEXER_ERR_SZ];
static void *hthread(void *x) { u_json_t *jo = NULL; char *o = NULL; (void) x; hrc[0] = u_json_validate(hs_, hst); hrc[1] = u_json_decode(hs_, &jo); if (jo) { hrc[2] = u_json_encode(jo, &o); u_free(o); u_json_free(jo); } return NULL; }
static void run_huge(void)
{
    int n = 20000, obj = mc_choose(2); char *s = hs_ = malloc(n * 6 + 32); size_t l = 0;
    s[l++] = obj ? '{' : '['; for (int i = 0; i < n; i++) l += sprintf(s + l, obj ? "%s\"\":1" : "%s1", i ? "," : ""); s[l++] = obj ? '}' : ']'; s[l] = 0;
    mc_op("validate, decode and destroy %d elements on a small stack", n);
    pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 << 10);
    MC_CHECK(pthread_create(&t, &a, hthread, NULL) == 0, "harness", "no thread"); pthread_join(t, NULL);
    MC_CHECK(!hrc[0] && !hrc[1] && !hrc[2], "refuses-wellformed", "container of %d elements: validate %d decode %d encode %d", n, hrc[0], hrc[1], hrc[2]);
    free(s); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
const struct mc_scn mc_scns[] = {
    { "tokens", run_tokens, MC_QT, 2, 0, 0, 0, "all texts of up to 5 (thorough 6) of 16 tokens" },
    { "inside", run_inner, MC_QT, 3, 0, 0, 0, "all texts of up to 4 (thorough 5) tokens following five well-formed beginnings" },
    { "characters", run_chars, MC_QT, 2, 0, 0, 0, "all texts of up to 6 (thorough 7) characters of []{},:\"1 a and blank" },
    { "numbers", run_number, MC_QT, 2, 0, 0, 0, "all number texts of up to 6 (thorough 7) characters of 01-+.eE" },
    { "strings", run_string, MC_QT, 2, 0, 0, 0, "all string texts of up to 5 (thorough 6) of 11 characters, as key and value" },
    { "unicode-escapes", run_uni, MC_QT, 2, 0, 0, 0, "all 4-character \\u escapes over 13 characters at the hex digit boundaries" },
    { "literals", run_lit, MC_QT, 1, 0, 0, 0, "every one-character edit of true, false, null" },
    { "bytes", run_byte, MC_QT, 1, 0, 0, 0, "every byte value in six positions" },
    { "edits", run_edit, MC_QT, 2, 0, 0, 0, "every removal, replacement or insertion of one byte in five documents" },
    { "escapes", run_esc, MC_QT, 1, 0, 0, 0, "every byte after a backslash, alone or with hex digits, and in every position of a \\u escape" },
    { "limits", run_lim, MC_QT, 1, 0, 0, 0, "strings, keys and numbers of 123..134 characters" },
    { "depth", run_depth, MC_QT, 1, 0, 0, 0, "nesting of 13..17 containers" },
    { "many", run_many, MC_QT, 1, 0, 0, 0, "containers of up to 3000 elements" },
    { "huge", run_huge, MC_QT, 1, 0, 0, 0, "containers of 20000 elements on a 256 kB stack" },
    { 0 } };
