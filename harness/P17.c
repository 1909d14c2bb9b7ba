// Lexical scanner cursor and match against a model.
#include "mc.h"
#include <u/libu.h>
const char *mc_property = "P17", *mc_level = "model_checking";

static char T[1024]; static int n; static u_lexer_t *l; static int pos, lm, rm;
static int blank(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void open_(void) { char *t = malloc(n + 1); memcpy(t, T, n + 1); l = NULL; mc_op("scan \"%s\"", mc_escs(T)); MC_CHECK(u_lexer_new(t, &l) == 0 && l, "new", "creation failed"); memset(t, 'Z', n); free(t); pos = lm = rm = 0; }
static void look(const char *op)
{
    MC_CHECK((int)u_lexer_pos(l) == pos, "position", "%s: cursor is at %zu, expected %d", op, u_lexer_pos(l), pos);
    MC_CHECK(u_lexer_peek(l) == (pos < n ? T[pos] : 0), "peek", "%s: peek gives 0x%02x at %d", op, (unsigned char)u_lexer_peek(l), pos);
    MC_CHECK(!!u_lexer_eot(l) == (pos >= n), "eot", "%s: end of text is %d at %d of %d", op, u_lexer_eot(l), pos, n);
    MC_CHECK(!strcmp(u_lexer_lookahead(l), T + pos), "lookahead", "%s: lookahead is \"%s\" at %d", op, mc_escs(u_lexer_lookahead(l)), pos);
    MC_CHECK((int)u_lexer_pos(l) == pos, "query-moves", "%s: looking moved the cursor", op);
}
static void do_match(void)
{
    char *m = malloc(U_TOKEN_SZ); memset(m, '#', U_TOKEN_SZ);
    mc_op("get match %d..%d", lm, rm);
    char *r = u_lexer_get_match(l, m); int want = rm >= lm && rm - lm + 1 < U_TOKEN_SZ;
    MC_CHECK(r == (want ? m : NULL), "match-verdict", "match %d..%d of %d characters %s", lm, rm, n, r ? "was returned" : "was refused");
    if (r) { int e = rm < n ? rm + 1 : n, k = e > lm ? e - lm : 0; MC_CHECK((int)strlen(m) == k && !memcmp(m, T + lm, k), "match", "match %d..%d is \"%s\"", lm, rm, mc_escs(m)); }
    free(m); look("match");
}
static void do_op(int o)
{
    char c = '#'; int rc;
    switch (o) {
        case 0: mc_op("next"); rc = u_lexer_next(l, &c); if (pos >= n) MC_CHECK(rc == -1, "next-eot", "next past the end gives %d", rc); else { pos++; MC_CHECK(rc == 0 && c == (pos < n ? T[pos] : 0), "next", "next gives %d, 0x%02x at %d", rc, (unsigned char)c, pos); } look("next"); break;
        case 1: mc_op("skip"); rc = u_lexer_skip(l, &c); if (pos < n) { pos++; while (pos < n && blank((unsigned char)T[pos])) pos++; } if (pos >= n) MC_CHECK(rc == -1, "skip-eot", "skip to the end gives %d", rc); else MC_CHECK(rc == 0 && c == T[pos], "skip", "skip gives %d, 0x%02x at %d", rc, (unsigned char)c, pos); look("skip"); break;
        case 2: mc_op("eat blanks"); rc = u_lexer_eat_ws(l); while (pos < n && blank((unsigned char)T[pos])) pos++; MC_CHECK(rc == (pos >= n ? -1 : 0), "blanks", "eating blanks gives %d at %d of %d", rc, pos, n); look("eat blanks"); break;
        case 3: mc_op("record left"); u_lexer_record_lmatch(l); lm = pos; look("left"); break;
        case 4: mc_op("record right"); u_lexer_record_rmatch(l); rm = pos; look("right"); break;
        case 5: do_match(); break;
        case 6: case 7: { char want = o == 6 ? 'a' : ' '; mc_op("expect '%c'", want); rc = u_lexer_expect_char(l, want); int ok = pos < n && T[pos] == want; MC_CHECK((rc == 0) == ok, "expect", "expecting '%c' at %d gives %d", want, pos, rc); if (ok) pos++; else MC_CHECK(u_lexer_geterr(l) && *u_lexer_geterr(l), "error-text", "no error text"); look("expect"); break; }
        case 8: mc_op("next without character"); rc = u_lexer_next(l, NULL); MC_CHECK(rc == (pos >= n ? -1 : 0), "next", "next gives %d", rc); if (pos < n) pos++; look("next"); break;
        case 9: mc_op("skip without character"); rc = u_lexer_skip(l, NULL); if (pos < n) { pos++; while (pos < n && blank((unsigned char)T[pos])) pos++; } MC_CHECK(rc == (pos >= n ? -1 : 0), "skip", "skip gives %d", rc); look("skip"); break;
        case 10: mc_op("set error"); MC_CHECK(u_lexer_seterr(l, "e%dx%s", 7, T) == 0, "seterr", "failed"); MC_CHECK(u_lexer_geterr(l)[0] == 'e' && u_lexer_geterr(l)[1] == '7', "error-text", "error text is %s", u_lexer_geterr(l)); look("set error"); break;
    }
    mc_state(mc_h64(mc_h64(mc_h64(mc_hs(3, T), pos), lm), rm));
}
static void fin(void) { u_lexer_free(l); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); }
static void gen(const char *a, int max) { int k = (int)strlen(a); n = 0; for (int i = 0; i < max; i++) { int c = mc_choose(k + 1); if (c == k) break; T[n++] = a[c]; } T[n] = 0; }
static void run_ops(void) { gen("a b", mc_tier ? 4 : 3); open_(); look("open"); int D = mc_tier ? 6 : 5; for (int d = 0; d < D; d++) do_op(mc_choose(11)); fin(); }
/* longer walks with the moving and matching operations only */
static void run_walk(void) { static const int o[] = { 0, 1, 3, 4, 5 }; gen("a\n", mc_tier ? 6 : 5); open_(); int D = mc_tier ? 8 : 6; for (int d = 0; d < D; d++) do_op(o[mc_choose(5)]); do_op(5); fin(); }
/* whole text through each mover: every character once, in order */
static void run_whole(void) { gen("a b", mc_tier ? 11 : 8); open_(); int o = mc_choose(3); if (o == 2) do_op(2); for (int i = 0; i < n + 3; i++) do_op(o == 0 ? 0 : 1); MC_CHECK((int)u_lexer_pos(l) == n, "end", "the end is not reached"); fin(); }
static void run_bytes(void) { int c = 1 + mc_choose(255), w = mc_choose(4); n = sprintf(T, w == 0 ? "%cx" : w == 1 ? "x%cy" : w == 2 ? "x%c%cz" : "x%c", c, c); open_(); for (int i = 0; i < 4; i++) do_op(mc_choose(3)); fin(); }
static void run_limits(void)
{
    int extra = mc_choose(3) * 7; n = 120 + mc_choose(16) + extra; for (int i = 0; i < n; i++) T[i] = 'a' + i % 26; T[n] = 0; open_();
    int a = mc_choose(4), len = 122 + mc_choose(12); if (a + len > n) len = n - a;
    for (int i = 0; i < a; i++) do_op(0); do_op(3); for (int i = 0; i < len; i++) do_op(0); do_op(4); do_op(5); do_op(0); do_op(4); do_op(5); fin();
}
static void run_err(void) { int k = U_LEXER_ERR_SZ - 5 + mc_choose(10); n = 3; strcpy(T, "abc"); open_(); char *b = malloc(k + 1); memset(b, 'q', k); b[k] = 0; mc_op("error of %d characters", k); u_lexer_seterr(l, "%s", b); const char *e = u_lexer_geterr(l); MC_CHECK(strlen(e) == (size_t)(k < U_LEXER_ERR_SZ ? k : U_LEXER_ERR_SZ - 1), "error-text", "error text of %zu characters", strlen(e)); free(b); look("error");
    MC_CHECK(u_lexer_new(NULL, &l) != 0 && u_lexer_get_match(l, NULL) == NULL && u_lexer_geterr(NULL) == NULL && u_lexer_eat_ws(NULL) == -1, "null", "a NULL argument was accepted"); fin(); }
/* two scanners at the same time */
static struct slot { char t[16]; int n, pos, lm, rm, erred; u_lexer_t *l; } S[2];
static void in(int w) { n = S[w].n; strcpy(T, S[w].t); l = S[w].l; pos = S[w].pos; lm = S[w].lm; rm = S[w].rm; mc_note("[scanner %d]", w); }
static void out(int w) { S[w].n = n; strcpy(S[w].t, T); S[w].l = l; S[w].pos = pos; S[w].lm = lm; S[w].rm = rm; }
static void run_two(void)
{
    static const char *t[] = { "ab a", " a", "b ", "aaa" }; static const int o[] = { 0, 1, 2, 3, 4, 5, 10 }; int k = mc_choose(10), x = 0, y = 0, D = mc_tier ? 5 : 4; for (int i = 0; i < k; i++) if (++y == 4) { x++; y = x; }
    for (int w = 0; w < 2; w++) { strcpy(T, t[w ? y : x]); n = (int)strlen(T); open_(); out(w); S[w].erred = 0; }
    for (int d = 0; d < D; d++) { int w = mc_choose(2), a = o[mc_choose(7)]; in(w); do_op(a); out(w); if (a == 10) S[w].erred = 1; for (w = 0; w < 2; w++) { char e[32]; in(w); look("meanwhile"); sprintf(e, "e7x%s", T); if (S[w].erred) MC_CHECK(!strcmp(u_lexer_geterr(l), e), "error-text", "scanner %d has error text %s", w, u_lexer_geterr(l)); } }
    in(0); do_op(5); u_lexer_free(l); in(1); do_op(5); look("alone"); fin();
}
const struct mc_scn mc_scns[] = {
    { "operations", run_ops, MC_QT, 3, 0, 0, 0, "all texts of up to 3 (thorough 4) of a, b, blank; every sequence of 5 (thorough 6) of 11 operations" },
    { "walks", run_walk, MC_QT, 3, 0, 0, 0, "all texts of up to 5 (thorough 6) of a and newline; every sequence of 6 (thorough 8) moves and matches" },
    { "whole", run_whole, MC_QT, 2, 0, 0, 0, "all texts of up to 8 (thorough 11) characters read to the end" },
    { "bytes", run_bytes, MC_QT, 1, 0, 0, 0, "every byte value, sequences of 4 moves" },
    { "two scanners", run_two, MC_QT, 3, 0, 0, 0, "two scanners on every pair of 4 texts, every interleaving of 4 (5) of 7 operations" },
    { "limits", run_limits, MC_QT, 2, 0, 0, 0, "matches of 122..135 characters in texts of 120..149" },
    { "errors", run_err, MC_QT, 0, 0, 0, 0, "error texts around the buffer size" },
    { 0 } };
