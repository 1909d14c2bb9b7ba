// Text helpers: exact results within exact bounds (every buffer is exactly as big as stated).
#include "mc.h"
#include <limits.h>
#include <fcntl.h>
#include <unistd.h>
#include <u/libu.h>
const char *mc_property = "P19", *mc_level = "model_checking";

static char T[512]; static int n;
static void gen(const char *a, int max) { int k = (int)strlen(a); n = 0; for (int i = 0; i < max; i++) { int c = mc_choose(k + 1); if (c == k) break; T[n++] = a[c]; } T[n] = 0; }
static char *dup_(void) { char *t = malloc(n + 1); memcpy(t, T, n + 1); return t; }
#define LEAK() MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live())

static void run_trim(void)
{
    gen(" \ta\n", mc_tier ? 10 : 8); char *t = dup_(); int b = 0, e = n, all = 1;
    while (b < n && (T[b] == ' ' || T[b] == '\t')) b++; while (e > b && (T[e - 1] == ' ' || T[e - 1] == '\t')) e--;
    for (int i = 0; i < n; i++) if (T[i] != ' ' && T[i] != '\t') all = 0;
    mc_op("trim \"%s\"", mc_escs(T));
    MC_CHECK(!!u_isblank_str(t) == all, "blank-text", "\"%s\" is %sblank", mc_escs(T), all ? "not " : "");
    u_trim(t); MC_CHECK((int)strlen(t) == e - b && !memcmp(t, T + b, e - b), "trim", "\"%s\" trims to \"%s\"", mc_escs(T), mc_escs(t));
    mc_state(mc_hs(1, t)); free(t); u_trim(NULL);
}
static void run_chars(void)
{
    int c = mc_choose(256) - 128; mc_op("character %d", c);
    MC_CHECK(!!u_isblank(c) == (c == ' ' || c == '\t'), "blank-char", "%d", c); MC_CHECK(!!u_isnl(c) == (c == '\n' || c == '\r'), "newline-char", "%d", c);
    int sz = mc_choose(4), at = mc_choose(4); char *d = malloc(sz ? sz : 1); memset(d, 'a', sz); if (at < sz) d[at] = (char)c; mc_op("binary test of %d bytes", sz);
    MC_CHECK(!!u_data_is_bin(d, sz) == (at < sz && c < 0), "binary", "byte %d at %d of %d", c, at, sz); free(d);
}
static void run_dup(void)
{
    gen("ab ", mc_tier ? 6 : 5); char *t = dup_(); size_t l = mc_choose(n + 3); mc_op("duplicate %zu of \"%s\"", l, T);
    char *c = u_strndup(t, l); MC_CHECK((c != NULL) == ((int)l <= n), "strndup", "%zu of %d characters", l, n); if (c) { MC_CHECK(strlen(c) == l && !memcmp(c, T, l) && c != t, "strndup", "\"%s\"", mc_escs(c)); u_free(c); }
    c = u_strdup(t); MC_CHECK(c && !strcmp(c, T) && c != t, "strdup", "\"%s\"", c ? c : "NULL"); u_free(c);
    if ((int)l <= n) { c = u_memdup(t, l ? l : 1); MC_CHECK(c && !memcmp(c, T, l), "memdup", "%zu bytes", l); u_free(c); }
    free(t); LEAK();
}
static void run_copy(void)
{
    gen("abc", mc_tier ? 6 : 5); int sz = mc_choose(8), dl = mc_choose(sz + 1), op = mc_choose(3); char *t = dup_(), *d = malloc(sz ? sz : 1);
    if (op == 0) {
        memset(d, '#', sz); mc_op("copy \"%s\" to %d bytes", T, sz); int rc = u_strlcpy(d, t, sz);
        MC_CHECK((rc == 0) == (n < sz), "strlcpy-verdict", "%d characters to %d bytes: %d", n, sz, rc);
        if (sz) { int k = n < sz ? n : sz - 1; MC_CHECK((int)strnlen(d, sz) == k && !memcmp(d, T, k), "strlcpy", "wrong copy"); }
    } else if (op == 1) {
        if (dl == sz && sz) mc_discard();
        memset(d, '#', sz); if (sz) { memset(d, 'x', dl); d[dl] = 0; }
        mc_op("append \"%s\" to %d characters in %d bytes", T, dl, sz); int rc = u_strlcat(d, t, sz);
        MC_CHECK((rc == 0) == (dl + n < sz), "strlcat-verdict", "%d+%d characters in %d bytes: %d", dl, n, sz, rc);
        if (sz) { int k = dl + n < sz ? dl + n : sz - 1; MC_CHECK((int)strnlen(d, sz) == k && !memcmp(d + dl, T, k - dl), "strlcat", "wrong text"); for (int i = 0; i < dl; i++) MC_CHECK(d[i] == 'x', "strlcat", "prefix lost"); }
    } else {
        if (!sz) mc_discard();
        memset(d, '#', sz); mc_op("deprecated copy of \"%s\" to %d bytes", T, sz); char *r = u_sstrncpy(d, t, sz - 1); int k = n < sz ? n : sz - 1;
        MC_CHECK(r == d && (int)strnlen(d, sz) == k && !memcmp(d, T, k), "sstrncpy", "wrong copy");
    }
    free(t); free(d);
}
static void run_print(void)
{
    gen("a/", mc_tier ? 9 : 7); int sz = mc_choose(mc_tier ? 12 : 10), how = mc_choose(3); char want[64], *d = malloc(sz ? sz : 1), *t = dup_(); int k = 0;
    memset(d, '#', sz);
    if (how == 0) { mc_op("print \"%s\" to %d bytes", T, sz); int rc = u_snprintf(d, sz, "%s", t); MC_CHECK((rc == 0) == (n < sz), "snprintf-verdict", "%d characters in %d bytes: %d", n, sz, rc); if (!rc) MC_CHECK(!strcmp(d, T), "snprintf", "wrong text"); }
    else {
        char sep = how == 1 ? '/' : 'a', full[64]; int h = n / 2; sprintf(full, "%.*s%s", h, T, T + h);
        for (int i = 0; i < n; i++) if (!(full[i] == sep && k && want[k - 1] == sep)) want[k++] = full[i]; want[k] = 0;
        mc_op("path print \"%s\" with separator %c to %d bytes", T, sep, sz); int rc = u_path_snprintf(d, sz, sep, "%.*s%s", h, t, t + h);
        if (rc == 0) MC_CHECK(k < sz && !strcmp(d, want), "path", "\"%s\" becomes \"%s\"", T, mc_escs(d));
        MC_CHECK(rc == 0 || n >= sz, "path-verdict", "%d characters in %d bytes refused", n, sz); MC_CHECK(rc != 0 || n < sz || k < sz, "path-verdict", "%d characters in %d bytes accepted", n, sz);
    }
    free(d); free(t);
}
static void run_print_err(void) { char d[8]; mc_op("print an unencodable character"); MC_CHECK(u_snprintf(d, sizeof d, "%lc", 0xd800) != 0, "snprintf-error", "a failed print succeeded"); MC_CHECK(u_path_snprintf(d, sizeof d, '/', "%lc", 0xd800) != 0, "snprintf-error", "a failed path print succeeded"); }
/* reference split */
static int split(const char *s, const char *delim, char out[][64]) { int k = 0, l = 0; for (;; s++) { if (!*s || strchr(delim, *s)) { if (l) { out[k][l] = 0; k++; l = 0; } if (!*s) return k; } else out[k][l++] = *s; } }
static void judge_split(const char *delim)
{
    static char out[256][64]; int k = split(T, delim, out); char *t = dup_(), **tv = NULL; size_t ne = 999;
    mc_op("split \"%s\" at \"%s\"", mc_escs(T), delim);
    MC_CHECK(u_strtok(t, delim, &tv, &ne) == 0, "strtok", "splitting failed"); MC_CHECK(!strcmp(t, T), "strtok-input", "the text was modified"); MC_CHECK((int)ne == k, "strtok-count", "%zu tokens, expected %d", ne, k);
    for (int i = 0; i < k; i++) MC_CHECK(!strcmp(tv[i], out[i]), "strtok-token", "token %d is \"%s\", expected \"%s\"", i, mc_escs(tv[i]), out[i]);
    MC_CHECK(mc_is_live(tv[ne]), "strtok-owner", "the duplicate is not behind the last token");
    u_strtok_cleanup(tv, ne); u_strtok_cleanup(NULL, 3); free(t); LEAK();
    mc_state(mc_h64(mc_hs(2, T), k));
}
static void run_split(void) { static const char *d[] = { ",", ", ", "", "a", "," }; gen("a,b ", mc_tier ? 10 : 8); judge_split(d[mc_choose(4)]); }
/* token counts around the vector growth steps */
static void run_many(void) { int k = mc_choose(mc_tier ? 65 : 45), extra = mc_choose(8); n = 0; if (extra & 1) T[n++] = ','; for (int i = 0; i < k; i++) { if (i) { T[n++] = ','; if (extra & 4) T[n++] = ','; } T[n++] = 'a' + i % 26; T[n++] = 'A' + i / 26; } if (extra & 2) T[n++] = ','; T[n] = 0; judge_split(","); }
static void run_tokenize(void)
{
    static char out[256][64]; static const char *ds[] = { ",", ", ", "" }; const char *delim = ds[mc_choose(3)]; gen("a, ", mc_tier ? 9 : 8); int sz = 1 + mc_choose(5), k = split(T, delim, out), m = k < sz - 1 ? k : sz - 1;
    char *t = dup_(), **tv = malloc(sz * sizeof *tv); for (int i = 0; i < sz; i++) tv[i] = (char *)16;
    mc_op("tokenize \"%s\" at \"%s\" into %d cells", T, delim, sz); int rc = u_tokenize(t, delim, tv, sz);
    MC_CHECK(rc == 0 || k > sz - 1, "tokenize", "tokenizing failed");
    if (rc == 0) { for (int i = 0; i < m; i++) MC_CHECK(tv[i] > (char *)16 && !strcmp(tv[i], out[i]), "tokenize-token", "token %d is wrong", i); MC_CHECK(tv[m] == NULL, "tokenize-end", "the end is not marked after %d of %d tokens in %d cells", m, k, sz); }
    MC_CHECK(u_tokenize(t, delim, tv, 0) != 0, "tokenize-zero", "no cells accepted");
    free(t); free(tv);
}
/* long texts */
static void run_long(void)
{
    static const int N[] = { 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 200000 }; int l = N[mc_choose(21)], op = mc_choose(10), v = mc_choose(3), rc; static char t[200100], want[200100]; char *d, *x, **tv = NULL; size_t ne = 0;
    for (int i = 0; i < l; i++) t[i] = 'a' + i % 23; t[l] = 0; mc_op("operation %d, variant %d, %d characters", op, v, l);
    switch (op) {
    case 0: { int at = v == 0 ? 0 : v == 1 ? l / 2 : l - 1; d = malloc(l); memcpy(d, t, l); MC_CHECK(!u_data_is_bin(d, l), "binary", "text is binary"); d[at] = (char)0x80; MC_CHECK(u_data_is_bin(d, l), "binary", "byte %d of %d is not noticed", at, l); free(d); break; }
    case 1: { size_t k = v == 0 ? l : v == 1 ? l - 1 : l + 1; d = malloc(l + 1); memcpy(d, t, l + 1); x = u_strndup(d, k); MC_CHECK(!x == (k > (size_t)l), "strndup", "%zu of %d characters", k, l); if (x) { MC_CHECK(strlen(x) == k && !memcmp(x, t, k), "strndup", "text differs"); u_free(x); } x = u_strdup(d); MC_CHECK(x && !strcmp(x, t), "strdup", "text differs"); u_free(x); x = u_memdup(d, l + 1); MC_CHECK(x && !strcmp(x, t), "memdup", "differs"); u_free(x); free(d); break; }
    case 2: { int b = v ? l : 3, e = v == 1 ? 0 : v == 2 ? l : 3; d = malloc(2 * l + l + 8); memset(d, ' ', b); memcpy(d + b, t, l); memset(d + b + l, '\t', e); d[b + l + e] = 0; u_trim(d); MC_CHECK(!strcmp(d, t), "trim", "wrong text of %zu characters", strlen(d)); MC_CHECK(!u_isblank_str(d), "blank-text", "blank"); memset(d, ' ', l); d[l] = 0; MC_CHECK(u_isblank_str(d), "blank-text", "not blank"); d[l - 1] = 'x'; MC_CHECK(!u_isblank_str(d), "blank-text", "blank"); free(d); break; }
    case 3: { int sz = l + v; d = malloc(sz ? sz : 1); memset(d, '#', sz); rc = u_strlcpy(d, t, sz); MC_CHECK((rc == 0) == (l < sz), "strlcpy-verdict", "%d characters to %d bytes: %d", l, sz, rc); int k = l < sz ? l : sz - 1; MC_CHECK((int)strnlen(d, sz) == k && !memcmp(d, t, k), "strlcpy", "wrong copy"); free(d); break; }
    case 4: { int sz = 2 * l + v; d = malloc(sz); memcpy(d, t, l + 1); rc = u_strlcat(d, t, sz); MC_CHECK((rc == 0) == (2 * l < sz), "strlcat-verdict", "%d+%d characters in %d bytes: %d", l, l, sz, rc); int k = 2 * l < sz ? l : sz - 1 - l; MC_CHECK((int)strnlen(d, sz) == l + k && !memcmp(d, t, l) && !memcmp(d + l, t, k), "strlcat", "wrong text"); free(d); break; }
    case 5: { int sz = l + v; d = malloc(sz); rc = u_snprintf(d, sz, "%s", t); MC_CHECK((rc == 0) == (l < sz), "snprintf-verdict", "%d characters in %d bytes: %d", l, sz, rc); if (!rc) MC_CHECK(!strcmp(d, t), "snprintf", "wrong text"); free(d); break; }
    case 6: { int k = 0; for (int i = 0; i < l; i++) { if (i % 7 == 3 || i % 7 == 4) t[i] = '/'; if (!(t[i] == '/' && k && want[k - 1] == '/')) want[k++] = t[i]; } want[k] = 0; int sz = l + v; d = malloc(sz); rc = u_path_snprintf(d, sz, '/', "%s", t); MC_CHECK((rc == 0) == (l < sz) || (rc == 0 && k < sz), "path-verdict", "%d characters in %d bytes: %d", l, sz, rc); if (!rc) MC_CHECK(!strcmp(d, want), "path", "wrong text"); free(d); break; }
    case 7: { int step = v == 0 ? 2 : v == 1 ? 100 : l; if (l > 70000 && v == 0) mc_discard(); for (int i = step - 1; i < l; i += step) t[i] = ','; d = malloc(l + 1); memcpy(d, t, l + 1); MC_CHECK(u_strtok(d, ",", &tv, &ne) == 0, "strtok", "splitting failed"); MC_CHECK(!strcmp(d, t), "strtok-input", "the text was modified"); free(d); size_t k = 0; for (int i = 0; i < l; ) { int e = i; while (e < l && t[e] != ',') e++; if (e > i) { MC_CHECK(k < ne, "strtok-count", "%zu tokens", ne); MC_CHECK((int)strlen(tv[k]) == e - i && !memcmp(tv[k], t + i, e - i), "strtok-token", "token %zu", k); k++; } i = e + 1; } MC_CHECK(k == ne, "strtok-count", "%zu tokens, expected %zu", ne, k); u_strtok_cleanup(tv, ne); break; }
    case 8: { for (int i = 49; i < l; i += 50) t[i] = ' '; int k = (l + 49) / 50; if (l % 50 == 0) k = l / 50; int cells = v == 0 ? k + 1 : v == 1 ? k + 50 : 3; if (cells > k && l < 50) mc_discard(); d = malloc(l + 1); memcpy(d, t, l + 1); tv = malloc(cells * sizeof *tv); rc = u_tokenize(d, " ", tv, cells); int m = k < cells - 1 ? k : cells - 1; MC_CHECK(rc == 0 || k > cells - 1, "tokenize", "failed"); if (rc == 0) { for (int i = 0; i < m; i++) MC_CHECK(!memcmp(tv[i], t + 50 * i, i < k - 1 ? 49 : 1), "tokenize-token", "token %d", i); MC_CHECK(tv[m] == NULL, "tokenize-end", "the end is not marked"); } free(tv); free(d); break; }
    case 9: { d = malloc(l + 1); memset(d, '#', l + 1); char *r = u_sstrncpy(d, t, l - v); MC_CHECK(r == d && (int)strlen(d) == l - v && !memcmp(d, t, l - v), "sstrncpy", "wrong copy"); free(d); break; }
    }
    LEAK(); mc_state(mc_h64(l, op * 3 + v));
}
static void run_null(void) { char **tv; size_t ne; mc_op("NULL arguments"); MC_CHECK(u_strtok(NULL, ",", &tv, &ne) && u_strtok("a", NULL, &tv, &ne) && u_strtok("a", ",", NULL, &ne) && u_strtok("a", ",", &tv, NULL) && u_tokenize(NULL, ",", (char **)&tv, 1) && u_tokenize(T, NULL, (char **)&tv, 1) && u_tokenize(T, ",", NULL, 1), "null", "a NULL argument was accepted"); LEAK(); }
static void run_time(void) { struct timeval a = { mc_choose(3), 0 }, b = { mc_choose(3), 0 }, d; static const long us[] = { 0, 1, 500000, 999999 }; a.tv_usec = us[mc_choose(4)]; b.tv_usec = us[mc_choose(4)]; mc_op("time difference"); u_timersub(&a, &b, &d); MC_CHECK(d.tv_usec >= 0 && d.tv_usec < 1000000 && d.tv_sec * 1000000L + d.tv_usec == (a.tv_sec - b.tv_sec) * 1000000L + a.tv_usec - b.tv_usec, "timersub", "wrong difference"); }
static int once(void) { int n = 0; U_ONCE { n = 1; } return n; }
static void run_macros(void)
{
    int op = mc_choose(6); mc_op("macro %d", op); mc_state(op); mc_transitions(1);
    if (op == 0) { static const long V[] = { LONG_MIN, -1, 0, 1, LONG_MAX }; long a = V[mc_choose(5)], b = V[mc_choose(5)]; MC_CHECK(U_MAX(a, b) == (a > b ? a : b) && U_MIN(a, b) == (a < b ? a : b) && U_MAX(a, b) - 0 >= U_MIN(a, b), "macro", "greater and smaller of %ld and %ld", a, b); int x = 1 + U_MAX(2, 1) * 2, y = U_MIN(1 | 4, 2) + 1; MC_CHECK(x == 5 && y == 3, "macro", "precedence: %d %d", x, y); }
    else if (op == 1) { int l = mc_choose(12); char t[16], d[8]; memset(t, 'a', sizeof t); t[l] = 0; memset(d, '#', sizeof d); U_SSTRCPY(d, t); MC_CHECK(strlen(d) == (size_t)(l < 7 ? l : 7) && !strncmp(d, t, strlen(d)), "macro", "copy of %d characters: \"%s\"", l, mc_escs(d)); }
    else if (op == 2) { int p[2]; if (pipe(p)) mc_fail("harness", "no pipe"); int k = p[0]; U_CLOSE(k); MC_CHECK(k == -1 && fcntl(p[0], F_GETFD) == -1, "macro", "descriptor not closed"); U_CLOSE(k); MC_CHECK(k == -1, "macro", "closed twice"); close(p[1]); k = 0; if (mc_choose(2)) { int s = dup(0); U_CLOSE(k); MC_CHECK(k == -1 && fcntl(0, F_GETFD) == -1, "macro", "descriptor 0 not closed"); dup2(s, 0); close(s); } }
    else if (op == 3) { FILE *f = tmpfile(), *g; if (!f) mc_fail("harness", "no file"); int k = fileno(f); U_FCLOSE(f); MC_CHECK(!f && fcntl(k, F_GETFD) == -1, "macro", "stream not closed"); U_FCLOSE(f); g = NULL; U_PCLOSE(g); MC_CHECK(!f && !g, "macro", "closed"); }
    else if (op == 4) { static int first = 1; int a = once(), b = once(); MC_CHECK(a == first && b == 0, "macro", "once: %d %d", a, b); first = 0; }
    else { int x = 0; u_unused_args(x, &x, "text", 1.5); MC_CHECK(x == 0, "macro", "unused"); }
}
const struct mc_scn mc_scns[] = {
    { "trim", run_trim, MC_QT, 2, 0, 0, 0, "all texts of up to 8 (thorough 10) of blank, tab, newline and a letter" },
    { "characters", run_chars, MC_QT, 1, 0, 0, 0, "every character value" },
    { "duplicate", run_dup, MC_QT, 1, 0, 0, 0, "all texts of up to 5 (thorough 6) characters, every length" },
    { "copy", run_copy, MC_QT, 2, 0, 0, 0, "all texts of up to 5 (thorough 6) characters into 0..7 bytes, bounded copy and concatenation" },
    { "print", run_print, MC_QT, 2, 0, 0, 0, "all paths of up to 7 (thorough 9) characters into 0..9 (11) bytes" },
    { "print-error", run_print_err, MC_QT, 0, 0, 0, 0, "failing prints" },
    { "split", run_split, MC_QT, 2, 0, 0, 0, "all texts of up to 8 (thorough 10) characters, 4 delimiter sets" },
    { "many-tokens", run_many, MC_QT, 1, 0, 0, 0, "0..44 (thorough 64) tokens" },
    { "tokenize", run_tokenize, MC_QT, 2, 0, 0, 0, "all texts of up to 8 (thorough 9) characters into 1..5 cells" },
    { "long", run_long, MC_QT, 1, 0, 0, 0, "every helper on texts of 21 lengths from 127 to 200000, at, above and below the bound" },
    { "null", run_null, MC_QT, 0, 0, 0, 0, "NULL arguments" },
    { "macros", run_macros, MC_QT, 0, 0, 0, 0, "greater, smaller, bounded copy, closing, once" },
    { "time", run_time, MC_QT, 0, 0, 0, 0, "time differences" },
    { 0 } };
