// Strings: value, length and terminator after every operation.
#include "mc.h"
#include <u/libu.h>
#include "two.h"
#include <wchar.h>
const char *mc_property = "P02", *mc_level = "model_checking";

#define MAXM 4300000
static u_string_t *s; static char m[MAXM]; static size_t ml; static unsigned ctr;
void mc_cleanup(void) { if (s) s = NULL; }

/* text of length n, ends and starts with a blank if asked */
static char *mk(size_t n, int blanks)
{
    char *b = malloc(n + 1);
    for (size_t i = 0; i < n; i++) b[i] = (char)('!' + (ctr++ * 7 + i / 94) % 94);
    if (blanks && n) { b[0] = ' '; b[n - 1] = '\t'; if (n > 3) b[1] = '\t', b[n - 2] = ' '; }
    b[n] = 0; return b;
}
static int quiet;
static void check(const char *op)
{
    if (quiet) return;
    const char *c = u_string_c(s);
    MC_CHECK(c != NULL, "null-value", "%s: the value is NULL", op);
    size_t l = u_string_len(s);
    MC_CHECK(l == ml, "length", "%s: length reports %zu, the text has %zu characters", op, l, ml);
    MC_CHECK(memcmp(c, m, ml) == 0, "text", "%s: text differs from the expected one", op);
    MC_CHECK(c[ml] == 0, "terminator", "%s: text of length %zu is not terminated", op, ml);
    mc_state(mc_hash(mc_h64(0, ml), m, ml));
}
static void m_set(const char *t, size_t n) { memcpy(m, t, n); ml = n; m[n] = 0; }
static void m_add(const char *t, size_t n) { memcpy(m + ml, t, n); ml += n; m[ml] = 0; }
static void m_trim(void)
{
    size_t a = 0, b = ml;
    while (b > a && (m[b-1] == ' ' || m[b-1] == '\t')) b--;
    while (a < b && (m[a] == ' ' || m[a] == '\t')) a++;
    memmove(m, m + a, b - a); ml = b - a; m[ml] = 0;
}
enum { APPEND, SPRINTF, APRINTF, SET, RESERVE, NCAT_LONG, SETLEN, COPY, TRIM, CLEAR, APRINTF2, DETACH, NCAT_SHORT, NOPS };
static const char *opn[] = { "append", "sprintf", "aprintf", "set", "reserve", "append-at-most", "set-length", "copy", "trim", "clear", "aprintf-parts", "detach", "append-prefix" };

static void apply(int op, size_t n)
{
    char *t = mk(n, op != SETLEN && (n % 3) == 2); int rc = 0;
    mc_op("%s %zu", opn[op], n);
    switch (op) {
    case APPEND: rc = u_string_append(s, t, n); m_add(t, n); break;
    case SPRINTF: rc = u_string_sprintf(s, "%s", t); m_set(t, n); break;
    case APRINTF: rc = u_string_aprintf(s, "%s", t); m_add(t, n); break;
    case APRINTF2: rc = u_string_aprintf(s, "%d%s|%5.2f|%c%%", (int)n, t, 1.5, 'x'); { char *x = malloc(n + 64); int k = sprintf(x, "%d%s|%5.2f|%c%%", (int)n, t, 1.5, 'x'); m_add(x, (size_t)k); free(x); } break;
    case SET: rc = u_string_set(s, t, n); m_set(t, n); break;
    case RESERVE: rc = u_string_reserve(s, n); break;
    case NCAT_LONG: rc = u_string_ncat(s, t, n + 9); m_add(t, n); break;
    case NCAT_SHORT: rc = u_string_append(s, t, n / 2); m_add(t, n / 2); break;
    case SETLEN: if (n <= ml) { rc = u_string_set_length(s, n); ml = n; m[n] = 0; } else { MC_CHECK(u_string_set_length(s, n) != 0, "set-length", "lengthening to %zu from %zu accepted", n, ml); } break;
    case COPY: { u_string_t *o = NULL; MC_CHECK(u_string_create(t, n, &o) == 0, "create", "create failed"); rc = u_string_copy(s, o); 
        MC_CHECK(u_string_len(o) == n && !strcmp(u_string_c(o), t), "copy-source", "copying changed the source");
        u_string_free(o); m_set(t, n); } break;
    case TRIM: rc = u_string_trim(s); m_trim(); break;
    case CLEAR: rc = u_string_clear(s); ml = 0; m[0] = 0; break;
    case DETACH: { char *c = u_string_detach_cstr(s); s = NULL;
        if (ml) MC_CHECK(c && !strcmp(c, m), "detach", "detached text differs");
        else MC_CHECK(!c || !*c, "detach", "detached text of an empty string is not empty");
        if (c) mc_free(c);
        rc = u_string_create(t, n, &s); m_set(t, n); } break;
    }
    MC_CHECK(rc == 0, "failed", "%s %zu failed", opn[op], n);
    memset(t, 0xEE, n); free(t);
    check(opn[op]);
}
static void start(size_t n, int null)
{
    ctr = 0; ml = 0; m[0] = 0; s = NULL;
    char *t = mk(n, 0); int rc = u_string_create(null ? NULL : t, n, &s);
    mc_note("create %s %zu", null ? "null" : "text", n);
    MC_CHECK(rc == 0 && s, "create", "create failed");
    if (!null) m_set(t, n);
    free(t); check("create");
}
static void finish(void)
{
    mc_outcome(mc_hash(mc_h64(5, ml), m, ml));
    u_string_free(s); s = NULL;
}
static const size_t lens[] = { 0, 1, 2, 31, 62, 63, 64, 65, 127, 128, 129, 191, 192, 255, 448, 600 };
static const size_t lens_s[] = { 0, 1, 62, 63, 64, 65, 128, 200 };

static void seqs(void)      /* operations x boundary lengths */
{
    int deep = mc_arg(); const size_t *L = deep ? lens_s : lens; int nl = deep ? 8 : 16, depth = deep ? (mc_tier ? 4 : 3) : 3;
    if (!deep && !mc_tier) depth = 2;
    start(mc_choose(2) ? 63 : 0, mc_choose(2));
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(NOPS);
        size_t n = 0;
        if (op != TRIM && op != CLEAR) n = L[mc_choose(nl)];
        apply(op, n);
    }
    finish();
}
static void pairs(void)     /* every length around the first growth steps */
{
    static const int ops[] = { APPEND, SPRINTF, APRINTF, SET, RESERVE, COPY };
    int top = mc_tier ? 330 : 200, n1 = mc_choose(top), o1 = ops[mc_choose(6)];
    start(0, 1); apply(o1, (size_t)n1);
    int o2 = ops[mc_choose(3)], step = mc_tier ? 1 : 3;
    int n2 = mc_choose(top / step) * step + n1 % step;
    apply(o2, (size_t)n2);
    apply(APPEND, 1);
    finish();
}
static void big(void)
{
    static const size_t bl[] = { 1023, 1024, 1025, 2047, 4095, 4096, 8191, 16384 };
    start(0, 0);
    for (int d = 0; d < 3; d++) { int op = mc_choose(6); apply(op, bl[mc_choose(8)]); }
    finish();
}
static void scale(void)
{
    static const size_t L[] = { 32768, 65535, 65537, 262144, 1100000 }; static const int ops[] = { APPEND, SPRINTF, APRINTF, SET, RESERVE, COPY, NCAT_SHORT, DETACH };
    start(0, 0); for (int d = 0; d < 2; d++) { apply(ops[mc_choose(8)], L[mc_choose(5)]); check("step"); } apply(mc_choose(2) ? APPEND : APRINTF, 100); apply(SETLEN, ml / 2); finish();
}
static void byone(void)     /* one character at a time through every growth step */
{
    int how = mc_choose(4);
    start(0, how & 1);
    for (int i = 0; i < 1500; i++) apply(how & 2 ? APRINTF : APPEND, 1);
    finish();
}
static void refused(void)
{
    int c = mc_choose(8); u_string_t *x = NULL;
    start(3, 0);
    mc_op("refused case %d", c);
    switch (c) {
    case 0: MC_CHECK(u_string_append(s, NULL, 3) != 0, "null", "append of NULL accepted"); break;
    case 1: MC_CHECK(u_string_append(NULL, "a", 1) != 0 && u_string_set(NULL, "a", 1) != 0 && u_string_clear(NULL) != 0, "null", "NULL string accepted"); break;
    case 2: MC_CHECK(u_string_aprintf(s, NULL) != 0, "null", "NULL format accepted"); break;
    case 3: MC_CHECK(u_string_aprintf(s, "%s%ls", "abcd", L"\x110000") != 0, "bad-format", "a print that cannot be formatted succeeded"); break;
    case 4: MC_CHECK(u_string_copy(s, NULL) != 0 && u_string_copy(NULL, s) != 0, "null", "copy from NULL accepted"); break;
    case 5: u_string_reserve(s, 300); MC_CHECK(u_string_aprintf(s, "%s%ls", "abcd", L"\x110000") != 0, "bad-format", "a print that cannot be formatted succeeded"); break;
    case 6: MC_CHECK(u_string_create("a", 1, NULL) != 0, "null", "NULL result accepted"); u_string_free(NULL); break;
    case 7: MC_CHECK(u_string_len(NULL) == 0 && u_string_c(NULL) == NULL, "null", "NULL string has contents"); break;
    }
    (void) x; check("refused"); apply(APPEND, 5); apply(APPEND, 64); finish();
}
static void cat(void)
{
    int a = mc_choose(71), b = mc_choose(71); char x[80], y[80], w[160]; for (int i = 0; i < a; i++) x[i] = "%sn\\ \n$#"[i % 8]; for (int i = 0; i < b; i++) y[i] = "\xff%d\t\"'{}"[i % 8]; x[a] = y[b] = 0; u_string_t *s; mc_op("concatenate %d and %d", a, b); MC_CHECK(u_string_create(x, a, &s) == 0 && u_string_cat(s, y) == 0, "cat", "refused"); strcpy(w, x); strcat(w, y); MC_CHECK(u_string_len(s) == (size_t)(a + b) && !strcmp(u_string_c(s), w), "cat", "%s", mc_escs(u_string_c(s))); u_string_free(s); mc_transitions(1); mc_state(a * 100 + b);
}
/* two strings at the same time */
static void two(void)
{
    static const int o[] = { APPEND, APRINTF, SET, RESERVE, SETLEN, CLEAR, DETACH, SPRINTF, COPY, TRIM }; static const size_t L[] = { 1, 64, 200 }; int D = mc_tier ? 4 : 3; sw_begin(); SW(s); sw_reg(m, 1200); SW(ml);
    for (int w = 0; w < 2; w++) { sw_to(w); start(w ? 70 : 2, 0); }
    for (int d = 0; d < D; d++) { int w = mc_choose(2), a = o[mc_choose(10)]; sw_to(w); apply(a, a == TRIM || a == CLEAR ? 0 : L[mc_choose(3)]); sw_to(!w); check("meanwhile"); }
    sw_to(0); finish(); sw_to(1); check("the other one freed"); apply(APPEND, 5); finish();
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void sparse(void)
{
    static const int o[] = { APPEND, APRINTF, SET, RESERVE, SETLEN, CLEAR, DETACH, SPRINTF, COPY, TRIM, NCAT_SHORT }; static const size_t L[] = { 1, 3, 64, 130 }; int D = mc_tier ? 4 : 3; quiet = 0; start(5, 0); quiet = 1;
    for (int d = 0; d < D; d++) { int a = o[mc_choose(11)]; apply(a, a == TRIM || a == CLEAR ? 0 : L[mc_choose(4)]); }
    quiet = 0; check("end"); finish();
}
const struct mc_scn mc_scns[] = {
    { "seqs", seqs, MC_QT, 4, 0, 0, 0, "13 operations x 16 boundary lengths (0..600), all sequences to depth 2 (3)" },
    { "deep", seqs, MC_QT, 4, 0, 0, 1, "13 operations x 8 boundary lengths (0..200), all sequences to depth 3 (4)" },
    { "two strings", two, MC_QT, 4, 0, 0, 0, "every history of 3 (4) operations on two strings" },
    { "sparse", sparse, MC_QT, 3, 0, 0, 0, "every history of 3 (4) of 11 edits, looked at only at the end" },
    { "pairs", pairs, MC_QT, 2, 0, 0, 0, "6x3 operation pairs with every length 0..199 (329) for the first and every third (every) length for the second" },
    { "big", big, MC_QT, 4, 0, 0, 0, "lengths 1023..16384, 6 operations, all triples" },
    { "scale", scale, MC_QT, 2, 0, 0, 0, "5 lengths from 32768 to 1100000, 8 operations, all pairs, then growth and cut" },
    { "byone", byone, MC_QT, 1, 0, 0, 0, "1500 single-character appends or prints" },
    { "concatenation", cat, MC_QT, 1, 0, 0, 0, "u_string_cat of every pair of lengths 0..70, texts with every format and escape character" },
    { "refused", refused, MC_QT, 0, 0, 0, 0, "NULL arguments and unformattable prints" },
    { 0 }
};
