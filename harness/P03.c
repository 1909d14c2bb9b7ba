// Byte buffers: length, contents and size after every operation.
#include "mc.h"
#include <u/libu.h>
#include "two.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
const char *mc_property = "P03", *mc_level = "model_checking";
#define MAXM 4300000
static u_buf_t *b; static unsigned char m[MAXM]; static size_t ml; static unsigned ctr; static int term;
void mc_cleanup(void) { b = NULL; }

static unsigned char *mk(size_t n, int text)
{
    unsigned char *t = malloc(n + 1);
    for (size_t i = 0; i < n; i++) t[i] = text ? (unsigned char)('!' + (ctr++ * 7 + i / 94) % 94) : (unsigned char)(ctr++ * 37);
    t[n] = 0; return t;
}
static int quiet;
static void check(const char *op)
{
    if (quiet) return;
    ssize_t l = u_buf_len(b), z = u_buf_size(b);
    MC_CHECK(l == (ssize_t)ml, "length", "%s: length %zd, expected %zu", op, l, ml);
    MC_CHECK(z >= l, "size", "%s: size %zd below length %zd", op, z, l);
    unsigned char *p = u_buf_ptr(b);
    if (ml) {
        MC_CHECK(p != NULL, "null", "%s: no data", op);
        MC_CHECK(memcmp(p, m, ml) == 0, "contents", "%s: contents differ", op);
    }
    if (term && (ml || p)) MC_CHECK(p[ml] == 0, "terminator", "%s: no zero byte after the contents", op);
    mc_state(mc_hash(mc_h64(0, ml), m, ml));
}
static const char *mkfile(size_t n, unsigned char *data)
{
    static char path[4200]; snprintf(path, sizeof path, "%s/in", mc_scratch());
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, data, n) != (ssize_t)n) { perror(path); abort(); }
    close(fd); return path;
}
enum { APPEND, PRINTF, SET, RESERVE, SHRINK, CLEAR, DETACH, PRINTF2, LOAD, SAVELOAD, NOPS };
static const char *opn[] = { "append", "printf", "set", "reserve", "shrink", "clear", "detach", "printf-parts", "load", "save+load" };
static void apply(int op, size_t n)
{
    unsigned char *t = mk(n, op == PRINTF || op == PRINTF2); int rc = 0;
    mc_op("%s %zu", opn[op], n); term = 0;
    switch (op) {
    case APPEND: rc = u_buf_append(b, t, n); if (n == 0) { if (!ml) term = 0; rc = 0; } else { memcpy(m + ml, t, n); ml += n; term = 1; } break;
    case PRINTF: rc = u_buf_printf(b, "%s", t); if (n == 0) rc = 0; else { memcpy(m + ml, t, n); ml += n; term = 1; } break;
    case PRINTF2: rc = u_buf_printf(b, "%d:%s/%x", -5, t, 0xabc); ml += (size_t)sprintf((char *)m + ml, "%d:%s/%x", -5, t, 0xabc); term = 1; break;
    case SET: rc = u_buf_set(b, t, n); if (n == 0) { MC_CHECK(rc != 0 || u_buf_len(b) == 0, "set-empty", "setting nothing left %zd bytes", u_buf_len(b)); ml = (size_t)u_buf_len(b) ? ml : 0; rc = 0; } else { memcpy(m, t, n); ml = n; term = 1; } break;
    case RESERVE: rc = u_buf_reserve(b, n); if (rc == 0) MC_CHECK(u_buf_size(b) >= (ssize_t)n, "reserve", "size %zd after reserving %zu", u_buf_size(b), n); break;
    case SHRINK: if (n <= ml) { rc = u_buf_shrink(b, n); ml = n; } else MC_CHECK(u_buf_shrink(b, n) != 0, "shrink", "shrinking to %zu from %zu accepted", n, ml); break;
    case CLEAR: rc = u_buf_clear(b); ml = 0; break;
    case DETACH: { unsigned char *p = u_buf_ptr(b); rc = u_buf_detach(b);
        MC_CHECK(u_buf_len(b) == 0 && u_buf_size(b) == 0, "detach", "detached buffer not empty");
        if (p) { MC_CHECK(mc_is_live(p), "detach-owner", "the detached region was released"); MC_CHECK(memcmp(p, m, ml) == 0, "detach-contents", "the detached region changed"); mc_free(p); }
        ml = 0; } break;
    case LOAD: rc = u_buf_load(b, mkfile(n, t)); memcpy(m, t, n); ml = n; term = 1; break;
    case SAVELOAD: { char o[4200]; snprintf(o, sizeof o, "%s/out", mc_scratch());
        if (ml == 0) break;
        rc = u_buf_save(b, o); MC_CHECK(rc == 0, "save", "saving %zu bytes failed", ml);
        u_buf_t *c = NULL; MC_CHECK(u_buf_create(&c) == 0 && u_buf_load(c, o) == 0, "reload", "reload failed");
        MC_CHECK(u_buf_len(c) == (ssize_t)ml && !memcmp(u_buf_ptr(c), m, ml), "save-contents", "saved file differs");
        u_buf_free(c); } break;
    }
    MC_CHECK(rc == 0, "failed", "%s %zu failed", opn[op], n);
    memset(t, 0xEE, n); free(t); check(opn[op]);
}
static void start(void) { ctr = 0; ml = 0; term = 0; b = NULL; MC_CHECK(u_buf_create(&b) == 0 && b, "create", "create failed"); check("create"); }
static void finish(void) { mc_outcome(mc_hash(mc_h64(5, ml), m, ml)); MC_CHECK(u_buf_free(b) == 0, "free", "u_buf_free reported failure"); b = NULL; }

static const size_t lens[] = { 0, 1, 2, 63, 64, 120, 126, 127, 128, 129, 130, 255, 256, 257, 1000, 4096 };
static const size_t lens_s[] = { 0, 1, 2, 126, 127, 128, 129, 300 };
static void seqs(void)
{
    int deep = mc_arg(), nl = deep ? 8 : 16, depth = deep ? (mc_tier ? 4 : 3) : (mc_tier ? 3 : 2);
    const size_t *L = deep ? lens_s : lens;
    start();
    for (int d = 0; d < depth; d++) {
        int op = mc_choose(deep ? PRINTF2 + 1 : LOAD + 2); size_t n = 0;
        if (op != CLEAR && op != DETACH && op != SAVELOAD) n = L[mc_choose(nl)];
        apply(op, n);
    }
    finish();
}
static void pairs(void)
{
    int top = mc_tier ? 300 : 200, n1 = mc_choose(top), o1 = mc_choose(4);
    start(); apply(o1, (size_t)n1);
    int o2 = mc_choose(2), step = mc_tier ? 1 : 3;
    apply(o2, (size_t)(mc_choose(top / step) * step + n1 % step));
    apply(mc_choose(2), 1); finish();
}
static void loads(void)     /* load over prior contents */
{
    static const size_t a[] = { 0, 1, 2, 511, 512, 4095, 4096, 4097, 8192, 65536 };
    start();
    size_t n = a[mc_choose(10)]; if (n) apply(APPEND, n);
    apply(LOAD, a[mc_choose(10)]); apply(PRINTF, 3); apply(LOAD, a[mc_choose(10)]);
    int c = mc_choose(3);
    mc_op("failing load %d", c);
    int rc = c == 0 ? u_buf_load(b, "/nonexistent/file") : c == 1 ? u_buf_load(b, mc_scratch()) : u_buf_load(b, NULL);
    MC_CHECK(rc != 0, "load-failure", "loading something unreadable succeeded");
    u_buf_clear(b); ml = 0; apply(APPEND, 7); finish();
}
static void scale(void)
{
    static const size_t L[] = { 10000, 32768, 65535, 65536, 65537, 100000, 150001, 262144, 1048575, 1048577 }; static const int ops[] = { APPEND, PRINTF, SET, RESERVE, LOAD };
    start(); for (int d = 0; d < 2; d++) apply(ops[mc_choose(5)], L[mc_choose(10)]); apply(mc_choose(2) ? APPEND : PRINTF, 30000); apply(SHRINK, ml / 2); apply(APPEND, 10); finish();
}
static void byone(void)
{
    int how = mc_choose(2); start();
    for (int i = 0; i < 1200; i++) apply(how ? PRINTF : APPEND, 1);
    finish();
}
static void refused(void)
{
    start(); apply(APPEND, 5);
    int c = mc_choose(5); mc_op("refused case %d", c);
    switch (c) {
    case 0: MC_CHECK(u_buf_append(b, NULL, 3) != 0 && u_buf_append(NULL, "a", 1) != 0, "null", "NULL accepted"); break;
    case 1: MC_CHECK(u_buf_set(b, NULL, 3) != 0, "null", "NULL accepted"); break;
    case 2: MC_CHECK(u_buf_printf(b, NULL) != 0, "null", "NULL accepted"); break;
    case 3: MC_CHECK(u_buf_printf(b, "%s%ls", "abcd", L"\x110000") != 0, "bad-format", "a print that cannot be formatted succeeded"); break;
    case 4: MC_CHECK(u_buf_len(NULL) == -1 && u_buf_size(NULL) == -1 && u_buf_ptr(NULL) == NULL && u_buf_shrink(NULL, 0) != 0, "null", "NULL accepted"); break;
    }
    term = 0; check("refused"); apply(APPEND, 200); finish();
}
/* two buffers at the same time */
static void two(void)
{
    static const int o[] = { APPEND, PRINTF, SET, RESERVE, SHRINK, CLEAR, DETACH }; static const size_t L[] = { 1, 128, 300 }; int D = mc_tier ? 4 : 3; sw_begin(); SW(b); sw_reg(m, 1500); SW(ml); SW(term);
    for (int w = 0; w < 2; w++) { sw_to(w); start(); if (w) apply(APPEND, 20); }
    for (int d = 0; d < D; d++) { int w = mc_choose(2), a = o[mc_choose(7)]; sw_to(w); apply(a, a == DETACH || a == CLEAR ? 0 : L[mc_choose(3)]); sw_to(!w); check("meanwhile"); }
    sw_to(0); finish(); sw_to(1); check("the other one freed"); apply(APPEND, 5); finish();
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void sparse(void)
{
    static const int o[] = { APPEND, PRINTF, SET, RESERVE, SHRINK, CLEAR, DETACH, PRINTF2 }; static const size_t L[] = { 1, 3, 128, 300 }; int D = mc_tier ? 4 : 3; quiet = 0; start(); quiet = 1;
    for (int d = 0; d < D; d++) { int a = o[mc_choose(8)]; apply(a, a == DETACH || a == CLEAR ? 0 : L[mc_choose(4)]); }
    quiet = 0; check("end"); finish();
}
const struct mc_scn mc_scns[] = {
    { "seqs", seqs, MC_QT, 3, 0, 0, 0, "10 operations x 16 boundary lengths (0..4096), all sequences to depth 2 (3)" },
    { "deep", seqs, MC_QT, 3, 0, 0, 1, "8 memory operations x 8 boundary lengths (0..300), all sequences to depth 3 (4)" },
    { "two buffers", two, MC_QT, 4, 0, 0, 0, "every history of 3 (4) operations on two buffers" },
    { "sparse", sparse, MC_QT, 3, 0, 0, 0, "every history of 3 (4) of 8 edits, looked at only at the end" },
    { "pairs", pairs, MC_QT, 2, 0, 0, 0, "append/printf/set/reserve of every length 0..199 (299) then append/printf of every third (every) length" },
    { "loads", loads, MC_QT, 3, 0, 0, 0, "load over existing contents, sizes 0..65536, then failing loads" },
    { "scale", scale, MC_QT, 2, 0, 0, 0, "lengths 10000 to 1048577, 5 operations, all pairs, then growth and cut" },
    { "byone", byone, MC_QT, 1, 0, 0, 0, "1200 single-byte appends or prints" },
    { "refused", refused, MC_QT, 0, 0, 0, 0, "NULL arguments and unformattable prints" },
    { 0 }
};
