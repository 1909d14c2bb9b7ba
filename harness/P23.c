// Configuration texts from every kind of source, however they are cut up, against the reference reader.
// MC-LDFLAGS: @vfs
#include "mc.h"
#include <u/libu.h>
#include "vfs.h"
#include "config_model.h"
const char *mc_property = "P23", *mc_level = "model_checking";
void mc_cleanup(void) { vfs_reset(); }
enum { S_BUF, S_FROM, S_DRV, S_FILE, S_FD, S_N };
static const char *sname[] = { "memory", "reader function", "driver", "file", "descriptor" };
/* a reader in memory; cut[i] != 0: a chunk ends after byte i */
struct rd { const char *t; size_t n, at; const unsigned char *cut; int opened, closed; };
static char *rd_gets(void *a, char *b, size_t sz) { struct rd *r = a; size_t k = 0; if (r->at >= r->n) return NULL; while (k + 1 < sz && r->at < r->n) { char c = r->t[r->at++]; b[k++] = c; if (c == '\n' || (r->cut && r->cut[r->at - 1])) break; } b[k] = 0; return b; }
static struct rd *the_rd;
static int rd_open(const char *u, void **pa) { (void)u; the_rd->opened++; *pa = the_rd; return 0; }
static int rd_close(void *a) { ((struct rd *)a)->closed++; return 0; }
static u_config_driver_t drv = { rd_open, rd_close, rd_gets, NULL };
/* load text t from source s over the (possibly empty) tree of `before`; returns the verdict and the tree */
static int load(int s, const char *t, size_t n, const unsigned char *cut, const char *before, int ow, u_config_t **pc)
{
    u_config_t *c = NULL; struct rd r = { t, n, 0, cut, 0, 0 }; int rc = -1; the_rd = &r; char *copy;
    if (s == S_FROM || s == S_FD) { u_config_create(&c); if (*before) { struct rd b = { before, strlen(before), 0, NULL, 0, 0 }; MC_CHECK(u_config_load_from(c, rd_gets, &b, 0) == 0, "setup", "the prior text was refused"); } }
    switch (s) {
    case S_BUF: copy = malloc(n ? n : 1); memcpy(copy, t, n); rc = u_config_load_from_buf(copy, n, &c); free(copy); break;
    case S_FROM: rc = u_config_load_from(c, rd_gets, &r, ow); break;
    case S_DRV: rc = u_config_load_from_drv("x", &drv, ow, &c); MC_CHECK(r.opened == 1 && r.closed == 1, "close", "opened %d times, closed %d times", r.opened, r.closed); break;
    case S_FILE: vfs_file("/vfs/a/c", t, n); rc = u_config_load_from_file("/vfs/a/c", &c); break;
    case S_FD: { vfs_file("/vfs/a/c", t, n); int fd = open("/vfs/a/c", O_RDONLY); rc = u_config_load(c, fd, ow); MC_CHECK(lseek(fd, 0, SEEK_CUR) >= 0, "fd", "the caller's descriptor was closed"); close(fd); break; }
    }
    vfs_judge(); if (rc && (s == S_FROM || s == S_FD)) u_config_free(c); *pc = rc ? NULL : c; return rc;
}
static void judge(int s, const char *t, size_t n, const unsigned char *cut, const char *before, int ow)
{
    u_config_t *c = NULL; cm_reset(); cn *m = cm_add(NULL, NULL, 0); char *z = malloc(n + 1); memcpy(z, t, n); z[n] = 0; int ok; 
    if (*before) cm_load(m, before, 0); ok = cm_load(m, z, ow) == 0; free(z);
    int rc = load(s, t, n, cut, before, ow, &c);
    MC_CHECK((rc == 0) == ok, "verdict", "%s: \"%s\" is %s", sname[s], mc_esc(t, n < 80 ? n : 80), rc ? "refused" : "accepted");
    if (rc == 0) { cm_cmp(m, c, sname[s]); mc_state(cm_hash(m, 1)); u_config_free(c); }
    MC_CHECK(mc_live() == 0, "leak", "%s: %zu blocks left", sname[s], mc_live());
}
static void run_lines(void)
{
    static const char *L[] = { "a 1", "a", " b  2 3 ", "{", "}", "# c", "", " \t", "a \\#x # y", "a.b 3", "} x", "{#", "\tb\t4\t", "v ${a}.", "v ${a", "b\r", "c \r", "v ${a.b}${b}", "a#", "b 1\r\r", "A 2" };
    char t[512]; int n = 0, k = mc_arg() + (mc_tier ? 1 : 0), i; *t = 0;
    for (i = 0; i < k; i++) { int c = mc_choose(22); if (c == 21) break; n += sprintf(t + n, "%s%s", i ? "\n" : "", L[c]); }
    if (i && mc_choose(2)) n += sprintf(t + n, "\n");
    mc_op("text \"%s\"", mc_escs(t)); for (int s = 0; s < 3; s++) judge(s, t, n, NULL, "", 0);
    if (i < k || mc_tier) { judge(S_FILE, t, n, NULL, "", 0); judge(S_FD, t, n, NULL, "", 0); }
}
static void run_chars(void) { static const char A[] = "a #\\{}\n.$"; char t[16]; int n = 0, mx = mc_arg() + (mc_tier ? 1 : 0); for (int i = 0; i < mx; i++) { int c = mc_choose(10); if (c == 9) break; t[n++] = A[c]; } t[n] = 0; mc_op("text \"%s\"", mc_escs(t)); judge(S_BUF, t, n, NULL, "", 0); if (n < mx) judge(S_FROM, t, n, NULL, "", 0); }
static void run_cut(void)
{
    static const char *T[] = { "a b\nc\n{\nd e\n}", "ab cd # e\nf g", "a\n{\n b \\#c\n}\n", "x ${y}\n\n z", "a 1\r\nb 2\r\n" }; const char *t = T[mc_choose(5)]; size_t n = strlen(t); unsigned char cut[32] = { 0 };
    for (size_t i = 0; i + 1 < n; i++) if (t[i] != '\n') cut[i] = mc_choose(2); mc_op("text \"%s\" in pieces", mc_escs(t)); judge(S_FROM, t, n, cut, "", 0); judge(S_DRV, t, n, cut, "", 0);
}
static void run_long(void)
{
    static const int at[] = { 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 2049, 3069, 3070, 4095, 4096, 4097, 8191, 8192, 10000 }; static char t[24000]; int l = at[mc_choose(17)], kind = mc_choose(7), nl = mc_choose(3), s = mc_choose(S_N); int n = 0;
    switch (kind) { /* a line of l characters */
    case 0: n = sprintf(t, "k "); while (n < l) t[n] = 'a' + n % 23, n++; break;                              /* long value */
    case 1: while (n < l - 2) t[n] = 'a' + n % 23, n++; t[n++] = ' '; t[n++] = 'v'; break;                       /* long key */
    case 2: n = sprintf(t, "k v"); while (n < l - 1) t[n++] = ' '; t[n++] = 'w'; break;                          /* blanks inside */
    case 3: n = sprintf(t, "k v #"); while (n < l) t[n++] = 'c'; break;                                           /* long comment */
    case 4: while (n < l - 3) t[n++] = ' '; t[n++] = 'k'; t[n++] = ' '; t[n++] = 'v'; break;                       /* long indentation */
    case 5: n = sprintf(t, "k v"); while (n < l - 2) t[n++] = 'x'; t[n++] = '\\'; t[n++] = '#'; break;             /* an escape at the end */
    case 6: n = sprintf(t, "k v"); while (n < l - 1) t[n++] = 'x'; t[n++] = '\r'; break;                           /* CR at the end */
    }
    if (nl) { n += sprintf(t + n, "\nsecond x"); if (nl == 2) n += sprintf(t + n, "\n"); }
    mc_op("a line of %d characters, kind %d, %s, from %s", l, kind, nl ? "followed by another" : "alone", sname[s]); judge(s, t, n, NULL, "", 0);
}
static void run_over(void)
{
    static const char *B[] = { "a 0\n", "a 0\na 1\nb\n{\na 5\n}", "a.b 0", "b\n{\n}\nb\n{\nx 1\n}", "b x" }, *L[] = { "a 1", "a", "b 2", "{", "}", "a.b 3", "b ${a}", "a ${a}x" }; char t[256]; int n = 0, k = 4 + (mc_tier ? 1 : 0), i, b = mc_choose(5), ow = mc_choose(2), s = mc_choose(2) ? S_FROM : S_FD; *t = 0;
    for (i = 0; i < k; i++) { int c = mc_choose(9); if (c == 8) break; n += sprintf(t + n, "%s\n", L[c]); }
    mc_op("text \"%s\" %s \"%s\" from %s", mc_escs(t), ow ? "overwriting" : "added to", mc_escs(B[b]), sname[s]); judge(s, t, n, NULL, B[b], ow);
}
static void run_owdrv(void) { static const char *L[] = { "a 1", "a", "b 2", "{", "}", "a.b 3", "b ${a}", "a ${a}x" }; char t[256]; int n = 0, k = 5 + mc_tier; *t = 0; for (int i = 0; i < k; i++) { int c = mc_choose(9); if (c == 8) break; n += sprintf(t + n, "%s\n", L[c]); } mc_op("text \"%s\" overwriting itself", mc_escs(t)); judge(S_DRV, t, n, NULL, "", 1); }
/* a failing source is not a shorter configuration */
static void run_fail(void)
{
    static char t[9000]; int n = 0, s = mc_choose(2), i = 0; u_config_t *c = NULL; int want = mc_choose(2) ? 8500 : 30; while (n < want) n += sprintf(t + n, "key%d value\n", i++);
    cm_reset(); cn *m = cm_add(NULL, NULL, 0); cm_load(m, t, 0); int fd, rc; mc_op("%d bytes from a %s whose calls may fail", n, s ? "descriptor" : "file"); vfs_file("/vfs/a/c", t, n); 
    if (s == 0) { vfs_errs = vfs_faults = 1; rc = u_config_load_from_file("/vfs/a/c", &c); vfs_faults = 0; } else { fd = open("/vfs/a/c", O_RDONLY); u_config_create(&c); vfs_errs = vfs_faults = 1; rc = u_config_load(c, fd, 0); vfs_faults = 0; close(fd); }
    if (rc == 0) { MC_CHECK(!vfs_hits_hard, "hidden-failure", "success although a call failed"); cm_cmp(m, c, sname[3 + s]); u_config_free(c); } else { if (s) u_config_free(c); MC_CHECK(vfs_hits, "verdict", "refused"); }
    vfs_judge(); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(n, rc));
}
static void run_missing(void) { u_config_t *c = NULL; int k = mc_choose(2); if (k) vfs_dir("/vfs/a/c"); mc_op("load a %s", k ? "directory" : "missing file"); MC_CHECK(u_config_load_from_file("/vfs/a/c", &c) != 0 && !c, "missing", "accepted"); MC_CHECK(u_config_load_from_file(NULL, &c) && u_config_load_from_file("/vfs/a/c", NULL), "null", "accepted"); vfs_judge(); MC_CHECK(mc_live() == 0, "leak", "blocks left"); }
const struct mc_scn mc_scns[] = {
    { "lines", run_lines, MC_QT, 2, 0, 0, 4, "every text of up to 4 (5) lines out of 21 kinds covering the grammar, with and without final newline, from 5 sources" },
    { "chars", run_chars, MC_QT, 3, 0, 0, 6, "every text of up to 6 (7) characters over 9 significant characters" },
    { "cut", run_cut, MC_QT, 2, 0, 0, 0, "every way of cutting 5 texts into reader chunks" },
    { "long", run_long, MC_QT, 2, 0, 0, 0, "7 kinds of line of 17 lengths around the 1023-byte chunk, 2048 bytes and stdio buffers, followed by another line or not, from 5 sources" },
    { "over", run_over, MC_QT, 2, 0, 0, 0, "every text of up to 4 (5) lines loaded over 5 existing trees, with and without overwriting" },
    { "owdrv", run_owdrv, MC_QT, 2, 0, 0, 0, "every text of up to 5 (6) lines loaded with overwriting" },
    { "fail", run_fail, MC_QT, 2, 2, 3, 0, "files of 30 to 8500 bytes whose calls fail, up to 2 (3) faults" },
    { "missing", run_missing, MC_QT, 0, 0, 0, 0, "missing files and directories" },
    { 0 }
};
