// Include graphs over a few sources, through a recording driver and the file system driver, with every failure.
// MC-LDFLAGS: @vfs
#include "mc.h"
#include <u/libu.h>
#include "vfs.h"
#include "config_model.h"
#include "similar.h"
extern u_config_driver_t u_config_drv_fs;
const char *mc_property = "P26", *mc_level = "fault_enumeration";
void mc_cleanup(void) { vfs_reset(); }
#define NS 4
static char text[NS][256]; static int made[NS]; static int items[NS]; static int nsrc, nitem;
static const char *pre; /* prefix of a source name inside an include directive */
static const char *upre; /* prefix of a source name at open */
static void item(char *t, int s, int k)
{
    size_t n = strlen(t), z = 256 - n; char *e = t + n;
    if (k == 0) return;
    if (k == 1) snprintf(e, z, "k%d v%d\n", s, s);
    else if (k == 2) snprintf(e, z, "k v%d\n", s);
    else if (k == 3) snprintf(e, z, "}\n");
    else if (k == 4) snprintf(e, z, "include %snone\n", pre);
    else if (k == 5) snprintf(e, z, "-include %snone\n", pre);
    else if (k == 6) snprintf(e, z, "g\n{\ninclude %ss%d\n}\n", pre, (s + 1) % nsrc);
    else if (k == 7) snprintf(e, z, "w %ss%d\n include  ${w}  # note\n", pre, nsrc - 1);
    else if (k == 8) snprintf(e, z, "include\n");
    else { k -= 9; snprintf(e, z, "%sinclude %ss%d\n", k / nsrc ? "-" : "", pre, k % nsrc); }
}
static void make(int s) { if (made[s]) return; made[s] = 1; text[s][0] = 0; for (int i = 0; i < items[s]; i++) item(text[s], s, mc_choose(nitem)); mc_op("source s%d: \"%s\"", s, mc_escs(text[s])); }
/* ---- recording driver */
enum { M_PLAIN, M_RESOLV, M_NULLH, M_NOCLOSE, M_NOOPEN, M_N }; static int mode;
#define NI 64
static struct inst { int src, opened, closed, badopen, badclose, badread; size_t at, cut; } in[NI]; static int ni, stk[NI], sp, used_after;
static struct { int bad; char name[64]; } rs[NI]; static int nrs;
static int srcof(const char *uri) { size_t n = strlen(upre); if (strncmp(uri, upre, n)) return -1; uri += n; if (uri[0] != 's' || uri[1] < '0' || uri[1] >= '0' + nsrc || uri[2]) return -1; return uri[1] - '0'; }
static int deep; static int dlevel[NI];
static int d_open(const char *uri, void **pa)
{
    if (ni == NI) mc_fail("endless", "%d sources opened", ni); struct inst *i = &in[ni]; memset(i, 0, sizeof *i); ni++;
    i->src = deep ? 0 : srcof(uri); if (deep) dlevel[ni - 1] = atoi(uri + 1);
    if (mc_dev(2)) i->badopen = 1; mc_note("open %s%s", uri, i->badopen ? ": refused" : i->src < 0 ? ": no such source" : "");
    if (i->badopen || i->src < 0) return ~0; if (!deep) make(i->src); i->opened = 1; i->cut = (size_t)-1; stk[sp++] = ni - 1; if (mode != M_NULLH) *pa = i; return 0;
}
static struct inst *hnd(void *a) { if (mode == M_NULLH) { if (a) mc_fail("handle", "handle %p where the driver gave none", a); return &in[stk[sp - 1]]; } for (int k = 0; k < ni; k++) if (a == &in[k]) return a; if (mode == M_NOOPEN && !a) return &in[0]; mc_fail("handle", "an unknown handle was used"); return NULL; }
static int d_close(void *a)
{
    if (mode == M_NULLH && sp == 0) mc_fail("close", "closed more often than opened");
    struct inst *i = hnd(a); i->closed++; if (i->closed > 1) mc_fail("close", "s%d closed twice", i->src); if (sp && stk[sp - 1] == i - in) sp--; else mc_fail("close", "s%d closed before a source it includes", i->src);
    i->badclose = mc_dev(2); mc_note("close s%d%s", i->src, i->badclose ? ": failed" : i->badread ? ": reports the read error" : ""); return i->badclose || i->badread ? ~0 : 0;
}
static char *d_gets(void *a, char *b, size_t sz)
{
    struct inst *i = hnd(a); char dt[64]; const char *t = text[i->src]; if (i->closed) mc_fail("use-after-close", "s%d read after it was closed", i->src);
    if (deep) { int l = dlevel[i - in]; if (l < deep - 1) snprintf(dt, sizeof dt, "k%d v\ninclude d%d\n", l, l + 1); else snprintf(dt, sizeof dt, "k%d v\n", l); t = dt; }
    if (i->badread || !t[i->at]) return NULL; if (mode != M_NOCLOSE && mc_dev(2)) { i->badread = 1; i->cut = i->at; mc_note("read of s%d fails", i->src); return NULL; }
    size_t k = 0; while (k + 1 < sz && t[i->at]) if ((b[k++] = t[i->at++]) == '\n') break; b[k] = 0; return b;
}
static int d_resolv(const char *name, char *uri, size_t n)
{
    if (nrs == NI) mc_fail("endless", "%d names resolved", nrs); rs[nrs].bad = mc_dev(2); snprintf(rs[nrs].name, 64, "%s", name); if (rs[nrs].bad) mc_note("resolving %s fails", name); if (rs[nrs++].bad) return ~0; return u_strlcpy(uri, "abs:", n) || u_strlcat(uri, name, n);
}
/* ---- model: consumes the recorded outcomes in order */
static int mi, mrs, unspec; static int chain[NI], nch;
static int m_load(cn *c, int s, int ow, int opened_only_at);
static int m_include(cn *c, const char *name, int opt, int ow)
{
    char uri[128]; int s, r, o0 = mi; size_t pn = strlen(pre); (void)pn;
    if (mode == M_NOOPEN) return opt ? 0 : -1;
    if (mode == M_RESOLV) { if (mrs >= nrs || strcmp(rs[mrs].name, name)) { mc_fail("resolve", "the include of %s was not resolved in turn", name); } if (rs[mrs++].bad) return opt ? 0 : -1; snprintf(uri, sizeof uri, "abs:%s", name); } else snprintf(uri, sizeof uri, "%s", name);
    s = srcof(uri); for (int k = 0; k < nch; k++) if (s >= 0 && chain[k] == s) return opt ? 0 : -1;
    if (mi >= ni || in[mi].src != s) mc_fail("order", "the include of %s did not open it", name);
    if (in[mi].badopen || s < 0) { mi++; return opt ? 0 : -1; }
    r = m_load(c, s, ow, 0); if (r && opt) { unspec = 1; return 0; } (void)o0; return r;
}
static int m_load(cn *c, int s, int ow, int top)
{
    struct inst *i = &in[mi++]; char t[256]; snprintf(t, sizeof t, "%s", text[s]); if (i->badread) t[i->cut] = 0;
    chain[nch++] = s; const char *p = cm_dup(t, strlen(t)); int r = cm_parse(c, &p, ow, 0); nch--;
    if (r == 0 && mode != M_NOCLOSE && (i->badclose || i->badread)) r = -1; return r;
}
static void run_graph(void)
{
    static u_config_driver_t drv; u_config_t *c = NULL; int ow;
    memset(made, 0, sizeof made); ni = sp = nrs = 0; mi = mrs = unspec = nch = 0; deep = 0;
    mode = mc_arg() == 2 ? mc_choose(M_N) : M_PLAIN; ow = mc_choose(2); nsrc = 3; nitem = 9 + 2 * nsrc; pre = ""; upre = mode == M_RESOLV ? "abs:" : "";
    if (mc_arg() == 1) { items[0] = 2; items[1] = 2; items[2] = 1 + mc_tier; } else { items[0] = 1; items[1] = 2; items[2] = 1; }
    drv.open = mode == M_NOOPEN ? NULL : d_open; drv.close = mode == M_NOCLOSE ? NULL : d_close; drv.gets = d_gets; drv.resolv = mode == M_RESOLV ? d_resolv : NULL;
    if (mode == M_NOOPEN) { ni = 1; memset(in, 0, sizeof in); in[0].opened = 1; stk[sp++] = 0; make(0); }
    int rc = u_config_load_from_drv(mode == M_RESOLV ? "abs:s0" : "s0", &drv, ow, &c); mc_note("returned %d", rc); mc_transitions(ni);
    if (mode == M_NOOPEN) in[0].closed |= rc != 0;
    for (int k = 0; k < ni && mode != M_NOCLOSE; k++) MC_CHECK(in[k].closed == in[k].opened, "close", "source %d opened %d and closed %d times, the load returned %d", k, in[k].opened, in[k].closed, rc);
    cm_reset(); cm_include = m_include; cn *m = cm_add(NULL, NULL, 0); int want;
    if (in[0].badopen) { mi++; want = -1; } else want = m_load(m, 0, ow, 1);
    if (!unspec) {
        MC_CHECK(mi == ni, "order", "%d sources opened, the text makes it %d", ni, mi); 
        MC_CHECK((rc == 0) == (want == 0), "verdict", "the load %s", rc ? "failed" : "succeeded in spite of a mandatory source that could not be loaded");
        if (rc == 0) cm_cmp(m, c, "tree"); mc_state(cm_hash(m, rc * 4 + ow));
    }
    if (rc == 0) u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
static void run_deep(void)
{
    static u_config_driver_t drv = { d_open, d_close, d_gets, NULL }; u_config_t *c = NULL; mode = M_PLAIN; ni = sp = nrs = 0;
    static const int len[] = { 1, 2, 5, 10, 1000000 }; deep = len[mc_choose(5)]; mc_op("chain of %d distinct sources", deep);
    int rc = u_config_load_from_drv("d0", &drv, 0, &c), f = 0; for (int k = 0; k < ni; k++) { f |= in[k].badopen | in[k].badclose | in[k].badread; MC_CHECK(in[k].closed == in[k].opened, "close", "source %d opened %d and closed %d times", k, in[k].opened, in[k].closed); }
    MC_CHECK((rc == 0) == (!f && deep < 100), "verdict", "the load %s", rc ? "failed" : "succeeded");
    if (rc == 0) { char k[16]; for (int i = 0; i < deep; i++) { snprintf(k, sizeof k, "k%d", i); const char *v = u_config_get_subkey_value(c, k); MC_CHECK(v && !strcmp(v, "v"), "tree", "%s is missing", k); } u_config_free(c); }
    MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(deep * 2 + !rc); deep = 0;
}
/* ---- names of every length, resolved to names of every length */
static size_t l_res; static char l_name[256], l_uri[U_FILENAME_MAX + 2]; static int l_level, l_opened, l_closed, l_at[2];
static int l_open(const char *u, void **pa) { if (l_level) { MC_CHECK(!strcmp(u, l_uri), "name", "opened \"%.40s...\" (%zu), expected %zu characters", u, strlen(u), strlen(l_uri)); } *pa = &l_at[l_level]; l_at[l_level++] = 0; l_opened++; return 0; }
static int l_close(void *a) { (void)a; l_closed++; l_level--; return 0; }
static char *l_gets(void *a, char *b, size_t n) { int l = (int *)a - l_at; if (l_at[l]++) return NULL; int k = l ? snprintf(b, n, "k v\n") : snprintf(b, n, "include %s\n", l_name); MC_CHECK(k < (int)n, "bound", "a read of %zu characters", n); return b; }
static int l_resolv(const char *name, char *uri, size_t n) { MC_CHECK(!strcmp(name, l_name), "name", "resolving %zu characters, expected %zu", strlen(name), strlen(l_name)); memset(l_uri, 'u', l_res); l_uri[l_res] = 0; if (l_res + 1 > n) return ~0; memcpy(uri, l_uri, l_res + 1); return 0; }
static void run_names(void)
{
    static u_config_driver_t d = { l_open, l_close, l_gets, NULL }; int nl = 1 + mc_choose(250), rv = mc_choose(2); u_config_t *c = NULL; static const size_t big[] = { 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, U_FILENAME_MAX - 1, U_FILENAME_MAX }; l_res = 1 + mc_choose(rv ? 314 : 1); if (l_res > 300) l_res = big[l_res - 301]; d.resolv = rv ? l_resolv : NULL; memset(l_name, 'n', nl); l_name[nl] = 0; strcpy(l_uri, l_name); l_level = l_opened = l_closed = 0; if (rv && nl > 3 && nl != 200 && nl != 250 && l_res > 1) mc_discard();
    mc_op("a name of %d characters%s", nl, rv ? ", resolved" : ""); if (rv) mc_op("to one of %zu", l_res); int rc = u_config_load_from_drv("top", &d, 0, &c); MC_CHECK(l_opened == l_closed, "close", "%d opened, %d closed", l_opened, l_closed);
    MC_CHECK(rc == 0, "verdict", "refused"); const char *v = u_config_get_subkey_value(c, "k"); MC_CHECK(v && !strcmp(v, "v"), "tree", "the included entry is missing"); u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(nl, l_res));
}
/* ---- sources whose names are nearly the same, and keys that are nearly the directive */
static char z_name[3][700], z_text[3][3000]; static int z_open[3], z_close[3], z_at[3]; static int z_abs;
static int z_o(const char *u, void **pa) { for (int i = 0; i < 3; i++) { if (z_abs && strncmp(u, "abs:", 4)) continue; if (!strcmp(u + 4 * z_abs, z_name[i])) { z_open[i]++; z_at[i] = 0; *pa = z_at + i; return 0; } } return ~0; }
static int z_c(void *a) { z_close[(int *)a - z_at]++; return 0; }
static char *z_g(void *a, char *b, size_t n) { int i = (int)((int *)a - z_at); size_t k = 0; char *t = z_text[i] + z_at[i]; if (!*t) return NULL; while (k + 1 < n && *t) { b[k++] = *t; if (*t++ == '\n') break; } b[k] = 0; z_at[i] += (int)k; return b; }
static int z_r(const char *nm, char *uri, size_t n) { return u_strlcpy(uri, "abs:", n) || u_strlcat(uri, nm, n); }
static void run_similar(void)
{
    static u_config_driver_t d = { z_o, z_c, z_g, NULL }; u_config_t *c = NULL; int f = mc_choose(SIM_FAMS), l = sim_len[mc_choose(sim_n(mc_tier ? 512 : 257))], sw = mc_choose(2), kind = mc_choose(4), opt = mc_choose(2); z_abs = mc_choose(2); d.resolv = z_abs ? z_r : NULL; for (int i = 0; i < 3; i++) z_open[i] = z_close[i] = 0; char top[800];
    sim_pair(f, l, z_name[sw], z_name[1 - sw]); snprintf(z_name[2], sizeof z_name[2], "%sq", z_name[1]); const char *inc = opt ? "-include" : "include"; int n0 = 1, n1 = 1, n2 = 0, want = 0;
    snprintf(z_text[0], sizeof z_text[0], "k0 v\n%s %s\n", inc, z_name[1]); snprintf(z_text[1], sizeof z_text[1], "k1 v\n"); snprintf(z_text[2], sizeof z_text[2], "k2 v\n");
    if (kind == 1) { n2 = 1; snprintf(z_text[1], sizeof z_text[1], "k1 v\ns\n{\n%s %s\n}\n", inc, z_name[2]); } if (kind == 2) { n1 = 3; snprintf(z_text[0], sizeof z_text[0], "k0 v\n%s %s\n%s %s\n%s %s\n", inc, z_name[1], inc, z_name[1], inc, z_name[1]); } if (kind == 3) { snprintf(z_text[1], sizeof z_text[1], "k1 v\n%s %s\n", inc, z_name[0]); want = opt ? 0 : -1; }
    snprintf(top, sizeof top, "%s%s", z_abs ? "abs:" : "", z_name[0]); mc_op("sources \"%s\" and \"%s\" after %d others, %s", mc_escs(z_name[0] + (l > 8 ? l - 4 : 0)), mc_escs(z_name[1] + (l > 8 ? l - 4 : 0)), l, kind == 3 ? "circular" : "not circular"); int rc = u_config_load_from_drv(top, &d, 0, &c); mc_note("returned %d", rc); for (int i = 0; i < 3; i++) MC_CHECK(z_open[i] == z_close[i], "close", "source %d opened %d, closed %d times", i, z_open[i], z_close[i]);
    MC_CHECK((rc == 0) == (want == 0), "verdict", "the load %s", rc ? "failed" : "succeeded"); if (rc == 0) { MC_CHECK(z_open[0] == n0 && z_open[1] == n1 && z_open[2] == n2, "order", "opened %d, %d and %d times", z_open[0], z_open[1], z_open[2]); u_config_t *g = NULL; MC_CHECK(u_config_get_subkey_value(c, "k0") && u_config_get_subkey_nth(c, "k1", n1 - 1, &g) == 0 && u_config_get_subkey_nth(c, "k1", n1, &g) && !u_config_get_subkey_value(c, "s.k2") == !n2, "tree", "entries missing or repeated"); u_config_free(c); } MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(f * 1000 + l, kind)); mc_transitions(z_open[0] + z_open[1] + z_open[2]);
}
static void run_words(void)
{
    static u_config_driver_t d = { z_o, z_c, z_g, NULL }; static const char *K[] = { "include", "-include", "includes", "include2", "INCLUDE", "Include", "includE", "includ", "i", "-includes", "-INCLUDE", "-Include", "-includ", "--include", "-", "xinclude", "include.include", "include-", "+include", "\\#include", "include_dir" }; u_config_t *c = NULL, *g; int w = mc_choose(21), in = mc_choose(2), miss = mc_choose(2), ow = mc_choose(2); z_abs = 0; d.resolv = NULL; for (int i = 0; i < 3; i++) z_open[i] = z_close[i] = 0; char k[40];
    strcpy(z_name[0], "top"); strcpy(z_name[1], miss ? "none" : "f"); strcpy(z_name[2], "g"); if (in) snprintf(z_text[0], sizeof z_text[0], "s\n{\n%s f\n}\n", K[w]); else snprintf(z_text[0], sizeof z_text[0], "%s f\n", K[w]); strcpy(z_text[1], "k1 v\n"); *z_text[2] = 0; mc_op("\"%s\", the file is %s", mc_escs(z_text[0]), miss ? "missing" : "there");
    int rc = u_config_load_from_drv("top", &d, ow, &c); MC_CHECK((rc == 0) == !(miss && w == 0), "verdict", "the load %s", rc ? "failed" : "succeeded"); MC_CHECK(z_open[1] == (w < 2 && !miss) && z_close[1] == z_open[1] && z_close[0] == 1, "order", "the file was opened %d times", z_open[1]); if (rc == 0) { snprintf(k, sizeof k, "%s%s", in ? "s." : "", w < 2 ? "k1" : *K[w] == '\\' ? K[w] + 1 : K[w]); const char *v = u_config_get_subkey_value(c, k); if (w >= 2) MC_CHECK(v && !strcmp(v, "f"), "tree", "%s is lost", k); else MC_CHECK(miss ? !v : v && !strcmp(v, "v"), "tree", "the included entry"); MC_CHECK(w < 2 || u_config_get_subkey(c, in ? "s.k1" : "k1", &g), "tree", "an entry of a file that is not included"); u_config_free(c); } MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(w, in * 2 + miss));
}
/* ---- the file system driver */
static int f_include(cn *c, const char *name, int opt, int ow)
{
    int s = srcof(name), r; for (int k = 0; k < nch; k++) if (s >= 0 && chain[k] == s) return opt ? 0 : -1; if (s < 0) return opt ? 0 : -1; if (nch == NI) { unspec = 1; return -1; }
    chain[nch++] = s; const char *p = text[s]; r = cm_parse(c, &p, ow, 0); nch--; if (r && opt) { unspec = 1; return 0; } return r;
}
static void run_file(void)
{
    u_config_t *c = NULL; int how = mc_choose(3), ow = how == 0 ? 0 : mc_choose(2), rc = -1, opt = 0; char nm[32];
    memset(made, 0, sizeof made); nsrc = 3; nitem = 9 + 2 * nsrc; pre = upre = "/vfs/a/"; unspec = 0; nch = 0; mode = M_PLAIN;
    items[0] = 1 + mc_tier; items[1] = 1; items[2] = 1; for (int i = 0; i < nsrc; i++) { make(i); snprintf(nm, sizeof nm, "/vfs/a/s%d", i); vfs_file(nm, text[i], strlen(text[i])); opt |= strstr(text[i], "-include") != NULL; }
    vfs_errs = vfs_faults = 1; int fd = -1;
    if (how == 0) rc = u_config_load_from_file("/vfs/a/s0", &c); else if (how == 1) rc = u_config_load_from_drv("/vfs/a/s0", &u_config_drv_fs, ow, &c);
    else { u_config_create(&c); vfs_faults = 0; fd = open("/vfs/a/s0", O_RDONLY); vfs_errs = vfs_faults = 1; rc = u_config_load(c, fd, ow); vfs_faults = 0; close(fd); }
    vfs_faults = 0; mc_note("returned %d after %d faults", rc, vfs_hits); vfs_judge();
    cm_reset(); cm_include = f_include; cn *m = cm_add(NULL, NULL, 0); if (how != 2) chain[nch++] = 0; const char *p = text[0]; int want = cm_parse(m, &p, ow, 0); nch = 0;
    if (how == 2) { /* the loader cannot know the name of a descriptor: whether s0 counts as including itself at its first or second inclusion is open */ for (int i = 0; i < nsrc; i++) if (strstr(text[i], "/vfs/a/s0")) unspec = 1; }
    if (!unspec && !vfs_hits) { MC_CHECK((rc == 0) == (want == 0), "verdict", "the load %s", rc ? "failed" : "succeeded in spite of a mandatory source that could not be loaded"); if (rc == 0) cm_cmp(m, c, "tree"); mc_state(cm_hash(m, rc * 4 + ow)); }
    if (!unspec && vfs_hits_hard && !opt) MC_CHECK(rc, "verdict", "an input failure went unreported");
    if (rc == 0 || how == 2) u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}

const struct mc_scn mc_scns[] = {
    { "graph", run_graph, MC_QT, 3, 0, 0, 1, "every include graph over 3 sources (mandatory, optional, self, circular, repeated, in sections, by variable, missing, malformed), both overwrite modes" },
    { "fault", run_graph, MC_QT, 3, 2, 3, 2, "include graphs x driver shapes (resolver, no handle, no close, no open) x failing open, read, close and resolve" },
    { "deep", run_deep, MC_QT, 1, 1, 2, 0, "chains of distinct sources, including an endless one" },
    { "similar", run_similar, MC_QT, 2, 0, 0, 0, "sources whose names are alike in up to 257 (512) characters, differing in case, last, first or high byte or in length: nested, repeated and really circular, optional or not, resolved or not" },
    { "words", run_words, MC_QT, 1, 0, 0, 0, "21 keys that resemble the include directives" },
    { "names", run_names, MC_QT, 1, 0, 0, 0, "names of 1 to 250 characters, resolved to names of 1 to the longest allowed" },
    { "file", run_file, MC_QT, 2, 1, 2, 0, "include graphs through the file system driver by name and descriptor, with input failures" },
    { 0 }
};
