// Environment files: evaluated by the real shell, for every value length, byte, short script and file name.
// MC-LDFLAGS: -Wl,--wrap=popen,--wrap=setenv,--wrap=pclose
#include "mc.h"
#include <u/libu.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "similar.h"
const char *mc_property = "P35", *mc_level = "model_checking";
extern char **environ; static int faults, hits, dirfd_ = -1; static char *before[400]; static int nbefore; static char oldpath[4096];
FILE *__real_popen(const char *, const char *); FILE *__wrap_popen(const char *c, const char *m) { if (faults && mc_dev(2)) { hits++; mc_op("popen fails"); errno = ENOMEM; return NULL; } return __real_popen(c, m); }
int __real_setenv(const char *, const char *, int); int __wrap_setenv(const char *n, const char *v, int o) { if (faults && mc_dev(2)) { hits++; mc_op("setenv fails"); errno = ENOMEM; return -1; } return __real_setenv(n, v, o); }
int __real_pclose(FILE *); int __wrap_pclose(FILE *f) { return __real_pclose(f); }
static int nfds(void) { int n = 0; for (int i = 3; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void wipe(void)      /* empty the scratch directory */
{
    DIR *d = opendir("."); struct dirent *e; char in[600]; while (d && (e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { if (unlink(e->d_name) == -1) { DIR *s = opendir(e->d_name); struct dirent *x; while (s && (x = readdir(s))) { snprintf(in, sizeof in, "%s/%s", e->d_name, x->d_name); unlink(in); } if (s) closedir(s); rmdir(e->d_name); } } if (d) closedir(d);
}
static void begin(void)
{
    const char *sc = mc_scratch(); if (dirfd_ < 0) dirfd_ = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); snprintf(oldpath, sizeof oldpath, "%s", getenv("PATH") ? getenv("PATH") : "/usr/bin:/bin"); if (chdir(sc) == -1) abort(); wipe(); faults = hits = 0;
    for (int i = 0; i < nbefore; i++) free(before[i]); nbefore = 0; for (char **e = environ; *e && nbefore < 400; e++) before[nbefore++] = strdup(*e);
}
void mc_cleanup(void)
{
    faults = 0; if (!nbefore) return; wipe(); if (dirfd_ >= 0 && fchdir(dirfd_) == -1) abort(); for (int again = 1; again; ) { again = 0; for (char **e = environ; *e; e++) { int f = 0; for (int i = 0; i < nbefore; i++) f |= !strcmp(before[i], *e); if (!f) { char n[8000]; size_t k = strcspn(*e, "="); if (k > 7999) k = 7999; memcpy(n, *e, k); n[k] = 0; if (unsetenv(n) == 0) again = 1; break; } } }
    for (int i = 0; i < nbefore; i++) { char *q = strchr(before[i], '='); if (!q) continue; *q = 0; if (!getenv(before[i])) __real_setenv(before[i], q + 1, 1); *q = '='; free(before[i]); } nbefore = 0;
}
static void put(const char *path, const char *text, size_t n) { int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, text, n) != (ssize_t)n) mc_discard(); close(fd); }
/* what is expected: names (with prefix) and values */
static const char *wn[8]; static char *wv[8]; static int wc; static void want(const char *n, char *v) { wn[wc] = n; wv[wc++] = v; }
static void judge(int rc, int exprc)
{
    MC_CHECK((rc == 0) == (exprc == 0), "result", "%s", rc ? "failure though the file is good" : "success though the file could not be evaluated"); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
    if (rc == 0) for (int i = 0; i < wc; i++) { const char *g = u_env_var(wn[i]); MC_CHECK(g, "value", "%s is not set", wn[i]); MC_CHECK(!strcmp(g, wv[i]), "value", "%s is %s (%zu bytes), expected %s (%zu bytes)", wn[i], mc_esc(g, strlen(g) > 60 ? 60 : strlen(g)), strlen(g), mc_esc(wv[i], strlen(wv[i]) > 60 ? 60 : strlen(wv[i])), strlen(wv[i])); }
    for (char **e = environ; *e; e++) { int ok = 0; size_t k = strcspn(*e, "="); for (int i = 0; i < wc && !ok; i++) ok = strlen(wn[i]) == k && !strncmp(wn[i], *e, k); for (int i = 0; i < nbefore && !ok; i++) ok = !strcmp(before[i], *e); MC_CHECK(ok, "import", "%s was imported or changed", mc_esc(*e, strlen(*e) > 60 ? 60 : strlen(*e))); }
    for (int i = 0; i < nbefore; i++) { size_t k = strcspn(before[i], "="); int ok = 0; for (char **e = environ; *e && !ok; e++) ok = !strncmp(*e, before[i], k + 1); MC_CHECK(ok, "import", "%.*s was removed", (int)k, before[i]); }
    wc = 0; mc_outcome(rc == 0);
}
static int load(const char *pfx, const char *f) { int n = nfds(), rc = u_env_init(pfx, f); MC_CHECK(nfds() == n, "fd-leak", "a descriptor was left open"); return rc; }
static char text[20000], val[9000], val2[9000];
static void s_len(void)
{
    begin(); static const int B[] = { 0, 1, 500, 1023, 2046, 2047, 3069, 4095, 8190 }; int n; if (mc_tier) n = mc_choose(2200); else { n = B[mc_choose(9)] + mc_choose(25) - 12; if (n < 0) mc_discard(); } int where = mc_choose(3); mc_op("value of %d bytes", n);
    for (int i = 0; i < n; i++) val[i] = "abcdefghijklmnopqrstuvwxyz0123456789PFX_A=1"[i % 43]; val[n] = 0; int k = 0; if (where) k += sprintf(text + k, "export PFX_B=before\n"); k += sprintf(text + k, "export PFX_V='%s'\n", val); if (where != 1) k += sprintf(text + k, "export PFX_C=after\n");
    put("f", text, k); if (where) want("PFX_B", "before"); want("PFX_V", val); if (where != 1) want("PFX_C", "after"); judge(load("PFX_", "./f"), 0);
}
static void s_bytes(void)
{
    begin(); static const char SP[] = " \t'\"\\$`;&|<>()*?#~=%!{}[]\r\001\177\200\377a,:@+-^/"; int two = mc_choose(2), n = 0; if (!two) { int b = 1 + mc_choose(255); if (b == '\n') mc_discard(); int at = mc_choose(3); if (at) val[n++] = 'x'; val[n++] = b; if (at < 2) val[n++] = 'y'; } else { val[n++] = SP[mc_choose(sizeof SP - 1)]; val[n++] = SP[mc_choose(sizeof SP - 1)]; } val[n] = 0; mc_op("value %s", mc_esc(val, n));
    int k = sprintf(text, "export PFX_V='"); for (int i = 0; i < n; i++) if (val[i] == '\'') k += sprintf(text + k, "'\\''"); else text[k++] = val[i]; k += sprintf(text + k, "'\n"); put("f", text, k); want("PFX_V", val); judge(load("PFX_", "./f"), 0);
}
static void s_scripts(void)
{
    begin(); enum { A, AX, E, PX, LOW, BARE, NV }; static const char *N[] = { "PFX_A", "XPFX_A", "PFX_", "PFX_A1", "pfx_A", "PFX" }; char v[NV][8]; int set[NV] = { 0 }, ex[NV] = { 0 }; int old = mc_choose(2); if (old) { __real_setenv("PFX_A", "old", 1); before[nbefore++] = strdup("PFX_A=old"); strcpy(v[A], "old"); set[A] = ex[A] = 1; } int k = 0, prefix = mc_choose(3); static const char *P[] = { "PFX_", "PFX_A", "PFX" };
    for (int d = 0, D = mc_tier ? 4 : 3; d < D; d++) { int o = mc_choose(11); char nv[8]; snprintf(nv, 8, "%d", d); switch (o) { default: k += sprintf(text + k, "export %s=%s\n", N[o], nv); strcpy(v[o], nv); set[o] = ex[o] = 1; break; case 6: k += sprintf(text + k, "PFX_A=%s\n", nv); strcpy(v[A], nv); set[A] = 1; break; case 7: k += sprintf(text + k, "unset PFX_A\n"); set[A] = ex[A] = 0; break; case 8: k += sprintf(text + k, "export PFX_A=\n"); v[A][0] = 0; set[A] = ex[A] = 1; break; case 9: k += sprintf(text + k, "export PFX_A\n"); ex[A] = 1; break; case 10: k += sprintf(text + k, "echo PFX_Z=1; echo PFX_Q=2 >&2\n"); break; } }
    text[k] = 0; if (strstr(text, "echo")) { /* output of the file itself is not an assignment */ } mc_op("%s", mc_escs(text)); put("f", text, k); for (int i = 0; i < NV; i++) if (set[i] && ex[i] && !strncmp(N[i], P[prefix], strlen(P[prefix]))) want(N[i], v[i]); judge(load(P[prefix], "./f"), 0);
}
static void s_status(void)
{
    begin(); static const struct { const char *t; int rc; } F[] = { { "export PFX_A=1\nfalse\n", 1 }, { "export PFX_A=1\n[ -n \"\" ] && export PFX_B=1\n", 1 }, { "export PFX_A=1\nif then\n", 1 }, { "export PFX_A=1\nexit 3\n", 1 }, { "export PFX_A='1\n", 1 }, { "export PFX_A=1\nkill -9 $$\n", 1 }, { "export PFX_A=1\n. ./missing\n", 1 }, { "export PFX_A=1\nPATH=/none\n", 1 }, { "export PFX_A=1\nno_such_command\n", 1 }, { "export PFX_A=1", 0 }, { "export PFX_A=1\n\n# comment\n", 0 }, { "export PFX_A=1\nfalse\n:\n", 0 }, { "export PFX_A=$((1*1))\n", 0 }, { "x=1; export PFX_A=$x\n", 0 }, { "export PFX_A=1\nreturn 0\nexport PFX_A=2\n", 0 }, { "export PFX_A=1\nreturn 5\n", 1 }, { "", 2 } };
    int f = mc_choose(19); if (f == 17) { mc_op("missing file"); MC_CHECK(load("PFX_", "./none") != 0, "result", "success though the file is missing"); judge(1, 1); return; } if (f == 18) { mkdir("d", 0755); mc_op("directory"); MC_CHECK(load("PFX_", "./d") != 0, "result", "success though the file is a directory"); judge(1, 1); return; }
    mc_op("%s", mc_escs(F[f].t)); put("f", F[f].t, strlen(F[f].t)); faults = mc_choose(2); int rc = load("PFX_", "./f"); if (hits) { MC_CHECK(rc != 0, "result", "success though a call failed"); want("PFX_A", "1"); judge(1, 1); return; } if (F[f].rc == 0) want("PFX_A", "1"); if (F[f].rc == 1) want("PFX_A", "1"); judge(rc, F[f].rc == 1);
}
static void s_names(void)
{
    begin(); static const char SP[] = " '\"\\$`;&|<>()*?#~=%!{}[]\n\t-a.\300"; char nm[700]; int kind = mc_choose(4), n = 0; mkdir("bin", 0755);
    if (kind == 0) { nm[n++] = SP[mc_choose(sizeof SP - 1)]; nm[n++] = SP[mc_choose(sizeof SP - 1)]; nm[n++] = 'f'; } else if (kind == 1) { nm[n++] = 'f'; nm[n++] = SP[mc_choose(sizeof SP - 1)]; } else if (kind == 2) { static const char *S[] = { "$(echo f)", "`echo f`", "a;b", "f 2>g", "$HOME", "~", "a'b'c", "''", "a\\'b", "*", "-x", "env", "f && g" }; n = sprintf(nm, "%s", S[mc_choose(13)]); } else { n = 200 + mc_choose(56); memset(nm, 'n', n); } nm[n] = 0;
    if (strchr(nm, '/') || !strcmp(nm, ".") || !strcmp(nm, "..")) mc_discard(); mc_op("file %s", mc_escs(nm)); put(nm, "export PFX_A=right\n", 19); char t[900], bp[900]; snprintf(bp, sizeof bp, "bin/%s", nm); put(bp, "export PFX_A=wrong\n", 19); if (strcmp(nm, "f")) put("f", "export PFX_A=other\n", 19);
    int how = mc_choose(4); char pathv[5000]; snprintf(pathv, sizeof pathv, "%s/bin:%s", mc_scratch(), oldpath); if (how == 0) snprintf(t, sizeof t, "%s", nm); else if (how == 1) snprintf(t, sizeof t, "./%s", nm); else if (how == 2) snprintf(t, sizeof t, "%s/%s", mc_scratch(), nm); else snprintf(t, sizeof t, "bin/%s", nm);
    __real_setenv("PATH", pathv, 1); for (int i = 0; i < nbefore; i++) if (!strncmp(before[i], "PATH=", 5)) { free(before[i]); before[i] = malloc(strlen(pathv) + 6); sprintf(before[i], "PATH=%s", pathv); } int rc = load("PFX_", t); want("PFX_A", how == 3 ? "wrong" : "right"); judge(rc, 0); __real_setenv("PATH", oldpath, 1);
    for (int i = 0; i < nbefore; i++) if (!strncmp(before[i], "PATH=", 5)) { free(before[i]); before[i] = malloc(strlen(oldpath) + 6); sprintf(before[i], "PATH=%s", oldpath); }
}
static void s_paths(void) { begin(); mkdir("d", 0755); int n = mc_choose(mc_tier ? 2600 : 320) * (mc_tier ? 1 : 8); char p[4200]; int k = 0; for (int i = 0; i < n; i++) { p[k++] = '.'; p[k++] = '/'; if (k > 3900) break; } if (mc_choose(2)) p[k++] = '.', p[k++] = '/'; strcpy(p + k, "f"); mc_op("path of %zu bytes", strlen(p)); put("f", "export PFX_A=1\n", 15); int rc = load("PFX_", p); want("PFX_A", "1"); judge(rc, rc); }
static void s_args(void) { begin(); put("f", "export PFX_A=1\n", 15); int o = mc_choose(3); mc_op("%d", o); int rc = o == 0 ? u_env_init(NULL, "./f") : o == 1 ? u_env_init("PFX_", NULL) : u_env_init("PFX_", ""); judge(rc, 1); }
/* name spaces of every length, and variables just outside them */
static void s_prefix(void)
{
    begin(); static char p[5000], n[6][5010]; int l = 1 + mc_choose(mc_tier ? 600 : 80), o = mc_choose(6), k = 0; if (!mc_tier && l > 70) { static const int X[] = { 127, 128, 129, 255, 256, 511, 512, 1000, 1100, 2100 }; l = X[l - 71]; } for (int i = 0; i < l; i++) p[i] = i % 7 == 6 ? '_' : 'A' + i % 26; p[l] = 0; mc_op("name space of %d characters", l);
    sprintf(n[0], "%sX", p); sprintf(n[1], "%sx", p); n[1][l - 1] = n[1][l - 1] == '_' ? 'Z' : n[1][l - 1] + 32; sprintf(n[2], "%sY", p); n[2][l - 1] = n[2][l - 1] == 'Q' ? 'R' : 'Q'; sprintf(n[3], "%sZ", p); n[3][0] = 'a'; snprintf(n[4], sizeof n[4], "Z%s", p); sprintf(n[5], "%s", p); for (int i = 0; i < 6; i++) { int j = (i + o) % 6; k += sprintf(text + k, "export %s=%d\n", n[j], j); } if (l > 1) { char c = p[l - 1]; p[l - 1] = 0; k += sprintf(text + k, "export %s=short\n", p); p[l - 1] = c; }
    put("f", text, k); want(n[0], "0"); want(n[5], "5"); judge(load(p, "./f"), 0);
}
const struct mc_scn mc_scns[] = {
    { "prefixes", s_prefix, MC_QT, 2, 0, 0, 0, "name spaces of 1 to 70 and up to 2100 characters (thorough: every length to 600), with variables that differ from them in one character or are one shorter" },
    { "lengths", s_len, MC_QT, 2, 0, 0, 0, "values of lengths around 0, 512 and the multiples of 1023-1024 up to 8202 bytes (thorough: every length to 2199), alone, before and after others" },
    { "bytes", s_bytes, MC_QT, 2, 0, 0, 0, "every byte but newline at the start, middle and end of a value; every pair of 38 special bytes" },
    { "scripts", s_scripts, MC_QT, 3, 0, 0, 0, "all sequences of 3 (thorough 4) of 11 statements, 3 prefixes, with and without an inherited value" },
    { "status", s_status, MC_QT, 1, 1, 2, 0, "17 scripts that succeed or fail in every way, missing file, directory; failing popen and setenv" },
    { "names", s_names, MC_QT, 2, 0, 0, 0, "file names: every pair of 30 special bytes, shell syntax, lengths 200-255; plain, ./, absolute and in a directory, with a decoy in PATH" },
    { "paths", s_paths, MC_QT, 1, 0, 0, 0, "paths of every length up to 3900 bytes" },
    { "arguments", s_args, MC_QT, 1, 0, 0, 0, "missing arguments" },
    { 0 } };
