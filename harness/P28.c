// Histories of database updates, failing reloads and lookups against the set of snapshots that may be answering.
// MC-LDFLAGS: @vfs -Wl,--wrap=time,--wrap=gettimeofday,--wrap=clock_gettime
#include "mc.h"
#include <u/libu.h>
#include "vfs.h"
const char *mc_property = "P28", *mc_level = "model_checking";
void mc_cleanup(void) { vfs_reset(); }
#define NV 4
/* version v of the database: users a, b and c have passwords of that version, except where the version lacks them */
static int has(int v, int u) { return !((v == 1 && u == 2) || (v == 2 && u == 0) || v == 3); }
static const char *text(int v) { static const char *t[NV] = { "a:a0\nb:b0\nc:c0\n", "# x\nb:b1\na:a1:o\n", "c:c2\n\nb:b2\n", "" }; return t[v]; }
static int cur;          /* version in the file; -1 when there is none */
static unsigned may;     /* versions the snapshot may hold: bit v; bit NV: nothing loaded yet */
static long tick;
static void write_db(int v) { cur = v; vfs_file("/vfs/a/pw", text(v), strlen(text(v))); vn[vname[vfs_name("/vfs/a/pw")].ino].mtime = ++tick; }
/* custom callbacks: the same database, failures of their own */
static int c_failed, c_notified, sees; static const char *c_at;
static int c_open(const char *u, void **h) { (void)u; if (cur < 0) return ~0; if (mc_dev(2)) { c_failed = 1; mc_note("open fails"); return ~0; } c_at = text(cur); *h = &c_at; return 0; }
static void c_close(void *h) { MC_CHECK(h == &c_at, "handle", "close with a strange handle"); }
static char *c_load(char *b, int n, void *h) { int k = 0; (void)h; if (!*c_at) return NULL; while (k + 1 < n && *c_at) if ((b[k++] = *c_at++) == '\n') break; b[k] = 0; return b; }
static int c_notify(const char *u, time_t last, time_t *now) { (void)u; c_notified++; if (cur < 0 || last == tick) return 0; *now = tick; return 1; }
static u_pwd_t *W; static int mem, kind; static u_pwd_rec_t *held; static char hu[8], hp[8];
static void narrow(int u, const char *got)
{
    unsigned ok = 0; char w[8]; for (int v = 0; v < NV; v++) if (may >> v & 1) { snprintf(w, sizeof w, "%c%d", 'a' + u, v); if (got ? has(v, u) && !strcmp(got, w) : !has(v, u)) ok |= 1u << v; } if ((may >> NV & 1) && !got) ok |= 1u << NV;
    if (!ok) mc_fail("answer", "user %c answered \"%s\"; the snapshot may hold the version(s) of mask %#x, the file has version %d", 'a' + u, got ? got : "not found", may, cur); may = ok;
}
static void lookup(int u, int how, int fault)
{
    char name[2] = { 'a' + u, 0 }, pw[8]; u_pwd_rec_t *r = NULL; int oom0 = mc_oom_hits, h0; unsigned was = may; c_failed = 0; h0 = vfs_hits; mc_transitions(1);
    if (kind == 0) vfs_faults = fault == 1; mc_oom = fault == 2; int g = ~0, auth = -1, v = cur >= 0 ? cur : 0; snprintf(pw, sizeof pw, "%c%d", 'a' + u, v);
    if (how == 1) auth = u_pwd_auth_user(W, name, pw); else g = u_pwd_retr(W, name, &r); vfs_faults = 0; mc_oom = 0; vfs_judge();
    int failed = vfs_hits != h0 || c_failed, oom = mc_oom_hits != oom0;
    mc_op("%s of %s%s: %s", how == 1 ? "authentication" : "retrieval", name, failed ? " with an input failure" : oom ? " out of memory" : "", how == 1 ? auth ? "refused" : "accepted" : g ? "not found" : u_pwd_rec_get_password(r));
    /* which versions may be the snapshot now */
    if (!mem) { may = cur >= 0 ? 1u << cur : 1u << NV; } 
    else if (kind == 2 && !(may >> NV & 1)) ; /* nothing tells of changes: the first load stays */
    else if (cur >= 0) { if (failed || oom) may |= 1u << cur; else if (kind == 2) may = (may & ~(1u << NV)) | 1u << cur; else may = 1u << cur; }
    unsigned all = may;
    if (how == 1) {
        if (auth == 0) { if (!(may >> v & 1) || !has(v, u)) mc_fail("answer", "accepted a password of version %d; the snapshot may hold mask %#x", v, was); may = 1u << v; }
        else if (!oom && !(failed && !mem)) { unsigned ok = may; if (has(v, u)) ok &= ~(1u << v); if (!ok) mc_fail("answer", "refused the password of version %d; the snapshot may hold mask %#x", v, may); may = ok; }
    } else if (g == 0) { const char *p = u_pwd_rec_get_password(r), *n = u_pwd_rec_get_user(r), *o = u_pwd_rec_get_opaque(r); MC_CHECK(!strcmp(n, name), "answer", "user %s for %s", n, name); narrow(u, p); MC_CHECK(!o == !(u == 0 && may == 2), "answer", "opaque data of %s", p); if (how == 2 && !held) { held = r; snprintf(hu, 8, "%s", n); snprintf(hp, 8, "%s", p); } else u_pwd_rec_free(W, r); }
    else if (!oom && !(failed && !mem)) narrow(u, NULL);
    if (!mem) may = all;
    if (held) MC_CHECK(!strcmp(u_pwd_rec_get_user(held), hu) && !strcmp(u_pwd_rec_get_password(held), hp), "held", "a record handed out earlier changed");
}
static void run_hist(void)
{
    int steps = mc_tier ? 5 : 4; kind = mc_choose(mc_arg() ? 2 : 3); mem = kind == 2 ? 1 : mc_arg() == 1 ? 1 : mc_choose(2) ? 0 : 1; tick = 100; held = NULL; may = 1u << NV; cur = -1;
    int rc = kind == 0 ? u_pwd_init_file("/vfs/a/pw", NULL, 0, mem, &W) : u_pwd_init("x", c_open, c_load, c_close, kind == 1 ? c_notify : NULL, NULL, 0, mem, &W); MC_CHECK(rc == 0, "init", "refused");
    mc_op("%s, %s", mem ? "in-memory" : "direct", kind == 0 ? "file" : kind == 1 ? "callbacks" : "callbacks without notification"); write_db(0);
    int left = mc_arg() == 1 ? 2 : 1; /* failures */
    for (int i = 0; i < steps; i++) {
        int op = mc_choose(10 + (left > 0 ? 4 : 0));
        if (op < 4) { if (op == cur) mc_discard(); mc_op("database becomes version %d", op); write_db(op); }
        else if (op == 4) { if (cur < 0) mc_discard(); mc_op("database removed"); unlink("/vfs/a/pw"); cur = -1; ++tick; }
        else if (op < 8) lookup(op - 5, 0, 0); else if (op == 8) lookup(mc_choose(2), 1, 0); else if (op == 9) { if (held) mc_discard(); lookup(1, 2, 0); }
        else { left--; lookup(op & 1, 0, op < 12 ? 1 : 2); }
    }
    /* afterwards the whole snapshot answers as one version: first with the database out of reach, then with it back */
    if (mem && cur >= 0) { unlink("/vfs/a/pw"); int c = cur; cur = -1; for (int u = 0; u < 3; u++) lookup(u, 0, 0); write_db(c); } for (int u = 0; u < 3; u++) lookup(u, 0, 0);
    mc_state(mc_h64(mc_h64(may, cur + 1), mem * 4 + kind)); if (held) u_pwd_rec_free(W, held); u_pwd_term(W); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* time stamps count whole seconds: changes within the second of a load are noticed, too */
static long now; extern time_t __real_time(time_t *); extern int __real_gettimeofday(struct timeval *, void *), __real_clock_gettime(clockid_t, struct timespec *);
time_t __wrap_time(time_t *t) { if (!now) return __real_time(t); if (t) *t = now; return now; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!now) return __real_gettimeofday(t, z); t->tv_sec = now; t->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!now) return __real_clock_gettime(c, t); t->tv_sec = now; t->tv_nsec = 0; return 0; }
static void run_clock(void)
{
    int steps = mc_tier ? 8 : 6; kind = 0; mem = mc_choose(2) ? 0 : 1; may = 1u << NV; held = NULL; now = 0; MC_CHECK(u_pwd_init_file("/vfs/a/pw", NULL, 0, mem, &W) == 0, "init", "refused"); now = 1000; tick = now - 1; write_db(0);
    for (int i = 0; i < steps; i++) { int op = mc_choose(7); if (op == 6) { mc_op("the clock is set back"); now -= 300; if (now < 100) mc_discard(); continue; } if (op < 3) { if (op == cur) mc_discard(); mc_op("database becomes version %d", op); tick = now - 1; write_db(op); } else if (op == 3) { now += 1; mc_op("a second passes"); } else lookup(op - 4, 0, 0); }
    for (int u = 0; u < 3; u++) lookup(u, 0, 0);
    now = 0; mc_state(may * 2 + mem); u_pwd_term(W); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* a big database: a reload cut anywhere */
static void run_big(void)
{
    static char t[2][20000]; size_t n[2] = { 0, 0 }; int nu = mc_choose(2) ? 30 : 400; for (int v = 0; v < 2; v++) for (int i = 0; i < nu; i++) n[v] += sprintf(t[v] + n[v], "user%d:p%d.%d:%s\n", i, v, i, i % 7 ? "" : "opaque");
    char u[32], p[32]; tick = 100; cur = 0; vfs_file("/vfs/a/pw", t[0], n[0]); vn[vname[vfs_name("/vfs/a/pw")].ino].mtime = ++tick; MC_CHECK(u_pwd_init_file("/vfs/a/pw", NULL, 0, 1, &W) == 0, "init", "refused"); mc_op("%d users", nu);
    for (int i = 0; i < nu; i += 7) { sprintf(u, "user%d", i); sprintf(p, "p0.%d", i); MC_CHECK(u_pwd_auth_user(W, u, p) == 0, "answer", "%s refused", u); }
    vfs_file("/vfs/a/pw", t[1], n[1]); vn[vname[vfs_name("/vfs/a/pw")].ino].mtime = ++tick; vfs_errs = vfs_faults = 1; int a = mc_choose(3) * (nu - 1) / 2; sprintf(u, "user%d", a); sprintf(p, "p0.%d", a); int old = u_pwd_auth_user(W, u, p) == 0; vfs_faults = 0; vfs_judge(); mc_note("reload with %d faults answered from the %s version", vfs_hits, old ? "old" : "new");
    if (!vfs_hits) MC_CHECK(!old, "answer", "the new version was not noticed"); unlink("/vfs/a/pw");
    for (int i = 0; i < nu; i++) { sprintf(u, "user%d", i); sprintf(p, "p%d.%d", !old, i); MC_CHECK(u_pwd_auth_user(W, u, p) == 0, "mixed", "%s is refused after a reload that %s", u, old ? "failed" : "succeeded"); sprintf(p, "p%d.%d", old, i); MC_CHECK(u_pwd_auth_user(W, u, p) != 0, "mixed", "%s accepted with the other version's password", u); }
    vfs_file("/vfs/a/pw", t[1], n[1]); vn[vname[vfs_name("/vfs/a/pw")].ino].mtime = ++tick; for (int i = 0; i < nu; i += 3) { sprintf(u, "user%d", i); sprintf(p, "p1.%d", i); MC_CHECK(u_pwd_auth_user(W, u, p) == 0, "retry", "%s refused after a reload that could succeed", u); }
    u_pwd_term(W); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(nu * 8 + old);
}
/* two databases open at the same time, each with a clock of its own */
static struct { int v; long t; const char *at; int pos; } two[2];
static int t_open(const char *u, void **h) { int w = *u - '0'; two[w].at = text(two[w].v); *h = &two[w]; return 0; }
static void t_close(void *h) { (void)h; }
static char *t_load(char *b, int n, void *h) { int k = 0; const char **at = h == &two[0] ? &two[0].at : &two[1].at; if (!**at) return NULL; while (k + 1 < n && **at) if ((b[k++] = *(*at)++) == '\n') break; b[k] = 0; return b; }
static int t_notify(const char *u, time_t last, time_t *now) { int w = *u - '0'; if (last == two[w].t) return 0; *now = two[w].t; return 1; }
static void run_two(void)
{
    static const char *uri[2] = { "0", "1" }; u_pwd_t *h[2] = { NULL, NULL }; int steps = mc_tier ? 7 : 5, m[2], kept = 0; u_pwd_rec_t *keep = NULL; char kw[8]; m[0] = mc_choose(2); m[1] = mc_choose(2); int open2 = mc_choose(2);
    for (int w = 0; w < 2; w++) { two[w].v = w; two[w].t = 100; if (w == 0 || !open2) MC_CHECK(u_pwd_init(uri[w], t_open, t_load, t_close, t_notify, NULL, 0, m[w], &h[w]) == 0, "init", "refused"); }
    mc_op("databases %s and %s%s", m[0] ? "in memory" : "direct", m[1] ? "in memory" : "direct", open2 ? ", the second opened later" : "");
    for (int i = 0; i < steps + 2; i++) {
        int op = i < steps ? mc_choose(9) : 4 + (i - steps) * 2, w; /* 0-3: new version; 4-7: lookup; 8: the first goes and comes back */
        mc_transitions(1);
        if (op < 4) { w = op >> 1; two[w].v = (two[w].v + 1 + (op & 1)) % 3; two[w].t++; mc_op("database %d becomes version %d", w, two[w].v); continue; }
        if (op == 8) { if (kept == 1) mc_discard(); u_pwd_term(h[0]); mc_op("the first is closed and opened"); MC_CHECK(u_pwd_init(uri[0], t_open, t_load, t_close, t_notify, NULL, 0, m[0], &h[0]) == 0, "init", "refused"); continue; }
        w = (op - 4) >> 1; int u = (op & 1) ? 2 : 1; char name[2] = { 'a' + u, 0 }, want[8]; u_pwd_rec_t *r = NULL; sprintf(want, "%c%d", 'a' + u, two[w].v);
        if (!h[w]) MC_CHECK(u_pwd_init(uri[w], t_open, t_load, t_close, t_notify, NULL, 0, m[w], &h[w]) == 0, "init", "refused");
        int g = u_pwd_retr(h[w], name, &r); mc_op("%s of database %d: %s", name, w, g ? "not found" : u_pwd_rec_get_password(r));
        if (!has(two[w].v, u)) MC_CHECK(g, "answer", "database %d has no user %s in version %d", w, name, two[w].v);
        else { MC_CHECK(!g && !strcmp(u_pwd_rec_get_user(r), name) && !strcmp(u_pwd_rec_get_password(r), want), "answer", "database %d of version %d: %s has password %s", w, two[w].v, name, g ? "(not found)" : u_pwd_rec_get_password(r)); MC_CHECK(!u_pwd_auth_user(h[w], name, want), "answer", "database %d refuses %s", w, want); }
        if (!g) { if (!kept) { keep = r; kept = w + 1; strcpy(kw, want); } else u_pwd_rec_free(h[w], r); }
        if (kept) MC_CHECK(!strcmp(u_pwd_rec_get_password(keep), kw), "held", "a record handed out earlier changed");
    }
    mc_state(mc_h64(two[0].v * 3 + two[1].v, m[0] * 2 + m[1])); if (kept) u_pwd_rec_free(h[kept - 1], keep); for (int w = 0; w < 2; w++) u_pwd_term(h[w]); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
const struct mc_scn mc_scns[] = {
    { "history", run_hist, MC_QT, 4, 1, 2, 0, "every history of 4 (5) updates, removals and lookups in file and callback databases, in memory and direct, one failing lookup" },
    { "reload", run_hist, MC_QT, 4, 1, 2, 1, "the same in memory with up to two failing lookups" },
    { "seconds", run_clock, MC_QT, 3, 0, 0, 0, "every history of 6 (8) updates, lookups, passing seconds and corrections of the clock with whole-second time stamps" },
    { "two databases", run_two, MC_QT, 4, 0, 0, 0, "every history of 5 (7) updates, lookups and reopenings of two databases open at once" },
    { "big", run_big, MC_QT, 1, 1, 2, 0, "databases of 30 and 400 users, a reload failing at every point" },
    { 0 }
};
