// Every small password database against every user and password, from memory snapshots and directly.
// MC-LDFLAGS: @vfs
#include "mc.h"
#include <u/libu.h>
#include "vfs.h"
#include "similar.h"
const char *mc_property = "P27", *mc_level = "model_checking";
void mc_cleanup(void) { vfs_reset(); }
/* a database in memory, read line by line the way fgets does, or without the newlines */
static const char *db; static size_t dbn; struct rd { size_t at; int strip; }; static int opened, closed, strip;
static const char *uri = "x";
static int c_open(const char *u, void **h) { MC_CHECK(!strcmp(u, uri), "location", "opens \"%s\" instead of \"%s\"", u, uri); struct rd *r = malloc(sizeof *r); r->at = 0; r->strip = strip; *h = r; opened++; return 0; }
static void c_close(void *h) { closed++; free(h); }
static char *c_load(char *b, int n, void *h) { struct rd *r = h; int k = 0; if (r->at >= dbn) return NULL; while (k + 1 < n && r->at < dbn) { char c = db[r->at++]; if (c == '\n' && r->strip) break; b[k++] = c; if (c == '\n') break; } b[k] = 0; return b; }
static int c_notify(const char *u, time_t last, time_t *now) { MC_CHECK(!strcmp(u, uri), "location", "asks for \"%s\" instead of \"%s\"", u, uri); if (last == 5) return 0; *now = 5; return 1; }
/* ---- reference */
typedef struct { const char *u, *p, *o; size_t un, pn, on; int fields; } rec; static rec R[2000]; static int nr;
static void parse(void)
{
    nr = 0; for (size_t i = 0; i < dbn;) { size_t e = i; while (e < dbn && db[e] != '\n') e++; const char *l = db + i, *z = db + e, *a, *b; i = e + 1; if (l == z || *l == '#') continue;
        if (!(a = memchr(l, ':', z - l)) || a == l) continue; b = memchr(a + 1, ':', z - a - 1); if (!b) b = z; if (b == a + 1) continue;
        if (nr == 2000) abort(); rec *r = &R[nr++]; r->u = l; r->un = a - l; r->p = a + 1; r->pn = b - a - 1; r->fields = 2; r->on = 0; if (b < z) { r->fields = 3; r->o = b + 1; const char *c = memchr(b + 1, ':', z - b - 1); if (c) r->fields = 4; r->on = z - b - 1; } }
}
static int eq(const char *s, const char *f, size_t n) { return strlen(s) == n && !memcmp(s, f, n); }

static int nul_hash; static size_t hlen;
static int c_hash(const char *s, size_t n, char out[]) { uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull; h ^= h >> 29; for (size_t i = 0; i < hlen; i++, h >>= 3) out[i] = 'a' + h % 3; if (nul_hash) out[hlen] = 0; return 0; }
static const char *mname[] = { "file mode", "in-memory mode" };
static void query(u_pwd_t *w, int mem, const char *u, const char *p, int hash)
{
    int recs = 0, first = -1, any = 0; char hb[512]; const char *q = p; if (hash) { c_hash(p, strlen(p), hb); hb[hlen] = 0; q = hb; }
    for (int i = 0; i < nr; i++) if (eq(u, R[i].u, R[i].un)) { if (!recs++) first = i; any |= eq(q, R[i].p, R[i].pn); }
    int rc = u_pwd_auth_user(w, u, p); mc_transitions(1);
    if (rc == 0) MC_CHECK(any, "accepted", "%s: user \"%s\" with password \"%s\" accepted; database \"%s\"", mname[mem], mc_esc(u, strnlen(u, 40)), mc_esc(p, strnlen(p, 40)), mc_esc(db, dbn < 80 ? dbn : 80));
    else if (recs == 1) MC_CHECK(!any, "refused", "%s: user \"%s\" with password \"%s\" refused; database \"%s\"", mname[mem], mc_esc(u, strnlen(u, 40)), mc_esc(p, strnlen(p, 40)), mc_esc(db, dbn < 80 ? dbn : 80));
    if (recs <= 1 && *p == 'a') {
        u_pwd_rec_t *r = NULL; int g = u_pwd_retr(w, u, &r); MC_CHECK((g == 0) == (recs == 1), "retrieve", "%s: \"%s\" %s", mname[mem], mc_escs(u), g ? "not found" : "found"); if (g) return;
        const char *ru = u_pwd_rec_get_user(r), *rp = u_pwd_rec_get_password(r), *ro = u_pwd_rec_get_opaque(r); rec *m = &R[first];
        MC_CHECK(ru && !strcmp(ru, u) && rp && eq(rp, m->p, m->pn), "record", "%s: \"%s\" retrieved with the wrong name or password", mname[mem], mc_escs(u));
        if (m->fields == 2) MC_CHECK(!ro, "record", "%s: opaque data from nowhere", mname[mem]); if (m->fields == 3 && m->on) MC_CHECK(ro && eq(ro, m->o, m->on), "record", "%s: wrong opaque data", mname[mem]); u_pwd_rec_free(w, r);
    }
}
static u_pwd_t *get(int src, int mem, int hash)
{
    u_pwd_t *w = NULL; strip = src == 2; opened = closed = 0; int rc;
    if (src == 0) { vfs_file("/vfs/a/pw", db, dbn); rc = u_pwd_init_file("/vfs/a/pw", hash ? c_hash : NULL, hash ? hlen : 0, mem, &w); } else rc = u_pwd_init(uri, c_open, c_load, c_close, c_notify, hash ? c_hash : NULL, hash ? hlen : 0, mem, &w);
    MC_CHECK(rc == 0 && !u_pwd_in_memory(w) == !mem, "init", "refused"); return w;
}
static void put(u_pwd_t *w) { u_pwd_term(w); MC_CHECK(opened == closed, "close", "database opened %d times, closed %d times", opened, closed); vfs_judge(); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); }
static const char *users[] = { "a", "b", "aa", "ab", "", ":", "a:", ":a", "a:b", "a:a", "#", "#a", "a\n", "A" }, *pws[] = { "a", "b", "aa", "ba", "", ":", "a:a", "a:", "#", "a\n", "b:a", "A" };
static void run_text(void)
{
    char t[16]; static const char al[] = "a:\nb#"; int src = 1 + mc_choose(2), mem = mc_choose(2), n = mc_choose(mc_tier ? 9 : 8); for (int i = 0; i < n; i++) t[i] = al[mc_choose(mc_arg() ? 5 : 4)]; if (mc_arg() && !memchr(t, '#', n)) mc_discard();
    db = t; dbn = n; parse(); mc_op("%s, %s, database \"%s\"", mname[mem], src == 1 ? "lines with their newline" : "lines without newline", mc_esc(t, n)); mc_state(mc_hash(1, t, n));
    u_pwd_t *w = get(src, mem, 0); for (unsigned i = 0; i < sizeof users / sizeof *users; i++) for (unsigned j = 0; j < sizeof pws / sizeof *pws; j++) query(w, mem, users[i], pws[j], 0); put(w);
}
static void run_lines(void)
{
    static const char *ln[] = { "a:a\n", "a:b:h\n", "b:a:x:y\n", "#a:a\n", "\n", "a\n", "a:\n", ":a\n", "a::a\n", "::\n", "aa:a\n", " a:a\n", "a:a" };
    char t[128] = ""; int src = mc_choose(3), mem = mc_choose(2), n = mc_choose(mc_tier ? 5 : 4); for (int i = 0; i < n; i++) strcat(t, ln[mc_choose(13)]);
    db = t; dbn = strlen(t); parse(); mc_op("%s, database \"%s\"", mname[mem], mc_escs(t)); mc_state(mc_hs(1, t));
    u_pwd_t *w = get(src, mem, 0); for (unsigned i = 0; i < sizeof users / sizeof *users; i++) for (unsigned j = 0; j < sizeof pws / sizeof *pws; j++) query(w, mem, users[i], pws[j], 0);
    MC_CHECK(u_pwd_auth_user(w, "a", NULL) && u_pwd_auth_user(w, NULL, "a") && u_pwd_auth_user(NULL, "a", "a"), "null", "accepted"); put(w);
}
/* lines longer than any internal buffer: nothing in them may pass for a record of its own, and nothing is cut */
static void run_long(void)
{
    static char t[2600], u[1200], p[1200]; int kind = mc_choose(6), src = mc_choose(3), mem = mc_choose(2), len = mc_tier ? mc_choose(1100) : mc_choose(2) ? 240 + mc_choose(30) : (mc_choose(2) ? 500 : 1010) + mc_choose(25); size_t n = 0;
    memset(u, 'a', sizeof u); memset(p, 'b', sizeof p); 
    switch (kind) {
    case 0: t[n++] = '#'; while (n < (size_t)len) t[n++] = 'x'; n += sprintf(t + n, "a:a\nb:b\n"); break; /* comment */
    case 1: while (n < (size_t)len) t[n++] = 'x'; n += sprintf(t + n, "a:a\nb:b\n"); break; /* long user name */
    case 2: n = sprintf(t, "b:b:"); while (n < (size_t)len) t[n++] = 'x'; n += sprintf(t + n, "a:a\n"); break; /* long opaque data */
    case 3: n = sprintf(t, "a:"); while (n < (size_t)len) t[n++] = 'b'; n += sprintf(t + n, "a:a\nb:b\n"); break; /* long password */
    case 5: n = sprintf(t, "b:b:"); while (n < (size_t)len) t[n++] = 'x'; n += sprintf(t + n, "\na:a\n"); break; /* long opaque data */
    case 4: while (n < (size_t)len) t[n++] = 'x'; n += sprintf(t + n, "\na:a"); break; /* long line without record, last line without newline */
    }
    db = t; dbn = n; parse(); if (src == 2) for (size_t i = 0, s = 0; i <= n; i++) if (i == n || t[i] == '\n') { if (i - s && (i - s) % 255 == 0) mc_discard(); s = i + 1; } /* a loader that drops newlines cannot tell a full buffer from a full line */
    mc_op("%s, kind %d, length %d", mname[mem], kind, len); mc_state(mc_h64(kind, len)); u_pwd_t *w = get(src, mem, 0);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) query(w, mem, users[i], pws[j], 0);
    for (int i = 0; i < nr; i++) { snprintf(u, sizeof u, "%.*s", (int)R[i].un, R[i].u); snprintf(p, sizeof p, "%.*s", (int)R[i].pn, R[i].p); query(w, mem, u, p, 0); size_t ul = strlen(u), pl = strlen(p); for (int d = 1; d < 4; d++) { if (pl > (size_t)d) { p[pl - d] = 0; query(w, mem, u, p, 0); p[pl - d] = R[i].p[pl - d]; } if (ul > (size_t)d) { u[ul - d] = 0; query(w, mem, u, p, 0); u[ul - d] = R[i].u[ul - d]; } } strcat(p, "b"); query(w, mem, u, p, 0); p[pl] = 0; for (int cut = 250; cut < 260; cut++) if (pl > (size_t)cut) { p[cut] = 0; query(w, mem, u, p, 0); p[cut] = R[i].p[cut]; } }
    memset(p, 'b', 1199); p[1199] = 0; query(w, mem, "a", p, 0); put(w);
}
static void run_hash(void)
{
    static const int hl[] = { 1, 2, 8, 20, 63, 64, 65, 256 }; char t[1024]; int mem = mc_choose(2), k = mc_choose(11); hlen = hl[mc_choose(8)]; nul_hash = mc_choose(2); char h[512]; c_hash(pws[k], strlen(pws[k]), h); h[hlen] = 0;
    int form = mc_choose(4); if (form == 0) snprintf(t, sizeof t, "b:x\na:%s:o\n", h); else if (form == 1) snprintf(t, sizeof t, "a:%s", pws[k]); else if (form == 3) { for (size_t i = 0; i < hlen; i++) h[i] -= 32; snprintf(t, sizeof t, "a:%s\n", h); } else snprintf(t, sizeof t, "a:%sx\nb:%.*s\n", h, (int)hlen - 1, h);
    db = t; dbn = strlen(t); parse(); mc_op("%s, hash length %zu, database \"%s\"", mname[mem], hlen, mc_escs(t)); u_pwd_t *w = get(1, mem, 1); int nh = nul_hash; for (int i = 0; i < 4; i++) for (int j = 0; j < 12; j++) { nul_hash = nh; query(w, mem, users[i], pws[j], 1); } put(w);
}
/* long passwords, hashed: every length counts in full */
static void run_hash_long(void)
{
    static const int ln[] = { 1, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096 }; static char p[4200], q[4200]; int mem = mc_choose(2), n = ln[mc_choose(21)]; hlen = 20; nul_hash = 1; memset(p, 'p', n); p[n] = 0; char h[64], t[128]; c_hash(p, n, h); snprintf(t, sizeof t, "a:%s\n", h); db = t; dbn = strlen(t); parse(); mc_op("%s, hashed password of %d characters", mname[mem], n); mc_state(mc_h64(mem, n));
    u_pwd_t *w = get(1, mem, 1); query(w, mem, "a", p, 1); for (unsigned i = 0; i < 21; i++) if (ln[i] <= n) { memcpy(q, p, n + 1); q[ln[i] - 1] = 'q'; query(w, mem, "a", q, 1); if (ln[i] < n) { q[ln[i] - 1] = 'p'; q[ln[i]] = 0; query(w, mem, "a", q, 1); } } memcpy(q, p, n); strcpy(q + n, "p"); query(w, mem, "a", q, 1); put(w);
}
/* databases of many records: every one of them counts, those after it and before it do not matter */
static void run_many(void)
{
    static char t[60000]; static const int cs[] = { 1, 2, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513, 1000, 1024, 1100 }; int mem = mc_choose(2), src = mc_choose(3), n = cs[mc_choose(mc_tier ? 22 : 20)], junk = mc_choose(2); size_t l = 0; for (int i = 0; i < n; i++) { if (junk && i % 3 == 1) l += sprintf(t + l, i % 2 ? "#c\n" : "x\n"); l += sprintf(t + l, "user%d:pw%d\n", i, i * 7); } db = t; dbn = l; parse(); mc_op("%s, %d records%s", mname[mem], n, junk ? " and others" : ""); mc_state(mc_h64(mem * 3 + src, n)); u_pwd_t *w = get(src, mem, 0);
    static const int at[] = { 0, 1, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 399, 510, 511, 512, 998, 999, 1023, 1024, 1099, 1100 }; for (unsigned i = 0; i < 24; i++) if (at[i] <= n) { char u[32], p[32]; sprintf(u, "user%d", at[i]); sprintf(p, "pw%d", at[i] * 7); query(w, mem, u, p, 0); sprintf(p, "pw%d", at[i] * 7 + 7); query(w, mem, u, p, 0); query(w, mem, u, "a", 0); } put(w);
}
/* locations of every length are used whole or refused */
static void run_uri(void)
{
    static char l[4200]; int mem = mc_choose(2), n = 1 + mc_choose(mc_tier ? 1100 : 300); memset(l, 'l', n); l[n - 1] = 'e'; l[n] = 0; uri = l; db = "a:b\n"; dbn = 4; parse(); strip = opened = closed = 0; mc_op("%s, location of %d characters", mname[mem], n); mc_state(mc_h64(mem, n)); u_pwd_t *w = NULL; int rc = u_pwd_init(l, c_open, c_load, c_close, c_notify, NULL, 0, mem, &w);
    if (rc == 0) { query(w, mem, "a", "b", 0); query(w, mem, "a", "a", 0); put(w); } else { MC_CHECK(n > U_FILENAME_MAX, "init", "a location of %d characters is refused", n); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); } uri = "x";
}
/* a hash function without a length, and other unusable databases */
static void run_refused(void)
{
    int mem = mc_choose(2), k = mc_choose(7), rc; u_pwd_t *w = NULL; db = "a:b\n"; dbn = 4; vfs_file("/vfs/a/pw", db, dbn); mc_op("unusable setting %d", k); hlen = 20;
    switch (k) { case 0: rc = u_pwd_init(uri, c_open, c_load, c_close, c_notify, c_hash, 0, mem, &w); break; case 1: rc = u_pwd_init_file("/vfs/a/pw", c_hash, 0, mem, &w); break; case 2: rc = u_pwd_init(NULL, c_open, c_load, c_close, c_notify, NULL, 0, mem, &w); break; case 3: rc = u_pwd_init(uri, NULL, c_load, c_close, c_notify, NULL, 0, mem, &w); break; case 4: rc = u_pwd_init(uri, c_open, NULL, c_close, c_notify, NULL, 0, mem, &w); break; case 5: rc = u_pwd_init(uri, c_open, c_load, c_close, c_notify, NULL, 0, mem, NULL); break; default: rc = u_pwd_init_file(NULL, NULL, 0, mem, &w); }
    MC_CHECK(rc != 0 && !w, "init-refused", "accepted"); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(mem, k));
    /* optional callbacks */
    opened = closed = 0; strip = 0; parse(); rc = u_pwd_init(uri, c_open, c_load, k & 1 ? NULL : c_close, k & 2 ? NULL : c_notify, NULL, 0, mem, &w); MC_CHECK(rc == 0, "init", "refused without optional functions"); if (k & 1) { u_pwd_term(w); return; } query(w, mem, "a", "b", 0); query(w, mem, "a", "a", 0); query(w, mem, "b", "b", 0); put(w);
}
/* however often a name occurs, both modes give the same answer */
static void run_modes(void)
{
    char t[16]; static const char al[] = "a:\nb#"; int n = mc_choose(mc_tier ? 9 : 8), two = 0; for (int i = 0; i < n; i++) t[i] = al[mc_choose(mc_arg() ? 5 : 4)]; db = t; dbn = n; parse(); for (int i = 0; i < nr; i++) for (int j = 0; j < i; j++) two |= R[i].un == R[j].un && !memcmp(R[i].u, R[j].u, R[i].un); if (!two) mc_discard();
    mc_op("database \"%s\"", mc_esc(t, n)); mc_state(mc_hash(1, t, n)); u_pwd_t *w[2]; for (int m = 0; m < 2; m++) w[m] = get(1, m, 0); for (unsigned i = 0; i < sizeof users / sizeof *users; i++) for (unsigned j = 0; j < sizeof pws / sizeof *pws; j++) { int r[2]; for (int m = 0; m < 2; m++) { r[m] = u_pwd_auth_user(w[m], users[i], pws[j]); mc_transitions(1); } MC_CHECK(!r[0] == !r[1], "modes", "user \"%s\" with password \"%s\" %s in file mode only; database \"%s\"", mc_escs(users[i]), mc_escs(pws[j]), r[0] ? "refused" : "accepted", mc_esc(db, dbn)); } for (int m = 0; m < 2; m++) u_pwd_term(w[m]); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* users, and passwords, that are nearly the same */
static void run_similar(void)
{
    static char t[20000], a[5000], b[5000], pa[5000], pb[5000]; static const int PL[] = { 0, 7, 31, 63, 255, 1023 }; int src = mc_choose(3), mem = mc_choose(2), hash = mc_choose(2), f = mc_choose(SIM_FAMS), l = sim_len[mc_choose(sim_n(mc_tier ? 4096 : 512))], pf = mc_choose(SIM_FAMS), pl = PL[mc_choose(mc_tier ? 6 : 4)], which = mc_choose(3); char h1[64], h2[64];
    sim_pair(f, l, a, b); sim_pair(pf, pl, pa, pb); strcpy(h1, ""); strcpy(h2, ""); hlen = 16; nul_hash = 0; if (hash) { c_hash(pa, strlen(pa), h1); c_hash(pb, strlen(pb), h2); h1[hlen] = h2[hlen] = 0; if (!strcmp(h1, h2)) mc_discard(); }
    *t = 0; if (which != 1) sprintf(t, "%s:%s\n", a, hash ? h1 : pa); if (which) sprintf(t + strlen(t), "%s:%s\n", b, hash ? h2 : pb); if (which == 2 && mc_choose(2)) sprintf(t, "%s:%s\n%s:%s\n", b, hash ? h2 : pb, a, hash ? h1 : pa);
    db = t; dbn = strlen(t); parse(); if (src == 2) for (size_t i = 0, s = 0; i <= dbn; i++) if (i == dbn || t[i] == '\n') { if (i - s && (i - s) % 255 == 0) mc_discard(); s = i + 1; }
    mc_op("%s, users alike in %d characters (%d), passwords in %d (%d), database has %s%s", mname[mem], l, f, pl, pf, which ? which == 1 ? "the second" : "both" : "the first", hash ? ", hashed" : ""); mc_state(mc_h64(f * 5000 + l, pf * 5000 + pl));
    u_pwd_t *w = get(src, mem, hash); query(w, mem, a, pa, hash); query(w, mem, a, pb, hash); query(w, mem, b, pa, hash); query(w, mem, b, pb, hash); put(w);
}
const struct mc_scn mc_scns[] = {
    { "similar", run_similar, MC_QT, 3, 0, 0, 0, "pairs of users and of passwords alike in up to 512 (4096) characters, differing in case, last, first or high byte or in length; both modes, plain and hashed" },
    { "text", run_text, MC_QT, 3, 0, 0, 0, "every database over a b : and newline up to 7 (8) bytes x 13 users x 11 passwords x both modes" },
    { "comment", run_text, MC_QT, 3, 0, 0, 1, "the same with # as well" },
    { "lines", run_lines, MC_QT, 3, 0, 0, 0, "every database of up to 3 (4) of 13 lines, from file and custom callbacks" },
    { "long", run_long, MC_QT, 3, 0, 0, 0, "comments, names, passwords and opaque data of lengths around the line buffer and its multiples" },
    { "hash", run_hash, MC_QT, 2, 0, 0, 0, "hashed passwords of several lengths, with and without terminator" },
    { "long passwords, hashed", run_hash_long, MC_QT, 2, 0, 0, 0, "passwords of 21 lengths to 4096, cut or changed at each of them" },
    { "many records", run_many, MC_QT, 2, 0, 0, 0, "databases of 1 to 1000 (1100) records, from file and custom callbacks, with and without other lines" },
    { "location", run_uri, MC_QT, 1, 0, 0, 0, "locations of 1 to 300 (1100) characters" },
    { "refused", run_refused, MC_QT, 1, 0, 0, 0, "hash functions without a length, missing functions, optional functions left out" },
    { "repeated names", run_modes, MC_QT, 3, 0, 0, 0, "every database over a b : and newline up to 7 (8) bytes in which a name occurs twice, both modes compared" },
    { 0 }
};
