// Portability replacements (srcs/missing), compiled here under other names and compared with references written from the standards.
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <paths.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <u/libu_conf.h>
const char *mc_property = "P36", *mc_level = "model_checking";
// the system functions that create processes or name files are stand-ins
static int my_fork(void), my_setsid(void), my_chdir(const char *), my_open(const char *, int, ...), my_dup2(int, int), my_close(int), my_rand(void);
static void my_exit(int);
#undef HAVE_STRLCPY
#undef HAVE_STRLCAT
#undef HAVE_STRSEP
#undef HAVE_STRTOK_R
#undef HAVE_FNMATCH
#undef HAVE_TIMEGM
#undef HAVE_MKSTEMPS
#undef HAVE_DAEMON
#define strlcpy r_strlcpy
#define strlcat r_strlcat
#define strsep r_strsep
#define strtok_r r_strtok_r
#define fnmatch r_fnmatch
#define timegm r_timegm
#define mkstemps r_mkstemps
#define daemon r_daemon
#include <../srcs/missing/strlcpy.c>
#include <../srcs/missing/strlcat.c>
#include <../srcs/missing/strsep.c>
#include <../srcs/missing/strtok_r.c>
#include <../srcs/missing/fnmatch.c>
#include <../srcs/missing/timegm.c>
#define rand my_rand
#include <../srcs/missing/mkstemps.c>
#undef rand
#define fork my_fork
#define setsid my_setsid
#define chdir my_chdir
#define open my_open
#define dup2 my_dup2
#define close my_close
#define _exit my_exit
#include <../srcs/missing/daemon.c>
#undef HAVE_VSYSLOG
#define vsyslog r_vsyslog
#define syslog my_syslog
static void my_syslog(int p, const char *f, ...);
#include <../srcs/missing/vsyslog.c>
#undef syslog
#undef vsyslog
#include <sys/time.h>
#undef time
#undef fork
#undef setsid
#undef chdir
#undef open
#undef dup2
#undef close
#undef _exit
#undef timegm

static char T[64]; static int n;
static void gen(const char *a, int max) { int k = (int)strlen(a); n = 0; for (int i = 0; i < max; i++) { int c = mc_choose(k + 1); if (c == k) break; T[n++] = a[c]; } T[n] = 0; }
static char *exact(const char *s) { size_t l = strlen(s) + 1; char *t = malloc(l); memcpy(t, s, l); return t; }

/* --- bounded copy and concatenation: every buffer is exactly as big as stated --- */
static void run_copy(void)
{
    gen("abc", mc_tier ? 7 : 6); char *s = exact(T); int sz = mc_choose(10); char *d = malloc(sz ? sz : 1); memset(d, '#', sz);
    if (mc_choose(2)) { mc_op("strlcpy \"%s\" to %d bytes", T, sz); size_t r = r_strlcpy(d, s, sz); MC_CHECK((int)r == n, "copy-result", "%zu", r);
        if (sz) { int l = n < sz ? n : sz - 1; MC_CHECK(!memcmp(d, T, l) && d[l] == 0, "copy-text", "\"%s\" to %d bytes", T, sz); } }
    else { int dl = mc_choose(sz + 1); memset(d, 'x', dl); if (dl < sz) d[dl] = 0; mc_op("strlcat \"%s\" after %d of %d bytes", T, dl, sz); size_t r = r_strlcat(d, s, sz); MC_CHECK((int)r == dl + n, "cat-result", "%zu instead of %d", r, dl + n);
        if (dl < sz) { int l = dl + n < sz ? n : sz - 1 - dl; MC_CHECK(!memcmp(d + dl, T, l) && d[dl + l] == 0, "cat-text", "\"%s\" after %d of %d bytes", T, dl, sz); } for (int i = 0; i < dl; i++) MC_CHECK(d[i] == 'x', "cat-text", "what was there changed"); }
    mc_state(mc_hs(sz, T)); free(s); free(d);
}
/* --- splitting --- */
static void run_split(void)
{
    static const char *D[] = { ",", ", ", "", "\xe9,", ",,a" }; gen("a,\xe9 b", mc_tier ? 8 : 7); const char *d = D[mc_choose(5)]; int tok = mc_choose(2); char *t = exact(T), *p = t, *save = (char *)1; int at = 0; char *dd = exact(d);
    mc_op("%s \"%s\" by \"%s\"", tok ? "strtok_r" : "strsep", mc_escs(T), mc_escs(d));
    for (int i = 0; i < n + 3; i++) {
        char *g; int b, e; 
        if (tok) { g = r_strtok_r(i ? NULL : t, dd, &save); while (at < n && strchr(d, T[at])) at++; if (at >= n) { MC_CHECK(g == NULL, "token", "a token after the last one"); continue; } b = at; while (at < n && !strchr(d, T[at])) at++; e = at; if (at < n) at++; }
        else { g = r_strsep(&p, dd); if (at > n) { MC_CHECK(g == NULL && p == NULL, "field", "a field after the last one"); continue; } b = at; while (at < n && !strchr(d, T[at])) at++; e = at; at++; MC_CHECK(at > n ? p == NULL : p == t + at, "rest", "the rest of the text is elsewhere"); }
        MC_CHECK(g == t + b && (int)strlen(g) == e - b && !memcmp(g, T + b, e - b), "piece", "piece %d is not \"%.*s\"", i, e - b, T + b);
    }
    mc_state(mc_hs(tok, T)); free(t); free(dd);
}
/* two texts taken apart at the same time, in every interleaving */
static void run_scans(void)
{
    char s[2][8], *t[2], *save[2] = { NULL, NULL }, *p[2]; int at[2] = { 0, 0 }, k[2] = { 0, 0 }, tok = mc_choose(2), len[2];
    for (int w = 0; w < 2; w++) { gen("a,", mc_tier ? 6 : 5); strcpy(s[w], T); len[w] = n; p[w] = t[w] = exact(T); if (w && strcmp(s[1], s[0]) < 0) { free(t[0]); free(t[1]); mc_discard(); } }
    mc_op("\"%s\" and \"%s\" by %s", s[0], s[1], tok ? "strtok_r" : "strsep"); int over[2] = { 0, 0 };
    while (!over[0] || !over[1]) {
        int w = over[0] ? 1 : over[1] ? 0 : mc_choose(2), b, e; char *g = tok ? r_strtok_r(k[w] ? NULL : t[w], ",", &save[w]) : r_strsep(&p[w], ","); k[w]++; mc_transitions(1); mc_note("text %d", w);
        if (tok) while (s[w][at[w]] == ',') at[w]++; if (at[w] > len[w] || (tok && at[w] == len[w])) { MC_CHECK(!g, "token", "text %d: a piece after the last one", w); over[w] = 1; continue; }
        b = e = at[w]; while (s[w][e] && s[w][e] != ',') e++; at[w] = tok && !s[w][e] ? e : e + 1; MC_CHECK(g == t[w] + b && (int)strlen(g) == e - b && !memcmp(g, s[w] + b, e - b), "piece", "text %d: piece %d is not \"%.*s\"", w, k[w], e - b, s[w] + b);
    }
    mc_state(mc_hs(mc_hs(tok, s[0]), s[1])); free(t[0]); free(t[1]);
}
/* --- file name matching --- */
static int fold(int c, int fl) { c &= 255; return fl & FNM_CASEFOLD && c < 128 ? tolower(c) : c; }
static const char *bracket(const char *p, int fl, int c, int *in)   /* p after '[': end of a well-formed bracket expression or NULL */
{
    int neg = 0, ok = 0, first = 1; if (*p == '!' || *p == '^') { neg = 1; p++; }
    for (;; first = 0) {
        if (!*p) return NULL; if (*p == ']' && !first) break;
        int a, b; if (*p == '\\' && !(fl & FNM_NOESCAPE)) p++; if (!*p) return NULL; a = b = fold(*p++, fl);
        if (*p == '-' && p[1] && p[1] != ']') { p++; if (*p == '\\' && !(fl & FNM_NOESCAPE)) p++; if (!*p) return NULL; b = fold(*p++, fl); }
        if (a <= c && c <= b) ok = 1;
    }
    *in = ok != neg; return p + 1;
}
static int ref(const char *p, const char *s, const char *s0, int fl)
{
    int lead = *s == '.' && fl & FNM_PERIOD && (s == s0 || (fl & FNM_PATHNAME && s[-1] == '/')), sl = *s == '/' && fl & FNM_PATHNAME, in; const char *q;
    switch (*p) {
    case 0: return !*s || (fl & FNM_LEADING_DIR && *s == '/');
    case '?': return *s && !lead && !sl && ref(p + 1, s + 1, s0, fl);
    case '*': if (lead) return 0; if (ref(p + 1, s, s0, fl)) return 1; return *s && !sl && ref(p, s + 1, s0, fl) ;
    case '[': if ((q = bracket(p + 1, fl, fold(*s, fl), &in))) return *s && !lead && !sl && in && ref(q, s + 1, s0, fl); break;
    case '\\': if (!(fl & FNM_NOESCAPE) && p[1]) p++; break;
    }
    return *s && fold(*p, fl) == fold(*s, fl) && ref(p + 1, s + 1, s0, fl);
}
/* a star goes on over a leading period once it has begun elsewhere: never, since a leading period follows a slash or begins the text */
static void match(const char *p, const char *s, int fl)
{
    char *pe = exact(p), *se = exact(s); int r = r_fnmatch(pe, se, fl), x = ref(p, s, s, fl) ? 0 : FNM_NOMATCH;
    MC_CHECK(r == x, "match", "pattern \"%s\", name \"%s\", flags%s%s%s%s%s: %d instead of %d", mc_escs(p), mc_escs(s), fl & FNM_NOESCAPE ? " noescape" : "", fl & FNM_PATHNAME ? " pathname" : "", fl & FNM_PERIOD ? " period" : "", fl & FNM_CASEFOLD ? " casefold" : "", fl & FNM_LEADING_DIR ? " leading-dir" : "", r, x);
    free(pe); free(se);
}
static int unspecified(const char *p, int fl)   /* ranges that go down, a slash within brackets of path names, a backslash at the end */
{
    for (const char *q = p; *q; q++) { if (*q == '\\' && !(fl & FNM_NOESCAPE)) { if (!*++q) return 1; continue; } if (*q != '[') continue; int in; const char *e = bracket(q + 1, fl, 0, &in); if (!e) { if (strchr(q, '\\') || strchr(q, '/')) return 1; continue; }
        if (fl & FNM_PATHNAME && memchr(q, '/', e - q)) return 1; if (q[1] == '!' ? q[2] == '^' : q[1] == '^' && q[2] == '!') ;
        for (const char *r = q + 2; r + 1 < e - 1; r++) if (*r == '-') { int a = r[-1], b = r[1] == '\\' && !(fl & FNM_NOESCAPE) ? r[2] : r[1]; if (fold(a, fl) > fold(b, fl)) return 1; } q = e - 1; }
    return 0;
}
static void names(const char *pat, const char *alpha, int len)
{
    int k = (int)strlen(alpha); char s[8]; 
    for (int fl = 0; fl < 32; fl++) { if (unspecified(pat, fl)) continue; 
        for (int l = 0; l <= len; l++) { int tot = 1; for (int i = 0; i < l; i++) tot *= k; for (int v = 0; v < tot; v++) { int w = v; for (int i = 0; i < l; i++) { s[i] = alpha[w % k]; w /= k; } s[l] = 0; match(pat, s, fl); } } }
    mc_transitions(32);
}
static void run_match(void) { gen("*?[]!ab-\\./", mc_tier ? 5 : 4); mc_op("pattern \"%s\"", mc_escs(T)); names(T, "ab./", 3); mc_state(mc_hs(1, T)); }
static void run_bracket(void) { gen("]!^a-c\\b", mc_tier ? 6 : 5); char p[64]; int tail = mc_choose(2); snprintf(p, sizeof p, "%s[%s%s", mc_choose(2) ? "x" : "", T, tail ? "]" : ""); mc_op("pattern \"%s\"", mc_escs(p)); names(p, "ab]-", 1); names(p, "xabc", 2); mc_state(mc_hs(2, p)); }
static void run_stars(void) { gen("*?a./", mc_tier ? 8 : 6); mc_op("pattern \"%s\"", mc_escs(T)); names(T, "a./", mc_tier ? 5 : 4); mc_state(mc_hs(3, T)); }
static void run_case(void) { gen("aB*[]-Z_", mc_tier ? 6 : 5); mc_op("pattern \"%s\"", mc_escs(T)); names(T, "AbZ_", 3); mc_state(mc_hs(4, T)); }
static void run_casebr(void) { gen("\\aZ-B!", mc_tier ? 6 : 5); char p[64]; snprintf(p, sizeof p, "[%s]", T); mc_op("pattern \"%s\"", mc_escs(p)); names(p, "AabZz\\-", 1); mc_state(mc_hs(5, p)); }
/* sizes around the powers of two that counters and buffers are made of */
static const int BIG[] = { 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 100000 };
static void run_long(void)
{
    int l = BIG[mc_choose(24)], kind = mc_choose(5); char *s = malloc(l + 2); memset(s, 'a', l); s[l] = 'b'; s[l + 1] = 0; mc_op("%d characters, kind %d", l, kind);
    switch (kind) {
    case 0: { static const char *P[] = { "*b", "*a", "*", "a*b", "*?b", "*/b", "*[b]", "*[!b]", "**b", "a*c" }; static const int yes[] = { 1, 0, 1, 1, 1, 0, 1, 0, 1, 0 }; int i = mc_choose(10), fl = mc_choose(2) * FNM_CASEFOLD; int sl = mc_choose(3); if (sl) s[sl == 1 ? l / 2 : l - 1] = '/'; int want = i == 5 ? sl == 2 : i == 4 ? 1 : yes[i], path = mc_choose(2); mc_note("pattern %s", P[i]); if (path && sl) want = i == 5 && sl == 2;
        int r = r_fnmatch(P[i], s, fl | (path ? FNM_PATHNAME : 0)); MC_CHECK(r == (want ? 0 : FNM_NOMATCH), "match", "pattern \"%s\", a name of %d characters: %d", P[i], l + 1, r); break; }
    case 1: { char *p = exact(s); int bad = mc_choose(4); if (bad == 1) p[l] = 'c'; if (bad == 2) p[l / 2] = '?'; if (bad == 3) p[0] = '*'; int r = r_fnmatch(p, s, 0); MC_CHECK(r == (bad == 1 ? FNM_NOMATCH : 0), "match", "a pattern of %d characters, variant %d: %d", l + 1, bad, r); free(p); break; }
    case 2: { int sz = l + 2 + (mc_choose(5) - 3); char *d = malloc(sz); size_t r = r_strlcpy(d, s, sz); int k = l + 1 < sz ? l + 1 : sz - 1; MC_CHECK((int)r == l + 1 && !memcmp(d, s, k) && d[k] == 0, "copy-text", "%d characters to %d bytes: %zu", l + 1, sz, r); free(d); break; }
    case 3: { int dl = mc_choose(3) * 100, sz = dl + l + 2 + (mc_choose(5) - 3); char *d = malloc(sz); memset(d, 'x', dl); d[dl] = 0; size_t r = r_strlcat(d, s, sz); int k = dl + l + 1 < sz ? l + 1 : sz - 1 - dl; MC_CHECK((int)r == dl + l + 1 && !memcmp(d + dl, s, k) && d[dl + k] == 0, "cat-text", "%d characters after %d of %d bytes: %zu", l + 1, dl, sz, r);
        int f = mc_choose(3); if (f) { memset(d, 'y', sz); if (f == 2) d[sz - 1] = 0; int have = f == 2 ? sz - 1 : sz; r = r_strlcat(d, "zz", sz); MC_CHECK((int)r == have + 2 && d[0] == 'y' && d[sz - 1] == (f == 2 ? 0 : 'y'), "cat-text", "two characters after %d of %d bytes: %zu", have, sz, r); } free(d); break; }
    case 4: { int tok = mc_choose(2), at = mc_choose(3); char *p = s, *save; s[at == 0 ? 0 : at == 1 ? l / 2 : l] = ','; int k = at == 0 ? 0 : at == 1 ? l / 2 : l; char *g = tok ? r_strtok_r(s, ",", &save) : r_strsep(&p, ","); MC_CHECK(g == (tok && k == 0 ? s + 1 : s) && (int)strlen(g) == (tok && k == 0 ? l : k), "piece", "the first of %d characters parted at %d", l + 1, k); char *h = tok ? r_strtok_r(NULL, ",", &save) : r_strsep(&p, ","); if (tok && (k == 0 || k == l)) MC_CHECK(!h, "token", "one too many"); else MC_CHECK(h == s + k + 1 && (int)strlen(h) == l - k, "piece", "the second"); break; }
    }
    free(s);
}
static void run_bytes(void)
{
    int c = 1 + mc_choose(255), form = mc_choose(8); static const char *F[] = { "%c", "[%c]", "[!%c]", "\\%c", "*%c", "?%c", "[a%c]", "[%c-\xff]" }; char p[16]; snprintf(p, sizeof p, F[form], c); mc_op("byte %d in \"%s\"", c, F[form]);
    for (int d = 1; d < 256; d++) for (int fl = 0; fl < 32; fl++) { if (unspecified(p, fl)) continue; char s[3] = { (char)d, 0, 0 }; match(p, s, fl); s[1] = (char)d; s[0] = 'k'; match(p, s, fl); s[1] = 0; }
    mc_state(mc_h64(form, c));
}
/* --- UTC time --- */
static long long civil(long long y, long long mo, long long d) { y += mo / 12; mo %= 12; if (mo < 0) { mo += 12; y--; } static const int C[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; long long py = y - 1; long long days = 365 * (y - 1970) + ((py >= 0 ? py / 4 : -((3 - py) / 4)) - (py >= 0 ? py / 100 : -((99 - py) / 100)) + (py >= 0 ? py / 400 : -((399 - py) / 400))) - (1969 / 4 - 1969 / 100 + 1969 / 400); int leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return days + C[mo] + (mo > 1 && leap) + d - 1; }
static const char *zones[] = { NULL, "", "UTC", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX-14:30", ":no/such/zone", NULL }; static char longz[400];
static void utc(struct tm t, const char *z, const char *what)
{
    if (z) setenv("TZ", z, 1); else unsetenv("TZ"); tzset(); struct tm loc; time_t ref0 = 1700000000; localtime_r(&ref0, &loc); struct tm probe = loc; time_t before = mktime(&probe);
    long long want = ((civil(t.tm_year + 1900LL, t.tm_mon, t.tm_mday) * 24 + t.tm_hour) * 60 + t.tm_min) * 60 + t.tm_sec; struct tm in = t; time_t r = r_timegm(&t);
    { time_t w = want; struct tm g; if (!gmtime_r(&w, &g)) want = -1; }   /* beyond what the fields can say */
    MC_CHECK((long long)r == want, "time", "%s: %lld instead of %lld", what, (long long)r, want);
    time_t w = want; struct tm g; gmtime_r(&w, &g); if (want != -1 || t.tm_year == 69) MC_CHECK(t.tm_year == g.tm_year && t.tm_mon == g.tm_mon && t.tm_mday == g.tm_mday && t.tm_hour == g.tm_hour && t.tm_min == g.tm_min && t.tm_sec == g.tm_sec && t.tm_wday == g.tm_wday && t.tm_yday == g.tm_yday, "fields", "%s: the fields are not normalised", what); (void)in;
    char junk[2000]; memset(junk, 'J', sizeof junk); __asm__ volatile("" :: "r"(junk) : "memory");
    const char *e = getenv("TZ"); MC_CHECK(z ? e && !strcmp(e, z) : e == NULL, "zone", "the time zone variable was %s%s and is %s%s", z ? "=" : "unset", z ? z : "", e ? "=" : "unset", e ? e : "");
    probe = loc; MC_CHECK(mktime(&probe) == before, "local", "local time is not what it was");
}
static void run_utc(void)
{
    static const int Y[] = { 70, 0, -900, 1, 68, 69, 71, 72, 99, 100, 101, 137, 138, 139, 199, 200, 201, 300, 500, 8099 }; struct tm t = { 0 };
    const char *z = zones[mc_choose(7)]; t.tm_year = Y[mc_choose(20)]; t.tm_isdst = mc_choose(3) - 1;
    for (t.tm_mon = -25; t.tm_mon <= 25; t.tm_mon++) for (int d = -2; d < 36; d++) { struct tm u = t; u.tm_mday = d; u.tm_hour = 23; u.tm_min = 59; u.tm_sec = 58; utc(u, z, "days"); }
    mc_op("year %d zone %s isdst %d", t.tm_year + 1900, z ? z : "unset", t.tm_isdst); mc_transitions(51 * 38); mc_state(mc_h64(t.tm_year, t.tm_isdst));
}
static void run_utc2(void)
{
    memset(longz, 'A', 300); strcpy(longz + 300, "-3"); zones[7] = longz; const char *z = zones[mc_choose(8)]; static const int V[] = { 0, 1, 59, 60, 61, -1, -60, 3599, 86400, -86401, 2000000000, -2000000000 };
    struct tm t = { 0 }; t.tm_year = 100 + mc_choose(2); t.tm_mon = 1; t.tm_mday = V[mc_choose(8)]; t.tm_hour = V[mc_choose(10)]; t.tm_min = V[mc_choose(12)]; t.tm_sec = V[mc_choose(12)]; t.tm_isdst = mc_choose(3) - 1; mc_op("day %d %d:%d:%d zone %.20s", t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, z ? z : "unset"); utc(t, z, "odd fields"); mc_state(mc_h64(t.tm_hour, t.tm_sec));
}
static void run_utc3(void)   /* as far as the fields go */
{
    static const int Y[] = { 0, 70, 1000000, 2147483647, 2147483646, 2147483647 - 1899, 2147483647 - 1900, 2147483647 - 1901, -1899, -1900, -1901, -3000, -401899, -401900, -402301, -1000000, -2147483647, -2147483647 - 1 }, M[] = { 0, 1, 2, 11, 12, -1, -12, 2147483647, -2147483647 - 1 }, D[] = { 1, 0, 31, 366, 2147483647, -2147483647 - 1 }, S[] = { 0, 61, 2147483647, -2147483647 - 1 };
    struct tm t = { 0 }; t.tm_year = Y[mc_choose(18)]; t.tm_mon = M[mc_choose(9)]; t.tm_mday = D[mc_choose(6)]; t.tm_hour = S[mc_choose(4)]; t.tm_min = S[mc_choose(4)]; t.tm_sec = S[mc_choose(4)]; mc_op("year %d month %d day %d %d:%d:%d", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec); utc(t, "IST-5:30", "far fields"); mc_state(mc_h64(t.tm_year, t.tm_mon));
}
/* --- temporary files --- */
static int seq[64], nseq, pseq; static int my_rand(void) { return pseq < nseq ? seq[pseq++] : 0; }
static void run_temp(void)
{
    static const char ABC[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; int x = mc_choose(3), suf = mc_choose(3), pre = mc_choose(3), dir = mc_choose(4), busy = x ? mc_choose(4) : mc_choose(2), start = mc_choose(4); static const int R[] = { 0, 30, 60, 61 };
    if (!x && !pre && (!suf || dir == 3)) mc_discard();   /* no name at all */
    char d[256], name[400], made[400]; snprintf(d, sizeof d, "%s", mc_scratch()); static const char *S[] = { "", ".c", "X.X" }, *P[] = { "", "t", "XaX-" };
    char pf[300]; snprintf(pf, sizeof pf, "%s/%s%s", d, dir == 1 ? "none/" : dir == 2 ? "file/" : "", P[pre]); if (dir == 2) { char f[300]; snprintf(f, sizeof f, "%s/file", d); close(creat(f, 0600)); } if (dir == 3) { if (chdir(d)) mc_discard(); snprintf(pf, sizeof pf, "%s", P[pre]); }
    nseq = 0; for (int i = 0; i < x; i++) seq[nseq++] = R[start]; pseq = 0; 
    snprintf(name, sizeof name, "%s%.*s%s", pf, x, "XXXX", S[suf]); int realx = 0; { size_t e = strlen(name) - strlen(S[suf]); while (realx < (int)e && name[e - 1 - realx] == 'X') realx++; }
    int nbusy = 0; for (int b = 0; b < busy && (dir == 0 || dir == 3); b++) { char f[400]; int v = R[start] + b; if (realx == 0) snprintf(f, sizeof f, "%s", name); else { snprintf(f, sizeof f, "%s", name); size_t e = strlen(name) - strlen(S[suf]); for (int i = 0; i < realx; i++) f[e - 1 - i] = ABC[i < nseq ? seq[i] : 0]; int carry = b; for (size_t i = e - realx; i < e && carry; i++) { int q = (int)(strchr(ABC, f[i]) - ABC) + carry; f[i] = ABC[q % 62]; carry = q / 62; } } (void)v; int fd = open(f, O_CREAT | O_WRONLY | O_TRUNC, 0640); if (fd >= 0) { if (write(fd, "old", 3) != 3) {} close(fd); nbusy++; } }
    mc_op("template \"%s\", suffix of %zu, directory kind %d, %d names taken", strrchr(name, '/') ? strrchr(name, '/') + 1 : name, strlen(S[suf]), dir, nbusy); char *t = malloc(strlen(name) + 1); strcpy(t, name); errno = 0; umask(0); int fd = r_mkstemps(t, (int)strlen(S[suf])), er = errno; umask(022);
    size_t L = strlen(name), sl = strlen(S[suf]); MC_CHECK(strlen(t) == L && !memcmp(t + L - sl, S[suf], sl) && !memcmp(t, name, L - sl - realx), "template", "prefix or suffix changed: \"%s\"", t); for (int i = 0; i < realx; i++) MC_CHECK(isalnum((unsigned char)t[L - sl - 1 - i]), "template", "\"%s\"", t);
    int can = dir == 0 || dir == 3; if (fd >= 0) { struct stat a, b; MC_CHECK(can, "result", "success in a missing directory"); MC_CHECK(!fstat(fd, &a) && !stat(t, &b) && a.st_ino == b.st_ino && a.st_size == 0 && (a.st_mode & 07777) == 0600 && a.st_nlink == 1, "file", "the descriptor is not a new private file of that name"); MC_CHECK(write(fd, "ab", 2) == 2 && lseek(fd, 0, SEEK_SET) == 0 && read(fd, made, 2) == 2, "file", "the file is not open for reading and writing"); MC_CHECK((fcntl(fd, F_GETFL) & O_ACCMODE) == O_RDWR, "file", "mode"); close(fd); unlink(t); }
    else { MC_CHECK(er == (dir == 1 ? ENOENT : dir == 2 ? ENOTDIR : EEXIST), "errno", "error %d", er); MC_CHECK(!can || nbusy, "result", "failure though a name is free"); if (can && realx) MC_CHECK(start >= 2 && realx == 1 ? 1 : start == 3, "result", "failure though a following name is free"); }
    int left = 0; DIR *dp = opendir(d); struct dirent *de; while ((de = readdir(dp))) if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) { char f[600]; snprintf(f, sizeof f, "%s/%s", d, de->d_name); struct stat sb; stat(f, &sb); if (dir != 2) MC_CHECK(sb.st_size == 3 && (sb.st_mode & 07777) == 0640, "existing", "an existing file was changed, or a file is left over"); left++; unlink(f); } closedir(dp); MC_CHECK(left == nbusy + (dir == 2), "existing", "%d files instead of %d", left, nbusy); if (dir == 3 && chdir("/")) {} free(t); mc_outcome(fd >= 0);
}
static void run_tempbad(void) { char t[8]; static const char *N[] = { "", "a", "ab", "X", "XX" }; int i = mc_choose(5), sl = mc_choose(4); strcpy(t, N[i]); if (sl < (int)strlen(t) || chdir(mc_scratch())) mc_discard(); mc_op("suffix %d of \"%s\"", sl, t); errno = 0; MC_CHECK(r_mkstemps(t, sl) == -1 && errno == EINVAL, "suffix", "a suffix as long as the template was not refused"); MC_CHECK(!strcmp(t, N[i]), "suffix", "template changed"); if (chdir("/")) {} mc_outcome(1); }
/* --- daemon --- */
static int forked, sessions, cds, opened, dups, closed, exits, role, fds[16], fail;
static char seen[80]; static void ev(const char *c) { strcat(seen, c); }
static int my_fork(void) { forked++; ev("f"); if (fail == 1) { errno = EAGAIN; return -1; } return role ? 0 : 77; }
static int my_setsid(void) { sessions++; ev("s"); if (fail == 2) { errno = EPERM; return -1; } return 77; }
static int my_chdir(const char *p) { MC_CHECK(!strcmp(p, "/"), "chdir", "to %s", p); cds++; ev("c"); if (fail == 3) { errno = EACCES; return -1; } return 0; }
static int my_open(const char *p, int fl, ...) { MC_CHECK(!strcmp(p, "/dev/null") && (fl & O_ACCMODE) == O_RDWR, "open", "%s", p); opened++; ev("o"); if (fail == 4) { errno = ENOENT; return -1; } int f = 0; while (fds[f]) f++; fds[f] = 2; return f; }
static int my_dup2(int a, int b) { MC_CHECK(fds[a] == 2, "dup2", "of %d, which is not the null device", a); dups++; fds[b] = 2; return b; }
static int my_close(int f) { MC_CHECK(fds[f], "close", "of %d, which is not open", f); closed++; fds[f] = 0; return 0; }
static void my_exit(int rc) { exits++; MC_CHECK(rc == 0, "exit", "the parent leaves with %d", rc); ev("x"); }
static void run_daemon(void)
{
    int nochdir = mc_choose(2), noclose = mc_choose(2), mask = mc_choose(8); role = mc_choose(2); fail = mc_choose(5); forked = sessions = cds = opened = dups = closed = exits = 0; seen[0] = 0; for (int i = 0; i < 16; i++) fds[i] = i < 3 ? (mask >> i) & 1 : 0; int was[3] = { fds[0], fds[1], fds[2] };
    mc_op("daemon(%d, %d) %s, failing step %d, descriptors %d", nochdir, noclose, role ? "child" : "parent", fail, mask); int rc = r_daemon(nochdir, noclose);
    MC_CHECK(forked == 1, "fork", "%d times", forked); if (fail == 1) { MC_CHECK(rc == -1 && !strcmp(seen, "f"), "result", "fork failed: %d after %s", rc, seen); return; }
    if (!role) { MC_CHECK(exits == 1 && !strncmp(seen, "fx", 2), "parent", "the parent goes on: %s", seen); return; }
    MC_CHECK(!exits, "child", "the child leaves"); MC_CHECK(sessions == 1, "session", "no new session"); if (fail == 2) { MC_CHECK(rc == -1 && !strcmp(seen, "fs"), "result", "%d after %s", rc, seen); return; }
    MC_CHECK(rc == 0, "result", "%d", rc); MC_CHECK(cds == !nochdir, "chdir", "%d times", cds); for (int i = 0; i < 3; i++) MC_CHECK(fds[i] == (noclose || fail == 4 ? was[i] : 2), "descriptors", "descriptor %d is not as it should be", i); for (int i = 3; i < 16; i++) MC_CHECK(!fds[i], "descriptors", "descriptor %d is left open", i); mc_outcome(rc + 1);
}
static char sl_got[4000]; static int sl_n, sl_p; static void my_syslog(int p, const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(sl_got, sizeof sl_got, f, ap); va_end(ap); sl_n++; sl_p = p; }
static void say(int p, const char *f, ...) { va_list ap; va_start(ap, f); r_vsyslog(p, f, ap); va_end(ap); }
static void run_syslog(void)
{
    static char t[1200], want[1300]; static const char *F[] = { "%s", "a %s", "%s%%", "%.3000s", "%s %d" }; int f = mc_choose(5), n = mc_choose(2) ? mc_choose(40) : 1000 + mc_choose(60), k = mc_choose(4), p = mc_choose(8) | 3 << 3; memset(t, 'x', n); t[n] = 0; if (n > 2 && k) memcpy(t + (k == 1 ? 0 : n - 2), k == 3 ? "%n" : "%s", 2);
    mc_op("message of %d characters by format %s", n, F[f]); mc_transitions(1); mc_state(mc_h64(f * 8 + p, n * 4 + k)); sl_n = 0; say(p, F[f], t, -5); snprintf(want, sizeof want, F[f], t, -5); MC_CHECK(sl_n == 1 && sl_p == p, "syslog", "%d messages, priority %d", sl_n, sl_p); size_t w = strlen(want), g = strlen(sl_got); MC_CHECK(!strncmp(want, sl_got, g) && (g == w || g >= 1023), "syslog", "message of %zu characters logged as %zu: \"%.40s\"", w, g, mc_esc(sl_got, g > 30 ? 30 : g));
}
const struct mc_scn mc_scns[] = {
    { "copy", run_copy, MC_QT, 3, 0, 0, 0, "every text of up to 6 (7) characters copied or appended into 0..9 bytes" },
    { "split", run_split, MC_QT, 3, 0, 0, 0, "every text of up to 7 (8) characters split by 5 delimiter sets, both functions" },
    { "two texts", run_scans, MC_QT, 3, 0, 0, 0, "every two texts of up to 5 (6) characters split in every interleaving, both functions" },
    { "match", run_match, MC_QT, 3, 0, 0, 0, "every pattern of up to 4 (5) of 11 characters x every name of up to 3 of 4 x all 32 flag sets" },
    { "brackets", run_bracket, MC_QT, 3, 0, 0, 0, "every bracket expression of up to 5 (6) of 8 characters, ended or not, after a character or not, likewise" },
    { "stars", run_stars, MC_QT, 3, 0, 0, 0, "every pattern of up to 6 (8) of * ? a . / x names of up to 4 (5)" },
    { "case", run_case, MC_QT, 3, 0, 0, 0, "every pattern of up to 5 (6) of aB*[]-Z_" },
    { "case in brackets", run_casebr, MC_QT, 3, 0, 0, 0, "every bracket expression of up to 5 (6) of \\ a Z - B ! against every one of 7 characters x all 32 flag sets" },
    { "long", run_long, MC_QT, 3, 0, 0, 0, "names, patterns, texts and buffers of 126 to 100000 characters at the powers of two, every function" },
    { "bytes", run_bytes, MC_QT, 1, 0, 0, 0, "every byte in 8 patterns against every byte" },
    { "dates", run_utc, MC_QT, 2, 0, 0, 0, "20 years x 51 months x 38 days, 7 time zones" },
    { "times", run_utc2, MC_QT, 3, 0, 0, 0, "fields far outside their ranges, time zones up to 302 characters" },
    { "far times", run_utc3, MC_QT, 3, 0, 0, 0, "fields up to the ends of the integers" },
    { "temporary", run_temp, MC_QT, 3, 0, 0, 0, "templates, suffixes, directories, names already taken" },
    { "suffix", run_tempbad, MC_QT, 0, 0, 0, 0, "suffixes longer than the template" },
    { "messages", run_syslog, MC_QT, 3, 0, 0, 0, "messages of 0 to 39 and 1000 to 1059 characters, with and without format directives, five formats, eight priorities" },
    { "daemon", run_daemon, MC_QT, 0, 0, 0, 0, "every option, role, failing step and set of open descriptors (stand-ins)" },
    { 0 } };
