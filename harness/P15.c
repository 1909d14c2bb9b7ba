// URI parsing against a reference parser.
#include "uri_model.h"
const char *mc_property = "P15", *mc_level = "model_checking";

static void judge(const char *text)
{
    int n = (int)strlen(text); char *t = malloc(n + 1); memcpy(t, text, n + 1);
    struct um m; int want = um_parse(t, &m), split = 1;
    for (int o = 0; o < 2; o++) {
        u_uri_t *u = NULL;
        split = !o;
        mc_op("parse \"%s\"%s", mc_escs(text), o ? " keeping user info whole" : "");
        int rc = u_uri_crumble(t, o ? U_URI_OPT_DONT_PARSE_USERINFO : U_URI_OPT_NONE, &u);
        if (!want) MC_CHECK(rc != 0, "accepts-malformed", "accepted: \"%s\"", mc_escs(text));
        else if (m.maxn >= U_TOKEN_SZ) MC_CHECK(rc != 0, "accepts-overlong", "a URI with a component of %d characters was accepted", m.maxn);
        else if (m.maxn <= U_TOKEN_SZ - 3 && !m.fuzzy) MC_CHECK(rc == 0, "refuses-wellformed", "refused: \"%s\"", mc_escs(text));
        MC_CHECK(rc == 0 || u == NULL, "object-on-failure", "failure returned an object");
        if (rc == 0) {
            MC_CHECK(u != NULL, "no-object", "success without an object");
            um_cmp(u, &m, split, "parsed");
            u_uri_flags_t f = u_uri_get_flags(u);
            MC_CHECK(!!(f & U_URI_FLAGS_HOST_IS_IPLITERAL) == m.literal, "flags", "IP literal flag is %d for \"%s\"", !!(f & U_URI_FLAGS_HOST_IS_IPLITERAL), mc_escs(text));
            if (m.literal || m.ipv4 || !m.dotted) MC_CHECK(!!(f & U_URI_FLAGS_HOST_IS_IPADDRESS) == (m.literal || m.ipv4), "flags", "IP address flag is %d for \"%s\"", !!(f & U_URI_FLAGS_HOST_IS_IPADDRESS), mc_escs(text));
            const char *a = u_uri_get_authority(u);
            if (m.authn && a && !*a && mc_is_known("authority-unset")) mc_known("authority-unset");
            else MC_CHECK(a && (int)strlen(a) == m.authn && !memcmp(a, m.authn ? m.auth : "", m.authn), "authority-unset", "authority of \"%s\" is \"%s\"", mc_escs(text), a ? mc_escs(a) : "NULL");
            uint64_t h = 7; for (int i = 0; i < NCOMP; i++) h = mc_hs(h, ugetters[i](u)); mc_state(h);
            u_uri_free(u);
        }
        if (!o && !m.fuzzy && (!want || m.maxn <= U_TOKEN_SZ - 3)) {
            int abs = u_uri_is_absolute(t);
            if (!want || m.n[CF] || !m.has_frag) MC_CHECK(!!abs == (want && !m.has_frag), "absolute", "\"%s\" is %sabsolute", mc_escs(text), abs ? "" : "not ");
        }
        MC_CHECK(mc_live() == 0, "leak", "%zu blocks left after parsing \"%s\"", mc_live(), mc_escs(text));
        if (!memchr(text, '@', n)) break;
    }
    free(t);
}
static char T[4096]; static int tn;
static void chars(const char *a, int max) { int k = (int)strlen(a); for (int i = 0; i < max; i++) { int c = mc_choose(k + 1); if (c == k) break; T[tn++] = a[c]; } T[tn] = 0; }
static void start(const char *p) { strcpy(T, p); tn = (int)strlen(T); }
#define ALL "a1:/?#@[]%. g"
static void run_any(void) { start(""); chars(ALL, mc_tier ? 6 : 5); judge(T); }
static void run_hier(void) { start("s:"); chars("a1:/?#@[%. ", mc_tier ? 6 : 5); judge(T); }
static void run_auth(void) { start(mc_choose(2) ? "s://h" : "s://"); chars("a1:/?#@[]%.", mc_tier ? 6 : 5); judge(T); }
static void run_userinfo(void) { start("s://"); chars("a:@%1/", mc_tier ? 8 : 6); judge(T); }
static void run_scheme(void) { start(""); chars("aZ0+-._:%", mc_tier ? 7 : 6); judge(T); }
static void run_pct(void) { static const char *pre[] = { "s:", "s:/", "s://", "s://h/", "s://h", "s://u", "s://h:", "s:?", "s:#", "s://[", "s:a" }; start(pre[mc_choose(11)]); chars("%0fFgG@/]", mc_tier ? 6 : 5); judge(T); }
static void run_ip(void) { start("s://"); static const char *tk[] = { "1", "25", "256", "0", ".", "a", ":", "/", "-" }; int k = mc_tier ? 8 : 7; for (int i = 0; i < k; i++) { int c = mc_choose(10); if (c == 9) break; strcpy(T + tn, tk[c]); tn += (int)strlen(tk[c]); } judge(T); }
static void run_literal(void)
{
    start(mc_choose(2) ? "s://[" : "s://u@["); static const char *tk[] = { "::", "1", "abcd", ":", "v1.", "1.2.3.4" };
    int k = mc_tier ? 8 : 6; for (int i = 0; i < k; i++) { int c = mc_choose(7); if (c == 6) break; strcpy(T + tn, tk[c]); tn += (int)strlen(tk[c]); }
    static const char *end[] = { "]", "]:80", "]:", "]/p", "]?q", "]#f", "]x", "", "/]", "]]" }; strcpy(T + tn, end[mc_choose(10)]); judge(T);
}
static void run_bytes(void)
{
    static const char *f[] = { "%s:a", "a%s:b", "s:%s", "s:a%sb", "s:/%s", "s://%s", "s://a%sb", "s://u%s@h", "s://%s@h", "s://h:8%s", "s://h:%s/", "s://h/a%s", "s:?%s", "s:?a%sb#c", "s:#%s", "s:#a%s", "s://[%s::1]", "s://[::1%s]", "s://[::1]%s", "s://u:%s@h", "s://h%s" };
    char b[2] = { (char)(1 + mc_choose(255)), 0 }; sprintf(T, f[mc_choose(21)], b); judge(T);
}
/* one component at a time grows past the internal limit, alone or followed by the next */
static void run_lengths(void)
{
    static const char *f[] = { "%s:x", "%s:", "s://%s@h/", "s://u:%s@h", "s://%s:p@h", "s://%s", "s://%s:1/p", "s://h:%s", "s://h:%s/p", "s:%s", "s:%s?q", "s:/%s#f", "s://h/%s", "s:?%s", "s:?%s#f", "s:p#%s", "s://[%s]", "s://[%s]/", "s://u@%s" };
    int w = mc_choose(19), n = 120 + mc_choose(20), big = mc_choose(4); if (big) n = big == 1 ? 1 + n - 120 : big == 2 ? n + 200 : n * 20;
    static char L[4096]; char *t = malloc(n + 64); memset(L, w == 16 || w == 17 ? '1' : 'a', n); if (w == 16 || w == 17) memcpy(L, "v1.", n < 3 ? n : 3); L[n] = 0; sprintf(t, f[w], L); judge(t); free(t);
}
/* long authorities made of short parts */
static void run_combined(void)
{
    int n = 20 + 15 * mc_choose(8), mask = mc_choose(64); char c[200], t[2048]; int l = 0; memset(c, 'b', n); c[n] = 0;
    l += sprintf(t + l, "s:"); if (mask & 7) l += sprintf(t + l, "//"); if (mask & 1) l += sprintf(t + l, "%s@", c); if (mask & 2) l += sprintf(t + l, "%s", c); if (mask & 4) l += sprintf(t + l, ":%s", c);
    if (mask & 8) l += sprintf(t + l, "/%s", c); if (mask & 16) l += sprintf(t + l, "?%s", c); if (mask & 32) l += sprintf(t + l, "#%s", c); judge(t);
}
const struct mc_scn mc_scns[] = {
    { "any", run_any, MC_QT, 2, 0, 0, 0, "all texts of up to 5 (thorough 6) of the characters a1:/?#@[]%. g and blank" },
    { "after-scheme", run_hier, MC_QT, 2, 0, 0, 0, "all continuations of s: by up to 5 (thorough 6) of 11 characters" },
    { "authority", run_auth, MC_QT, 3, 0, 0, 0, "all continuations of s:// and s://h by up to 5 (thorough 6) of 11 characters" },
    { "userinfo", run_userinfo, MC_QT, 2, 0, 0, 0, "all continuations of s:// by up to 6 (thorough 8) of a:@%1/" },
    { "scheme", run_scheme, MC_QT, 2, 0, 0, 0, "all texts of up to 6 (thorough 7) of aZ0+-._:%" },
    { "escapes", run_pct, MC_QT, 3, 0, 0, 0, "up to 5 (thorough 6) of %0fFgG@/] in each of 11 positions" },
    { "addresses", run_ip, MC_QT, 3, 0, 0, 0, "hosts of up to 7 (thorough 8) tokens of numbers, dots, letters, colons" },
    { "ip-literals", run_literal, MC_QT, 3, 0, 0, 0, "bracketed hosts of up to 6 (thorough 8) tokens with every kind of ending" },
    { "bytes", run_bytes, MC_QT, 1, 0, 0, 0, "every byte value in 21 positions" },
    { "lengths", run_lengths, MC_QT, 2, 0, 0, 0, "each component of 1..20, 120..139, 320..339, 2400..2780 characters" },
    { "combined", run_combined, MC_QT, 1, 0, 0, 0, "every combination of long components" },
    { 0 } };
