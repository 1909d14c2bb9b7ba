// Reference URI parser (RFC 3986 generic syntax; service names and * allowed as ports).
#include "mc.h"
#include <u/libu.h>
enum { CS, CUI, CU, CP, CH, CPORT, CPATH, CQ, CF, NCOMP };
static const char *const ucn[NCOMP] = { "scheme", "userinfo", "user", "pwd", "host", "port", "path", "query", "fragment" };
static const char *(*const ugetters[NCOMP])(u_uri_t *) = { u_uri_get_scheme, u_uri_get_userinfo, u_uri_get_user, u_uri_get_pwd, u_uri_get_host, u_uri_get_port, u_uri_get_path, u_uri_get_query, u_uri_get_fragment };
static int (*const usetters[NCOMP])(u_uri_t *, const char *) = { u_uri_set_scheme, u_uri_set_userinfo, u_uri_set_user, u_uri_set_pwd, u_uri_set_host, u_uri_set_port, u_uri_set_path, u_uri_set_query, u_uri_set_fragment };
struct um { const char *b[NCOMP]; int n[NCOMP]; const char *auth; int authn, has_auth, literal, ipv4, dotted, has_frag, maxn, fuzzy; };
static int u_al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int u_di(int c) { return c >= '0' && c <= '9'; }
static int u_hx(int c) { return u_di(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
/* are all of s[0..n) unreserved / pct-encoded / sub-delims / one of extra? */
static int u_chars(const char *s, int n, const char *extra)
{
    for (int i = 0; i < n; i++) {
        int c = s[i];
        if (c == '%') { if (i + 2 >= n || !u_hx(s[i + 1]) || !u_hx(s[i + 2])) return 0; i += 2; continue; }
        if (u_al(c) || u_di(c) || (c && strchr("-._~!$&'()*+,;=", c)) || (c && strchr(extra, c))) continue;
        return 0;
    }
    return 1;
}
static int u_octet(const char **p) { int v = 0, k = 0; const char *s = *p; while (u_di(*s) && k < 4) v = v * 10 + *s++ - '0', k++; if (!k || k > 3 || v > 255 || (k > 1 && **p == '0')) return 0; *p = s; return 1; }
static int u_v4(const char *s, int n) { char b[32]; const char *p = b; if (n > 15) return 0; memcpy(b, s, n); b[n] = 0; for (int i = 0; i < 4; i++) { if (i && *p++ != '.') return 0; if (!u_octet(&p)) return 0; } return !*p; }
/* IPv6address per RFC 3986 */
static int u_v6(const char *s, int n)
{
    int groups = 0, dbl = 0, i = 0;
    while (i < n) {
        if (i + 1 < n && s[i] == ':' && s[i + 1] == ':') { if (dbl++) return 0; i += 2; if (i == n) break; }
        else if (groups) { if (s[i] != ':') return 0; i++; }
        int k = i; while (k < n && u_hx(s[k])) k++;
        if (k < n && s[k] == '.') { if (!u_v4(s + i, n - i)) return 0; groups += 2; i = n; break; }
        if (k == i || k - i > 4) return 0;
        groups++; i = k;
    }
    return dbl ? groups <= 7 : groups == 8;
}
static int u_vf(const char *s, int n) { int i = 1; if (n < 4 || (s[0] | 32) != 'v' || !u_hx(s[1])) return 0; while (i < n && u_hx(s[i])) i++; if (i >= n - 1 || s[i] != '.') return 0; for (i++; i < n; i++) if (s[i] == '%' || !u_chars(s + i, 1, ":")) return 0; return 1; }

/* 1: a URI, components in m; 0: not a URI. m->fuzzy: either verdict is fine. */
static int um_parse(const char *t, struct um *m)
{
    int i, n = (int)strlen(t); const char *e = t + n, *q, *h;
    memset(m, 0, sizeof *m); for (i = 0; i < NCOMP; i++) m->b[i] = "";
#define SET(k, p, l) (m->b[k] = (p), m->n[k] = (int)(l))
    if (!u_al(*t)) return 0;
    for (i = 1; u_al(t[i]) || u_di(t[i]) || t[i] == '+' || t[i] == '-' || t[i] == '.'; i++) ;
    if (t[i] != ':') return 0;
    SET(CS, t, i); t += i + 1;
    if ((h = strchr(t, '#'))) { SET(CF, h + 1, e - h - 1); m->has_frag = 1; e = h; }
    q = memchr(t, '?', e - t);
    if (q) { SET(CQ, q + 1, e - q - 1); e = q; }
    if (!u_chars(m->b[CQ], m->n[CQ], ":@/?") || !u_chars(m->b[CF], m->n[CF], ":@/?")) return 0;
    if (e - t >= 2 && t[0] == '/' && t[1] == '/') {
        const char *a = t + 2, *ae = memchr(a, '/', e - a), *at; if (!ae) ae = e;
        m->has_auth = 1; m->auth = a; m->authn = (int)(ae - a); t = ae;
        at = memchr(a, '@', ae - a);
        if (at) {
            SET(CUI, a, at - a); if (!u_chars(a, (int)(at - a), ":")) return 0;
            const char *co = memchr(a, ':', at - a);
            SET(CU, a, (co ? co : at) - a); if (co) SET(CP, co + 1, at - co - 1);
            a = at + 1;
        }
        const char *he;
        if (a < ae && *a == '[') {
            he = memchr(a, ']', ae - a); if (!he) return 0;
            m->literal = 1; SET(CH, a + 1, he - a - 1);
            if (!u_chars(m->b[CH], m->n[CH], ":@")) return 0;
            if (!u_v6(m->b[CH], m->n[CH]) && !u_vf(m->b[CH], m->n[CH])) m->fuzzy = 1;
            he++;
        } else {
            he = memchr(a, ':', ae - a); if (!he) he = ae;
            SET(CH, a, he - a); if (!u_chars(a, (int)(he - a), "")) return 0;
            m->ipv4 = u_v4(a, (int)(he - a)); m->dotted = he > a; for (const char *p = a; p < he; p++) if (!u_di(*p) && *p != '.') m->dotted = 0;
        }
        if (he < ae) { if (*he != ':') return 0; SET(CPORT, he + 1, ae - he - 1); for (const char *p = he + 1; p < ae; p++) if (!u_al(*p) && !u_di(*p) && *p != '_' && *p != '-' && *p != '.' && *p != '*') return 0; }
    }
    SET(CPATH, t, e - t);
    if (!u_chars(t, (int)(e - t), ":@/")) return 0;
    for (i = 0; i < NCOMP; i++) if (m->n[i] > m->maxn) m->maxn = m->n[i];
    return 1;
#undef SET
}
static void um_cmp(u_uri_t *u, struct um *m, int split, const char *where)
{
    for (int i = 0; i < NCOMP; i++) {
        const char *g = ugetters[i](u); int n = (i == CU || i == CP) && !split ? 0 : m->n[i];
        MC_CHECK(g, "component", "%s: no %s", where, ucn[i]);
        if ((int)strlen(g) != n || memcmp(g, m->b[i], n)) mc_fail("component", "%s: %s is \"%s\", expected \"%.*s\"", where, ucn[i], mc_escs(g), n, m->b[i]);
    }
}
