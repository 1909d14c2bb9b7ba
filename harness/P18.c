// Text to number conversions.
#include "mc.h"
#include <u/libu.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
const char *mc_property = "P18", *mc_level = "model_checking";
typedef unsigned __int128 u128;

static int blank(int c) { return c == ' ' || (c >= 9 && c <= 13); }
/* the longest leading integer: sign and magnitude (saturating) */
static int ref_int(const char *s, int *neg, u128 *v)
{
    while (blank((unsigned char)*s)) s++;
    *neg = 0; if (*s == '+' || *s == '-') *neg = *s++ == '-';
    if (*s < '0' || *s > '9') return 0;
    *v = 0; for (; *s >= '0' && *s <= '9'; s++) if (*v < ((u128)1 << 100)) *v = *v * 10 + (*s - '0');
    return 1;
}
static const int errnos[] = { 0, ERANGE, EINVAL, ENOENT, EINTR };
static const char *val(const char *t) { return mc_escs(t); }
static void judge(const char *text)
{
    int n = (int)strlen(text), neg, have, e0 = errnos[mc_choose(5)]; u128 v = 0; char *t = malloc(n + 1); memcpy(t, text, n + 1);
    have = ref_int(t, &neg, &v);
    u128 lmax = (u128)LONG_MAX + neg, imax = (u128)INT_MAX + neg;
    mc_op("convert \"%s\" with errno %d", val(t), e0);
    long l = 12345; int i = 12345; uintmax_t u = 12345; double d = 12345; int rc;
    errno = e0; rc = u_atol(t, &l);
    MC_CHECK((rc == 0) == (have && v <= lmax), "atol-verdict", "u_atol(\"%s\") with errno %d gives %d", val(t), e0, rc);
    if (rc == 0) MC_CHECK(l == (neg ? (long)-(unsigned long)v : (long)v), "atol", "u_atol(\"%s\") is %ld", val(t), l);
    errno = e0; rc = u_atoi(t, &i);
    MC_CHECK((rc == 0) == (have && v <= imax), "atoi-verdict", "u_atoi(\"%s\") with errno %d gives %d", val(t), e0, rc);
    if (rc == 0) MC_CHECK(i == (neg ? (int)-(long)v : (int)v), "atoi", "u_atoi(\"%s\") is %d", val(t), i);
    if (!(have && neg)) {
        errno = e0; rc = u_atoumax(t, &u);
        MC_CHECK((rc == 0) == (have && v <= (u128)UINTMAX_MAX), "atoumax-verdict", "u_atoumax(\"%s\") with errno %d gives %d", val(t), e0, rc);
        if (rc == 0) MC_CHECK(u == (uintmax_t)v, "atoumax", "u_atoumax(\"%s\") is %ju", val(t), u);
    }
    char *end; errno = 0; double w = strtod(t, &end); int wok = end != t && errno != ERANGE;
    errno = e0; rc = u_atof(t, &d);
    MC_CHECK((rc == 0) == wok, "atof-verdict", "u_atof(\"%s\") with errno %d gives %d", val(t), e0, rc);
    if (rc == 0) MC_CHECK(d == w || (isnan(d) && isnan(w)), "atof", "u_atof(\"%s\") is %.17g", val(t), d);
    mc_state(mc_h64(mc_h64(have, (uint64_t)v), neg * 2 + wok));
    free(t);
}
static char T[512]; static int n;
static void gen(const char *a, int max) { int k = (int)strlen(a); n = 0; for (int i = 0; i < max; i++) { int c = mc_choose(k + 1); if (c == k) break; T[n++] = a[c]; } T[n] = 0; }
static void run_texts(void) { gen("019 +-x.e\t", mc_tier ? 6 : 5); judge(T); }
static void run_floats(void) { gen("01+-.eExp", mc_tier ? 7 : 5); judge(T); }
static const char *bases[] = { "0", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "99999999999999999999999999999999" };
/* decimal text of base+delta */
static void text_of(u128 v, char *o) { char b[64]; int k = 0; do b[k++] = '0' + (int)(v % 10); while (v /= 10); while (k) *o++ = b[--k]; *o = 0; }
static void run_bounds(void)
{
    static const char *pre[] = { "", "+", "-", " ", "\t\n-", "000", "-00", " + ", "--", "+-", "0x" }, *post[] = { "", " ", "x", ".", "0", "\n", "-" };
    u128 v; int neg; const char *b = bases[mc_choose(11)]; char num[64]; ref_int(b, &neg, &v); int dl = mc_choose(5) - 2; if (v == 0 && dl < 0) mc_discard();
    if (strlen(b) > 30) strcpy(num, b); else text_of(v + dl, num);
    sprintf(T, "%s%s%s", pre[mc_choose(11)], num, post[mc_choose(7)]); judge(T);
}
static void run_fbounds(void)
{
    static const char *f[] = { "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e309", "2.2250738585072014e-308", "2.2250738585072011e-308", "4.9e-324", "1e-324", "1e-400", "0e999", "0e-999", "inf", "-infinity", "nan", "infx", "0x1p3", "0x", "1e", "1e+", ".", ".5", "5.", "-.5e1x", "1,5", "0.1", "123456789012345678901234567890" };
    static const char *pre[] = { "", " ", "+", "-", "x" }; sprintf(T, "%s%s", pre[mc_choose(5)], f[mc_choose(27)]); judge(T);
}
static void run_bytes(void) { int c = 1 + mc_choose(255); static const char *f[] = { "%c", "%c1", "1%c", "-%c1", " %c", "1%c2" }; sprintf(T, f[mc_choose(6)], c); judge(T); }
/* what an earlier call left behind must not matter */
static void prior(int k)
{
    long l; int i; uintmax_t u; double d;
    static const char *t[] = { "99999999999999999999", "x", "", "1e999", "5" };
    const char *s = t[k / 4]; mc_op("earlier conversion %d of \"%s\"", k % 4, s);
    switch (k % 4) { case 0: u_atol(s, &l); break; case 1: u_atoi(s, &i); break; case 2: u_atoumax(s, &u); break; case 3: u_atof(s, &d); }
}
static void run_history(void)
{
    static const char *t[] = { "0", "-0", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "2147483647", "-2147483648", "1e308", "0.0", "", "x", "7x", "99999999999999999999" };
    int D = mc_tier ? 3 : 2; for (int d = 0; d < D; d++) { int k = mc_choose(21); if (k < 20) prior(k); else { mc_op("strtol overflow"); errno = 0; strtol("99999999999999999999", NULL, 10); } }
    int e = errno; const char *s = t[mc_choose(13)]; (void)e; strcpy(T, s); judge(T);
}
/* typed configuration and JSON access */
static void run_typed(void)
{
    static const char *t[] = { "0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "x", "7x", "yes", "YES", "yEs", "no", "No", "enable", "disable", "on", "OFF", "enabled", "y", "01", "true", "99999999999999999999", "+5" };
    int e0 = errnos[mc_choose(5)], k = mc_choose(25), neg, out = 4242; const char *v = k < 24 ? t[k] : NULL; u128 w = 0; u_config_t *c = NULL;
    MC_CHECK(u_config_create(&c) == 0, "create", "no config"); if (v) MC_CHECK(u_config_set_key(c, "k", v) == 0, "set", "cannot set");
    mc_op("typed access to %s with errno %d", v ? v : "a missing key", e0);
    int have = v && ref_int(v, &neg, &w) && w <= (u128)INT_MAX + neg;
    errno = e0; int rc = u_config_get_subkey_value_i(c, "k", -77, &out);
    MC_CHECK((rc == 0) == (have || !v), "config-int", "integer value of %s gives %d", v ? v : "nothing", rc); if (rc == 0) MC_CHECK(out == (v ? neg ? (int)-(long)w : (int)w : -77), "config-int", "integer value of %s is %d", v ? v : "nothing", out);
    int b = -1; if (v) { if (!strcasecmp(v, "yes") || !strcasecmp(v, "1") || !strcasecmp(v, "enable") || !strcasecmp(v, "on")) b = 1; if (!strcasecmp(v, "no") || !strcasecmp(v, "0") || !strcasecmp(v, "disable") || !strcasecmp(v, "off")) b = 0; }
    out = 4242; errno = e0; rc = u_config_get_subkey_value_b(c, "k", 33, &out);
    MC_CHECK((rc == 0) == (b >= 0 || !v), "config-bool", "boolean value of %s gives %d", v ? v : "nothing", rc); if (rc == 0) MC_CHECK(out == (v ? b : 33), "config-bool", "boolean value of %s is %d", v ? v : "nothing", out);
    u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
    long l; double d; u_json_t *j = NULL; static const char *jt[] = { "[0]", "[9223372036854775807]", "[-9223372036854775808]", "[9223372036854775808]", "[1e308]", "[1e309]" }; int q = mc_choose(6);
    MC_CHECK(u_json_decode(jt[q], &j) == 0, "json", "cannot decode"); u_json_t *x = u_json_child_first(j);
    errno = e0; rc = u_json_get_int(x, &l); MC_CHECK((rc == 0) == (q != 3), "json-int", "integer value of %s gives %d", jt[q], rc); if (rc == 0 && q < 3) MC_CHECK(l == (q == 0 ? 0 : q == 1 ? LONG_MAX : LONG_MIN), "json-int", "integer value of %s is %ld", jt[q], l);
    errno = e0; rc = u_json_get_real(x, &d); MC_CHECK((rc == 0) == (q != 5), "json-real", "real value of %s gives %d", jt[q], rc);
    u_json_free(j);
}
static void run_null(void) { long l; int i; uintmax_t u; double d; mc_op("NULL arguments"); MC_CHECK(u_atol(NULL, &l) && u_atol("1", NULL) && u_atoi(NULL, &i) && u_atoumax(NULL, &u) && u_atoumax("1", NULL) && u_atof(NULL, &d) && u_atof("1", NULL), "null", "a NULL argument was accepted"); }
const struct mc_scn mc_scns[] = {
    { "texts", run_texts, MC_QT, 2, 0, 0, 0, "all texts of up to 5 (thorough 6) of 019 +-x.e and tab, under 5 earlier error numbers" },
    { "floats", run_floats, MC_QT, 2, 0, 0, 0, "all texts of up to 5 (thorough 7) of 01+-.eExp, under 5 earlier error numbers" },
    { "bounds", run_bounds, MC_QT, 2, 0, 0, 0, "every integer within 2 of 11 type limits, with 11 prefixes and 7 suffixes" },
    { "float-bounds", run_fbounds, MC_QT, 1, 0, 0, 0, "27 extreme or odd floating texts, with 5 prefixes" },
    { "bytes", run_bytes, MC_QT, 1, 0, 0, 0, "every byte value in six positions" },
    { "histories", run_history, MC_QT, 2, 0, 0, 0, "every sequence of 2 (thorough 3) earlier conversions" },
    { "typed-access", run_typed, MC_QT, 1, 0, 0, 0, "configuration and JSON getters" },
    { "null", run_null, MC_QT, 0, 0, 0, 0, "NULL arguments" },
    { 0 } };
