// JSON encoding round trips.
#include "json_model.h"
#include <math.h>
#include <limits.h>
#include <pthread.h>
const char *mc_property = "P13", *mc_level = "model_checking";
static char T[8192]; static int tn;
static struct jn A[256]; static int an; static char pool[65536]; static int pn;
static const char *keep(const char *s, int l) { char *p = pool + pn; memcpy(p, s, l); p[l] = 0; pn += l + 1; return p; }
static void tput(const char *s) { size_t l = strlen(s); memcpy(T + tn, s, l + 1); tn += (int)l; }

static const char *STR[] = { "", "s", "a b", "\\\"q\\\\", "\\u00e9\\n", "{[,:]}", "\xc3\xa9", "\\/" }, *NUM[] = { "0", "-1", "10.50", "1e5", "-0.0E-07", "123456789012345678901234567890" }, *KEY[] = { "k", "", "a.b", "\\\"", "j" };
static int budget, nstr, nnum, nkey;
/* writes one value */
static void gval(int depth)
{
    int c = mc_choose(depth ? 7 : 2);
    if (budget <= 0 && c < 2) c += 0;
    if (c < 2) {
        int n = 0, obj = c;
        tput(obj ? "{" : "[");
        while (budget > 0 && mc_choose(2)) {
            budget--; if (n++) tput(mc_tier && n == 2 ? " ,\n\t" : ",");
            if (obj) { tput("\""); tput(KEY[mc_choose(nkey)]); tput("\":"); }
            gval(depth + 1);
        }
        tput(obj ? "}" : "]");
    } else if (c == 2) { tput("\""); tput(STR[mc_choose(nstr)]); tput("\""); }
    else if (c == 3) tput(NUM[mc_choose(nnum)]);
    else tput(c == 4 ? "true" : c == 5 ? "false" : "null");
}
static void save(void) { memcpy(A, J, sizeof(struct jn) * jcount); an = jcount; }
/* encode o; the text must be exactly one well-formed JSON text (no leniency) equal to A[i] */
static void encode_is(u_json_t *o, int i, const char *what)
{
    char *e = NULL;
    MC_CHECK(u_json_encode(o, &e) == 0 && e, "encode", "%s: encoding failed", what);
    mc_note("encoded: %s", mc_escs(e));
    MC_CHECK(jparse(e, 1 << 30) && *jp == 0 && !jvtff, "encode-malformed", "%s: encoded text is not well-formed: \"%s\"", what, mc_escs(e));
    for (const char *p = e; *p; p++) { if (*p == '"') { for (p++; *p != '"'; p++) if (*p == '\\') p++; } else if (*p == ',') { const char *q = p + 1; while (*q == ' ') q++; MC_CHECK(*q != ']' && *q != '}', "encode-comma", "%s: trailing comma in \"%s\"", what, mc_escs(e)); } }
    const char *rk = A[i].key; int rkl = A[i].keyl; A[i].key = J[0].key; A[i].keyl = J[0].keyl; int eq = jequal(A, i, J, 0); A[i].key = rk; A[i].keyl = rkl;
    MC_CHECK(eq, "encode-differs", "%s: encoded text \"%s\" is another tree", what, mc_escs(e));
    u_json_t *o2 = NULL; char *e2 = NULL;
    MC_CHECK(u_json_decode(e, &o2) == 0, "redecode", "%s: cannot decode the encoded text \"%s\"", what, mc_escs(e));
    jcmp(o2, 0, what);
    MC_CHECK(u_json_encode(o2, &e2) == 0 && !strcmp(e, e2), "reencode", "%s: encoding again gives another text", what);
    u_json_free(o2); u_free(e); u_free(e2);
}
static void sub(u_json_t *o, int i)
{
    u_json_it_t it; u_json_t *c; int k = A[i].first;
    if (A[i].type != JA && A[i].type != JO) return;
    if (i) encode_is(o, i, "inner container");
    u_json_it(u_json_child_first(o), &it); while ((c = u_json_it_next(&it))) { sub(c, k); k = A[k].next; }
}
static void roundtrip(void)
{
    u_json_t *o = NULL; char *t = malloc(tn + 1); memcpy(t, T, tn + 1);
    mc_op("round trip %s", mc_escs(T));
    MC_CHECK(jparse(t, U_JSON_MAX_DEPTH), "harness", "generated text is malformed: %s", T);
    save(); mc_state(jhash(0));
    MC_CHECK(u_json_decode(t, &o) == 0, "decode", "cannot decode \"%s\"", mc_escs(T));
    encode_is(o, 0, "document"); sub(o, 0);
    u_json_free(o); free(t);
    MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
static void run_docs(void) { tn = 0; budget = mc_tier ? 5 : 4; nstr = mc_tier ? 3 : 2; nnum = 1; nkey = 2; gval(0); roundtrip(); }
static void run_values(void) { tn = 0; budget = 3; nstr = 8; nnum = 6; nkey = 5; gval(0); roundtrip(); }
static void run_sizes(void)
{
    int kind = mc_choose(4), len = mc_choose(127), n = 1 + mc_choose(3); tn = 0;
    if (kind == 1 && !len) len = 1;
    tput(kind == 2 ? "{" : "[");
    for (int i = 0; i < n; i++) {
        if (i) tput(",");
        if (kind == 1) for (int k = 0; k < len; k++) tput("7");
        else { tput("\""); for (int k = 0; k < len; k++) tput(k % 7 == 3 ? "%" : "z"); tput("\""); if (kind == 2) tput(":[]"); }
    }
    tput(kind == 2 ? "}" : "]");
    if (kind == 3) { char tmp[1024]; strcpy(tmp, T); tn = 0; tput("[[[[[[[[[[[[{\"a\":"); tput(tmp); tput("}]]]]]]]]]]]]"); }
    roundtrip();
}
static void run_wide(void) { int n = mc_choose(300); tn = 0; tput("["); for (int i = 0; i < n; i++) { char b[16]; sprintf(b, "%s%d", i ? "," : "", i); tput(b); } tput("]"); if (n > 200) { tn = 0; tput("{"); for (int i = 0; i < n - 150; i++) { char b[32]; sprintf(b, "%s\"k%d\":%d", i ? "," : "", i, i); tput(b); } tput("}"); } roundtrip(); }

/* --- built through the interface --- */
static const char *bkey[] = { "k", "", NULL, "\\u0041\\\\", "a\"b", "a\\", "\n" };
static int bkey_ok(int k) { return k < 4; }
static int okstr(const char *s) { char b[600]; if (strlen(s) > 500) return 0; sprintf(b, "[\"%s\"]", s); return jparse(b, 16) && *jp == 0 && J[0].n == 1 && J[J[0].first].type == JS; }
static int oknum(const char *s) { char b[600]; if (strlen(s) > 500) return 0; sprintf(b, "[%s]", s); return jparse(b, 16) && *jp == 0 && J[0].n == 1 && J[J[0].first].type == JN && J[J[0].first].vall == (int)strlen(s); }
static int anew(int parent, int type) { struct jn *sv = NULL; (void) sv; int i = an++; struct jn *x = &A[i]; memset(x, 0, sizeof *x); x->type = type; x->parent = parent; x->first = x->last = x->next = x->prev = -1; x->key = x->val = ""; if (parent >= 0) { x->prev = A[parent].last; if (x->prev >= 0) A[x->prev].next = i; else A[parent].first = i; A[parent].last = i; A[parent].n++; } return i; }
static char longs[300];
static u_json_t *leaf(int parent, int small)
{
    static const char *sv[] = { "v", "", "\\\"", "a\"b", "x\\", "\\u12g4", "\t" }, *nv[] = { "5", "-0.1e9", "", "1x", "01", "1 ", "+1", "1\"2" };
    u_json_t *o = NULL; int kind = mc_choose(small ? 3 : 7), ki = mc_choose(small ? 4 : 7), rc, ok = bkey_ok(ki), type = JZ; const char *k = bkey[ki], *v = ""; char buf[64];
    switch (kind) {
    case 0: { int s = mc_choose(small ? 4 : 8); const char *x = s == 7 ? longs : sv[s]; if (s == 7) { memset(longs, 'l', 200); longs[125 + mc_choose(4)] = 0; } type = JS; v = x; ok = ok && okstr(x); mc_op("new string key %s value %s", k ? mc_escs(k) : "NULL", mc_escs(x)); rc = u_json_new_string(k, x, &o); break; }
    case 1: { int s = mc_choose(small ? 2 : 9); const char *x = s == 8 ? longs : nv[s]; if (s == 8) { memset(longs, '3', 200); longs[125 + mc_choose(4)] = 0; } type = JN; v = x; ok = ok && oknum(x); mc_op("new number key %s value %s", k ? mc_escs(k) : "NULL", mc_escs(x)); rc = u_json_new_number(k, x, &o); break; }
    case 2: type = JZ; mc_op("new null"); rc = u_json_new_null(k, &o); break;
    case 3: type = JT; mc_op("new true"); rc = u_json_new_bool(k, 2, &o); break;
    case 4: type = JF; mc_op("new false"); rc = u_json_new_bool(k, 0, &o); break;
    case 5: { static const long lv[] = { 0, -1, LONG_MAX, LONG_MIN, 1234567890123 }; long x = lv[mc_choose(5)]; type = JN; sprintf(buf, "%ld", x); v = buf; mc_op("new int %ld", x); rc = u_json_new_int(k, x, &o); long g; if (ok && rc == 0) MC_CHECK(u_json_get_int(o, &g) == 0 && g == x, "int", "integer %ld reads back as %ld", x, g); break; }
    default: { double rv[] = { 0, -1.5, 1e300, 1e-300, 123456, INFINITY, NAN }; int s = mc_choose(7); double x = rv[s], g = 0; type = JN; ok = ok && s < 5; mc_op("new real %g", x); rc = u_json_new_real(k, x, &o);
        if (ok && rc == 0) { MC_CHECK(u_json_get_real(o, &g) == 0 && fabs(g - x) <= fabs(x) * 1e-5, "real", "real %g reads back as %g", x, g); v = keep(u_json_get_val(o), (int)strlen(u_json_get_val(o))); } break; }
    }
    MC_CHECK((rc == 0) == ok, "build", "creating an element %s", rc ? "failed" : "succeeded with an invalid key or value");
    if (!ok) return NULL;
    int i = anew(parent, type); A[i].val = type == JS || type == JN ? keep(v, (int)strlen(v)) : ""; A[i].vall = (int)strlen(A[i].val);
    if (A[parent].type == JO && k) { A[i].key = k; A[i].keyl = (int)strlen(k); }
    return o;
}
static u_json_t *cont(int parent, int small)
{
    u_json_t *o = NULL; int obj = mc_choose(2), ki = parent < 0 ? 2 : mc_choose(small ? 4 : 7), rc; const char *k = bkey[ki];
    mc_op("new %s key %s", obj ? "object" : "array", k ? mc_escs(k) : "NULL");
    rc = obj ? u_json_new_object(k, &o) : u_json_new_array(k, &o);
    MC_CHECK((rc == 0) == bkey_ok(ki), "build", "creating a container %s", rc ? "failed" : "succeeded with an invalid key");
    if (rc) return NULL;
    int i = anew(parent, obj ? JO : JA);
    if (parent >= 0 && A[parent].type == JO && k) { A[i].key = k; A[i].keyl = (int)strlen(k); }
    return o;
}
static void build(int small, int n)
{
    u_json_t *h[8]; int id[8], nh = 0; an = pn = 0;
    h[0] = cont(-1, small); id[0] = 0; nh = 1;
    for (int d = 0; d < n; d++) {
        int p = mc_choose(nh), isc = mc_choose(2), before = an;
        u_json_t *c = isc ? cont(id[p], small) : leaf(id[p], small);
        if (!c) break;
        mc_op("add to container %d", p);
        MC_CHECK(u_json_add(h[p], c) == 0, "add", "adding failed");
        if (isc) { h[nh] = c; id[nh++] = before; }
    }
    encode_is(h[0], 0, "built tree"); sub(h[0], 0);
    u_json_free(h[0]);
    MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
static void run_build(void) { build(1, mc_tier ? 4 : 3); }
static void run_leaf(void) { build(0, mc_tier ? 2 : 1); }
static void run_setval(void)
{
    /* changing key, value and type of an attached element */
    static const char *sv[] = { "v", "a\"b", "\\\"", "12", "", "1x" };
    u_json_t *o, *c; an = pn = 0; int obj = mc_choose(2), ty = mc_choose(2), s = mc_choose(6), ki = mc_choose(7), rc;
    MC_CHECK((obj ? u_json_new_object(NULL, &o) : u_json_new_array(NULL, &o)) == 0, "build", "container"); anew(-1, obj ? JO : JA);
    MC_CHECK((ty ? u_json_new_number("z", "1", &c) : u_json_new_string("z", "1", &c)) == 0, "build", "leaf"); int i = anew(0, ty ? JN : JS);
    MC_CHECK(u_json_add(o, c) == 0, "add", "add");
    mc_op("set value %s checked", mc_escs(sv[s])); rc = u_json_set_val_ex(c, sv[s], 1);
    int ok = ty ? oknum(sv[s]) : okstr(sv[s]);
    MC_CHECK((rc == 0) == ok, "set-val", "setting value %s %s", mc_escs(sv[s]), rc ? "failed" : "succeeded");
    A[i].val = ok ? sv[s] : "1"; A[i].vall = (int)strlen(A[i].val);
    mc_op("set key %s", bkey[ki] ? mc_escs(bkey[ki]) : "NULL"); rc = u_json_set_key(c, bkey[ki]);
    MC_CHECK((rc == 0) == bkey_ok(ki), "set-key", "setting the key %s", rc ? "failed" : "succeeded");
    if (obj) { A[i].key = rc ? "z" : bkey[ki] ? bkey[ki] : ""; A[i].keyl = (int)strlen(A[i].key); }
    encode_is(o, 0, "edited"); u_json_free(o);
    MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
/* elements put together step by step: create, type, key, value, attach, in every order */
static void run_raw(void)
{
    static const u_json_type_t ut[] = { U_JSON_TYPE_UNKNOWN, U_JSON_TYPE_STRING, U_JSON_TYPE_NUMBER, U_JSON_TYPE_OBJECT, U_JSON_TYPE_ARRAY, U_JSON_TYPE_TRUE, U_JSON_TYPE_FALSE, U_JSON_TYPE_NULL }; static const int mt[] = { 0, JS, JN, JO, JA, JT, JF, JZ }; static const char *vs[] = { "7", "x" }, *ks[] = { "k", "j", NULL };
    u_json_t *o, *c[3]; int ob = mc_choose(2), nc = 1 + mc_choose(mc_tier ? 2 : 1), unk = 0; an = pn = 0; MC_CHECK(u_json_new(&o) == 0 && u_json_new(NULL) != 0, "new", "creation"); MC_CHECK(u_json_set_type(o, ut[3 + !ob]) == 0, "set-type", "refused"); anew(-1, mt[3 + !ob]);
    for (int k = 0; k < nc; k++) {
        int att = mc_choose(4), ty = 0, n = 3; MC_CHECK(u_json_new(&c[k]) == 0, "new", "creation"); int i = anew(0, 0);
        for (int s = 0; s < 4; s++) { if (s == att) { mc_op("attach"); MC_CHECK(u_json_add(o, c[k]) == 0, "add", "refused"); } if (n-- > 0) switch (mc_choose(3)) {
            case 0: { int t = mc_choose(9); mc_op("set type %d", t); int rc = u_json_set_type(c[k], t == 8 ? (u_json_type_t)99 : ut[t]); MC_CHECK((rc == 0) == (t < 8), "set-type", "%d", rc); if (t < 8) ty = t; break; }
            case 1: { int w = mc_choose(2), chk = mc_choose(2), bad = chk && ty == 2 && w; mc_op("set value %s", vs[w]); int rc = u_json_set_val_ex(c[k], vs[w], (char)chk); MC_CHECK((rc != 0) == bad, "set-val", "%d", rc); if (!bad && (ty == 1 || ty == 2)) { A[i].val = vs[w]; A[i].vall = 1; } break; }
            default: { int w = mc_choose(3); mc_op("set key"); MC_CHECK(u_json_set_key(c[k], ks[w]) == 0, "set-key", "refused"); if (ob) { A[i].key = ks[w] ? ks[w] : ""; A[i].keyl = (int)strlen(A[i].key); } } } }
        A[i].type = mt[ty]; if (!ty) unk = 1; if (ty == 2 && strcmp(A[i].val, "7")) mc_discard(); if (ty != 1 && ty != 2) { A[i].val = ""; A[i].vall = 0; }
    }
    char *e = (char *)1; if (unk) { mc_op("encode an untyped element"); MC_CHECK(u_json_encode(o, &e) != 0, "encode-untyped", "encoded as %s", e); for (int k = 0; k < nc; k++) if (!A[1 + k].type) { u_json_set_type(c[k], U_JSON_TYPE_NULL); A[1 + k].type = JZ; } }
    if (!ob) MC_CHECK((int)u_json_array_count(o) == nc && u_json_array_get_nth(o, nc - 1) == c[nc - 1], "array", "%u elements of %d", u_json_array_count(o), nc);
    encode_is(o, 0, "raw"); u_json_free(o); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
/* values that cannot be stored are refused, whatever their size (on a 128 kB stack) */
static int brc[2]; static char *big;
static void *bthread(void *x) { u_json_t *o = NULL; (void) x; brc[0] = u_json_new_string("k", big, &o); brc[1] = u_json_new_number(NULL, big, &o); return NULL; }
static void run_big(void)
{
    size_t n = mc_choose(2) ? 1 << 20 : 1000; big = malloc(n + 1); memset(big, '1', n); big[n] = 0;
    mc_op("values of %zu characters", n);
    pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 << 10);
    MC_CHECK(pthread_create(&t, &a, bthread, NULL) == 0, "harness", "no thread"); pthread_join(t, NULL);
    MC_CHECK(brc[0] && brc[1], "build", "an overlong value was accepted");
    free(big); MC_CHECK(mc_live() == 0, "leak", "blocks left");
}
const struct mc_scn mc_scns[] = {
    { "documents", run_docs, MC_QT, 4, 0, 0, 0, "every document of up to 4 (thorough 5) elements over all value kinds" },
    { "values", run_values, MC_QT, 4, 0, 0, 0, "every document of up to 3 elements over 8 strings, 6 numbers, 5 keys" },
    { "sizes", run_sizes, MC_QT, 2, 0, 0, 0, "strings, keys and numbers of every length up to 126" },
    { "wide", run_wide, MC_QT, 1, 0, 0, 0, "flat containers of up to 300 elements" },
    { "built", run_build, MC_QT, 3, 0, 0, 0, "every tree built by up to 3 (thorough 4) additions" },
    { "built-values", run_leaf, MC_QT, 3, 0, 0, 0, "every single (thorough: pair of) element with all keys and values, valid and not" },
    { "edited", run_setval, MC_QT, 2, 0, 0, 0, "checked value and key changes on an attached element" },
    { "raw", run_raw, MC_QT, 4, 0, 0, 0, "one (thorough: one or two) elements put together by every sequence of 3 type, key and value changes, attached at every moment" },
    { "oversized", run_big, MC_QT, 1, 0, 0, 0, "values of 1000 and 1048576 characters" },
    { 0 } };
