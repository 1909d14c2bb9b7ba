// Dynamic arrays: last stored value at each index, per element type.
#include "mc.h"
#include <u/libu.h>
#include "two.h"
const char *mc_property = "P05", *mc_level = "model_checking";
void mc_cleanup(void) {}

#define NT 19
static const char *tn[NT]; static size_t tsz[NT];
static int (*setf[NT])(u_array_t *, size_t, const void *, void *);
static int (*getf[NT])(u_array_t *, size_t, void *);
static void (*mkf[NT])(void *, unsigned);
static u_array_type_t tt[NT];

/* typed shims; values exercise every byte of the type */
#define INTTYPE(i, pfx, TT, ct) \
static int set_##pfx(u_array_t *a, size_t x, const void *v, void *o) { ct t; memcpy(&t, v, sizeof t); return u_array_set_##pfx(a, x, t, (ct *)o); } \
static int get_##pfx(u_array_t *a, size_t x, void *o) { return u_array_get_##pfx(a, x, (ct *)o); }
#define ITVAL(pfx, ct) static void mk_##pfx(void *p, unsigned k) { ct t = (ct)((0x9E3779B97F4A7C15ull * (k + 1)) >> 3); memcpy(p, &t, sizeof t); }
#define FTVAL(pfx, ct) static void mk_##pfx(void *p, unsigned k) { ct t = (ct)(1.0L / (k + 3)) - (ct)k; memset(p, 0, sizeof t); memcpy(p, &t, sizeof t); }
#define CTVAL(pfx, ct) static void mk_##pfx(void *p, unsigned k) { ct t = (ct)(1.0L / (k + 3) - k + ((long double)k * 3 + .25L) * _Complex_I); memset(p, 0, sizeof t); memcpy(p, &t, sizeof t); }
INTTYPE(0, bool, U_ARRAY_TYPE_BOOL, _Bool) static void mk_bool(void *p, unsigned k) { _Bool b = (k * 7 / 3) & 1; memcpy(p, &b, 1); }
#define ALLI(X) X(char, char) X(u_char, unsigned char) X(short, short) X(u_short, unsigned short) X(int, int) X(u_int, unsigned int) X(long, long) X(u_long, unsigned long) X(long_long, long long) X(u_long_long, unsigned long long) X(intmax, intmax_t) X(u_intmax, uintmax_t)
#define ALLF(X) X(float, float) X(double, double) X(long_double, long double)
#define ALLC(X) X(float_complex, float _Complex) X(double_complex, double _Complex) X(long_double_complex, long double _Complex)
#define D1(p, c) INTTYPE(0, p, 0, c) ITVAL(p, c)
#define D2(p, c) INTTYPE(0, p, 0, c) FTVAL(p, c)
#define D3(p, c) INTTYPE(0, p, 0, c) CTVAL(p, c)
#include <complex.h>
ALLI(D1) ALLF(D2) ALLC(D3)
/* pointers have their own interface */
static int get_pptr(u_array_t *a, size_t x, void *o) { int rc = 77; void *v = u_array_get_ptr(a, x, &rc); MC_CHECK(rc == 0 || rc == -1, "ptr-status", "pointer load stored status %d, neither 0 nor -1", rc); if (rc == 0) memcpy(o, &v, sizeof v); else MC_CHECK(v == NULL, "ptr-fail", "failed pointer load returned a value"); return rc; }
static int set_pptr(u_array_t *a, size_t x, const void *v, void *o) { int rc = 77; void *t; memcpy(&t, v, sizeof t); void *old = u_array_set_ptr(a, x, t, &rc); if (o && rc == 0) memcpy(o, &old, sizeof old); return rc; }
static void mk_pptr(void *p, unsigned k) { void *v = k % 5 == 3 ? NULL : (void *)(uintptr_t)(0x123456789abcull * (k + 1)); memcpy(p, &v, sizeof v); }
#define REG(i, p, ct, T) tn[i] = #p; tsz[i] = sizeof(ct); setf[i] = set_##p; getf[i] = get_##p; mkf[i] = mk_##p; tt[i] = T;
void mc_init(void)
{
    REG(0, bool, _Bool, U_ARRAY_TYPE_BOOL) REG(1, char, char, U_ARRAY_TYPE_CHAR) REG(2, u_char, unsigned char, U_ARRAY_TYPE_U_CHAR) REG(3, short, short, U_ARRAY_TYPE_SHORT)
    REG(4, u_short, unsigned short, U_ARRAY_TYPE_U_SHORT) REG(5, int, int, U_ARRAY_TYPE_INT) REG(6, u_int, unsigned, U_ARRAY_TYPE_U_INT) REG(7, long, long, U_ARRAY_TYPE_LONG)
    REG(8, u_long, unsigned long, U_ARRAY_TYPE_U_LONG) REG(9, long_long, long long, U_ARRAY_TYPE_LONG_LONG) REG(10, u_long_long, unsigned long long, U_ARRAY_TYPE_U_LONG_LONG)
    REG(11, intmax, intmax_t, U_ARRAY_TYPE_INTMAX) REG(12, u_intmax, uintmax_t, U_ARRAY_TYPE_U_INTMAX) REG(13, float, float, U_ARRAY_TYPE_FLOAT) REG(14, double, double, U_ARRAY_TYPE_DOUBLE)
    REG(15, long_double, long double, U_ARRAY_TYPE_LONG_DOUBLE) REG(16, float_complex, float _Complex, U_ARRAY_TYPE_FLOAT_COMPLEX)
    REG(17, double_complex, double _Complex, U_ARRAY_TYPE_DOUBLE_COMPLEX)
    REG(18, pptr, void *, U_ARRAY_TYPE_PTR)
}
static int get_ldc(u_array_t *a, size_t x, void *o) { return u_array_get_long_double_complex(a, x, (long double _Complex *)o); }
static int set_ldc(u_array_t *a, size_t x, const void *v, void *o) { long double _Complex t; memcpy(&t, v, sizeof t); return u_array_set_long_double_complex(a, x, t, (long double _Complex *)o); }

/* model: sparse */
#define MAXIDX 2400
static unsigned char val[MAXIDX][32]; static char have[MAXIDX]; static size_t certain; /* indices below this must be served */
static int T; static unsigned ctr; static u_array_t *a;
/* number of meaningful bytes (long double has padding) */
static size_t nb(void) { return T == 15 ? 10 : tsz[T]; }
static int same(const void *x, const void *y)
{
    if (T == 19) return !memcmp(x, y, 10) && !memcmp((char *)x + 16, (char *)y + 16, 10);
    return !memcmp(x, y, nb());
}
static int SET(size_t i, const void *v, void *o) { return T == 19 ? set_ldc(a, i, v, o) : setf[T](a, i, v, o); }
static int GET(size_t i, void *o) { return T == 19 ? get_ldc(a, i, o) : getf[T](a, i, o); }
static void MK(void *p) { unsigned k = ctr++; if (T == 19) mk_long_double_complex(p, k); else mkf[T](p, k); }
static size_t SZ(void) { return T == 19 ? sizeof(long double _Complex) : tsz[T]; }
static const char *TN(void) { return T == 19 ? "long_double_complex" : tn[T]; }

static void check_at(size_t i, const char *why)
{
    unsigned char buf[32], zero[32] = { 0 }; memset(buf, 0xC7, sizeof buf);
    int rc = GET(i, buf);
    if (i < certain) MC_CHECK(rc == 0, "get-refused", "%s: loading %s index %zu refused", why, TN(), i);
    if (rc == 0) MC_CHECK(same(buf, have[i] ? val[i] : zero), "value", "%s: %s index %zu holds %s", why, TN(), i, have[i] ? "not the last stored value" : "something never stored");
    if (rc == 0) for (size_t k = SZ(); k < 32; k++) MC_CHECK(buf[k] == 0xC7, "get-over", "load wrote past the value");
}
static void do_set(size_t i, int want_old)
{
    unsigned char v[32] = { 0 }, old[32], zero[32] = { 0 }; MK(v); memset(old, 0xC7, sizeof old);
    mc_op("set [%zu]%s", i, want_old ? " +old" : "");
    int rc = SET(i, v, want_old ? old : NULL);
    MC_CHECK(rc == 0, "set-refused", "storing %s at %zu refused", TN(), i);
    if (want_old) {
        MC_CHECK(same(old, have[i] ? val[i] : zero), "old-value", "storing %s at %zu handed back a wrong previous value", TN(), i);
        for (size_t k = SZ(); k < 32; k++) MC_CHECK(old[k] == 0xC7, "old-over", "store wrote past the previous value");
    }
    memcpy(val[i], v, sizeof v); have[i] = 1; if (i + 1 > certain) certain = i + 1;
}
static void start(size_t slots)
{
    memset(have, 0, sizeof have); ctr = 0; a = NULL;
    mc_note("array of %s, %zu slots", TN(), slots);
    MC_CHECK(u_array_create(T == 19 ? U_ARRAY_TYPE_LONG_DOUBLE_COMPLEX : tt[T], slots, &a) == 0 && a, "create", "create failed");
    certain = slots ? slots : 1;
}
static void finish(size_t top)
{
    uint64_t h = mc_h64(T, certain);
    for (size_t i = 0; i < top; i++) { check_at(i, "final"); if (have[i]) h = mc_hash(mc_h64(h, i), val[i], 16); }
    mc_outcome(h); u_array_free(a); a = NULL;
}
static void seqs(void)
{
    static const size_t slots[] = { 1, 2, 5, 0 };
    T = mc_choose(20); size_t n0 = slots[mc_choose(4)], n = n0 ? n0 : 512;
    size_t idx[] = { 0, n - 1, n, n + 1, n + 100, n + 101, n + 202, n + 500 };
    int ni = 8, depth = mc_tier ? 4 : 3;
    start(n0);
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(ni * 2 + 2);
        if (c < ni * 2) do_set(idx[c / 2], c & 1);
        else { size_t r = c == ni * 2 ? n + 3 : n + 250; mc_op("resize to serve %zu", r); MC_CHECK(u_array_resize(a, r) == 0, "resize", "resize failed"); if (r + 1 > certain) certain = r + 1; }
        for (int i = 0; i < ni; i++) check_at(idx[i], "after store");
        check_at(n / 2, "after store"); check_at(n + 50, "after store"); check_at(n + 333, "after store");
        mc_state(mc_h64(mc_h64(T, c), certain));
    }
    finish(n + 610);
}
static void fill(void)      /* every index in turn, up or down */
{
    static const size_t slots[] = { 1, 3, 0 };
    T = mc_choose(20); start(slots[mc_choose(3)]);
    int how = mc_choose(4);
    for (int i = 0; i < 1300; i++) { size_t x = how == 0 ? (size_t)i : how == 1 ? (size_t)(1299 - i) : how == 2 ? (size_t)((i * 7) % 1300) : (size_t)((i * 769) % 1300); do_set(x, i & 1); if (i % 97 == 0) for (size_t k = 0; k < 1400; k++) check_at(k, "fill"); }
    for (int i = 0; i < 1300; i += 3) do_set((size_t)i, 1);
    finish(1400);
}
static void refused(void)
{
    unsigned char v[32] = { 0 }; int c = mc_choose(6); T = mc_choose(20); start(4); do_set(1, 0);
    mc_op("refused case %d", c);
    switch (c) {
    case 0: MC_CHECK(GET(1u << 20, v) != 0, "oob-get", "load far outside served"); break;
    case 1: MC_CHECK(GET((size_t)-1, v) != 0 && GET((size_t)-1 / 2, v) != 0, "oob-get", "load far outside served"); break;
    case 2: MC_CHECK(SET((size_t)-1, v, NULL) != 0 && SET((size_t)-1 / SZ(), v, NULL) != 0 && SET((size_t)-1 / SZ() - 1, v, NULL) != 0 && SET(((size_t)-1 >> 1) / SZ(), v, NULL) != 0, "oob-set", "store at an index no memory can serve accepted"); break;
    case 3: { u_array_t *b = NULL; MC_CHECK(u_array_create(T == 5 ? U_ARRAY_TYPE_CHAR : U_ARRAY_TYPE_INT, 4, &b) == 0, "create", "create"); u_array_t *s = a; a = b;
        if (T != 5) MC_CHECK(SET(0, v, NULL) != 0 && GET(0, v) != 0, T == 19 ? "type" : "type", "%s access to an array of int accepted", TN());
        else MC_CHECK(SET(0, v, NULL) != 0 && GET(0, v) != 0, "type", "int access to an array of char accepted"); 
        if (T == 5 || T != 5) { a = s; u_array_free(b); } } break;
    case 4: { u_array_t *b = NULL; MC_CHECK(u_array_create(U_ARRAY_TYPE_UNSET, 4, &b) != 0 && u_array_create(U_ARRAY_TYPE_MAX + 1, 4, &b) != 0 && u_array_create(U_ARRAY_TYPE_INT, 4, NULL) != 0, "create-bad", "bad creation accepted"); u_array_free(NULL); } break;
    case 5: { u_array_t *s = a; a = NULL; MC_CHECK(SET(0, v, NULL) != 0 && GET(0, v) != 0, "null", "NULL array accepted"); a = s; MC_CHECK(T == 18 || GET(1, NULL) != 0, "null", "NULL result accepted"); } break;
    }
    for (size_t i = 0; i < 4; i++) check_at(i, "refused");
    finish(300);
}
/* two arrays of different types at the same time */
static void two(void)
{
    static const int t[] = { 0, 1, 5, 15, 18, 19, 13 }; int D = mc_tier ? 4 : 3, x = mc_choose(7), y = mc_choose(7), c; sw_begin(); SW(T); SW(a); SW(ctr); SW(certain); sw_reg(have, 640); sw_reg(val, 640 * sizeof *val); static const size_t I[] = { 0, 4, 105, 505 };
    for (int w = 0; w < 2; w++) { sw_to(w); T = t[w ? y : x]; start(w ? 1 : 5); ctr = 50 * w; do_set(0, 1); }
    for (int d = 0; d < D; d++) { c = mc_choose(10); int w = c & 1; sw_to(w); c >>= 1; if (c < 4) do_set(I[c], d & 1); else { mc_op("resize"); MC_CHECK(u_array_resize(a, 300) == 0, "resize", "resize failed"); if (certain < 301) certain = 301; } for (int i = 0; i < 4; i++) check_at(I[i], "step"); sw_to(!w); for (int i = 0; i < 4; i++) check_at(I[i], "meanwhile"); }
    sw_to(0); finish(506); sw_to(1); check_at(0, "the other one freed"); finish(506);
}
const struct mc_scn mc_scns[] = {
    { "seqs", seqs, MC_QT, 3, 0, 0, 0, "20 element types, 4 initial sizes, stores (with and without previous value) at 8 indices around the initial size and growth step and 2 explicit resizes, all sequences to depth 3 (4), every index read back" },
    { "two arrays", two, MC_QT, 4, 0, 0, 0, "every history of 3 (4) stores and growths in two arrays of every pair of 7 types" },
    { "fill", fill, MC_QT, 2, 0, 0, 0, "all types, 1300 indices in 4 orders from 3 initial sizes" },
    { "refused", refused, MC_QT, 2, 0, 0, 0, "out-of-range indices, wrong types, NULL arguments" },
    { 0 }
};
