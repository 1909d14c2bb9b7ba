// Reference JSON reader (RFC 4627 with the documented leniencies) for P11..P14.
#include "mc.h"
#include <u/libu.h>

enum { JS = 1, JN, JO, JA, JT, JF, JZ };
struct jn { int type; const char *key; int keyl; const char *val; int vall; int first, last, next, prev, parent, n, depth; };
static struct jn J[4096]; static int jcount;
static const char *jp; static int jdepthlim, jtoklim; static int jstrictblank;   /* set when VT or FF was used as a blank */
static int jvtff;

static int jblank(char c) { if (c == '\v' || c == '\f') { jvtff = 1; return 1; } return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static void jws(void) { while (jblank(*jp)) jp++; }
static int jstring(const char **s, int *l)
{
    if (*jp != '"') return 0;
    *s = ++jp;
    while (*jp != '"') {
        unsigned char c = (unsigned char)*jp;
        if (c < 0x20) return 0;
        if (c == '\\') {
            c = (unsigned char)*++jp;
            if (c == 'u') { for (int i = 0; i < 4; i++) { c = (unsigned char)*++jp; if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return 0; } jp++; }
            else if (c && strchr("\"\\/bfnrt", c)) jp++;
            else return 0;
        } else jp++;
    }
    *l = (int)(jp++ - *s);
    return *l <= jtoklim;
}
static int jdig(void) { return *jp >= '0' && *jp <= '9'; }
static int jnumber(const char **s, int *l)
{
    *s = jp;
    if (*jp == '-') jp++;
    if (*jp == '0') jp++; else if (jdig()) while (jdig()) jp++; else return 0;
    if (*jp == '.') { jp++; if (!jdig()) return 0; while (jdig()) jp++; }
    if (*jp == 'e' || *jp == 'E') { jp++; if (*jp == '+' || *jp == '-') jp++; if (!jdig()) return 0; while (jdig()) jp++; }
    *l = (int)(jp - *s);
    return *l <= jtoklim;
}
static int jnew(int parent, int type)
{
    int i = jcount++; struct jn *x = &J[i];
    memset(x, 0, sizeof *x); x->type = type; x->parent = parent; x->first = x->last = x->next = x->prev = -1; x->key = x->val = "";
    x->depth = parent < 0 ? 0 : J[parent].depth + 1;
    if (parent >= 0) { x->prev = J[parent].last; if (x->prev >= 0) J[x->prev].next = i; else J[parent].first = i; J[parent].last = i; J[parent].n++; }
    return i;
}
static int jvalue(int self)
{
    struct jn *x = &J[self];
    if (x->depth >= jdepthlim) return 0;
    if (*jp == '"') { x->type = JS; return jstring(&x->val, &x->vall); }
    if (*jp == '-' || jdig()) { x->type = JN; return jnumber(&x->val, &x->vall); }
    if (!strncmp(jp, "true", 4)) { x->type = JT; jp += 4; return 1; }
    if (!strncmp(jp, "false", 5)) { x->type = JF; jp += 5; return 1; }
    if (!strncmp(jp, "null", 4)) { x->type = JZ; jp += 4; return 1; }
    char close = *jp == '[' ? ']' : *jp == '{' ? '}' : 0; int first = 1;
    if (!close) return 0;
    x->type = close == ']' ? JA : JO; jp++;
    for (;;) {
        jws();
        if (*jp == close) { jp++; return 1; }      /* empty, or (tolerated) a trailing comma */
        (void) first; first = 0;
        int c = jnew(self, 0);
        if (close == '}') {
            if (!jstring(&J[c].key, &J[c].keyl)) return 0;
            jws(); if (*jp++ != ':') return 0; jws();
        }
        if (!jvalue(c)) return 0;
        jws();
        if (*jp == ',') { jp++; continue; }
        if (*jp == close) { jp++; return 1; }
        return 0;
    }
}
/* 1 if the text starts with a well-formed object or array within the limits */
static int jparse(const char *t, int depthlim)
{
    jp = t; jcount = 0; jdepthlim = depthlim; jtoklim = U_TOKEN_SZ - 2; jvtff = 0;
    jws();
    if (*jp != '{' && *jp != '[') return 0;
    return jvalue(jnew(-1, 0));
}
/* the library's tree must equal J[i] (values, shape; keys and types are checked through the encoding) */
static void jcmp(u_json_t *o, int i, const char *what)
{
    const struct jn *x = &J[i]; const char *v = u_json_get_val(o);
    if (x->type == JA || x->type == JO) {
        MC_CHECK(v == NULL, "tree-type", "%s: a container has a value", what);
        if (x->type == JA) MC_CHECK((int)u_json_array_count(o) == x->n, "tree-count", "%s: array of %d counts %u", what, x->n, u_json_array_count(o));
        u_json_it_t it; u_json_it(u_json_child_first(o), &it); u_json_t *c; int k = x->first, n = 0;
        while ((c = u_json_it_next(&it))) { MC_CHECK(k >= 0, "tree-children", "%s: too many children", what); if (x->type == JA) MC_CHECK(u_json_array_get_nth(o, (unsigned)n) == c, "tree-nth", "%s: element %d is not where iteration finds it", what, n); jcmp(c, k, what); k = J[k].next; n++; }
        MC_CHECK(k < 0, "tree-children", "%s: %d children instead of %d", what, n, x->n);
        if (x->type == JA) MC_CHECK(u_json_array_get_nth(o, (unsigned)x->n) == NULL, "tree-nth", "%s: an element past the end exists", what);
        u_json_it(u_json_child_last(o), &it); k = x->last;
        while ((c = u_json_it_prev(&it))) { MC_CHECK(k >= 0, "tree-children", "%s: backward iteration visits too many", what); k = J[k].prev; }
        MC_CHECK(k < 0, "tree-children", "%s: backward iteration stops early", what);
        return;
    }
    char b; long l;
    MC_CHECK(v != NULL, "tree-value", "%s: a leaf has no value", what);
    switch (x->type) {
    case JS: case JN: MC_CHECK((int)strlen(v) == x->vall && !memcmp(v, x->val, x->vall), "tree-value", "%s: value \"%s\" instead of \"%.*s\"", what, mc_escs(v), x->vall, x->val); break;
    case JT: MC_CHECK(u_json_get_bool(o, &b) == 0 && b == 1, "tree-value", "%s: true is not true", what); break;
    case JF: MC_CHECK(u_json_get_bool(o, &b) == 0 && b == 0, "tree-value", "%s: false is not false", what); break;
    case JZ: MC_CHECK(!strcmp(v, "null"), "tree-value", "%s: null is %s", what, v); break;
    }
    if (x->type != JT && x->type != JF) MC_CHECK(u_json_get_bool(o, &b) != 0, "tree-type", "%s: a non-boolean reads as a boolean", what);
    if (x->type != JN) MC_CHECK(u_json_get_int(o, &l) != 0, "tree-type", "%s: a non-number reads as a number", what);
}
static uint64_t jhash(int i)
{
    uint64_t h = (uint64_t)J[i].type; h = mc_hash(h, J[i].key, J[i].keyl); h = mc_hash(h, J[i].val, J[i].vall);
    for (int k = J[i].first; k >= 0; k = J[k].next) h = mc_h64(h, jhash(k));
    return h;
}
static int jequal(const struct jn *A, int a, const struct jn *B, int b)
{
    if (A[a].type != B[b].type || A[a].keyl != B[b].keyl || memcmp(A[a].key, B[b].key, A[a].keyl) || A[a].vall != B[b].vall || memcmp(A[a].val, B[b].val, A[a].vall) || A[a].n != B[b].n) return 0;
    int x = A[a].first, y = B[b].first;
    while (x >= 0 && y >= 0) { if (!jequal(A, x, B, y)) return 0; x = A[x].next; y = B[y].next; }
    return x < 0 && y < 0;
}
