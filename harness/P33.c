// Every allocation of every operation may fail: the failure is reported, nothing is corrupted, leaked or half done.
#include "mc.h"
#include <u/libu.h>
const char *mc_property = "P33", *mc_level = "fault_enumeration";
static int hit;
/* run one call with failing allocations */
#define TRY(rc, e) do { int h_ = mc_oom_hits; mc_oom = 1; rc = (e); mc_oom = 0; hit = mc_oom_hits - h_; } while (0)
#define VERDICT(ok, what) MC_CHECK((ok) || hit, "result", "%s fails though no allocation failed", what)
static void finish(size_t l) { MC_CHECK(mc_live() == l, "leak", "%zd blocks left", (ssize_t)mc_live() - (ssize_t)l); mc_outcome(mc_oom_hits > 0); }
void mc_cleanup(void) { mc_oom = 0; }
static int deep(int q, int t) { return mc_tier ? t : q; }
/* --- strings and buffers --- */
static void s_string(void)
{
    u_string_t *s = NULL, *o = NULL; char m[1200] = "", big[400], om[8] = "src"; int rc; memset(big, 'b', 399); big[399] = 0;
    TRY(rc, u_string_create("0123456789", 10, &s)); VERDICT(rc == 0, "create"); if (rc) { MC_CHECK(s == NULL, "handle", "a failed create returns an object"); finish(0); return; } strcpy(m, "0123456789"); if (u_string_create(om, 3, &o)) abort();
    for (int d = 0, D = deep(4, 5); d < D; d++) {
        char n[1200]; strcpy(n, m); const char *w; switch (mc_choose(9)) {
        case 0: w = "append"; strcat(n, "xy"); TRY(rc, u_string_append(s, "xy", 2)); break; case 1: w = "append much"; if (strlen(m) > 700) mc_discard(); strcat(n, big); TRY(rc, u_string_append(s, big, 399)); break;
        case 2: w = "set"; strcpy(n, big); TRY(rc, u_string_set(s, big, 399)); break; case 3: w = "aprintf"; if (strlen(m) > 700) mc_discard(); strcat(n, "7"); strcat(n, big); TRY(rc, u_string_aprintf(s, "%d%s", 7, big)); break; case 4: w = "sprintf"; sprintf(n, "%060d", 8); TRY(rc, u_string_sprintf(s, "%060d", 8)); break;
        case 5: w = "copy"; strcpy(n, om); TRY(rc, u_string_copy(s, o)); break; case 6: w = "reserve"; TRY(rc, u_string_reserve(s, 200 * (d + 1))); break; case 7: w = "clear"; n[0] = 0; TRY(rc, u_string_clear(s)); break; default: w = "trim"; TRY(rc, u_string_trim(s)); break; }
        mc_op("%s: %d", w, rc); VERDICT(rc == 0, w); if (rc == 0) strcpy(m, n); MC_CHECK(u_string_len(s) == strlen(m) && !strcmp(u_string_c(s), m), "contents", "after a %s %s the string is %s, expected %s", rc ? "failed" : "successful", w, mc_escs(u_string_c(s)), mc_escs(m));
    }
    if (mc_choose(2)) { char *k = NULL; TRY(rc, (k = u_string_detach_cstr(s)) == NULL); VERDICT(rc == 0, "detach"); if (k) { MC_CHECK(!strcmp(k, m), "contents", "detached text differs"); u_free(k); s = NULL; } else MC_CHECK(!mc_is_live(s) || !strcmp(u_string_c(s), m), "contents", "a failed detach changes the string"); } if (s && mc_is_live(s)) u_string_free(s); u_string_free(o); finish(0);
}
static void s_buf(void)
{
    u_buf_t *b = NULL; char m[1500]; size_t n = 0; int rc; char big[300]; memset(big, 'B', 300); TRY(rc, u_buf_create(&b)); VERDICT(rc == 0, "create"); if (rc) { MC_CHECK(b == NULL, "handle", "a failed create returns an object"); finish(0); return; }
    for (int d = 0, D = deep(4, 6); d < D; d++) {
        const char *w; switch (mc_choose(6)) {
        case 0: w = "append"; TRY(rc, u_buf_append(b, "xyz", 3)); if (!rc) { memcpy(m + n, "xyz", 3); n += 3; } break; case 1: w = "append much"; if (n > 900) mc_discard(); TRY(rc, u_buf_append(b, big, 300)); if (!rc) { memcpy(m + n, big, 300); n += 300; } break; case 2: w = "set"; TRY(rc, u_buf_set(b, big, 50)); if (!rc) { memcpy(m, big, 50); n = 50; } break;
        case 3: w = "printf"; if (n > 900) mc_discard(); TRY(rc, u_buf_printf(b, "%0200d", 5)); if (!rc) n += sprintf(m + n, "%0200d", 5); break; case 4: w = "reserve"; TRY(rc, u_buf_reserve(b, 100 * (d + 1))); break; default: w = "clear"; TRY(rc, u_buf_clear(b)); if (!rc) n = 0; }
        mc_op("%s: %d", w, rc); VERDICT(rc == 0, w); MC_CHECK((size_t)u_buf_len(b) == n && (!n || !memcmp(u_buf_ptr(b), m, n)), "contents", "after a %s %s the buffer holds %zd bytes, expected %zu, or others", rc ? "failed" : "successful", w, u_buf_len(b), n);
    }
    u_buf_free(b); finish(0);
}
/* --- sequences --- */
static void s_list(void)
{
    u_list_t *l = NULL; static int x[16]; int *m[16], n = 0, rc; TRY(rc, u_list_create(&l)); VERDICT(rc == 0, "create"); if (rc) { finish(0); return; }
    for (int d = 0, D = deep(5, 7); d < D; d++) { int o = mc_choose(3); if (o == 0) { TRY(rc, u_list_add(l, &x[d])); if (!rc) m[n++] = &x[d]; } else if (o == 1) { int at = mc_choose(n + 1); TRY(rc, u_list_insert(l, &x[d], at)); if (!rc) { memmove(m + at + 1, m + at, (n - at) * sizeof *m); m[at] = &x[d]; n++; } } else { if (!n) mc_discard(); TRY(rc, u_list_del(l, m[0])); if (!rc) memmove(m, m + 1, --n * sizeof *m); }
        mc_op("%d: %d", o, rc); VERDICT(rc == 0, "operation"); MC_CHECK(u_list_count(l) == (size_t)n, "contents", "%zu elements, expected %d", u_list_count(l), n); for (int i = 0; i < n; i++) MC_CHECK(u_list_get_n(l, i) == m[i], "contents", "element %d differs", i); }
    u_list_free(l); finish(0);
}
static void s_array(void)
{
    u_array_t *a = NULL; int m[400], rc; memset(m, 0, sizeof m); size_t hi = 0; TRY(rc, u_array_create(U_ARRAY_TYPE_INT, 2, &a)); VERDICT(rc == 0, "create"); if (rc) { MC_CHECK(!a, "handle", "a failed create returns an object"); finish(0); return; } char set[400] = { 0 };
    static const int I[] = { 0, 1, 2, 5, 40, 300 }; for (int d = 0, D = deep(4, 6); d < D; d++) { int i = I[mc_choose(6)], old = -1; TRY(rc, u_array_set_int(a, i, d + 1, mc_choose(2) ? &old : NULL)); mc_op("set %d: %d", i, rc); VERDICT(rc == 0, "set"); if (!rc) { m[i] = d + 1; set[i] = 1; if ((size_t)i > hi) hi = i; } for (int k = 0; k < 6; k++) { int v = -7; if (!set[I[k]]) continue; MC_CHECK(u_array_get_int(a, I[k], &v) == 0 && v == m[I[k]], "contents", "element %d is %d, expected %d", I[k], v, m[I[k]]); } }
    u_array_free(a); finish(0);
}
static void s_small(void)
{
    int rc, k = mc_choose(9); void *p = NULL; mc_op("%d", k);
    if (k == 0) { u_pq_t *q = NULL; TRY(rc, u_pq_create(5, &q)); VERDICT(rc == 0, "queue"); MC_CHECK(!rc == !!q, "handle", "queue"); if (q) { double d; u_pq_push(q, 1, &rc); MC_CHECK(u_pq_delmax(q, &d) == &rc, "contents", "queue"); u_pq_free(q); } }
    if (k == 1) { u_lexer_t *l = NULL; TRY(rc, u_lexer_new("abc", &l)); VERDICT(rc == 0, "lexer"); MC_CHECK(!rc == !!l, "handle", "lexer"); if (l) { char c; MC_CHECK((c = u_lexer_peek(l)) == 'a', "contents", "lexer"); u_lexer_free(l); } }
    if (k == 2) { char **tv = (void *)1; size_t n = 9; static const char *T[] = { "", "a", "a b", "aa,b,,c dd", "1 2 3 4 5 6 7 8 9 10 11 12" }; const char *t = T[mc_choose(5)]; TRY(rc, u_strtok(t, " ,", &tv, &n)); VERDICT(rc == 0, "strtok"); if (rc == 0) u_strtok_cleanup(tv, n); }
    if (k == 3) { TRY(rc, (p = u_strdup("abc")) == NULL); VERDICT(rc == 0, "strdup"); if (p) MC_CHECK(!strcmp(p, "abc"), "contents", "strdup"); u_free(p); } if (k == 4) { TRY(rc, (p = u_strndup("abcdef", 3)) == NULL); VERDICT(rc == 0, "strndup"); if (p) MC_CHECK(!strcmp(p, "abc"), "contents", "strndup"); u_free(p); } if (k == 5) { TRY(rc, (p = u_memdup("abc", 3)) == NULL); VERDICT(rc == 0, "memdup"); if (p) MC_CHECK(!memcmp(p, "abc", 3), "contents", "memdup"); u_free(p); }
    if (k == 6) { p = u_malloc(10); memcpy(p, "0123456789", 10); void *q; TRY(rc, (q = u_realloc(p, 100)) == NULL); VERDICT(rc == 0, "realloc"); MC_CHECK(!memcmp(q ? q : p, "0123456789", 10), "contents", "realloc"); u_free(q ? q : p); }
    if (k == 7) { TRY(rc, (p = u_zalloc(40)) == NULL); VERDICT(rc == 0, "zalloc"); for (int i = 0; p && i < 40; i++) MC_CHECK(!((char *)p)[i], "contents", "zalloc"); u_free(p); }
    if (k == 8) { u_test_t *t = NULL; u_test_suite_t *s = NULL; u_test_case_t *c = NULL; TRY(rc, u_test_new("t", &t)); VERDICT(rc == 0, "test"); if (!rc) { TRY(rc, u_test_suite_new("s", &s)); VERDICT(rc == 0, "suite"); if (!rc) { u_test_suite_add(s, t); TRY(rc, u_test_case_new("c", NULL, &c)); VERDICT(rc == 0, "case"); if (!rc) { u_test_case_add(c, s); TRY(rc, u_test_case_dep_register("d", c)); VERDICT(rc == 0, "dependency"); } TRY(rc, u_test_case_register("d", NULL, s)); VERDICT(rc == 0, "register"); if (!rc) { TRY(rc, u_test_case_depends_on("d", "c", s)); VERDICT(rc == 0, "depends"); } TRY(rc, u_test_suite_dep_register("x", s)); VERDICT(rc == 0, "dependency"); } } u_test_free(t); }
    finish(0);
}
/* --- search trees --- */
static int walk_n, walk_k[64], walk_v[64]; static void visit(u_bst_node_t *n, void *a) { if (walk_n == 64) mc_fail("contents", "the walk does not end"); walk_k[walk_n] = atoi(u_bst_node_key(n)); walk_v[walk_n++] = atoi(u_bst_node_val(n)); }
static void s_bst(void)
{
    u_bst_t *b = NULL; int cnt[5] = { 0 }, tot = 0, rc; static const int O[] = { U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED }; int mode = mc_choose(3); TRY(rc, u_bst_new(O[mode], &b)); VERDICT(rc == 0, "new"); if (rc) { finish(0); return; } u_bst_set_valattr(b, U_BST_TYPE_STRING, 0);
    for (int d = 0, D = deep(5, 6); d < D; d++) {
        int o = mc_choose(6), k = o < 4 ? o : 0; char kb[4]; snprintf(kb, 4, "%d", k); if (o < 4) { TRY(rc, u_bst_push(b, kb, "5")); mc_op("push %d: %d", k, rc); VERDICT(rc == 0, "push"); if (!rc) cnt[k]++, tot++; } else if (o == 4) { if (!cnt[0]) mc_discard(); TRY(rc, u_bst_delete(b, kb)); mc_op("delete: %d", rc); VERDICT(rc == 0, "delete"); if (!rc) cnt[0]--, tot--; } else { mc_op("balance"); TRY(rc, u_bst_balance(b)); }
        walk_n = 0; u_bst_foreach(b, visit, NULL); MC_CHECK(walk_n == tot && u_bst_count(b) == tot, "contents", "%d nodes reachable, %zd counted, expected %d", walk_n, u_bst_count(b), tot); int i = 0; for (int q = 0; q < 4; q++) for (int c = 0; c < cnt[q]; c++, i++) { MC_CHECK(walk_k[i] == q && walk_v[i] == 5, "contents", "node %d is %d, expected %d", i, walk_k[i], q); u_bst_node_t *n = u_bst_find_nth(b, i); MC_CHECK(n && atoi(u_bst_node_key(n)) == q, "contents", "the %d-th node is not %d", i, q); }
        for (int q = 0; q < 4; q++) { char t[4]; snprintf(t, 4, "%d", q); MC_CHECK(!!u_bst_search(b, t) == !!cnt[q], "contents", "search of %d", q); }
    }
    u_bst_free(b); finish(0);
}
/* --- maps --- */
static int hk[64], hv[64], hn; static int hvisit(const void *k, const void *v) { if (hn == 64) mc_fail("contents", "the iteration does not end"); hk[hn] = atoi(k); hv[hn++] = atoi(v); return 0; }
static void hcheck(u_hmap_t *h, int *m, int n, const char *what) { hn = 0; u_hmap_foreach_keyval(h, hvisit); int c = 0; for (int k = 0; k < n; k++) c += m[k] >= 0; MC_CHECK(hn == c && u_hmap_count(h) == c, "contents", "%s: %d entries visited, %zd counted, expected %d", what, hn, u_hmap_count(h), c); for (int k = 0; k < n; k++) { char t[8]; snprintf(t, 8, "%d", k); u_hmap_o_t *o = NULL; int rc = u_hmap_get(h, t, &o); MC_CHECK((rc == 0) == (m[k] >= 0), "contents", "%s: key %d is %s", what, k, rc ? "lost" : "there"); if (!rc) MC_CHECK(atoi(u_hmap_o_get_val(o)) == m[k], "contents", "%s: key %d holds %s", what, k, (char *)u_hmap_o_get_val(o)); } }
static u_hmap_t *hnew(int type, int ow, int pcy, int max, int *prc)
{
    u_hmap_opts_t *o = NULL; u_hmap_t *h = NULL; int rc; TRY(rc, u_hmap_opts_new(&o)); VERDICT(rc == 0, "options"); *prc = rc; if (rc) { MC_CHECK(!o, "handle", "failed options are returned"); return NULL; } u_hmap_opts_set_size(o, 1); u_hmap_opts_set_type(o, type ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN); u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_STRING); if (ow) u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE); if (pcy) { u_hmap_opts_set_policy(o, pcy); u_hmap_opts_set_max(o, max); }
    TRY(rc, u_hmap_new(o, &h)); VERDICT(rc == 0, "new"); *prc = rc; if (rc) MC_CHECK(!h, "handle", "a failed map is returned"); u_hmap_opts_free(o); return h;
}
static void s_hmap(void)
{
    int type = mc_choose(2), ow = mc_choose(2), rc, m[16], easy = mc_choose(2); int fill = mc_choose(2) ? 9 : 0; u_hmap_t *h; if (easy) { u_hmap_opts_t *o; if (u_hmap_opts_new(&o)) abort(); u_hmap_opts_set_size(o, 1); u_hmap_opts_set_type(o, type ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN); u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_STRING); if (ow) u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE); h = NULL; TRY(rc, u_hmap_easy_new(o, &h)); VERDICT(rc == 0, "easy map"); u_hmap_opts_free(o); } else h = hnew(type, ow, 0, 0, &rc); if (rc) { finish(0); return; } memset(m, -1, sizeof m);
    for (int i = 0; i < fill; i++) { char k[8], v[8]; snprintf(k, 8, "%d", i); snprintf(v, 8, "%d", i); if (easy ? u_hmap_easy_put(h, k, v) : u_hmap_put(h, u_hmap_o_new(h, k, v), NULL)) abort(); m[i] = i; }
    for (int d = 0, D = deep(4, 5); d < D; d++) {
        int o = mc_choose(5); char k[8], v[8]; int key = o < 3 ? fill + o - 1 : o - 3; if (key < 0) key = 0; snprintf(k, 8, "%d", key); snprintf(v, 8, "%d", 20 + d);
        if (o < 3) { int was = m[key] >= 0; if (easy) { TRY(rc, u_hmap_easy_put(h, k, v)); } else { u_hmap_o_t *ob, *old = NULL; TRY(rc, (ob = u_hmap_o_new(h, k, v)) == NULL); VERDICT(rc == 0, "object"); if (ob) { TRY(rc, u_hmap_put(h, ob, &old)); if (rc && mc_is_live(ob)) u_hmap_o_free(ob); } } mc_op("put %d: %d", key, rc); if (was && !ow) MC_CHECK(rc != 0, "result", "an existing key is stored again"); else VERDICT(rc == 0, "put"); if (!rc) m[key] = 20 + d; }
        else if (o == 3) { TRY(rc, easy ? u_hmap_easy_del(h, k) : u_hmap_del(h, k, NULL)); mc_op("delete %d: %d", key, rc); if (m[key] >= 0) VERDICT(rc == 0, "delete"); else MC_CHECK(rc, "result", "a missing key is deleted"); if (!rc) m[key] = -1; }
        else { if (easy) mc_discard(); u_hmap_t *c = hnew(type, ow, 0, 0, &rc); if (rc) continue; TRY(rc, u_hmap_copy(c, h)); mc_op("copy: %d", rc); VERDICT(rc == 0, "copy"); if (rc) { hn = 0; u_hmap_foreach_keyval(h, hvisit); int a = hn; MC_CHECK(u_hmap_count(h) == a, "contents", "source of a failed copy: %d entries, %zd counted", a, u_hmap_count(h)); hn = 0; u_hmap_foreach_keyval(c, hvisit); MC_CHECK(u_hmap_count(c) == hn, "contents", "target of a failed copy: %d entries, %zd counted", hn, u_hmap_count(c)); rc = u_hmap_copy(c, h); MC_CHECK(rc == 0, "result", "the copy cannot be completed after a failure"); } /* objects move */ u_hmap_free(h); h = c; }
        hcheck(h, m, fill + 3, rc ? "after a failure" : "after a success");
    }
    if (easy) u_hmap_easy_free(h); else u_hmap_free(h); finish(0);
}
static void s_cache(void)
{
    int rc, m[8], pcy = U_HMAP_PCY_FIFO + mc_choose(3), type = mc_choose(2); u_hmap_t *h = hnew(type, 1, pcy, 2, &rc); if (rc) { finish(0); return; } memset(m, -1, sizeof m); int age[8] = { 0 }, t = 0, freq[8] = { 0 };
    for (int d = 0, D = deep(4, 5); d < D; d++) { int key = mc_choose(3); char k[8], v[8]; snprintf(k, 8, "%d", key); snprintf(v, 8, "%d", 20 + d); u_hmap_o_t *ob; TRY(rc, (ob = u_hmap_o_new(h, k, v)) == NULL); VERDICT(rc == 0, "object"); if (ob) { TRY(rc, u_hmap_put(h, ob, NULL)); if (rc && mc_is_live(ob)) u_hmap_o_free(ob); } mc_op("put %d: %d", key, rc); VERDICT(rc == 0, "put");
        hn = 0; u_hmap_foreach_keyval(h, hvisit); MC_CHECK(hn == u_hmap_count(h) && hn <= 2, "contents", "%d entries visited, %zd counted", hn, u_hmap_count(h)); int lost = 0, seen = 0; for (int q = 0; q < 3; q++) { int in = 0; for (int i = 0; i < hn; i++) if (hk[i] == q) { in = 1; seen++; MC_CHECK(hv[i] == (q == key && !rc ? 20 + d : m[q]), "contents", "key %d holds %d", q, hv[i]); } if (m[q] >= 0 && !in && q != key) lost++, m[q] = -1; if (q == key) { if (!rc) { MC_CHECK(in, "contents", "the stored key is missing"); m[q] = 20 + d; } else if (!in && m[q] >= 0) { lost++; m[q] = -1; } } } MC_CHECK(seen == hn, "contents", "odd keys"); MC_CHECK(lost <= (rc == 0), "contents", "%d entries lost by a %s put", lost, rc ? "failed" : "successful"); (void)age; (void)t; (void)freq; }
    u_hmap_free(h); finish(0);
}
/* --- documents --- */
static void s_jdecode(void)
{
    static const char *J[] = { "{}", "[1,\"a\",null,{\"k\":[true]}]", "{\"a\":{\"b\":\"c\\n\"},\"d\":-1.5}", "[1,", "{\"a\":tru}", "\"x\"" }; int w = mc_choose(6), rc; mc_op("decode %s", J[w]); u_json_t *j = NULL; TRY(rc, u_json_decode(J[w], &j)); if (w < 3) VERDICT(rc == 0, "decode"); else MC_CHECK(rc, "result", "accepted"); MC_CHECK(!rc == !!j, "handle", "result %d, object %s", rc, j ? "returned" : "missing"); int first = hit;
    if (rc == 0) {
        char *e = NULL; TRY(rc, u_json_encode(j, &e)); VERDICT(rc == 0, "encode"); MC_CHECK(!rc == !!e, "handle", "encode: result %d, text %s", rc, e ? "returned" : "missing"); if (!rc) { static const char *W[] = { "{}", "[1,\"a\",null,{\"k\":[true]}]", "{\"a\":{\"b\":\"c\\n\"},\"d\":-1.5}" }; char sq[200]; int n = 0; for (char *p = e; *p; p++) if (*p != ' ' && *p != '\n') sq[n++] = *p; sq[n] = 0; MC_CHECK(!strcmp(sq, W[w]), "contents", "encoded as %s", mc_escs(e)); u_free(e); }
        TRY(rc, u_json_index(j)); VERDICT(rc == 0, "index");
        u_json_free(j);
    }
    TRY(rc, u_json_validate(J[w], NULL)); if (w < 3) VERDICT(rc == 0, "validate"); else MC_CHECK(rc, "result", "accepted"); (void)first; finish(0);
}
static char jt[4096]; static void jdump(u_json_t *o, size_t l, void *a) { u_json_it_t it; (void)l; (void)a; char **p = a; *p += sprintf(*p, "[%zu %p %s]", l, (void *)o, u_json_get_val(o) ? u_json_get_val(o) : ""); (void)it; }
static const char *jimg(u_json_t *j) { char *p = jt; *p = 0; u_json_walk(j, U_JSON_WALK_PREORDER, 0, jdump, &p); return jt; }
static void s_jtree(void)
{
    u_json_t *r = NULL, *x; int rc, n = 0, idx = 0; TRY(rc, u_json_new_object(NULL, &r)); VERDICT(rc == 0, "new"); if (rc) { MC_CHECK(!r, "handle", "new"); finish(0); return; } u_json_t *kid[8];
    for (int d = 0, D = deep(4, 5); d < D; d++) { int o = mc_choose(6); char old[4096]; strcpy(old, jimg(r)); x = NULL; rc = 0;
        if (o < 3) { TRY(rc, o == 0 ? u_json_new_string("k", "text", &x) : o == 1 ? u_json_new_int("n", 42, &x) : u_json_new_array("arr", &x)); VERDICT(rc == 0, "new"); MC_CHECK(!rc == !!x, "handle", "new"); if (!rc) { TRY(rc, u_json_add(r, x)); if (idx) MC_CHECK(rc, "result", "an indexed object grows"); else VERDICT(rc == 0, "add"); if (rc) u_json_free(x); else kid[n++] = x; } }
        else if (o == 3) { if (!n || !u_json_get_val(kid[n - 1])) mc_discard(); char v[40]; const char *c = u_json_get_val(kid[n - 1]); snprintf(v, 40, "%s", c ? c : ""); TRY(rc, u_json_set_val(kid[n - 1], "777")); VERDICT(rc == 0, "set_val"); c = u_json_get_val(kid[n - 1]); MC_CHECK(c && !strcmp(c, rc ? v : "777"), "contents", "after a %s change the value is %s", rc ? "failed" : "successful", c ? c : "(none)"); }
        else if (o == 4) { if (!n) mc_discard(); TRY(rc, u_json_set_key(kid[n - 1], "another")); if (idx) MC_CHECK(rc, "result", "a key of an indexed object changes"); else VERDICT(rc == 0, "set_key"); }
        else { TRY(rc, u_json_index(r)); VERDICT(rc == 0, "index"); idx |= !rc; }
        mc_op("%d: %d", o, rc); if (rc) MC_CHECK(!strcmp(old, jimg(r)), "contents", "a failed operation changes the tree"); char *e = NULL; MC_CHECK(u_json_encode(r, &e) == 0, "contents", "the tree cannot be encoded"); u_free(e); }
    u_json_free(r); finish(0);
}
/* --- configurations --- */
static void cdump(u_config_t *c, char **p, int l) { *p += sprintf(*p, "%d:%s=%s;", l, u_config_get_key(c) ? u_config_get_key(c) : "", u_config_get_value(c) ? u_config_get_value(c) : "(none)"); u_config_t *x; for (int i = 0; (x = u_config_get_child_n(c, NULL, i)) != NULL; i++) cdump(x, p, l + 1); }
static char ct[2][8192]; static const char *cimg(u_config_t *c, int w) { char *p = ct[w]; *p = 0; cdump(c, &p, 0); return ct[w]; }
static void s_cload(void)
{
    static const char *T[] = { "a 1\n", "a 1\nb\n{\n c ${a}\n d \"x\"\n}\n", "a\n{\n b\n {\n  c 1\n }\n}\n", "a ${b\n", "a\n{\n b 1\n", "}\n" }; int w = mc_choose(6), rc; char b[80], want[8192]; strcpy(b, T[w]); u_config_t *c = NULL; if (w < 3) { if (u_config_load_from_buf(b, strlen(b), &c)) abort(); strcpy(want, cimg(c, 0)); u_config_free(c); } strcpy(b, T[w]); c = NULL; mc_op("load %s", mc_escs(b)); TRY(rc, u_config_load_from_buf(b, strlen(b), &c)); if (w < 3) VERDICT(rc == 0, "load"); else MC_CHECK(rc, "result", "accepted"); MC_CHECK(!rc == !!c, "handle", "result %d, object %s", rc, c ? "returned" : "missing"); if (c) { MC_CHECK(!strcmp(cimg(c, 0), want), "contents", "loaded %s, expected %s", ct[0], want); u_config_free(c); } finish(0);
}
static int ccmp(u_config_t **a, u_config_t **b) { return strcmp(u_config_get_key(*b), u_config_get_key(*a)); }
static void s_cedit(void)
{
    u_config_t *c = NULL, *x; int rc; TRY(rc, u_config_create(&c)); VERDICT(rc == 0, "create"); if (rc) { MC_CHECK(!c, "handle", "create"); finish(0); return; } static const char *P[] = { "a", "b.c", "a.d.e" }, *V[] = { "1", "x${a}y", NULL };
    for (int d = 0, D = deep(3, 4); d < D; d++) { int o = mc_choose(6); const char *p = P[mc_choose(3)]; cimg(c, 0); switch (o) { case 0: TRY(rc, u_config_add_key(c, p, V[mc_choose(3)])); break; case 1: TRY(rc, u_config_set_key(c, p, V[mc_choose(3)])); break; case 2: if (u_config_get_subkey(c, p, &x)) mc_discard(); TRY(rc, u_config_set_value(x, V[mc_choose(3)])); break; case 3: { if (p != P[0]) mc_discard(); u_config_t *k = NULL; TRY(rc, u_config_add_child(c, "kid", &k)); if (rc) MC_CHECK(!k, "handle", "add_child"); } break; case 4: { if (p != P[0]) mc_discard(); char sb[600]; TRY(rc, u_config_save_to_buf(c, sb, sizeof sb)); } break; default: if (p != P[0]) mc_discard(); TRY(rc, u_config_sort_children(c, ccmp)); }
        mc_op("%d %s: %d", o, p, rc); VERDICT(rc == 0, "edit"); if (rc) MC_CHECK(!strcmp(ct[0], cimg(c, 1)), "contents", "a failed edit leaves %s, before %s", ct[1], ct[0]); else if (hit && o < 2) { x = NULL; MC_CHECK(u_config_get_subkey(c, p, &x) == 0, "contents", "an edit that reports success did nothing"); } }
    u_config_free(c); finish(0);
}
/* --- URIs --- */
static const char *uimg(u_uri_t *u, int w) { static char b[2][600]; snprintf(b[w], 600, "%s|%s|%s|%s|%s|%s|%s|%s", u_uri_get_scheme(u), u_uri_get_userinfo(u), u_uri_get_user(u), u_uri_get_host(u), u_uri_get_port(u), u_uri_get_path(u), u_uri_get_query(u), u_uri_get_fragment(u)); return b[w]; }
static void s_uri(void)
{
    static const char *U[] = { "http://u:p@h.x:80/p/q?a=b#f", "mailto:a@b", "tcp4://[::1]:99", "http://h:x/", "a" }; int w = mc_choose(5), rc, good; u_uri_t *u = NULL; char want[600]; good = u_uri_crumble(U[w], 0, &u) == 0; if (good) { strcpy(want, uimg(u, 0)); u_uri_free(u); } u = NULL; mc_op("%s", U[w]); TRY(rc, u_uri_crumble(U[w], 0, &u)); if (good) VERDICT(rc == 0, "crumble"); else MC_CHECK(rc, "result", "accepted"); if (rc) { MC_CHECK(!u, "handle", "a failed parse returns an object"); finish(0); return; } MC_CHECK(!strcmp(uimg(u, 0), want), "contents", "parsed as %s, expected %s", uimg(u, 0), want);
    for (int d = 0; d < deep(2, 3); d++) { char old[600]; strcpy(old, uimg(u, 0)); int o = mc_choose(10); static const char *nm[] = { "scheme", "userinfo", "user", "pwd", "host", "port", "path", "query", "fragment", "authority" }; const char *v = o == 5 ? "8080" : o == 6 ? "/longer/path/here" : o == 9 ? "me@host.org:5" : "somethingelse"; const char *g = NULL; switch (o) { case 0: TRY(rc, u_uri_set_scheme(u, v)); g = u_uri_get_scheme(u); break; case 1: TRY(rc, u_uri_set_userinfo(u, v)); g = u_uri_get_userinfo(u); break; case 2: TRY(rc, u_uri_set_user(u, v)); g = u_uri_get_user(u); break; case 3: TRY(rc, u_uri_set_pwd(u, v)); g = u_uri_get_pwd(u); break; case 4: TRY(rc, u_uri_set_host(u, v)); g = u_uri_get_host(u); break; case 5: TRY(rc, u_uri_set_port(u, v)); g = u_uri_get_port(u); break; case 6: TRY(rc, u_uri_set_path(u, v)); g = u_uri_get_path(u); break; case 7: TRY(rc, u_uri_set_query(u, v)); g = u_uri_get_query(u); break; case 8: TRY(rc, u_uri_set_fragment(u, v)); g = u_uri_get_fragment(u); break; default: TRY(rc, u_uri_set_authority(u, v)); g = u_uri_get_authority(u); }
        mc_op("set %s: %d", nm[o], rc); VERDICT(rc == 0, "set"); if (rc) MC_CHECK(!strcmp(old, uimg(u, 1)), "contents", "a failed set leaves %s, before %s", uimg(u, 1), old); else MC_CHECK(g && !strcmp(g, v), "contents", "%s is %s", nm[o], g ? g : "(none)"); char s[U_URI_STRMAX]; TRY(rc, u_uri_knead(u, s)); VERDICT(rc == 0, "knead"); }
    u_uri_free(u); finish(0);
}
/* --- password stores: versions of the store, one line too long for one read --- */
static int pv; static const char *pdb[] = { "al:one:x\nbob:two\n", "bob:three:yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy\nal:four\n" }; static const char *ppos; static int popen_n;
static int po(const char *u, void **h) { (void)u; popen_n++; ppos = pdb[pv]; *h = &ppos; return 0; } static char *pl(char *b, int n, void *h) { (void)h; if (!*ppos) return NULL; int i = 0; while (i < n - 1 && *ppos) if ((b[i++] = *ppos++) == '\n') break; b[i] = 0; return b; } static void pc(void *h) { (void)h; popen_n--; } static int pnot(const char *u, time_t t, time_t *n) { (void)u; *n = 100 + pv; return t != *n; } static size_t ph(const char *c, size_t n, char *d) { memcpy(d, c, n); d[n] = 0; return n; }
static const char *plook(int v, const char *u) { static char b[40]; size_t n = strlen(u); for (const char *p = pdb[v]; *p; p = strchr(p, '\n') + 1) if (!strncmp(p, u, n) && p[n] == ':') { size_t k = strcspn(p + n + 1, ":\n"); memcpy(b, p + n + 1, k); b[k] = 0; return b; } return NULL; }
static void s_pwd(void)
{
    u_pwd_t *p = NULL; int rc, mem = mc_choose(2), hash = mc_choose(2), stale = -1; pv = 0; popen_n = 0; TRY(rc, u_pwd_init("x", po, pl, pc, pnot, hash ? ph : NULL, hash ? 16 : 0, mem, &p)); VERDICT(rc == 0, "init"); MC_CHECK(!rc == !!p, "handle", "init"); if (rc) { finish(0); return; }
    for (int d = 0, D = deep(4, 5); d < D; d++) { int o = mc_choose(5); static const char *U[] = { "al", "bob", "carl", "al" }; if (o == 4) { pv = !pv; mc_op("update"); continue; } const char *w = plook(pv, U[o]); char now[40] = "", old[40] = ""; if (w) strcpy(now, w); if (stale >= 0 && (w = plook(stale, U[o]))) strcpy(old, w);
        if (o < 3) { u_pwd_rec_t *r = NULL; TRY(rc, u_pwd_retr(p, U[o], &r)); mc_op("retr %s: %d", U[o], rc); MC_CHECK(!rc == !!r, "handle", "result %d, record %s", rc, r ? "returned" : "missing"); if (r) { const char *g = u_pwd_rec_get_password(r); MC_CHECK((*now && !strcmp(g, now)) || (hit && mem && *old && !strcmp(g, old)), "contents", "%s has password %s, expected %s", U[o], g, now); u_pwd_rec_free(p, r); } else if (*now) VERDICT(0, "retr"); }
        else { TRY(rc, u_pwd_auth_user(p, U[o], "one")); mc_op("auth: %d", rc); if (rc) { if (!strcmp(now, "one")) VERDICT(0, "auth"); } else MC_CHECK(!strcmp(now, "one") || (hit && mem && !strcmp(old, "one")), "contents", "authenticated with a wrong password"); }
        MC_CHECK(popen_n == 0, "leak", "the store is left open"); if (!hit) stale = pv; }
    u_pwd_term(p); finish(0);
}
static void s_net(void)
{
    static const char *U[] = { "tcp4://127.0.0.1:80", "unix:///tmp/x", "udp6://[::1]:9", "tcp4://127.0.0.1:99999", "foo://x" }; int w = mc_choose(5), rc; u_net_addr_t *a = NULL; mc_op("%s", U[w]); TRY(rc, u_net_uri2addr(U[w], mc_choose(2) ? U_NET_CSOCK : U_NET_SSOCK, &a)); if (w < 3) VERDICT(rc == 0, "uri2addr"); else MC_CHECK(rc, "result", "accepted"); MC_CHECK(!rc == !!a, "handle", "result %d, address %s", rc, a ? "returned" : "missing"); if (a) u_net_addr_free(a); finish(0);
}
static void s_rb(void)
{
    u_rb_t *r = NULL; int rc; static const int O[] = { U_RB_OPT_NONE, U_RB_OPT_IMPL_MALLOC, U_RB_OPT_USE_CONTIGUOUS_MEM }; int o = mc_choose(3); TRY(rc, u_rb_create(8, O[o], &r)); mc_op("create: %d", rc); VERDICT(rc == 0, "create"); MC_CHECK(!rc == !!r, "handle", "result %d, object %s", rc, r ? "returned" : "missing"); if (r) { char b[4]; MC_CHECK(u_rb_write(r, "abc", 3) == 3 && u_rb_read(r, b, 3) == 3 && !memcmp(b, "abc", 3), "contents", "ring buffer"); u_rb_free(r); } finish(0);
}
/* options, copies of options, owned opaque entries */
static void s_opts(void)
{
    u_hmap_opts_t *o = NULL, *c = NULL; int rc; u_hmap_t *h = NULL; if (u_hmap_opts_new(&o) || u_hmap_opts_new(&c)) abort(); int own = mc_choose(2), pol = mc_choose(2); if (own) { u_hmap_opts_set_key_type(o, U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_key_sz(o, 4); u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_val_sz(o, 8); } else u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_STRING); if (pol) { u_hmap_opts_set_policy(o, U_HMAP_PCY_LRU); u_hmap_opts_set_max(o, 2); } TRY(rc, u_hmap_opts_copy(c, o)); VERDICT(rc == 0, "options"); if (rc) { u_hmap_opts_free(o); u_hmap_opts_free(c); finish(0); return; } TRY(rc, u_hmap_new(c, &h)); VERDICT(rc == 0, "new"); u_hmap_opts_free(o); u_hmap_opts_free(c); if (rc) { MC_CHECK(!h, "handle", "new"); finish(0); return; }
    int have[3] = { 0 }; for (int d = 0; d < 3; d++) { char k[4] = { 'a' + d, 0 }, v[8] = { 'A' + d, 0 }; u_hmap_o_t *ob; TRY(rc, (ob = u_hmap_o_new(h, k, v)) == NULL); VERDICT(rc == 0, "object"); if (ob) { TRY(rc, u_hmap_put(h, ob, NULL)); VERDICT(rc == 0, "put"); if (rc && mc_is_live(ob)) u_hmap_o_free(ob); } have[d] = !rc; mc_op("put %d: %d", d, rc); int n = 0; for (int i = 0; i <= d; i++) { char q[4] = { 'a' + i, 0 }; u_hmap_o_t *g = NULL; int r = u_hmap_get(h, q, &g); if (!r) { n++; MC_CHECK(have[i] && ((char *)u_hmap_o_get_val(g))[0] == 'A' + i, "contents", "entry %d", i); } else MC_CHECK(!have[i] || pol, "contents", "entry %d is lost", i); } int e = have[0] + (d > 0 && have[1]) + (d > 1 && have[2]); if (pol && e > 2) e = 2; MC_CHECK(n == e && u_hmap_count(h) == n, "contents", "%d entries, %zd counted, expected %d", n, u_hmap_count(h), e); }
    u_hmap_free(h); finish(0);
}
const struct mc_scn mc_scns[] = {
    { "strings", s_string, MC_QT, 5, 1, 2, 0, "creation and 4 (thorough 5) operations, every allocation failing in turn (thorough: every pair)" },
    { "buffers", s_buf, MC_QT, 4, 1, 2, 0, "creation and 4 (thorough 6) operations, likewise" },
    { "lists", s_list, MC_QT, 4, 1, 3, 0, "creation and 5 (thorough 7) operations, likewise" },
    { "arrays", s_array, MC_QT, 4, 1, 3, 0, "creation and 4 (thorough 6) stores, likewise" },
    { "small", s_small, MC_QT, 1, 2, 6, 0, "queues, scanners, token vectors, copies, test objects" },
    { "trees", s_bst, MC_QT, 5, 1, 2, 0, "search trees of each kind: 5 (thorough 6) operations" },
    { "maps", s_hmap, MC_QT, 5, 1, 2, 0, "maps: 4 (thorough 5) operations, empty or about to grow, simplified interface too" },
    { "caches", s_cache, MC_QT, 5, 1, 2, 0, "bounded caches: 4 (thorough 5) stores" },
    { "json-text", s_jdecode, MC_QT, 2, 2, 4, 0, "decoding, encoding, indexing, validating sample documents" },
    { "json-tree", s_jtree, MC_QT, 4, 1, 2, 0, "building and editing trees: 4 (thorough 5) operations" },
    { "config-text", s_cload, MC_QT, 2, 2, 3, 0, "loading sample configurations" },
    { "config-edit", s_cedit, MC_QT, 4, 1, 2, 0, "editing configurations: 3 (thorough 4) operations" },
    { "uris", s_uri, MC_QT, 3, 1, 2, 0, "parsing and editing URIs" },
    { "passwords", s_pwd, MC_QT, 4, 1, 2, 0, "password stores, direct or cached, plain or hashed: 4 (thorough 5) lookups and updates" },
    { "addresses", s_net, MC_QT, 2, 2, 6, 0, "network addresses from URIs" },
    { "ring", s_rb, MC_QT, 1, 2, 4, 0, "ring buffers of each kind" },
    { "options", s_opts, MC_QT, 3, 2, 4, 0, "maps made from copied options, opaque entries, bounded or not" },
    { 0 } };
