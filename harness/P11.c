// Ownership: every owned object is released once, and everything goes back to the installed allocator.
#include "hmap_model.h"
const char *mc_property = "P11", *mc_level = "model_checking";
/* --- maps --- */
static void run_seq(void)
{
    check_own = 1; memset(&g, 0, sizeof g); static const int hs[] = { 1, 0, 2, 3 };
    g.type = mc_choose(2); g.overwrite = mc_choose(2); g.owns = mc_choose(2); g.size = 1; int v = mc_choose(9); g.kt = v % 3; g.vt = g.owns ? v / 3 : 0; g.hash = hs[v % 4]; if (g.kt && !g.hash) g.hash = 2;
    g.ffree = g.owns && mc_choose(2); g.easy = g.owns && g.kt == 0 && !g.ffree && mc_choose(2); int K = 2, D = mc_tier ? 6 : 4; hm_init(K);
    for (int d = 0; d < D; d++) { int o = mc_choose(2 * K + 2 + g.overwrite); if (o < K) hm_put(o); else if (o < 2 * K) hm_del(o - K); else if (o == 2 * K) hm_clear(); else hm_copy(o == 2 * K + 2); }
    hm_close();
}
static void run_cache(void)
{
    check_own = 1; memset(&g, 0, sizeof g); g.pcy = U_HMAP_PCY_FIFO + mc_choose(4); g.max = 1 + mc_choose(2); g.type = mc_choose(2); g.owns = mc_choose(2); g.overwrite = mc_choose(2); g.size = 1; g.kt = mc_choose(3); g.vt = g.owns ? mc_choose(3) : 0; g.hash = g.kt ? 2 : 0; g.ffree = g.owns && mc_choose(2); if (g.pcy == U_HMAP_PCY_CUSTOM && g.owns && g.vt == 1) mc_discard();
    int K = g.max + 1, D = mc_tier ? 5 : 4; hm_init(K); for (int d = 0; d < D; d++) { int o = mc_choose(2 * K + 2); if (o < K) hm_put(o); else if (o < 2 * K) hm_del(o - K); else if (o == 2 * K) hm_get(0); else hm_clear(); }
    hm_close();
}
static void run_grow(void) { check_own = 1; memset(&g, 0, sizeof g); g.type = mc_choose(2); g.owns = mc_choose(2); g.overwrite = mc_choose(2); g.kt = mc_choose(3); g.vt = g.owns ? mc_choose(3) : 0; g.hash = g.kt ? 2 : 0; g.ffree = g.owns && mc_choose(2); g.size = 1; int n = 9 + mc_choose(mc_tier ? 40 : 20); hm_init(n + 1); for (int i = 0; i < n; i++) hm_put(i); int o = mc_choose(5); if (o == 1) hm_put(n / 2); if (o == 2) hm_del(n / 2); if (o == 3) hm_clear(); if (o == 4) hm_copy(0); hm_put(n); hm_close(); }
/* --- trees --- */
static int bk[40], bv[40], bkr[40], bvr[40], bn; static int kdup, vdup;
static void bkf(void *p) { int i; if (kdup) { i = atoi(p); u_free(p); } else i = (int *)p - bk; MC_CHECK(i >= 0 && i < 40, "release-what", "a key never stored is released"); bkr[i]++; }
static void bvf(void *p) { int i; if (vdup) { i = atoi(p); u_free(p); } else i = (int *)p - bv; MC_CHECK(i >= 0 && i < 40, "release-what", "a value never stored is released"); bvr[i]++; }
static int bcmp_(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static void run_bst(void)
{
    static int in[40], cls[40]; u_bst_t *b; int opts = mc_choose(3), kt = mc_choose(3), vt = mc_choose(3), kf = mc_choose(2), vf = mc_choose(2), late = mc_choose(2); static const int O[] = { U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED };
    static const u_bst_type_t BT[] = { U_BST_TYPE_STRING, U_BST_TYPE_PTR, U_BST_TYPE_OPAQUE }; memset(bkr, 0, sizeof bkr); memset(bvr, 0, sizeof bvr); memset(in, 0, sizeof in); bn = 0; kdup = kt == 0; vdup = vt == 0; if (kt == 2) kf = 0; if (vt == 2) vf = 0;
    MC_CHECK(u_bst_new(O[opts], &b) == 0, "setup", "new"); if (kf && !late) u_bst_set_keyfree(b, bkf); if (vf && !late) u_bst_set_valfree(b, bvf);
    if (kt) { u_bst_set_keyattr(b, BT[kt], sizeof(int)); u_bst_set_cmp(b, bcmp_); } if (vt != 1 || late) u_bst_set_valattr(b, BT[vt], sizeof(int)); if (kf && late) u_bst_set_keyfree(b, bkf); if (vf && late) u_bst_set_valfree(b, bvf);
    for (int d = 0; d < (mc_tier ? 6 : 5); d++) {
        int o = mc_choose(5); char kb[8], vb[8]; const void *k, *v;
        if (o < 3) { int id = bn++; cls[id] = o; bk[id] = o; bv[id] = id; snprintf(kb, 8, "%02d%d", id, 0); if (kt == 0) snprintf(kb, 8, "%d", id); k = kt == 0 ? (void *)kb : (void *)&bk[id]; snprintf(vb, 8, "%d", id); v = vt == 0 ? (void *)vb : (void *)&bv[id]; mc_op("push %d", o); MC_CHECK(u_bst_push(b, k, v) == 0, "setup", "push"); in[id] = 1; memset(kb, 'q', 7); memset(vb, 'q', 7); }
        else if (o == 3) { int id; for (id = 0; id < bn && !in[id]; id++) ; if (id == bn) mc_discard(); mc_op("delete %d", id); snprintf(kb, 8, "%d", id); int before[40]; memcpy(before, bkr, sizeof before); u_bst_node_t *n; k = kt == 0 ? (void *)kb : (void *)&bk[id]; n = u_bst_search(b, k); MC_CHECK(n, "setup", "gone"); const void *nv = u_bst_node_val(n), *nk = u_bst_node_key(n); int vid = vt == 1 ? (int)((int *)nv - bv) : vt == 0 ? atoi(nv) : *(int *)nv; (void)nk; MC_CHECK(vid >= 0 && vid < bn && in[vid], "setup", "value"); MC_CHECK(u_bst_delete(b, k) == 0, "setup", "delete"); in[vid] = 0; }
        else { mc_op("balance"); u_bst_balance(b); }
        for (int i = 0; i < bn; i++) { MC_CHECK(bkr[i] == (kf && !in[i]), "release-key", "key %d, %s the tree, has been released %d times", i, in[i] ? "in" : "no longer in", bkr[i]); MC_CHECK(bvr[i] == (vf && !in[i]), "release-value", "value %d, %s the tree, has been released %d times", i, in[i] ? "in" : "no longer in", bvr[i]); }
    }
    u_bst_free(b); for (int i = 0; i < bn; i++) { MC_CHECK(bkr[i] == kf, "release-key-end", "key %d has been released %d times by the end", i, bkr[i]); MC_CHECK(bvr[i] == vf, "release-value-end", "value %d has been released %d times by the end", i, bvr[i]); } MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_outcome(bn);
}
/* --- documents: every block of a tree belongs to whoever can reach it --- */
static void run_json(void)
{
    static const char *K[] = { "a", "b", "a" }; u_json_t *own[16], *in[16], *up[16]; int no = 0, ni = 0; u_json_t *r; MC_CHECK(u_json_new_object(NULL, &r) == 0, "setup", "new"); own[no++] = r;
    for (int d = 0; d < (mc_tier ? 6 : 5); d++) {
        int o = mc_choose(5);
        if (o == 0) { if (no == 16) mc_discard(); u_json_t *x; const char *k = K[mc_choose(2)]; int t = mc_choose(3); mc_op("new %s", k); MC_CHECK((t == 0 ? u_json_new_object(k, &x) : t == 1 ? u_json_new_array(k, &x) : u_json_new_string(k, "vv", &x)) == 0, "setup", "new"); own[no++] = x; }
        else if (o == 1) { if (no < 2) mc_discard(); u_json_t *x = own[no - 1]; int w = mc_choose(1 + ni + 1); u_json_t *at = w == 0 ? r : w <= ni ? in[w - 1] : own[no > 2 ? no - 2 : 0]; if (at == x) mc_discard(); for (u_json_t *q = at; q; ) { int i; for (i = 0; i < ni && in[i] != q; i++) ; if (i == ni) break; q = up[i]; if (q == x) mc_discard(); } mc_op("add"); size_t l = mc_live(); if (u_json_add(at, x) == 0) { no--; up[ni] = at; in[ni++] = x; } else MC_CHECK(mc_live() == l, "leak", "a refused add changes what is allocated"); }
        else if (o == 2) { if (!ni) mc_discard(); int i = mc_choose(ni); u_json_t *x = in[i], *gone[16]; int ng = 1; gone[0] = x; mc_op("remove %d", i); size_t l = mc_live(); if (u_json_remove(x) == 0) { MC_CHECK(mc_live() < l, "leak", "a removed object is not released"); for (int again = 1; again; ) { again = 0; for (int q = 0; q < ni; q++) for (int w = 0; w < ng; w++) if (in[q] == x || up[q] == gone[w]) { if (in[q] != x) gone[ng++] = in[q]; for (int e = q; e + 1 < ni; e++) { in[e] = in[e + 1]; up[e] = up[e + 1]; } ni--; again = 1; q = ni; break; } } } else MC_CHECK(mc_live() == l, "leak", "a refused removal changes what is allocated"); }
        else if (o == 3) { mc_op("cache"); u_json_index(r); }
        else { u_json_t *x = own[mc_choose(no)]; mc_op("set"); u_json_set_key(x, "long key"); u_json_set_val(x, "3"); }
    }
    while (no) u_json_free(own[--no]); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_outcome(ni);
}
static void run_docs(void)   /* every prefix, and every byte replaced, of sample documents: refused or taken, nothing is left over */
{
    static const char *J[] = { "{\"a\":[1,{\"b\":\"x\\n\"},[]],\"c\":{\"d\":null,\"e\":-1.5e3}}", "[[\"a\",\"\"],true,{\"k\":[{}]},false]" }, *C[] = { "a 1\nb\n{\n c ${a}\n d\n {\n  e \"x\"\n }\n}\nf 2\n", "a\n{\n}\na \n{\n b 1\n c\n {\n }\n}\n" }, *U[] = { "http://u:p@h.x:80/p/q?a=b#f", "tcp4://[::1]:99", "mailto:a@b" };
    static const char SUB[] = "{}[]\",: \n\\#$0x@/%"; int kind = mc_choose(3), w = mc_choose(kind == 2 ? 3 : 2); const char *t = kind == 0 ? J[w] : kind == 1 ? C[w] : U[w]; int n = strlen(t), pos = mc_choose(n + 1), sub = mc_choose(1 + (pos < n ? (int)sizeof SUB - 1 : 0)); char b[128]; strcpy(b, t); if (sub) b[pos] = SUB[sub - 1]; else b[pos] = 0;
    mc_op("text %s", mc_escs(b)); int rc;
    if (kind == 0) { u_json_t *j = NULL; rc = u_json_decode(b, &j); if (rc == 0) { u_json_index(j); char *e = NULL; if (u_json_encode(j, &e) == 0) u_free(e); u_json_free(j); } (void)u_json_validate(b, NULL); }
    else if (kind == 1) { u_config_t *c = NULL; rc = u_config_load_from_buf(b, strlen(b), &c); if (rc == 0) u_config_free(c); }
    else { u_uri_t *u = NULL; rc = u_uri_crumble(b, 0, &u); if (rc == 0) { u_uri_set_host(u, "other"); u_uri_set_path(u, "/x"); u_uri_set_user(u, "me"); char s[U_URI_STRMAX]; u_uri_knead(u, s); u_uri_free(u); } }
    MC_CHECK(mc_live() == 0, "leak", "%zu blocks left after %s text", mc_live(), rc ? "a refused" : "an accepted"); mc_outcome(kind * 2 + !rc);
}
/* --- configuration trees --- */
static void run_config(void)
{
    u_config_t *c, *at[3]; MC_CHECK(u_config_create(&c) == 0, "setup", "create"); static const char *P[] = { "a", "a.b", "c.a" }, *V[] = { "1", "${a}", NULL };
    for (int d = 0; d < (mc_tier ? 5 : 4); d++) { int o = mc_choose(6); const char *p = P[mc_choose(3)]; size_t l = mc_live(); u_config_t *x;
        if (o == 0) { mc_op("add %s", p); if (u_config_add_key(c, p, V[mc_choose(3)])) { } } else if (o == 1) { mc_op("set %s", p); u_config_set_key(c, p, V[mc_choose(3)]); }
        else if (o == 2) { mc_op("delete %s", p); if (u_config_get_subkey(c, p, &x) == 0) { u_config_t *up = c; if (p[1]) { char k[2] = { p[0], 0 }; up = u_config_get_child(c, k); } if (u_config_del_child(up, x) == 0) MC_CHECK(mc_live() < l, "leak", "a deleted entry is not released"); } }
        else if (o == 3) { mc_op("value of %s", p); if (u_config_get_subkey(c, p, &x) == 0) { u_config_set_value(x, V[mc_choose(3)]); u_config_set_value(x, V[0]); } } else if (o == 4) { mc_op("child"); if (u_config_get_subkey(c, p, &x) == 0) u_config_add_child(x, "z", &at[0]); else mc_discard(); }
        else { mc_op("print"); char b[200]; u_config_save_to_buf(c, b, sizeof b); MC_CHECK(mc_live() == l, "leak", "saving keeps memory"); } }
    u_config_free(c); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_outcome(1);
}
/* --- sequences, strings, buffers, lists, queues --- */
static void run_small(void)
{
    int kind = mc_choose(5), D = mc_tier ? 5 : 4, x[4];
    if (kind == 0) { u_list_t *l; MC_CHECK(u_list_create(&l) == 0, "setup", "list"); for (int d = 0; d < D; d++) { void *p; switch (mc_choose(5)) { case 0: u_list_add(l, &x[0]); break; case 1: u_list_insert(l, &x[1], 0); break; case 2: u_list_del(l, &x[0]); break; case 3: u_list_del_n(l, 0, &p); break; default: u_list_clear(l); } } u_list_free(l); }
    if (kind == 1) { u_string_t *s, *t = NULL; char *k = NULL; MC_CHECK(u_string_create("abc", 3, &s) == 0, "setup", "string"); for (int d = 0; d < D && s; d++) switch (mc_choose(6)) { case 0: u_string_append(s, "0123456789012345678901234567890123456789", 40); break; case 1: u_string_clear(s); break; case 2: u_string_sprintf(s, "%200d", 7); break; case 3: if (!t) u_string_create(NULL, 0, &t); u_string_copy(t, s); break; case 4: u_string_reserve(s, 999); break; default: k = u_string_detach_cstr(s); s = NULL; } if (k) { MC_CHECK(mc_is_live(k), "detach", "the detached text is not a live block of the allocator"); u_free(k); } if (s) u_string_free(s); if (t) u_string_free(t); }
    if (kind == 2) { u_buf_t *b; void *k[8]; int nk = 0; MC_CHECK(u_buf_create(&b) == 0, "setup", "buf"); for (int d = 0; d < D; d++) switch (mc_choose(6)) { case 0: u_buf_append(b, "0123456789", 10); break; case 1: u_buf_clear(b); break; case 2: u_buf_reserve(b, 77); break; case 3: u_buf_set(b, "xyz", 3); break; case 4: u_buf_printf(b, "%100s", "a"); break; default: if (u_buf_ptr(b)) k[nk++] = u_buf_ptr(b); MC_CHECK(u_buf_detach(b) == 0, "detach", "failed"); MC_CHECK(u_buf_ptr(b) == NULL, "detach", "the buffer still refers to its block"); } u_buf_free(b); for (int i = 0; i < nk; i++) { MC_CHECK(mc_is_live(k[i]), "detach", "a detached block was released"); u_free(k[i]); } }
    if (kind == 3) { char **tv; size_t n; static const char *T[] = { "", "a", " a b ", ",,", "a,b" }; for (int d = 0; d < D; d++) { MC_CHECK(u_strtok(T[mc_choose(5)], " ,", &tv, &n) == 0, "setup", "strtok"); u_strtok_cleanup(tv, n); } }
    if (kind == 4) { u_pq_t *q; u_array_t *a; MC_CHECK(u_pq_create(2, &q) == 0 && u_array_create(U_ARRAY_TYPE_INT, 1, &a) == 0, "setup", "create"); double k; for (int d = 0; d < D; d++) switch (mc_choose(4)) { case 0: u_pq_push(q, d, &x[0]); break; case 1: if (!u_pq_empty(q)) u_pq_delmax(q, &k); break; case 2: u_array_set_int(a, d * 9, d, NULL); break; default: u_array_resize(a, d * 40); } u_pq_free(q); u_array_free(a); }
    MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_outcome(kind);
}
/* one object as key and as value, or shared by several entries: each entry's key and value are released once each */
static int sh_k[4], sh_v[4]; static char sh_c[4][4]; static void sh_kf(void *p) { sh_k[((char *)p - sh_c[0]) / 4]++; } static void sh_vf(void *p) { sh_v[((char *)p - sh_c[0]) / 4]++; } static size_t sh_h(const void *p, size_t n) { return (size_t)(((const char *)p - sh_c[0]) / 4) % n; } static int sh_cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void run_shared(void)
{
    int type = mc_choose(2), kf = mc_choose(2), vf = mc_choose(2), ow = mc_choose(2), D = mc_tier ? 5 : 4, wk[4] = { 0 }, wv[4] = { 0 }, cur[3] = { -1, -1, -1 }; memset(sh_k, 0, sizeof sh_k); memset(sh_v, 0, sizeof sh_v); for (int i = 0; i < 4; i++) snprintf(sh_c[i], 4, "%d", i); u_hmap_opts_t *o; u_hmap_t *h; MC_CHECK(u_hmap_opts_new(&o) == 0, "setup", "options"); u_hmap_opts_set_size(o, 1); u_hmap_opts_set_type(o, type ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN); u_hmap_opts_set_key_type(o, U_HMAP_OPTS_DATATYPE_POINTER); u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_POINTER); u_hmap_opts_set_hashfunc(o, sh_h); u_hmap_opts_set_compfunc(o, sh_cmp); if (kf) u_hmap_opts_set_key_freefunc(o, sh_kf); if (vf) u_hmap_opts_set_val_freefunc(o, sh_vf); if (ow) u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE);
    MC_CHECK(u_hmap_new(o, &h) == 0, "setup", "new"); u_hmap_opts_free(o);
    for (int d = 0; d < D; d++) {
        int q = mc_choose(3 * 3 + 3 + 1), k, v; if (q < 9) { k = q / 3; v = q % 3; mc_op("put %d with value %d", k, v); if (!ow && cur[k] >= 0) continue; u_hmap_o_t *ob = u_hmap_o_new(h, sh_c[k], sh_c[v]); MC_CHECK(ob && u_hmap_put(h, ob, NULL) == 0, "put", "refused"); if (cur[k] >= 0) { wk[k] += kf; wv[cur[k]] += vf; } cur[k] = v; } else if (q < 12) { k = q - 9; mc_op("delete %d", k); int rc = u_hmap_del(h, sh_c[k], NULL); MC_CHECK((rc == 0) == (cur[k] >= 0), "del", "gives %d", rc); if (cur[k] >= 0) { wk[k] += kf; wv[cur[k]] += vf; } cur[k] = -1; } else { mc_op("clear"); u_hmap_clear(h); for (k = 0; k < 3; k++) { if (cur[k] >= 0) { wk[k] += kf; wv[cur[k]] += vf; } cur[k] = -1; } }
        mc_transitions(1); for (k = 0; k < 3; k++) MC_CHECK(sh_k[k] == wk[k] && sh_v[k] == wv[k], "release", "object %d released %d times as key (expected %d), %d times as value (expected %d)", k, sh_k[k], wk[k], sh_v[k], wv[k]);
    }
    u_hmap_free(h); for (int k = 0; k < 3; k++) if (cur[k] >= 0) { wk[k] += kf; wv[cur[k]] += vf; } for (int k = 0; k < 3; k++) MC_CHECK(sh_k[k] == wk[k] && sh_v[k] == wv[k], "release", "object %d released %d times as key (expected %d), %d times as value (expected %d) in the end", k, sh_k[k], wk[k], sh_v[k], wv[k]); MC_CHECK(mc_live() == 0, "leak", "%d blocks", (int)mc_live());
}
/* each helper uses the installed functions, whichever of them are replaced, with the right arguments */
static int al_who[4]; static size_t al_a, al_b; static void *al_p, *al_ret; static int al_calls[2][4];
#define AL(X, I) static void *am##X(size_t n) { al_calls[I][0]++; al_a = n; return mc_malloc(n); } static void *ac##X(size_t c, size_t n) { al_calls[I][1]++; al_a = c; al_b = n; return mc_calloc(c, n); } static void *ar##X(void *p, size_t n) { al_calls[I][2]++; al_p = p; al_a = n; return mc_realloc(p, n); } static void af##X(void *p) { al_calls[I][3]++; al_p = p; mc_free(p); }
AL(A, 0) AL(B, 1)
static void al_restore(void) { u_memory_set_malloc(mc_malloc); u_memory_set_calloc(mc_calloc); u_memory_set_realloc(mc_realloc); u_memory_set_free(mc_free); }
void mc_cleanup(void) { al_restore(); }
static void run_allocator(void)
{
    int D = mc_tier ? 4 : 3; void *held = NULL; size_t hn = 0; memset(al_who, 0, sizeof al_who); u_memory_set_malloc(amA); u_memory_set_calloc(acA); u_memory_set_realloc(arA); u_memory_set_free(afA);
    for (int d = 0; d < D; d++) {
        int o = mc_choose(13); memset(al_calls, 0, sizeof al_calls); int want[4] = { 0 }; char *p = NULL; if (held && o >= 4 && o < 11 && o != 7) { u_free(held); held = NULL; memset(al_calls, 0, sizeof al_calls); }
        switch (o) {
        case 0: al_who[0] ^= 1; u_memory_set_malloc(al_who[0] ? amB : amA); mc_op("replace malloc"); break; case 1: al_who[1] ^= 1; u_memory_set_calloc(al_who[1] ? acB : acA); mc_op("replace calloc"); break; case 2: al_who[2] ^= 1; u_memory_set_realloc(al_who[2] ? arB : arA); mc_op("replace realloc"); break; case 3: al_who[3] ^= 1; u_memory_set_free(al_who[3] ? afB : afA); mc_op("replace free"); break;
        case 4: held = u_malloc(hn = 7); mc_op("u_malloc"); want[0] = 1; MC_CHECK(al_a == 7, "arguments", "malloc of %zu", al_a); break;
        case 5: held = u_calloc(3, 5); hn = 15; mc_op("u_calloc"); want[1] = 1; MC_CHECK(al_a == 3 && al_b == 5, "arguments", "calloc of %zu, %zu", al_a, al_b); for (size_t i = 0; i < hn; i++) MC_CHECK(((char *)held)[i] == 0, "zero", "byte %zu", i); break;
        case 6: held = u_zalloc(hn = 9); mc_op("u_zalloc"); want[0] = want[1] = -1; for (size_t i = 0; i < hn; i++) MC_CHECK(((char *)held)[i] == 0, "zero", "byte %zu", i); break;
        case 7: p = held; held = u_realloc(held, hn = 20); mc_op("u_realloc"); want[2] = 1; MC_CHECK(al_p == p && al_a == 20, "arguments", "realloc of %p to %zu", al_p, al_a); break;
        case 8: held = u_strdup("four"); hn = 5; mc_op("u_strdup"); want[0] = want[1] = want[2] = -1; MC_CHECK(!strcmp(held, "four"), "copy", "strdup"); break; case 9: held = u_strndup("four", 2); hn = 3; mc_op("u_strndup"); want[0] = want[1] = want[2] = -1; MC_CHECK(!strcmp(held, "fo"), "copy", "strndup"); break; case 10: held = u_memdup("f\0ur", 4); hn = 4; mc_op("u_memdup"); want[0] = want[1] = want[2] = -1; MC_CHECK(!memcmp(held, "f\0ur", 4), "copy", "memdup"); break;
        case 11: mc_op("u_free"); p = held; want[3] = p != NULL; u_free(held); held = NULL; if (p) MC_CHECK(al_p == p, "arguments", "free of another block"); break;
        default: mc_op("release macros"); p = held; want[3] = p != NULL; { void *q = held; if (mc_choose(2)) { U_FREE(q); } else { U_FREEF(q, u_free); } MC_CHECK(q == NULL, "macro", "pointer is kept"); } held = NULL; break; }
        MC_CHECK(held || o < 4 || o > 10, "result", "nothing returned"); int any = 0; for (int f = 0; f < 4; f++) { MC_CHECK(al_calls[!al_who[f]][f] == 0, "stale", "a function that was replaced is called"); int n = al_calls[al_who[f]][f]; any += n; MC_CHECK(want[f] < 0 ? n <= 1 : n == want[f], "calls", "function %d called %d times", f, n); } if (o >= 4 && o < 11) MC_CHECK(any == 1, "calls", "%d calls", any); mc_transitions(1);
    }
    u_free(held); al_restore(); MC_CHECK(mc_live() == 0, "leak", "%d blocks", (int)mc_live());
}
const struct mc_scn mc_scns[] = {
    { "maps", run_seq, MC_QT, 6, 0, 0, 0, "all sequences of 4 (thorough 6) puts, deletes, clears and copies over 2 keys; every object kind, ownership, overwrite, release-function style, chaining/linear" },
    { "caches", run_cache, MC_QT, 6, 0, 0, 0, "the same over caches of each policy with evictions, 4 (thorough 5) operations" },
    { "growth", run_grow, MC_QT, 5, 0, 0, 0, "maps across growth, one change, destruction" },
    { "shared objects", run_shared, MC_QT, 4, 0, 0, 0, "maps in which an object is key and value at once or the value of several keys; 4 (thorough 5) operations over 3 objects" },
    { "trees", run_bst, MC_QT, 7, 0, 0, 0, "all sequences of 5 (thorough 6) pushes, deletes and balances; key and value kinds and release functions" },
    { "json", run_json, MC_QT, 4, 0, 0, 0, "all sequences of 5 (thorough 6) creations, additions, removals, cachings, changes" },
    { "documents", run_docs, MC_QT, 3, 0, 0, 0, "every prefix and every one-byte change of sample JSON documents, configurations and URIs" },
    { "config", run_config, MC_QT, 4, 0, 0, 0, "all sequences of 4 (thorough 5) edits of a configuration tree" },
    { "allocator", run_allocator, MC_QT, 2, 0, 0, 0, "all sequences of 3 (thorough 4): any allocation function replaced, every allocation helper" },
    { "small", run_small, MC_QT, 4, 0, 0, 0, "lists, strings, buffers, token vectors, queues, arrays: all sequences of 4 (thorough 5) operations" },
    { 0 } };
