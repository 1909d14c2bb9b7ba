// Hash maps: finite map semantics.
#include "hmap_model.h"
const char *mc_property = "P09", *mc_level = "model_checking";

/* all sequences over a few colliding keys, for every option combination */
static void run_seq(void)
{
    static const int hs[] = { 1, 0, 2, 3 };
    memset(&g, 0, sizeof g);
    g.type = mc_choose(2); g.overwrite = mc_choose(2); g.owns = mc_choose(2); g.size = 1;
    int v = mc_choose(6);       /* key type, value type, hash */
    g.kt = v % 3; g.vt = g.owns ? (v * 2 + v / 3) % 3 : 0;
    g.hash = v == 0 ? 1 : v == 3 ? 0 : hs[v % 4];
    if (g.kt && !g.hash) g.hash = 2;
    g.ffree = v == 4;
    g.easy = g.owns && g.kt == 0 && v == 0;
    int D = mc_tier ? 7 : 5, K = 3;
    hm_init(K);
    for (int d = 0; d < D; d++) {
        int o = mc_choose(2 * K + 2 + (g.overwrite ? 1 : 0));
        if (o < K) hm_put(o); else if (o < 2 * K) hm_del(o - K); else if (o == 2 * K) hm_clear(); else hm_copy(o == 2 * K + 2);
    }
    hm_close();
}
/* as above, from a table that is nearly full, so that it grows or fills */
static void run_grow(void)
{
    memset(&g, 0, sizeof g);
    g.type = mc_choose(2); g.overwrite = mc_choose(2); g.owns = mc_choose(2); g.size = 1 + 13 * mc_choose(2);
    g.kt = mc_choose(2); g.hash = g.kt ? 1 + mc_choose(2) : mc_choose(2); g.vt = 0;
    int fill = g.size < 13 ? 8 : 13;
    hm_init(fill + 3);
    for (int i = 0; i < fill; i++) hm_put(i);
    int D = mc_tier ? 5 : 4;
    for (int d = 0; d < D; d++) {
        int o = mc_choose(6);
        if (o < 3) hm_put(fill + o); else if (o == 3) hm_del(fill - 1); else if (o == 4) hm_del(fill); else hm_put(fill / 2);
    }
    hm_close();
}
/* long sequential fills with deletes on the way, across several growths */
static void run_big(void)
{
    memset(&g, 0, sizeof g);
    g.type = mc_choose(2); g.owns = mc_choose(2); g.kt = mc_choose(3); g.hash = g.kt ? 2 + mc_choose(2) : 0; g.size = 1; g.overwrite = 1;
    int step = 2 + mc_choose(5), n = 60;
    hm_init(n);
    for (int i = 0; i < n; i++) { hm_put(i); if (i % step == step - 1) hm_del(i / 2); }
    for (int i = 0; i < n; i += step) hm_del(i);
    for (int i = 0; i < n; i++) hm_put(n - 1 - i);
    hm_close();
}
/* every pair of kinds, opaque data of every combination of sizes (zeros inside): entries are exact private copies */
static size_t ksz; static size_t xhash(const void *k, size_t n) { size_t x = 0; for (size_t i = 0; i < ksz; i++) x += ((const unsigned char *)k)[i]; return x % n; } static int xcomp(const void *a, const void *b) { return memcmp(a, b, ksz); }
static size_t phash(const void *k, size_t n) { return (size_t)k / 64 % n; } static int pcomp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void run_kinds(void)
{
    static const size_t Z[] = { 1, 2, 7, 8, 33, 300 }; int kt = mc_choose(3), vt = mc_choose(3), type = mc_choose(2); size_t ks = kt == 1 ? Z[mc_choose(6)] : 8, vs = vt == 1 ? Z[mc_choose(6)] : 8; ksz = ks; static const u_hmap_options_datatype_t T[] = { U_HMAP_OPTS_DATATYPE_STRING, U_HMAP_OPTS_DATATYPE_OPAQUE, U_HMAP_OPTS_DATATYPE_POINTER };
    u_hmap_opts_t *o; u_hmap_t *h, *h2; MC_CHECK(u_hmap_opts_new(&o) == 0, "setup", "options"); u_hmap_opts_set_size(o, 1); u_hmap_opts_set_type(o, type ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN); u_hmap_opts_set_key_type(o, T[kt]); u_hmap_opts_set_val_type(o, T[vt]); u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE); if (kt == 1) { u_hmap_opts_set_key_sz(o, ks); u_hmap_opts_set_hashfunc(o, xhash); u_hmap_opts_set_compfunc(o, xcomp); } if (vt == 1) u_hmap_opts_set_val_sz(o, vs); if (kt == 2) { u_hmap_opts_set_hashfunc(o, phash); u_hmap_opts_set_compfunc(o, pcomp); }
    MC_CHECK(u_hmap_new(o, &h) == 0 && u_hmap_new(o, &h2) == 0, "setup", "new"); u_hmap_opts_free(o); static unsigned char K[2][304], V[12][304]; int cur[2] = { -1, -1 }, nv = 0; mc_op("kinds %d %d, sizes %zu %zu", kt, vt, ks, vs);
    for (int i = 0; i < 2; i++) { memset(K[i], 0, sizeof K[i]); K[i][ks - 1] = (unsigned char)(i + 1); if (kt == 0) strcpy((char *)K[i], i ? "k" : "key"); } for (int i = 0; i < 12; i++) { memset(V[i], 0, sizeof V[i]); V[i][0] = i & 1; V[i][vs - 1] = (unsigned char)(i + 3); if (vt == 0) snprintf((char *)V[i], 20, "value%d", i); }
    for (int d = 0, D = mc_tier ? 5 : 4; d < D; d++) {
        int q = mc_choose(5), k = q & 1; unsigned char *kb = kt == 2 ? K[k] : malloc(304), *vb = vt == 2 ? V[nv] : malloc(304); if (kt != 2) memcpy(kb, K[k], 304); if (vt != 2) memcpy(vb, V[nv], 304);
        if (q < 2) { u_hmap_o_t *ob = u_hmap_o_new(h, kb, vb); MC_CHECK(ob && u_hmap_put(h, ob, NULL) == 0, "put", "key %d", k); cur[k] = nv++; mc_op("put %d", k); } else if (q < 4) { int rc = u_hmap_del(h, kb, NULL); mc_op("delete %d", k); MC_CHECK((rc == 0) == (cur[k] >= 0), "del", "key %d gives %d", k, rc); cur[k] = -1; } else { mc_op("copy"); MC_CHECK(u_hmap_copy(h2, h) == 0, "copy", "refused"); u_hmap_t *t = h; h = h2; h2 = t; MC_CHECK(u_hmap_count(h2) == 0, "copy", "entries stay behind"); }
        if (kt != 2) { memset(kb, 'z', 304); free(kb); } if (vt != 2) { memset(vb, 'z', 304); free(vb); } int n = 0;
        for (int i = 0; i < 2; i++) { u_hmap_o_t *ob = NULL; int rc = u_hmap_get(h, K[i], &ob); n += cur[i] >= 0; MC_CHECK((rc == 0) == (cur[i] >= 0), "get", "key %d gives %d", i, rc); if (rc) continue; void *a = u_hmap_o_get_key(ob), *b = u_hmap_o_get_val(ob); MC_CHECK(kt == 0 ? !strcmp(a, (char *)K[i]) : kt == 1 ? !memcmp(a, K[i], ks) : a == (void *)K[i], "key", "key %d changed", i); MC_CHECK(vt == 0 ? !strcmp(b, (char *)V[cur[i]]) : vt == 1 ? !memcmp(b, V[cur[i]], vs) : b == (void *)V[cur[i]], "value", "value %d of key %d changed: %s", cur[i], i, vt == 2 ? "" : mc_esc(b, vs > 40 ? 40 : vs)); MC_CHECK((kt == 2 || a != (void *)K[i]) && (vt == 2 || b != (void *)V[cur[i]]), "private", "not a copy"); }
        MC_CHECK(u_hmap_count(h) == n, "count", "%zd of %d", u_hmap_count(h), n); mc_transitions(1); mc_state(mc_h64(kt * 3 + vt, ks * 1000 + vs + cur[0] * 7 + cur[1] * 131));
    }
    u_hmap_free(h); u_hmap_free(h2);
}
/* every sequence of option settings, refused ones in between: results, and what the map then does */
static int ofreed; static void ovfree(void *v) { (void) v; ofreed++; }
static u_string_t *ostr(u_hmap_o_t *o) { (void) o; return NULL; }
static void run_options(void)
{
    static const int O[] = { U_HMAP_OPTS_NO_OVERWRITE, U_HMAP_OPTS_OWNSDATA, U_HMAP_OPTS_HASH_STRONG }; int on[3] = { 1, 1, 0 }, type = 0, D = mc_tier ? 5 : 4, vset = 0, rc; u_hmap_opts_t *o, *o2; u_hmap_t *h = NULL; MC_CHECK(u_hmap_opts_new(&o) == 0, "setup", "options"); u_hmap_opts_set_size(o, 4);
    for (int d = 0; d < D; d++) {
        int q = mc_choose(11); mc_op("setting %d", q); if (q == 10) break;
        if (q < 3) { MC_CHECK(u_hmap_opts_set_option(o, O[q]) == 0, "option", "option %d refused", q); on[q] = 1; } else if (q < 6) { MC_CHECK(u_hmap_opts_unset_option(o, O[q - 3]) == 0, "option", "option %d not removed", q - 3); on[q - 3] = 0; }
        else if (q == 6) { MC_CHECK(u_hmap_opts_set_type(o, U_HMAP_TYPE_LINEAR) == 0, "option", "type refused"); type = 1; } else if (q == 7) { MC_CHECK(u_hmap_opts_set_type(o, U_HMAP_TYPE_CHAIN) == 0, "option", "type refused"); type = 0; } else if (q == 8) { MC_CHECK(u_hmap_opts_set_val_freefunc(o, ovfree) == 0, "option", "release function refused"); vset = 1; }
        else { MC_CHECK(u_hmap_opts_new(&o2) == 0 && u_hmap_opts_copy(o2, o) == 0, "option", "copy refused"); u_hmap_opts_free(o); o = o2; }
        MC_CHECK(u_hmap_opts_set_option(o, 0x4000) && u_hmap_opts_unset_option(o, 0x4000) && u_hmap_opts_set_option(NULL, O[0]) && u_hmap_opts_unset_option(NULL, O[0]) && u_hmap_opts_set_size(o, 0) && u_hmap_opts_set_size(o, -1) && u_hmap_opts_set_max(o, 0) && u_hmap_opts_set_max(o, -1) && u_hmap_opts_set_hashfunc(o, NULL) && u_hmap_opts_set_compfunc(o, NULL) && u_hmap_opts_set_key_sz(o, 8) && u_hmap_opts_set_val_sz(o, 8) && u_hmap_opts_set_val_sz(o, 0) && u_hmap_opts_set_policy_cmp(o, NULL) && u_hmap_opts_copy(o, NULL), "option-refused", "an unusable setting is accepted");
    }
    MC_CHECK(u_hmap_opts_set_strfunc(o, ostr) == 0 && u_hmap_opts_set_size(o, 5) == 0 && u_hmap_opts_set_max(o, 3) == 0, "option", "a legal setting is refused");
    ofreed = 0; if (on[1]) { rc = u_hmap_easy_new(o, &h); MC_CHECK((rc == 0) == vset, "easy-release", "simple map of pointers %s a release function %s", vset ? "with" : "without", rc ? "refused" : "accepted"); if (!rc) { MC_CHECK(u_hmap_easy_put(h, "a", &nv) == 0 && u_hmap_easy_get(h, "a") == &nv, "easy", "put and get"); u_hmap_easy_free(h); MC_CHECK(ofreed == 1, "easy-release", "one value, released %d times", ofreed); } }
    h = NULL; ofreed = 0; MC_CHECK(u_hmap_new(o, &h) == 0, "new", "refused"); static char k1[] = "key", k2[] = "key"; static int v1, v2; u_hmap_o_t *a = u_hmap_o_new(h, k1, &v1), *b = u_hmap_o_new(h, k2, &v2), *old = NULL, *got = NULL; MC_CHECK(a && b && (u_hmap_o_get_key(a) != (void *)k1) == on[1] && u_hmap_o_get_val(a) == (void *)&v1, "owns", "keys are %s though ownership is %s", on[1] ? "kept" : "copied", on[1] ? "on" : "off");
    MC_CHECK(u_hmap_put(h, a, NULL) == 0, "put", "refused"); rc = u_hmap_put(h, b, &old); MC_CHECK(rc == (on[0] ? U_HMAP_ERR_EXISTS : 0), "overwrite", "a second value for a key gives %d, overwriting is %s", rc, on[0] ? "off" : "on"); MC_CHECK(u_hmap_get(h, "key", &got) == 0 && u_hmap_o_get_val(got) == (void *)(on[0] ? &v1 : &v2) && u_hmap_count(h) == 1, "overwrite", "the map holds the other value");
    if (on[1]) MC_CHECK(ofreed == vset, "release", "%d values released", ofreed); else { MC_CHECK(ofreed == 0, "release", "%d values of the user released", ofreed); if (!on[0]) MC_CHECK(old == a, "old", "the replaced entry is not handed back"); }
    u_hmap_free(h); MC_CHECK(ofreed == (on[1] && vset ? 2 : 0), "release", "%d values released at the end", ofreed); if (!on[1]) { u_hmap_o_free(a); u_hmap_o_free(b); } u_hmap_opts_free(o); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(on[0] + 2 * on[1] + 4 * on[2], type * 2 + vset));
}
/* text keys that are nearly the same: only their whole text tells them apart */
static size_t nconst(const void *k, size_t n) { (void) k; return 0 * n; }
static void run_names(void)
{
    static const int L[] = { 0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 1023, 1024, 4095, 4096, 70000 };
    int fam = mc_choose(6), l = L[mc_choose(mc_tier ? 23 : 22)], type = mc_choose(2), hf = mc_choose(2), D = mc_tier ? 5 : 4; static char K[2][70008], T[70008]; u_hmap_opts_t *o; u_hmap_t *h; int cur[2] = { -1, -1 }, nv = 0; static char V[8];
    for (int i = 0; i < 2; i++) { memset(K[i], 'a', (size_t)l); char *e = K[i] + l; switch (fam) { case 0: strcpy(e, i ? "x" : "X"); break; case 1: strcpy(e, i ? "x" : "y"); break; case 2: strcpy(e, i ? "x" : ""); break; case 3: strcpy(e, i ? "\xe9" : "i"); break; case 4: strcpy(e, i ? "\xff" : "\x7f"); break; default: strcpy(e, "z"); K[i][0] = i ? 'b' : 'c'; } }
    MC_CHECK(u_hmap_opts_new(&o) == 0, "setup", "options"); u_hmap_opts_set_size(o, 1 + 7 * mc_choose(2)); u_hmap_opts_set_type(o, type ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN); u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_POINTER); u_hmap_opts_set_val_freefunc(o, ovfree); if (hf) u_hmap_opts_set_hashfunc(o, nconst); MC_CHECK(u_hmap_easy_new(o, &h) == 0, "setup", "new"); u_hmap_opts_free(o); mc_op("keys \"%s\" and \"%s\"", l > 40 ? mc_esc(K[0] + l - 4, 4 + strlen(K[0] + l)) : mc_esc(K[0], strlen(K[0])), l > 40 ? mc_escs(K[1] + l - 4) : mc_escs(K[1]));
    for (int d = 0; d < D; d++) {
        int q = mc_choose(4), k = q & 1, rc; strcpy(T, K[k]); if (q < 2) { rc = u_hmap_easy_put(h, T, V + nv); mc_op("put %d", k); MC_CHECK((rc == 0) == (cur[k] < 0), "put", "key %d, %s, gives %d", k, cur[k] < 0 ? "new" : "present", rc); if (cur[k] < 0) cur[k] = nv; nv++; } else { rc = u_hmap_easy_del(h, T); mc_op("delete %d", k); MC_CHECK((rc == 0) == (cur[k] >= 0), "del", "key %d, %s, gives %d", k, cur[k] < 0 ? "absent" : "present", rc); cur[k] = -1; } memset(T, 'z', 8);
        for (int i = 0; i < 2; i++) { strcpy(T, K[i]); void *v = u_hmap_easy_get(h, T); MC_CHECK(v == (cur[i] < 0 ? NULL : (void *)(V + cur[i])), "get", "key %d has value %d, not %d", i, v ? (int)((char *)v - V) : -1, cur[i]); } MC_CHECK(u_hmap_count(h) == (cur[0] >= 0) + (cur[1] >= 0), "count", "%zd", u_hmap_count(h)); mc_transitions(1); mc_state(mc_h64(fam * 100000 + l, cur[0] * 9 + cur[1]));
    }
    u_hmap_easy_free(h); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* two maps of different options at the same time */
static void run_two(void)
{
    int D = mc_tier ? 5 : 4, K = 3, x = mc_choose(8), y = mc_choose(8), pcy = 0; sw_begin(); SW(g); SW(h); SW(nkeys); sw_reg(m, 8 * sizeof *m); SW(now_); SW(nv); SW(nobjs); SW(nkrel); SW(nvrel); sw_reg(krel, 64 * sizeof *krel); sw_reg(vrel, 64 * sizeof *vrel); sw_reg(keyof, 64 * sizeof *keyof); sw_reg(objs, 64 * sizeof *objs);
    for (int w = 0; w < 2; w++) { int v = w ? y : x; sw_to(w); memset(&g, 0, sizeof g); g.type = v & 1; g.overwrite = v >> 1 & 1; g.owns = v >> 2; g.size = w ? 14 : 1; g.kt = pcy || v == 5 ? 0 : v % 3; g.hash = g.kt ? 2 : v & 1; if (pcy) { g.pcy = U_HMAP_PCY_FIFO + (w ? pcy / 4 : pcy % 4); g.max = 1 + w; g.overwrite = 1; } hm_init(K); hm_put(0); }
    for (int d = 0; d < D; d++) { int w = mc_choose(2), c = mc_choose(pcy ? 6 : 5); sw_to(w); if (c < 3) hm_put(c); else if (c == 5) hm_get(0); else if (c == 3) hm_del(0); else hm_clear(); sw_to(!w); hm_check("meanwhile"); }
    sw_to(0); hm_close(); sw_to(1); hm_check("the other one freed"); hm_put(1); hm_close();
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void run_sparse(void)
{
    int D = mc_tier ? 6 : 5; memset(&g, 0, sizeof g); g.type = mc_choose(2); g.size = 1 + 13 * mc_choose(2); g.overwrite = mc_choose(2); g.owns = 1; g.hash = mc_choose(2); quiet = 0; hm_init(3); quiet = 1; if (mc_choose(2)) hm_put(1);
    for (int d = 0; d < D; d++) {
        int o = mc_choose(11); u_hmap_o_t *x = NULL;
        if (o < 3) hm_put(o); else if (o < 6) hm_del(o - 3);
        else if (o < 8) hm_get(o - 5);
        else if (o == 8) { void *v; mc_op("easy get of key 0"); v = u_hmap_easy_get(h, skey[0]); MC_CHECK((v != NULL) == m[0].live && (!v || valid_(v) == m[0].v), "easy-get", "key 0"); }
        else if (o == 9) hm_clear(); else { mc_op("count"); MC_CHECK(u_hmap_count(h) == mcount(), "count", "%zd of %d", u_hmap_count(h), mcount()); } (void)x;
    }
    quiet = 0; hm_check("end"); hm_close();
}
const struct mc_scn mc_scns[] = {
    { "names", run_names, MC_QT, 3, 0, 0, 0, "pairs of text keys of up to 4096 (thorough 70000) characters that differ only in case, in their last or first character, by their length, or in one high byte: all sequences of 4 (5) puts and deletes, colliding or not" },
    { "sequences", run_seq, MC_QT, 5, 0, 0, 0, "all sequences of 5 (thorough 7) puts, deletes, clears and copies over 3 keys; chaining/linear, overwrite or not, owned or not, string/opaque/pointer keys, pointer/string/opaque values, constant/default/clustered/weak hashes" },
    { "growth", run_grow, MC_QT, 5, 0, 0, 0, "all sequences of 4 (thorough 5) puts and deletes on a table filled to just below its growth threshold" },
    { "kinds", run_kinds, MC_QT, 5, 0, 0, 0, "every pair of kinds, opaque sizes 1 to 300, all sequences of 4 (thorough 5) puts, deletes and copies over 2 keys, inputs clobbered after use" },
    { "options", run_options, MC_QT, 5, 0, 0, 0, "every sequence of up to 4 (5) option settings with unusable ones in between, then overwriting, ownership and releases" },
    { "two maps", run_two, MC_QT, 4, 0, 0, 0, "every history of 4 (5) operations on two maps of every pair of 8 option sets" },
    { "sparse", run_sparse, MC_QT, 5, 0, 0, 0, "every history of 5 (6) of 11 edits and lookups, nothing else looked at in between" },
    { "fill", run_big, MC_QT, 3, 0, 0, 0, "60 keys with interleaved deletes and re-insertion across every growth, every option combination" },
    { 0 } };
