// Hash maps against a finite-map (and cache policy) model; used by P09, P10, P11.
#include "mc.h"
#include <u/libu.h>
#include "two.h"

static struct cfg { int type, overwrite, owns, kt, vt, hash, pcy, max, size, ffree, easy; } g;
static int nkeys, check_own;
static u_hmap_t *h; static u_hmap_opts_t *ho;
static struct { int live, v; unsigned stamp; int freq; u_hmap_o_t *o; } m[64];
static unsigned now_; static int nv;
static int cell[512];           /* value objects */
static int okey[64];            /* opaque keys */
static char *skey[64], skbuf[64][8];
static int krel[512], vrel[512], nkrel, nvrel; static int kcell[512]; static int keyof[512];
static u_hmap_o_t *objs[512]; static int nobjs;

static int keyid(const void *k)
{
    if (g.kt == 0) { for (int i = 0; i < nkeys; i++) if (!strcmp(k, skey[i])) return i; return -1; }
    if (g.kt == 1) { for (int i = 0; i < nkeys; i++) if (*(int *)k == okey[i]) return i; return -1; }
    ptrdiff_t d = (int *)k - kcell; return d >= 0 && d < 512 ? keyof[d] : -1;
}
static int valid_(const void *v)
{
    int i;
    if (!v) return -1;
    if (!g.owns || g.vt == 0) { ptrdiff_t d = (int *)v - cell; return d >= 0 && d < 512 ? (int)d : -1; }
    if (g.vt == 1) { const char *s = v; if (s[0] != 'v') return -1; return atoi(s + 1); }
    memcpy(&i, v, sizeof i); return i / 3;
}
static int icmp(const void *a, const void *b) { int x = *(int *)a, y = *(int *)b; return x < y ? -1 : x > y; }
static int pkcmp(const void *a, const void *b) { int x = keyof[(int *)a - kcell], y = keyof[(int *)b - kcell]; return x < y ? -1 : x > y; }
static size_t hconst(const void *k, size_t n) { (void) k; return n - 2; }
static size_t hid(const void *k, size_t n) { return (n - 2 + keyid(k) / 2) % n; }
static size_t hweak(const void *k, size_t n) { (void) n; return keyid(k) % 2; }
static void vfree(void *v) { int i = (int)((int *)v - cell); if (i < 0 || i >= 512) mc_fail("release-what", "value release function called on something never stored"); vrel[i]++; nvrel++; }
static void kfree_(const void *k) { int i = (int)((int *)k - kcell); if (i < 0 || i >= 512) mc_fail("release-what", "key release function called on something never stored"); krel[i]++; nkrel++; }
static void ofree(u_hmap_o_t *o)
{
    void *k = u_hmap_o_get_key(o), *v = u_hmap_o_get_val(o);
    if (g.kt == 2) kfree_(k); else u_free(k);
    if (g.vt == 0) vfree(v); else u_free(v);
}
/* greater value number modulo 3 = higher priority */
static int prio(int v) { return v % 3; }
static int pcmp(void *a, void *b) { int x = prio(valid_(a)), y = prio(valid_(b)); return x > y ? 1 : x < y ? -1 : 0; }

static void hm_open(u_hmap_t **ph, int size)
{
    u_hmap_opts_t *o = NULL;
    MC_CHECK(u_hmap_opts_new(&o) == 0 && o, "setup", "cannot create options");
    u_hmap_opts_set_size(o, size); u_hmap_opts_set_type(o, g.type ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN);
    if (g.overwrite) u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE);
    if (!g.owns) u_hmap_opts_unset_option(o, U_HMAP_OPTS_OWNSDATA);
    if (g.pcy) { u_hmap_opts_set_policy(o, g.pcy); u_hmap_opts_set_max(o, g.max); }
    if (g.pcy == U_HMAP_PCY_CUSTOM) u_hmap_opts_set_policy_cmp(o, pcmp);
    if (g.kt) {
        u_hmap_opts_set_key_type(o, g.kt == 1 ? U_HMAP_OPTS_DATATYPE_OPAQUE : U_HMAP_OPTS_DATATYPE_POINTER);
        if (g.kt == 1) u_hmap_opts_set_key_sz(o, sizeof(int));
        u_hmap_opts_set_compfunc(o, g.kt == 1 ? icmp : pkcmp);
    }
    if (g.hash) {
        u_hmap_opts_set_hashfunc(o, g.hash == 1 ? hconst : g.hash == 2 ? hid : hweak);
        if (g.hash < 3) u_hmap_opts_set_option(o, U_HMAP_OPTS_HASH_STRONG);
    }
    u_hmap_opts_set_val_type(o, g.vt == 0 ? U_HMAP_OPTS_DATATYPE_POINTER : g.vt == 1 ? U_HMAP_OPTS_DATATYPE_STRING : U_HMAP_OPTS_DATATYPE_OPAQUE);
    if (g.vt == 2) u_hmap_opts_set_val_sz(o, sizeof(int));
    if (g.ffree) u_hmap_opts_set_freefunc(o, ofree);
    else {
        if (g.kt == 2) u_hmap_opts_set_key_freefunc(o, kfree_);
        if (g.vt == 0) u_hmap_opts_set_val_freefunc(o, vfree);
    }
    int rc = g.easy ? u_hmap_easy_new(o, ph) : u_hmap_new(o, ph);
    MC_CHECK(rc == 0 && *ph, "setup", "cannot create the map");
    u_hmap_opts_free(o);
}
static void hm_init(int n)
{
    nkeys = n; now_ = 0; nv = 1; nobjs = 0; nkrel = nvrel = 0;
    memset(m, 0, sizeof m); memset(krel, 0, sizeof krel); memset(vrel, 0, sizeof vrel); memset(keyof, -1, sizeof keyof);
    for (int i = 0; i < 512; i++) cell[i] = i * 3;
    for (int i = 0; i < n; i++) { okey[i] = i * 1000 - 1000; skey[i] = skbuf[i]; sprintf(skbuf[i], "k%c%c", 'a' + i % 26, i < 26 ? 0 : '0' + i / 26); }
    h = NULL; hm_open(&h, g.size);
}
static int mcount(void) { int c = 0; for (int i = 0; i < nkeys; i++) c += m[i].live; return c; }
/* iteration snapshot */
static int it_k[600], it_v[600], it_n, it_n2, it_n3;
static int fe_kv(const void *k, const void *v) { MC_CHECK(it_n < 600, "foreach", "iteration does not end"); it_k[it_n] = keyid(k); it_v[it_n++] = valid_(v); return 0; }
static int it_v2[600], it_v3[600];
static int fe_v(const void *v) { MC_CHECK(it_n2 < 600, "foreach", "iteration does not end"); it_v2[it_n2++] = valid_(v); return 0; }
static int fe_va(const void *v, const void *a) { MC_CHECK(a == cell, "foreach", "iteration passes another argument"); MC_CHECK(it_n3 < 600, "foreach", "iteration does not end"); it_v3[it_n3++] = valid_(v); return 0; }
/* the order of the visit is not promised, and may differ between the iterators */
static int same_values(const int *a, const int *b, int n) { for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < n; j++) c += (a[j] == a[i]) - (b[j] == a[i]); if (c) return 0; } return 1; }
static void snap(void)
{
    it_n = it_n2 = it_n3 = 0;
    MC_CHECK(u_hmap_foreach_keyval(h, fe_kv) == 0 && u_hmap_foreach(h, fe_v) == 0 && u_hmap_foreach_arg(h, fe_va, cell) == 0, "foreach", "iteration failed");
    MC_CHECK(it_n2 == it_n && it_n3 == it_n, "foreach", "the iterators visit different numbers of entries");
    MC_CHECK(!memcmp(it_v, it_v2, it_n * sizeof(int)) || same_values(it_v, it_v2, it_n), "foreach", "the iterators disagree"); MC_CHECK(!memcmp(it_v, it_v3, it_n * sizeof(int)) || same_values(it_v, it_v3, it_n), "foreach", "the iterators disagree");
}
static int seen(int k) { int c = 0; for (int i = 0; i < it_n; i++) c += it_k[i] == k; return c; }
static int quiet;
static void hm_check(const char *op)
{
    if (quiet) return;
    snap();
    MC_CHECK(u_hmap_count(h) == mcount(), "count", "%s: count %zd, expected %d", op, u_hmap_count(h), mcount());
    MC_CHECK(it_n == mcount(), "foreach-count", "%s: iteration visits %d entries, expected %d", op, it_n, mcount());
    for (int i = 0; i < it_n; i++) {
        MC_CHECK(it_k[i] >= 0 && m[it_k[i]].live && seen(it_k[i]) == 1, "foreach-key", "%s: iteration visits key %d wrongly", op, it_k[i]);
        MC_CHECK(it_v[i] == m[it_k[i]].v, "foreach-value", "%s: key %d holds value %d, expected %d", op, it_k[i], it_v[i], m[it_k[i]].v);
    }
    if (!g.pcy) for (int k = 0; k < nkeys; k++) {
        u_hmap_o_t *o = (void *)1; char tmp[8]; strcpy(tmp, skey[k]); int ik = okey[k]; int pk = 500; keyof[pk] = k;
        const void *kk = g.kt == 0 ? (void *)tmp : g.kt == 1 ? (void *)&ik : (void *)&kcell[pk];
        int rc = u_hmap_get(h, kk, &o);
        MC_CHECK((rc == 0) == m[k].live, "get", "%s: key %d is %s", op, k, rc ? "not found" : "found though absent");
        if (rc == 0) {
            MC_CHECK(keyid(u_hmap_o_get_key(o)) == k, "get-key", "%s: get returns another key", op);
            MC_CHECK(valid_(u_hmap_o_get_val(o)) == m[k].v, "get-value", "%s: key %d reads %d, expected %d", op, k, valid_(u_hmap_o_get_val(o)), m[k].v);
        } else MC_CHECK(o == NULL, "get-null", "%s: a failed get returned an object", op);
        if (g.kt == 0) { void *v = u_hmap_easy_get(h, tmp); MC_CHECK((v != NULL) == m[k].live && (!v || valid_(v) == m[k].v), "easy-get", "%s: easy get of key %d differs", op, k); }
    }
    if (check_own && g.owns) {
        for (int i = 1; i < nv; i++) {
            int held = 0; for (int k = 0; k < nkeys; k++) held |= m[k].live && m[k].v == i;
            if (g.vt == 0) MC_CHECK(vrel[i] == !held, "release-value", "%s: value %d, %s the map, has been released %d times", op, i, held ? "held by" : "no longer in", vrel[i]);
            if (g.kt == 2 && i < nv) { int kheld = 0; for (int k = 0; k < nkeys; k++) kheld |= m[k].live && m[k].v == i; MC_CHECK(krel[i] == !kheld, "release-key", "%s: key object %d, %s the map, has been released %d times", op, i, kheld ? "held by" : "no longer in", krel[i]); }
        }
    } else if (check_own) MC_CHECK(nvrel == 0 && nkrel == 0, "release-unowned", "%s: an object whose ownership was not transferred was released", op);
    uint64_t s = 5; for (int i = 0; i < it_n; i++) s = mc_h64(mc_h64(s, it_k[i]), m[it_k[i]].freq); mc_state(s);
}
/* lowest candidates allowed to be evicted */
static int may_evict(int k)
{
    for (int i = 0; i < nkeys; i++) if (m[i].live && i != k) switch (g.pcy) {
        case U_HMAP_PCY_FIFO: case U_HMAP_PCY_LRU: if (m[i].stamp < m[k].stamp) return 0; break;
        case U_HMAP_PCY_LFU: if (m[i].freq < m[k].freq) return 0; break;
        case U_HMAP_PCY_CUSTOM: if (prio(m[i].v) < prio(m[k].v)) return 0; break;
    }
    return 1;
}
static const void *mkkey(int k, int id, char *tmp)
{
    keyof[id] = k;
    if (!g.owns) { if (g.kt == 0) return skey[k]; if (g.kt == 1) return &okey[k]; return &kcell[id]; }
    if (g.kt == 0) { strcpy(tmp, skey[k]); return tmp; }
    if (g.kt == 1) { memcpy(tmp, &okey[k], sizeof(int)); return tmp; }
    return &kcell[id];
}
static void hm_put(int k)
{
    int id = nv++; _Alignas(16) char kb[16], vb[16]; u_hmap_o_t *old = (void *)1, *o = NULL; int rc;
    const void *kk = mkkey(k, id, kb), *vv = &cell[id];
    if (g.owns && g.vt == 1) { sprintf(vb, "v%d", id); vv = vb; } else if (g.owns && g.vt == 2) { memcpy(vb, &cell[id], sizeof(int)); vv = vb; }
    mc_op("put key %d value %d", k, id);
    if (g.easy) { rc = u_hmap_easy_put(h, kk, vv); old = NULL; }
    else {
        o = u_hmap_o_new(h, kk, vv); MC_CHECK(o != NULL, "o-new", "cannot create an object");
        if (!g.owns) objs[nobjs++] = o;
        rc = u_hmap_put(h, o, &old);
    }
    memset(kb, 'Q', sizeof kb); memset(vb, 'Q', sizeof vb);
    if (m[k].live) {
        if (g.overwrite) {
            MC_CHECK(rc == U_HMAP_ERR_NONE, "overwrite", "overwriting key %d failed (%d)", k, rc);
            if (!g.owns) MC_CHECK(old == m[k].o, "overwrite-old", "the overwritten object was not handed back");
            m[k].v = id; m[k].stamp = ++now_; m[k].freq = 0; m[k].o = o;
        } else {
            MC_CHECK(rc == U_HMAP_ERR_EXISTS, "exists", "storing existing key %d returned %d", k, rc);
            if (!g.owns && !g.easy) MC_CHECK(old == m[k].o, "exists-old", "the existing object was not handed back");
        }
        hm_check("put"); return;
    }
    MC_CHECK(rc == U_HMAP_ERR_NONE, "put", "storing key %d failed (%d) with %d entries", k, rc, mcount());
    if (g.pcy && mcount() >= g.max) {
        snap(); int gone = -1;
        for (int i = 0; i < nkeys; i++) if (m[i].live && !seen(i)) { MC_CHECK(gone < 0, "evict-many", "more than one entry was evicted"); gone = i; }
        MC_CHECK(gone >= 0, "evict-none", "nothing was evicted from a full map");
        MC_CHECK(may_evict(gone), "evict", "entry %d was evicted, which the policy does not name", gone);
        if (!g.owns) MC_CHECK(old == m[gone].o, "evict-old", "the evicted object was not handed back");
        m[gone].live = 0; mc_note("evicted %d", gone);
    } else if (!g.easy) MC_CHECK(old == NULL, "put-old", "an object was handed back though nothing was replaced");
    m[k].live = 1; m[k].v = id; m[k].stamp = ++now_; m[k].freq = 0; m[k].o = o;
    hm_check("put");
}
static void hm_get(int k)
{
    mc_op("get key %d", k);
    char tmp[8]; strcpy(tmp, skey[k]); int ik = okey[k]; keyof[500] = k; u_hmap_o_t *o = NULL;
    int rc = u_hmap_get(h, g.kt == 0 ? (void *)tmp : g.kt == 1 ? (void *)&ik : (void *)&kcell[500], &o);
    MC_CHECK((rc == 0) == m[k].live, "get", "key %d is %s", k, rc ? "not found" : "found though absent");
    if (rc == 0) {
        MC_CHECK(valid_(u_hmap_o_get_val(o)) == m[k].v, "get-value", "key %d reads %d, expected %d", k, valid_(u_hmap_o_get_val(o)), m[k].v);
        if (g.pcy == U_HMAP_PCY_LRU) m[k].stamp = ++now_;
        m[k].freq++;
    }
    hm_check("get");
}
static void hm_del(int k)
{
    mc_op("delete key %d", k);
    char tmp[8]; strcpy(tmp, skey[k]); int ik = okey[k]; keyof[500] = k; u_hmap_o_t *o = (void *)1; const void *kk = g.kt == 0 ? (void *)tmp : g.kt == 1 ? (void *)&ik : (void *)&kcell[500];
    int rc = g.easy ? u_hmap_easy_del(h, kk) : u_hmap_del(h, kk, &o);
    MC_CHECK((rc == 0) == m[k].live, "delete", "deleting key %d returned %d", k, rc);
    if (!g.easy) MC_CHECK(o == (rc == 0 && !g.owns ? m[k].o : NULL), "delete-obj", "delete hands back the wrong object");
    m[k].live = 0; hm_check("delete");
}
static void hm_clear(void)
{
    mc_op("clear"); if (g.easy) u_hmap_easy_clear(h); else u_hmap_clear(h);
    for (int k = 0; k < nkeys; k++) m[k].live = 0;
    hm_check("clear");
}
/* copy into a fresh map, optionally holding one entry already, and go on with that one */
static void hm_copy(int pre)
{
    mc_op("copy to a new map%s", pre ? " already holding key 0" : "");
    u_hmap_t *from = h; int had = m[0].live, v0 = m[0].v; u_hmap_o_t *o0 = m[0].o; int savedv = nv;
    h = NULL; hm_open(&h, g.size + 6);
    if (pre) {
        int id = nv++; u_hmap_o_t *o; keyof[id] = 0; char vb[16]; const void *vv = &cell[id]; if (g.owns && g.vt == 1) { sprintf(vb, "v%d", id); vv = vb; }
        o = u_hmap_o_new(h, g.kt == 0 ? (void *)skey[0] : g.kt == 1 ? (void *)&okey[0] : (void *)&kcell[id], vv);
        if (!g.owns) objs[nobjs++] = o;
        MC_CHECK(u_hmap_put(h, o, NULL) == 0, "put", "put failed");
        if (!had) { m[0].live = 1; m[0].v = id; m[0].o = o; } else { m[0].v = v0; m[0].o = o0; }
    }
    (void) savedv;
    MC_CHECK(u_hmap_copy(h, from) == 0, "copy", "copy failed");
    hm_check("copy");
    u_hmap_t *to = h; h = from; snap();
    MC_CHECK(u_hmap_count(from) == it_n, "copy-source-count", "after a copy the source counts %zd entries but holds %d", u_hmap_count(from), it_n);
    u_hmap_free(from); h = to;
    hm_check("copy, source destroyed");
}
static void hm_close(void)
{
    mc_op("destroy"); if (g.easy) u_hmap_easy_free(h); else u_hmap_free(h);
    h = NULL;
    if (check_own) {
        if (g.owns) {
            for (int i = 1; i < nv; i++) {
                if (g.vt == 0) MC_CHECK(vrel[i] == 1, "release-value-end", "value %d was released %d times by the time the map is gone", i, vrel[i]);
                if (g.kt == 2) MC_CHECK(krel[i] == 1, "release-key-end", "key object %d was released %d times by the time the map is gone", i, krel[i]);
            }
        } else MC_CHECK(nvrel == 0 && nkrel == 0, "release-unowned", "an object whose ownership was not transferred was released");
    }
    for (int i = 0; i < nobjs; i++) { if (check_own) MC_CHECK(mc_is_live(objs[i]), "object-freed", "an object owned by the user was freed"); u_hmap_o_free(objs[i]); }
    nobjs = 0;
    if (check_own) MC_CHECK(mc_live() == 0, "leak", "%zu blocks remain allocated after destruction", mc_live());
}
