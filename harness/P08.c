// MC-LDFLAGS: -Wl,--wrap=rand -Wl,--wrap=srand -Wl,--wrap=random
// Search trees against a sorted multiset model.
#include "mc.h"
#include <u/libu.h>
#include "two.h"
const char *mc_property = "P08", *mc_level = "model_checking";
void mc_cleanup(void) {}

static int coin_on;
static long coin(void) { return coin_on ? (mc_choose(2) ? RAND_MAX : 0) : RAND_MAX / 3; }
int __wrap_rand(void) { return (int)coin(); }
long __wrap_random(void) { return coin(); }
void __wrap_srand(unsigned s) { (void) s; }

static u_bst_t *t; static int kt, mode, nk;
static struct { int k; int v; } m[64]; static size_t n; static char cell[64]; static int nv;
static const char *skey[] = { "a", "ab", "b", "ba", "c", "zz" };
static int ikey[] = { -2147483647, -1, 0, 1, 255, 256 };
static char pk[8];
static const void *key(int k) { return kt == 0 ? (void *)skey[k] : kt == 1 ? (void *)&ikey[k] : (void *)&pk[k]; }
static int icmp(const void *a, const void *b) { int x = *(int *)a, y = *(int *)b; return x < y ? -1 : x > y; }
static int rcmp(const void *a, const void *b) { return -icmp(a, b); }
static int ncmp; static size_t opq; static int ccmp(const void *a, const void *b) { ncmp++; return icmp(a, b); } static int ocmp(const void *a, const void *b) { return memcmp(a, b, opq); }
static int pcmp(const void *a, const void *b) { return a < b ? -3 : a > b ? 7 : 0; }
static int unkey(const void *p)
{
    for (int k = 0; k < nk; k++) if (kt == 0 ? !strcmp(p, skey[k]) : kt == 1 ? *(int *)p == ikey[k] : p == &pk[k]) return k;
    return -1;
}
static int desc;    /* reversed comparator */
static int unval(const void *v) { return v ? (int)((char *)v - cell) : -1; }

static struct { int k, v; ssize_t c; } seen[64]; static size_t ns;
static void cb(u_bst_node_t *nd, void *arg)
{
    MC_CHECK(arg == cell, "foreach-arg", "foreach passed another argument");
    MC_CHECK(ns < 64, "foreach-many", "foreach visits too many nodes");
    seen[ns].k = unkey(u_bst_node_key(nd)); seen[ns].v = unval(u_bst_node_val(nd)); seen[ns++].c = u_bst_node_count(nd);
}
static int shape(size_t lo, size_t hi)      /* height implied by the subtree counts */
{
    if (lo >= hi) return 0;
    for (size_t i = lo; i < hi; i++) if (seen[i].c == (ssize_t)(hi - lo)) { int a = shape(lo, i), b = shape(i + 1, hi); return a < 0 || b < 0 ? -1 : 1 + (a > b ? a : b); }
    return -1;
}
static int height;
static int quiet;
static void check(const char *op)
{
    if (quiet) return;
    MC_CHECK(u_bst_count(t) == (ssize_t)n, "count", "%s: count %zd, expected %zu", op, u_bst_count(t), n);
    MC_CHECK(!!u_bst_empty(t) == (n == 0), "empty", "%s: emptiness wrong with %zu elements", op, n);
    ns = 0; MC_CHECK(u_bst_foreach(t, cb, cell) == 0, "foreach", "%s: foreach failed", op);
    MC_CHECK(ns == n, "foreach-count", "%s: foreach visits %zu of %zu", op, ns, n);
    char used[64] = { 0 };
    for (size_t i = 0; i < n; i++) {
        MC_CHECK(i == 0 || (desc ? seen[i].k <= seen[i-1].k : seen[i].k >= seen[i-1].k), "order", "%s: element %zu out of order", op, i);
        size_t j = 0; while (j < n && !(m[j].k == seen[i].k && m[j].v == seen[i].v && !used[j])) j++;
        MC_CHECK(j < n, "contents", "%s: element %zu (key %d value %d) was not stored", op, i, seen[i].k, seen[i].v);
        used[j] = 1;
        u_bst_node_t *nd = u_bst_find_nth(t, i);
        MC_CHECK(nd != NULL, "nth-null", "%s: no element of rank %zu of %zu", op, i, n);
        MC_CHECK(unkey(u_bst_node_key(nd)) == seen[i].k && unval(u_bst_node_val(nd)) == seen[i].v, "nth", "%s: rank %zu is key %d, in-order has %d", op, i, unkey(u_bst_node_key(nd)), seen[i].k);
    }
    for (size_t i = n; i < n + 3; i++) MC_CHECK(u_bst_find_nth(t, i) == NULL, "nth-past", "%s: rank %zu of %zu exists", op, i, n);
    height = shape(0, n);
    MC_CHECK(height >= 0, "node-count", "%s: subtree counts are inconsistent", op);
    for (int k = 0; k < nk; k++) {
        u_bst_node_t *nd = u_bst_search(t, key(k)); size_t j = 0; while (j < n && m[j].k != k) j++;
        MC_CHECK((nd != NULL) == (j < n), "search", "%s: search for key %d %s", op, k, nd ? "finds something" : "finds nothing");
        if (nd) { for (j = 0; j < n && !(m[j].k == k && m[j].v == unval(u_bst_node_val(nd))); j++) ;
            MC_CHECK(unkey(u_bst_node_key(nd)) == k && j < n, "search-value", "%s: search for key %d gives key %d value %d", op, k, unkey(u_bst_node_key(nd)), unval(u_bst_node_val(nd))); }
    }
    uint64_t h = n; for (size_t i = 0; i < n; i++) h = mc_h64(mc_h64(h, (uint64_t)seen[i].k), (uint64_t)seen[i].c);
    mc_state(h);
}
static void push(int k)
{
    mc_op("push %d", k);
    char sk[8]; int ik; const void *kk = key(k);
    if (kt == 0) { strcpy(sk, skey[k]); kk = sk; } else if (kt == 1) { ik = ikey[k]; kk = &ik; }
    MC_CHECK(u_bst_push(t, kk, &cell[nv]) == 0, "push", "push failed");
    if (kt == 0) memset(sk, 'q', sizeof sk); else if (kt == 1) ik = 0x5A5A5A;
    m[n].k = k; m[n++].v = nv++; check("push");
}
static void del(int k)
{
    mc_op("delete %d", k);
    u_bst_node_t *f = u_bst_search(t, key(k)); int fv = f ? unval(u_bst_node_val(f)) : -1;
    int rc = u_bst_delete(t, key(k)); size_t j = 0;
    while (j < n && !(m[j].k == k && m[j].v == fv)) j++;
    if (j == n) MC_CHECK(rc != 0, "delete-absent", "deleting absent key %d succeeded", k);
    else { MC_CHECK(rc == 0, "delete", "deleting key %d failed", k); m[j] = m[--n]; }
    check("delete");
}
static void balance(void)
{
    mc_op("balance"); MC_CHECK(u_bst_balance(t) == 0, "balance", "balance failed"); check("balance");
    int min = 0; while ((1u << min) < n + 1) min++;
    MC_CHECK(height == min, "balance-height", "%zu elements rebalanced to height %d, %d is possible", n, height, min);
}
static void start(void)
{
    static const int opts[] = { U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED, U_BST_OPT_PUSH_BOTTOM };
    n = 0; nv = 0; t = NULL; desc = 0;
    MC_CHECK(u_bst_new(opts[mode], &t) == 0 && t, "create", "create failed");
    mc_note("mode %d key type %d", mode, kt);
    if (kt == 1) { u_bst_set_keyattr(t, U_BST_TYPE_OPAQUE, sizeof(int)); u_bst_set_cmp(t, icmp); }
    if (kt == 2) { u_bst_set_keyattr(t, U_BST_TYPE_PTR, 0); u_bst_set_cmp(t, pcmp); }
    if (kt == 3) { kt = 1; desc = 1; u_bst_set_keyattr(t, U_BST_TYPE_OPAQUE, sizeof(int)); u_bst_set_cmp(t, rcmp); }
    check("create");
}
static void finish(void)
{
    uint64_t h = mc_h64(n, (uint64_t)mode); for (size_t i = 0; i < n; i++) h = mc_h64(mc_h64(h, (uint64_t)seen[i].k), (uint64_t)seen[i].c);
    mc_outcome(h);
    while (n) del(m[n / 2].k);
    u_bst_free(t); t = NULL;
}
static void seqs(void)
{
    coin_on = mc_arg(); nk = 4; kt = 0;
    if (coin_on) mode = 2; else { mode = mc_choose(3); if (mode == 2) mode = 3; kt = mc_choose(4); }
    int depth = coin_on ? (mc_tier ? 6 : 5) : (mc_tier ? 7 : 5);
    if (!coin_on && kt != 0) depth--;
    start();
    for (int d = 0; d < depth; d++) { int c = mc_choose(2 * nk + 1); if (c < nk) push(c); else if (c < 2 * nk) del(c - nk); else balance(); }
    finish();
}
static void shapes(void)    /* every insertion order, then every deletion / selection */
{
    nk = 6; kt = mc_choose(2); mode = mc_choose(2); coin_on = 0; start();
    char used[8] = { 0 }; int N = mc_tier ? 6 : 5; nk = N;
    for (int i = 0; i < N; i++) { int r = mc_choose(N - i), k = 0; while (used[k] || r--) k++; used[k] = 1; push(k); }
    if (mc_choose(2)) balance();
    int d1 = mc_choose(N); del(d1);
    if (mc_choose(2)) push(mc_choose(N));
    del(mc_choose(N)); balance(); finish();
}
static void coins(void)     /* randomised insertion of an ascending run, all coins */
{
    nk = 6; kt = 0; mode = 2; coin_on = 1; start();
    int N = mc_tier ? 6 : 5; for (int i = 0; i < N; i++) push(mc_choose(2) ? i : N - 1 - i);
    coin_on = 0; del(mc_choose(N)); balance(); finish();
}
static int mfree;
static void vfree(void *p) { (void) p; mfree++; }
static void values(void)    /* value kinds, key/value free functions */
{
    int c = mc_choose(3), M = mc_choose(2); mode = M; t = NULL;
    MC_CHECK(u_bst_new(M ? U_BST_OPT_PUSH_TOP : 0, &t) == 0, "create", "create");
    mc_op("value kind %d", c);
    if (c == 0) u_bst_set_valattr(t, U_BST_TYPE_STRING, 0); else if (c == 1) u_bst_set_valattr(t, U_BST_TYPE_OPAQUE, 5); else { mfree = 0; u_bst_set_valfree(t, vfree); }
    char buf[8]; 
    for (int i = 0; i < 6; i++) { snprintf(buf, sizeof buf, "v%03d", i); MC_CHECK(u_bst_push(t, skey[(i * 5) % 6], buf) == 0, "push", "push"); }
    if (c < 2) for (int i = 0; i < 6; i++) { char e[8]; snprintf(e, sizeof e, "v%03d", i); const char *v = u_bst_node_val(u_bst_search(t, skey[(i * 5) % 6])); MC_CHECK(v && v != buf && !memcmp(v, e, 5), "value", "value of key %s is wrong", skey[(i * 5) % 6]); }
    for (int i = 0; i < 3; i++) u_bst_delete(t, skey[i]);
    if (c == 2) MC_CHECK(mfree == 3, "valfree", "3 deletions released %d values", mfree);
    u_bst_free(t);
    if (c == 2) MC_CHECK(mfree == 6, "valfree", "6 values, %d released", mfree);
    mc_outcome(5000 + c);
}
static void big(void)
{
    int how = mc_choose(6); mode = how & 1; kt = 1; nk = 0; coin_on = 0; 
    u_bst_t *b = NULL; MC_CHECK(u_bst_new(mode ? U_BST_OPT_PUSH_TOP : 0, &b) == 0, "create", "create"); u_bst_set_keyattr(b, U_BST_TYPE_OPAQUE, sizeof(int)); u_bst_set_cmp(b, icmp);
    char in[101] = { 0 }; size_t cnt = 0; mc_op("big %d", how);
    for (int i = 0; i < 100; i++) { int k = how < 2 ? i : how < 4 ? 99 - i : (i * 37) % 100; u_bst_push(b, &k, &cell[k % 64]); in[k] = 1; cnt++; 
        if (i % 10 == 9) u_bst_balance(b);
        if (i % 3 == 2) { int d = (i * 7) % 100; int rc = u_bst_delete(b, &d); MC_CHECK((rc == 0) == in[d], "delete", "delete %d returned %d", d, rc); if (in[d]) { in[d] = 0; cnt--; } }
        MC_CHECK(u_bst_count(b) == (ssize_t)cnt, "count", "count %zd expected %zu", u_bst_count(b), cnt);
        size_t r = 0; for (int x = 0; x < 100; x++) { MC_CHECK((u_bst_search(b, &x) != NULL) == in[x], "search", "search %d", x); if (in[x]) { u_bst_node_t *nd = u_bst_find_nth(b, r++); MC_CHECK(nd && *(int *)u_bst_node_key(nd) == x, "nth", "rank %zu", r - 1); } } }
    u_bst_free(b); mc_outcome(6000 + how);
}
/* keys and values that differ in one place of many, or in case only */
static void keys(void)
{
    static char k[6][420]; static const int L[] = { 1, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 400 }; int len = L[mc_choose(15)], kind = mc_choose(4), where = mc_choose(3), i, vk = mc_choose(2); u_bst_t *b = NULL; int at = where == 0 ? 0 : where == 1 ? len / 2 : len - 1;
    mode = mc_choose(2); memset(k, 0, sizeof k); for (i = 0; i < 6; i++) { memset(k[i], 'k', len); k[i][at] = kind == 1 ? "aAbBcC"[i] : kind == 2 ? (char)(0x7e + i) : kind == 3 ? "a~\x7f\x80\xc3\xff"[i] : 'a' + i; }
    mc_op("%s keys of %d characters that differ at %d", kind == 2 ? "opaque" : "string", len, at); MC_CHECK(u_bst_new(mode ? U_BST_OPT_PUSH_TOP : 0, &b) == 0, "create", "create"); opq = 0;
    if (kind == 2) { opq = len; u_bst_set_keyattr(b, U_BST_TYPE_OPAQUE, len); u_bst_set_cmp(b, ocmp); } u_bst_set_valattr(b, vk ? U_BST_TYPE_OPAQUE : U_BST_TYPE_STRING, vk ? len : 0);
    int r = mc_choose(6), first = mc_choose(6); for (i = 0; i < 6; i++) { int j = (first + i * 5) % 6; if (j == r) continue; char *kk = malloc(len + 1), *vv = malloc(len + 1); memcpy(kk, k[j], len + 1); memcpy(vv, k[5 - j], len + 1); MC_CHECK(u_bst_push(b, kk, vv) == 0, "push", "push"); free(kk); free(vv); }
    for (i = 0; i < 6; i++) { u_bst_node_t *nd = u_bst_search(b, k[i]); MC_CHECK(!nd == (i == r), "search", "key %d is %s", i, nd ? "found, but was not stored" : "not found"); if (nd) MC_CHECK(!memcmp(u_bst_node_key(nd), k[i], len + !opq) && !memcmp(u_bst_node_val(nd), k[5 - i], len + !vk), "search-value", "key %d has another key or value", i); }
    MC_CHECK(u_bst_delete(b, k[r]) != 0, "delete-absent", "deleted"); for (i = 0; i < 5; i++) { const unsigned char *x = u_bst_node_key(u_bst_find_nth(b, i)), *y = i ? u_bst_node_key(u_bst_find_nth(b, i - 1)) : NULL; MC_CHECK(!y || (opq ? memcmp(y, x, len) : strcmp((char *)y, (char *)x)) < 0, "order", "rank %d out of order", i); }
    for (i = 0; i < 6; i++) if (i != r) MC_CHECK(u_bst_delete(b, k[i]) == 0, "delete", "key %d not deleted", i); MC_CHECK(u_bst_count(b) == 0, "count", "%zd", u_bst_count(b)); u_bst_free(b); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(len, kind * 100 + where * 10 + r));
}
static void scale(void)
{
    static const int N[] = { 100, 129, 257, 300, 1000, 2500 }; static char in[2500]; int nn = N[mc_choose(6)], how = mc_choose(4), i, x; mode = mc_choose(3); coin_on = 0; u_bst_t *b = NULL; ncmp = 0; memset(in, 0, sizeof in); mc_op("%d keys in arrangement %d, mode %d", nn, how, mode);
    MC_CHECK(u_bst_new(mode == 0 ? 0 : mode == 1 ? U_BST_OPT_PUSH_TOP : U_BST_OPT_RANDOMIZED, &b) == 0, "create", "create"); u_bst_set_keyattr(b, U_BST_TYPE_OPAQUE, sizeof(int)); u_bst_set_cmp(b, ccmp); size_t cnt = 0;
    for (i = 0; i < nn; i++) { x = how == 0 ? i : how == 1 ? nn - 1 - i : how == 2 ? (int)((long)i * 1009 % nn) : (i & 1 ? nn - 1 - i / 2 : i / 2); MC_CHECK(u_bst_push(b, &x, &cell[x % 64]) == 0, "push", "push"); if (!in[x]) cnt++; in[x]++; }
    for (int round = 0; round < 3; round++) {
        size_t total = 0; for (x = 0; x < nn; x++) total += in[x]; MC_CHECK(u_bst_count(b) == (ssize_t)total, "count", "%zd, expected %zu", u_bst_count(b), total);
        size_t r = 0; for (x = 0; x < nn; x++) { u_bst_node_t *nd = u_bst_search(b, &x); MC_CHECK(!!nd == !!in[x], "search", "key %d", x); if (nd) MC_CHECK(*(int *)u_bst_node_key(nd) == x && u_bst_node_val(nd) == &cell[x % 64], "search-value", "key %d", x); for (int k = 0; k < in[x]; k++) { nd = u_bst_find_nth(b, r++); MC_CHECK(nd && *(int *)u_bst_node_key(nd) == x, "nth", "rank %zu", r - 1); } }
        MC_CHECK(!u_bst_find_nth(b, r), "nth-past", "rank %zu", r);
        if (round == 0) { int min = 0; while ((1u << min) < total + 1) min++; MC_CHECK(u_bst_balance(b) == 0, "balance", "failed"); for (x = 0; x < nn; x++) { ncmp = 0; u_bst_search(b, &x); MC_CHECK(ncmp <= min, "balance-height", "a search among %zu rebalanced elements takes %d comparisons, %d suffice", total, ncmp, min); } }
        if (round == 1) for (i = 0; i < nn / 2; i++) { x = (int)((long)i * 617 % nn); int rc = u_bst_delete(b, &x); MC_CHECK((rc == 0) == (in[x] > 0), "delete", "key %d", x); if (in[x]) in[x]--; }
    }
    u_bst_free(b); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(nn, how * 10 + mode));
}
/* every sequence of attribute settings on an empty tree, then a short history: results, contents, releases */
static int kfn, vfn, kptr, vptr; static void kf(void *p) { kfn++; if (!kptr) u_free(p); } static void vf(void *p) { vfn++; if (!vptr) u_free(p); }
static void setters(void)
{
    static const u_bst_type_t T[] = { U_BST_TYPE_STRING, U_BST_TYPE_PTR, U_BST_TYPE_OPAQUE }; int K = 0, V = 1, ku = 0, vu = 0, i, D = mc_tier ? 4 : 3; u_bst_t *b = NULL; MC_CHECK(u_bst_new(U_BST_OPT_NONE, &b) == 0, "create", "create");
    for (i = 0; i < D; i++) {
        int o = mc_choose(9); mc_op("setting %d", o); if (o == 8) break;
        if (o < 3) { MC_CHECK(u_bst_set_keyattr(b, T[o], o == 2 ? 2 : 0) == 0, "set", "key type %d refused", o); K = o; if (o == 2 && ku) ku = 2; } else if (o < 6) { MC_CHECK(u_bst_set_valattr(b, T[o - 3], o == 5 ? 3 : 0) == 0, "set", "value type %d refused", o - 3); V = o - 3; if (o == 5 && vu) vu = 2; }
        else if (o == 6) { MC_CHECK(u_bst_set_keyfree(b, kf) == 0, "set", "release function refused"); ku = 1; } else { MC_CHECK(u_bst_set_valfree(b, vf) == 0, "set", "release function refused"); vu = 1; }
        MC_CHECK(u_bst_set_keyattr(b, U_BST_TYPE_OPAQUE, 0) != 0 && u_bst_set_valattr(b, U_BST_TYPE_OPAQUE, 0) != 0 && u_bst_set_cmp(b, NULL) != 0 && u_bst_set_keyfree(b, NULL) != 0 && u_bst_set_valfree(b, NULL) != 0, "set-refused", "a setting without size or function accepted");
    }
    opq = 2; kptr = K == 1; vptr = V == 1; kfn = vfn = 0; if (K == 1) MC_CHECK(u_bst_set_cmp(b, pcmp) == 0, "set", "comparison refused"); if (K == 2) MC_CHECK(u_bst_set_cmp(b, ocmp) == 0, "set", "comparison refused");
    static char kb[3][3] = { "ax", "bx", "cx" }, vb[3][3] = { "v0", "v1", "v2" }; char t1[3], t2[3]; static const int ord[] = { 1, 0, 2 };
    for (i = 0; i < 3; i++) { int k = ord[i]; memcpy(t1, kb[k], 3); memcpy(t2, vb[k], 3); MC_CHECK(u_bst_push(b, K == 1 ? kb[k] : t1, V == 1 ? vb[k] : t2) == 0, "push", "key %d", k); memset(t1, 'z', 2); memset(t2, 'z', 2); }
    for (i = 0; i < 3; i++) { u_bst_node_t *nd = u_bst_search(b, kb[i]); MC_CHECK(nd != NULL, "search", "key %d not found", i); MC_CHECK(K == 1 ? u_bst_node_key(nd) == (void *)kb[i] : !memcmp(u_bst_node_key(nd), kb[i], 2), "key", "key %d changed", i); MC_CHECK(V == 1 ? u_bst_node_val(nd) == (void *)vb[i] : !memcmp(u_bst_node_val(nd), vb[i], 3 - !V), "value", "value %d changed", i); }
    MC_CHECK(u_bst_delete(b, kb[1]) == 0 && u_bst_count(b) == 2, "delete", "delete"); if (ku == 1) MC_CHECK(kfn == 1, "keyfree", "a deletion called the key release function %d times", kfn); if (vu == 1) MC_CHECK(vfn == 1, "valfree", "a deletion called the value release function %d times", vfn);
    u_bst_free(b); if (ku == 1) MC_CHECK(kfn == 3, "keyfree", "3 keys, %d released by the user's function", kfn); if (vu == 1) MC_CHECK(vfn == 3, "valfree", "3 values, %d released by the user's function", vfn); if (!ku) MC_CHECK(kfn == 0, "keyfree", "released with another function"); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(K * 3 + V, ku * 3 + vu));
}
/* a key pushed on top is found with one comparison */
static void top(void)
{
    int N = mc_tier ? 7 : 6, i, x, j; char used[8] = { 0 }; u_bst_t *b = NULL; MC_CHECK(u_bst_new(U_BST_OPT_PUSH_TOP, &b) == 0, "create", "create"); u_bst_set_keyattr(b, U_BST_TYPE_OPAQUE, sizeof(int)); u_bst_set_cmp(b, ccmp);
    for (i = 0; i < N; i++) { int r = mc_choose(N - i); x = 0; while (used[x] || r--) x++; used[x] = 1; mc_op("push %d", x); MC_CHECK(u_bst_push(b, &x, &cell[x]) == 0, "push", "push"); ncmp = 0; u_bst_node_t *nd = u_bst_search(b, &x); MC_CHECK(nd && u_bst_node_val(nd) == &cell[x], "search", "key %d", x); MC_CHECK(ncmp == 1, "top", "the last key pushed on top takes %d comparisons to find", ncmp);
        MC_CHECK(u_bst_node_count(nd) == i + 1, "top-count", "the top node counts %zd of %d", u_bst_node_count(nd), i + 1); size_t q = 0; for (j = 0; j < N; j++) if (used[j]) { nd = u_bst_find_nth(b, q++); MC_CHECK(nd && *(int *)u_bst_node_key(nd) == j, "nth", "rank %zu", q - 1); } mc_transitions(1); }
    u_bst_free(b);
}
static void refused(void)
{
    mc_op("refused"); u_bst_t *b = NULL;
    MC_CHECK(u_bst_new(0, NULL) != 0 && u_bst_push(NULL, "a", 0) != 0 && u_bst_delete(NULL, "a") != 0 && u_bst_search(NULL, "a") == NULL && u_bst_count(NULL) == -1 && u_bst_empty(NULL) && u_bst_find_nth(NULL, 0) == NULL && u_bst_balance(NULL) != 0, "null", "NULL accepted");
    u_bst_new(0, &b); MC_CHECK(u_bst_push(b, NULL, "x") != 0 && u_bst_count(b) == 0 && u_bst_delete(b, NULL) != 0 && u_bst_search(b, NULL) == NULL && u_bst_foreach(b, NULL, NULL) != 0, "null", "NULL accepted");
    MC_CHECK(u_bst_delete(b, "x") != 0 && u_bst_balance(b) == 0 && u_bst_search(b, "x") == NULL && u_bst_find_nth(b, 0) == NULL, "empty", "empty tree operations"); u_bst_free(b); u_bst_free(NULL);
}
/* two trees of different kinds at the same time */
static void two(void)
{
    int D = mc_tier ? 5 : 4, kx = mc_choose(4), ky = mc_choose(4), md = mc_choose(4); coin_on = 0; nk = 3; sw_begin(); SW(t); SW(kt); SW(mode); SW(n); SW(desc); SW(nv); sw_reg(m, 12 * sizeof *m); if (md == 2) md = 3;
    for (int w = 0; w < 2; w++) { sw_to(w); kt = w ? ky : kx; mode = w ? 1 : md; start(); nv = 20 * w; push(1); push(w * 2); }
    for (int d = 0; d < D; d++) { int c = mc_choose(12), w = c & 1; sw_to(w); c >>= 1; if (c < 3) push(c); else if (c < 5) del(c - 3); else balance(); sw_to(!w); check("meanwhile"); }
    sw_to(0); finish(); sw_to(1); check("the other one freed"); finish(); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
/* as used by a program: nothing is looked at but what the history itself asks for, so that no observation disturbs the next step */
static void sparse(void)
{
    int D = mc_tier ? 6 : 5; coin_on = 0; nk = 3; kt = mc_choose(2); mode = mc_choose(3); if (mode == 2) mode = 3; quiet = 0; start(); quiet = 1; if (mc_choose(2)) { push(0); push(2); push(1); push(1); }
    for (int d = 0; d < D; d++) {
        int o = mc_choose(12); u_bst_node_t *x; size_t j = 0;
        if (o < 3) push(o);
        else if (o < 5) { int k = o == 3 ? 0 : 1; mc_op("delete %d", k); u_bst_node_t *f = u_bst_search(t, key(k)); int fv = f ? unval(u_bst_node_val(f)) : -1; while (j < n && !(m[j].k == k && m[j].v == fv)) j++; MC_CHECK((u_bst_delete(t, key(k)) == 0) == (j < n), "delete", "key %d", k); if (j < n) m[j] = m[--n]; }
        else if (o < 7) { int k = o - 4; mc_op("search %d", k); x = u_bst_search(t, key(k)); int any = 0; for (j = 0; j < n; j++) any |= m[j].k == k; MC_CHECK((x != NULL) == any, "search", "key %d", k); if (x) { for (j = 0; j < n && !(m[j].k == k && m[j].v == unval(u_bst_node_val(x))); j++) ; MC_CHECK(j < n && unkey(u_bst_node_key(x)) == k, "search-value", "key %d", k); } }
        else if (o < 10) { size_t r = o == 7 ? 0 : o == 8 ? n / 2 : n; mc_op("rank %zu of %zu", r, n); x = u_bst_find_nth(t, r); MC_CHECK((x != NULL) == (r < n), "nth", "rank %zu of %zu", r, n); if (x) { int k = unkey(u_bst_node_key(x)), lo = 0, hi = 0; for (j = 0; j < n; j++) { lo += m[j].k < k; hi += m[j].k <= k; } MC_CHECK((int)r >= lo && (int)r < hi, "nth", "rank %zu of %zu is key %d", r, n, k); } }
        else if (o == 10) { mc_op("balance"); MC_CHECK(u_bst_balance(t) == 0, "balance", "balance failed"); }
        else { mc_op("count"); MC_CHECK(u_bst_count(t) == (ssize_t)n && !!u_bst_empty(t) == !n, "count", "%zd of %zu", u_bst_count(t), n); }
    }
    quiet = 0; check("end"); finish(); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live());
}
const struct mc_scn mc_scns[] = {
    { "seqs", seqs, MC_QT, 4, 0, 0, 0, "3 insertion modes, string/opaque/pointer keys and a reversed comparator, 4 keys with repeats, all insert/delete/balance sequences to depth 5 (7), everything queried after each step, then deleted one by one" },
    { "random", seqs, MC_QT, 4, 0, 0, 1, "randomised insertion: as above to depth 5 (6) with every outcome of every coin" },
    { "shapes", shapes, MC_QT, 4, 0, 0, 0, "every insertion order of 5 (6) keys, optional balance, every pair of deletions around an optional insertion" },
    { "coins", coins, MC_QT, 4, 0, 0, 0, "5 (6) randomised insertions with every coin outcome, one deletion, balance" },
    { "values", values, MC_QT, 1, 0, 0, 0, "string, opaque and pointer values, release functions" },
    { "two trees", two, MC_QT, 4, 0, 0, 0, "every history of 4 (5) operations on two trees of every pair of key kinds and modes" },
    { "sparse", sparse, MC_QT, 4, 0, 0, 0, "every history of 5 (6) of 12 edits and lookups, nothing else looked at in between" },
    { "big", big, MC_QT, 1, 0, 0, 0, "100-key histories" },
    { "keys", keys, MC_QT, 1, 0, 0, 0, "keys and values of 15 lengths (1 to 400) that differ in one place, in case only or in high bytes, string and opaque" },
    { "scale", scale, MC_QT, 1, 0, 0, 0, "100 to 2500 keys in 4 arrangements, 3 insertion modes; searches, ranks, height after rebalancing, deletions" },
    { "setters", setters, MC_QT, 1, 0, 0, 0, "every sequence of up to 3 (4) key/value types and release functions set on an empty tree, then a short history: results, contents, releases" },
    { "top", top, MC_QT, 1, 0, 0, 0, "every insertion order of 6 (7) keys pushed on top: the last one is the root" },
    { "refused", refused, MC_QT, 0, 0, 0, 0, "NULL arguments, empty tree" },
    { 0 }
};
