// Every operation sequence on the intrusive queues of <toolbox/queue.h>, explored to a fixed point of the pointer structure.
#include <stddef.h>
#include <toolbox/queue.h>
#include "mc.h"
const char *mc_property = "P34", *mc_level = "model_checking";
enum { NE = 5, NH = 2 };
struct el { LIST_ENTRY(el) l, l2; TAILQ_ENTRY(el) t, t2; CIRCLEQ_ENTRY(el) c, c2; int id; };
LIST_HEAD(lh, el); TAILQ_HEAD(th, el); CIRCLEQ_HEAD(ch, el);
static struct { struct lh l[NH], l2; struct th t[NH], t2; struct ch c[NH], c2; struct el e[NE]; } A;
static int m[NH][NE], mn[NH], m2[NE], m2n;                  /* reference: the order of element numbers in each queue */
static int where(int x, int *pos) { for (int h = 0; h < NH; h++) for (int i = 0; i < mn[h]; i++) if (m[h][i] == x) { *pos = i; return h; } return -1; }
static void mins(int h, int at, int x) { memmove(&m[h][at + 1], &m[h][at], sizeof(int) * (mn[h] - at)); m[h][at] = x; mn[h]++; }
static void mdel(int h, int at) { memmove(&m[h][at], &m[h][at + 1], sizeof(int) * (mn[h] - at - 1)); mn[h]--; }
static int flav; static const char *fname[] = { "list", "tail queue", "circular queue" };
static void see(const char *how, int h, int i, struct el *v) { MC_CHECK(i < mn[h], "extra", "%s: %s of queue %d goes on after its %d elements", fname[flav], how, h, mn[h]); MC_CHECK(v == &A.e[m[h][i]], "order", "%s: %s of queue %d meets element %d in place %d instead of %d", fname[flav], how, h, v ? (int)(v - A.e) : -1, i, m[h][i]); MC_CHECK(v->id == 1000 + m[h][i], "clobber", "element changed"); }
static void rsee(const char *how, int h, int i, struct el *v) { MC_CHECK(i < mn[h], "extra", "%s: %s of queue %d goes on after its %d elements", fname[flav], how, h, mn[h]); see(how, h, mn[h] - 1 - i, v); }
static void full(const char *how, int h, int i) { MC_CHECK(i == mn[h], "short", "%s: %s of queue %d ends after %d of %d elements", fname[flav], how, h, i, mn[h]); }
static void judge(void)
{
    struct el *v, *w; int i;
    for (int h = 0; h < NH; h++) switch (flav) {
    case 0: { struct lh *H = &A.l[h]; MC_CHECK(!LIST_EMPTY(H) == !!mn[h], "empty", "list %d with %d elements: empty = %d", h, mn[h], LIST_EMPTY(H));
        i = 0; LIST_FOREACH(v, H, l) see("walk", h, i++, v); full("walk", h, i); i = 0; LIST_FOREACH_SAFE(v, H, l, w) see("safe walk", h, i++, v); full("safe walk", h, i);
        struct el **pp = &H->lh_first; for (i = 0; i < mn[h]; i++) { v = &A.e[m[h][i]]; MC_CHECK(v->l.le_prev == pp && *pp == v, "prev", "list %d, place %d: broken back link", h, i); pp = &v->l.le_next; } break; }
    case 1: { struct th *H = &A.t[h]; MC_CHECK(!TAILQ_EMPTY(H) == !!mn[h], "empty", "tail queue %d with %d elements: empty = %d", h, mn[h], TAILQ_EMPTY(H));
        i = 0; TAILQ_FOREACH(v, H, t) see("walk", h, i++, v); full("walk", h, i); i = 0; TAILQ_FOREACH_SAFE(v, H, t, w) see("safe walk", h, i++, v); full("safe walk", h, i);
        i = 0; TAILQ_FOREACH_REVERSE(v, H, th, t) rsee("reverse walk", h, i++, v); full("reverse walk", h, i); i = 0; TAILQ_FOREACH_REVERSE_SAFE(v, H, th, t, w) rsee("safe reverse walk", h, i++, v); full("safe reverse walk", h, i);
        MC_CHECK(TAILQ_FIRST(H) == (mn[h] ? &A.e[m[h][0]] : NULL) && TAILQ_LAST(H, th) == (mn[h] ? &A.e[m[h][mn[h] - 1]] : NULL), "ends", "tail queue %d: wrong first or last", h); break; }
    default: { struct ch *H = &A.c[h]; i = 0; for (v = H->cqh_first; v != (void *)H; v = v->c.cqe_next) see("walk", h, i++, v); full("walk", h, i); i = 0; for (v = H->cqh_last; v != (void *)H; v = v->c.cqe_prev) rsee("reverse walk", h, i++, v); full("reverse walk", h, i); } }
    struct el *z; i = 0;                                    /* the queue over the other field, which nobody touches */
    if (flav == 0) LIST_FOREACH(z, &A.l2, l2) MC_CHECK(i < m2n && z == &A.e[m2[i++]], "other", "queue over the other field changed");
    else if (flav == 1) TAILQ_FOREACH(z, &A.t2, t2) MC_CHECK(i < m2n && z == &A.e[m2[i++]], "other", "queue over the other field changed");
    else for (z = A.c2.cqh_first; z != (void *)&A.c2; z = z->c2.cqe_next) MC_CHECK(i < m2n && z == &A.e[m2[i++]], "other", "queue over the other field changed");
    MC_CHECK(i == m2n, "other", "queue over the other field lost an element");
}
static uint64_t shape(void)
{
    uint64_t x = mc_h64(1, flav); const void **p = (const void **)&A; for (size_t i = 0; i < sizeof A / sizeof *p; i++) { uintptr_t v = (uintptr_t)p[i], b = (uintptr_t)&A; x = mc_h64(x, v >= b && v < b + sizeof A ? v - b + 1 : v); } return x;
}
static void init(int h) { if (flav == 0) LIST_INIT(&A.l[h]); else if (flav == 1) { TAILQ_INIT(&A.t[h]); } else { CIRCLEQ_INIT(&A.c[h]); } mn[h] = 0; }
static void poison(int x) { struct el *e = &A.e[x]; if (flav == 0) memset(&e->l, 0xa5, sizeof e->l); else if (flav == 1) memset(&e->t, 0xa5, sizeof e->t); else memset(&e->c, 0xa5, sizeof e->c); }   /* its owner reuses the memory */
static void del(int x) { int at, h = where(x, &at); struct el *e = &A.e[x]; if (flav == 0) LIST_REMOVE(e, l); else if (flav == 1) { TAILQ_REMOVE(&A.t[h], e, t); } else { CIRCLEQ_REMOVE(&A.c[h], e, c); } mdel(h, at); poison(x); }
static void run_ops(void)
{
    flav = mc_arg(); int ne = mc_tier ? NE : 4, steps = mc_tier ? 16 : 12; memset(&A, 0x5a, sizeof A); memset(mn, 0, sizeof mn); m2n = 0; for (int i = 0; i < NE; i++) A.e[i].id = 1000 + i; init(0); init(1);
    if (flav == 0) { struct lh z = LIST_HEAD_INITIALIZER(z); A.l2 = z; for (int i = 0; i < ne; i++) LIST_INSERT_HEAD(&A.l2, &A.e[i], l2); for (int i = ne; i--;) m2[m2n++] = i; } else if (flav == 1) { TAILQ_INIT(&A.t2); for (int i = 0; i < ne; i++) { TAILQ_INSERT_TAIL(&A.t2, &A.e[i], t2); m2[m2n++] = i; } } else { CIRCLEQ_INIT(&A.c2); for (int i = 0; i < ne; i++) { CIRCLEQ_INSERT_TAIL(&A.c2, &A.e[i], c2); m2[m2n++] = i; } }
    judge();
    for (int s = 0; s < steps; s++) {
        mc_state(shape()); mc_prune(shape(), steps - s);
        int x = mc_choose(ne), at, h = where(x, &at); struct el *e = &A.e[x]; mc_transitions(1);
        if (h < 0) { h = mc_choose(NH); int how = mc_choose(2 + 2 * mn[h]);
            if (how == 0) { mc_op("insert %d first in %d", x, h); if (flav == 0) LIST_INSERT_HEAD(&A.l[h], e, l); else if (flav == 1) { TAILQ_INSERT_HEAD(&A.t[h], e, t); } else { CIRCLEQ_INSERT_HEAD(&A.c[h], e, c); } mins(h, 0, x); }
            else if (how == 1) { if (flav == 0) mc_discard(); mc_op("insert %d last in %d", x, h); if (flav == 1) { TAILQ_INSERT_TAIL(&A.t[h], e, t); } else { CIRCLEQ_INSERT_TAIL(&A.c[h], e, c); } mins(h, mn[h], x); }
            else { int k = (how - 2) / 2; struct el *r = &A.e[m[h][k]]; if (how & 1) { mc_op("insert %d after %d in %d", x, m[h][k], h); if (flav == 0) LIST_INSERT_AFTER(r, e, l); else if (flav == 1) { TAILQ_INSERT_AFTER(&A.t[h], r, e, t); } else { CIRCLEQ_INSERT_AFTER(&A.c[h], r, e, c); } mins(h, k + 1, x); }
                else { mc_op("insert %d before %d in %d", x, m[h][k], h); if (flav == 0) LIST_INSERT_BEFORE(r, e, l); else if (flav == 1) TAILQ_INSERT_BEFORE(r, e, t); else { CIRCLEQ_INSERT_BEFORE(&A.c[h], r, e, c); } mins(h, k, x); } } }
        else { int how = mc_choose(5);
            if (how == 0) { mc_op("remove %d", x); del(x); }
            else if (how == 1) { int y = mc_choose(ne), yp; if (flav != 0 || where(y, &yp) >= 0) mc_discard(); mc_op("replace %d by %d", x, y); LIST_REPLACE(e, &A.e[y], l); m[h][at] = y; poison(x); }
            else if (how == 2) { mc_op("remove some of %d during a safe walk, %d included", h, x); int mask = mc_choose(1 << mn[h]); if (!(mask >> at & 1)) mc_discard(); struct el *v, *w; int i = 0, order[NE], n = mn[h]; memcpy(order, m[h], sizeof order); if (flav == 0) LIST_FOREACH_SAFE(v, &A.l[h], l, w) { MC_CHECK(i < n && v == &A.e[order[i]], "safe", "wrong element in a safe walk"); if (mask >> i & 1) { del(order[i]); } i++; } else if (flav == 1) { TAILQ_FOREACH_SAFE(v, &A.t[h], t, w) { MC_CHECK(i < n && v == &A.e[order[i]], "safe", "wrong element in a safe walk"); if (mask >> i & 1) { del(order[i]); } i++; } } else mc_discard(); MC_CHECK(i == n, "safe", "safe walk met %d of %d", i, n); }
            else if (how == 3) { mc_op("remove some of %d during a safe reverse walk, %d included", h, x); int mask = mc_choose(1 << mn[h]); if (flav != 1 || !(mask >> at & 1)) mc_discard(); struct el *v, *w; int i = 0, order[NE], n = mn[h]; memcpy(order, m[h], sizeof order); TAILQ_FOREACH_REVERSE_SAFE(v, &A.t[h], th, t, w) { MC_CHECK(i < n && v == &A.e[order[n - 1 - i]], "safe", "wrong element in a safe reverse walk"); if (mask >> (n - 1 - i) & 1) { del(order[n - 1 - i]); } i++; } MC_CHECK(i == n, "safe", "safe walk met %d of %d", i, n); }
            else { if (at) mc_discard(); mc_op("reinitialise %d", h); int n = mn[h]; init(h); for (int i = 0; i < n; i++) poison(m[h][i]); } }
        judge();
    }
}
const struct mc_scn mc_scns[] = {
    { "list", run_ops, MC_QT, 3, 0, 0, 0, "two lists over 4 (thorough 5) elements, until no new pointer structure appears" },
    { "tail queue", run_ops, MC_QT, 3, 0, 0, 1, "two tail queues, the same" },
    { "circular queue", run_ops, MC_QT, 3, 0, 0, 2, "two rings, the same" },
    { 0 },
};
