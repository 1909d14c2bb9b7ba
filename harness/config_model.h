/* Reference reader of the configuration language and reference tree (written from the
 * documentation of the config module; shares no code with it). */
#ifndef CONFIG_MODEL_H
#define CONFIG_MODEL_H
#include "mc.h"
#include <u/libu.h>
typedef struct cn { const char *k, *v; struct cn *up, *sub, *next; } cn;
static cn cm_pool[2048]; static int cm_n; static char cm_mem[1 << 18]; static size_t cm_m;
static void cm_reset(void) { cm_n = 0; cm_m = 0; }
static char *cm_dup(const char *s, size_t n) { if (cm_m + n + 1 > sizeof cm_mem) abort(); char *r = cm_mem + cm_m; memcpy(r, s, n); r[n] = 0; cm_m += n + 1; return r; }
static cn *cm_add(cn *up, const char *k, size_t kn) { if (cm_n == 2048) abort(); cn *c = &cm_pool[cm_n++]; memset(c, 0, sizeof *c); c->up = up; if (k) c->k = cm_dup(k, kn); if (up) { cn **p = &up->sub; while (*p) p = &(*p)->next; *p = c; } return c; }
static void cm_del(cn *c) { cn **p = &c->up->sub; while (*p != c) p = &(*p)->next; *p = c->next; }
static cn *cm_child(cn *c, const char *k, size_t kn, int n) { for (c = c->sub; c; c = c->next) if (strlen(c->k) == kn && !memcmp(c->k, k, kn) && n-- == 0) return c; return NULL; }
static cn *cm_path(cn *c, const char *p, int n) { const char *d; while ((d = strchr(p, '.')) != NULL) { if (!(c = cm_child(c, p, d - p, 0))) return NULL; p = d + 1; } return cm_child(c, p, strlen(p), n); }
static int cm_blank(int c) { return c == ' ' || c == '\t'; }
/* value text with references to the entry's siblings, or else the top level, replaced; NULL if malformed */
static char *cm_subst(cn *c, const char *v)
{
    static char b[1 << 16]; size_t n = 0; cn *root = c; while (root->up) root = root->up;
    while (*v) {
        if (v[0] == '$' && v[1] == '{') {
            const char *e = strchr(v, '}'); if (!e) return NULL; char name[4096]; snprintf(name, sizeof name, "%.*s", (int)(e - v - 2), v + 2);
            cn *t = c->up ? cm_path(c->up, name, 0) : NULL; if (!t) t = cm_path(root, name, 0);
            if (t && t->v) { memcpy(b + n, t->v, strlen(t->v)); n += strlen(t->v); } v = e + 1;
        } else b[n++] = *v++;
    }
    size_t i = 0; while (n && cm_blank(b[n - 1])) n--; while (i < n && cm_blank(b[i])) i++; return cm_dup(b + i, n - i);
}
static int cm_setval(cn *c, const char *v) { if (!v) { c->v = NULL; return 0; } char *t = cm_subst(c, v); if (!t) return -1; c->v = t; return 0; }
static int cm_set(cn *c, const char *k, const char *v, int ow)
{
    const char *d; cn *made = NULL, *t;
    while ((d = strchr(k, '.')) != NULL) { t = cm_child(c, k, d - k, 0); if (!t) { t = cm_add(c, k, d - k); if (!made) made = t; } c = t; k = d + 1; }
    t = ow ? cm_child(c, k, strlen(k), 0) : NULL; if (!t) { t = cm_add(c, k, strlen(k)); if (!made) made = t; }
    if (cm_setval(t, v)) { if (made) cm_del(made); return -1; } return 0;
}
static int (*cm_include)(cn *c, const char *name, int optional, int ow); /* 0 done, -1 failure */
static int cm_parse(cn *c, const char **s, int ow, int nested)
{
    char *last = "";
    while (**s) {
        const char *e = strchr(*s, '\n'); size_t n = e ? (size_t)(e - *s) : strlen(*s), k = 0; const char *l = *s; *s += n + !!e;
        char *t = malloc(n + 1); /* comment */
        for (size_t i = 0; i < n; i++) { if (l[i] == '\\' && i + 1 < n && l[i + 1] == '#') { t[k++] = '#'; i++; } else if (l[i] == '#') break; else t[k++] = l[i]; }
        char *b = t; while (k && cm_blank(b[k - 1])) k--; while (k && cm_blank(*b)) b++, k--; while (k && (b[k - 1] == '\r' || b[k - 1] == '\n')) k--;
        char *line = cm_dup(b, k), *v; free(t);
        if (!*line) continue;
        if (*line == '{' || *line == '}') {
            for (v = line + 1; cm_blank(*v); v++) ; 
            if (*v) return -1;
            if (*line == '}') return nested ? 0 : -1;
            if (!*last) return -1;
            cn *ch = ow ? cm_child(c, last, strlen(last), 0) : NULL; if (!ch) ch = cm_add(c, last, strlen(last));
            if (cm_parse(ch, s, ow, 1)) return -1;
            last = ""; continue;
        }
        for (v = line; *v && !cm_blank(*v); v++) ;
        char *key = cm_dup(line, v - line); while (cm_blank(*v)) v++; for (size_t z = strlen(v); z && cm_blank(v[z - 1]); z--) v[z - 1] = 0;
        if (!strcmp(key, "include") || !strcmp(key, "-include")) {
            if (!*v) return -1;
            cn tmp = { "", NULL, c, NULL, NULL }; char *name = cm_subst(&tmp, v); if (!name) return -1;
            last = ""; if (!cm_include || cm_include(c, name, *key == '-', ow)) return -1; continue;
        }
        if (!*v) { last = key; continue; }
        last = ""; if (cm_set(c, key, v, ow)) return -1;
    }
    return nested ? -1 : 0;
}
static int cm_load(cn *c, const char *text, int ow) { const char *s = text; return cm_parse(c, &s, ow, 0); }
static const char *cm_show(const char *s) { return s ? mc_esc(s, strlen(s) < 60 ? strlen(s) : 60) : "nothing"; }
/* compare with the real tree; include directives are not part of it; empty and missing value alike if `loose` */
static int cm_loose;
static int cm_isinc(const char *k) { return !strcmp(k, "include") || !strcmp(k, "-include"); }
static void cm_cmp(cn *m, u_config_t *c, const char *where)
{
    const char *v = u_config_get_value(c), *k = u_config_get_key(c); int i = 0, j = 0;
    if (m->k) MC_CHECK(k && !strcmp(k, m->k), "key", "%s: key \"%s\", expected \"%s\"", where, cm_show(k), cm_show(m->k));
    if (cm_loose) MC_CHECK(!strcmp(v ? v : "", m->v ? m->v : ""), "value", "%s: value of \"%s\" is \"%s\", expected \"%s\"", where, cm_show(m->k), cm_show(v), cm_show(m->v));
    else MC_CHECK(!v == !m->v && (!v || !strcmp(v, m->v)), "value", "%s: value of \"%s\" is \"%s\", expected \"%s\"", where, cm_show(m->k), cm_show(v), cm_show(m->v));
    cn *mc = m->sub; u_config_t *cc;
    for (;;) {
        while ((cc = u_config_get_child_n(c, NULL, i)) != NULL && u_config_get_key(cc) && cm_isinc(u_config_get_key(cc))) i++;
        if (!cc || !mc) break;
        cm_cmp(mc, cc, where); i++; j++; mc = mc->next;
    }
    MC_CHECK(!cc && !mc, "children", "%s: \"%s\" has %s child (number %d, \"%s\")", where, cm_show(m->k), cc ? "an extra" : "lost a", j + 1, cc ? cm_show(u_config_get_key(cc)) : cm_show(mc->k));
    MC_CHECK(!!u_config_has_children(c) == (u_config_get_child_n(c, NULL, 0) != NULL), "has-children", "%s: wrong", where);
}
static uint64_t cm_hash(cn *m, uint64_t h) { h = mc_hs(mc_hs(h, m->k), m->v); for (cn *c = m->sub; c; c = c->next) h = cm_hash(c, h); return mc_h64(h, 9); }
#endif
