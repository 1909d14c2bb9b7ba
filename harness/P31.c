// Socket creation from address texts against a model of resolver and kernel: every text, every failing step, every address order.
// MC-LDFLAGS: @net
// MC-VARIANT: byname HAVE_GETADDRINFO
#include "net_model.h"
#include "uri_model.h"
const char *mc_property = "P31", *mc_level = "model_checking";
/* ---- resolver: a host name stands for itself; the address carries its number and the place in the list */
static char hosts[8][140]; static int nhosts, ai_live, ai_bad, ai_calls, ai_sys, host_addrs = 1; static struct addrinfo *ai_given[8]; static int ai_ngiven;
static int hostno(const char *h) { for (int i = 0; i < nhosts; i++) if (!strcmp(hosts[i], h)) return i; if (nhosts == 8) abort(); snprintf(hosts[nhosts], 140, "%s", h); return nhosts++; }
#ifdef MC_VARIANT_byname
#define LITERAL4 if (*h != '*' && literal(AF_INET, h)) s->sin_addr.s_addr = inet_addr(h);
#define LITERAL6 if (literal(AF_INET6, h)) inet_pton(AF_INET6, h, &s->sin6_addr);
static int literal(int, const char *);
#else
#define LITERAL4
#define LITERAL6
#endif
static void mkaddr(struct sockaddr_storage *ss, socklen_t *l, int fam, const char *h, int i, int port)
{
    int any = !strcmp(h, "*any") || !strcmp(h, "0.0.0.0") || !strcmp(h, "::"), no = any ? 0 : 16 * (1 + hostno(h)) + i; memset(ss, 0, sizeof *ss);
    if (fam == AF_INET) { struct sockaddr_in *s = (void *)ss; s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = no; LITERAL4 *l = sizeof *s; } else { struct sockaddr_in6 *s = (void *)ss; s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr.s6_addr[15] = no; LITERAL6 *l = sizeof *s; }
}
#ifdef MC_VARIANT_byname      /* the resolver of platforms without getaddrinfo: one address for every name, numbers are read by the library */
#define ADDRS 1
static int literal(int fam, const char *h) { return fam == AF_INET ? strspn(h, "0123456789.") == strlen(h) : !!strchr(h, ':'); }
static struct hostent *byname(const char *h, int fam)
{
    static struct hostent e; static char *l[2], a[16], *al[1]; ai_calls++; if (ai_sys && mc_dev(2)) { mc_op("resolver fails"); h_errno = TRY_AGAIN; return NULL; } if (!*h || !strcmp(h, "nohost") || strchr(h, ':')) { h_errno = HOST_NOT_FOUND; return NULL; }
    struct sockaddr_storage ss; socklen_t n; mkaddr(&ss, &n, fam, h, 0, 0); e.h_name = (char *)h; e.h_aliases = al; e.h_addrtype = fam; e.h_length = fam == AF_INET ? 4 : 16; memcpy(a, fam == AF_INET ? (void *)&((struct sockaddr_in *)&ss)->sin_addr : (void *)&((struct sockaddr_in6 *)&ss)->sin6_addr, e.h_length); l[0] = a; e.h_addr_list = l; return &e;
}
#else
#define ADDRS 3
#endif
static int resolve(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r)
{
    ai_calls++; if (!h && !s) return EAI_NONAME; if (ai_sys && mc_dev(2)) { mc_op("resolver fails"); errno = EIO; return mc_choose(2) ? EAI_SYSTEM : EAI_AGAIN; }
    int fam = hi && hi->ai_family ? hi->ai_family : AF_INET, port = 0; if (s) { char *e; unsigned long v = strtoul(s, &e, 10); if (!*e) port = v & 0xffff; else if (!strcmp(s, "http")) port = 80; else return EAI_SERVICE; }
    if (h) { if (!*h || !strcmp(h, "nohost")) return EAI_NONAME; if (strchr(h, ':') && fam == AF_INET) return EAI_ADDRFAMILY; } else h = hi && hi->ai_flags & AI_PASSIVE ? "*any" : "localhost";
    int n = h[0] == '*' ? 1 : host_addrs; struct addrinfo *head = NULL, **t = &head;
    for (int i = 0; i < n; i++) { struct addrinfo *a = calloc(1, sizeof *a + sizeof(struct sockaddr_storage)); socklen_t l; a->ai_family = fam; a->ai_socktype = hi->ai_socktype; a->ai_protocol = hi->ai_protocol; a->ai_addr = (void *)(a + 1); mkaddr((void *)a->ai_addr, &l, fam, h, i, port); a->ai_addrlen = l; if (!i && hi->ai_flags & AI_CANONNAME) a->ai_canonname = strdup(h); *t = a; t = &a->ai_next; }
    ai_live++; if (ai_ngiven < 8) ai_given[ai_ngiven++] = head; *r = head; return 0;
}
static void release(struct addrinfo *a) { int ok = 0; for (int i = 0; i < ai_ngiven; i++) if (ai_given[i] == a) { ai_given[i] = NULL; ok = 1; } if (!ok) { ai_bad++; return; } ai_live--; while (a) { struct addrinfo *n = a->ai_next; free(a->ai_canonname); free(a); a = n; } }
void mc_cleanup(void) { net_on = 0; net_fault = NULL; net_connecting = NULL; net_wait = NULL; net_resolve = NULL; net_host = NULL; net_release = NULL; net_accept = NULL; mc_oom = 0; for (int i = 0; i < ai_ngiven; i++) if (ai_given[i]) release(ai_given[i]); ai_ngiven = 0; }
/* ---- environment */
static int faults, conn_mode, tries, intr, plan[16]; static us_t T;
static int fault(const char *call, int d) { if (!strcmp(call, "socket")) tries++; if (!faults) return 0; if (!strcmp(call, "socket") || !strcmp(call, "bind") || !strcmp(call, "listen") || !strcmp(call, "setsockopt") || (faults > 1 && !strcmp(call, "getsockopt"))) if (mc_dev(2)) { mc_op("%s fails", call); return !strcmp(call, "socket") ? EMFILE : EADDRINUSE; } return 0; }
static void connecting(nsock *k, int blocking, int *now, int *err, us_t *at)
{
    if (k->type == SOCK_DGRAM || !conn_mode) { if (conn_mode && mc_choose(2)) *err = ENETUNREACH; return; }
    int c = mc_choose(T > 0 ? 5 : 4); *now = c < 2; *err = c == 1 || c == 3 ? ECONNREFUSED : 0; *at = nclock + 1000; if (c == 4) *at = nclock + (1LL << 40); mc_op("connect attempt: %s", c == 0 ? "connected" : c == 1 ? "refused" : c == 2 ? "connects later" : c == 3 ? "refused later" : "never answered");
}
static int wait_for(nsock *k, us_t max) { us_t end = max < 0 ? 1LL << 60 : nclock + max; if (intr > 0) { int c = mc_choose(3); if (c) { intr--; us_t x = c == 1 ? 500 : max > 0 ? max + 1700000 : 500; nclock += x; mc_op("interrupted after %lld", x); errno = EINTR; return -1; } } if (k->at <= end) { if (nclock < k->at) nclock = k->at; n_settle(k); return 1; } nclock = end; return 0; }
#ifdef MC_VARIANT_byname
#define NAMES net_host = byname;
#else
#define NAMES
#endif
static void start(void) { net_reset(); net_fault = fault; net_connecting = connecting; net_wait = wait_for; net_resolve = resolve; NAMES net_release = release; faults = conn_mode = tries = intr = ai_live = ai_bad = ai_calls = ai_sys = ai_ngiven = nhosts = 0; host_addrs = 1; T = -1; }
static void clean(int sockets, const char *when) { MC_CHECK(!nbad, "descriptor", "%s: %s", when, nbadmsg); MC_CHECK(nsockets() == sockets, "descriptor-leak", "%s: %d sockets open instead of %d", when, nsockets(), sockets); MC_CHECK(!ai_bad, "resolver", "%s: a list the resolver did not give was released", when); }
static void memclean(const char *when) { MC_CHECK(ai_live == 0, "leak", "%s: %d resolver lists left", when, ai_live); MC_CHECK(mc_live() == 0, "leak", "%s: %zu blocks left", when, mc_live()); }
/* ---- what a text asks for */
typedef struct { int ok, fuzzy, fam, type, proto, port; char host[140]; char path[140]; } want;
static const struct { const char *n; int fam, type, proto; } schemes[] = { { "tcp", AF_INET, SOCK_STREAM, IPPROTO_TCP }, { "tcp4", AF_INET, SOCK_STREAM, IPPROTO_TCP }, { "tcp6", AF_INET6, SOCK_STREAM, IPPROTO_TCP }, { "udp", AF_INET, SOCK_DGRAM, IPPROTO_UDP }, { "udp4", AF_INET, SOCK_DGRAM, IPPROTO_UDP }, { "udp6", AF_INET6, SOCK_DGRAM, IPPROTO_UDP }, { "sctp", AF_INET, SOCK_STREAM, IPPROTO_SCTP }, { "sctp4", AF_INET, SOCK_STREAM, IPPROTO_SCTP }, { "sctp6", AF_INET6, SOCK_STREAM, IPPROTO_SCTP }, { "unix", AF_UNIX, SOCK_STREAM, 0 } };
static want ask(const char *t, int mode)
{
    want w; memset(&w, 0, sizeof w); struct um m; if (!um_parse(t, &m) || m.maxn >= U_TOKEN_SZ - 1) { w.fuzzy = m.maxn >= U_TOKEN_SZ - 1 && m.maxn < U_TOKEN_SZ; return w; } w.fuzzy = m.fuzzy;
    for (unsigned i = 0; i < sizeof schemes / sizeof *schemes; i++) if ((int)strlen(schemes[i].n) == m.n[CS] && !strncasecmp(schemes[i].n, m.b[CS], m.n[CS])) { w.fam = schemes[i].fam; w.type = schemes[i].type; w.proto = schemes[i].proto; w.ok = 1; } if (!w.ok) return w; w.ok = 0;
    if (w.fam == AF_UNIX) { snprintf(w.path, sizeof w.path, "%.*s", m.n[CPATH], m.b[CPATH]); w.ok = m.n[CPATH] > 0 && m.n[CPATH] < (int)sizeof ((struct sockaddr_un *)0)->sun_path; return w; }
    if (!m.n[CH] || !m.n[CPORT]) return w; snprintf(w.host, sizeof w.host, "%.*s", m.n[CH], m.b[CH]); char p[140]; snprintf(p, sizeof p, "%.*s", m.n[CPORT], m.b[CPORT]);
    if (!strcmp(p, "*")) w.port = 0; else if (strspn(p, "0123456789") == strlen(p)) { const char *z = p; while (*z == '0' && z[1]) z++; if (strlen(z) > 5 || atoi(z) > 65535) return w; w.port = atoi(z); if (!w.port) w.fuzzy = 1; } else if (!strcmp(p, "http")) w.port = 80; else return w;
#ifdef MC_VARIANT_byname
    if (!strcmp(w.host, "*")) strcpy(w.host, "*any"); else { struct in6_addr x; if (!strcmp(w.host, "nohost") || (strchr(w.host, ':') && (w.fam == AF_INET || inet_pton(AF_INET6, w.host, &x) != 1)) || (w.fam == AF_INET && literal(AF_INET, w.host) && inet_addr(w.host) == INADDR_NONE)) return w; }
    w.ok = 1; return w;
#endif
    if (!strcmp(w.host, "*")) strcpy(w.host, mode == U_NET_SSOCK ? "*any" : "localhost"); else if (!strcmp(w.host, "nohost") || (strchr(w.host, ':') && w.fam == AF_INET)) return w;
    w.ok = 1; return w;
}
static void judge_sock(int sd, const want *w, int mode, int opts, int idx, const char *t)
{
    nsock *k = nget(sd); MC_CHECK(k, "result", "%s: %d is not an open socket", mc_escs(t), sd); struct sockaddr_storage ss; socklen_t l;
    int type = w->proto == IPPROTO_SCTP && opts & U_NET_OPT_SCTP_ONE_TO_MANY ? SOCK_SEQPACKET : w->type; MC_CHECK(k->fam == w->fam && k->type == type && k->proto == w->proto, "kind", "%s: socket of family %d type %d protocol %d", mc_escs(t), k->fam, k->type, k->proto);
    int dont = mode == U_NET_CSOCK && opts & U_NET_OPT_DONT_CONNECT; struct sockaddr_storage *g = mode == U_NET_SSOCK ? &k->b : &k->c; int gl = mode == U_NET_SSOCK ? k->bl : k->cl;
    MC_CHECK(k->bound == (mode == U_NET_SSOCK) && (k->cs == CS_DONE) == (mode == U_NET_CSOCK && !dont), "state", "%s: bound %d connected %d", mc_escs(t), k->bound, k->cs); MC_CHECK(k->listening == (mode == U_NET_SSOCK && type != SOCK_DGRAM), "listen", "%s: listening %d", mc_escs(t), k->listening); MC_CHECK(!(k->fl & O_NONBLOCK), "state", "non-blocking"); if (k->listening) MC_CHECK(k->backlog == U_NET_BACKLOG, "listen", "%s: backlog %d", mc_escs(t), k->backlog);
    MC_CHECK(!!k->opt_reuse == (mode == U_NET_SSOCK && w->fam != AF_UNIX && !(opts & U_NET_OPT_DONT_REUSE_ADDR)), "option", "%s: address reuse %d", mc_escs(t), k->opt_reuse); MC_CHECK(!!k->opt_bcast == (mode == U_NET_CSOCK && type == SOCK_DGRAM && opts & U_NET_OPT_DGRAM_BROADCAST), "option", "%s: broadcast %d", mc_escs(t), k->opt_bcast);
    if (dont) return; if (w->fam == AF_UNIX) { struct sockaddr_un *u = (void *)g; MC_CHECK(u->sun_family == AF_UNIX && gl > (int)(offsetof(struct sockaddr_un, sun_path) + strlen(w->path)) && gl <= (int)sizeof *u && !strcmp(u->sun_path, w->path), "address", "%s: path \"%s\"", mc_escs(t), mc_escs(u->sun_path)); return; }
    mkaddr(&ss, &l, w->fam, w->host, idx, w->port); MC_CHECK((int)l == gl && !memcmp(&ss, g, l), "address", "%s: not at place %d of host %s port %d (port %d)", mc_escs(t), idx, w->host, w->port, ntohs(((struct sockaddr_in *)g)->sin_port));
}
static void one(const char *t, int mode, int opts, int two)
{
    if (opts & 1) nbase = 0;
    want w = ask(t, mode); int sd; mc_op("%s%s %s options %x", two ? "address then socket, " : "", mode == U_NET_SSOCK ? "server" : "client", mc_escs(t), opts); mc_transitions(1); mc_state(mc_hs(mode + 2 * opts, t)); u_net_addr_t *a = NULL;
    if (two) { int rc = u_net_uri2addr(t, mode, &a); if (rc) sd = -1; else { for (int b = 1; b && b <= opts; b <<= 1) if (opts & b) u_net_addr_add_opts(a, b); sd = u_net_sd_by_addr(a); } clean(sd >= 0, "address"); } else sd = u_net_sd(t, mode, opts);
    if (!w.fuzzy) MC_CHECK((sd >= 0) == w.ok, "verdict", "%s \"%s\" %s", mode == U_NET_SSOCK ? "server" : "client", mc_escs(t), sd >= 0 ? "accepted" : "refused"); if (sd < 0) MC_CHECK(sd == -1, "result", "result %d", sd);
    if (sd >= 0) { MC_CHECK(w.ok, "verdict", "\"%s\" accepted", mc_escs(t)); judge_sock(sd, &w, mode, opts, 0, t); if (two) MC_CHECK(u_net_addr_can_accept(a) == (mode == U_NET_SSOCK && w.type == SOCK_STREAM), "accept", "can accept: %d", u_net_addr_can_accept(a)); }
    clean(sd >= 0, t); if (a) u_net_addr_free(a); clean(sd >= 0, "after release"); memclean(mc_escs(t)); mc_outcome(w.ok + 2 * w.fuzzy);
}
static void run_texts(void) { start(); static const char *pre[] = { "tcp://", "tcp6://", "unix:", "tcp:", "udp://h:" }; static const char al[] = "h:*1/[]@0"; char t[64]; int p = mc_choose(5), n = mc_choose((mc_tier ? 8 : 7) - (ADDRS == 1)), l = strlen(pre[p]); strcpy(t, pre[p]); for (int i = 0; i < n; i++) t[l + i] = al[mc_choose(9)]; t[l + n] = 0; one(t, mc_choose(2), 0, 0); }
static void run_grid(void)
{
    start(); static const char *sc[] = { "tcp", "tcp4", "tcp6", "udp", "udp4", "udp6", "sctp", "sctp4", "sctp6", "unix", "TCP6", "http", "tcp5", "t", "UNIX", "uDp", "Sctp6", "unix4", "unixx" }, *ho[] = { "h", "*", "[::1]", "1.2.3.4", "nohost", "", "[*]", "user@h", "u:p@h" }, *po[] = { ":80", ":*", ":http", ":65535", ":65536", ":", "", ":0080", ":99999", ":4294967376", ":18446744073709551696", ":ftpx", ":1" }, *su[] = { "", "/", "/p/q", "/tmp/s?x#y", "?q" };
    static const int op[] = { 0, U_NET_OPT_DONT_REUSE_ADDR, U_NET_OPT_DONT_CONNECT, U_NET_OPT_DGRAM_BROADCAST, U_NET_OPT_DONT_REUSE_ADDR | U_NET_OPT_DONT_CONNECT, U_NET_OPT_SCTP_ONE_TO_MANY }; char t[200]; int s = mc_choose(19), o = mc_choose(6); if (o == 5 && strncmp(sc[s], "sctp", 4)) mc_discard();
    snprintf(t, sizeof t, "%s://%s%s%s", sc[s], ho[mc_choose(9)], po[mc_choose(13)], su[mc_choose(5)]); one(t, mc_choose(2), op[o], mc_choose(2));
}
/* every scheme, and every word within one letter or letter case of one */
static void run_words(void)
{
    start(); static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789+-.TCPU"; char n[16], t[64]; int s = mc_choose(10), mode = mc_choose(2), k = mc_choose(4), two = mc_choose(2), rest = mc_choose(2); strcpy(n, schemes[s].n); int l = (int)strlen(n);
    if (k == 0) { int m = mc_choose(1 << l); for (int i = 0; i < l; i++) if (m >> i & 1) n[i] = (char)toupper((unsigned char)n[i]); } else { int p = mc_choose(l + (k == 2)); if (k == 1) n[p] = al[mc_choose(sizeof al - 1)]; else if (k == 2) { memmove(n + p + 1, n + p, (size_t)(l - p) + 1); n[p] = al[mc_choose(sizeof al - 1)]; } else memmove(n + p, n + p + 1, (size_t)(l - p)); }
    snprintf(t, sizeof t, "%s://%s", n, rest ? "h:80/s" : s == 9 ? "/s" : "1.2.3.4:9"); one(t, mode, 0, two);
}
static void run_long(void) { start(); char t[400]; int k = mc_choose(3), n = mc_choose(170), h; strcpy(t, k == 0 ? "unix://" : "tcp://"); h = strlen(t); memset(t + h, k == 0 ? '/' : k == 1 ? 'h' : '0', n); if (k == 0 && n) memset(t + h + 1, 'x', n - 1); t[h + n] = 0; if (k == 1) strcat(t, ":80"); if (k == 2) { memmove(t + h + 2, t + h, n + 1); memcpy(t + h, "h:", 2); strcat(t, "7"); } one(t, mc_choose(2), 0, mc_choose(2)); }
/* several addresses, every way each attempt may end, the address object used again afterwards */
static void run_attempts(void)
{
    start(); host_addrs = mc_choose(ADDRS) + 1; int mode = mc_choose(2), ty = mc_choose(mc_arg() ? 2 : 3), opts = mc_choose(2) ? U_NET_OPT_DGRAM_BROADCAST : 0, once = mc_choose(2); if (once) nbase = 0; const char *t = ty == 0 ? "tcp://h:80" : ty == 1 ? "udp6://h:80" : "unix:///s"; if (ty != 1 && opts) mc_discard(); if (mode == U_NET_CSOCK && mc_choose(2)) T = 2000000; if (mode == U_NET_SSOCK && mc_arg()) mc_discard();
    want w = ask(t, mode); int n = ty == 2 ? 1 : host_addrs; struct timeval tv = { T / 1000000, 0 }, *tp = T > 0 ? &tv : NULL; conn_mode = 1; faults = mc_arg() ? 0 : 2; intr = mc_arg() ? (mc_tier ? 3 : 2) : 0; mc_op("%s %s, %d addresses, %s", mode == U_NET_SSOCK ? "server" : "client", t, n, T > 0 ? "2 s timeout" : "no timeout");
    u_net_addr_t *a = NULL; int sd; if (!once) { MC_CHECK(u_net_uri2addr(t, mode, &a) == 0, "address", "refused"); u_net_addr_set_opts(a, opts); sd = u_net_sd_by_addr_ex(a, tp); } else sd = u_net_sd_ex(t, mode, opts, tp); mc_transitions(tries);
    /* which attempt may succeed?  judged from what the kernel saw */
    int made = 0; for (int i = 0; i < ND; i++) made += !!nk[i].used; MC_CHECK(tries <= n, "attempts", "%d attempts for %d addresses", tries, n);
    if (sd >= 0) { judge_sock(sd, &w, mode, opts, tries - 1, t); clean(1, "success"); for (int i = 0; i < ND; i++) if (nk[i].used == 2) MC_CHECK(nk[i].cs != CS_DONE || 1, "x", "x"); }
    else { MC_CHECK(sd == -1, "result", "result %d", sd); MC_CHECK(tries == n, "attempts", "gave up after %d of %d addresses", tries, n); clean(0, "failure"); }
    if (T > 0) { int at = 0; us_t last = -1; (void)at; for (int i = 0; i < nwaits && i < 64; i++) if (i == 0 || nwait_from[i] != last) last = nwait_from[i]; if (!mc_arg()) for (int i = 0; i < nwaits && i < 64; i++) MC_CHECK(nwait_asked[i] >= T - 2000, "timeout", "attempt allowed only %lld us", nwait_asked[i]); }
    if (a) { int before = sd >= 0; faults = conn_mode = intr = 0; T = -1; tries = 0; int sd2 = u_net_sd_by_addr(a); MC_CHECK(sd2 >= 0, "reuse", "the address cannot be used again"); judge_sock(sd2, &w, mode, opts, 0, t); clean(before + 1, "second use"); u_net_addr_free(a); clean(before + 1, "release"); }
    memclean("attempts"); mc_state(mc_h64(mc_h64(made, tries * 8 + ty), (sd >= 0) * 2 + mode)); mc_outcome((sd >= 0) * 8 + tries);
}
/* every attempt's own time: the first address never answers */
static int first_at[8], nfirst; static us_t dead_left; static void dead(nsock *k, int b, int *now, int *err, us_t *at) { first_at[nfirst++] = nwaits; *now = 0; *at = nfirst <= (int)dead_left ? nclock + (1LL << 40) : nclock + 100; }
static void run_deadlines(void)
{
    start(); net_connecting = dead; nfirst = 0; host_addrs = 3; dead_left = mc_choose(4); T = mc_choose(2) ? 2000000 : 1500000; intr = mc_tier ? 4 : 3; struct timeval tv = { T / 1000000, T % 1000000 }; mc_op("%lld silent addresses of 3, timeout %lld", dead_left, T); int sd = u_net_sd_ex("tcp://h:80", U_NET_CSOCK, 0, &tv); mc_transitions(nwaits); mc_state(mc_h64(dead_left, nwaits)); want w = ask("tcp://h:80", U_NET_CSOCK);
    MC_CHECK(nfirst == (sd >= 0 ? dead_left + 1 : 3) || intr < (mc_tier ? 4 : 3), "attempts", "%d attempts", nfirst); if (sd >= 0) judge_sock(sd, &w, U_NET_CSOCK, 0, nfirst - 1, "tcp://h:80"); else MC_CHECK(sd == -1 && nfirst == 3, "attempts", "gave up after %d of 3 addresses", nfirst); clean(sd >= 0, "deadlines"); memclean("deadlines");
    for (int i = 0; i < nfirst; i++) MC_CHECK(first_at[i] < nwaits && nwait_asked[first_at[i]] >= T - 2000, "timeout", "attempt %d allowed only %lld us", i, first_at[i] < nwaits ? nwait_asked[first_at[i]] : -1);
}
static void run_oom(void)
{
    start(); static const char *ts[] = { "tcp://h:80", "unix:///s", "udp6://[::1]:http", "bad", "tcp://nohost:1" }; const char *t = ts[mc_choose(5)]; int mode = mc_choose(2), once = mc_choose(2); ai_sys = 1; faults = mc_tier ? 2 : 1; want w = ask(t, mode); mc_op("%s, one failing step", t); mc_oom = 1; int h0 = mc_oom_hits; u_net_addr_t *a = NULL; int sd = -1, rc = 0; (void)h0;
    if (once) sd = u_net_sd(t, mode, 0); else { rc = u_net_uri2addr(t, mode, &a); if (rc == 0) sd = u_net_sd_by_addr(a); else MC_CHECK(!a, "address", "failure, but an address was returned"); } mc_oom = 0; faults = 0; mc_transitions(1); mc_state(mc_hs(mode * 2 + once, t));
    if (sd >= 0) { MC_CHECK(w.ok, "verdict", "accepted"); judge_sock(sd, &w, mode, 0, 0, t); } else MC_CHECK(sd == -1, "result", "%d", sd); clean(sd >= 0, "failing step"); if (a) { int sd2 = u_net_sd_by_addr(a); MC_CHECK(sd2 >= 0, "reuse", "the address cannot be used afterwards"); judge_sock(sd2, &w, mode, 0, 0, t); u_net_addr_free(a); } memclean("failing step");
}
/* the options of one address object set and added to, step by step, sockets made in between */
static void run_options(void)
{
    start(); static const char *ts[] = { "tcp://h:80", "udp://h:80", "unix:///s", "sctp://h:80", "sctp6://[::1]:9" }; static const int bits[] = { U_NET_OPT_DONT_REUSE_ADDR, U_NET_OPT_DONT_CONNECT, U_NET_OPT_DGRAM_BROADCAST, U_NET_OPT_SCTP_ONE_TO_MANY };
    const char *t = ts[mc_choose(5)]; int mode = mc_choose(2), sctp = t[0] == 's', cur = 0, n = 1 + mc_choose(mc_tier ? 3 : 2), open = 0; want w = ask(t, mode); u_net_addr_t *a = NULL; MC_CHECK(u_net_uri2addr(t, mode, &a) == 0 && a, "address", "refused");
    for (int i = 0; i < n; i++) { int add = mc_choose(2), set = mc_choose(sctp ? 16 : 8), v = 0; for (int b = 0; b < 4; b++) if (set >> b & 1) v |= bits[b]; if (add) { u_net_addr_add_opts(a, v); cur |= v; } else { u_net_addr_set_opts(a, v); cur = v; } mc_op("%s %s options %x", t, add ? "add" : "set", v); mc_transitions(1); if (i < n - 1 && !mc_choose(2)) continue; int sd = u_net_sd_by_addr(a); mc_state(mc_h64(mc_hs(mode, t), mc_h64(cur, open))); MC_CHECK(sd >= 0, "verdict", "%s options %x refused", t, cur); judge_sock(sd, &w, mode, cur, 0, t); clean(++open, "options"); }
    u_net_addr_free(a); clean(open, "after release"); memclean("options"); mc_outcome(cur);
}
/* SCTP notifications: exactly those asked for */
static void run_events(void)
{
    start(); static const char *ts[] = { "sctp://h:80", "sctp6://[::1]:9" }; const char *t = ts[mc_choose(2)]; int mode = mc_choose(2), once = mc_choose(2), many = mc_choose(2), e = mc_choose(512), o = e << 3 | (many ? U_NET_OPT_SCTP_ONE_TO_MANY : 0) | (mc_choose(2) ? U_NET_OPT_DONT_CONNECT : 0), sd; want w = ask(t, mode); u_net_addr_t *a = NULL; mc_op("%s %s options %x", mode == U_NET_SSOCK ? "server" : "client", t, o); mc_transitions(1); mc_state(mc_h64(mc_hs(mode, t), o));
    if (once) sd = u_net_sd(t, mode, o); else { MC_CHECK(u_net_uri2addr(t, mode, &a) == 0, "address", "refused"); u_net_addr_set_opts(a, o); sd = u_net_sd_by_addr(a); } MC_CHECK(sd >= 0, "verdict", "%s options %x refused", t, o); judge_sock(sd, &w, mode, o, 0, t); nsock *k = nget(sd);
    if (many) MC_CHECK(k->evl >= 9, "events", "no notification is set up"); if (many || k->evl) for (int i = 0; i < k->evl; i++) MC_CHECK(!!k->ev[i] == (i < 9 && e >> i & 1), "events", "options %x: notification %d is %s", o, i, k->ev[i] ? "on" : "off"); clean(1, "events"); if (a) u_net_addr_free(a); memclean("events");
}
static int acc_n, acc_plan[6]; static int accepting(int d, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; int r = acc_plan[acc_n++]; if (r == 0) return 77 + d - NF0; errno = r == 1 ? EINTR : r == 2 ? ECONNABORTED : EMFILE; return -1; }
static void run_accept(void)
{
    start(); net_accept = accepting; acc_n = 0; int i = 0; for (; i < 5; i++) { acc_plan[i] = i == 4 ? 0 : mc_choose(4); if (acc_plan[i] != 1) break; } if (i > 4) i = 4; int d = net_new(AF_INET, SOCK_STREAM, 0); struct sockaddr_storage ss; socklen_t l = sizeof ss; mc_op("accept interrupted %d times, then %d", i, acc_plan[i]); mc_state(i * 4 + acc_plan[i]); mc_transitions(acc_n);
    errno = 0; int rc = u_accept(d, (void *)&ss, &l), e = errno; MC_CHECK(rc == (acc_plan[i] == 0 ? 77 : -1) && acc_n == i + 1, "accept", "result %d after %d calls", rc, acc_n); if (rc < 0) MC_CHECK(e == (acc_plan[i] == 2 ? ECONNABORTED : EMFILE), "accept", "error %d", e); clean(1, "accept");
}
static void run_args(void) { start(); int w = mc_choose(5); u_net_addr_t *a = NULL; int rc = 0; mc_op("bad argument %d", w); mc_state(w); switch (w) { case 0: rc = u_net_sd(NULL, U_NET_SSOCK, 0); break; case 1: rc = u_net_sd("tcp://h:80", 7, 0); break; case 2: rc = u_net_sd_by_addr(NULL); break; case 3: rc = u_net_uri2addr(NULL, U_NET_CSOCK, &a) ? -1 : 0; break; default: rc = u_net_uri2addr("tcp://h:80", 9, &a) ? -1 : 0; } MC_CHECK(rc == -1 && !a, "argument", "result %d", rc); clean(0, "argument"); memclean("argument"); }
const struct mc_scn mc_scns[] = {
    { "every address text", run_texts, MC_QT, 4, 0, 0, 0, "five prefixes followed by 0 to 6 (thorough 7) characters of a nine letter alphabet, client and server" },
    { "schemes, hosts, ports, options", run_grid, MC_QT, 3, 0, 0, 0, "19 schemes x 9 hosts x 13 ports x 5 tails x 6 options x client/server x one-shot or reusable address" },
    { "scheme words", run_words, MC_QT, 2, 0, 0, 0, "every scheme in every mix of letter cases, and every word one letter away from one, client and server" },
    { "lengths", run_long, MC_QT, 2, 0, 0, 0, "socket paths, hosts and ports of 0 to 169 characters" },
    { "attempts with failing calls", run_attempts, MC_QT, 4, 2, 4, 0, "1 to 3 addresses, every connect outcome, up to 2 (thorough 4) failures of socket, setsockopt, bind, listen, getsockopt; the address used again" },
    { "attempts with interruptions", run_attempts, MC_QT, 4, 0, 0, 1, "the same without failures, up to 2 (thorough 3) interruptions" },
#if ADDRS > 1
    { "time for every address", run_deadlines, MC_QT, 3, 0, 0, 0, "three addresses, the first ones silent, up to 3 (thorough 4) interruptions" },
#endif
    { "failing allocations, resolver and calls", run_oom, MC_QT, 2, 1, 2, 0, "one (thorough two) failures at every allocation, resolver call and system call" },
    { "options in steps", run_options, MC_QT, 3, 0, 0, 0, "five kinds of address, 1 to 2 (thorough 3) changes of the options with every subset, sockets made in between" },
    { "notifications", run_events, MC_QT, 3, 0, 0, 0, "every subset of the nine SCTP notifications, client and server, one-shot or reusable address, with and without the one-to-many option" },
    { "accepting", run_accept, MC_QT, 1, 0, 0, 0, "up to four interruptions, then success or an error" },
    { "bad arguments", run_args, MC_QT, 1, 0, 0, 0, "" },
    { 0 },
};
