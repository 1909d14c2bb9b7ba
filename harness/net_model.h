/* A model of the socket calls behind the net module: sockets are descriptors from 820 up, connections complete
 * on a modelled clock, and every environment decision is a branching point of the exploration.
 * MC-LDFLAGS: @net expands to the --wrap list. */
#ifndef NET_MODEL_H
#define NET_MODEL_H
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <time.h>
#include <unistd.h>
typedef long long us_t;
enum { ND = 12, NF0 = 820 };
enum { CS_IDLE, CS_GOING, CS_DONE, CS_BAD };
typedef struct { int used, fam, type, proto, fl, bound, listening, cs, err, seen; us_t at; struct sockaddr_storage b, c; socklen_t bl, cl; int opt_reuse, opt_bcast, nopts, backlog, evl; unsigned char ev[32]; } nsock;
static nsock nk[ND]; static int nopen, nclosed, nbad; static char nbadmsg[160]; static us_t nclock, nclock0; static int nbase = NF0;
static void netbad(const char *m, int d) { if (!nbad++) snprintf(nbadmsg, sizeof nbadmsg, "%s (descriptor %d)", m, d); }
static int net_on, nwaits; static us_t ntick, nwait_asked[64], nwait_from[64];    /* ntick: what every look at the clock costs */
static nsock *nget(int d) { return d >= nbase && d < nbase + ND && nk[d - nbase].used == 1 ? &nk[d - nbase] : NULL; }
static int nmine(int d) { return d >= nbase && d < nbase + ND; }
static void net_reset(void) { memset(nk, 0, sizeof nk); nopen = nclosed = nbad = 0; nclock = nclock0 = 1700000000LL * 1000000 + 999990; nbase = NF0; nwaits = 0; ntick = 0; net_on = 1; }
static int nsockets(void) { int n = 0; for (int i = 0; i < ND; i++) n += nk[i].used == 1; return n; }
/* hooks of the harness: each returns 0 to go on or an errno */
static int (*net_fault)(const char *call, int d);
static int nf(const char *c, int d) { int e = net_fault ? net_fault(c, d) : 0; if (e) errno = e; return e; }
static void (*net_connecting)(nsock *k, int blocking, int *now, int *err, us_t *at);     /* *now: 1 result known at once, 0 in progress */
static int (*net_wait)(nsock *k, us_t max);                                          /* a wait of at most max us (-1: for ever): 1 ready, 0 timed out, -1 with errno */
static int net_new(int fam, int type, int proto) { for (int i = 0; i < ND; i++) if (!nk[i].used) { memset(&nk[i], 0, sizeof nk[i]); nk[i].used = 1; nk[i].fam = fam; nk[i].type = type; nk[i].proto = proto; nk[i].fl = O_RDWR; nopen++; return nbase + i; } abort(); }
int __wrap_socket(int fam, int type, int proto) { if (nf("socket", -1)) return -1; int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC), d = net_new(fam, t, proto); if (type & SOCK_NONBLOCK) nk[d - nbase].fl |= O_NONBLOCK; return d; }
extern int __real_close(int); int __wrap_close(int d) { if (!nmine(d)) return __real_close(d); nsock *k = nget(d); if (!k) { netbad("closed twice", d); errno = EBADF; return -1; } k->used = 2; nclosed++; if (nf("close", d)) return -1; return 0; }
static int n_settle(nsock *k) { if (k->cs == CS_GOING && nclock >= k->at) k->cs = k->err ? CS_BAD : CS_DONE; return k->cs; }
int __wrap_connect(int d, const struct sockaddr *a, socklen_t l)
{
    nsock *k = nget(d); if (!k) { netbad("connect", d); errno = EBADF; return -1; } n_settle(k);
    if (k->cs == CS_GOING) { errno = EALREADY; return -1; } if (k->cs == CS_DONE) { if (!k->seen) { k->seen = 1; return 0; } errno = EISCONN; return -1; } if (k->cs == CS_BAD && !k->seen) { k->seen = 1; errno = k->err; return -1; }
    if (l > sizeof k->c) abort(); memcpy(&k->c, a, l); k->cl = l; int now = 1, err = 0; us_t at = nclock; k->seen = 0;
    if (net_connecting) net_connecting(k, !(k->fl & O_NONBLOCK), &now, &err, &at);
    if (now) { k->cs = err ? CS_BAD : CS_DONE; k->err = err; k->seen = 1; if (err) { errno = err; return -1; } return 0; }
    k->cs = CS_GOING; k->err = err; k->at = at; errno = k->fl & O_NONBLOCK ? EINPROGRESS : EINTR; return -1;
}
int __wrap_bind(int d, const struct sockaddr *a, socklen_t l) { nsock *k = nget(d); if (!k) { netbad("bind", d); errno = EBADF; return -1; } if (nf("bind", d)) return -1; if (k->bound || l > sizeof k->b) { netbad("bound twice", d); errno = EINVAL; return -1; } k->bound = 1; memcpy(&k->b, a, l); k->bl = l; return 0; }
int __wrap_listen(int d, int bl) { nsock *k = nget(d); if (!k) { netbad("listen", d); errno = EBADF; return -1; } if (nf("listen", d)) return -1; if (!k->bound) netbad("listen before bind", d); if (bl <= 0) netbad("empty backlog", d); k->listening++; k->backlog = bl; return 0; }
int __wrap_setsockopt(int d, int lev, int nm, const void *v, socklen_t l) { nsock *k = nget(d); if (!k) { netbad("setsockopt", d); errno = EBADF; return -1; } if (nf("setsockopt", d)) return -1; k->nopts++; if (lev == SOL_SOCKET && l == sizeof(int)) { if (nm == SO_REUSEADDR) k->opt_reuse = *(int *)v; if (nm == SO_BROADCAST) k->opt_bcast = *(int *)v; if (k->bound && nm == SO_REUSEADDR) netbad("address reuse set after bind", d); } if (lev == 132 && nm == 11) { k->evl = l < 32 ? l : 32; memcpy(k->ev, v, k->evl); } return 0; }
int __wrap_getsockopt(int d, int lev, int nm, void *v, socklen_t *l) { nsock *k = nget(d); if (!k) { netbad("getsockopt", d); errno = EBADF; return -1; } if (nf("getsockopt", d)) return -1; if (lev == SOL_SOCKET && nm == SO_ERROR && *l >= sizeof(int)) { n_settle(k); int e = k->cs == CS_BAD && !k->seen ? k->err : 0; if (k->cs != CS_GOING) k->seen = 1; *(int *)v = e; *l = sizeof(int); return 0; } memset(v, 0, *l); return 0; }
int __wrap_getpeername(int d, struct sockaddr *a, socklen_t *l) { nsock *k = nget(d); if (!k) { errno = EBADF; return -1; } n_settle(k); if (k->cs != CS_DONE) { errno = ENOTCONN; return -1; } memcpy(a, &k->c, *l < k->cl ? *l : k->cl); *l = k->cl; return 0; }
int __wrap_getsockname(int d, struct sockaddr *a, socklen_t *l) { nsock *k = nget(d); if (!k) { errno = EBADF; return -1; } if (!k->bl) { k->b.ss_family = k->fam; k->bl = sizeof(struct sockaddr_in); } memcpy(a, &k->b, *l < k->bl ? *l : k->bl); *l = k->bl; return 0; }
extern int __real_fcntl(int, int, ...); int __wrap_fcntl(int d, int c, ...) { va_list ap; va_start(ap, c); long arg = va_arg(ap, long); va_end(ap); if (!nmine(d)) return __real_fcntl(d, c, arg); nsock *k = nget(d); if (!k) { netbad("fcntl", d); errno = EBADF; return -1; } if (c == F_GETFL) { if (nf("getfl", d)) return -1; return k->fl; } if (c == F_SETFL) { if (nf("setfl", d)) return -1; k->fl = (int)arg; return 0; } return 0; }
int __wrap_fcntl64(int d, int c, ...) { va_list ap; va_start(ap, c); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(d, c, arg); }
extern int __real_ioctl(int, unsigned long, ...); int __wrap_ioctl(int d, unsigned long c, ...) { va_list ap; va_start(ap, c); int *arg = va_arg(ap, int *); va_end(ap); nsock *k = nget(d); if (!k) return __real_ioctl(d, c, arg); if (c == 0x5421) { k->fl = *arg ? k->fl | O_NONBLOCK : k->fl & ~O_NONBLOCK; return 0; } return 0; }
static int nwait1(int d, us_t max) { nsock *k = nget(d); if (!k) { netbad("wait", d); errno = EBADF; return -1; } if (nwaits < 64) { nwait_asked[nwaits] = max; nwait_from[nwaits] = nclock; } nwaits++; return net_wait(k, max); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int d = -1; for (int i = nbase; i < n && i < FD_SETSIZE; i++) if (w && FD_ISSET(i, w)) d = i; if (d < 0 || d >= n) { netbad("select on nothing", n); errno = EBADF; return -1; }
    if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec > 999999)) { errno = EINVAL; return -1; }
    us_t t0 = nclock, max = tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1; int rc = nwait1(d, max); us_t el = nclock - t0;
    if (tv) { us_t left = max > el ? max - el : 0; tv->tv_sec = left / 1000000; tv->tv_usec = left % 1000000; }           /* as Linux does */
    if (rc < 0) return -1; if (r) FD_ZERO(r); if (e) FD_ZERO(e); if (w) { FD_ZERO(w); if (rc) FD_SET(d, w); } return rc;
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m) { (void)m; struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; } return __wrap_select(n, r, w, e, ts ? &tv : NULL); }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { if (n != 1) abort(); int rc = nwait1(p->fd, ms < 0 ? -1 : ms * 1000LL); p->revents = 0; if (rc > 0) { p->revents = POLLOUT; nsock *k = nget(p->fd); if (k && k->cs == CS_BAD) p->revents |= POLLERR; } return rc; }
int __wrap___poll_chk(struct pollfd *p, nfds_t n, int ms, size_t l) { (void)l; return __wrap_poll(p, n, ms); }
extern int __real_gettimeofday(struct timeval *, void *), __real_clock_gettime(clockid_t, struct timespec *); extern time_t __real_time(time_t *);
int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!net_on) return __real_gettimeofday(tv, z); if (nf("gettimeofday", -1)) return -1; tv->tv_sec = nclock / 1000000; tv->tv_usec = nclock % 1000000; nclock += ntick; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!net_on) return __real_clock_gettime(c, ts); if (nf("gettimeofday", -1)) return -1; ts->tv_sec = nclock / 1000000; ts->tv_nsec = nclock % 1000000 * 1000; nclock += ntick; return 0; }
time_t __wrap_time(time_t *t) { if (!net_on) return __real_time(t); time_t r = nclock / 1000000; if (t) *t = r; return r; }
/* address resolution and accepting are the harness's business; by default nothing resolves */
static int (*net_resolve)(const char *, const char *, const struct addrinfo *, struct addrinfo **); static void (*net_release)(struct addrinfo *); static int (*net_accept)(int, struct sockaddr *, socklen_t *);
static struct hostent *(*net_host)(const char *, int); struct hostent *__wrap_gethostbyname2(const char *h, int fam) { return net_host ? net_host(h, fam) : NULL; } struct hostent *__wrap_gethostbyname(const char *h) { return net_host ? net_host(h, AF_INET) : NULL; }
struct servent *__wrap_getservbyname(const char *n, const char *p) { static struct servent se; if (strcmp(n, "http") || (p && strcmp(p, "tcp"))) return NULL; se.s_name = "http"; se.s_port = htons(80); se.s_proto = "tcp"; return &se; }
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r) { return net_resolve ? net_resolve(h, s, hi, r) : EAI_NONAME; }
void __wrap_freeaddrinfo(struct addrinfo *a) { if (net_release) net_release(a); }
int __wrap_accept(int d, struct sockaddr *a, socklen_t *l) { if (net_accept) return net_accept(d, a, l); errno = EBADF; return -1; }
#endif
