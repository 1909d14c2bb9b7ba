// Socket helpers: system call wrappers, descriptor modes, options and printed addresses.
// MC-LDFLAGS: -Wl,--wrap=socket,--wrap=bind,--wrap=listen,--wrap=setsockopt,--wrap=getsockopt,--wrap=fcntl,--wrap=fcntl64,--wrap=accept
#include "mc.h"
#include <u/libu.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/un.h>
const char *mc_property = "P38", *mc_level = "fault_enumeration";
static int on, calls, want_rc, want_err; static const char *which; static long A[5]; static int faults; static int (*nextrc)(void);
static int fake(const char *w, long a, long b, long c, long d, long e) { calls++; which = w; A[0] = a; A[1] = b; A[2] = c; A[3] = d; A[4] = e; errno = 12345; int rc = nextrc ? nextrc() : want_rc; if (rc == -1 && !nextrc) errno = want_err; return rc; }
#define W(ret, f, par, real, ...) extern ret __real_##f par; ret __wrap_##f par { if (on) return fake(#f, __VA_ARGS__); return __real_##f real; }
W(int, socket, (int a, int b, int c), (a, b, c), a, b, c, 0, 0)
W(int, bind, (int s, const struct sockaddr *a, socklen_t l), (s, a, l), s, (long)a, l, 0, 0)
W(int, listen, (int s, int b), (s, b), s, b, 0, 0, 0)
W(int, accept, (int s, struct sockaddr *a, socklen_t *l), (s, a, l), s, (long)a, (long)l, 0, 0)
extern int __real_setsockopt(int, int, int, const void *, socklen_t); int __wrap_setsockopt(int s, int l, int n, const void *v, socklen_t z) { if (on) return fake("setsockopt", s, l, n, (long)v, z); if (faults && mc_dev(2)) { errno = ENOPROTOOPT; return -1; } return __real_setsockopt(s, l, n, v, z); }
W(int, getsockopt, (int s, int l, int n, void *v, socklen_t *z), (s, l, n, v, z), s, l, n, (long)v, (long)z)
extern int __real_fcntl(int, int, ...); static int failed;
int __wrap_fcntl(int d, int c, ...) { va_list ap; va_start(ap, c); long arg = va_arg(ap, long); va_end(ap); if (faults && mc_dev(2)) { failed++; errno = EIO; return -1; } return __real_fcntl(d, c, arg); }
int __wrap_fcntl64(int d, int c, ...) { va_list ap; va_start(ap, c); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(d, c, arg); }
/* --- one call, the same arguments, the same result and errno --- */
static int left; static int acc(void) { if (left-- > 0) { errno = EINTR; return -1; } if (want_rc == -1) errno = want_err; return want_rc; }
static void run_calls(void)
{
    static const int V[] = { -1, 0, 1, 2, 7, 128, 0x7fffffff, -0x7fffffff - 1 }, E[] = { EINTR, EBADF, EACCES, EADDRINUSE, ENOMEM, ENOPROTOOPT, EAGAIN }; char buf[16]; socklen_t l; struct sockaddr_storage ss; const char *name[] = { "socket", "bind", "listen", "setsockopt", "getsockopt", "accept" };
    int f = mc_choose(6), a = V[mc_choose(8)], b = V[mc_choose(8)], c = V[mc_choose(8)], ok = mc_choose(3), n = f == 5 ? mc_choose(4) : 0, rc = 0, np = mc_choose(2); want_rc = ok == 0 ? -1 : ok == 1 ? 0 : f == 0 || f == 5 ? 37 : 0; want_err = E[mc_choose(7)]; if (f == 5 && want_rc == -1 && want_err == EINTR) mc_discard(); left = n; nextrc = f == 5 ? acc : NULL; calls = 0; long w[5] = { 0 };
    mc_op("%s(%d, %d, %d) giving %d", name[f], a, b, c, want_rc); on = 1; errno = 0;
    switch (f) { case 0: rc = u_socket(a, b, c); w[0] = a; w[1] = b; w[2] = c; break; case 1: rc = u_bind(a, (struct sockaddr *)&ss, (socklen_t)b); w[0] = a; w[1] = (long)&ss; w[2] = (long)(socklen_t)b; break; case 2: rc = u_listen(a, b); w[0] = a; w[1] = b; break;
    case 3: rc = u_setsockopt(a, b, c, np ? buf : NULL, 16); w[0] = a; w[1] = b; w[2] = c; w[3] = np ? (long)buf : 0; w[4] = 16; break; case 4: rc = u_getsockopt(a, b, c, buf, &l); w[0] = a; w[1] = b; w[2] = c; w[3] = (long)buf; w[4] = (long)&l; break; default: rc = u_accept(a, np ? (struct sockaddr *)&ss : NULL, np ? &l : NULL); w[0] = a; w[1] = np ? (long)&ss : 0; w[2] = np ? (long)&l : 0; }
    int er = errno; on = 0; nextrc = NULL; MC_CHECK(calls == 1 + n, "calls", "%d calls", calls); MC_CHECK(!strcmp(which, name[f]) && !memcmp(w, A, sizeof w), "arguments", "%s was called otherwise", which); MC_CHECK(rc == want_rc, "result", "%d instead of %d", rc, want_rc); if (rc == -1) MC_CHECK(er == want_err, "errno", "%d instead of %d", er, want_err); mc_outcome(mc_h64(f, rc));
}
/* --- descriptor modes --- */
static void run_modes(void)
{
    static const int F[] = { 0, O_NONBLOCK, O_APPEND, O_NONBLOCK | O_APPEND, O_NOATIME }; int sp[2], kind = mc_choose(3); if (kind == 0 ? socketpair(AF_UNIX, SOCK_STREAM, 0, sp) : kind == 1 ? pipe(sp) : (sp[0] = socket(AF_INET, SOCK_STREAM, 0), sp[1] = dup(sp[0]), sp[0] < 0)) mc_discard();
    faults = 0; if (fcntl(sp[0], F_SETFL, F[mc_choose(5)])) {} int was = fcntl(sp[0], F_GETFL), cl = mc_choose(2), n = 1 + mc_choose(mc_tier ? 5 : 4); if (cl) fcntl(sp[0], F_SETFD, FD_CLOEXEC); failed = 0;
    for (int i = 0; i < n; i++) { int set = mc_choose(2), f0 = failed; mc_op("%s non-blocking", set ? "set" : "unset"); faults = 1; int rc = set ? u_net_set_nonblocking(sp[0]) : u_net_unset_nonblocking(sp[0]); faults = 0; int now = fcntl(sp[0], F_GETFL);
        if (failed > f0) MC_CHECK(rc != 0, "result", "success though a call failed"); else { MC_CHECK(rc == 0, "result", "failure"); was = set ? was | O_NONBLOCK : was & ~O_NONBLOCK; } MC_CHECK(now == was, "flags", "flags are %x instead of %x", now, was); MC_CHECK((fcntl(sp[0], F_GETFD) & FD_CLOEXEC) == (cl ? FD_CLOEXEC : 0), "flags", "close-on-exec changed"); }
    close(sp[0]); close(sp[1]); MC_CHECK(u_net_set_nonblocking(sp[0]) != 0 && u_net_unset_nonblocking(sp[0]) != 0 && u_net_set_nonblocking(-1) != 0 && u_net_unset_nonblocking(-1) != 0, "closed", "success on a closed descriptor"); mc_state(was);
}
static void run_nagle(void)
{
    int s = socket(AF_INET, mc_choose(2) ? SOCK_DGRAM : SOCK_STREAM, 0), st = 0, y = 0; socklen_t l = sizeof st; if (s < 0) mc_discard(); l = sizeof st; getsockopt(s, SOL_SOCKET, SO_TYPE, &st, &l); int ka = mc_choose(2); setsockopt(s, SOL_SOCKET, SO_KEEPALIVE, &ka, sizeof ka); faults = 1; mc_op("no delay on a %s socket", st == SOCK_STREAM ? "stream" : "datagram"); errno = 0; int rc = u_net_nagle_off(s), er = errno; faults = 0; l = sizeof y; int g = getsockopt(s, IPPROTO_TCP, TCP_NODELAY, &y, &l);
#ifdef HAVE_TCP_NODELAY
    MC_CHECK(rc == 0 ? g == 0 && y : er != 0 && (g || !y), "nodelay", "result %d but the option is %d (error %d)", rc, y, er); if (st == SOCK_DGRAM) MC_CHECK(rc, "nodelay", "success on a datagram socket"); MC_CHECK(u_net_nagle_off(-1) != 0, "nodelay", "success on no socket");
#else
    MC_CHECK(rc == 0, "nodelay", "%d", rc); (void)er; (void)g;
#endif
    int k2 = 0; l = sizeof k2; getsockopt(s, SOL_SOCKET, SO_KEEPALIVE, &k2, &l); MC_CHECK(!k2 == !ka, "options", "another option changed"); close(s); mc_outcome(rc);
}
/* --- addresses as text --- */
static const unsigned char B[] = { 0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 254, 255 };
static void run_v4(void)
{
    unsigned char a[4]; if (mc_choose(2)) { int p = mc_choose(4); memset(a, 7, 4); a[p] = (unsigned char)mc_choose(256); } else for (int i = 0; i < 4; i++) a[i] = B[mc_choose(12)]; char w[32]; int n = sprintf(w, "%d.%d.%d.%d", a[0], a[1], a[2], a[3]); unsigned char *x = malloc(4); memcpy(x, a, 4); mc_op("%s", w);
    for (int l = 0; l < 22; l++) { char *d = malloc(l ? l : 1); memset(d, '#', l); errno = 0; const char *r = u_inet_ntop(AF_INET, x, d, l); if (l > n) MC_CHECK(r == d && !strcmp(d, w), "ipv4", "%s into %d bytes", w, l); else MC_CHECK(r == NULL && errno == ENOSPC, "ipv4-space", "%s into %d bytes: %s, error %d", w, l, r ? "done" : "refused", errno); free(d); } free(x); mc_state(mc_hs(4, w));
}
static void gen6(unsigned char *a) { static const unsigned short H[] = { 0, 1, 0xffff, 0xabc }; for (int i = 0; i < 8; i++) { unsigned short h = i < 6 ? H[mc_choose(i < 2 || mc_tier ? 3 : 2)] : H[mc_choose(4)]; a[2 * i] = h >> 8; a[2 * i + 1] = h & 255; } }
static void run_v6(void) { unsigned char a[16]; gen6(a); char w[64], d[64]; inet_ntop(AF_INET6, a, w, sizeof w); int n = (int)strlen(w); mc_op("%s", w); for (int l = n - 2; l < n + 3; l++) { if (l < 0) continue; char *e = malloc(l + 1); errno = 0; const char *r = u_inet_ntop(AF_INET6, a, e, l); if (l > n) MC_CHECK(r == e && !strcmp(e, w), "ipv6", "%s into %d bytes", w, l); else MC_CHECK(r == NULL && errno == ENOSPC, "ipv6-space", "%s into %d bytes", w, l); free(e); } int fams[] = { AF_UNSPEC, AF_UNIX, 99, -1 }; errno = 0; MC_CHECK(u_inet_ntop(fams[mc_choose(4)], a, d, sizeof d) == NULL && errno == EAFNOSUPPORT, "family", "an unknown family is printed"); mc_state(mc_hs(6, w)); }
static void sa(const struct sockaddr *s, const char *w)
{
    int n = (int)strlen(w); for (int l = 1; l < n + 3; l++) { if (l > 20 && l < n - 2) continue; char *d = malloc(l); memset(d, '#', l); const char *r = u_sa_ntop(s, d, l); int k = n < l ? n : l - 1; MC_CHECK(r == d && !memcmp(d, w, k) && !d[k], "address", "\"%s\" into %d bytes: \"%s\"", mc_escs(w), l, r == d ? mc_escs(d) : r); free(d); }
}
static void run_sa4(void) { struct sockaddr_in *s = calloc(1, sizeof *s); s->sin_family = AF_INET; static const int P[] = { 0, 1, 80, 255, 256, 9999, 32767, 32768, 65280, 65535 }; unsigned char a[4]; for (int i = 0; i < 4; i++) a[i] = B[mc_choose(12)]; memcpy(&s->sin_addr, a, 4); int p = P[mc_choose(10)]; s->sin_port = htons(p); char w[64]; sprintf(w, "%d.%d.%d.%d:%d", a[0], a[1], a[2], a[3], p); mc_op("%s", w); sa((struct sockaddr *)s, w); free(s); mc_state(mc_hs(1, w)); }
static void run_sa6(void) { struct sockaddr_in6 *s = calloc(1, sizeof *s); s->sin6_family = AF_INET6; unsigned char a[16]; gen6(a); memcpy(&s->sin6_addr, a, 16); int p = mc_choose(2) ? 65535 : 80; s->sin6_port = htons(p); char t[64], w[80]; inet_ntop(AF_INET6, a, t, sizeof t); sprintf(w, "[%s]:%d", t, p); mc_op("%s", w); sa((struct sockaddr *)s, w); free(s); mc_state(mc_hs(2, w)); }
static void run_un(void) { struct sockaddr_un *s = malloc(sizeof *s); int l = mc_choose((int)sizeof s->sun_path + 1), c = mc_choose(3); memset(s, 'Z', sizeof *s); s->sun_family = AF_UNIX; char w[200]; for (int i = 0; i < l; i++) s->sun_path[i] = w[i] = c == 0 ? 'p' : c == 1 ? "%s%n"[i % 4] : (char)(128 + i); w[l] = 0; if (l < (int)sizeof s->sun_path) s->sun_path[l] = 0; mc_op("path of %d", l); sa((struct sockaddr *)s, w); free(s); mc_state(mc_hs(3, w)); }
static void run_bad(void) { struct sockaddr_storage s; memset(&s, 0, sizeof s); static const int F[] = { AF_UNSPEC, 99, 65535 }; s.ss_family = F[mc_choose(3)]; char d[64] = "keep"; const char *r = u_sa_ntop((struct sockaddr *)&s, d, sizeof d); MC_CHECK(r && r != d && *r, "family", "an unknown family is printed as %s", r ? r : "NULL"); r = u_sa_ntop(NULL, d, sizeof d); MC_CHECK(r && r != d, "null", "NULL address"); s.ss_family = AF_INET; r = u_sa_ntop((struct sockaddr *)&s, NULL, 9); MC_CHECK(r && *r, "null", "NULL buffer"); r = u_sa_ntop((struct sockaddr *)&s, d, 0); MC_CHECK(r && r != d && !strcmp(d, "keep"), "null", "no room"); mc_outcome(1); }
const struct mc_scn mc_scns[] = {
    { "calls", run_calls, MC_QT, 2, 0, 0, 0, "6 wrappers x 8^3 argument values x results x error numbers, up to 3 interruptions" },
    { "modes", run_modes, MC_QT, 2, 2, 4, 0, "every sequence of up to 4 (5) mode changes on 3 kinds of descriptors with 5 initial modes, up to 2 (4) failures" },
    { "nagle", run_nagle, MC_QT, 0, 1, 1, 0, "stream and datagram sockets, failing call" },
    { "ipv4", run_v4, MC_QT, 2, 0, 0, 0, "12^4 addresses and every byte, buffers of 0..21 bytes" },
    { "ipv6", run_v6, MC_QT, 3, 0, 0, 0, "addresses over 2 to 4 values per group" },
    { "sockaddr4", run_sa4, MC_QT, 2, 0, 0, 0, "12^4 addresses x 10 ports, every buffer size" },
    { "sockaddr6", run_sa6, MC_QT, 3, 0, 0, 0, "likewise" },
    { "paths", run_un, MC_QT, 1, 0, 0, 0, "paths of 0..108 characters, every buffer size" },
    { "bad", run_bad, MC_QT, 0, 0, 0, 0, "unknown families, missing arguments" },
    { 0 } };
