// u_connect_ex against every schedule of completions, interruptions and errors, on a modelled clock.
// MC-LDFLAGS: @net
#include "net_model.h"
#include <u/libu.h>
const char *mc_property = "P30", *mc_level = "model_checking";
void mc_cleanup(void) { net_on = 0; net_fault = NULL; net_connecting = NULL; net_wait = NULL; }
enum { TOL = 2000 };
static us_t T; static int intr_left, wait_err, faulted, kernel_err, allow_faults;
static const int errs[] = { 0, ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH };
static const us_t never = 1LL << 50;
static int fault(const char *call, int d) { if (!allow_faults) return 0; if (!strcmp(call, "getsockopt") || !strcmp(call, "getfl") || !strcmp(call, "setfl") || !strcmp(call, "gettimeofday")) if (mc_dev(2)) { faulted++; mc_op("%s fails", call); return !strcmp(call, "getsockopt") ? ENOBUFS : EBADF; } return 0; }
static void connecting(nsock *k, int blocking, int *now, int *err, us_t *at)
{
    *err = errs[mc_choose(4)]; *now = mc_choose(2); if (*now) { mc_op("connect: %s", *err ? strerror(*err) : "connected at once"); return; }
    static const int n = 7; int c = mc_choose(n); us_t d = T < 0 ? 1000000 : T; us_t off[] = { 0, 1, d / 2, d > 0 ? d - 1 : 0, d, d + 1, 3 * d + 5000000 }; for (int i = 0; i < c; i++) if (off[i] == off[c]) mc_discard();
    *at = nclock + off[c]; if (T >= 0 && c == 6 && mc_choose(2)) *at = never; mc_op("connect %s, will %s %lld us later", blocking ? "interrupted" : "in progress", *err ? strerror(*err) : "succeed", *at - nclock);
}
static int wait_for(nsock *k, us_t max)
{
    us_t end = max < 0 ? never : nclock + max, left = end - nclock; mc_transitions(1);
    if (wait_err && mc_dev(2)) { faulted++; mc_op("wait fails"); errno = ENOMEM; return -1; }
    if (intr_left > 0 && (max != 0 || mc_choose(2))) { int c = mc_choose(8); if (c) { intr_left--; if (left > 10000000) left = 10000000; us_t off[] = { 0, 0, 1, left / 2, left > 0 ? left - 1 : 0, left, left + 300000, left + 1500000 }; for (int i = 1; i < c; i++) if (off[i] == off[c]) mc_discard(); us_t x = off[c]; if (k->cs == CS_GOING && k->at < nclock + x && k->at <= end && c < 6) mc_discard();
        nclock += x; mc_op("wait of %lld us interrupted after %lld", max, x); errno = EINTR; return -1; } }
    n_settle(k); if (k->cs != CS_GOING) return 1;
    if (k->at <= end) { int tie = k->at == end && max >= 0 && mc_choose(2); nclock = end < k->at ? end : k->at; if (!tie) { n_settle(k); mc_op("ready at %lld us", nclock - nclock0); return 1; } mc_op("timed out just before the connection completes"); return 0; }
    if (max < 0) mc_discard(); nclock = end; mc_op("wait of %lld us timed out", max); return 0;
}
static const us_t Ts[] = { -1, 0, 1, 500000, 1000000, 1500000, 2000001, 3600000000LL };
static void run_connect(void)
{
    net_reset(); T = Ts[mc_choose(8)]; int nb = mc_choose(2), big = mc_arg() == 2 ? 1 : 0; ntick = mc_choose(2); intr_left = mc_arg() == 0 ? (mc_tier ? 4 : 3) : 1; wait_err = allow_faults = mc_arg() == 1; faulted = 0; if (big) nbase = 1100; else if (ntick) nbase = 0;
    int d = net_new(AF_INET, SOCK_STREAM, 0), fl = O_RDWR | O_APPEND | (nb ? O_NONBLOCK : 0); nsock *k = nget(d); k->fl = fl; net_fault = fault; net_connecting = connecting; net_wait = wait_for; struct sockaddr_in sa = { .sin_family = AF_INET, .sin_port = htons(80) }; struct timeval tv, *tp = NULL; if (T >= 0) { tv.tv_sec = T / 1000000; tv.tv_usec = T % 1000000; tp = &tv; }
    mc_op("connect with %s %lld us, %s socket%s", T < 0 ? "no timeout" : "timeout", T, nb ? "non-blocking" : "blocking", ntick ? ", clock ticking" : ""); us_t start = nclock; errno = mc_choose(2) ? ETIMEDOUT : 0;
    int rc = u_connect_ex(d, (struct sockaddr *)&sa, sizeof sa, tp), e = errno; us_t dl = start + T, el = nclock - start; k = nget(d);
    MC_CHECK(!nbad && k, "descriptor", "%s", nbad ? nbadmsg : "the caller's descriptor was closed"); MC_CHECK(rc == 0 || rc == -1 || rc == -2, "result", "result %d", rc);
    int cs = k->cs, early = cs == CS_GOING || (cs != CS_IDLE && !k->seen); mc_state(mc_h64(mc_h64(cs * 4 + rc + 2, T), nb * 4 + el % 977)); mc_outcome((rc + 2) * 4 + cs);
    MC_CHECK(memcmp(&k->c, &sa, sizeof sa) == 0 || faulted, "peer", "connected to another address");
    if (rc == 0) MC_CHECK(cs == CS_DONE && !early, "false success", "success, but the connection %s", cs == CS_BAD ? "failed" : cs == CS_GOING ? "is not established" : "was never seen to be established");
    if (rc == -1 && !faulted && !big) { MC_CHECK(cs == CS_BAD, "false failure", "failure after %lld us of %lld although the connection %s", el, T, cs == CS_GOING ? "is still in progress" : "was established"); MC_CHECK(e == k->err, "error", "error number %d, the connection failed with %d", e, k->err); }
    if (rc == -2 && !(cs == CS_BAD && k->err == ETIMEDOUT)) { MC_CHECK(T >= 0, "timeout", "timeout error without a timeout"); if (!faulted) MC_CHECK(nclock + TOL >= dl, "early timeout", "timed out after %lld us, %lld were allowed", el, T); }
    if (rc == -2 && !faulted) MC_CHECK(e == ETIMEDOUT, "error", "timeout with error number %d", e);
    if (T >= 0) for (int i = 0; i < nwaits && i < 64; i++) { MC_CHECK(nwait_asked[i] >= 0, "late", "waits for ever"); us_t end = nwait_from[i] + nwait_asked[i]; MC_CHECK(nwait_asked[i] <= TOL || end <= dl + TOL, "late", "waits until %lld us after the deadline", end - dl); }
    if (!faulted) MC_CHECK(k->fl == fl, "blocking mode", "descriptor flags 0%o became 0%o (result %d)", fl, k->fl, rc);
    if (rc == -2 && !faulted && T > 0 && cs == CS_GOING) MC_CHECK(nwaits > 0, "early timeout", "timed out without waiting");
}
static void run_args(void)
{
    net_reset(); T = 1000000; intr_left = 0; net_connecting = connecting; net_wait = wait_for; int w = mc_choose(3); struct sockaddr_in sa = { .sin_family = AF_INET }; struct timeval tv = { 1, 0 }; int d = net_new(AF_INET, SOCK_STREAM, 0); mc_op("bad argument %d", w); mc_state(w);
    int rc = u_connect_ex(w == 0 ? -1 : d, w == 1 ? NULL : (struct sockaddr *)&sa, w == 2 ? 0 : sizeof sa, mc_choose(2) ? &tv : NULL); MC_CHECK(rc == -1, "argument", "result %d", rc); MC_CHECK(!nbad && nget(d)->cs == CS_IDLE && nget(d)->fl == O_RDWR, "argument", "descriptor touched");
}
static void run_plain(void)
{
    net_reset(); T = -1; intr_left = 2; faulted = wait_err = allow_faults = 0; net_connecting = connecting; net_wait = wait_for; int d = net_new(AF_UNIX, SOCK_STREAM, 0), nb = mc_choose(2); nsock *k = nget(d); if (nb) k->fl |= O_NONBLOCK; int fl = k->fl; struct sockaddr_un su = { .sun_family = AF_UNIX, .sun_path = "/x" }; mc_op("u_connect, %s socket", nb ? "non-blocking" : "blocking");
    int rc = u_connect(d, (struct sockaddr *)&su, sizeof su), e = errno; MC_CHECK(!nbad && k->used == 1 && k->fl == fl, "descriptor", "descriptor changed"); mc_state(k->cs * 4 + rc + 2);
    if (rc == 0) MC_CHECK(k->cs == CS_DONE && k->seen, "false success", "not established"); else MC_CHECK(k->cs == CS_BAD && e == k->err, "false failure", "state %d, error %d instead of %d", k->cs, e, k->err);
}
const struct mc_scn mc_scns[] = {
    { "completions and interruptions", run_connect, MC_QT, 4, 0, 0, 0, "8 timeouts, completion before, at and after the deadline or never, up to 3 (thorough 4) interruptions at critical instants" },
    { "failing calls", run_connect, MC_QT, 4, 1, 2, 1, "one (thorough two) failures of fcntl, gettimeofday, select or getsockopt, one interruption" },
    { "descriptor beyond the select limit", run_connect, MC_QT, 3, 0, 0, 2, "the same with descriptor 1100" },
    { "bad arguments", run_args, MC_QT, 1, 0, 0, 0, "" },
    { "without timeout", run_plain, MC_QT, 1, 0, 0, 0, "u_connect, blocking and non-blocking" },
    { 0 },
};
