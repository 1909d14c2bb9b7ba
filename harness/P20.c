// Complete-transfer I/O over a driver that transfers short, is interrupted, fails or ends.
// MC-LDFLAGS: -Wl,--wrap=read -Wl,--wrap=write -Wl,--wrap=sleep
#include "mc.h"
#include <u/libu.h>
#include <errno.h>
const char *mc_property = "P20", *mc_level = "fault_enumeration";

enum { NONE, READ, WRITE, HUGE_ };
static int on, fd_; static char *buf, *base; static int len, done, ended, failed, calls; static char src[64], dst[64];
/* one driver call: n bytes at p were asked for */
static ssize_t drive(int writing, int fd, void *p, size_t n)
{
    calls++;
    MC_CHECK(fd == fd_, "descriptor", "transfer on descriptor %d", fd);
    MC_CHECK(!ended && !failed, "after-end", "the driver is called again after %s", ended ? "the end" : "a failure");
    MC_CHECK((char *)p == base + done && n > 0 && (int)n <= len - done, "range", "asks for %zu bytes at offset %td after %d of %d", n, (char *)p - base, done, len);
    int k = mc_choose((int)n + 1);
    if (k == (int)n) {
        /* nothing transferred */
        int w = mc_dev(5); if (w == 0) { ended = 1; mc_note("end of file"); return 0; }
        if (w == 1) { mc_note("interrupted"); errno = EINTR; return -1; }
        failed = w == 2 ? EIO : w == 3 ? EAGAIN : ENOSPC; mc_note("fails with %d", failed); errno = failed; return -1;
    }
    k = (int)n - k; mc_note("%d of %zu bytes", k, n);
    if (writing) memcpy(dst + done, p, k); else memcpy(p, src + done, k);
    done += k; return k;
}
static ssize_t hdrv(int fd, void *p, size_t n);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); unsigned __real_sleep(unsigned);
ssize_t __wrap_read(int fd, void *p, size_t n) { return on == HUGE_ ? hdrv(fd, p, n) : on == READ ? drive(0, fd, p, n) : __real_read(fd, p, n); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { return on == HUGE_ ? hdrv(fd, (void *)p, n) : on == WRITE ? drive(1, fd, (void *)p, n) : __real_write(fd, p, n); }
static ssize_t drv_r(int fd, void *p, size_t n) { return drive(0, fd, p, n); }
static ssize_t drv_w(int fd, void *p, size_t n) { return drive(1, fd, p, n); }

static int setup(void)
{
    len = mc_choose(mc_tier ? 8 : 7); done = ended = failed = calls = 0; fd_ = 77 + mc_choose(2);
    for (int i = 0; i < 64; i++) src[i] = 'A' + i % 50, dst[i] = 0;
    base = buf = malloc(len ? len : 1); memset(buf, '#', len); return len;
}
static void data(int writing)
{
    if (writing) MC_CHECK(!memcmp(dst, src, done), "data", "wrong bytes written"); else { MC_CHECK(!memcmp(buf, src, done), "data", "wrong bytes read"); for (int i = done; i < len; i++) MC_CHECK(buf[i] == '#', "data", "byte %d written without being read", i); }
    mc_state(mc_h64(mc_h64(len, done), ended * 1000 + failed)); free(buf);
}
static void run_read(void)
{
    setup(); mc_op("read %d bytes", len); on = READ; ssize_t r = u_read(fd_, buf, len); on = NONE;
    if (failed) MC_CHECK(r == -1, "read-failure", "a failed read returned %zd", r);
    else { MC_CHECK(r == done && (done == len || ended), "read-count", "%zd returned, %d of %d bytes arrived", r, done, len); }
    data(0);
}
static void run_write(void)
{
    setup(); memcpy(buf, src, len); mc_op("write %d bytes", len); on = WRITE; ssize_t r = u_write(fd_, buf, len); on = NONE;
    if (done < len) MC_CHECK(r == -1, "write-failure", "%d of %d bytes written, %zd returned", done, len, r); else MC_CHECK(r == len, "write-count", "%zd returned for %d bytes", r, len);
    data(1);
}
static void run_io(void)
{
    int w = mc_choose(2), wn = mc_choose(2), we = mc_choose(2), eof = 42; ssize_t n = 42; setup(); if (w) memcpy(buf, src, len);
    mc_op("%s %d bytes%s%s", w ? "write" : "read", len, wn ? ", count wanted" : "", we ? ", end wanted" : "");
    int rc = u_io(w ? drv_w : drv_r, fd_, buf, len, wn ? &n : NULL, we ? &eof : NULL);
    MC_CHECK((rc == 0) == (done == len), "io-verdict", "%d of %d bytes transferred: %d", done, len, rc);
    if (wn) MC_CHECK(n == done, "io-count", "%zd counted, %d transferred", n, done); if (we) MC_CHECK(!!eof == ended, "io-eof", "end of file is %d", eof);
    data(w);
}
/* the socket forms of the same */
static void run_net(void)
{
    int w = mc_choose(2), n_ = mc_choose(2), wn = !n_ && mc_choose(2), we = !n_ && mc_choose(2), eof = 42; ssize_t n = 42; setup(); if (w) memcpy(buf, src, len); mc_op("%s%s %d bytes", w ? "u_net_write" : "u_net_read", n_ ? "n" : "", len); on = w ? WRITE : READ;
    int rc = w ? n_ ? u_net_writen(fd_, buf, len) : u_net_write(fd_, buf, len, wn ? &n : NULL, we ? &eof : NULL) : n_ ? u_net_readn(fd_, buf, len) : u_net_read(fd_, buf, len, wn ? &n : NULL, we ? &eof : NULL); on = NONE;
    MC_CHECK((rc == 0) == (done == len), "io-verdict", "%d of %d bytes transferred: %d", done, len, rc); if (wn) MC_CHECK(n == done, "io-count", "%zd counted, %d transferred", n, done); if (we) MC_CHECK(!!eof == ended, "io-eof", "end of file is %d", eof); data(w);
}
/* big transfers: every pattern of a few short transfers in a large one */
static void run_big(void)
{
    static char S[20000], D[20000]; static const int ls[] = { 4096, 8192, 19999 }; (void)D;
    int l = ls[mc_choose(3)]; len = l; done = ended = failed = calls = 0; mc_op("read %d bytes in chunks", l);
    for (int i = 0; i < l; i++) S[i] = (char)(i * 7 + i / 251); int fds[2]; if (pipe(fds)) mc_fail("harness", "no pipe");
    /* the descriptor is a real pipe, filled in pieces of chosen sizes between reads is not possible without a second thread: use one chunk per capacity */
    static const int cs[] = { 1, 1000, 4096 }; int c = cs[mc_choose(3)]; if (c == 1) l = 4096; ssize_t put = 0;
    while (put < l) { int k = l - put < c ? (int)(l - put) : c; if (u_write(fds[1], S + put, k) != k) mc_fail("write-count", "short write to a pipe"); put += k; }
    close(fds[1]); ssize_t r = u_read(fds[0], D, sizeof D); MC_CHECK(r == l && !memcmp(S, D, l), "read-count", "%zd of %d bytes read", r, l); close(fds[0]);
}
/* sizes beyond 31 and 32 bits: the driver only counts */
static size_t hdone, hlen; static int hintr;
static ssize_t hdrv(int fd, void *p, size_t n) { MC_CHECK((size_t)((char *)p - base) == hdone && n == hlen - hdone, "range", "asks for %zu bytes at %zu of %zu", n, (size_t)((char *)p - base), hlen); if (hintr && mc_choose(2)) { hintr--; errno = EINTR; return -1; } static const size_t ck[] = { 0x7ffff000UL, 0x80000000UL, 0x100000000UL, 1 }; size_t k = ck[mc_choose(4)]; if (k == 1 && hintr <= 0) k = n; if (k == 1) hintr--; if (k > n) k = n; hdone += k; return (ssize_t)k; }
static void run_huge(void) { static const size_t ls[] = { 0x7fffffffUL, 0x80000000UL, 0xffffffffUL, 0x100000000UL, 0x180000001UL, 0x280000000UL }; ssize_t n = 42; int eof = 42; hlen = ls[mc_choose(6)]; hdone = 0; hintr = 2; base = (char *)0x100000000000UL; int via = mc_choose(3); mc_op("transfer %zu bytes%s", hlen, via == 0 ? "" : via == 1 ? " by u_read" : " by u_write"); if (via) { on = HUGE_; ssize_t r = via == 1 ? u_read(3, base, hlen) : u_write(3, base, hlen); on = NONE; MC_CHECK(r == (ssize_t)hlen && hdone == hlen, "huge-count", "%zu of %zu bytes transferred: %zd", hdone, hlen, r); return; } int rc = u_io(hdrv, 3, base, hlen, &n, &eof); MC_CHECK(rc == 0 && hdone == hlen && n == (ssize_t)hlen && eof == 0, "io-verdict", "%zu of %zu bytes transferred: %d, %zd counted", hdone, hlen, rc, n); }
/* u_sleep goes on for the rest of the time when interrupted */
static unsigned slept, asked; static int sleeping;
unsigned __wrap_sleep(unsigned s) { if (!sleeping) return __real_sleep(s); MC_CHECK(s > 0 && slept + s == asked, "sleep", "sleeps %u after %u of %u", s, slept, asked); unsigned left; if (s <= 8) left = (unsigned)mc_choose((int)s + 1); else { static const unsigned L[] = { 0, 1, 2, 3 }; int k = mc_choose(s == asked ? 7 : 4); left = k < 4 ? L[k] : k == 4 ? s - 1 : k == 5 ? s / 2 : s; } slept += s - left; mc_note("%u left", left); if (left && s == left && mc_dev(2) == 0) mc_discard(); errno = EINTR; return left; }
static void run_sleep(void) { static const unsigned BIG[] = { 0x7fffffffu, 0x80000000u, 3000000000u, 0xffffffffu, 256, 65536 }; int ns = mc_tier ? 7 : 6, k = mc_choose(ns + 6); asked = k < ns ? (unsigned)k : BIG[k - ns]; slept = 0; mc_op("sleep %u", asked); sleeping = 1; int rc = u_sleep(asked); sleeping = 0; MC_CHECK(rc == 0 && slept == asked, "sleep", "slept %u of %u: %d", slept, asked, rc); }
void mc_cleanup(void) { on = NONE; sleeping = 0; }
const struct mc_scn mc_scns[] = {
    { "read", run_read, MC_QT, 3, 3, 4, 0, "0..6 (thorough 7) bytes, every split into transfers, up to 3 (4) interruptions, a failure or end at every point" },
    { "write", run_write, MC_QT, 3, 3, 4, 0, "as above for writing" },
    { "driver", run_io, MC_QT, 3, 2, 4, 0, "as above through u_io with every result argument combination" },
    { "sockets", run_net, MC_QT, 3, 2, 4, 0, "as above through u_net_read, u_net_readn, u_net_write and u_net_writen" },
    { "pipe", run_big, MC_QT, 1, 0, 0, 0, "large transfers through a real pipe" },
    { "huge", run_huge, MC_QT, 1, 0, 0, 0, "sizes around 2^31 and 2^32 bytes" },
    { "sleep", run_sleep, MC_QT, 1, 2, 3, 0, "interrupted sleeps" },
    { 0 } };
