// Ring buffer: byte-exact FIFO queue in every buffer mode.
#include "mc.h"
#include <u/libu.h>
#include "two.h"
const char *mc_property = "P01", *mc_level = "model_checking";

enum { MCPY, MCONT, DFLT, MMCONT };
static const char *mode_name[] = { "malloc", "malloc+contiguous", "default", "default+contiguous" };
static const int mode_opts[] = { U_RB_OPT_IMPL_MALLOC, U_RB_OPT_IMPL_MALLOC | U_RB_OPT_USE_CONTIGUOUS_MEM, U_RB_OPT_NONE, U_RB_OPT_USE_CONTIGUOUS_MEM };

static u_rb_t *rb; static size_t sz, hint; static uint64_t wr, rd; static int mode;
static uint64_t epoch;

static unsigned char pat(uint64_t i) { return (unsigned char)(((i + epoch * 7919) * 2654435761ull) >> 13); }

void mc_cleanup(void) { if (rb && mode >= DFLT) u_rb_free(rb); rb = NULL; }

static void check_counts(const char *after)
{
    size_t ready = (size_t)(wr - rd);
    MC_CHECK(u_rb_size(rb) == sz, "size", "%s: size reports %zu, was %zu", after, u_rb_size(rb), sz);
    MC_CHECK(u_rb_ready(rb) == ready, "ready", "%s: ready reports %zu, expected %zu", after, u_rb_ready(rb), ready);
    MC_CHECK(u_rb_avail(rb) == sz - ready, "avail", "%s: avail reports %zu, expected %zu", after, u_rb_avail(rb), sz - ready);
}

static void do_write(size_t k)
{
    mc_op("write %zu", k);
    unsigned char *b = malloc(k ? k : 1);
    for (size_t i = 0; i < k; i++) b[i] = pat(wr + i);
    ssize_t rc = u_rb_write(rb, b, k);
    memset(b, 0xEE, k); free(b);
    if (k > sz) { MC_CHECK(rc == -1, "write-too-big", "write of %zu into a buffer of %zu returned %zd", k, sz, rc); return; }
    size_t av = sz - (size_t)(wr - rd), exp = k < av ? k : av;
    MC_CHECK(rc == (ssize_t)exp, "write-count", "write of %zu with %zu free returned %zd", k, av, rc);
    wr += exp;
}
static void verify(const unsigned char *b, size_t n, const char *who)
{
    for (size_t i = 0; i < n; i++)
        MC_CHECK(b[i] == pat(rd + i), "fifo", "%s: byte %zu of %zu is %02x, the oldest unread byte is %02x", who, i, n, b[i], pat(rd + i));
}
static void do_read(size_t k)
{
    mc_op("read %zu", k);
    unsigned char *b = malloc(k ? k : 1); memset(b, 0xCC, k ? k : 1);
    ssize_t rc = u_rb_read(rb, b, k);
    if (k > sz) { MC_CHECK(rc == -1, "read-too-big", "read of %zu from a buffer of %zu returned %zd", k, sz, rc); free(b); return; }
    size_t rdy = (size_t)(wr - rd), exp = k < rdy ? k : rdy;
    MC_CHECK(rc == (ssize_t)exp, "read-count", "read of %zu with %zu ready returned %zd", k, rdy, rc);
    verify(b, exp, "read");
    for (size_t i = exp; i < k; i++) MC_CHECK(b[i] == 0xCC, "read-overwrite", "read returned %zu but wrote byte %zu", exp, i);
    rd += exp; free(b);
}
static void do_fast(size_t k)
{
    size_t n = k; void *p;
    mc_op("fast-read %zu", k);
    p = u_rb_fast_read(rb, &n);
    size_t rdy = (size_t)(wr - rd), exp = k < rdy ? k : rdy;
    if (mode == MCPY) { MC_CHECK(p == NULL, "fast-unsupported", "no-copy read on a buffer that does not support it returned data"); return; }
    if (k > sz) { MC_CHECK(p == NULL, "fast-too-big", "no-copy read of %zu from %zu succeeded", k, sz); return; }
    if (mode == DFLT && p == NULL) { MC_CHECK(u_rb_ready(rb) == rdy, "fast-refused", "a refused no-copy read consumed data"); return; }
    MC_CHECK(n == exp, "fast-count", "no-copy read of %zu with %zu ready gave %zu", k, rdy, n);
    if (exp == 0) { MC_CHECK(p == NULL, "fast-empty", "no-copy read of nothing returned a pointer"); return; }
    MC_CHECK(p != NULL, "fast-null", "no-copy read of %zu ready bytes returned nothing", exp);
    verify(p, exp, "no-copy read");
    rd += exp;
}

static void start(void)
{
    rb = NULL; wr = rd = 0; epoch = 0;
    int rc = u_rb_create(hint, mode_opts[mode], &rb);
    MC_CHECK(rc == 0 && rb, "create", "creation failed: mode %s size %zu", mode_name[mode], hint);
    sz = u_rb_size(rb);
    mc_note("create mode=%s requested=%zu size=%zu", mode_name[mode], hint, sz);
    MC_CHECK(sz >= hint, "create-size", "size %zu below the requested %zu", sz, hint);
    if (mode <= MCONT) MC_CHECK(sz == hint, "create-size", "size %zu, requested exactly %zu", sz, hint);
    check_counts("create");
}
static void observe(void)
{
    uint64_t h = mc_h64(mode, sz); h = mc_h64(h, wr - rd); h = mc_h64(h, sz ? rd % sz : 0); h = mc_h64(h, epoch);
    mc_state(h);
}
static void finish(void)
{
    /* drain: everything still queued must come out */
    while (wr != rd) do_read((size_t)(wr - rd));
    check_counts("drain");
    mc_outcome(mc_h64(mc_h64(mode, sz), rd));
    u_rb_free(rb); rb = NULL;
}

/* small sizes, every amount */
static void small(void)
{
    mode = mc_choose(2); hint = 1 + (size_t)mc_choose(mc_tier ? 5 : 4);
    int depth = hint == 1 ? 6 : hint == 2 ? 5 : hint == 3 ? 5 : 4;
    if (mc_tier) depth += hint <= 3 ? 1 : 0;
    int k = (int)hint + 2, nk = mode == MCONT ? 3 : 2;
    start();
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(nk * k + 1 + (mode == MCPY));
        if (c == nk * k) { mc_op("clear"); MC_CHECK(u_rb_clear(rb) == 0, "clear", "clear failed"); rd = wr = 0; epoch++; }
        else if (c == nk * k + 1) do_fast(1);
        else if (c / k == 0) do_write((size_t)(c % k));
        else if (c / k == 1) do_read((size_t)(c % k));
        else do_fast((size_t)(c % k));
        check_counts("step"); observe();
    }
    finish();
}
/* long histories with few amounts: many wraps */
static void longrun(void)
{
    static const size_t sizes[] = { 2, 3, 5, 7 };
    mode = mc_choose(2); hint = sizes[mc_choose(4)];
    int depth = mc_tier ? 11 : 8;
    size_t a = hint / 2 + 1, amt[2] = { 1, a };
    if (mc_choose(2)) { amt[0] = hint - 1; amt[1] = hint; }
    start();
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(4);
        if (c & 1) { if (mode == MCONT && (d & 1)) do_fast(amt[c >> 1]); else do_read(amt[c >> 1]); }
        else do_write(amt[c >> 1]);
        check_counts("step"); observe();
    }
    finish();
}
/* default (memory-mapped) implementation: amounts around the page size */
static void paged(void)
{
    mode = 2 + mc_choose(2);
    static const size_t hints[] = { 1, 4096, 4097, 0 };
    hint = hints[mc_choose(mc_tier ? 4 : 3)];
    start();
    size_t amt[] = { 1, sz / 2 + 1, sz - 1, sz, sz + 1, 0 };
    int na = 6, depth = mc_tier ? 4 : 3;
    if (hint != 4096) na = 5, depth = 3;
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(3 * na + 1);
        if (c == 3 * na) { mc_op("clear"); u_rb_clear(rb); rd = wr = 0; epoch++; }
        else if (c / na == 0) do_write(amt[c % na]);
        else if (c / na == 1) do_read(amt[c % na]);
        else do_fast(amt[c % na]);
        check_counts("step"); observe();
    }
    finish();
}
static void pagedlong(void)
{
    mode = 2 + mc_choose(2); hint = 4096;
    start();
    int depth = mc_tier ? 9 : 7;
    size_t amt[2] = { sz / 2 + 3, sz };
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(4);
        if (c & 1) { if (d & 1) do_fast(amt[c >> 1]); else do_read(amt[c >> 1]); }
        else do_write(amt[c >> 1]);
        check_counts("step"); observe();
    }
    finish();
}
/* sizes from a byte's range to megabytes */
static void scale(void)
{
    static const size_t S[] = { 100, 255, 256, 257, 1000, 4095, 32768, 65535, 65536, 65537, 100000, 1048576, 1048577, 3000000 };
    mode = mc_choose(4); int si = mc_choose(14); hint = S[si]; start();
    size_t amt[] = { sz / 3 + 1, sz - 1, sz, sz / 2 }; int depth = si < 6 ? 4 : si < 11 ? 3 : 2; if (mc_tier) depth++;
    for (int d = 0; d < depth; d++) {
        int c = mc_choose(7);
        if (c < 3) do_write(amt[c]); else if (c == 3) do_fast(amt[0]); else if (c == 4) do_fast(sz); else do_read(amt[c - 3]);
        check_counts("step"); observe();
    }
    do_write(sz); do_read(sz / 3); do_write(sz / 3); check_counts("refill"); finish();
}
static void badargs(void)
{
    u_rb_t *r = NULL;
    int c = mc_choose(5); mc_op("bad argument case %d", c);
    switch (c) {
    case 0: MC_CHECK(u_rb_create(0, U_RB_OPT_IMPL_MALLOC, &r) != 0, "create-zero", "zero-sized buffer created"); break;
    case 1: u_rb_free(NULL); MC_CHECK(u_rb_clear(NULL) == -1, "null", "clear(NULL) accepted"); break;
    case 2: MC_CHECK(u_rb_write(NULL, "a", 1) == -1 && u_rb_read(NULL, (char[1]){0}, 1) == -1, "null", "NULL buffer accepted"); break;
    case 3: u_rb_create(2, U_RB_OPT_IMPL_MALLOC, &r); MC_CHECK(u_rb_write(r, NULL, 1) == -1 && u_rb_ready(r) == 0, "null", "NULL source accepted"); u_rb_free(r); break;
    case 4: u_rb_create(2, U_RB_OPT_IMPL_MALLOC, &r); u_rb_write(r, "a", 1); MC_CHECK(u_rb_read(r, NULL, 1) == -1 && u_rb_ready(r) == 1, "null", "NULL destination accepted"); u_rb_free(r); break;
    }
    mc_outcome(1000 + c);
}
/* two buffers at the same time, of every pair of kinds */
static void two(void)
{
    int kinds = mc_choose(16), D = (mc_tier ? 5 : 4) - ((kinds & 2) || kinds >> 3); sw_begin(); SW(rb); SW(sz); SW(hint); SW(wr); SW(rd); SW(mode); SW(epoch);
    for (int w = 0; w < 2; w++) { sw_to(w); mode = w ? kinds >> 2 : kinds & 3; hint = mode >= DFLT ? 4096 : w ? 5 : 3; start(); epoch = 1000 * w; }
    for (int d = 0; d < D; d++) { int c = mc_choose(8), w = c & 1; sw_to(w); switch (c >> 1) { case 0: do_write(sz - 1); break; case 1: do_read(2); break; case 2: do_fast(sz / 2); break; default: mc_op("clear"); MC_CHECK(u_rb_clear(rb) == 0, "clear", "clear failed"); rd = wr = 0; epoch++; } check_counts("step"); sw_to(!w); check_counts("meanwhile"); }
    sw_to(0); finish(); sw_to(1); check_counts("the other one freed"); do_write(1); finish();
}
const struct mc_scn mc_scns[] = {
    { "small", small, MC_QT, 4, 0, 0, 0, "malloc modes, sizes 1..4 (1..5 thorough), every write/read/no-copy-read amount 0..size+1 and clear, all sequences to depth 4..6 (one more when thorough)" },
    { "longrun", longrun, MC_QT, 6, 0, 0, 0, "malloc modes, sizes 2,3,5,7, two amounts, all write/read sequences to depth 8 (11)" },
    { "paged", paged, MC_QT, 4, 0, 0, 0, "default implementation, amounts {1,half,size-1,size,size+1,0}, all sequences to depth 3 (4)" },
    { "pagedlong", pagedlong, MC_QT, 4, 0, 0, 0, "default implementation, two amounts, all write/read sequences to depth 7 (9)" },
    { "scale", scale, MC_QT, 3, 0, 0, 0, "every mode, 14 sizes from 100 to 3000000, writes, reads and no-copy reads of a third, a half, all but one and all: all sequences to depth 4, 3 or 2 (one more), then a refill across the end" },
    { "two buffers", two, MC_QT, 4, 0, 0, 0, "every history of 4 (5) operations (3 (4) with a memory-mapped one) on two buffers of every pair of kinds" },
    { "badargs", badargs, MC_QT, 0, 0, 0, 0, "refused arguments" },
    { 0 }
};
