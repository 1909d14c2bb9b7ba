#include "mc.h"
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <u/libu.h>

int facility = LOG_LOCAL0;

#define MAXC 8192
#define MAXW 16
#define TRACE_SZ 65536
#define NSHARD (1u << 22)
#define SETBITS 23
#define SETSZ (1u << SETBITS)
#define MAXKNOWN 256
#define NSAMPLE 4

struct wk {
    volatile uint64_t execs, trans, pruned, discarded;
    volatile int len;
    volatile int done;
    int choice[MAXC];
};

#define NAGED 8
struct shm {
    volatile int stop, viol, capped;
    char vkey[256], vmsg[4096];
    int vlen, vchoice[MAXC];
    volatile int nondet;
    char ndmsg[512];
    uint64_t states, outcomes, dropped;
    uint64_t known_seen[MAXKNOWN];
    uint64_t max_len;
    char trace[TRACE_SZ];
    volatile uint64_t aged_at[NAGED];
    int nsample;
    char sample[NSAMPLE][1500];
    struct wk w[MAXW];
    unsigned char claimed[NSHARD / 8];
    uint64_t set_s[SETSZ], set_o[SETSZ], set_p[SETSZ];
};

static struct shm *S;
static struct wk *W;
static int wid, nworkers = 8;
int mc_tier, mc_replaying;
static const struct mc_scn *cur;
static jmp_buf jb;
static int in_run;
static int choice[MAXC], nalt[MAXC], cost[MAXC];
static int pos, forced, used, budget;
static uint64_t shard_idx;
static int shard_done;
static char trace[TRACE_SZ];
static size_t tlen;
static int tracing;
static double deadline;
static char *known_keys[MAXKNOWN];
static int nknown;
static char scratch_root[256], scratch[320];

const struct mc_scn *mc_cur(void) { return cur; }
__attribute__((weak)) void mc_cleanup(void) {}
__attribute__((weak)) void mc_init(void) {}
static int null_hook(void *a, int l, const char *s) { (void)a; (void)l; (void)s; return 0; }

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

/* ---------- hashing ---------- */
uint64_t mc_hash(uint64_t h, const void *p, size_t n)
{
    const unsigned char *b = p;
    h ^= n * 0x9E3779B97F4A7C15ull;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; b += 8; n -= 8; }
    while (n--) { h = (h ^ *b++) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; }
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}

static int set_add(uint64_t *set, uint64_t *count, uint64_t h)
{
    if (h == 0) h = 1;
    uint64_t i = h & (SETSZ - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (SETSZ - 1)) {
        uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
        if (v == h) return 0;
        if (v == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&set[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_add_fetch(count, 1, __ATOMIC_RELAXED);
                return 1;
            }
            if (z == h) return 0;
        }
    }
    __atomic_add_fetch(&S->dropped, 1, __ATOMIC_RELAXED);
    return 0;
}

static int aged;   /* a history run: the library keeps its state from one execution to the next */
void mc_state(uint64_t h) { if (!aged) set_add(S->set_s, &S->states, h); }
void mc_outcome(uint64_t h) { if (!aged) set_add(S->set_o, &S->outcomes, h); }

/* ---------- trace ---------- */
static void vtrace(const char *fmt, va_list ap)
{
    if (!tracing || tlen >= TRACE_SZ - 2) return;
    int r = vsnprintf(trace + tlen, TRACE_SZ - 1 - tlen, fmt, ap);
    if (r > 0) tlen += (size_t)r;
    if (tlen > TRACE_SZ - 2) tlen = TRACE_SZ - 2;
    trace[tlen++] = '\n'; trace[tlen] = 0;
    if (mc_replaying && S) memcpy(S->trace, trace, tlen + 1);
}
void mc_op(const char *fmt, ...) { if (W) W->trans++; if (tracing) { va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); } }
void mc_note(const char *fmt, ...) { if (tracing) { va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); } }
void mc_transitions(uint64_t n) { if (W) W->trans += n; }

/* ---------- ending an execution ---------- */
enum { E_OK = 1, E_SKIP, E_PRUNE, E_DISCARD, E_FAIL, E_KNOWN };
static void end_exec(int how) __attribute__((noreturn));
static void end_exec(int how) { if (!in_run) { fprintf(stderr, "mc: end outside a run\n"); _exit(3); } longjmp(jb, how); }

void mc_discard(void) { end_exec(E_DISCARD); }

static int known_index(const char *key) { for (int i = 0; i < nknown; i++) if (!strcmp(known_keys[i], key)) return i; return -1; }
int mc_is_known(const char *key) { return known_index(key) >= 0; }
void mc_known(const char *key)
{
    int i = known_index(key);
    if (i < 0) mc_fail(key, "unlisted finding");
    __atomic_add_fetch(&S->known_seen[i], 1, __ATOMIC_RELAXED);
}

void mc_fail(const char *key, const char *fmt, ...)
{
    int k = known_index(key);
    if (k >= 0) {
        __atomic_add_fetch(&S->known_seen[k], 1, __ATOMIC_RELAXED);
        end_exec(E_KNOWN);
    }
    int z = 0;
    if (__atomic_compare_exchange_n(&S->viol, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
        va_list ap; va_start(ap, fmt); vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); va_end(ap);
        snprintf(S->vkey, sizeof S->vkey, "%s", key);
        S->vlen = pos; memcpy(S->vchoice, aged ? (int *)W->choice : choice, sizeof(int) * (size_t)pos);
        __atomic_store_n(&S->viol, 2, __ATOMIC_SEQ_CST);
    }
    S->stop = 1;
    end_exec(E_FAIL);
}

/* ---------- choices ---------- */
static void nondet(const char *what, int a, int b)
{
    if (aged) _exit(0);
    snprintf(S->ndmsg, sizeof S->ndmsg, "%s: scenario %s, choice %d: %d vs %d", what, cur->name, pos, a, b);
    S->nondet = 1; S->stop = 1;
    _exit(3);
}

static int take(int n, int c)
{
    if (n <= 0) { fprintf(stderr, "mc: bad choice arity %d\n", n); _exit(3); }
    if (pos >= MAXC) { fprintf(stderr, "mc: too many choices\n"); _exit(3); }
    int v;
    if (pos < forced) {
        if (mc_replaying && nalt[pos] == 0) nalt[pos] = n;
        if (nalt[pos] != n) nondet("arity changed while replaying a prefix", nalt[pos], n);
        v = choice[pos];
        if (v >= n) nondet("choice out of range", v, n);
    } else {
        v = 0; nalt[pos] = n; choice[pos] = 0;
    }
    cost[pos] = c;
    if (aged && !c) {   /* history runs visit the choices in other orders as well */
        int o = aged - 1; v = (v + (pos < 3 ? o >> 1 : 0)) % n; if (o & 1) v = n - 1 - v;
    }
    if (c && v) used++;
    W->choice[pos] = v; pos++; W->len = pos;
    if (!mc_replaying && !aged && pos == cur->shard && !shard_done) {
        shard_done = 1;
        uint64_t i = shard_idx;
        int mine;
        if (i >= NSHARD) { fprintf(stderr, "mc: too many shards\n"); _exit(3); }
        unsigned char bit = (unsigned char)(1u << (i & 7));
        static uint64_t last = ~0ull; static int last_mine;
        static const struct mc_scn *last_scn;
        if (last == i && last_scn == cur) mine = last_mine;
        else {
            unsigned char old = __atomic_fetch_or(&S->claimed[i >> 3], bit, __ATOMIC_SEQ_CST);
            mine = !(old & bit);
            last = i; last_mine = mine; last_scn = cur;
        }
        if (!mine) end_exec(E_SKIP);
    }
    return v;
}

int mc_choose(int n) { return take(n, 0); }
int mc_dev(int n)
{
    if (n <= 1) return 0;
    if (used >= budget) return 0;   /* no budget left: not a choice point */
    return take(n, 1);
}
int mc_dev_used(void) { return used; }

void mc_prune(uint64_t h, int remaining)
{
    if (mc_replaying || aged || pos < forced || pos < cur->shard) return;
    if (remaining < 0) remaining = 0;
    if (remaining > 63) remaining = 63;
    h = mc_h64(h, (uint64_t)used);
    uint64_t tag = (h & ~63ull); if (!tag) tag = 64;
    uint64_t want = tag | (uint64_t)remaining;
    uint64_t i = (h >> 20) & (SETSZ - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (SETSZ - 1)) {
        uint64_t v = __atomic_load_n(&S->set_p[i], __ATOMIC_RELAXED);
    again:
        if (v == 0) {
            if (__atomic_compare_exchange_n(&S->set_p[i], &v, want, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return;
        }
        if ((v & ~63ull) == tag) {
            if ((int)(v & 63) >= remaining) end_exec(E_PRUNE);
            if (__atomic_compare_exchange_n(&S->set_p[i], &v, want, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return;
            goto again;
        }
    }
}

/* ---------- allocator ---------- */
#define TABSZ (1u << 16)
struct blk { void *p; size_t n; };
static struct blk tab[TABSZ];
static uint32_t used_slots[TABSZ]; static uint32_t nused_slots;
static size_t nlive, live_bytes;
static uint64_t ncalls;
int mc_oom, mc_oom_hits, mc_fill = 0xA5;
#define TOMB ((void *)1)

static struct blk *tfind(void *p)
{
    uint32_t i = (uint32_t)(((uintptr_t)p >> 4) * 2654435761u) & (TABSZ - 1);
    for (uint32_t k = 0; k < TABSZ; k++, i = (i + 1) & (TABSZ - 1)) {
        if (tab[i].p == p) return &tab[i];
        if (!tab[i].p) return NULL;
    }
    return NULL;
}
static void tadd(void *p, size_t n)
{
    if (nlive > TABSZ / 2 || nused_slots >= TABSZ - 8) mc_fail("runaway-allocation", "more than %u blocks in use or too many allocations", TABSZ / 2);
    uint32_t i = (uint32_t)(((uintptr_t)p >> 4) * 2654435761u) & (TABSZ - 1);
    while (tab[i].p && tab[i].p != TOMB) i = (i + 1) & (TABSZ - 1);
    if (!tab[i].p) used_slots[nused_slots++] = i;
    tab[i].p = p; tab[i].n = n; nlive++; live_bytes += n;
    if (live_bytes > ((size_t)512 << 20)) mc_fail("runaway-allocation", "more than 512 MiB in use");
}
static int oom_here(void)
{
    ncalls++;
    if (mc_oom && in_run && mc_dev(2)) { mc_oom_hits++; mc_note("  ! allocation request %llu fails", (unsigned long long)ncalls); return 1; }
    return 0;
}
void *mc_malloc(size_t n)
{
    if (oom_here()) return NULL;
    if (n > ((size_t)1 << 30)) return NULL;
    void *p = malloc(n);
    if (!p) return NULL;
    memset(p, mc_fill, n);
    tadd(p, n); return p;
}
void *mc_calloc(size_t a, size_t b)
{
    if (oom_here()) return NULL;
    if (b && a > ((size_t)1 << 30) / b) return NULL;
    void *p = calloc(a, b);
    if (!p) return NULL;
    tadd(p, a * b); return p;
}
static void tdel(struct blk *b) { nlive--; live_bytes -= b->n; b->p = TOMB; }
void mc_free(void *p)
{
    if (!p) return;
    struct blk *b = tfind(p);
    if (!b) { if (in_run) mc_fail("bad-free", "release of a pointer that is not a live block of the installed allocator"); free(p); return; }
    memset(p, 0x5A, b->n);
    tdel(b); free(p);
}
void *mc_realloc(void *p, size_t n)
{
    if (!p) return mc_malloc(n);
    struct blk *b = tfind(p);
    if (!b) mc_fail("bad-realloc", "realloc of a pointer that is not a live block of the installed allocator");
    if (n == 0) { mc_free(p); return NULL; }
    if (oom_here()) return NULL;
    if (n > ((size_t)1 << 30)) return NULL;
    void *q = malloc(n);
    if (!q) return NULL;
    size_t k = b->n < n ? b->n : n;
    memcpy(q, p, k);
    if (n > k) memset((char *)q + k, mc_fill, n - k);
    memset(p, 0x5A, b->n);
    tdel(b); free(p);
    tadd(q, n); return q;
}
size_t mc_live(void) { return nlive; }
int mc_is_live(void *p) { return p && p != TOMB && tfind(p) != NULL; }
uint64_t mc_alloc_calls(void) { return ncalls; }
static void mem_reset(void)
{
    for (uint32_t k = 0; k < nused_slots; k++) {
        struct blk *b = &tab[used_slots[k]];
        if (b->p && b->p != TOMB) free(b->p);
        b->p = NULL;
    }
    nused_slots = 0; nlive = 0; live_bytes = 0; ncalls = 0; mc_oom = 0; mc_oom_hits = 0; mc_fill = 0xA5;
}
void mc_mem_install(void)
{
    u_memory_set_malloc(mc_malloc); u_memory_set_calloc(mc_calloc);
    u_memory_set_realloc(mc_realloc); u_memory_set_free(mc_free);
}

/* ---------- misc ---------- */
char *mc_esc(const void *p, size_t n)
{
    static char bufs[8][1024]; static int r; char *o = bufs[r = (r + 1) & 7]; size_t k = 0;
    const unsigned char *b = p;
    for (size_t i = 0; i < n && k < 1000; i++) {
        if (b[i] >= 32 && b[i] < 127 && b[i] != '\\') o[k++] = (char)b[i];
        else if (b[i] == '\n') { o[k++] = '\\'; o[k++] = 'n'; }
        else if (b[i] == '\t') { o[k++] = '\\'; o[k++] = 't'; }
        else k += (size_t)sprintf(o + k, "\\x%02x", b[i]);
    }
    o[k] = 0; return o;
}
char *mc_escs(const char *s) { return s ? mc_esc(s, strlen(s)) : (char *)"(null)"; }

const char *mc_scratch(void)
{
    if (!scratch[0]) {
        snprintf(scratch, sizeof scratch, "%s/w%d", scratch_root, (int)getpid());
        mkdir(scratch_root, 0700); mkdir(scratch, 0700);
    }
    return scratch;
}
static int rm_cb(const char *p, const struct stat *sb, int t, struct FTW *f) { (void)sb; (void)t; (void)f; return remove(p); }
static void rm_scratch(void)
{
    if (!strncmp(scratch_root, "/tmp/mc-", 8)) nftw(scratch_root, rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}

/* ---------- one execution ---------- */
/* the library's own writable data (gathered in one section by check.py): every execution starts from the same contents */
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
static char *lib0;
__attribute__((no_sanitize("address"), noinline)) static void rawcopy(char *d, const char *s, size_t n)
{
    __asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");  /* not seen by the sanitizer */
}
static void lib_restore(void)
{
    if (!__start_libdata) return;
    size_t n = (size_t)(__stop_libdata - __start_libdata);
    if (!lib0) { lib0 = malloc(n + 1); rawcopy(lib0, __start_libdata, n); }
    else rawcopy(__start_libdata, lib0, n);
}

static size_t live_at_end;
static int run_one(void)
{
    if (!aged) lib_restore();
    pos = 0; used = 0; tlen = 0; trace[0] = 0; shard_done = 0;
    errno = 0;
    W->len = 0;
    u_log_set_lock(NULL, NULL); u_log_set_unlock(NULL, NULL);
    u_log_set_hook(null_hook, NULL, NULL, NULL);
    mc_mem_install();
    int how = setjmp(jb);
    if (!how) { in_run = 1; cur->run(); how = E_OK; }
    in_run = 0;
    mc_cleanup();
    live_at_end = mc_live();
    mem_reset();
    return how;
}

static void add_sample(void)
{
    int i = __atomic_fetch_add(&S->nsample, 1, __ATOMIC_SEQ_CST);
    if (i >= NSAMPLE) return;
    snprintf(S->sample[i], sizeof S->sample[i], "[%s] %s", cur->name, trace);
}

/* the last position whose next alternative is still within bounds, or -1 */
static int backtrack(void)
{
    int usedpfx = 0, best = -1;
    for (int i = 0; i < pos; i++) {
        int can = choice[i] + 1 < nalt[i];
        if (can && cost[i]) { if (usedpfx + 1 > budget) can = 0; }
        if (can) best = i;
        if (cost[i] && choice[i]) usedpfx++;
    }
    return best;
}

/* ---------- history runs: the first executions of a scenario, in order `o', in one life of the library ---------- */
static double aged_until; static int aged_failed;
static uint64_t aged_run(int o, uint64_t last)
{
    uint64_t n = 0; char *was = NULL; size_t sz = 0;
    if (__start_libdata) { sz = (size_t)(__stop_libdata - __start_libdata); was = malloc(sz + 1); }
    lib_restore(); aged = o + 1; forced = 0; budget = mc_tier ? cur->dev_thorough : cur->dev_quick; memset(nalt, 0, sizeof nalt);
    for (;;) {
        S->aged_at[o] = n;
        if (was) rawcopy(was, __start_libdata, sz);
        tracing = mc_replaying && n == last;
        int how = run_one(); n++;
        if (how == E_FAIL) { aged_failed = 1; break; }
        if (S->stop) break;
        /* cut short from within a callback, or memory was left to this engine to release: this execution does not count */
        if (was && (how != E_OK || live_at_end)) rawcopy(__start_libdata, was, sz);
        if (n > last || (!mc_replaying && (n & 3) == 0 && now() > aged_until)) break;
        int best = backtrack(); if (best < 0) break;
        choice[best]++; forced = best + 1;
    }
    return n;
}
/* 0: passed, 1: failed, 2: died, 3: hang */
static int aged_child(int o, uint64_t last, double limit, int replay)
{
    fflush(NULL); S->stop = 0; S->viol = 0; S->trace[0] = 0; S->vkey[0] = S->vmsg[0] = 0;
    pid_t p = fork(); if (p < 0) return 0;
    if (p == 0) { char errf[320]; scratch[0] = 0; wid = o; W = &S->w[o]; snprintf(errf, sizeof errf, "%s/replay.err", scratch_root); mkdir(scratch_root, 0700); int fd = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } mc_replaying = replay; aged_run(o, last); _exit(aged_failed ? 10 : 0); }
    double t0 = now(); int st; for (;;) { if (waitpid(p, &st, WNOHANG) == p) break; if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 3; } usleep(2000); }
    return WIFEXITED(st) && WEXITSTATUS(st) == 10 ? 1 : WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3) ? 0 : 2;
}
/* the order whose history fails, or -1 */
static int aged_pass(uint64_t *total)
{
    pid_t pid[NAGED]; int bad = -1; uint64_t seen[NAGED] = { 0 }; double at[NAGED]; aged_until = now() + (mc_tier ? 4 : 0.6); *total = 0;
    S->stop = 0; S->viol = 0; memset(S->w, 0, sizeof S->w[0] * NAGED); memset((void *)S->aged_at, 0, sizeof S->aged_at); fflush(NULL);
    for (int o = 0; o < NAGED; o++) { pid[o] = fork(); at[o] = now(); if (pid[o] == 0) { scratch[0] = 0; wid = o; W = &S->w[o]; char errf[320]; snprintf(errf, sizeof errf, "%s/w%d.err", scratch_root, o); mkdir(scratch_root, 0700); int fd = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); } uint64_t n = aged_run(o, mc_tier ? 200000 : 20000); S->w[o].execs = n; _exit(aged_failed ? 10 : 0); } }
    for (int left = NAGED; left; ) { left = 0; for (int o = 0; o < NAGED; o++) if (pid[o] > 0) { int st; left++; if (waitpid(pid[o], &st, WNOHANG) == pid[o]) { pid[o] = 0; if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) && bad < 0) { bad = o; S->stop = 1; } } else { uint64_t e = S->aged_at[o] + S->w[o].trans; if (e != seen[o]) seen[o] = e, at[o] = now(); else if (now() - at[o] > 30) { kill(pid[o], SIGKILL); if (bad < 0) { bad = o; S->stop = 1; } at[o] = now() + 1e6; } } } if (left) usleep(2000); }
    for (int o = 0; o < NAGED; o++) *total += S->w[o].execs;
    return bad;
}

static void worker(void)
{
    W = &S->w[wid];
    forced = 0; shard_idx = 0;
    budget = mc_tier ? cur->dev_thorough : cur->dev_quick;
    uint64_t n = 0;
    for (;;) {
        uint64_t ex = W->execs;
        tracing = wid == 0 && (ex == 3 || ex == 300 || ex == 20000);
        int how = run_one();
        int passed_shard = shard_done;
        if (how == E_SKIP) ;
        else if (how == E_PRUNE) W->pruned++, W->execs++;
        else if (how == E_DISCARD) { if (passed_shard || wid == 0) W->discarded++; }
        else if (passed_shard || wid == 0) {
            W->execs++;
            if (tracing && how == E_OK) add_sample();
            if ((uint64_t)pos > S->max_len) S->max_len = (uint64_t)pos;
        }
        if (S->stop) break;
        if (how == E_FAIL) break;
        if ((++n & 255) == 0 && now() > deadline) { S->capped = 1; break; }
        int best = backtrack();
        if (best < 0) break;
        /* shard bookkeeping: a different length-`shard' prefix comes next iff best < shard */
        if (best < cur->shard && passed_shard) shard_idx++;
        choice[best]++; forced = best + 1;
    }
    W->done = 1;
    _exit(S->stop && S->nondet ? 3 : 0);
}

/* ---------- replay ---------- */
/* returns: 0 passed, 1 mc_fail, 2 died, 3 hang, 4 nondeterminism */
static int replay_child(const int *ch, int n, double limit, char *key, size_t ksz, char *msg, size_t msz, char *tr, size_t trsz)
{
    S->stop = 0; S->viol = 0; S->nondet = 0; S->trace[0] = 0; S->vkey[0] = 0; S->vmsg[0] = 0;
    char errf[320]; snprintf(errf, sizeof errf, "%s/replay.err", scratch_root);
    mkdir(scratch_root, 0700);
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        mc_replaying = 1; tracing = 1; wid = 0; W = &S->w[0]; scratch[0] = 0;
        budget = mc_tier ? cur->dev_thorough : cur->dev_quick;
        memset(nalt, 0, sizeof nalt);
        memcpy(choice, ch, sizeof(int) * (size_t)n); forced = n;
        int how = run_one();
        _exit(how == E_FAIL ? 10 : how == E_KNOWN ? 11 : 0);
    }
    double t0 = now(); int st = 0, rc = -1;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); rc = 3; break; }
        usleep(2000);
    }
    key[0] = msg[0] = 0;
    if (rc == 3) { snprintf(key, ksz, "hang"); snprintf(msg, msz, "no progress within %.0f s", limit); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) rc = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) rc = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { rc = 1; snprintf(key, ksz, "%s", S->vkey); snprintf(msg, msz, "%s", S->vmsg); }
    else if (S->nondet) { rc = 4; snprintf(msg, msz, "%s", S->ndmsg); }
    else {
        rc = 2;
        char line[512]; char sum[400] = "";
        FILE *f = fopen(errf, "r");
        if (f) {
            while (fgets(line, sizeof line, f)) {
                if (!strncmp(line, "SUMMARY:", 8)) { line[strcspn(line, "\n")] = 0; snprintf(sum, sizeof sum, "%.380s", line); }
                else if (!sum[0] && strstr(line, "ERROR: AddressSanitizer")) { line[strcspn(line, "\n")] = 0; snprintf(sum, sizeof sum, "%.380s", line); }
            }
            fclose(f);
        }
        snprintf(key, ksz, "crash");
        if (WIFSIGNALED(st)) snprintf(msg, msz, "died by signal %d %s", WTERMSIG(st), sum);
        else snprintf(msg, msz, "exit status %d %s", WEXITSTATUS(st), sum);
    }
    snprintf(tr, trsz, "%s", S->trace);
    return rc;
}

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void load_known(const char *path)
{
    /* lines: <property>\t<key>\t<text> */
    FILE *f = path ? fopen(path, "r") : NULL; char line[2048];
    if (!f) return;
    while (fgets(line, sizeof line, f) && nknown < MAXKNOWN) {
        line[strcspn(line, "\n")] = 0;
        char *t = strchr(line, '\t'); if (!t) continue; *t = 0;
        char *k = t + 1; t = strchr(k, '\t'); if (t) *t = 0;
        if (!strcmp(line, mc_property)) known_keys[nknown++] = strdup(k);
    }
    fclose(f);
}

/* usage: prog --tier quick|thorough --out result.json [--known file] [--only scn] [--replay scn c,c,c] [--limit secs] */
int main(int argc, char **argv)
{
    const char *out = NULL, *only = NULL, *rscn = NULL, *rch = NULL, *known = NULL; double limit = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--tier")) mc_tier = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--only")) only = argv[++i];
        else if (!strcmp(argv[i], "--known")) known = argv[++i];
        else if (!strcmp(argv[i], "--limit")) limit = atof(argv[++i]);
        else if (!strcmp(argv[i], "--workers")) nworkers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--replay")) { rscn = argv[++i]; rch = argv[++i]; }
    }
    if (nworkers > MAXW) nworkers = MAXW;
    if (!limit) limit = mc_tier ? 780 : 240;
    load_known(known);
    snprintf(scratch_root, sizeof scratch_root, "/tmp/mc-%s-%d", mc_property, (int)getpid());
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    W = &S->w[0];
    mc_init();
    static int ch[MAXC]; static char key[256], msg[4096], tr[TRACE_SZ];
    if (rscn) {
        int n = 0; for (char *p = strtok((char *)rch, ","); p; p = strtok(NULL, ",")) ch[n++] = atoi(p);
        for (cur = mc_scns; cur->name && strcmp(cur->name, rscn); cur++) ;
        if (!cur->name) { fprintf(stderr, "no scenario %s\n", rscn); return 3; }
        if (ch[0] < 0) { int o = -1 - ch[0], rc = o < NAGED && n == 2 ? aged_child(o, (uint64_t)ch[1], 120, 1) : 0; printf("history of %d executions, then:\n%sreplay result: %s %s %s\n", ch[1], S->trace, rc ? "FAILED" : "PASSED", S->vkey, S->vmsg); rm_scratch(); return rc ? 1 : 0; }
        int rc = replay_child(ch, n, 60, key, sizeof key, msg, sizeof msg, tr, sizeof tr);
        printf("%s", tr);
        char errf[320]; snprintf(errf, sizeof errf, "%s/replay.err", scratch_root);
        FILE *f = fopen(errf, "r"); int c; if (f) { while ((c = fgetc(f)) != EOF) putchar(c); fclose(f); }
        printf("replay result: %s %s %s\n", rc == 0 ? "PASSED" : rc == 4 ? "NONDETERMINISTIC" : "FAILED", key, msg);
        rm_scratch();
        return rc == 0 ? 0 : rc == 4 ? 3 : 1;
    }
    FILE *o = out ? fopen(out, "w") : stdout;
    if (!o) { perror(out); return 3; }
    double t0 = now(); deadline = t0 + limit;
    uint64_t aged_total = 0, T_ex = 0, T_tr = 0, T_pr = 0, T_di = 0; int ret = 0, capped = 0, first = 1;
    fprintf(o, "{\"property\":\"%s\",\"level\":\"%s\",\"scenarios\":[", mc_property, mc_level);
    for (cur = mc_scns; cur->name && !ret; cur++) {
        if (!(cur->tiers & (mc_tier ? MC_T : MC_Q))) continue;
        if (only && strcmp(only, cur->name)) continue;
        memset(S->claimed, 0, sizeof S->claimed);
        /* prune/visited table is per scenario */
        madvise(S->set_p, sizeof S->set_p, MADV_REMOVE); memset(S->w, 0, sizeof S->w);
        if (S->set_p[0] || S->set_p[SETSZ / 2]) memset(S->set_p, 0, sizeof S->set_p);
        S->stop = 0; S->viol = 0; S->max_len = 0; S->capped = 0;
        uint64_t st0 = S->states, oc0 = S->outcomes;
        double ts = now();
        pid_t pid[MAXW]; uint64_t seen[MAXW]; double seent[MAXW]; int alive = 0;
        fflush(NULL);
        for (int i = 0; i < nworkers; i++) {
            pid[i] = fork();
            if (pid[i] == 0) {
                wid = i; scratch[0] = 0;
                char errf[320]; snprintf(errf, sizeof errf, "%s/w%d.err", scratch_root, i);
                mkdir(scratch_root, 0700);
                int fd = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0600);
                if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
                worker();
            }
            if (pid[i] < 0) { perror("fork"); return 3; }
            seen[i] = 0; seent[i] = now(); alive++;
        }
        int suspect = -1; const char *why = "";
        while (alive) {
            int st; pid_t r = waitpid(-1, &st, WNOHANG);
            if (r > 0) {
                int i; for (i = 0; i < nworkers && pid[i] != r; i++) ;
                if (i == nworkers) continue;
                pid[i] = 0; alive--;
                if (!S->w[i].done && !S->nondet && suspect < 0) { suspect = i; why = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "killed" : "died"; S->stop = 1; }
                continue;
            }
            for (int i = 0; i < nworkers; i++) if (pid[i]) {
                uint64_t e = S->w[i].execs + S->w[i].discarded + S->w[i].trans;
                if (e != seen[i]) { seen[i] = e; seent[i] = now(); }
                else if (now() - seent[i] > 25 && !S->w[i].done) {
                    /* skipping over foreign shards makes no visible progress but changes len */
                    kill(pid[i], SIGKILL); if (suspect < 0) { suspect = i; why = "hang"; } S->stop = 1; seent[i] = now() + 1e6;
                }
            }
            usleep(S->stop ? 1000 : 5000);
        }
        uint64_t ex = 0, tr_ = 0, pr = 0, di = 0;
        for (int i = 0; i < nworkers; i++) { ex += S->w[i].execs; tr_ += S->w[i].trans; pr += S->w[i].pruned; di += S->w[i].discarded; }
        T_ex += ex; T_tr += tr_; T_pr += pr; T_di += di;
        int cap = S->capped; capped |= cap;
        /* the same executions again, in histories that share one life of the library */
        uint64_t aged_n = 0; int ao = -1, arc = 0;
        if (!S->nondet && S->viol != 2 && suspect < 0 && !cap && now() < deadline && __start_libdata) {
            ao = aged_pass(&aged_n);
            if (ao >= 0) { uint64_t an = S->aged_at[ao]; for (int k = 0; k < 2; k++) { int r = aged_child(ao, an, 120, 1); if (k && r != arc) r = 0; arc = r; if (!r) break; }
                if (!arc) fprintf(stderr, "mc: scenario %s: a failure in a history of %llu executions did not come back\n", cur->name, (unsigned long long)an);
                else { ch[0] = -1 - ao; ch[1] = (int)an; snprintf(key, sizeof key, "%s", arc == 1 ? S->vkey : arc == 2 ? "crash" : "hang"); snprintf(msg, sizeof msg, "%s (after %llu other uses of the library in the same process)", arc == 1 ? S->vmsg : "", (unsigned long long)an); snprintf(tr, sizeof tr, "%s", S->trace); } }
            S->viol = 0; S->stop = 0; aged_total += aged_n;
        }
        fprintf(o, "%s{\"name\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"discarded\":%llu,\"new_states\":%llu,\"new_outcomes\":%llu,\"longest_choice_sequence\":%llu,\"in_histories\":%llu,\"deviation_bound\":%d,\"complete\":%s,\"wall_s\":%.2f,\"about\":",
            first ? "" : ",", cur->name, (unsigned long long)ex, (unsigned long long)tr_, (unsigned long long)pr, (unsigned long long)di,
            (unsigned long long)(S->states - st0), (unsigned long long)(S->outcomes - oc0), (unsigned long long)S->max_len, (unsigned long long)aged_n,
            mc_tier ? cur->dev_thorough : cur->dev_quick, cap ? "false" : "true", now() - ts);
        jstr(o, cur->about ? cur->about : ""); fputc('}', o); first = 0;
        int vl = arc ? 2 : -1; static char vkey[256], vmsg[4096];
        if (S->nondet) { fprintf(stderr, "mc: NONDETERMINISM %s\n", S->ndmsg); ret = 3; break; }
        int S_viol2 = S->viol == 2;
        if (S->viol == 2) { vl = S->vlen; memcpy(ch, S->vchoice, sizeof(int) * (size_t)vl); snprintf(vkey, sizeof vkey, "%s", S->vkey); snprintf(vmsg, sizeof vmsg, "%s", S->vmsg); }
        else if (suspect >= 0) { vl = S->w[suspect].len; memcpy(ch, (int *)S->w[suspect].choice, sizeof(int) * (size_t)vl); snprintf(vkey, sizeof vkey, "%s", why); vmsg[0] = 0; }
        if (vl >= 0) {
          if (!arc) {
            int rc1 = replay_child(ch, vl, 90, key, sizeof key, msg, sizeof msg, tr, sizeof tr);
            int rc2 = rc1 == 3 ? 3 : replay_child(ch, vl, 90, key, sizeof key, msg, sizeof msg, tr, sizeof tr);
            if ((rc1 == 0 || rc1 != rc2) && rc1 != 4 && rc2 != 4 && (S_viol2 || (suspect >= 0 && !strcmp(why, "died")))) {
                /* the failure was observed on the real code but depends on more than the choices (uninitialised or left over memory) */
                if (!rc1 || !key[0]) { snprintf(key, sizeof key, "%s", vkey); snprintf(msg, sizeof msg, "%s", vmsg); }
                if (!S_viol2 && !msg[0]) { char ef[320], ln[512]; snprintf(ef, sizeof ef, "%s/w%d.err", scratch_root, suspect); FILE *f = fopen(ef, "r"); while (f && fgets(ln, sizeof ln, f)) if (!strncmp(ln, "SUMMARY:", 8)) { ln[strcspn(ln, "\n")] = 0; snprintf(msg, sizeof msg, "%s", ln); } if (f) fclose(f); }
                size_t l = strlen(msg); snprintf(msg + l, sizeof msg - l, " (observed; this execution alone does not always fail: it depends on uninitialised or left over memory)");
                rc1 = rc2 = 1;
            }
            if (rc1 == 0 || rc1 == 4 || rc1 != rc2) {
                fprintf(stderr, "mc: scenario %s: failure (%s: %s) did not replay (%d,%d) %s\n", cur->name, vkey, vmsg, rc1, rc2, msg);
                char errf[320]; snprintf(errf, sizeof errf, "%s/w%d.err", scratch_root, suspect < 0 ? 0 : suspect);
                FILE *f = fopen(errf, "r"); int c; if (f) { while ((c = fgetc(f)) != EOF) fputc(c, stderr); fclose(f); }
                ret = 3; break;
            }
          }
            ret = 1;
            fprintf(o, "],\"violation\":{\"scenario\":\"%s\",\"key\":", cur->name); jstr(o, key);
            fprintf(o, ",\"message\":"); jstr(o, msg);
            fprintf(o, ",\"choices\":[");
            for (int i = 0; i < vl; i++) fprintf(o, "%s%d", i ? "," : "", ch[i]);
            fprintf(o, "],\"trace\":"); jstr(o, tr); fputc('}', o);
            break;
        }
    }
    if (ret != 1) fputs("]", o);
    fprintf(o, ",\"executions\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"discarded\":%llu,\"in_histories\":%llu,\"states\":%llu,\"outcomes\":%llu,\"dropped\":%llu,\"complete\":%s,\"wall_s\":%.2f,\"samples\":[",
        (unsigned long long)T_ex, (unsigned long long)T_tr, (unsigned long long)T_pr, (unsigned long long)T_di, (unsigned long long)aged_total,
        (unsigned long long)S->states, (unsigned long long)S->outcomes, (unsigned long long)S->dropped, capped || ret ? "false" : "true", now() - t0);
    for (int i = 0; i < S->nsample && i < NSAMPLE; i++) { if (i) fputc(',', o); jstr(o, S->sample[i]); }
    fputs("],\"known_seen\":{", o);
    first = 1;
    for (int i = 0; i < nknown; i++) if (S->known_seen[i]) { if (!first) fputc(',', o); first = 0; jstr(o, known_keys[i]); fprintf(o, ":%llu", (unsigned long long)S->known_seen[i]); }
    fputs("}}\n", o);
    if (o != stdout) fclose(o);
    rm_scratch();
    return ret;
}
