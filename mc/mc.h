/* Stateless bounded model checker for the real libu code.
 *
 * A harness is a set of scenarios.  A scenario body is a deterministic C
 * function of the answers it gets from mc_choose()/mc_dev(); the engine runs
 * it once per feasible sequence of answers (depth-first, complete), in
 * parallel worker processes. */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

struct mc_scn {
    const char *name;
    void (*run)(void);
    int  tiers;          /* bit0: quick, bit1: thorough */
    int  shard;          /* number of leading choices used to split the work */
    int  dev_quick;      /* deviation budgets */
    int  dev_thorough;
    int  arg;            /* free for the harness */
    const char *about;   /* bounds, in words */
};
#define MC_Q 1
#define MC_T 2
#define MC_QT 3

extern const struct mc_scn mc_scns[];   /* terminated by name == NULL */
extern const char *mc_property;
extern const char *mc_level;            /* "model_checking" | "fault_enumeration" | "exploration" */

extern int mc_tier;                     /* 0 quick, 1 thorough */
extern int mc_replaying;
const struct mc_scn *mc_cur(void);
static inline int mc_arg(void) { return mc_cur()->arg; }

/* --- choices --- */
int  mc_choose(int n);                  /* all of 0..n-1 */
int  mc_dev(int n);                     /* 0 is the default answer; others cost one deviation */
int  mc_dev_used(void);
void mc_discard(void) __attribute__((noreturn));  /* infeasible: end silently */

/* --- bookkeeping --- */
void mc_op(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* one transition */
void mc_note(const char *fmt, ...) __attribute__((format(printf,1,2))); /* trace text only */
void mc_transitions(uint64_t n);
void mc_state(uint64_t h);              /* count a distinct observed state */
void mc_prune(uint64_t h, int remaining); /* end this execution if h was expanded with >= remaining */
void mc_outcome(uint64_t h);            /* count a distinct, non-trivial outcome */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
#define MC_CHECK(c, key, ...) do { if (!(c)) mc_fail(key, __VA_ARGS__); } while (0)
int mc_is_known(const char *key);       /* listed in known-findings for this property */
void mc_known(const char *key);         /* report a listed finding and go on */

/* --- hashing --- */
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
static inline uint64_t mc_h64(uint64_t h, uint64_t v) { return mc_hash(h, &v, sizeof v); }
static inline uint64_t mc_hs(uint64_t h, const char *s) { return s ? mc_hash(h, s, strlen(s) + 1) : mc_h64(h, 77); }

/* --- allocator seam (installed through the library's own setters) --- */
void  mc_mem_install(void);             /* done by main(); harnesses may re-install */
void *mc_malloc(size_t n);
void *mc_calloc(size_t a, size_t b);
void *mc_realloc(void *p, size_t n);
void  mc_free(void *p);
size_t mc_live(void);                   /* live tracked blocks */
int    mc_is_live(void *p);
uint64_t mc_alloc_calls(void);          /* allocation requests so far in this execution */
extern int mc_oom;                      /* when set every allocation asks mc_dev(2) */
extern int mc_oom_hits;                 /* number of injected failures so far */
extern int mc_fill;                     /* byte used to fill fresh memory */

/* called after every execution, also aborted ones (weak default: nothing) */
void mc_cleanup(void);
void mc_init(void);                     /* once, before anything (weak) */
/* scratch directory unique to this worker process (created on demand, removed by the parent) */
const char *mc_scratch(void);
char *mc_esc(const void *p, size_t n);  /* printable form, rotating static buffers */
char *mc_escs(const char *s);
#endif
