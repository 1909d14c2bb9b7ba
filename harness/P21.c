// Whole-file helpers over an in-memory file system with every call failing in turn.
// MC-LDFLAGS: @vfs -Wl,--wrap=getpid
#include "mc.h"
#include <u/libu.h>
#include "vfs.h"
const char *mc_property = "P21", *mc_level = "fault_enumeration";
static unsigned char C[40000];
static const size_t sizes[] = { 0, 1, 7, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16385, 30000 };
static size_t size(void) { size_t n = sizes[mc_choose(mc_tier ? 12 : 9)]; for (size_t i = 0; i < sizeof C; i++) C[i] = (unsigned char)(i * 13 + i / 512 + 1); return n; }
static pid_t mypid;
void mc_cleanup(void) { vfs_reset(); mypid = 0; }
static void begin(void) { vfs_errs = vfs_faults = 1; mc_oom = 1; }
static void done(const char *what, int rc) { vfs_faults = 0; mc_oom = 0; mc_note("%s returned %d after %d calls, %d faults", what, rc, vfs_calls, vfs_hits + mc_oom_hits); mc_transitions(vfs_calls); vfs_judge(); if (rc) mc_note("failed"); }
/* a failing open, read or write (also one that only shows at close) cannot be a success */
static void honest(int rc) { MC_CHECK(!(rc == 0 && vfs_hits_hard), "hidden-failure", "success although a call failed"); }
static const char *source(int kind, size_t n) { switch (kind) { case 0: vfs_file("/vfs/a/f", C, n); break; case 1: break; case 2: vfs_dir("/vfs/a/f"); break; } return "/vfs/a/f"; }
static const char *target(int kind) { static char old[20000]; memset(old, 'o', sizeof old); switch (kind) { case 0: break; case 1: vfs_file("/vfs/a/d", old, sizeof old); break; case 2: vfs_dir("/vfs/a/d"); break; case 3: return "/vfs/a/q/d"; } return "/vfs/a/d"; }
static void run_load(void)
{
    size_t n = size(), mx; int kind = mc_choose(3), m = mc_choose(4); if (kind && n) mc_discard(); char *b = (char *)7; size_t sz = 77;
    mx = m == 0 ? 0 : m == 1 ? n - 1 : m == 2 ? n : n + 1; if (n == 0 && m == 1) mc_discard();
    const char *p = source(kind, n); mc_op("load %s of %zu bytes, limit %zu", kind == 0 ? "a file" : kind == 1 ? "a missing file" : "a directory", n, mx);
    begin(); int rc = u_load_file(p, mx, &b, &sz); done("load", rc); honest(rc);
    if (rc == 0) { MC_CHECK(kind == 0 && !(m == 1 && mx), "load-verdict", "accepted"); MC_CHECK(sz == n && b && !memcmp(b, C, n), "load", "%zu bytes loaded of %zu, or wrong ones", sz, n); u_free(b); }
    else MC_CHECK(vfs_hits || mc_oom_hits || kind || (m == 1 && mx), "load-verdict", "nothing failed, but the load did");
    MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(mc_h64(n, m), rc));
}
static void run_dump(void)
{
    size_t n = size(); int kind = mc_choose(4), viabuf = mc_choose(2); const char *p = target(kind); u_buf_t *ub = NULL; char *d = malloc(n ? n : 1); memcpy(d, C, n);
    if (viabuf) { u_buf_create(&ub); if (n) u_buf_append(ub, d, n); }
    mc_op("%s %zu bytes, destination variant %d", viabuf ? "save a buffer of" : "dump", n, kind); begin(); int rc = viabuf ? u_buf_save(ub, p) : u_data_dump(d, n, p); done("dump", rc); honest(rc);
    if (rc == 0) MC_CHECK(vfs_has(p, C, n), "dump", "success, but the file does not hold the data"); else MC_CHECK(vfs_hits || mc_oom_hits || kind > 1, "dump-verdict", "nothing failed, but the dump did");
    if (ub) u_buf_free(ub); free(d); MC_CHECK(mc_live() == 0, "leak", "%zu blocks left", mc_live()); mc_state(mc_h64(mc_h64(n, kind), rc));
}
pid_t __real_getpid(void); pid_t __wrap_getpid(void) { return mypid ? mypid : __real_getpid(); }
static void run_pid(void)
{
    static const pid_t ids[] = { 1, 9, 10, 255, 256, 32767, 32768, 65536, 4194304, 2147483647 }; mypid = ids[mc_choose(10)];
    int kind = mc_choose(4); const char *p = target(kind); char want[32]; snprintf(want, sizeof want, "%ld\n", (long)mypid); mc_op("save the process id, destination variant %d", kind);
    begin(); int rc = u_savepid(p); done("savepid", rc); honest(rc); if (rc == 0) MC_CHECK(vfs_has(p, want, strlen(want)), "savepid", "success, but the file does not hold the process id"); else MC_CHECK(vfs_hits || kind > 1, "savepid-verdict", "nothing failed, but the save did"); mypid = 0; mc_state(rc + kind * 2);
}
static void run_copy(void)
{
    size_t n = size(); int k = mc_choose(3), t = mc_choose(4); if (k && n) mc_discard(); const char *s = source(k, n), *d = target(t); mc_op("copy %zu bytes, source variant %d, destination variant %d", n, k, t);
    begin(); int rc = u_copy(s, d); done("copy", rc); honest(rc); if (rc == 0) { MC_CHECK(k == 0 && t < 2, "copy-verdict", "accepted"); MC_CHECK(vfs_has(d, C, n), "copy", "success, but the destination does not hold the contents"); } else MC_CHECK(vfs_hits || k || t > 1, "copy-verdict", "nothing failed, but the copy did");
    if (k == 0) MC_CHECK(vfs_has(s, C, n), "copy-source", "the source changed"); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_state(mc_h64(mc_h64(n, k * 4 + t), rc));
}
static void run_bufload(void)
{
    size_t n = size(); int k = mc_choose(3), pre = mc_choose(3); if (k && n) mc_discard(); const char *p = source(k, n); u_buf_t *ub; u_buf_create(&ub); if (pre == 1) u_buf_append(ub, "previous", 8); if (pre == 2) u_buf_reserve(ub, 9000);
    mc_op("load %zu bytes to a buffer, source variant %d, buffer variant %d", n, k, pre); begin(); int rc = u_buf_load(ub, p); done("load", rc); honest(rc);
    if (rc == 0) { MC_CHECK(k == 0, "load-verdict", "accepted"); MC_CHECK((size_t)u_buf_len(ub) == n && (!n || !memcmp(u_buf_ptr(ub), C, n)), "load", "wrong contents"); } else { MC_CHECK(vfs_hits || mc_oom_hits || k, "load-verdict", "nothing failed, but the load did"); MC_CHECK(u_buf_len(ub) <= u_buf_size(ub), "load-failed", "the buffer is inconsistent"); MC_CHECK(u_buf_set(ub, "again", 5) == 0 && u_buf_len(ub) == 5 && !memcmp(u_buf_ptr(ub), "again", 5), "load-failed", "the buffer cannot be used any more"); }
    u_buf_free(ub); MC_CHECK(mc_live() == 0, "leak", "blocks left"); mc_state(mc_h64(mc_h64(n, k * 3 + pre), rc));
}
static void run_null(void) { char *b; size_t n; mc_op("missing arguments"); MC_CHECK(u_load_file(NULL, 0, &b, &n) && u_load_file("/vfs/a/f", 0, NULL, &n) && u_load_file("/vfs/a/f", 0, &b, NULL) && u_savepid(NULL), "null", "accepted"); }
#define DV 2, 3
const struct mc_scn mc_scns[] = {
    { "load", run_load, MC_QT, 3, DV, 0, "files of 0..8193 (30000) bytes around the stdio buffer, missing, directories; size limits below, at and above; up to 2 (3) failing or short calls, including allocation" },
    { "dump", run_dump, MC_QT, 3, DV, 0, "dumps of the same sizes, directly and from a buffer object, to absent, existing, impossible destinations; up to 2 (3) faults, close failures losing data" },
    { "savepid", run_pid, MC_QT, 1, DV, 0, "process id files, same destinations and faults" },
    { "copy", run_copy, MC_QT, 3, DV, 0, "copies, same sizes, destinations and faults" },
    { "bufload", run_bufload, MC_QT, 3, DV, 0, "loads to a buffer object in three prior states, same sizes and faults" },
    { "null", run_null, MC_QT, 0, 0, 0, 0, "missing arguments" },
    { 0 }
};
