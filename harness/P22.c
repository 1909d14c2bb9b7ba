// Move, copy and remove over an in-memory file system: every crash point and every failing call.
// MC-LDFLAGS: @vfs
// MC-VARIANT: nolink HAVE_LINK
#include "mc.h"
#include <u/libu.h>
#include "vfs.h"
const char *mc_property = "P22", *mc_level = "fault_enumeration";
static unsigned char C[24000], OLD[9000], BY[10];
static size_t L; static const char *src, *dst; static int moving, srcfile;
static const size_t sizes[] = { 0, 1, 4095, 4096, 4097, 8192, 8193, 10000, 12289 };
enum { D_NONE, D_OLD, D_SAME, D_HARD, D_SYMSRC, D_SYMOLD, D_DANGLE, D_OTHER, D_OTHEROLD, D_BIND, D_DIR, D_NODIR, D_OTHERSYM, D_N };
static const char *dname[] = { "absent", "an existing file", "the source itself", "a hard link to the source", "a symbolic link to the source", "a symbolic link to another file", "a dangling symbolic link", "absent on another file system", "an existing file on another file system", "the source through another mount", "a directory", "in a missing directory", "a symbolic link to the source on another file system" };
void mc_cleanup(void) { vfs_reset(); }
static void hook(const char *w)
{
    if (vfs_bad[0] || !srcfile) return;
    int s = vfs_has(src, C, L), d = vfs_has(dst, C, L);
    if (!s && !(moving && d)) snprintf(vfs_bad, sizeof vfs_bad, "a crash after \"%s\" finds the contents neither under the source%s name", w, moving ? " nor under the destination" : "");
    if (!vfs_has("/vfs/a/by", BY, sizeof BY)) snprintf(vfs_bad, sizeof vfs_bad, "an unrelated file changed after \"%s\"", w);
}
static void setup(int d, int s)
{
    for (size_t i = 0; i < sizeof C; i++) C[i] = (unsigned char)(i * 7 + i / 4096 + 1); memset(OLD, 'o', sizeof OLD); memset(BY, 'b', sizeof BY);
    vfs_file("/vfs/a/by", BY, sizeof BY); src = "/vfs/a/s"; srcfile = s == 0 || s == 3;
    if (s == 0) vfs_file(src, C, L); else if (s == 2) vfs_dir(src); else if (s == 3) { vfs_file("/vfs/a/t", C, L); vfs_sym(src, "/vfs/a/t"); }
    switch (d) {
    case D_NONE: dst = "/vfs/a/d"; break; case D_OLD: vfs_file(dst = "/vfs/a/d", OLD, sizeof OLD); break;
    case D_SAME: dst = src; break; case D_HARD: dst = "/vfs/a/d"; if (s != 0) mc_discard(); vfs_bind(dst, vname[vfs_name(src)].ino); break;
    case D_SYMSRC: vfs_sym(dst = "/vfs/a/d", src); break; case D_SYMOLD: vfs_file("/vfs/a/o", OLD, sizeof OLD); vfs_sym(dst = "/vfs/a/d", "/vfs/a/o"); break;
    case D_DANGLE: vfs_sym(dst = "/vfs/a/d", "/vfs/a/x"); break; case D_OTHER: dst = "/vfs/b/d"; break; case D_OTHEROLD: vfs_file(dst = "/vfs/b/d", OLD, sizeof OLD); break;
    case D_BIND: dst = "/vfs/m/s"; break; case D_DIR: vfs_dir(dst = "/vfs/a/d"); break; case D_NODIR: dst = "/vfs/a/q/d"; break; case D_OTHERSYM: vfs_sym(dst = "/vfs/b/d", src); break;
    }
}
static void run_pair(void)
{
    int mv = mc_choose(2), s = mc_choose(4), d = mc_choose(D_N); L = sizes[mc_choose(mc_tier ? 9 : 7)]; moving = mv;
    static const char *sn[] = { "a file", "missing", "a directory", "a symbolic link to a file" };
    if (s && L > 1) mc_discard();
    setup(d, s); int same = d == D_SAME || d == D_HARD || d == D_SYMSRC || d == D_BIND || d == D_OTHERSYM;
    mc_op("%s %zu bytes, source %s, destination %s", mv ? "move" : "copy", L, sn[s], dname[d]);
    vfs_hook = hook; vfs_errs = vfs_faults = 1; int rc = mv ? u_move(src, dst) : u_copy(src, dst); vfs_faults = 0; vfs_hook = NULL;
    mc_note("returned %d after %d calls, %d faults", rc, vfs_calls, vfs_hits); mc_transitions(vfs_calls);
    vfs_judge(); hook("the last step"); if (vfs_bad[0]) mc_fail("lost", "%s", vfs_bad);
    int hs = vfs_has(src, C, L), hd = vfs_has(dst, C, L);
    if (rc == 0) {
        MC_CHECK(srcfile, "no-source", "success without a source file");
        MC_CHECK(hd, "incomplete", "success, but the destination does not hold the contents"); if (!mv) MC_CHECK(hs, "source", "success, but the source changed");
        if (mv && !same) MC_CHECK(!vfs_exists(src), "still-there", "the move succeeded and left the source");
    } else if (vfs_hits == 0) {
        int ok = mv ? d == D_NONE || d == D_OTHER : d == D_NONE || d == D_OLD || d == D_SYMOLD || d == D_DANGLE || d == D_OTHER || d == D_OTHEROLD;
        MC_CHECK(!(ok && srcfile), "refused", "nothing failed, but the %s did", mv ? "move" : "copy");
    }
    if (mv && rc && !vfs_exists(src) && srcfile) MC_CHECK(hd, "lost", "the move failed and the source is gone");
#ifndef MC_VARIANT_nolink       /* there a move is a copy, which opens the destination first */
    if (d == D_SYMOLD && mv) MC_CHECK(rc == 0 || vfs_hits || vfs_has("/vfs/a/o", OLD, sizeof OLD), "link-target", "a refused move changed the file the destination links to");
#endif
    mc_state(mc_h64(mc_h64(L, d * 8 + s * 2 + mv), rc * 64 + hs * 2 + hd));
}
static void run_remove(void)
{
    int s = mc_choose(4); L = sizes[mc_choose(3)]; if (s && L > 1) mc_discard(); setup(mc_choose(2) ? D_HARD : D_OLD, s); mc_op("remove, name is variant %d", s);
    int was = vfs_exists(src); vfs_errs = vfs_faults = 1; int rc = u_remove(src); vfs_faults = 0; vfs_judge();
    MC_CHECK((rc == 0) == (was && !vfs_exists(src)), "remove", "returned %d, the name is %s", rc, vfs_exists(src) ? "still there" : "gone"); if (rc && was) MC_CHECK(vfs_exists(src), "remove", "failed but removed");
    if (!vfs_hits && (s == 0 || s == 3)) MC_CHECK(rc == 0, "remove", "refused"); MC_CHECK(vfs_has("/vfs/a/by", BY, sizeof BY), "bystander", "an unrelated file changed"); if (s == 3) MC_CHECK(vfs_has("/vfs/a/t", C, L), "remove", "the link's target was removed");
    MC_CHECK(s != 0 || vfs_has("/vfs/a/d", C, L) || vfs_has("/vfs/a/d", OLD, sizeof OLD), "bystander", "another name of the file lost its contents");
}
static void run_null(void) { mc_op("missing names"); MC_CHECK(u_copy(NULL, "/vfs/a/d") && u_copy("/vfs/a/d", NULL) && u_move(NULL, "/vfs/a/d") && u_move("/vfs/a/d", NULL) && u_remove(NULL), "null", "accepted"); }
const struct mc_scn mc_scns[] = {
    { "pair", run_pair, MC_QT, 4, 2, 4, 0, "copy and move x 4 kinds of source x 13 kinds of destination (same file under other names, other file systems, links, directories) x sizes around the 4 KiB copy buffer, up to 2 (4) failing, short or interrupted calls anywhere; contents checked after every mutation (crash point)" },
    { "remove", run_remove, MC_QT, 1, 1, 2, 0, "remove of every kind of name, with and without failure" },
    { "null", run_null, MC_QT, 0, 0, 0, 0, "missing arguments" },
    { 0 }
};
