/* A small in-memory file system behind libc's file calls (installed with -Wl,--wrap), with
 * fault injection: every call on a path below /vfs/ asks mc_dev() whether it fails.
 * Harness directive:  // MC-LDFLAGS: @vfs   (expanded by check.py to the --wrap list) */
#ifndef VFS_H
#define VFS_H
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
enum { VFS_FD = 700, VN = 24, VF = 32, VS = 32 };
enum { VT_FREE, VT_FILE, VT_DIR, VT_LINK };
typedef struct { int type, nlink, opened; unsigned char *d; size_t len, cap; char to[64]; long mtime; unsigned dev; } vnode_t;
static vnode_t vn[VN];
static struct { char path[64]; int ino, used; } vname[VN];
static struct { int used, ino, rd, wr, app, wrote; size_t pos; } vfd[VF];
static struct { FILE *f; int fd, open; } vst[VS];
static int vfs_faults;               /* inject faults */
static int vfs_fault_mask = ~0;      /* which calls may fail */
static int vfs_hits;                 /* faults injected so far */
static int vfs_hits_hard;            /* faults other than short transfers / EINTR */
static int vfs_hits_soft;
static int vfs_errs;                 /* every reason a call may fail for, not just the usual one */
static int vfs_op;                   /* the call that fails */
static int vfs_calls, vfs_mut;       /* calls seen, mutations made */
static char vfs_bad[256];            /* misuse or broken invariant, reported by vfs_judge() */
static void (*vfs_hook)(const char *what); /* after every mutation */
enum { VO_OPEN = 1, VO_READ = 2, VO_WRITE = 4, VO_CLOSE = 8, VO_LINK = 16, VO_UNLINK = 32, VO_STAT = 64, VO_DUP = 128, VO_RENAME = 256, VO_MISC = 512 };

static void vfs_badf(const char *fmt, const char *a) { if (!vfs_bad[0]) snprintf(vfs_bad, sizeof vfs_bad, fmt, a); }
static int vfs_mine(const char *p) { return p && !strncmp(p, "/vfs/", 5); }
static int vfs_fault(int op, int n) { int r; vfs_calls++; if (!vfs_faults || !(vfs_fault_mask & op)) return 0; r = mc_dev(n); if (r) { vfs_hits++; vfs_op = op; } return r; }
static void vfs_did(const char *w) { vfs_mut++; if (vfs_hook) vfs_hook(w); }
static const char *vfs_canon(const char *p) { static char b[2][64]; static int k; if (p[5] != 'm') return p; k ^= 1; snprintf(b[k], 64, "%s", p); b[k][5] = 'a'; return b[k]; }
static int vfs_name(const char *p) { p = vfs_canon(p); for (int i = 0; i < VN; i++) if (vname[i].used && !strcmp(vname[i].path, p)) return i; return -1; }
static int vfs_res(const char *p) /* follow symlinks; name index or -1 */
{ for (int k = 0; k < 8; k++) { int n = vfs_name(p); if (n < 0) { errno = ENOENT; return -1; } if (vn[vname[n].ino].type != VT_LINK) return n; p = vn[vname[n].ino].to; } errno = ELOOP; return -1; }
static void vfs_gone(int ino) { vnode_t *v = &vn[ino]; if (v->nlink == 0 && v->opened == 0 && v->type) { free(v->d); memset(v, 0, sizeof *v); } }
static int vfs_bind(const char *p, int ino) { p = vfs_canon(p); for (int i = 0; i < VN; i++) if (!vname[i].used) { snprintf(vname[i].path, sizeof vname[i].path, "%s", p); vname[i].used = 1; vname[i].ino = ino; vn[ino].nlink++; return i; } abort(); }
static int vfs_new(int type) { for (int i = 0; i < VN; i++) if (!vn[i].type) { memset(&vn[i], 0, sizeof vn[i]); vn[i].type = type; vn[i].dev = 1; return i; } abort(); }
/* mount of a path: its first component, /vfs/X/... ; 'm' is another mount of 'a' */
static int vfs_mount(const char *p) { return p[5]; }
static int vfs_parent(const char *p) { char b[64]; snprintf(b, sizeof b, "%s", p); char *s = strrchr(b, '/'); *s = 0; if (strlen(b) <= 6) return 1; int n = vfs_res(b); return n >= 0 && vn[vname[n].ino].type == VT_DIR; }
static void vfs_put(vnode_t *v, size_t at, const void *b, size_t n)
{ if (at + n > v->cap) { v->cap = (at + n) * 2 + 64; v->d = realloc(v->d, v->cap); } if (at > v->len) memset(v->d + v->len, 0, at - v->len); memcpy(v->d + at, b, n); if (at + n > v->len) v->len = at + n; }
/* --- set-up and inspection for the harness --- */
static int vfs_file(const char *p, const void *d, size_t n) { int k = vfs_name(p), i; if (k >= 0) { i = vname[k].ino; vn[i].len = 0; } else { i = vfs_new(VT_FILE); vn[i].dev = vfs_mount(p) == 'm' ? 'a' : vfs_mount(p); vfs_bind(p, i); } if (n) vfs_put(&vn[i], 0, d, n); return i; }
static void vfs_dir(const char *p) { int i = vfs_new(VT_DIR); vn[i].dev = vfs_mount(p); vfs_bind(p, i); }
static void vfs_sym(const char *p, const char *to) { int i = vfs_new(VT_LINK); snprintf(vn[i].to, sizeof vn[i].to, "%s", to); vfs_bind(p, i); }
static int vfs_has(const char *p, const void *d, size_t n) { int k = vfs_res(p); if (k < 0) return 0; vnode_t *v = &vn[vname[k].ino]; return v->type == VT_FILE && v->len == n && (n == 0 || !memcmp(v->d, d, n)); }
static int vfs_exists(const char *p) { return vfs_name(p) >= 0; }
static int vfs_open_fds(void) { int k = 0; for (int i = 0; i < VF; i++) k += vfd[i].used; return k; }
static void vfs_reset(void)
{
    vfs_faults = vfs_errs = vfs_op = 0; vfs_hook = NULL; 
    for (int i = 0; i < VS; i++) if (vst[i].open) { vst[i].open = 2; extern int __real_fclose(FILE *); __real_fclose(vst[i].f); }
    for (int i = 0; i < VN; i++) if (vn[i].type) free(vn[i].d);
    memset(vn, 0, sizeof vn); memset(vname, 0, sizeof vname); memset(vfd, 0, sizeof vfd); memset(vst, 0, sizeof vst);
    vfs_hits = vfs_hits_hard = vfs_hits_soft = vfs_calls = vfs_mut = 0; vfs_bad[0] = 0; vfs_fault_mask = ~0;
}
static void vfs_judge(void) { if (vfs_bad[0]) mc_fail("file-use", "%s", vfs_bad); MC_CHECK(vfs_open_fds() == 0, "fd-leak", "%d descriptor(s) left open", vfs_open_fds()); for (int i = 0; i < VS; i++) MC_CHECK(vst[i].open != 1, "stream-leak", "a stream was left open"); }

/* --- system calls --- */
static int vfs_err(int e)
{
    static const int W[][12] = { { VO_OPEN, EACCES, EPERM, EMFILE, ENFILE, EROFS, ENOSPC, ETXTBSY, EOVERFLOW, EIO }, { VO_READ, EIO, EISDIR, ENOMEM }, { VO_WRITE, ENOSPC, EIO, EDQUOT, EFBIG, EPIPE }, { VO_LINK, EACCES, EPERM, EMLINK, EEXIST, ENOSPC, EROFS, ENOSYS, EOPNOTSUPP, ELOOP, EIO }, { VO_UNLINK, EACCES, EPERM, EBUSY, EROFS, ETXTBSY, EIO }, { VO_STAT, EACCES, EIO, EOVERFLOW, ENOMEM }, { VO_RENAME, EACCES, EPERM, EBUSY, EROFS, ENOSPC, EINVAL } };
    vfs_hits_hard++; errno = e; if (vfs_errs) for (int i = 0; i < 7; i++) if (W[i][0] == vfs_op) { int n = 0; while (W[i][1 + n]) n++; errno = W[i][1 + mc_choose(n)]; mc_note("because: %s", strerrorname_np(errno)); } return -1;
}
static int vfs_open(const char *p, int fl)
{
    int f = vfs_fault(VO_OPEN, 3), n, i, ino; char t[64];
    if (f == 1) { mc_note("open %s: failed by injection", p); return vfs_err(EACCES); }
    if (f == 2) { mc_note("open %s: interrupted", p); errno = EINTR; return -1; }
    n = vfs_res(p);
    if (n < 0) {
        if (errno == ELOOP || !(fl & O_CREAT)) return -1;
        snprintf(t, sizeof t, "%s", p); for (int k = 0; k < 8 && (i = vfs_name(t)) >= 0; k++) { char *to = vn[vname[i].ino].to; memmove(t, to, strlen(to) + 1); } /* dangling link: create its target */
        if (!vfs_parent(t)) { errno = ENOENT; return -1; }
        ino = vfs_new(VT_FILE); vn[ino].dev = vfs_mount(t) == 'm' ? 'a' : vfs_mount(t); vfs_bind(t, ino); mc_note("create %s", t); vfs_did("create");
    } else {
        if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
        ino = vname[n].ino; if (vn[ino].type == VT_DIR && (fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    }
    for (i = 0; i < VF && vfd[i].used; i++) ;
    if (i == VF) { errno = EMFILE; return -1; }
    vfd[i].used = 1; vfd[i].ino = ino; vfd[i].pos = 0; vfd[i].wrote = 0; vfd[i].rd = (fl & O_ACCMODE) != O_WRONLY; vfd[i].wr = (fl & O_ACCMODE) != O_RDONLY; vfd[i].app = !!(fl & O_APPEND); vn[ino].opened++;
    if ((fl & O_TRUNC) && vfd[i].wr && vn[ino].len) { vn[ino].len = 0; mc_note("truncate %s", p); vfs_did("truncate"); }
    return VFS_FD + i;
}
static int vfs_isfd(int fd) { return fd >= VFS_FD && fd < VFS_FD + VF; }
static int vfs_chk(int fd, const char *what) { if (!vfd[fd - VFS_FD].used) { vfs_badf("%s on a closed descriptor", what); errno = EBADF; return 0; } return 1; }
static ssize_t vfs_read(int fd, void *b, size_t n)
{
    if (!vfs_chk(fd, "read")) return -1;
    vnode_t *v = &vn[vfd[fd - VFS_FD].ino]; size_t *pos = &vfd[fd - VFS_FD].pos; int f = vfs_fault(VO_READ, 3);
    if (v->type == VT_DIR) { errno = EISDIR; return -1; }
    if (!vfd[fd - VFS_FD].rd) { errno = EBADF; return -1; }
    if (f == 1) { mc_note("read: failed by injection"); return vfs_err(EIO); }
    size_t k = *pos < v->len ? v->len - *pos : 0; if (k > n) k = n; if (f == 2 && k > 1) { k /= 2; mc_note("read: short"); }
    if (k) memcpy(b, v->d + *pos, k); *pos += k; return k;
}
static ssize_t vfs_write(int fd, const void *b, size_t n)
{
    if (!vfs_chk(fd, "write")) return -1;
    vnode_t *v = &vn[vfd[fd - VFS_FD].ino]; size_t *pos = &vfd[fd - VFS_FD].pos; int f = vfs_fault(VO_WRITE, 3);
    if (!vfd[fd - VFS_FD].wr) { errno = EBADF; return -1; }
    if (f == 1) { mc_note("write: failed by injection"); return vfs_err(ENOSPC); }
    if (f == 2 && n > 1) { n /= 2; mc_note("write: short"); }
    if (vfd[fd - VFS_FD].app) *pos = v->len;
    vfs_put(v, *pos, b, n); *pos += n; vfd[fd - VFS_FD].wrote = 1; v->mtime++; mc_note("write %zu bytes", n); vfs_did("write"); return n;
}
static int vfs_close(int fd)
{
    if (!vfs_chk(fd, "close")) return -1;
    int ino = vfd[fd - VFS_FD].ino, f = vfs_fault(VO_CLOSE, 2); vfd[fd - VFS_FD].used = 0; vn[ino].opened--;
    if (f) { mc_note("close: failed by injection"); if (vfd[fd - VFS_FD].wrote) { vn[ino].len /= 2; vfs_hits_hard++; vfs_did("deferred write failure"); } else vfs_hits_soft++; errno = EIO; vfs_gone(ino); return -1; } vfs_gone(ino); return 0;
}
static void vfs_fill(struct stat *st, int ino) { memset(st, 0, sizeof *st); st->st_dev = vn[ino].dev; st->st_ino = 1000 + ino; st->st_nlink = vn[ino].nlink; st->st_size = vn[ino].len; st->st_mtime = st->st_ctime = vn[ino].mtime; st->st_mode = vn[ino].type == VT_DIR ? S_IFDIR | 0755 : vn[ino].type == VT_LINK ? S_IFLNK | 0777 : S_IFREG | 0644; }

/* --- wrappers --- */
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
int __real_link(const char *, const char *); int __real_unlink(const char *); int __real_remove(const char *); int __real_rename(const char *, const char *); int __real_symlink(const char *, const char *);
int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_fstat(int, struct stat *); int __real_access(const char *, int);
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_fclose(FILE *); int __real_fileno(FILE *); int __real_dup(int); off_t __real_lseek(int, off_t, int); int __real_fsync(int); int __real_ftruncate(int, off_t);
int __wrap_open(const char *p, int fl, ...) { if (vfs_mine(p)) return vfs_open(p, fl); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { if (vfs_mine(p)) return vfs_open(p, fl); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open64(p, fl, m); }
int __wrap_creat(const char *p, mode_t m) { return vfs_mine(p) ? vfs_open(p, O_CREAT | O_TRUNC | O_WRONLY) : __real_open(p, O_CREAT | O_TRUNC | O_WRONLY, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return vfs_isfd(fd) ? vfs_read(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return vfs_isfd(fd) ? vfs_write(fd, b, n) : __real_write(fd, b, n); }
int __wrap_close(int fd) { return vfs_isfd(fd) ? vfs_close(fd) : __real_close(fd); }
off_t __wrap_lseek(int fd, off_t o, int w) { if (!vfs_isfd(fd)) return __real_lseek(fd, o, w); if (!vfs_chk(fd, "lseek")) return -1; size_t *p = &vfd[fd - VFS_FD].pos; off_t t = o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)*p : (off_t)vn[vfd[fd - VFS_FD].ino].len); if (t < 0) { errno = EINVAL; return -1; } return *p = t; }
int __wrap_fsync(int fd) { if (!vfs_isfd(fd)) return __real_fsync(fd); if (!vfs_chk(fd, "fsync")) return -1; return vfs_fault(VO_MISC, 2) ? vfs_err(EIO) : 0; }
int __wrap_ftruncate(int fd, off_t l) { if (!vfs_isfd(fd)) return __real_ftruncate(fd, l); if (!vfs_chk(fd, "ftruncate")) return -1; if (vfs_fault(VO_MISC, 2)) return vfs_err(EIO); vnode_t *v = &vn[vfd[fd - VFS_FD].ino]; if ((size_t)l < v->len) v->len = l; else if ((size_t)l > v->len) { char z = 0; vfs_put(v, l - 1, &z, 1); } vfs_did("ftruncate"); return 0; }
int __wrap_dup(int fd) { if (!vfs_isfd(fd)) return __real_dup(fd); if (!vfs_chk(fd, "dup")) return -1; if (vfs_fault(VO_DUP, 2)) { mc_note("dup: failed by injection"); return vfs_err(EMFILE); } int i; for (i = 0; i < VF && vfd[i].used; i++) ; if (i == VF) { errno = EMFILE; return -1; } vfd[i] = vfd[fd - VFS_FD]; vn[vfd[i].ino].opened++; return VFS_FD + i; }
int __wrap_link(const char *a, const char *b)
{
    if (!vfs_mine(a) && !vfs_mine(b)) return __real_link(a, b);
    int f = vfs_fault(VO_LINK, 3); if (f == 1) { mc_note("link: refused by injection"); return vfs_err(EACCES); }
    if (f == 2) { mc_note("link: reported as crossing file systems"); errno = EXDEV; return -1; }
    int n = vfs_name(a); if (n < 0) { errno = ENOENT; return -1; } if (vfs_name(b) >= 0) { errno = EEXIST; return -1; } if (!vfs_parent(b)) { errno = ENOENT; return -1; }
    if (vn[vname[n].ino].type == VT_DIR) { errno = EPERM; return -1; } if (vfs_mount(a) != vfs_mount(b)) { errno = EXDEV; return -1; }
    vfs_bind(b, vname[n].ino); mc_note("link %s %s", a, b); vfs_did("link"); return 0;
}
static int vfs_unlink(const char *p)
{
    if (vfs_fault(VO_UNLINK, 2)) { mc_note("unlink: refused by injection"); return vfs_err(EACCES); }
    int n = vfs_name(p); if (n < 0) { errno = ENOENT; return -1; } int ino = vname[n].ino; if (vn[ino].type == VT_DIR) { errno = EISDIR; return -1; }
    vname[n].used = 0; vn[ino].nlink--; mc_note("unlink %s", p); vfs_gone(ino); vfs_did("unlink"); return 0;
}
int __wrap_unlink(const char *p) { return vfs_mine(p) ? vfs_unlink(p) : __real_unlink(p); }
int __wrap_remove(const char *p) { return vfs_mine(p) ? vfs_unlink(p) : __real_remove(p); }
int __wrap_rename(const char *a, const char *b)
{
    if (!vfs_mine(a) && !vfs_mine(b)) return __real_rename(a, b);
    int f = vfs_fault(VO_RENAME, 3); if (f == 1) { mc_note("rename: refused by injection"); return vfs_err(EACCES); }
    if (f == 2) { mc_note("rename: reported as crossing file systems"); errno = EXDEV; return -1; }
    int n = vfs_name(a), m = vfs_name(b); if (n < 0) { errno = ENOENT; return -1; } if (vfs_mount(a) != vfs_mount(b)) { errno = EXDEV; return -1; } if (!vfs_parent(b)) { errno = ENOENT; return -1; }
    if (m >= 0) { int ti = vname[m].ino; if (ti == vname[n].ino) return 0; if (vn[ti].type == VT_DIR) { errno = EISDIR; return -1; } vname[m].used = 0; vn[ti].nlink--; vfs_gone(ti); }
    snprintf(vname[n].path, sizeof vname[n].path, "%s", vfs_canon(b)); mc_note("rename %s %s", a, b); vfs_did("rename"); return 0;
}
int __wrap_symlink(const char *to, const char *p) { if (!vfs_mine(p)) return __real_symlink(to, p); if (vfs_name(p) >= 0) { errno = EEXIST; return -1; } vfs_sym(p, to); vfs_did("symlink"); return 0; }
int __wrap_stat(const char *p, struct stat *st) { if (!vfs_mine(p)) return __real_stat(p, st); if (vfs_fault(VO_STAT, 2)) { mc_note("stat: failed by injection"); return vfs_err(EACCES); } int n = vfs_res(p); if (n < 0) return -1; vfs_fill(st, vname[n].ino); return 0; }
int __wrap_lstat(const char *p, struct stat *st) { if (!vfs_mine(p)) return __real_lstat(p, st); if (vfs_fault(VO_STAT, 2)) return vfs_err(EACCES); int n = vfs_name(p); if (n < 0) { errno = ENOENT; return -1; } vfs_fill(st, vname[n].ino); return 0; }
int __wrap_fstat(int fd, struct stat *st) { if (!vfs_isfd(fd)) return __real_fstat(fd, st); if (!vfs_chk(fd, "fstat")) return -1; if (vfs_fault(VO_STAT, 2)) { mc_note("fstat: failed by injection"); return vfs_err(EIO); } vfs_fill(st, vfd[fd - VFS_FD].ino); return 0; }
int __wrap_access(const char *p, int m) { if (!vfs_mine(p)) return __real_access(p, m); return vfs_res(p) < 0 ? -1 : 0; }
/* streams */
static ssize_t vck_read(void *c, char *b, size_t n) { return vfs_read((int)(intptr_t)c, b, n); }
static ssize_t vck_write(void *c, const char *b, size_t n) { size_t k = 0; while (k < n) { ssize_t r = vfs_write((int)(intptr_t)c, b + k, n - k); if (r < 0) return k; k += r; } return n; }
static int vck_seek(void *c, off64_t *o, int w) { off_t r = __wrap_lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int vck_close(void *c) { return vfs_close((int)(intptr_t)c); }
static FILE *vfs_stream(int fd, const char *mode)
{
    static const cookie_io_functions_t io = { vck_read, vck_write, vck_seek, vck_close }; char m[8]; int k = 0; for (const char *p = mode; *p && k < 6; p++) if (*p != 'x' && *p != 'e' && *p != 'b') m[k++] = *p; m[k] = 0; /* position handled here */
    FILE *f = fopencookie((void *)(intptr_t)fd, m, io); int i; for (i = 0; i < VS; i++) if (vst[i].f == f) break; if (i == VS) for (i = 0; i < VS; i++) if (!vst[i].open) break; if (i == VS) abort();
    vst[i].f = f; vst[i].fd = fd; vst[i].open = 1; return f;
}
static FILE *vfs_fopen(const char *p, const char *mode)
{
    int fl = *mode == 'r' ? O_RDONLY : *mode == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND; if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = vfs_open(p, fl); return fd < 0 ? NULL : vfs_stream(fd, mode);
}
FILE *__wrap_fopen(const char *p, const char *m) { return vfs_mine(p) ? vfs_fopen(p, m) : __real_fopen(p, m); }
FILE *__real_fopen64(const char *, const char *); FILE *__wrap_fopen64(const char *p, const char *m) { return vfs_mine(p) ? vfs_fopen(p, m) : __real_fopen64(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { if (!vfs_isfd(fd)) return __real_fdopen(fd, m); if (!vfs_chk(fd, "fdopen")) return NULL; if (vfs_fault(VO_DUP, 2)) { mc_note("fdopen: failed by injection"); vfs_err(ENOMEM); return NULL; } return vfs_stream(fd, m); }
static int vfs_st(FILE *f) { for (int i = 0; i < VS; i++) if (vst[i].f && vst[i].f == f) return i; return -1; }
int __wrap_fclose(FILE *f) { int i = vfs_st(f); if (i >= 0) { if (!vst[i].open) { vfs_badf("%s", "a stream was closed twice"); errno = EBADF; return EOF; } vst[i].open = 0; } return __real_fclose(f); }
int __wrap_fileno(FILE *f) { int i = vfs_st(f); if (i >= 0) { if (!vst[i].open) vfs_badf("%s", "a closed stream was used"); return vst[i].fd; } return __real_fileno(f); }
#endif
