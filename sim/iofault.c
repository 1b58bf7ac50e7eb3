/* Simulated storage seam.
 *
 * Preloaded under the real openPMD-api / HDF5 / h5py libraries.  Every
 * mutating file operation (open-for-writing, write, pwrite, ftruncate,
 * close-of-written-file, mkdir, rename, unlink) on a path below a configured
 * prefix gets a sequence number; a fault plan decides, per sequence number,
 * whether it succeeds, fails with an errno, is short, or kills the process.
 * Nothing outside the prefix is touched or counted.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_PWRITE, OP_FTRUNCATE, OP_CLOSE, OP_MKDIR,
       OP_RENAME, OP_UNLINK, OP_FSYNC };
enum { K_NONE = 0, K_ENOSPC, K_EIO, K_SHORT, K_CRASH_BEFORE, K_CRASH_TORN,
       K_CRASH_AFTER, K_EACCES, K_EINTR };

#define MAXFD 4096
#define MAXLOG 65536
#define MAXPLAN 64

typedef struct { int32_t op, fault, fd, res; int64_t off, len; char name[48]; } logrec;

static char prefix[PATH_MAX];
static size_t prefix_len = 0;
static int armed = 0;
static char tracked[MAXFD];
static char fdname[MAXFD][48];
static logrec logbuf[MAXLOG];
static long nlog = 0, nops = 0;
static struct { long seq; int kind; long arg; long last; int opmask; } plan[MAXPLAN];
static int nplan = 0;
static int crash_code = 77;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

/* ---- control interface (called through ctypes) ---- */
void iof_prefix(const char *p) {
    strncpy(prefix, p, sizeof prefix - 1); prefix_len = strlen(prefix);
}
void iof_reset(void) { nlog = nops = 0; nplan = 0; armed = 0; }
void iof_arm(int on) { armed = on; }
/* fault `kind` for operations seq..last (inclusive) whose op is in opmask */
int iof_plan(long seq, long last, int kind, long arg, int opmask) {
    if (nplan >= MAXPLAN) return -1;
    plan[nplan].seq = seq; plan[nplan].last = last; plan[nplan].kind = kind;
    plan[nplan].arg = arg; plan[nplan].opmask = opmask; nplan++;
    return 0;
}
void iof_clear_plan(void) { nplan = 0; }
long iof_nops(void) { return nops; }
long iof_nlog(void) { return nlog; }
const logrec *iof_log(long i) { return &logbuf[i % MAXLOG]; }
int iof_present(void) { return 1; }

static int under(const char *path) {
    char buf[PATH_MAX];
    if (!armed || !prefix_len || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        size_t l = strlen(buf);
        snprintf(buf + l, sizeof buf - l, "/%s", path);
        path = buf;
    }
    return strncmp(path, prefix, prefix_len) == 0;
}
static const char *base(const char *p) {
    const char *s = strrchr(p, '/'); return s && s[1] ? s + 1 : p;
}
static void note(int op, int fault, int fd, long res, long off, long len,
                 const char *name) {
    logrec *r = &logbuf[nlog % MAXLOG];
    r->op = op; r->fault = fault; r->fd = fd; r->res = (int32_t)res;
    r->off = off; r->len = len;
    memset(r->name, 0, sizeof r->name);
    if (name) strncpy(r->name, name, sizeof r->name - 1);
    nlog++;
}
static int decide(int op, long *arg) {
    long s = nops++;
    for (int i = 0; i < nplan; i++)
        if (s >= plan[i].seq && s <= plan[i].last &&
            (plan[i].opmask == 0 || (plan[i].opmask >> op & 1))) {
            *arg = plan[i].arg;
            if (plan[i].kind == K_CRASH_BEFORE) _exit(crash_code);
            return plan[i].kind;
        }
    return K_NONE;
}
static int err_of(int k) {
    switch (k) {
    case K_ENOSPC: return ENOSPC;
    case K_EIO: return EIO;
    case K_EACCES: return EACCES;
    case K_EINTR: return EINTR;
    }
    return 0;
}

/* ---- interposed calls ---- */
static int do_open(int (*f)(const char *, int, mode_t), const char *path,
                   int flags, mode_t mode) {
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (!wr || !under(path)) return f(path, flags, mode);
    long arg = 0; int k = decide(OP_OPEN, &arg), e = err_of(k);
    if (e) { note(OP_OPEN, k, -1, -1, 0, 0, base(path)); errno = e; return -1; }
    int fd = f(path, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
        tracked[fd] = 1;
        strncpy(fdname[fd], base(path), 47); fdname[fd][47] = 0;
    }
    note(OP_OPEN, k, fd, fd >= 0, 0, 0, base(path));
    if (k == K_CRASH_AFTER || k == K_CRASH_TORN) _exit(crash_code);
    return fd;
}
int open(const char *path, int flags, ...) {
    REAL(int, "open", const char *, int, mode_t);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a);
    }
    return do_open(real, path, flags, m);
}
int open64(const char *path, int flags, ...) {
    REAL(int, "open64", const char *, int, mode_t);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a);
    }
    return do_open(real, path, flags, m);
}
static int is_tracked(int fd) {
    return armed && fd >= 0 && fd < MAXFD && tracked[fd];
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!is_tracked(fd)) return real(fd, b, n);
    long arg = 0; int k = decide(OP_WRITE, &arg), e = err_of(k);
    if (e) { note(OP_WRITE, k, fd, -1, -1, n, fdname[fd]); errno = e; return -1; }
    size_t m = n;
    if (k == K_SHORT || k == K_CRASH_TORN) m = n > 1 ? 1 + (size_t)arg % (n - 1) : n;
    ssize_t r = real(fd, b, m);
    note(OP_WRITE, k, fd, r, -1, n, fdname[fd]);
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    return r;
}
static ssize_t do_pwrite(ssize_t (*f)(int, const void *, size_t, off_t),
                         int fd, const void *b, size_t n, off_t o) {
    if (!is_tracked(fd)) return f(fd, b, n, o);
    long arg = 0; int k = decide(OP_PWRITE, &arg), e = err_of(k);
    if (e) { note(OP_PWRITE, k, fd, -1, o, n, fdname[fd]); errno = e; return -1; }
    size_t m = n;
    if (k == K_SHORT || k == K_CRASH_TORN) m = n > 1 ? 1 + (size_t)arg % (n - 1) : n;
    ssize_t r = f(fd, b, m, o);
    note(OP_PWRITE, k, fd, r, o, n, fdname[fd]);
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t);
    return do_pwrite(real, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off_t);
    return do_pwrite(real, fd, b, n, o);
}
static int do_ftruncate(int (*f)(int, off_t), int fd, off_t n) {
    if (!is_tracked(fd)) return f(fd, n);
    long arg = 0; int k = decide(OP_FTRUNCATE, &arg), e = err_of(k);
    if (e) { note(OP_FTRUNCATE, k, fd, -1, 0, n, fdname[fd]); errno = e; return -1; }
    int r = f(fd, n);
    note(OP_FTRUNCATE, k, fd, r, 0, n, fdname[fd]);
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    return r;
}
int ftruncate(int fd, off_t n) {
    REAL(int, "ftruncate", int, off_t);
    return do_ftruncate(real, fd, n);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off_t);
    return do_ftruncate(real, fd, n);
}
int close(int fd) {
    REAL(int, "close", int);
    if (!is_tracked(fd)) {
        if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
        return real(fd);
    }
    long arg = 0; int k = decide(OP_CLOSE, &arg), e = err_of(k);
    tracked[fd] = 0;
    int r = real(fd);              /* the descriptor is released either way */
    note(OP_CLOSE, k, fd, e ? -1 : r, 0, 0, fdname[fd]);
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    if (e) { errno = e; return -1; }
    return r;
}
int fsync(int fd) {
    REAL(int, "fsync", int);
    if (!is_tracked(fd)) return real(fd);
    long arg = 0; int k = decide(OP_FSYNC, &arg), e = err_of(k);
    if (e) { note(OP_FSYNC, k, fd, -1, 0, 0, fdname[fd]); errno = e; return -1; }
    int r = real(fd);
    note(OP_FSYNC, k, fd, r, 0, 0, fdname[fd]);
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    return r;
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (!under(p)) return real(p, m);
    long arg = 0; int k = decide(OP_MKDIR, &arg), e = err_of(k);
    if (e) { note(OP_MKDIR, k, -1, -1, 0, 0, base(p)); errno = e; return -1; }
    int r = real(p, m);
    int se = errno;
    note(OP_MKDIR, k, -1, r, 0, 0, base(p));
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    errno = se;
    return r;
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    if (!under(b)) return real(a, b);
    long arg = 0; int k = decide(OP_RENAME, &arg), e = err_of(k);
    if (e) { note(OP_RENAME, k, -1, -1, 0, 0, base(b)); errno = e; return -1; }
    int r = real(a, b);
    note(OP_RENAME, k, -1, r, 0, 0, base(b));
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    return r;
}
int unlink(const char *p) {
    REAL(int, "unlink", const char *);
    if (!under(p)) return real(p);
    long arg = 0; int k = decide(OP_UNLINK, &arg), e = err_of(k);
    if (e) { note(OP_UNLINK, k, -1, -1, 0, 0, base(p)); errno = e; return -1; }
    int r = real(p);
    note(OP_UNLINK, k, -1, r, 0, 0, base(p));
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) _exit(crash_code);
    return r;
}
