/* LD_PRELOAD shim: counts the file operations of the process on files below
 * one directory and makes a chosen one fail, stop short, or kill the process.
 * Controlled by fi_arm()/fi_disarm() through ctypes. Nothing outside of the
 * armed directory is ever counted or disturbed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT, FAIL, FAIL_FROM, SHORT_FAIL, CRASH_BEFORE, CRASH_AFTER, CRASH_HALF, SHORT, INTR };
#define MAXFD 4096
static char prefix[PATH_MAX];
static size_t plen;
static int armed, mode, err;
static long target, counter, fired;
static char tracked[MAXFD];
static char oplog[1 << 16];
static size_t oplen;

void fi_arm(const char *p, long k, int m, int e)
{
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    target = k; mode = m; err = e; counter = 0; fired = 0; oplen = 0;
    armed = 1;
}
long fi_disarm(void) { armed = 0; return counter; }
long fi_fired(void) { return fired; }
const char *fi_log(void) { oplog[oplen] = 0; return oplog; }

static void *real(const char *name)
{
    void *f = dlsym(RTLD_NEXT, name);
    if (!f) abort();
    return f;
}
#define REAL(name) static __typeof__(name) *r; if (!r) r = (__typeof__(name) *)real(#name)

static int watched_at(int dirfd, const char *path)
{
    if (!armed || !path) return 0;
    if (path[0] == '/') return strncmp(path, prefix, plen) == 0 && (path[plen] == '/' || !path[plen]);
    if (dirfd != AT_FDCWD) return dirfd >= 0 && dirfd < MAXFD && tracked[dirfd];
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, prefix, plen) == 0 && (cwd[plen] == '/' || !cwd[plen]);
}
static int watched(const char *path) { return watched_at(AT_FDCWD, path); }
static int watchedfd(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* returns 0: go on, 1: fail with errno, 2: do half and fail, 3: crash after,
 * 4: half then crash, 5: half */
static int step(const char *op, int mutating)
{
    long k = counter++;
    size_t n = strlen(op);
    if (oplen + n + 2 < sizeof oplog) { memcpy(oplog + oplen, op, n); oplen += n; oplog[oplen++] = ' '; }
    if (mode == FAIL_FROM) {
        if (k >= target && mutating) { fired++; errno = err; return 1; }
        return 0;
    }
    if (k != target) return 0;
    switch (mode) {
    case FAIL: fired++; errno = err; return 1;
    case INTR: fired++; errno = EINTR; return 1;
    case SHORT_FAIL: fired++; return 2;
    case CRASH_BEFORE: _exit(77);
    case CRASH_AFTER: return 3;
    case CRASH_HALF: return 4;
    case SHORT: fired++; return 5;
    }
    return 0;
}
#define SIMPLE(op, call, mut) \
    int s = step(op, mut); \
    if (s == 1 || s == 2) { if (s == 2) errno = err; return -1; } \
    __typeof__(call) res = (call); \
    if (s == 3 || s == 4) _exit(77); \
    return res

static int do_open(int (*r)(int, const char *, int, mode_t), int dirfd, const char *path, int flags, mode_t m)
{
    int w = watched_at(dirfd, path);
    int s = 0;
    if (w) {
        int mut = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
        s = step(mut ? "open-w" : "open-r", mut);
        if (s == 1 || s == 2) { if (s == 2) errno = err; return -1; }
    }
    int fd = r(dirfd, path, flags, m);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = w;
    if (s == 3 || s == 4) _exit(77);
    return fd;
}
static int real_openat(int d, const char *p, int f, mode_t m)
{
    static int (*r)(int, const char *, int, ...);
    if (!r) r = real("openat64");
    return r(d, p, f, m);
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(real_openat, AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE return do_open(real_openat, AT_FDCWD, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(real_openat, d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(real_openat, d, path, flags, m); }
int creat(const char *path, mode_t m) { return do_open(real_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return creat(path, m); }

#define IO(op, mut, full, half) \
    int s = step(op, mut); \
    if (s == 1) return -1; \
    if (s == 2 || s == 4 || s == 5) { \
        ssize_t h = n > 1 ? (half) : (s == 5 ? (full) : 0); \
        if (s == 4) _exit(77); \
        if (s == 2) { errno = err; if (n <= 1) return -1; target++; mode = FAIL; counter = target; } \
        return h; \
    } \
    ssize_t res = (full); \
    if (s == 3) _exit(77); \
    return res

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (!watchedfd(fd)) return r(fd, b, n);
    IO("write", 1, r(fd, b, n), r(fd, b, n / 2));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(pwrite64);
    if (!watchedfd(fd)) return r(fd, b, n, o);
    IO("pwrite", 1, r(fd, b, n, o), r(fd, b, n / 2, o));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (!watchedfd(fd)) return r(fd, v, c);
    SIMPLE("writev", r(fd, v, c), 1);
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(read);
    if (!watchedfd(fd)) return r(fd, b, n);
    IO("read", 0, r(fd, b, n), r(fd, b, n / 2));
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n)
{
    static ssize_t (*r)(int, int, off64_t *, size_t);
    if (!r) r = real("sendfile64");
    if (!watchedfd(out) && !watchedfd(in)) return r(out, in, o, n);
    IO("sendfile", 1, r(out, in, o, n), r(out, in, o, n < 4096 ? n / 2 : 512));
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, (off64_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f)
{
    REAL(copy_file_range);
    if (!watchedfd(out) && !watchedfd(in)) return r(in, oi, out, oo, n, f);
    IO("copy_file_range", 1, r(in, oi, out, oo, n, f), r(in, oi, out, oo, n < 4096 ? n / 2 : 512, f));
}
int close(int fd)
{
    REAL(close);
    if (!watchedfd(fd)) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return r(fd); }
    int s = step("close", 0);
    int res;
    tracked[fd] = 0;
    res = r(fd);                 /* the descriptor is gone even if close fails */
    if (s == 1 || s == 2) { errno = mode == INTR ? EINTR : err; return -1; }
    if (s == 3 || s == 4) _exit(77);
    return res;
}
int fsync(int fd) { REAL(fsync); if (!watchedfd(fd)) return r(fd); SIMPLE("fsync", r(fd), 1); }
int fdatasync(int fd) { REAL(fdatasync); if (!watchedfd(fd)) return r(fd); SIMPLE("fdatasync", r(fd), 1); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (!watchedfd(fd)) return r(fd, n); SIMPLE("ftruncate", r(fd, n), 1); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fchmod(int fd, mode_t m) { REAL(fchmod); if (!watchedfd(fd)) return r(fd, m); SIMPLE("fchmod", r(fd, m), 1); }
int truncate64(const char *p, off64_t n) { REAL(truncate64); if (!watched(p)) return r(p, n); SIMPLE("truncate", r(p, n), 1); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int rename(const char *a, const char *b)
{ REAL(rename); if (!watched(a) && !watched(b)) return r(a, b); SIMPLE("rename", r(a, b), 1); }
int renameat(int da, const char *a, int db, const char *b)
{ REAL(renameat); if (!watched_at(da, a) && !watched_at(db, b)) return r(da, a, db, b); SIMPLE("renameat", r(da, a, db, b), 1); }
int link(const char *a, const char *b)
{ REAL(link); if (!watched(a) && !watched(b)) return r(a, b); SIMPLE("link", r(a, b), 1); }
int linkat(int da, const char *a, int db, const char *b, int f)
{ REAL(linkat); if (!watched_at(da, a) && !watched_at(db, b)) return r(da, a, db, b, f); SIMPLE("linkat", r(da, a, db, b, f), 1); }
int unlink(const char *a) { REAL(unlink); if (!watched(a)) return r(a); SIMPLE("unlink", r(a), 0); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (!watched_at(d, a)) return r(d, a, f); SIMPLE("unlinkat", r(d, a, f), 0); }
int chmod(const char *a, mode_t m) { REAL(chmod); if (!watched(a)) return r(a, m); SIMPLE("chmod", r(a, m), 1); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); if (!watched(a)) return r(a, m); SIMPLE("mkdir", r(a, m), 1); }
int utimensat(int d, const char *a, const struct timespec t[2], int f)
{ REAL(utimensat); if (!watched_at(d, a)) return r(d, a, t, f); SIMPLE("utimensat", r(d, a, t, f), 1); }
