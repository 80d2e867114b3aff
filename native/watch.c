/* LD_PRELOAD shim: records which files the process opens, and whether it
 * connects to the network or starts a process, between w_start() and w_stop().
 * Connections and processes are recorded and refused while it watches; files
 * are opened as usual. One line "what argument" for each event. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <unistd.h>

static int watching;
static char events[1 << 18];
static size_t used;
static long lost;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static void note(const char *what, const char *arg)
{
    if (!watching) return;
    int keep = errno;
    char buf[PATH_MAX * 2 + 64], cwd[PATH_MAX];
    if (!arg) arg = "";
    if (what[0] == 'o' && arg[0] != '/' && getcwd(cwd, sizeof cwd))
        snprintf(buf, sizeof buf, "%s %s/%s\n", what, cwd, arg);
    else
        snprintf(buf, sizeof buf, "%s %s\n", what, arg);
    for (char *p = buf; p[0] && p[1]; p++) if (*p == '\n') *p = '?';
    pthread_mutex_lock(&lock);
    size_t n = strlen(buf);
    if (used + n < sizeof events) { memcpy(events + used, buf, n); used += n; }
    else lost++;
    pthread_mutex_unlock(&lock);
    errno = keep;
}

void w_start(void) { used = 0; lost = 0; watching = 1; }
long w_stop(void) { watching = 0; return lost; }
long w_size(void) { return (long)used; }
const char *w_events(void) { return events; }

static void *real(const char *name)
{
    void *f = dlsym(RTLD_NEXT, name);
    if (!f) abort();
    return f;
}
#define REAL(name) static __typeof__(name) *r; if (!r) r = (__typeof__(name) *)real(#name)
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
#define KIND(flags) (((flags) & O_ACCMODE) == O_RDONLY ? "open-read" : "open-write")

int open(const char *p, int flags, ...) { MODE REAL(open); note(KIND(flags), p); return r(p, flags, m); }
int open64(const char *p, int flags, ...) { MODE REAL(open64); note(KIND(flags), p); return r(p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE REAL(openat); note(KIND(flags), p); return r(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE REAL(openat64); note(KIND(flags), p); return r(d, p, flags, m); }
int creat(const char *p, mode_t m) { REAL(creat); note("open-write", p); return r(p, m); }
int creat64(const char *p, mode_t m) { REAL(creat64); note("open-write", p); return r(p, m); }
FILE *fopen(const char *p, const char *mode) { REAL(fopen); note(mode[0] == 'r' && !strchr(mode, '+') ? "open-read" : "open-write", p); return r(p, mode); }
FILE *fopen64(const char *p, const char *mode) { REAL(fopen64); note(mode[0] == 'r' && !strchr(mode, '+') ? "open-read" : "open-write", p); return r(p, mode); }

int connect(int fd, const struct sockaddr *a, socklen_t n)
{
    REAL(connect);
    if (!watching) return r(fd, a, n);
    note("network", "connect");
    errno = ECONNREFUSED;
    return -1;
}
int getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    REAL(getaddrinfo);
    if (!watching) return r(host, service, hints, res);
    note("network", host);
    return EAI_NONAME;
}
struct hostent *gethostbyname(const char *host)
{
    REAL(gethostbyname);
    if (!watching) return r(host);
    note("network", host);
    h_errno = HOST_NOT_FOUND;
    return NULL;
}
int execve(const char *p, char *const argv[], char *const envp[])
{
    REAL(execve);
    if (!watching) return r(p, argv, envp);
    note("process", p);
    errno = EPERM;
    return -1;
}
pid_t fork(void)
{
    REAL(fork);
    if (!watching) return r();
    note("process", "fork");
    errno = EAGAIN;
    return -1;
}
int posix_spawn(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[])
{
    REAL(posix_spawn);
    if (!watching) return r(pid, p, fa, at, argv, envp);
    note("process", p);
    return EPERM;
}
int posix_spawnp(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[])
{
    REAL(posix_spawnp);
    if (!watching) return r(pid, p, fa, at, argv, envp);
    note("process", p);
    return EPERM;
}
int system(const char *cmd)
{
    REAL(system);
    if (!watching) return r(cmd);
    note("process", cmd);
    errno = EPERM;
    return -1;
}
