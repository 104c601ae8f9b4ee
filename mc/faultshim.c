/* LD_PRELOAD library: counts the file operations of this process on paths below a prefix and makes one of them fail
 * (or ends the process there).  Control: shim_arm(prefix, target, mode), shim_disarm(), shim_count(), shim_trace(i). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { ERR = 0, SHORT = 1, CRASH = 2, TORN = 3, FULL = 4 };
#define MAXFD 4096
#define MAXOPS 20000
static int armed, count, target, mode, full;
static char prefix[PATH_MAX];
static char *name_of[MAXFD];
static int writable[MAXFD], fail_next[MAXFD];
static char *trace[MAXOPS];

#define REAL(ret, fn, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #fn)

void shim_arm(const char *p, int t, int m)
{
    for (int i = 0; i < MAXOPS; i++) { free(trace[i]); trace[i] = NULL; }
    snprintf(prefix, sizeof prefix, "%s", p);
    target = t; mode = m; count = 0; full = 0; armed = 1;
}
void shim_disarm(void) { armed = 0; }
int shim_count(void) { return count; }
const char *shim_trace(int i) { return i >= 0 && i < MAXOPS && trace[i] ? trace[i] : ""; }

static const char *inside(const char *path)
{
    static char buf[2*PATH_MAX];
    if (!armed || !path) return NULL;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return NULL;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
        path = buf;
    }
    size_t n = strlen(prefix);
    if (strncmp(path, prefix, n) || (path[n] && path[n] != '/')) return NULL;
    return path[n] ? path + n + 1 : path + n;
}

/* 1: this operation is the chosen one */
static int op(const char *what, const char *name)
{
    count++;
    if (count < MAXOPS) {
        if (asprintf(&trace[count], "%s %s", what, name) < 0) trace[count] = NULL;
    }
    return count == target;
}
static void die(void) { _exit(77); }

/* directories are only opened when old files are deleted (by an external library that ignores errors) */
static int isdir(const char *path) { struct stat st; return stat(path, &st) == 0 && S_ISDIR(st.st_mode); }

static int after_open(int fd, const char *path, int flags)
{
    if (fd >= 0 && fd < MAXFD) {
        free(name_of[fd]);
        name_of[fd] = path ? strdup(path) : NULL;
        writable[fd] = (flags & O_ACCMODE) != O_RDONLY;
        fail_next[fd] = 0;
    }
    return fd;
}
#define OPEN_BODY(rel, call) \
    int mo = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mo = va_arg(ap, int); va_end(ap); } \
    const char *in = inside(path); \
    if (in && (rel || isdir(path))) in = NULL; \
    if (in) { \
        int w = (flags & O_ACCMODE) != O_RDONLY; \
        if (op(w ? "open-w" : "open-r", in)) { \
            if (mode == CRASH || mode == TORN) { if (mode == TORN) { int f = call; (void)f; } die(); } \
            if (mode == FULL) full = 1; \
            errno = w ? ENOSPC : EIO; return -1; } \
        if (full && w) { errno = ENOSPC; return -1; } \
    } \
    return after_open(call, in, flags);

int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...); OPEN_BODY(0, real(path, flags, mo)) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...); OPEN_BODY(0, real(path, flags, mo)) }
int openat(int d, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...); OPEN_BODY(d != AT_FDCWD && path && path[0] != '/', real(d, path, flags, mo)) }
int openat64(int d, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(d != AT_FDCWD && path && path[0] != '/', real(d, path, flags, mo)) }

static const char *tracked(int fd) { return armed && fd >= 0 && fd < MAXFD ? name_of[fd] : NULL; }

ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    const char *in = tracked(fd);
    if (in && op("read", in)) {
        if (mode == CRASH || mode == TORN) die();
        if (mode == ERR) { errno = EIO; return -1; }
        if (mode == SHORT) { fail_next[fd] = 1; return real(fd, b, n/2 ? n/2 : n); }
    }
    else if (in && fail_next[fd]) { fail_next[fd] = 0; errno = EIO; return -1; }
    return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    const char *in = tracked(fd);
    if (in) {
        if (op("write", in)) {
            if (mode == CRASH) die();
            if (mode == TORN) { ssize_t r = real(fd, b, n/2); (void)r; die(); }
            if (mode == SHORT && n > 1) { fail_next[fd] = 1; return real(fd, b, n/2); }
            if (mode == FULL) { full = 1; if (n > 1) return real(fd, b, n/2); }
            errno = ENOSPC; return -1;
        }
        if (fail_next[fd]) { fail_next[fd] = 0; errno = ENOSPC; return -1; }
        if (full) { errno = ENOSPC; return -1; }
    }
    return real(fd, b, n);
}
int close(int fd)
{
    REAL(int, close, int);
    const char *in = tracked(fd);
    int bad = in && writable[fd] && op("close", in);
    if (bad && (mode == CRASH || mode == TORN)) die();
    int r = real(fd);
    if (fd >= 0 && fd < MAXFD && name_of[fd]) { free(name_of[fd]); name_of[fd] = NULL; }
    if (bad) { if (mode == FULL) full = 1; errno = EIO; return -1; }
    return r;
}
#define MKDIR_BODY(call) \
    const char *in = inside(path); struct stat st; \
    if (in && stat(path, &st) != 0) { \
        if (op("mkdir", in)) { \
            if (mode == CRASH) die(); \
            if (mode == TORN) { int r = call; (void)r; die(); } \
            if (mode == FULL) full = 1; \
            errno = ENOSPC; return -1; } \
        if (full) { errno = ENOSPC; return -1; } \
    } \
    return call;
int mkdir(const char *path, mode_t m) { REAL(int, mkdir, const char *, mode_t); MKDIR_BODY(real(path, m)) }
int mkdirat(int d, const char *path, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); MKDIR_BODY(real(d, path, m)) }
int rename(const char *a, const char *path)
{
    REAL(int, rename, const char *, const char *);
    const char *in = inside(path);
    if (in && op("rename", in)) { if (mode == CRASH || mode == TORN) die(); if (mode == FULL) full = 1; errno = EIO; return -1; }
    return real(a, path);
}
