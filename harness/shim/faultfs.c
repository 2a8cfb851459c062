/* Preloaded into the process that runs pyg2p: observes the calls which change (or open) files below given folders,
 * and, when armed, interrupts the process at one of them, makes one fail, or holds the process there.
 * Nothing happens until ff_arm() is called (through ctypes, in a forked child). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OFF, COUNT, KILL, PARTIAL, FAIL_FROM, FAIL_ONCE, INTERRUPT, DELAY, HOLD };

static int mode = OFF, err = ENOSPC, reads = 0;
static long target = 0, n = 0, n2 = 0;
static int failing = 0;
static unsigned seed = 1;
static long max_us = 0;
static char prefix[8][PATH_MAX];
static int n_prefix = 0;
static char hold_here[PATH_MAX], hold_go[PATH_MAX], wait_mark[PATH_MAX];
static char ops[1 << 16];
static size_t ops_len = 0;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, name);

static int raw_mark(const char *p) {
    static int (*ropen)(const char *, int, ...);
    if (!ropen) ropen = dlsym(RTLD_NEXT, "open");
    int fd = ropen(p, O_WRONLY | O_CREAT, 0600);
    if (fd >= 0) close(fd);
    return fd;
}

void ff_prefix(const char *p) { if (n_prefix < 8) snprintf(prefix[n_prefix++], PATH_MAX, "%s", p); }
void ff_marks(const char *here, const char *go, const char *waiting) {
    snprintf(hold_here, PATH_MAX, "%s", here);
    snprintf(hold_go, PATH_MAX, "%s", go);
    snprintf(wait_mark, PATH_MAX, "%s", waiting);
}
void ff_arm(int m, long t, int e, int with_reads, unsigned s, long us) {
    n = n2 = 0; failing = 0; target = t; err = e; reads = with_reads; seed = s; max_us = us; ops_len = 0; ops[0] = 0;
    mode = m;
}
void ff_forget(void) { n_prefix = 0; }
long ff_count(void) { return n; }
const char *ff_ops(void) { return ops; }

static int below(const char *path) {
    char full[PATH_MAX * 2];
    if (!path) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
        path = full;
    }
    for (int i = 0; i < n_prefix; i++) {
        size_t l = strlen(prefix[i]);
        if (!strncmp(path, prefix[i], l) && (path[l] == '/' || !path[l])) return 1;
    }
    return 0;
}
static int fd_below(int fd) {
    char link[64], path[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1);
    if (l <= 0) return 0;
    path[l] = 0;
    return below(path);
}
static void logop(const char *name, const char *path) {
    const char *b = path ? strrchr(path, '/') : 0;
    int k = snprintf(ops + ops_len, sizeof ops - ops_len, "%s:%.60s\n", name, b ? b + 1 : path ? path : "");
    if (k > 0 && ops_len + k < sizeof ops) ops_len += k;
}
static void logfd(const char *name, int fd) {
    char link[64], path[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(link, path, sizeof path - 1);
    path[l > 0 ? l : 0] = 0;
    logop(name, path);
}

/* 0: go on; 1: fail with errno set; 2: write half and end */
static int event(int is_write) {
    n++;
    if (mode == COUNT) return 0;
    if (mode == DELAY) {
        seed = seed * 1103515245u + 12345u;
        if ((seed >> 16) % 3 == 0) usleep((seed >> 8) % (max_us + 1));
        return 0;
    }
    if (mode == FAIL_FROM) {
        if (n >= target) failing = 1;
        if (failing && is_write) { errno = err; return 1; }
        return 0;
    }
    if (n != target) return 0;
    switch (mode) {
    case KILL: kill(getpid(), SIGKILL); pause(); break;
    case PARTIAL: if (is_write) return 2; kill(getpid(), SIGKILL); pause(); break;
    case FAIL_ONCE: errno = err; return 1;
    case INTERRUPT: raise(SIGINT); break;
    case HOLD: {
        raw_mark(hold_here);
        struct stat st;
        for (int i = 0; i < 40000 && stat(hold_go, &st); i++) usleep(1000);
        break;
    }
    }
    return 0;
}
static void end_now(void) { kill(getpid(), SIGKILL); pause(); }

static int changes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPEN_BODY(path) \
    int m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    if (mode && below(path) && (changes(flags) || reads)) { \
        logop(changes(flags) ? "open" : "read", path); \
        if (changes(flags)) { if (event(0) == 1) return -1; } \
        else event(0); \
    }

int open(const char *path, int flags, ...) {
    REAL(int, "open", const char *, int, ...)
    OPEN_BODY(path)
    return real(path, flags, m);
}
int open64(const char *path, int flags, ...) {
    REAL(int, "open64", const char *, int, ...)
    OPEN_BODY(path)
    return real(path, flags, m);
}
int openat(int d, const char *path, int flags, ...) {
    REAL(int, "openat", int, const char *, int, ...)
    OPEN_BODY(path)
    return real(d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
    REAL(int, "openat64", int, const char *, int, ...)
    OPEN_BODY(path)
    return real(d, path, flags, m);
}
int creat(const char *path, mode_t md) {
    REAL(int, "creat", const char *, mode_t)
    if (mode && below(path)) { logop("open", path); if (event(0) == 1) return -1; }
    return real(path, md);
}
FILE *fopen(const char *path, const char *md) {
    REAL(FILE *, "fopen", const char *, const char *)
    if (mode && below(path) && strpbrk(md, "wa+")) { logop("open", path); if (event(0) == 1) return 0; }
    return real(path, md);
}
FILE *fopen64(const char *path, const char *md) {
    REAL(FILE *, "fopen64", const char *, const char *)
    if (mode && below(path) && strpbrk(md, "wa+")) { logop("open", path); if (event(0) == 1) return 0; }
    return real(path, md);
}
ssize_t write(int fd, const void *b, size_t c) {
    REAL(ssize_t, "write", int, const void *, size_t)
    if (mode && fd > 2 && fd_below(fd)) {
        logfd("write", fd);
        int e = event(1);
        if (e == 1) return -1;
        if (e == 2) { real(fd, b, c / 2); end_now(); }
    }
    return real(fd, b, c);
}
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t)
    if (mode && fd_below(fd)) {
        logfd("write", fd);
        int e = event(1);
        if (e == 1) return -1;
        if (e == 2) { real(fd, b, c / 2, o); end_now(); }
    }
    return real(fd, b, c, o);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) {
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t)
    if (mode && fd_below(fd)) {
        logfd("write", fd);
        int e = event(1);
        if (e == 1) return -1;
        if (e == 2) { real(fd, b, c / 2, o); end_now(); }
    }
    return real(fd, b, c, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int)
    if (mode && fd > 2 && fd_below(fd)) {
        logfd("write", fd);
        int e = event(1);
        if (e == 1) return -1;
        if (e == 2) { if (c > 1) real(fd, v, c / 2); end_now(); }
    }
    return real(fd, v, c);
}
#define SEND(name, off) \
ssize_t name(int out, int in, off *o, size_t c) { \
    REAL(ssize_t, #name, int, int, off *, size_t) \
    if (mode && fd_below(out)) { \
        logfd("write", out); \
        int e = event(1); \
        if (e == 1) return -1; \
        if (e == 2) { struct stat st; size_t k = c / 2; if (!fstat(in, &st) && (off_t)k > st.st_size / 2) k = st.st_size / 2; real(out, in, o, k); end_now(); } \
    } \
    return real(out, in, o, c); \
}
SEND(sendfile, off_t)
SEND(sendfile64, off64_t)
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t c, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned)
    if (mode && fd_below(out)) {
        logfd("write", out);
        int e = event(1);
        if (e == 1) return -1;
        if (e == 2) end_now();
    }
    return real(in, oi, out, oo, c, f);
}
#define TWO(name, proto, args, p, q) \
int name proto { \
    static int (*real) proto; \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (mode && (below(p) || below(q))) { logop(#name, q); if (event(0) == 1) return -1; } \
    return real args; \
}
TWO(rename, (const char *a, const char *b), (a, b), a, b)
TWO(renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), a, b)
TWO(link, (const char *a, const char *b), (a, b), a, b)
TWO(linkat, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f), a, b)
TWO(symlink, (const char *a, const char *b), (a, b), b, b)
TWO(unlink, (const char *a), (a), a, a)
TWO(unlinkat, (int d, const char *a, int f), (d, a, f), a, a)
TWO(mkdir, (const char *a, mode_t m), (a, m), a, a)
TWO(rmdir, (const char *a), (a), a, a)
TWO(truncate, (const char *a, off_t l), (a, l), a, a)
TWO(chmod, (const char *a, mode_t m), (a, m), a, a)
int ftruncate64(int fd, off64_t l) {
    REAL(int, "ftruncate64", int, off64_t)
    if (mode && fd_below(fd)) { logfd("ftruncate", fd); if (event(0) == 1) return -1; }
    return real(fd, l);
}
int ftruncate(int fd, off_t l) {
    REAL(int, "ftruncate", int, off_t)
    if (mode && fd_below(fd)) { logfd("ftruncate", fd); if (event(0) == 1) return -1; }
    return real(fd, l);
}
/* a process that has to wait for a lock says so */
int flock(int fd, int op) {
    REAL(int, "flock", int, int)
    if (mode && fd_below(fd)) {
        logfd(op & LOCK_UN ? "unlock" : "flock", fd);
        if (reads) event(0);
        if (wait_mark[0] && !(op & (LOCK_UN | LOCK_NB))) {
            int r = real(fd, op | LOCK_NB);
            if (r == 0 || errno != EWOULDBLOCK) return r;
            raw_mark(wait_mark);
        }
    }
    return real(fd, op);
}
