// Fault injection and event log for the file operations one program makes below one
// directory. Preloaded into the command line program; nothing outside SHIM_DIR is touched.
//   SHIM_DIR   directory whose regular files are watched
//   SHIM_LOG   file the operations are appended to ("<n> <op> <ro|wr> <name>")
//   SHIM_K     operation number to disturb (from 0), -1 for none
//   SHIM_KIND  errno number, or "short", "killb" (die before), "killa" (die after)
//   SHIM_STICKY 1: every later operation of the same name fails as well
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_int counter;
static char dir[PATH_MAX];
static size_t dirlen;
static int logfd = -1;
static long K = -1;
static char kind[16];
static int sticky;
static char hit_op[24];
static unsigned char watched[4096]; // 1 read, 2 write

static void *real(const char *n) {
    void *p = dlsym(RTLD_NEXT, n);
    return p;
}
__attribute__((constructor)) static void init(void) {
    const char *d = getenv("SHIM_DIR");
    if (!d || !realpath(d, dir)) return;
    dirlen = strlen(dir);
    const char *k = getenv("SHIM_K");
    if (k) K = atol(k);
    k = getenv("SHIM_KIND");
    if (k) snprintf(kind, sizeof kind, "%s", k);
    k = getenv("SHIM_STICKY");
    sticky = k && *k == '1';
    k = getenv("SHIM_LOG");
    if (k) {
        int (*o)(const char *, int, ...) = real("open");
        logfd = o(k, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    }
    unsetenv("LD_PRELOAD");
}
static int below(const char *path) {
    if (!dirlen || !path) return 0;
    char abs[PATH_MAX], parent[PATH_MAX], r[PATH_MAX];
    if (realpath(path, abs)) return strncmp(abs, dir, dirlen) == 0 && (abs[dirlen] == '/' || !abs[dirlen]);
    snprintf(parent, sizeof parent, "%s", path);
    char *s = strrchr(parent, '/');
    if (s) *s = 0; else strcpy(parent, ".");
    if (!realpath(*parent ? parent : "/", r)) return 0;
    return strncmp(r, dir, dirlen) == 0 && (r[dirlen] == '/' || !r[dirlen]);
}
// 0: go on, 1: fail with errno set, 2: shorten, 3: die after
static int step(const char *op, int wr, const char *name) {
    int n = atomic_fetch_add(&counter, 1);
    if (logfd >= 0) {
        char b[PATH_MAX + 64];
        int l = snprintf(b, sizeof b, "%d %s %s %s\n", n, op, wr ? "wr" : "ro", name ? name : "-");
        ssize_t (*w)(int, const void *, size_t) = real("write");
        if (w(logfd, b, l) < 0) {}
    }
    int on = n == K || (sticky && K >= 0 && n > K && strcmp(hit_op, op) == 0);
    if (!on) return 0;
    snprintf(hit_op, sizeof hit_op, "%s", op);
    if (strcmp(kind, "killb") == 0) kill(getpid(), SIGKILL);
    if (strcmp(kind, "killa") == 0) return 3;
    if (strcmp(kind, "short") == 0) return 2;
    errno = atoi(kind);
    return 1;
}
static int opened(int fd, int flags) {
    if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
    return fd;
}
#define OPEN(NAME, ARGS, CALL, PATH)                                                          \
    int NAME ARGS {                                                                           \
        mode_t m = 0;                                                                         \
        if (flags & (O_CREAT | O_TMPFILE)) {                                                  \
            va_list ap;                                                                       \
            va_start(ap, flags);                                                              \
            m = va_arg(ap, mode_t);                                                           \
            va_end(ap);                                                                       \
        }                                                                                     \
        struct stat st;                                                                       \
        int w = (flags & O_ACCMODE) != O_RDONLY;                                              \
        if (!(below(PATH) && !(stat(PATH, &st) == 0 && !S_ISREG(st.st_mode)))) return CALL;   \
        int s = step(w ? (flags & O_TRUNC ? "open-trunc" : "open-write") : "open-read", w, PATH); \
        if (s == 1) return -1;                                                                \
        int fd = opened(CALL, flags);                                                         \
        if (s == 3) kill(getpid(), SIGKILL);                                                  \
        return fd;                                                                            \
    }
OPEN(open, (const char *path, int flags, ...), ((int (*)(const char *, int, ...))real("open"))(path, flags, m), path)
OPEN(open64, (const char *path, int flags, ...), ((int (*)(const char *, int, ...))real("open64"))(path, flags, m), path)
OPEN(openat, (int at, const char *path, int flags, ...), ((int (*)(int, const char *, int, ...))real("openat"))(at, path, flags, m), path)
OPEN(openat64, (int at, const char *path, int flags, ...), ((int (*)(int, const char *, int, ...))real("openat64"))(at, path, flags, m), path)

static int on(int fd) { return fd >= 0 && fd < (int)sizeof watched ? watched[fd] : 0; }

ssize_t read(int fd, void *b, size_t n) {
    ssize_t (*f)(int, void *, size_t) = real("read");
    if (!on(fd)) return f(fd, b, n);
    int s = step("read", 0, 0);
    if (s == 1) return -1;
    if (s == 2 && n > 1) n = n > 8 ? 7 : 1;
    ssize_t r = f(fd, b, n);
    if (s == 3) kill(getpid(), SIGKILL);
    return r;
}
#define WRITE(NAME, ARGS, CALL)                  \
    ssize_t NAME ARGS {                          \
        if (!on(fd)) return CALL;                \
        int s = step("write", 1, 0);             \
        if (s == 1) return -1;                   \
        if (s == 2 && n > 1) n = n / 2;          \
        ssize_t r = CALL;                        \
        if (s == 3) kill(getpid(), SIGKILL);     \
        return r;                                \
    }
WRITE(write, (int fd, const void *b, size_t n), ((ssize_t(*)(int, const void *, size_t))real("write"))(fd, b, n))
WRITE(pwrite, (int fd, const void *b, size_t n, off_t o), ((ssize_t(*)(int, const void *, size_t, off_t))real("pwrite"))(fd, b, n, o))
WRITE(pwrite64, (int fd, const void *b, size_t n, off_t o), ((ssize_t(*)(int, const void *, size_t, off_t))real("pwrite64"))(fd, b, n, o))
ssize_t writev(int fd, const struct iovec *v, int n) {
    ssize_t (*f)(int, const struct iovec *, int) = real("writev");
    if (!on(fd)) return f(fd, v, n);
    int s = step("write", 1, 0);
    if (s == 1) return -1;
    ssize_t r = f(fd, v, s == 2 && n > 1 ? 1 : n);
    if (s == 3) kill(getpid(), SIGKILL);
    return r;
}
#define SIMPLE(NAME, OP, ARGS, COND, CALL)       \
    int NAME ARGS {                              \
        if (!(COND)) return CALL;                \
        int s = step(OP, 1, 0);                  \
        if (s == 1) return -1;                   \
        int r = CALL;                            \
        if (s == 3) kill(getpid(), SIGKILL);     \
        return r;                                \
    }
SIMPLE(ftruncate, "ftruncate", (int fd, off_t l), on(fd), ((int (*)(int, off_t))real("ftruncate"))(fd, l))
SIMPLE(ftruncate64, "ftruncate", (int fd, off_t l), on(fd), ((int (*)(int, off_t))real("ftruncate64"))(fd, l))
SIMPLE(fsync, "fsync", (int fd), on(fd), ((int (*)(int))real("fsync"))(fd))
SIMPLE(fdatasync, "fsync", (int fd), on(fd), ((int (*)(int))real("fdatasync"))(fd))
SIMPLE(rename, "rename", (const char *a, const char *b), below(b), ((int (*)(const char *, const char *))real("rename"))(a, b))
SIMPLE(unlink, "unlink", (const char *a), below(a), ((int (*)(const char *))real("unlink"))(a))
SIMPLE(truncate, "truncate", (const char *a, off_t l), below(a), ((int (*)(const char *, off_t))real("truncate"))(a, l))
SIMPLE(truncate64, "truncate", (const char *a, off_t l), below(a), ((int (*)(const char *, off_t))real("truncate64"))(a, l))
int close(int fd) {
    int (*f)(int) = real("close");
    int s = 0;
    if (on(fd)) {
        s = step("close", on(fd) == 2, 0);
        watched[fd] = 0;
        // a failing close is not reported to Rust programs: only deaths are injected here
    }
    int r = f(fd);
    if (s == 3) kill(getpid(), SIGKILL);
    return r;
}
