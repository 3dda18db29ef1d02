/* LD_PRELOAD helper of the property checks.
 *
 * - fake CLOCK_REALTIME (deterministic time, chosen instants)
 * - counting / failing / killing / interrupting / pausing at the k-th
 *   file-system-changing call below a given directory prefix
 *
 * Everything is off until switched on through ctypes by the harness.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ---------------------------------------------------------------- clock */
static int clock_on = 0;
static int64_t clock_private = 0;
static int64_t *clock_ns = &clock_private;      /* since the epoch; shared with forked processes */
static int64_t clock_tick = 0;

void shim_clock(int on, int64_t ns, int64_t tick) {
    if (clock_ns == &clock_private) {
        void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p != MAP_FAILED) clock_ns = p;
    }
    clock_on = on; *clock_ns = ns; clock_tick = tick;
}
int64_t shim_clock_now(void) { return *clock_ns; }

static int64_t next_ns(void) { return __atomic_fetch_add(clock_ns, clock_tick, __ATOMIC_SEQ_CST); }

static void split(int64_t ns, int64_t *s, int64_t *f) {
    int64_t q = ns / 1000000000LL, r = ns % 1000000000LL;
    if (r < 0) { r += 1000000000LL; q -= 1; }
    *s = q; *f = r;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t s, f; split(next_ns(), &s, &f);
        ts->tv_sec = s; ts->tv_nsec = f;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    (void)tz;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return r;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

/* --------------------------------------------------------------- faults */
enum { OFF = 0, COUNT = 1, KILL = 2, KILL_HALF = 3, FAIL_ONCE = 4, FAIL_FULL = 5, INTERRUPT = 6, PAUSE = 7 };
static int mode = OFF;
static int64_t at = 0;          /* index (1-based) of the call to hit */
static int64_t seen = 0;
static int fail_errno = 0;
static char prefix[PATH_MAX] = "";
static size_t prefix_len = 0;
static int pause_out = -1, pause_in = -1;
static int hit = 0;
static int fast_sleep = 0;
static char trace[1 << 16];
static size_t trace_len = 0;

void shim_arm(int m, int64_t k, int err, const char *pfx) {
    mode = OFF; at = k; fail_errno = err; seen = 0; hit = 0; trace_len = 0; trace[0] = 0;
    strncpy(prefix, pfx, sizeof prefix - 1); prefix_len = strlen(prefix);
    mode = m;
}
void shim_pause_fds(int out, int in) { pause_out = out; pause_in = in; }
void shim_disarm(void) { mode = OFF; }
int64_t shim_seen(void) { return seen; }
int shim_hit(void) { return hit; }
void shim_fast_sleep(int on) { fast_sleep = on; }
const char *shim_trace(void) { return trace; }

static int under(const char *p) {
    return prefix_len && strncmp(p, prefix, prefix_len) == 0 && (p[prefix_len] == '/' || p[prefix_len] == 0);
}
static int fd_under(int fd) {
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, sizeof buf - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return under(buf);
}
static int path_under(int dirfd, const char *p) {
    char buf[2 * PATH_MAX];
    if (!p) return 0;
    if (p[0] == '/') return under(p);
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, PATH_MAX)) return 0;
    } else {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, buf, PATH_MAX - 1);
        if (n < 0) return 0;
        buf[n] = 0;
    }
    size_t l = strlen(buf);
    snprintf(buf + l, sizeof buf - l, "/%s", p);
    return under(buf);
}
static void note(const char *what) {
    size_t n = strlen(what);
    if (trace_len + n + 2 < sizeof trace) {
        memcpy(trace + trace_len, what, n); trace_len += n;
        trace[trace_len++] = ' '; trace[trace_len] = 0;
    }
}

/* returns 0: go on, 1: fail with errno set, 2: write half then die
 * grows: the operation needs disk space */
static int gate(const char *what, int grows) {
    seen++;
    if (mode == COUNT) { note(what); return 0; }
    if (mode == FAIL_FULL) {
        if (seen >= at && grows) { hit = 1; errno = ENOSPC; return 1; }
        return 0;
    }
    if (seen != at) return 0;
    hit = 1;
    switch (mode) {
    case KILL: _exit(77);
    case KILL_HALF: return 2;
    case FAIL_ONCE: errno = fail_errno; return 1;
    case INTERRUPT: raise(SIGINT); return 0;
    case PAUSE: {
        /* tell that we got here, then wait for the number of operations to go on with (<= 0: to the end) */
        char c = 'p';
        int64_t n = 0;
        ssize_t got;
        mode = OFF;
        if (write(pause_out, &c, 1) != 1) return 0;
        while ((got = read(pause_in, &n, sizeof n)) < 0 && errno == EINTR) {}
        if (got == sizeof n && n > 0) { at = seen + n; mode = PAUSE; }
        return 0; }
    }
    return 0;
}

#define REAL(ret, name, args) \
    static ret (*real) args = NULL; \
    if (!real) real = (ret (*) args)dlsym(RTLD_NEXT, name)

#define PATH_GATE(dirfd, path, what, grows) \
    if (mode && path_under(dirfd, path)) { \
        int g_ = gate(what, grows); \
        if (g_ == 2) _exit(77); \
        if (g_ == 1) return -1; \
    }
#define FD_GATE(fd, what, grows) \
    if (mode && fd_under(fd)) { \
        int g_ = gate(what, grows); \
        if (g_ == 2) _exit(77); \
        if (g_ == 1) return -1; \
    }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", (int, const void *, size_t));
    if (mode && fd_under(fd)) {
        int g = gate("write", 1);
        if (g == 2) { if (n / 2) real(fd, buf, n / 2); _exit(77); }
        if (g == 1) return -1;
    }
    return real(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    REAL(ssize_t, "pwrite64", (int, const void *, size_t, off64_t));
    if (mode && fd_under(fd)) {
        int g = gate("pwrite", 1);
        if (g == 2) { if (n / 2) real(fd, buf, n / 2, off); _exit(77); }
        if (g == 1) return -1;
    }
    return real(fd, buf, n, off);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
    REAL(ssize_t, "writev", (int, const struct iovec *, int));
    FD_GATE(fd, "writev", 1)
    return real(fd, iov, c);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", (int, int, off64_t *, size_t));
    FD_GATE(out, "sendfile", 1)
    return real(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", (int, off64_t *, int, off64_t *, size_t, unsigned));
    FD_GATE(out, "copy_file_range", 1)
    return real(in, io, out, oo, n, f);
}

static int opens_for_change(int flags) {
    return (flags & (O_CREAT | O_TRUNC)) != 0;
}
#define OPEN_BODY(name, dirfd, path) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (mode && (mode == PAUSE || opens_for_change(flags)) && path_under(dirfd, path)) { \
        int g_ = gate("open", 1); \
        if (g_ == 2) _exit(77); \
        if (g_ == 1) return -1; \
    }
int open64(const char *path, int flags, ...) {
    REAL(int, "open64", (const char *, int, ...));
    OPEN_BODY("open64", AT_FDCWD, path)
    return real(path, flags, m);
}
int open(const char *path, int flags, ...) {
    REAL(int, "open", (const char *, int, ...));
    OPEN_BODY("open", AT_FDCWD, path)
    return real(path, flags, m);
}
int openat64(int dirfd, const char *path, int flags, ...) {
    REAL(int, "openat64", (int, const char *, int, ...));
    OPEN_BODY("openat64", dirfd, path)
    return real(dirfd, path, flags, m);
}
int openat(int dirfd, const char *path, int flags, ...) {
    REAL(int, "openat", (int, const char *, int, ...));
    OPEN_BODY("openat", dirfd, path)
    return real(dirfd, path, flags, m);
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", (const char *, const char *));
    PATH_GATE(AT_FDCWD, b, "rename", 0)
    return real(a, b);
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, "renameat", (int, const char *, int, const char *));
    PATH_GATE(db, b, "rename", 0)
    return real(da, a, db, b);
}
int link(const char *a, const char *b) {
    REAL(int, "link", (const char *, const char *));
    PATH_GATE(AT_FDCWD, b, "link", 1)
    return real(a, b);
}
int symlink(const char *a, const char *b) {
    REAL(int, "symlink", (const char *, const char *));
    PATH_GATE(AT_FDCWD, b, "symlink", 1)
    return real(a, b);
}
int unlink(const char *p) {
    REAL(int, "unlink", (const char *));
    PATH_GATE(AT_FDCWD, p, "unlink", 0)
    return real(p);
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", (int, const char *, int));
    PATH_GATE(d, p, "unlink", 0)
    return real(d, p, f);
}
int rmdir(const char *p) {
    REAL(int, "rmdir", (const char *));
    PATH_GATE(AT_FDCWD, p, "rmdir", 0)
    return real(p);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", (const char *, mode_t));
    PATH_GATE(AT_FDCWD, p, "mkdir", 1)
    return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, "mkdirat", (int, const char *, mode_t));
    PATH_GATE(d, p, "mkdir", 1)
    return real(d, p, m);
}
int chmod(const char *p, mode_t m) {
    REAL(int, "chmod", (const char *, mode_t));
    PATH_GATE(AT_FDCWD, p, "chmod", 0)
    return real(p, m);
}
int fchmod(int fd, mode_t m) {
    REAL(int, "fchmod", (int, mode_t));
    FD_GATE(fd, "chmod", 0)
    return real(fd, m);
}
int fchmodat(int d, const char *p, mode_t m, int f) {
    REAL(int, "fchmodat", (int, const char *, mode_t, int));
    PATH_GATE(d, p, "chmod", 0)
    return real(d, p, m, f);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", (int, off64_t));
    FD_GATE(fd, "ftruncate", 0)
    return real(fd, n);
}
int ftruncate(int fd, off_t n) {
    REAL(int, "ftruncate", (int, off_t));
    FD_GATE(fd, "ftruncate", 0)
    return real(fd, n);
}

int fsync(int fd) {
    REAL(int, "fsync", (int));
    FD_GATE(fd, "fsync", 0)
    return real(fd);
}
int fdatasync(int fd) {
    REAL(int, "fdatasync", (int));
    FD_GATE(fd, "fdatasync", 0)
    return real(fd);
}
/* places to switch between processes: file locks */
#define FCNTL_BODY(name) \
    REAL(int, name, (int, int, void *)); \
    va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); \
    if (mode == PAUSE && (cmd == F_SETLK || cmd == F_SETLKW) && fd_under(fd)) gate("lock", 0); \
    return real(fd, cmd, a);
int fcntl(int fd, int cmd, ...) { FCNTL_BODY("fcntl") }
int fcntl64(int fd, int cmd, ...) { FCNTL_BODY("fcntl64") }

/* sqlite waits for locks by sleeping: let that pass quickly when asked to */
int usleep(useconds_t us) {
    REAL(int, "usleep", (useconds_t));
    if (fast_sleep) return 0;
    return real(us);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    REAL(int, "nanosleep", (const struct timespec *, struct timespec *));
    if (fast_sleep) { if (b) { b->tv_sec = 0; b->tv_nsec = 0; } return 0; }
    return real(a, b);
}
