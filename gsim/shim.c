/* gsim shim: LD_PRELOADed seam between the real process and the kernel.
 *
 * - wall clock: clock_gettime(CLOCK_REALTIME), gettimeofday, time are answered from a
 *   simulated clock once gsim_clock_set() has been called.
 * - disk: write/pwrite/writev/ftruncate/fsync/read/pread on file descriptors whose path lies
 *   under the armed scratch prefix are counted, and the n-th matching call can be made to
 *   fail (EIO/ENOSPC), be short, be torn (half is written, then the call fails), or kill the process
 *   (before, half way through, or after the call).
 * Nothing happens until it is armed; with nothing armed every call is passed through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>

enum { K_WRITE = 1, K_READ = 2, K_TRUNC = 4, K_SYNC = 8, K_OPENW = 16, K_OPENR = 32 };
enum { A_NONE = 0, A_EIO = 1, A_ENOSPC = 2, A_SHORT = 3, A_TORN = 4, A_KILL_BEFORE = 5,
       A_KILL_HALF = 6, A_KILL_AFTER = 7, A_EINTR = 8, A_BAD = 9 };

static char prefix[PATH_MAX];
static size_t prefix_len;
static int armed;
static int kinds, action, sticky;
static long nth;
static long seen;          /* matching calls since armed */
static long fired;         /* faults that really fired */
static long total[6];      /* calls on scratch files by kind, since armed */

static long long bad_from, bad_to;  /* A_BAD: bytes of the file that cannot be read */
static int bad_short;               /* a read up to them returns what lies before them */

static int clock_on;
static long long clock_ns;      /* simulated wall clock, ns since epoch */
static long long clock_step;    /* advance per reading */
static long clock_reads;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

void gsim_arm(const char *p, int k, long n, int act, int stick) {
    snprintf(prefix, sizeof prefix, "%s", p);
    prefix_len = strlen(prefix);
    kinds = k; nth = n; action = act; sticky = stick;
    seen = 0; fired = 0;
    memset(total, 0, sizeof total);
    armed = 1;
}
void gsim_bad(long long from, long long to, int s) { bad_from = from; bad_to = to; bad_short = s; }
void gsim_disarm(void) { armed = 0; }
long gsim_seen(void) { return seen; }
long gsim_fired(void) { return fired; }
long gsim_total(int i) { return total[i]; }
void gsim_clock_set(long long ns, long long step) { clock_ns = ns; clock_step = step; clock_on = 1; }
void gsim_clock_off(void) { clock_on = 0; }
long gsim_clock_reads(void) { return clock_reads; }
int gsim_present(void) { return 1; }

static int mine_path(const char *path) {
    return armed && prefix_len && path && strncmp(path, prefix, prefix_len) == 0;
}
static int mine(int fd) {
    if (!armed || !prefix_len || fd < 0) return 0;
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return strncmp(buf, prefix, prefix_len) == 0;
}
static int kidx(int k) { int i = 0; while (!((k >> i) & 1)) i++; return i; }

/* how much of n bytes at o can be read; -1: nothing */
static ssize_t readable(long long o, size_t n) {
    if (o < 0 || !n || o >= bad_to || o + (long long)n <= bad_from) return n;
    fired++;
    if (bad_short && o < bad_from) return bad_from - o;
    return -1;
}

/* decide what happens to this call */
static int decide(int k) {
    total[kidx(k)]++;
    if (!(kinds & k)) return A_NONE;
    long me = seen++;
    if (action == A_NONE || action == A_BAD) return action;
    if (me == nth || (sticky && me > nth)) { fired++; return action; }
    return A_NONE;
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (armed && mine(fd)) switch (decide(K_WRITE)) {
        case A_EIO: errno = EIO; return -1;
        case A_ENOSPC: errno = ENOSPC; return -1;
        case A_EINTR: errno = EINTR; return -1;
        case A_SHORT: if (n > 1) return real_write(fd, b, n / 2); break;
        case A_TORN: if (n > 1) real_write(fd, b, n / 2); errno = EIO; return -1;
        case A_KILL_BEFORE: _exit(137);
        case A_KILL_HALF: if (n > 1) real_write(fd, b, n / 2); _exit(137);
        case A_KILL_AFTER: real_write(fd, b, n); _exit(137);
    }
    return real_write(fd, b, n);
}
#define PWRITE_BODY(NAME, OFFT) \
ssize_t NAME(int fd, const void *b, size_t n, OFFT o) { \
    REAL(ssize_t, NAME, int, const void *, size_t, OFFT); \
    if (armed && mine(fd)) switch (decide(K_WRITE)) { \
        case A_EIO: errno = EIO; return -1; \
        case A_ENOSPC: errno = ENOSPC; return -1; \
        case A_EINTR: errno = EINTR; return -1; \
        case A_SHORT: if (n > 1) return real_##NAME(fd, b, n / 2, o); break; \
        case A_TORN: if (n > 1) real_##NAME(fd, b, n / 2, o); errno = EIO; return -1; \
        case A_KILL_BEFORE: _exit(137); \
        case A_KILL_HALF: if (n > 1) real_##NAME(fd, b, n / 2, o); _exit(137); \
        case A_KILL_AFTER: real_##NAME(fd, b, n, o); _exit(137); \
    } \
    return real_##NAME(fd, b, n, o); \
}
PWRITE_BODY(pwrite, off_t)
PWRITE_BODY(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (armed && mine(fd)) switch (decide(K_WRITE)) {
        case A_NONE: case A_SHORT: break;
        case A_ENOSPC: errno = ENOSPC; return -1;
        case A_KILL_BEFORE: case A_KILL_HALF: _exit(137);
        case A_KILL_AFTER: real_writev(fd, v, c); _exit(137);
        default: errno = EIO; return -1;
    }
    return real_writev(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (armed && mine(fd)) switch (decide(K_READ)) {
        case A_EIO: case A_ENOSPC: case A_TORN: errno = EIO; return -1;
        case A_EINTR: errno = EINTR; return -1;
        case A_SHORT: if (n > 1) return real_read(fd, b, n / 2); break;
        case A_BAD: {
            ssize_t m = readable(lseek(fd, 0, SEEK_CUR), n);
            if (m < 0) { errno = EIO; return -1; }
            return real_read(fd, b, m);
        }
        case A_KILL_BEFORE: case A_KILL_HALF: case A_KILL_AFTER: _exit(137);
    }
    return real_read(fd, b, n);
}
#define PREAD_BODY(NAME, OFFT) \
ssize_t NAME(int fd, void *b, size_t n, OFFT o) { \
    REAL(ssize_t, NAME, int, void *, size_t, OFFT); \
    if (armed && mine(fd)) switch (decide(K_READ)) { \
        case A_EIO: case A_ENOSPC: case A_TORN: errno = EIO; return -1; \
        case A_EINTR: errno = EINTR; return -1; \
        case A_SHORT: if (n > 1) return real_##NAME(fd, b, n / 2, o); break; \
        case A_BAD: { \
            ssize_t m = readable(o, n); \
            if (m < 0) { errno = EIO; return -1; } \
            return real_##NAME(fd, b, m, o); \
        } \
        case A_KILL_BEFORE: case A_KILL_HALF: case A_KILL_AFTER: _exit(137); \
    } \
    return real_##NAME(fd, b, n, o); \
}
PREAD_BODY(pread, off_t)
PREAD_BODY(pread64, off64_t)

#define TRUNC_BODY(NAME, OFFT) \
int NAME(int fd, OFFT len) { \
    REAL(int, NAME, int, OFFT); \
    if (armed && mine(fd)) switch (decide(K_TRUNC)) { \
        case A_EIO: case A_TORN: errno = EIO; return -1; \
        case A_ENOSPC: errno = ENOSPC; return -1; \
        case A_KILL_BEFORE: case A_KILL_HALF: _exit(137); \
        case A_KILL_AFTER: real_##NAME(fd, len); _exit(137); \
    } \
    return real_##NAME(fd, len); \
}
TRUNC_BODY(ftruncate, off_t)
TRUNC_BODY(ftruncate64, off64_t)

#define SYNC_BODY(NAME) \
int NAME(int fd) { \
    REAL(int, NAME, int); \
    if (armed && mine(fd)) switch (decide(K_SYNC)) { \
        case A_EIO: case A_TORN: errno = EIO; return -1; \
        case A_ENOSPC: errno = ENOSPC; return -1; \
        case A_KILL_BEFORE: case A_KILL_HALF: _exit(137); \
        case A_KILL_AFTER: real_##NAME(fd); _exit(137); \
    } \
    return real_##NAME(fd); \
}
SYNC_BODY(fsync)
SYNC_BODY(fdatasync)

static int open_fault(const char *path, int flags) {
    if (!mine_path(path)) return 0;
    int k = (flags & (O_WRONLY | O_RDWR | O_CREAT)) ? K_OPENW : K_OPENR;
    switch (decide(k)) {
        case A_NONE: case A_SHORT: case A_EINTR: case A_BAD: return 0;
        case A_ENOSPC: errno = ENOSPC; return -1;
        case A_KILL_BEFORE: case A_KILL_HALF: case A_KILL_AFTER: _exit(137);
        default: errno = EIO; return -1;
    }
}
int open(const char *path, int flags, ...) {
    REAL(int, open, const char *, int, ...);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    if (armed && open_fault(path, flags)) return -1;
    return real_open(path, flags, m);
}
int open64(const char *path, int flags, ...) {
    REAL(int, open64, const char *, int, ...);
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    if (armed && open_fault(path, flags)) return -1;
    return real_open64(path, flags, m);
}

/* clock */
static long long tick(void) { clock_reads++; long long t = clock_ns; clock_ns += clock_step; return t; }
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long long t = tick();
        ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
        return 0;
    }
    return real_clock_gettime(id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (clock_on) { long long t = tick(); tv->tv_sec = t / 1000000000LL; tv->tv_usec = (t % 1000000000LL) / 1000; return 0; }
    return real_gettimeofday(tv, tz);
}
time_t time(time_t *p) {
    REAL(time_t, time, time_t *);
    if (clock_on) { time_t t = tick() / 1000000000LL; if (p) *p = t; return t; }
    return real_time(p);
}
