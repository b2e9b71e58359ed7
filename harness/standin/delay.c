// Preloaded into the program: delays threads around blocking and waking each other, so schedules differ, and lets the
// disk be full once a chosen file has got its first bytes.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static uint64_t state;
static int max_us = -1;

static void maybe(void) {
    if (max_us < 0) {
        const char *s = getenv("VMON_DELAY_SEED"), *m = getenv("VMON_DELAY_US");
        state = s ? strtoull(s, 0, 10) * 2654435761u + 88172645463325252ull : 88172645463325252ull;
        max_us = m ? atoi(m) : 0;
    }
    if (max_us == 0) return;
    uint64_t x = __atomic_add_fetch(&state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
    if (x % 3 == 0) {
        struct timespec t = {0, (long)((x >> 8) % (uint64_t)max_us) * 1000};
        nanosleep(&t, 0);
    }
}

long syscall(long n, ...) {
    static long (*real)(long, ...);
    if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex) maybe();
    long r = real(n, a, b, c, d, e, f);
    if (n == SYS_futex) maybe();
    return r;
}

int sched_yield(void) {
    maybe();
    return (int)syscall(SYS_sched_yield);
}

// The chosen file is the one whose path ends with the components VMON_FAIL_FILE. Its bytes from VMON_FAIL_AT on find no place. If that
// happens, the file VMON_FAIL_MARK tells about it.

#define FDS 4096
static uint64_t written[FDS]; // plus one; 0 if another file is behind the descriptor

static int real_openat(int dir, const char *path, int flags, mode_t mode) {
    static int (*real)(int, const char *, int, ...);
    if (!real) real = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, "openat64");
    return real(dir, path, flags, mode);
}

static int opened(int fd, const char *path, int flags) {
    if (fd < 0 || fd >= FDS) return fd;
    written[fd] = 0;
    const char *want = getenv("VMON_FAIL_FILE");
    if (!want || (flags & O_ACCMODE) == O_RDONLY) return fd;
    size_t n = strlen(path), m = strlen(want);
    if (n >= m && strcmp(path + n - m, want) == 0 && (n == m || path[n - m - 1] == '/')) written[fd] = 1;
    return fd;
}

#define OPEN(name)                                                            \
    int name(const char *path, int flags, ...) {                              \
        va_list ap;                                                           \
        va_start(ap, flags);                                                  \
        mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0; \
        va_end(ap);                                                           \
        return opened(real_openat(AT_FDCWD, path, flags, mode), path, flags); \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                                          \
    int name(int dir, const char *path, int flags, ...) {                     \
        va_list ap;                                                           \
        va_start(ap, flags);                                                  \
        mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0; \
        va_end(ap);                                                           \
        return opened(real_openat(dir, path, flags, mode), path, flags);      \
    }
OPENAT(openat)
OPENAT(openat64)

// How many of the bytes find place
static size_t room(int fd, size_t n) {
    uint64_t at = strtoull(getenv("VMON_FAIL_AT"), 0, 10), has = written[fd] - 1;
    if (has + n <= at || n == 0) return n;
    if (at > has) return at - has;
    const char *mark = getenv("VMON_FAIL_MARK");
    if (mark) {
        int m = real_openat(AT_FDCWD, mark, O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
        if (m >= 0) close(m);
    }
    return 0;
}

ssize_t write(int fd, const void *buf, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    int ours = fd >= 0 && fd < FDS && written[fd];
    if (ours) {
        size_t m = room(fd, n);
        if (n && !m) {
            errno = ENOSPC;
            return -1;
        }
        n = m;
    }
    ssize_t r = real(fd, buf, n);
    if (ours && r > 0) written[fd] += r;
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int k) {
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = (ssize_t (*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
    if (fd < 0 || fd >= FDS || !written[fd]) return real(fd, v, k);
    for (int i = 0; i < k; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

int close(int fd) {
    static int (*real)(int);
    if (!real) real = (int (*)(int))dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < FDS) written[fd] = 0;
    return real(fd);
}
