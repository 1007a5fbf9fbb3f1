/* Controlled failures of the system calls that change files below a directory.
 * Every such call is an event; vf_arm() selects the event that fails and how. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, CRASH_BEFORE, ERROR, SHORT, SHORT_ERROR, SHORT_CRASH, CRASH_AFTER, ERROR_ON };

static char dir[4096];
static int armed, mode, err, failing;
static long count, at, part;
static char tracked[4096];
static char log_[64][32];

#define REAL(n) ({ static __typeof__(&n) f; if (!f) f = dlsym(RTLD_NEXT, #n); f; })

void vf_dir(const char *d) { snprintf(dir, sizeof dir, "%s", d); }
void vf_arm(long k, int m, long j, int e) { at = k; mode = m; part = j; err = e; count = 0; failing = 0; armed = 1; }
long vf_disarm(void) { armed = 0; return count; }
const char *vf_event(long k) { return k < 64 ? log_[k] : ""; }

static int inside(const char *p)
{
    char b[4096];
    if (!armed || !dir[0] || !p)
        return 0;
    if (p[0] == '/')
        return strncmp(p, dir, strlen(dir)) == 0;
    return getcwd(b, sizeof b) && strncmp(b, dir, strlen(dir)) == 0;
}

/* 0: go on; 1: fail with errno; 2: partial write */
static int event(const char *what, long n)
{
    long k = count++;
    if (k < 64)
        snprintf(log_[k], 32, "%s %ld", what, n);
    if (failing) {
        errno = err;
        return 1;
    }
    if (mode == OFF || k != at)
        return 0;
    switch (mode) {
    case CRASH_BEFORE:
        _exit(77);
    case ERROR_ON:
        failing = 1;
        /* fall through */
    case ERROR:
        errno = err;
        return 1;
    case SHORT:
    case SHORT_ERROR:
    case SHORT_CRASH:
        if (mode == SHORT_ERROR)
            failing = 1;
        return 2;
    default:
        return 0;
    }
}

static void done(void)
{
    if (mode == CRASH_AFTER && count - 1 == at)
        _exit(77);
}

#define SIMPLE(cond, what, call, fail) \
    do { \
        if (!(cond)) return call; \
        if (event(what, 0)) return fail; \
        __typeof__(call) r_ = call; \
        done(); \
        return r_; \
    } while (0)

#define OPEN(name, decl, path, fl, args, ...) \
    int name decl \
    { \
        mode_t md = 0; \
        if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); md = va_arg(v, mode_t); va_end(v); } \
        if (!inside(path) || !(fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) { int q = REAL(name) args; if (q >= 0 && q < 4096) tracked[q] = 0; return q; } \
        if (event("open", fl)) return -1; \
        int r = REAL(name) args; \
        if (r >= 0 && r < 4096) tracked[r] = 1; \
        done(); \
        return r; \
    }
OPEN(open, (const char *p, int fl, ...), p, fl, (p, fl, md))
OPEN(open64, (const char *p, int fl, ...), p, fl, (p, fl, md))
OPEN(openat, (int at_, const char *p, int fl, ...), p, fl, (at_, p, fl, md))
OPEN(openat64, (int at_, const char *p, int fl, ...), p, fl, (at_, p, fl, md))
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }

#define FD(fd) (armed && (fd) >= 0 && (fd) < 4096 && tracked[fd])
#define WRITE(n, real) \
    do { \
        if (!FD(fd)) return real; \
        long full = n; \
        int e = event("write", full); \
        if (e == 1) return -1; \
        if (e == 2) { \
            if (part < full) { n = part; } \
            ssize_t r = n ? (real) : 0; \
            if (mode == SHORT_CRASH) _exit(77); \
            if (mode == SHORT_ERROR && n == 0) { errno = err; return -1; } \
            if (mode == SHORT && n == 0) { mode = OFF; n = full; return real; } \
            return r; \
        } \
        ssize_t r = real; \
        done(); \
        return r; \
    } while (0)
ssize_t write(int fd, const void *b, size_t n) { WRITE(n, REAL(write)(fd, b, n)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { WRITE(n, REAL(pwrite)(fd, b, n, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { WRITE(n, REAL(pwrite64)(fd, b, n, o)); }
/* gathered and in-kernel copies are split into single writes */
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!FD(fd)) return REAL(writev)(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if (r < (ssize_t)v[i].iov_len) break;
    }
    return t;
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { if (FD(fd)) { errno = EINVAL; return -1; } return REAL(sendfile)(fd, in, o, n); }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { if (FD(fd)) { errno = EINVAL; return -1; } return REAL(sendfile64)(fd, in, o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned f) { if (FD(fd)) { errno = EXDEV; return -1; } return REAL(copy_file_range)(in, oi, fd, oo, n, f); }

int close(int fd)
{
    if (!FD(fd)) return REAL(close)(fd);
    tracked[fd] = 0;
    if (event("close", 0)) { int e = errno; REAL(close)(fd); errno = e; return -1; }
    int r = REAL(close)(fd);
    done();
    return r;
}
int fsync(int fd) { SIMPLE(FD(fd), "fsync", REAL(fsync)(fd), -1); }
int fdatasync(int fd) { SIMPLE(FD(fd), "fdatasync", REAL(fdatasync)(fd), -1); }
int ftruncate(int fd, off_t n) { SIMPLE(FD(fd), "ftruncate", REAL(ftruncate)(fd, n), -1); }
int ftruncate64(int fd, off64_t n) { SIMPLE(FD(fd), "ftruncate", REAL(ftruncate64)(fd, n), -1); }
int truncate(const char *p, off_t n) { SIMPLE(inside(p), "truncate", REAL(truncate)(p, n), -1); }
int truncate64(const char *p, off64_t n) { SIMPLE(inside(p), "truncate", REAL(truncate64)(p, n), -1); }
int rename(const char *a, const char *b) { SIMPLE(inside(b), "rename", REAL(rename)(a, b), -1); }
int renameat(int da, const char *a, int db, const char *b) { SIMPLE(inside(b), "rename", REAL(renameat)(da, a, db, b), -1); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { SIMPLE(inside(b), "rename", REAL(renameat2)(da, a, db, b, f), -1); }
int unlink(const char *p) { SIMPLE(inside(p), "unlink", REAL(unlink)(p), -1); }
int unlinkat(int d, const char *p, int f) { SIMPLE(inside(p), "unlink", REAL(unlinkat)(d, p, f), -1); }
int remove(const char *p) { SIMPLE(inside(p), "unlink", REAL(remove)(p), -1); }
int link(const char *a, const char *b) { SIMPLE(inside(b), "link", REAL(link)(a, b), -1); }
int symlink(const char *a, const char *b) { SIMPLE(inside(b), "symlink", REAL(symlink)(a, b), -1); }
int mkdir(const char *p, mode_t m) { SIMPLE(inside(p), "mkdir", REAL(mkdir)(p, m), -1); }
