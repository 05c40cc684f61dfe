/* File-system seam: intercepts the C library's file calls for paths under one
 * scratch directory, records them and injects the faults it was told to.
 * Inactive (plain pass-through) until fsim_start() is called.
 * Log record: u8 op, i32 fd, i32 result, i64 a, i64 b, u32 n1, bytes1, u32 n2, bytes2
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXFAULT 64

enum { OP_OPEN = 1, OP_WRITE, OP_READ, OP_TRUNC, OP_FSYNC, OP_CLOSE, OP_RENAME,
       OP_UNLINK, OP_LINK, OP_CHMOD, OP_MKDIR, OP_RMDIR, OP_TRUNCPATH };
/* fault kinds */
enum { F_ERRNO = 1, F_SHORT, F_FLIP, F_DIE, F_FULL, F_DEAD };

static int active = 0;
static char prefix[PATH_MAX];
static size_t prefix_len;
static unsigned char tracked[MAXFD];
static unsigned char *buf = NULL;
static size_t len = 0, cap = 0;
static long counter = 0;
static struct { long at; int kind; long arg; int fired; int opmask; } faults[MAXFAULT];
static int n_faults = 0;
static long full_budget = -1;   /* bytes left on the disk, -1: unlimited */
static int dead = 0;            /* errno returned by every operation */
static long full_fired = 0;

#define REAL(name) static __typeof__(&name) real = NULL; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void put(const void *p, size_t n) {
    if (len + n > cap) {
        cap = (len + n) * 2 + 65536;
        buf = realloc(buf, cap);
    }
    memcpy(buf + len, p, n);
    len += n;
}

static void record(uint8_t op, int32_t fd, int32_t res, int64_t a, int64_t b,
                   const void *p1, uint32_t n1, const void *p2, uint32_t n2) {
    put(&op, 1); put(&fd, 4); put(&res, 4); put(&a, 8); put(&b, 8);
    put(&n1, 4); if (n1) put(p1, n1);
    put(&n2, 4); if (n2) put(p2, n2);
}

/* the kind of fault that strikes the operation about to run, 0 for none */
static int strike(int op, long *arg, int may_die_only) {
    long k = counter++;
    (void)may_die_only;
    if (dead) { *arg = dead; return F_ERRNO; }
    for (int i = 0; i < n_faults; i++)
        if (!faults[i].fired && faults[i].at <= k
                && (faults[i].opmask == 0 || (faults[i].opmask >> op & 1))
                && (faults[i].at == k || faults[i].opmask)) {
            faults[i].fired = 1;
            *arg = faults[i].arg;
            if (faults[i].kind == F_DIE) _exit(77);
            if (faults[i].kind == F_FULL) {
                full_budget = faults[i].arg;
                continue;
            }
            if (faults[i].kind == F_DEAD) {
                dead = (int)faults[i].arg;
                return F_ERRNO;
            }
            return faults[i].kind;
        }
    return 0;
}

static int under(const char *p, char *out) {
    if (!active || !p) return 0;
    char tmp[PATH_MAX];
    if (p[0] != '/') {
        if (!getcwd(tmp, sizeof tmp)) return 0;
        snprintf(out, PATH_MAX, "%s/%s", tmp, p);
    } else
        snprintf(out, PATH_MAX, "%s", p);
    return strncmp(out, prefix, prefix_len) == 0;
}

/* ------------------------------------------------------------ control API */
void fsim_start(const char *p) {
    snprintf(prefix, sizeof prefix, "%s", p);
    prefix_len = strlen(prefix);
    memset(tracked, 0, sizeof tracked);
    len = 0; counter = 0; n_faults = 0; full_budget = -1; dead = 0;
    full_fired = 0;
    active = 1;
}
void fsim_stop(void) { active = 0; }
void fsim_fault(long at, int kind, long arg, int opmask) {
    if (n_faults < MAXFAULT) {
        faults[n_faults].at = at; faults[n_faults].kind = kind;
        faults[n_faults].arg = arg; faults[n_faults].fired = 0;
        faults[n_faults].opmask = opmask;
        n_faults++;
    }
}
long fsim_count(void) { return counter; }
long fsim_fired(int i) { return i < n_faults ? faults[i].fired : 0; }
long fsim_full_fired(void) { return full_fired; }
long fsim_log_len(void) { return (long)len; }
void fsim_log_copy(void *dst) { memcpy(dst, buf, len); }

/* ------------------------------------------------------------------- open */
static int do_open(const char *path, int flags, mode_t mode, int dirfd) {
    static int (*real)(int, const char *, int, ...) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "openat64");
    char full[PATH_MAX];
    if (!(dirfd == AT_FDCWD || path[0] == '/') || !under(path, full))
        return real(dirfd, path, flags, mode);
    struct stat st;
    long arg = 0;
    int f = strike(OP_OPEN, &arg, 0);
    if (f == F_ERRNO) { errno = (int)arg; return -1; }
    if (full_budget >= 0 && full_budget == 0 && (flags & O_CREAT)
            && stat(full, &st) != 0) {
        full_fired++; errno = ENOSPC; return -1;
    }
    int fd = real(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
        fstat(fd, &st);
        tracked[fd] = S_ISDIR(st.st_mode) ? 2 : 1;
        record(OP_OPEN, fd, fd, flags, 0, full, strlen(full), NULL, 0);
    }
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(path, flags, mode, AT_FDCWD); }
int open64(const char *path, int flags, ...) { MODE return do_open(path, flags, mode, AT_FDCWD); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(path, flags, mode, d); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(path, flags, mode, d); }
int creat(const char *path, mode_t mode) {
    return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode, AT_FDCWD);
}

static int is_tracked(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }

int close(int fd) {
    REAL(close);
    if (!is_tracked(fd)) return real(fd);
    long arg = 0;
    int f = strike(OP_CLOSE, &arg, 0);
    record(OP_CLOSE, fd, 0, 0, 0, NULL, 0, NULL, 0);
    tracked[fd] = 0;
    int r = real(fd);
    if (f == F_ERRNO) { errno = (int)arg; return -1; }
    return r;
}

/* ------------------------------------------------------------------ write */
static ssize_t plan_write(size_t n, long *err) {
    long arg = 0;
    int f = strike(OP_WRITE, &arg, 0);
    *err = 0;
    if (f == F_ERRNO) { *err = arg; return -1; }
    if (f == F_SHORT && n > 1) n = n * (arg > 0 && arg < 100 ? arg : 50) / 100 + (n < 2);
    if (n == 0) n = 1;
    if (full_budget >= 0) {
        if ((long)n > full_budget) {
            full_fired++;
            n = full_budget;
            if (n == 0) { *err = ENOSPC; return -1; }
        }
        full_budget -= n;
    }
    return (ssize_t)n;
}

ssize_t write(int fd, const void *p, size_t n) {
    REAL(write);
    if (!is_tracked(fd) || n == 0) return real(fd, p, n);
    long err;
    ssize_t m = plan_write(n, &err);
    if (m < 0) { errno = (int)err; return -1; }
    off_t off = lseek(fd, 0, SEEK_CUR);
    if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat st; fstat(fd, &st); off = st.st_size; }
    ssize_t r = real(fd, p, (size_t)m);
    if (r > 0) record(OP_WRITE, fd, (int32_t)r, off, r, p, (uint32_t)r, NULL, 0);
    return r;
}

static ssize_t do_pwrite(int fd, const void *p, size_t n, off_t off) {
    static ssize_t (*real)(int, const void *, size_t, off_t) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "pwrite64");
    if (!is_tracked(fd) || n == 0) return real(fd, p, n, off);
    long err;
    ssize_t m = plan_write(n, &err);
    if (m < 0) { errno = (int)err; return -1; }
    ssize_t r = real(fd, p, (size_t)m, off);
    if (r > 0) record(OP_WRITE, fd, (int32_t)r, off, r, p, (uint32_t)r, NULL, 0);
    return r;
}
ssize_t pwrite(int fd, const void *p, size_t n, off_t off) { return do_pwrite(fd, p, n, off); }
ssize_t pwrite64(int fd, const void *p, size_t n, off_t off) { return do_pwrite(fd, p, n, off); }

ssize_t writev(int fd, const struct iovec *v, int cnt) {
    REAL(writev);
    if (!is_tracked(fd)) return real(fd, v, cnt);
    ssize_t tot = 0;
    for (int i = 0; i < cnt; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}

/* in-kernel copies become writes of a bounded piece */
static ssize_t copy_piece(int out, int in, off_t *in_off, off_t *out_off, size_t n) {
    static ssize_t (*pr)(int, void *, size_t, off_t) = NULL;
    if (!pr) pr = dlsym(RTLD_NEXT, "pread64");
    if (n > 65536) n = 65536;
    char *tmp = malloc(n);
    off_t pos = in_off ? *in_off : lseek(in, 0, SEEK_CUR);
    if (is_tracked(in)) {
        long arg = 0;
        int f = strike(OP_READ, &arg, 0);
        record(OP_READ, in, 0, pos, (int64_t)n, NULL, 0, NULL, 0);
        if (f == F_ERRNO) { free(tmp); errno = (int)arg; return -1; }
        if (f == F_SHORT && n > 1) n = n / 2;
    }
    ssize_t got = pr(in, tmp, n, pos);
    if (got <= 0) { free(tmp); return got; }
    ssize_t r = out_off ? do_pwrite(out, tmp, (size_t)got, *out_off)
                        : write(out, tmp, (size_t)got);
    free(tmp);
    if (r > 0) {
        if (in_off) *in_off += r; else lseek(in, pos + r, SEEK_SET);
        if (out_off) *out_off += r;
    }
    return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    REAL(sendfile);
    if (!is_tracked(out) && !is_tracked(in)) return real(out, in, off, n);
    return copy_piece(out, in, off, NULL, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(sendfile64);
    if (!is_tracked(out) && !is_tracked(in)) return real(out, in, off, n);
    return copy_piece(out, in, (off_t *)off, NULL, n);
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    REAL(copy_file_range);
    if (!is_tracked(out) && !is_tracked(in)) return real(in, io, out, oo, n, fl);
    return copy_piece(out, in, (off_t *)io, (off_t *)oo, n);
}

/* ------------------------------------------------------------------- read */
static ssize_t after_read(int f, long arg, void *p, ssize_t r) {
    if (f == F_FLIP && r > 0) ((unsigned char *)p)[(arg / 8) % r] ^= 1u << (arg % 8);
    return r;
}
ssize_t read(int fd, void *p, size_t n) {
    REAL(read);
    if (!is_tracked(fd)) return real(fd, p, n);
    long arg = 0;
    int f = strike(OP_READ, &arg, 0);
    record(OP_READ, fd, 0, lseek(fd, 0, SEEK_CUR), (int64_t)n, NULL, 0, NULL, 0);
    if (f == F_ERRNO) { errno = (int)arg; return -1; }
    if (f == F_SHORT && n > 1) n = n / 2;
    return after_read(f, arg, p, real(fd, p, n));
}
ssize_t pread64(int fd, void *p, size_t n, off_t off) {
    REAL(pread64);
    if (!is_tracked(fd)) return real(fd, p, n, off);
    long arg = 0;
    int f = strike(OP_READ, &arg, 0);
    record(OP_READ, fd, 0, off, (int64_t)n, NULL, 0, NULL, 0);
    if (f == F_ERRNO) { errno = (int)arg; return -1; }
    if (f == F_SHORT && n > 1) n = n / 2;
    return after_read(f, arg, p, real(fd, p, n, off));
}
ssize_t pread(int fd, void *p, size_t n, off_t off) { return pread64(fd, p, n, off); }

/* ------------------------------------------------------- sync and metadata */
static int do_trunc(int fd, off_t n) {
    static int (*real)(int, off_t) = NULL;
    if (!real) real = dlsym(RTLD_NEXT, "ftruncate64");
    if (!is_tracked(fd)) return real(fd, n);
    long arg = 0;
    if (strike(OP_TRUNC, &arg, 0) == F_ERRNO) { errno = (int)arg; return -1; }
    int r = real(fd, n);
    if (r == 0) record(OP_TRUNC, fd, 0, n, 0, NULL, 0, NULL, 0);
    return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }

static int do_sync(int fd, int (*real)(int)) {
    if (!is_tracked(fd)) return real(fd);
    long arg = 0;
    if (strike(OP_FSYNC, &arg, 0) == F_ERRNO) { errno = (int)arg; return -1; }
    record(OP_FSYNC, fd, 0, tracked[fd], 0, NULL, 0, NULL, 0);
    return 0;   /* the real disk need not be synchronised */
}
int fsync(int fd) { REAL(fsync); return do_sync(fd, real); }
int fdatasync(int fd) { REAL(fdatasync); return do_sync(fd, real); }

static int two(int op, const char *a, const char *b, int *r,
               int (*call)(const char *, const char *)) {
    char fa[PATH_MAX], fb[PATH_MAX];
    int ua = under(a, fa), ub = under(b, fb);
    if (!ua && !ub) return 0;
    long arg = 0;
    if (strike(op, &arg, 0) == F_ERRNO) { errno = (int)arg; *r = -1; return 1; }
    *r = call(a, b);
    if (*r == 0) record(op, -1, 0, 0, 0, fa, strlen(fa), fb, strlen(fb));
    return 1;
}
int rename(const char *a, const char *b) {
    REAL(rename); int r;
    return two(OP_RENAME, a, b, &r, real) ? r : real(a, b);
}
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(renameat);
    if (d1 == AT_FDCWD && d2 == AT_FDCWD) return rename(a, b);
    return real(d1, a, d2, b);
}
int link(const char *a, const char *b) {
    REAL(link); int r;
    return two(OP_LINK, a, b, &r, real) ? r : real(a, b);
}
static int one(int op, const char *a, int *r, int (*call)(const char *)) {
    char fa[PATH_MAX];
    if (!under(a, fa)) return 0;
    long arg = 0;
    if (strike(op, &arg, 0) == F_ERRNO) { errno = (int)arg; *r = -1; return 1; }
    *r = call(a);
    if (*r == 0) record(op, -1, 0, 0, 0, fa, strlen(fa), NULL, 0);
    return 1;
}
int unlink(const char *a) { REAL(unlink); int r; return one(OP_UNLINK, a, &r, real) ? r : real(a); }
int remove(const char *a) { REAL(remove); int r; return one(OP_UNLINK, a, &r, real) ? r : real(a); }
int rmdir(const char *a) { REAL(rmdir); int r; return one(OP_RMDIR, a, &r, real) ? r : real(a); }
int unlinkat(int d, const char *a, int fl) {
    REAL(unlinkat);
    if (d == AT_FDCWD && !fl) return unlink(a);
    return real(d, a, fl);
}
int chmod(const char *a, mode_t m) {
    REAL(chmod);
    char fa[PATH_MAX];
    if (!under(a, fa)) return real(a, m);
    long arg = 0;
    if (strike(OP_CHMOD, &arg, 0) == F_ERRNO) { errno = (int)arg; return -1; }
    record(OP_CHMOD, -1, 0, m, 0, fa, strlen(fa), NULL, 0);
    return real(a, m);
}
int truncate(const char *a, off_t n) {
    REAL(truncate);
    char fa[PATH_MAX];
    if (!under(a, fa)) return real(a, n);
    long arg = 0;
    if (strike(OP_TRUNCPATH, &arg, 0) == F_ERRNO) { errno = (int)arg; return -1; }
    int r = real(a, n);
    if (r == 0) record(OP_TRUNCPATH, -1, 0, n, 0, fa, strlen(fa), NULL, 0);
    return r;
}
int truncate64(const char *a, off64_t n) { return truncate(a, n); }
