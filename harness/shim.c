/* LD_PRELOAD shim: records and perturbs file operations below one directory.
 * Everything else passes through untouched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_CREATE = 1, OP_WRITE = 2, OP_TRUNC = 3, OP_UNLINK = 4, OP_SYNC = 5, OP_RENAME = 6, OP_OPEN = 7, OP_LOCK = 8, OP_READ = 9, OP_STAT = 10 };
#define MAXFD 4096
static char *fdpath[MAXFD];
static unsigned char fdlocked[MAXFD];
static char dir[PATH_MAX];
static size_t dirlen;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int logging;
static unsigned char *buf;
static size_t blen, bcap;
/* fault plan */
static uint32_t f_mask;
static long f_skip, f_hits, f_count, f_max;
static int f_errno, f_short;
static long opcount[16];
static long delay_us;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int under(const char *p) { return dirlen && p && !strncmp(p, dir, dirlen); }
static void put(const void *p, size_t n) {
    if (blen + n > bcap) {
        bcap = (blen + n) * 2 + 65536;
        buf = realloc(buf, bcap);
        if (!buf) abort();
    }
    memcpy(buf + blen, p, n);
    blen += n;
}
static void rec(uint32_t op, const char *path, const char *path2, uint64_t off, const void *data, uint64_t len) {
    uint32_t pl = strlen(path) - dirlen, p2 = path2 ? strlen(path2) - dirlen : 0;
    uint64_t dl = data ? len : 0;
    opcount[op & 15]++;
    if (!logging) return;
    put(&op, 4); put(&pl, 4); put(&p2, 4); put(&off, 8); put(&len, 8); put(&dl, 8);
    put(path + dirlen, pl);
    if (p2) put(path2 + dirlen, p2);
    if (dl) put(data, dl);
}
/* called with the lock held; 1 = fail this operation */
static int fault(int op) {
    if (!(f_mask & (1u << op))) return 0;
    f_count++;
    if (f_count <= f_skip) return 0;
    if (f_max && f_hits >= f_max) return 0;
    f_hits++;
    return 1;
}
static void nap(void) { if (delay_us) usleep(delay_us); }

/* ---- control ---- */
void kv_shim_dir(const char *d) {
    pthread_mutex_lock(&mu);
    snprintf(dir, sizeof dir, "%s", d);
    dirlen = strlen(dir);
    pthread_mutex_unlock(&mu);
}
void kv_shim_log(int on) {
    pthread_mutex_lock(&mu);
    logging = on;
    if (on) blen = 0;
    pthread_mutex_unlock(&mu);
}
size_t kv_shim_get(unsigned char **p) { *p = buf; return blen; }
void kv_shim_fault(uint32_t mask, long skip, long max, int err, int shortw) {
    pthread_mutex_lock(&mu);
    f_mask = mask; f_skip = skip; f_max = max; f_errno = err; f_short = shortw;
    f_hits = f_count = 0;
    memset(opcount, 0, sizeof opcount);
    pthread_mutex_unlock(&mu);
}
long kv_shim_hits(void) { return f_hits; }
long kv_shim_seen(void) { return f_count; }
long kv_shim_count(int op) { return opcount[op & 15]; }
void kv_shim_delay(long us) { delay_us = us; }

/* ---- wrappers ---- */
static void absolute(int dfd, const char *p, char *out) {
    if (p[0] == '/' || dfd != AT_FDCWD) { snprintf(out, PATH_MAX, "%s", p); return; }
    char cwd[PATH_MAX / 2];
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    snprintf(out, PATH_MAX, "%s/%s", cwd, p);
}
static int do_open(int (*call)(int, const char *, int, mode_t), int dfd, const char *p, int flags, mode_t mode) {
    char a[PATH_MAX];
    if (!dirlen) return call(dfd, p, flags, mode);
    absolute(dfd, p, a);
    if (!under(a)) return call(dfd, p, flags, mode);
    pthread_mutex_lock(&mu);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (fault(OP_OPEN) || ((flags & O_CREAT) && access(a, F_OK) && fault(OP_CREATE))) {
        int e = f_errno;
        pthread_mutex_unlock(&mu);
        errno = e;
        return -1;
    }
    int existed = access(a, F_OK) == 0;
    int fd = call(dfd, p, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
        free(fdpath[fd]);
        fdpath[fd] = strdup(a);
        if (!existed) rec(OP_CREATE, a, NULL, 0, NULL, 0);
        else if ((flags & O_TRUNC) && wr) rec(OP_TRUNC, a, NULL, 0, NULL, 0);
        opcount[OP_OPEN]++;
    }
    pthread_mutex_unlock(&mu);
    return fd;
}
static int c_open(int d, const char *p, int f, mode_t m) { REAL(int, open, const char *, int, ...); (void)d; return real_open(p, f, m); }
static int c_open64(int d, const char *p, int f, mode_t m) { REAL(int, open64, const char *, int, ...); (void)d; return real_open64(p, f, m); }
static int c_openat(int d, const char *p, int f, mode_t m) { REAL(int, openat, int, const char *, int, ...); return real_openat(d, p, f, m); }
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE return do_open(c_open, AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE return do_open(c_open64, AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE return do_open(c_openat, d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return do_open(c_openat, d, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(c_open, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return creat(p, mode); }

int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        pthread_mutex_lock(&mu);
        free(fdpath[fd]);
        fdpath[fd] = NULL;
        pthread_mutex_unlock(&mu);
    }
    return real_close(fd);
}
static const char *tracked(int fd) { return fd >= 0 && fd < MAXFD && fdpath[fd] && under(fdpath[fd]) ? fdpath[fd] : NULL; }

static ssize_t wr(int fd, const void *b, size_t n, off_t off, int atoff) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    if (!dirlen || !tracked(fd)) return atoff ? real_pwrite(fd, b, n, off) : real_write(fd, b, n);
    pthread_mutex_lock(&mu);
    const char *p = tracked(fd);
    if (p && fault(OP_WRITE)) {
        int e = f_errno;
        if (f_short && n > 1) {
            /* half of the data reaches the file */
            ssize_t k = atoff ? real_pwrite(fd, b, n / 2, off) : -1;
            if (k > 0) { rec(OP_WRITE, p, NULL, off, b, k); pthread_mutex_unlock(&mu); return k; }
        }
        pthread_mutex_unlock(&mu);
        errno = e;
        return -1;
    }
    if (!atoff) off = lseek(fd, 0, SEEK_CUR);
    ssize_t r = atoff ? real_pwrite(fd, b, n, off) : real_write(fd, b, n);
    if (p && r > 0) rec(OP_WRITE, p, NULL, off, b, r);
    pthread_mutex_unlock(&mu);
    nap();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return wr(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!dirlen || !tracked(fd)) return real_writev(fd, v, n);
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        ssize_t r = wr(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
static int failop(int fd, int op) {
    if (!dirlen || !tracked(fd)) return 0;
    pthread_mutex_lock(&mu);
    int k = fault(op), e = f_errno;
    pthread_mutex_unlock(&mu);
    if (k) errno = e;
    return k;
}
static ssize_t rd(int fd, void *b, size_t n, off_t off, int atoff) {
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread, int, void *, size_t, off_t);
    if (failop(fd, OP_READ)) return -1;
    return atoff ? real_pread(fd, b, n, off) : real_read(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return rd(fd, b, n, o, 1); }

int ftruncate(int fd, off_t len) {
    REAL(int, ftruncate, int, off_t);
    if (failop(fd, OP_TRUNC)) return -1;
    int r = real_ftruncate(fd, len);
    if (r == 0 && dirlen && tracked(fd)) {
        pthread_mutex_lock(&mu);
        const char *p = tracked(fd);
        if (p) rec(OP_TRUNC, p, NULL, len, NULL, 0);
        pthread_mutex_unlock(&mu);
    }
    return r;
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
static int sync_fd(int fd, int data) {
    REAL(int, fsync, int);
    REAL(int, fdatasync, int);
    if (failop(fd, OP_SYNC)) return -1;
    int r = 0;
    if (dirlen && tracked(fd)) {
        /* scratch is memory backed: the record is what counts */
        pthread_mutex_lock(&mu);
        const char *p = tracked(fd);
        if (p) rec(OP_SYNC, p, NULL, 0, NULL, 0);
        pthread_mutex_unlock(&mu);
        return 0;
    }
    r = data ? real_fdatasync(fd) : real_fsync(fd);
    return r;
}
int fsync(int fd) { return sync_fd(fd, 0); }
int fdatasync(int fd) { return sync_fd(fd, 1); }
static int rm(const char *p) {
    REAL(int, unlink, const char *);
    char a[PATH_MAX];
    if (!dirlen) return real_unlink(p);
    absolute(AT_FDCWD, p, a);
    if (!under(a)) return real_unlink(p);
    pthread_mutex_lock(&mu);
    if (fault(OP_UNLINK)) { int e = f_errno; pthread_mutex_unlock(&mu); errno = e; return -1; }
    int r = real_unlink(p);
    if (r == 0) rec(OP_UNLINK, a, NULL, 0, NULL, 0);
    pthread_mutex_unlock(&mu);
    return r;
}
int unlink(const char *p) { return rm(p); }
int remove(const char *p) {
    REAL(int, remove, const char *);
    struct stat st;
    if (dirlen && lstat(p, &st) == 0 && !S_ISDIR(st.st_mode)) return rm(p);
    return real_remove(p);
}
int unlinkat(int d, const char *p, int flags) {
    REAL(int, unlinkat, int, const char *, int);
    if (dirlen && d == AT_FDCWD && !(flags & AT_REMOVEDIR)) return rm(p);
    return real_unlinkat(d, p, flags);
}
int rename(const char *p, const char *q) {
    REAL(int, rename, const char *, const char *);
    char a[PATH_MAX], b[PATH_MAX];
    if (!dirlen) return real_rename(p, q);
    absolute(AT_FDCWD, p, a);
    absolute(AT_FDCWD, q, b);
    if (!under(a) || !under(b)) return real_rename(p, q);
    pthread_mutex_lock(&mu);
    if (fault(OP_RENAME)) { int e = f_errno; pthread_mutex_unlock(&mu); errno = e; return -1; }
    int r = real_rename(p, q);
    if (r == 0) rec(OP_RENAME, a, b, 0, NULL, 0);
    pthread_mutex_unlock(&mu);
    return r;
}
static int lockfail(int fd, int cmd, void *arg) {
    if (cmd != F_SETLK && cmd != F_SETLKW && cmd != F_OFD_SETLK) return 0;
    struct flock *l = arg;
    if (!l || l->l_type == F_UNLCK) return 0;
    /* a read lock still succeeds when bit 11 asks for write locks only */
    if ((f_mask & (1u << 11)) && l->l_type == F_WRLCK) {
        if (!dirlen || !tracked(fd)) return 0;
        pthread_mutex_lock(&mu);
        int k = fault(11);
        pthread_mutex_unlock(&mu);
        return k;
    }
    return failop(fd, OP_LOCK);
}
int fcntl(int fd, int cmd, ...) {
    REAL(int, fcntl, int, int, ...);
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    if (lockfail(fd, cmd, arg)) { errno = EAGAIN; return -1; }
    return real_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    REAL(int, fcntl64, int, int, ...);
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    if (lockfail(fd, cmd, arg)) { errno = EAGAIN; return -1; }
    return real_fcntl64(fd, cmd, arg);
}
