/* Simulated disk: interposes the libc file operations of one process (LD_PRELOAD) and makes chosen ones fail, fall
   short or lose data.  Only operations on paths under the armed prefix are touched; everything else goes straight to
   libc.  The Python side (sim/disk.py) arms it, plans faults and reads the counters. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN, K_WRITE, K_READ, K_CLOSE, K_FLUSH, K_UNLINK, K_MKDIR, K_RENAME, K_TRUNC, K_MAP, K_FDOPEN, K_N };

struct fault { int mask, nth, times, err, amount, seen, fired; };
static struct fault F[16];
static int nF, armed, inside;
static char prefix[PATH_MAX];
static size_t plen;
static long ops[K_N], fired[K_N], benign;
static long long space = -1; /* bytes left on the simulated disk, -1 unlimited */
static long space_hits;
static int late; /* stdio reports a full disk only when the stream is closed */

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void sim_disk_arm(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); armed = 1; }
void sim_disk_disarm(void) { armed = 0; }
void sim_disk_clear(void) { nF = 0; memset(ops, 0, sizeof ops); memset(fired, 0, sizeof fired); benign = 0; space = -1; space_hits = 0; late = 0; }
void sim_disk_forget(void) { nF = 0; space = -1; }
int sim_disk_fault(int mask, int nth, int times, int err, int amount) {
    if (nF == 16) return -1;
    F[nF] = (struct fault){mask, nth, times, err, amount, 0, 0};
    return nF++;
}
int sim_disk_fired(int i) { return i < nF ? F[i].fired : 0; }
long sim_disk_ops(int k) { return ops[k]; }
long sim_disk_fired_kind(int k) { return fired[k]; }
long sim_disk_benign(void) { return benign; }
void sim_disk_space(long long n, int l) { space = n; late = l; }
long sim_disk_space_hits(void) { return space_hits; }

static int under(const char *p) { return !strncmp(p, prefix, plen) && (p[plen] == '/' || !p[plen]); }

static int mine_at(int dirfd, const char *path) {
    if (!armed || inside || !path) return 0;
    if (path[0] == '/') return under(path);
    char link[64], buf[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(buf, sizeof buf)) return 0; }
    else {
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, buf, sizeof buf - 1);
        if (n < 0) return 0;
        buf[n] = 0;
    }
    size_t n = strlen(buf);
    snprintf(buf + n, sizeof buf - n, "/%s", path);
    return under(buf);
}

static int mine_fd(int fd) {
    if (!armed || inside) return 0;
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, sizeof buf - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return under(buf);
}

static struct fault *hit(int k) {
    struct fault *got = NULL;
    ops[k]++;
    for (int i = 0; i < nF; i++) {
        struct fault *f = &F[i];
        if (!(f->mask & (1 << k))) continue;
        f->seen++;
        if (!got && f->seen > f->nth && (f->times < 0 || f->seen <= f->nth + f->times)) got = f;
    }
    if (got) {
        got->fired++;
        if (got->err) fired[k]++; else benign++;
    }
    return got;
}

/* the file loses what was written last (delayed allocation, network file system, failed flush) */
static void lose(int fd, long n) {
    struct stat st;
    if (n <= 0 || fstat(fd, &st) || !S_ISREG(st.st_mode)) return;
    inside = 1;
    if (ftruncate(fd, st.st_size > n ? st.st_size - n : 0)) {}
    inside = 0;
}

/* ---- open ---- */
/* opening a directory is part of removing it */
static int open_kind(int d, const char *p) { struct stat st; return !fstatat(d, p, &st, 0) && S_ISDIR(st.st_mode) ? K_UNLINK : K_OPEN; }
#define OPEN_BODY(name, dirfd) \
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap); \
    if (mine_at(dirfd, path)) { struct fault *f = hit(open_kind(dirfd, path)); if (f && f->err) { errno = f->err; return -1; } }
int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...); OPEN_BODY(open, AT_FDCWD) return real_open(path, flags, mode); }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...); OPEN_BODY(open64, AT_FDCWD) return real_open64(path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...); OPEN_BODY(openat, d) return real_openat(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(openat64, d) return real_openat64(d, path, flags, mode); }
FILE *fopen(const char *path, const char *m) { REAL(FILE *, fopen, const char *, const char *); if (mine_at(AT_FDCWD, path)) { struct fault *f = hit(K_OPEN); if (f && f->err) { errno = f->err; return NULL; } } return real_fopen(path, m); }
FILE *fopen64(const char *path, const char *m) { REAL(FILE *, fopen64, const char *, const char *); if (mine_at(AT_FDCWD, path)) { struct fault *f = hit(K_OPEN); if (f && f->err) { errno = f->err; return NULL; } } return real_fopen64(path, m); }
FILE *fdopen(int fd, const char *m) { REAL(FILE *, fdopen, int, const char *); if (mine_fd(fd)) { struct fault *f = hit(K_FDOPEN); if (f && f->err) { errno = f->err; return NULL; } } return real_fdopen(fd, m); }

/* ---- write ---- */
static ssize_t limit(int fd, size_t n, int *err) {
    /* number of bytes the disk takes; *err set when the call fails */
    struct fault *f = hit(K_WRITE);
    *err = 0;
    if (f) {
        size_t k = f->amount < 0 ? n / 2 : (size_t)f->amount;
        if (k > n) k = n;
        if (!f->err) { if (!k && n) k = 1; return k; }
        *err = f->err;
        return k;
    }
    if (space >= 0) {
        if ((long long)n > space) { size_t k = space; space = 0; space_hits++; *err = ENOSPC; return k; }
        space -= n;
    }
    return n;
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!mine_fd(fd)) return real_write(fd, b, n);
    int e; ssize_t k = limit(fd, n, &e);
    if (e && !k) { errno = e; return -1; }
    return real_write(fd, b, k); /* a torn write is reported as a short count; the next one fails */
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    if (!mine_fd(fd)) return real_pwrite64(fd, b, n, o);
    int e; ssize_t k = limit(fd, n, &e);
    if (e && !k) { errno = e; return -1; }
    return real_pwrite64(fd, b, k, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (mine_fd(fd)) { struct fault *f = hit(K_WRITE); if (f && f->err) { errno = f->err; return -1; } }
    return real_writev(fd, v, c);
}

/* stdio streams: what a late full disk will cost when the stream is closed */
static struct { FILE *f; long owed; } S[64];
static void owe(FILE *f, long n) {
    for (int i = 0; i < 64; i++) if (S[i].f == f) { S[i].owed += n; return; }
    for (int i = 0; i < 64; i++) if (!S[i].f) { S[i].f = f; S[i].owed = n; return; }
}
static long take(FILE *f) {
    for (int i = 0; i < 64; i++) if (S[i].f == f) { long n = S[i].owed; S[i].f = NULL; S[i].owed = 0; return n; }
    return 0;
}

size_t fwrite(const void *b, size_t size, size_t n, FILE *fp) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    if (!size || !n || !mine_fd(fileno(fp))) return real_fwrite(b, size, n, fp);
    int e; size_t tot = size * n; size_t k = limit(fileno(fp), tot, &e);
    if (!e) return real_fwrite(b, size, n, fp); /* stdio itself completes short transfers */
    if (late && e == ENOSPC && tot - k <= 4096) { owe(fp, tot - k); return real_fwrite(b, size, n, fp); }
    if (k) real_fwrite(b, 1, k, fp);
    fflush(fp);
    errno = e;
    return k / size;
}

/* ---- read ---- */
static ssize_t rlimit(size_t n, int *err) {
    struct fault *f = hit(K_READ);
    *err = 0;
    if (!f) return n;
    size_t k = f->amount < 0 ? n / 2 : (size_t)f->amount;
    if (k > n) k = n;
    if (f->err) { *err = f->err; return k; }
    return k ? k : (n ? 1 : 0);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (!mine_fd(fd)) return real_read(fd, b, n);
    int e; ssize_t k = rlimit(n, &e);
    if (e) { errno = e; return -1; }
    return real_read(fd, b, k);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off_t);
    if (!mine_fd(fd)) return real_pread64(fd, b, n, o);
    int e; ssize_t k = rlimit(n, &e);
    if (e) { errno = e; return -1; }
    return real_pread64(fd, b, k, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
size_t fread(void *b, size_t size, size_t n, FILE *fp) {
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    if (!size || !n || !mine_fd(fileno(fp))) return real_fread(b, size, n, fp);
    int e; size_t k = rlimit(size * n, &e);
    if (!e) return real_fread(b, size, n, fp);
    size_t r = real_fread(b, 1, k, fp); /* EIO part-way: the stream has its error flag set */
    errno = e;
    return r / size;
}

/* ---- close, flush ---- */
int close(int fd) {
    REAL(int, close, int);
    if (!mine_fd(fd)) return real_close(fd);
    int fl = fcntl(fd, F_GETFL);
    if (fl < 0 || (fl & O_ACCMODE) == O_RDONLY) return real_close(fd);
    struct fault *f = hit(K_CLOSE);
    if (!f || !f->err) return real_close(fd);
    lose(fd, f->amount);
    real_close(fd);
    errno = f->err;
    return -1;
}
int fclose(FILE *fp) {
    REAL(int, fclose, FILE *);
    REAL(int, close, int);
    if (!mine_fd(fileno(fp))) { take(fp); return real_fclose(fp); }
    int fl = fcntl(fileno(fp), F_GETFL);
    long owed = take(fp);
    struct fault *f = (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) ? hit(K_CLOSE) : NULL;
    if (f && f->err) owed += f->amount > 0 ? f->amount : 0;
    if (!owed && !(f && f->err)) return real_fclose(fp);
    inside = 1;
    int d = fcntl(fileno(fp), F_DUPFD_CLOEXEC, 3);
    real_fclose(fp);
    inside = 0;
    lose(d, owed);
    real_close(d);
    errno = f && f->err ? f->err : ENOSPC;
    return EOF;
}
int fflush(FILE *fp) {
    REAL(int, fflush, FILE *);
    if (!fp || !mine_fd(fileno(fp))) return real_fflush(fp);
    struct fault *f = hit(K_FLUSH);
    int r = real_fflush(fp);
    if (f && f->err) { lose(fileno(fp), f->amount); errno = f->err; return EOF; }
    return r;
}
#define SYNC(name) int name(int fd) { REAL(int, name, int); if (mine_fd(fd)) { struct fault *f = hit(K_FLUSH); if (f && f->err) { lose(fd, f->amount); errno = f->err; return -1; } } return real_##name(fd); }
SYNC(fsync)
SYNC(fdatasync)

/* ---- names ---- */
#define NAME1(name, kind) int name(const char *p) { REAL(int, name, const char *); if (mine_at(AT_FDCWD, p)) { struct fault *f = hit(kind); if (f && f->err) { errno = f->err; return -1; } } return real_##name(p); }
NAME1(unlink, K_UNLINK)
NAME1(rmdir, K_UNLINK)
int unlinkat(int d, const char *p, int fl) { REAL(int, unlinkat, int, const char *, int); if (mine_at(d, p)) { struct fault *f = hit(K_UNLINK); if (f && f->err) { errno = f->err; return -1; } } return real_unlinkat(d, p, fl); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (mine_at(AT_FDCWD, p)) { struct fault *f = hit(K_MKDIR); if (f && f->err) { errno = f->err; return -1; } } return real_mkdir(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); if (mine_at(d, p)) { struct fault *f = hit(K_MKDIR); if (f && f->err) { errno = f->err; return -1; } } return real_mkdirat(d, p, m); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if (mine_at(AT_FDCWD, b)) { struct fault *f = hit(K_RENAME); if (f && f->err) { errno = f->err; return -1; } } return real_rename(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if (mine_at(e, b)) { struct fault *f = hit(K_RENAME); if (f && f->err) { errno = f->err; return -1; } } return real_renameat(d, a, e, b); }
#define TRUNC(name) int name(int fd, off_t n) { REAL(int, name, int, off_t); if (mine_fd(fd)) { struct fault *f = hit(K_TRUNC); if (f && f->err) { errno = f->err; return -1; } } return real_##name(fd, n); }
TRUNC(ftruncate)
TRUNC(ftruncate64)
#define MAPF(name) void *name(void *a, size_t n, int p, int fl, int fd, off_t o) { REAL(void *, name, void *, size_t, int, int, int, off_t); if (fd >= 0 && mine_fd(fd)) { struct fault *f = hit(K_MAP); if (f && f->err) { errno = f->err; return MAP_FAILED; } } return real_##name(a, n, p, fl, fd, o); }
MAPF(mmap64)
