/* Storage and clock seam for the deterministic simulator (LD_PRELOAD).
 *
 * Every mutating file operation on a path below ctl->root is numbered.  The
 * simulator writes a plan (operation number -> fault) into the control block,
 * a shared mapping, and reads back what happened.  Nothing here draws random
 * numbers: all choices are in the plan, so one plan is one execution.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFAULT 32
#define MAXLOG 8192
#define MAXFD 4096

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_UNLINK, OP_RENAME, OP_MKDIR,
       OP_RMDIR, OP_SYNC, OP_READ, OP_OPENR, OP_MMAP };
enum { F_NONE = 0, F_ENOSPC, F_EIO, F_SHORT, F_CRASH, F_TORN, F_CRASH_AFTER,
       F_EINTR, F_FULL, F_EACCES, F_EMFILE, F_DROPPED_SPARE };

typedef struct { uint32_t at, kind, arg, fired; } fault_t;
typedef struct { uint8_t op, fault; uint16_t file; uint32_t len; int64_t off; }
        logent_t;

typedef struct {
    uint32_t magic, enabled;
    uint32_t nops;      /* mutating operations so far (while enabled) */
    uint32_t nreads;    /* read operations so far (while enabled)     */
    uint32_t nfault, nrfault;
    uint32_t full;      /* sticky ENOSPC                              */
    uint32_t full_budget; /* bytes still accepted when full           */
    fault_t fault[MAXFAULT];   /* on mutating operations */
    fault_t rfault[MAXFAULT];  /* on read operations     */
    /* clock */
    uint32_t clock_on, ncalls;
    int64_t mono_ns, wall_ns;
    int64_t step_ns;           /* advance per reading */
    uint32_t njump, jumped;
    struct { uint32_t at, pad; int64_t mono, wall; } jump[MAXFAULT];
    int64_t slept_ns; uint32_t nsleep;
    uint32_t nlog;
    char root[512];
    logent_t log[MAXLOG];
} ctl_t;

static ctl_t *ctl;
static unsigned char tracked[MAXFD];
static uint16_t fdname[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

int shim_attach(const char *path) {
    REAL(int, open, const char *, int, ...);
    int fd = real_open(path, O_RDWR | O_CLOEXEC);
    if (fd < 0) return -1;
    void *p = mmap(NULL, sizeof(ctl_t), PROT_READ | PROT_WRITE, MAP_SHARED,
                   fd, 0);
    close(fd);
    if (p == MAP_FAILED) return -1;
    ctl = p;
    return 0;
}
int shim_detach(void) { ctl = NULL; return 0; }
unsigned long shim_size(void) { return sizeof(ctl_t); }

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("VERIF_SHIM_CTL");
    if (p && *p) shim_attach(p);
}

static uint16_t hashname(const char *s) {
    const char *b = strrchr(s, '/');
    uint32_t h = 2166136261u;
    for (b = b ? b + 1 : s; *b; b++) h = (h ^ (unsigned char)*b) * 16777619u;
    return (uint16_t)(h ^ (h >> 16));
}

static int under(int dirfd, const char *path) {
    char buf[PATH_MAX * 2];
    if (!ctl || !ctl->enabled || !path || !*path) return 0;
    size_t n = strlen(ctl->root);
    if (!n) return 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, PATH_MAX)) return 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t k = readlink(l, buf, PATH_MAX - 1);
            if (k < 0) return 0;
            buf[k] = 0;
        }
        size_t m = strlen(buf);
        snprintf(buf + m, sizeof buf - m, "/%s", path);
        path = buf;
    }
    return strncmp(path, ctl->root, n) == 0 &&
           (path[n] == '/' || path[n] == 0);
}

static void logop(int op, int fault, uint16_t file, int64_t off, uint32_t len) {
    if (ctl->nlog < MAXLOG) {
        logent_t *e = &ctl->log[ctl->nlog];
        e->op = op; e->fault = fault; e->file = file; e->off = off;
        e->len = len;
    }
    ctl->nlog++;
}

/* next mutating operation: which fault applies? */
static fault_t *next_op(void) {
    uint32_t n = ctl->nops++;
    for (uint32_t i = 0; i < ctl->nfault; i++)
        if (ctl->fault[i].at == n && ctl->fault[i].kind) return &ctl->fault[i];
    return NULL;
}
static fault_t *next_read(void) {
    uint32_t n = ctl->nreads++;
    for (uint32_t i = 0; i < ctl->nrfault; i++)
        if (ctl->rfault[i].at == n && ctl->rfault[i].kind)
            return &ctl->rfault[i];
    return NULL;
}

static void die(void) { _exit(137); }

static int errof(int kind) {
    switch (kind) {
    case F_ENOSPC: case F_FULL: return ENOSPC;
    case F_EIO: return EIO;
    case F_EINTR: return EINTR;
    case F_EACCES: return EACCES;
    case F_EMFILE: return EMFILE;
    }
    return 0;
}

/* metadata operation: 0 = go on, 1 = go on then die, -1 = fail (errno set) */
static int meta(int op, uint16_t file) {
    fault_t *f = next_op();
    int k = f ? f->kind : 0;
    if (k) f->fired++;
    logop(op, k, file, 0, 0);
    switch (k) {
    case F_CRASH: case F_TORN: die();
    case F_CRASH_AFTER: return 1;
    case F_SHORT: case F_NONE: break;
    case F_EINTR: break; /* not returned by these calls on local files */
    case F_FULL: ctl->full = 1; ctl->full_budget = f->arg;
        if (op == OP_OPEN || op == OP_MKDIR) { errno = ENOSPC; return -1; }
        break;
    case F_ENOSPC:
        if (op == OP_UNLINK || op == OP_RMDIR) break;
        errno = ENOSPC; return -1;
    default: errno = errof(k); return -1;
    }
    if (ctl->full && (op == OP_MKDIR)) { errno = ENOSPC; return -1; }
    return 0;
}

/* data operation: *len may shrink; 0 go on, 1 go on then die, -1 fail */
static int data(uint16_t file, int64_t off, size_t *len) {
    fault_t *f = next_op();
    int k = f ? f->kind : 0;
    if (k) f->fired++;
    logop(OP_WRITE, k, file, off, (uint32_t)*len);
    switch (k) {
    case F_CRASH: die();
    case F_CRASH_AFTER: return 1;
    case F_TORN: {
        /* a prefix reaches the file: arg/1000 of it, at 512-byte boundaries
           for block-sized writes */
        size_t n = (size_t)((double)*len * (f->arg % 1001) / 1000.0);
        if (*len > 512 && (f->arg & 1)) n &= ~(size_t)511;
        if (n >= *len) n = *len - 1;
        *len = n;
        return 1;
    }
    case F_SHORT:
        if (*len > 1) {
            size_t n = (size_t)((double)*len * (f->arg % 1001) / 1000.0);
            if (n < 1) n = 1;
            if (n >= *len) n = *len - 1;
            *len = n;
        }
        break;
    case F_FULL: ctl->full = 1; ctl->full_budget = f->arg; break;
    case F_NONE: break;
    case F_EACCES: case F_EMFILE: break;
    default: errno = errof(k); return -1;
    }
    if (ctl->full) {
        if (ctl->full_budget == 0) { errno = ENOSPC; return -1; }
        if (*len > ctl->full_budget) *len = ctl->full_budget;
        ctl->full_budget -= *len;
    }
    return 0;
}

static int isw(int flags) {
    return (flags & (O_CREAT | O_TRUNC)) != 0;
}
static int post_open(int fd, int t, const char *path) {
    if (fd >= 0 && fd < MAXFD) {
        tracked[fd] = t;
        if (t) fdname[fd] = hashname(path);
    }
    return fd;
}
static int pre_open(const char *path, int flags, int *t) {
    int r = 0;
    if (*t) {
        if (isw(flags)) r = meta(OP_OPEN, hashname(path));
        else {
            fault_t *f = next_read();
            int k = f ? f->kind : 0;
            if (k) f->fired++;
            logop(OP_OPENR, k, hashname(path), 0, 0);
            if (k && errof(k) && k != F_ENOSPC && k != F_EINTR) {
                errno = errof(k); return -1; }
        }
    }
    return r;
}

#define OPEN_BODY(name, call) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int t = under(dirfd, path); \
    int r = pre_open(path, flags, &t); \
    if (r < 0) return -1; \
    int fd = call; \
    if (r > 0) die(); \
    return post_open(fd, t, path);

int open(const char *path, int flags, ...) {
    REAL(int, open, const char *, int, ...);
    int dirfd = AT_FDCWD;
    OPEN_BODY(open, real_open(path, flags, mode))
}
int open64(const char *path, int flags, ...) {
    REAL(int, open64, const char *, int, ...);
    int dirfd = AT_FDCWD;
    OPEN_BODY(open64, real_open64(path, flags, mode))
}
int openat(int dirfd, const char *path, int flags, ...) {
    REAL(int, openat, int, const char *, int, ...);
    OPEN_BODY(openat, real_openat(dirfd, path, flags, mode))
}
int openat64(int dirfd, const char *path, int flags, ...) {
    REAL(int, openat64, int, const char *, int, ...);
    OPEN_BODY(openat64, real_openat64(dirfd, path, flags, mode))
}
int creat(const char *path, mode_t m) {
    return open(path, O_CREAT | O_WRONLY | O_TRUNC, m);
}
int creat64(const char *path, mode_t m) { return creat(path, m); }

int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return real_close(fd);
}
int dup2(int a, int b) {
    REAL(int, dup2, int, int);
    int r = real_dup2(a, b);
    if (r >= 0 && a >= 0 && a < MAXFD && b < MAXFD) {
        tracked[b] = tracked[a]; fdname[b] = fdname[a]; }
    return r;
}
int dup(int a) {
    REAL(int, dup, int);
    int b = real_dup(a);
    if (b >= 0 && b < MAXFD && a >= 0 && a < MAXFD) {
        tracked[b] = tracked[a]; fdname[b] = fdname[a]; }
    return b;
}

static int istracked(int fd) {
    return ctl && ctl->enabled && fd >= 0 && fd < MAXFD && tracked[fd];
}

ssize_t write(int fd, const void *buf, size_t len) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!istracked(fd) || len == 0) return real_write(fd, buf, len);
    int r = data(fdname[fd], -1, &len);
    if (r < 0) return -1;
    ssize_t k = len ? real_write(fd, buf, len) : 0;
    if (r > 0) die();
    return k;
}
ssize_t writev(int fd, const struct iovec *iov, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!istracked(fd)) return real_writev(fd, iov, n);
    for (int i = 0; i < n; i++)
        if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
#define PWRITE(name, offt) \
ssize_t name(int fd, const void *buf, size_t len, offt off) { \
    REAL(ssize_t, name, int, const void *, size_t, offt); \
    if (!istracked(fd) || len == 0) return real_##name(fd, buf, len, off); \
    int r = data(fdname[fd], off, &len); \
    if (r < 0) return -1; \
    ssize_t k = len ? real_##name(fd, buf, len, off) : 0; \
    if (r > 0) die(); \
    return k; \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

#define READER(ret, name, proto, args, fdarg) \
ret name proto { \
    REAL(ret, name, RPROTO_##name); \
    if (istracked(fdarg)) { \
        fault_t *f = next_read(); \
        int k = f ? f->kind : 0; \
        if (k) { f->fired++; logop(OP_READ, k, fdname[fdarg], 0, 0); } \
        if (k == F_CRASH || k == F_CRASH_AFTER || k == F_TORN) die(); \
        if (k == F_EIO || k == F_EINTR) { errno = errof(k); return -1; } \
        if (k == F_SHORT && len > 1) { len = len / 2; } \
    } \
    return real_##name args; \
}
#define RPROTO_read int, void *, size_t
#define RPROTO_pread int, void *, size_t, off_t
#define RPROTO_pread64 int, void *, size_t, off64_t
READER(ssize_t, read, (int fd, void *buf, size_t len), (fd, buf, len), fd)
READER(ssize_t, pread, (int fd, void *buf, size_t len, off_t off),
       (fd, buf, len, off), fd)
READER(ssize_t, pread64, (int fd, void *buf, size_t len, off64_t off),
       (fd, buf, len, off), fd)

ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    if (istracked(out)) { errno = EINVAL; return -1; } /* use read/write */
    return real_sendfile(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    if (istracked(out)) { errno = EINVAL; return -1; }
    return real_sendfile64(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n,
                        unsigned fl) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t,
         unsigned);
    if (istracked(out)) { errno = EINVAL; return -1; }
    return real_copy_file_range(in, oi, out, oo, n, fl);
}

/* shared writable mappings would bypass the seam: refuse them, as file systems
   without mmap support do; callers then fall back to write */
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    REAL(void *, mmap, void *, size_t, int, int, int, off_t);
    if (istracked(fd) && (flags & MAP_SHARED)) {
        logop(OP_MMAP, 0, fdname[fd], off, (uint32_t)n);
        errno = ENODEV; return MAP_FAILED; }
    return real_mmap(a, n, prot, flags, fd, off);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) {
    REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
    if (istracked(fd) && (flags & MAP_SHARED)) {
        logop(OP_MMAP, 0, fdname[fd], off, (uint32_t)n);
        errno = ENODEV; return MAP_FAILED; }
    return real_mmap64(a, n, prot, flags, fd, off);
}

#define META1(ret, name, proto, rproto, args, op, cond, pathexpr) \
ret name proto { \
    REAL(ret, name, rproto); \
    int r = 0; \
    if (cond) { r = meta(op, pathexpr); if (r < 0) return -1; } \
    ret k = real_##name args; \
    if (r > 0) die(); \
    return k; \
}
#define COMMA ,
int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate, int, off_t);
    int r = 0;
    if (istracked(fd)) { r = meta(OP_TRUNC, fdname[fd]); if (r < 0) return -1; }
    int k = real_ftruncate(fd, n);
    if (r > 0) die();
    return k;
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    int r = 0;
    if (istracked(fd)) { r = meta(OP_TRUNC, fdname[fd]); if (r < 0) return -1; }
    int k = real_ftruncate64(fd, n);
    if (r > 0) die();
    return k;
}
int fsync(int fd) {
    REAL(int, fsync, int);
    int r = 0;
    if (istracked(fd)) { r = meta(OP_SYNC, fdname[fd]); if (r < 0) return -1; }
    (void)real_fsync;
    if (r > 0) die();
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int unlink(const char *p) {
    REAL(int, unlink, const char *);
    int r = 0;
    if (under(AT_FDCWD, p)) { r = meta(OP_UNLINK, hashname(p));
        if (r < 0) return -1; }
    int k = real_unlink(p);
    if (r > 0) die();
    return k;
}
int unlinkat(int d, const char *p, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    int r = 0;
    if (under(d, p)) { r = meta(OP_UNLINK, hashname(p)); if (r < 0) return -1; }
    int k = real_unlinkat(d, p, fl);
    if (r > 0) die();
    return k;
}
int remove(const char *p) {
    struct stat st;
    if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(p);
    return unlink(p);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    int r = 0;
    if (under(AT_FDCWD, b) || under(AT_FDCWD, a)) {
        r = meta(OP_RENAME, hashname(b)); if (r < 0) return -1; }
    int k = real_rename(a, b);
    if (r > 0) die();
    return k;
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    int r = 0;
    if (under(db, b)) { r = meta(OP_RENAME, hashname(b)); if (r < 0) return -1; }
    int k = real_renameat(da, a, db, b);
    if (r > 0) die();
    return k;
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    int r = 0;
    if (under(AT_FDCWD, p)) { r = meta(OP_MKDIR, hashname(p));
        if (r < 0) return -1; }
    int k = real_mkdir(p, m);
    if (r > 0) die();
    return k;
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, mkdirat, int, const char *, mode_t);
    int r = 0;
    if (under(d, p)) { r = meta(OP_MKDIR, hashname(p)); if (r < 0) return -1; }
    int k = real_mkdirat(d, p, m);
    if (r > 0) die();
    return k;
}
int rmdir(const char *p) {
    REAL(int, rmdir, const char *);
    int r = 0;
    if (under(AT_FDCWD, p)) { r = meta(OP_RMDIR, hashname(p));
        if (r < 0) return -1; }
    int k = real_rmdir(p);
    if (r > 0) die();
    return k;
}

/* gdbm maps its file by default: ask it to use read/write so that its I/O goes
   through the seam */
void *gdbm_open(const char *name, int bs, int flags, int mode, void (*f)()) {
    static void *(*real)(const char *, int, int, int, void (*)());
    if (!real) {
        void *h = dlopen("libgdbm.so.6", RTLD_NOW);
        if (h) real = dlsym(h, "gdbm_open");
        if (!real) { errno = ENOSYS; return NULL; }
    }
    if (under(AT_FDCWD, name)) flags |= 0x80; /* GDBM_NOMMAP */
    return real(name, bs, flags, mode, f);
}

/* ------------------------------------------------------------------ clock */
static int clk(void) { return ctl && ctl->clock_on; }
static void tick(void) {
    uint32_t n = ctl->ncalls++;
    ctl->mono_ns += ctl->step_ns;
    ctl->wall_ns += ctl->step_ns;
    for (uint32_t i = 0; i < ctl->njump; i++)
        if (ctl->jump[i].at == n) {
            ctl->jumped++;
            ctl->mono_ns += ctl->jump[i].mono;
            ctl->wall_ns += ctl->jump[i].wall;
        }
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (!clk()) return real_clock_gettime(id, ts);
    tick();
    int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
                    ? ctl->wall_ns : ctl->mono_ns;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (!clk()) return real_gettimeofday(tv, tz);
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    REAL(time_t, time, time_t *);
    if (!clk()) return real_time(t);
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static void vsleep(int64_t ns) {
    if (ns < 0) ns = 0;
    ctl->slept_ns += ns; ctl->nsleep++;
    ctl->mono_ns += ns; ctl->wall_ns += ns;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    REAL(int, nanosleep, const struct timespec *, struct timespec *);
    if (!clk()) return real_nanosleep(a, b);
    vsleep((int64_t)a->tv_sec * 1000000000 + a->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a,
                    struct timespec *b) {
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *,
         struct timespec *);
    if (!clk()) return real_clock_nanosleep(c, fl, a, b);
    int64_t t = (int64_t)a->tv_sec * 1000000000 + a->tv_nsec;
    if (fl & TIMER_ABSTIME)
        t -= (c == CLOCK_REALTIME) ? ctl->wall_ns : ctl->mono_ns;
    vsleep(t);
    return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
    if (!clk() || !tv || n > 0) return real_select(n, r, w, e, tv);
    vsleep((int64_t)tv->tv_sec * 1000000000 + (int64_t)tv->tv_usec * 1000);
    return 0;
}
