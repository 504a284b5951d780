/* Simulated disk at the libc boundary (LD_PRELOAD).  Inactive until fs_arm(root) is called;
 * from then on every operation on a path below root is numbered, logged with its data into
 * memory that outlives the process, and can be made to fail, to be cut short, to be
 * interrupted, or to be the last thing the process ever does. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN = 1, WRITE, READ, CLOSE, FSYNC, TRUNC, RENAME, UNLINK, LINK, MKDIR, RMDIR, SYMLINK };
enum { A_NONE = 0, A_ERR = 1, A_SHORT = 2, A_KILL = 3, A_KILL_AFTER = 4, A_CHOP = 5, A_CALL = 6 };
static void (*callback)(void) = NULL;
static int in_callback = 0;

#define LOGSIZE (16 << 20)
#define MAXFD 1024

struct shared { int64_t n_ops; int64_t used; int64_t overflow; int64_t fired; char buf[LOGSIZE]; };
static struct shared *sh = NULL;
static char root[PATH_MAX];
static size_t rootlen = 0;
static int armed = 0;
static char tracked[MAXFD];

/* fault plan: up to 16 faults */
struct fault { int64_t at; int action; int64_t arg; };
static struct fault plan[16];
static int n_plan = 0;
static int64_t chop = 0;      /* >0: every read/write transfers at most this many bytes */
static int64_t eintr = 0;     /* >0: every eintr-th read/write/open is interrupted first */
static int64_t eintr_count = 0;
static int64_t capacity = -1; /* >=0: bytes that still fit on the disk */

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name)

static int below(const char *path, char *out) {
    if (!armed || in_callback || !path) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return 0;
        strcpy(out, path);
    } else {
        if (!getcwd(out, PATH_MAX)) return 0;
        size_t n = strlen(out);
        if (n + strlen(path) + 2 >= PATH_MAX) return 0;
        out[n] = '/';
        strcpy(out + n + 1, path);
    }
    return !strncmp(out, root, rootlen);
}

static void put(const void *p, size_t n) {
    if (sh->used + (int64_t) n > LOGSIZE) { sh->overflow = 1; return; }
    memcpy(sh->buf + sh->used, p, n);
    sh->used += n;
}
static void put64(int64_t v) { put(&v, 8); }
static void puts_(const char *s) { int64_t n = s ? strlen(s) : 0; put64(n); if (n) put(s, n); }

static void record(int kind, int fd, int64_t a, int64_t b, const char *p, const char *q, const void *data, int64_t n, int64_t res) {
    put64(kind); put64(fd); put64(a); put64(b); puts_(p); puts_(q); put64(n < 0 ? 0 : n);
    if (n > 0) put(data, n);
    put64(res);
}

static struct fault *next_op(void) {
    int64_t i = ++sh->n_ops;
    for (int k = 0; k < n_plan; k++)
        if (plan[k].at == i) {
            sh->fired |= (int64_t) 1 << k;
            if (plan[k].action == A_CALL) {           /* somebody else gets to run before this operation */
                if (callback) { in_callback = 1; callback(); in_callback = 0; }
                return NULL;
            }
            return &plan[k];
        }
    return NULL;
}

static int interrupted(void) {
    if (eintr > 0 && ++eintr_count % eintr == 0) { errno = EINTR; return 1; }
    return 0;
}

static void die(void) { _exit(77); }

/* ---- control interface ---- */
int fs_init(void) {
    if (!sh) {
        sh = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { sh = NULL; return -1; }
    }
    return 0;
}
int fs_arm(const char *r) {
    if (fs_init()) return -1;
    strncpy(root, r, PATH_MAX - 1);
    rootlen = strlen(root);
    sh->n_ops = sh->used = sh->overflow = sh->fired = 0;
    eintr_count = 0;
    memset(tracked, 0, sizeof tracked);
    armed = 1;
    return 0;
}
void fs_disarm(void) { armed = 0; memset(tracked, 0, sizeof tracked); }
void fs_clear(void) { n_plan = 0; chop = 0; eintr = 0; capacity = -1; }
void fs_fault(int64_t at, int action, int64_t arg) { if (n_plan < 16) { plan[n_plan].at = at; plan[n_plan].action = action; plan[n_plan++].arg = arg; } }
void fs_knobs(int64_t chop_, int64_t eintr_, int64_t capacity_) { chop = chop_; eintr = eintr_; capacity = capacity_; }
void fs_callback(void (*f)(void)) { callback = f; }
int64_t fs_ops(void) { return sh->n_ops; }
int64_t fs_fired(void) { return sh->fired; }
int64_t fs_log_size(void) { return sh->overflow ? -1 : sh->used; }
const char *fs_log(void) { return sh->buf; }

/* ---- interposed calls ---- */
static int do_open(int (*fn)(int, const char *, int, mode_t), int dirfd, const char *path, int flags, mode_t mode) {
    char abs[PATH_MAX];
    if (dirfd != AT_FDCWD && path && path[0] != '/') return fn(dirfd, path, flags, mode);
    if (!below(path, abs)) return fn(dirfd, path, flags, mode);
    if (interrupted()) return -1;
    struct fault *f = next_op();
    if (f && f->action == A_ERR) { record(OPEN, -1, flags, mode, abs, NULL, NULL, 0, -f->arg); errno = f->arg; return -1; }
    if (f && (f->action == A_KILL || f->action == A_SHORT)) die();
    struct stat st;
    int existed = stat(abs, &st) == 0;
    int fd = fn(dirfd, path, flags, mode);
    int e = errno;
    record(OPEN, fd, flags, existed ? st.st_size : -1, abs, NULL, NULL, 0, fd);
    if (fd >= 0 && fd < MAXFD && !(fstat(fd, &st) == 0 && S_ISDIR(st.st_mode))) tracked[fd] = 1;
    else if (fd >= 0 && fd < MAXFD) tracked[fd] = 2;
    if (f && f->action == A_KILL_AFTER) die();
    errno = e;
    return fd;
}

static int real_at(int dirfd, const char *path, int flags, mode_t mode) {
    REAL(int, openat, int, const char *, int, ...);
    return real_openat(dirfd, path, flags, mode);
}

#define OPENBODY(dirfd) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    return do_open(real_at, dirfd, path, flags, mode);

int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { OPENBODY(d) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(d) }
int creat(const char *path, mode_t mode) { return do_open(real_at, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

static int is(int fd) { return armed && !in_callback && fd >= 0 && fd < MAXFD && tracked[fd]; }

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positioned) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    if (!is(fd)) return positioned ? real_pwrite64(fd, buf, n, off) : real_write(fd, buf, n);
    if (interrupted()) return -1;
    struct fault *f = next_op();
    if (f && f->action == A_ERR) { record(WRITE, fd, 0, 0, NULL, NULL, NULL, 0, -f->arg); errno = f->arg; return -1; }
    if (f && f->action == A_KILL) die();
    size_t m = n;
    if (chop > 0 && m > (size_t) chop) m = chop;
    if (f && f->action == A_SHORT && m > 0) m = f->arg % m;              /* torn, then killed */
    if (f && f->action == A_CHOP && m > 1) m = 1 + f->arg % (m - 1);
    if (capacity >= 0) {
        if (capacity == 0 && m) { record(WRITE, fd, 0, 0, NULL, NULL, NULL, 0, -ENOSPC); errno = ENOSPC; sh->fired |= (int64_t) 1 << 62; return -1; }
        if ((int64_t) m > capacity) m = capacity;
        capacity -= m;
    }
    off_t pos = positioned ? off : lseek(fd, 0, SEEK_CUR);
    int fl = fcntl(fd, F_GETFL);
    if (fl & O_APPEND) { struct stat st; if (!fstat(fd, &st)) pos = st.st_size; }
    ssize_t r = positioned ? real_pwrite64(fd, buf, m, off) : real_write(fd, buf, m);
    int e = errno;
    record(WRITE, fd, pos, 0, NULL, NULL, buf, r, r);
    if (f && (f->action == A_SHORT || f->action == A_KILL_AFTER)) die();
    errno = e;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!is(fd)) return real_writev(fd, iov, c);
    for (int i = 0; i < c; i++) if (iov[i].iov_len) return do_write(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
    return 0;
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positioned) {
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread64, int, void *, size_t, off_t);
    if (!is(fd)) return positioned ? real_pread64(fd, buf, n, off) : real_read(fd, buf, n);
    if (interrupted()) return -1;
    struct fault *f = next_op();
    if (f && f->action == A_ERR) { record(READ, fd, 0, 0, NULL, NULL, NULL, 0, -f->arg); errno = f->arg; return -1; }
    if (f && f->action == A_KILL) die();
    size_t m = n;
    if (chop > 0 && m > (size_t) chop) m = chop;
    if (f && (f->action == A_SHORT || f->action == A_CHOP) && m > 1) m = 1 + f->arg % (m - 1);
    ssize_t r = positioned ? real_pread64(fd, buf, m, off) : real_read(fd, buf, m);
    int e = errno;
    record(READ, fd, 0, 0, NULL, NULL, NULL, 0, r);
    errno = e;
    return r;
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, 0, 0); }
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_read(fd, buf, n, off, 1); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return do_read(fd, buf, n, off, 1); }

int close(int fd) {
    REAL(int, close, int);
    if (!is(fd)) return real_close(fd);
    struct fault *f = next_op();
    if (f && (f->action == A_KILL || f->action == A_SHORT)) die();
    tracked[fd] = 0;
    int r = real_close(fd);
    int e = errno;
    if (f && f->action == A_ERR) { record(CLOSE, fd, 0, 0, NULL, NULL, NULL, 0, -f->arg); errno = f->arg; return -1; }
    record(CLOSE, fd, 0, 0, NULL, NULL, NULL, 0, r);
    if (f && f->action == A_KILL_AFTER) die();
    errno = e;
    return r;
}

static int do_sync(int fd, int data) {
    REAL(int, fsync, int);
    if (!is(fd)) { REAL(int, fdatasync, int); return data ? real_fdatasync(fd) : real_fsync(fd); }
    struct fault *f = next_op();
    if (f && f->action == A_ERR) { record(FSYNC, fd, 0, 0, NULL, NULL, NULL, 0, -f->arg); errno = f->arg; return -1; }
    if (f && (f->action == A_KILL || f->action == A_SHORT)) die();
    record(FSYNC, fd, 0, 0, NULL, NULL, NULL, 0, 0);   /* durability is the simulator's: nothing real is synced */
    if (f && f->action == A_KILL_AFTER) die();
    return 0;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }

static int do_trunc(int fd, off_t n) {
    REAL(int, ftruncate64, int, off_t);
    if (!is(fd)) return real_ftruncate64(fd, n);
    struct fault *f = next_op();
    if (f && f->action == A_ERR) { record(TRUNC, fd, n, 0, NULL, NULL, NULL, 0, -f->arg); errno = f->arg; return -1; }
    if (f && (f->action == A_KILL || f->action == A_SHORT)) die();
    int r = real_ftruncate64(fd, n);
    record(TRUNC, fd, n, 0, NULL, NULL, NULL, 0, r);
    if (f && f->action == A_KILL_AFTER) die();
    return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }

#define NAMEOP(kind, a, b, call) \
    char pa[PATH_MAX], pb[PATH_MAX]; pb[0] = 0; \
    int in = below(a, pa); \
    if (b) { int in2 = below(b, pb); in = in || in2; } \
    if (!in) return call; \
    struct fault *f = next_op(); \
    if (f && f->action == A_ERR) { record(kind, -1, 0, 0, pa, pb, NULL, 0, -f->arg); errno = f->arg; return -1; } \
    if (f && (f->action == A_KILL || f->action == A_SHORT)) die(); \
    int r = call; int e = errno; \
    record(kind, -1, 0, 0, pa, pb, NULL, 0, r ? -e : 0); \
    if (f && f->action == A_KILL_AFTER) die(); \
    errno = e; return r;

int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); NAMEOP(RENAME, a, b, real_rename(a, b)) }
int renameat(int d, const char *a, int d2, const char *b) { REAL(int, renameat, int, const char *, int, const char *); NAMEOP(RENAME, a, b, real_renameat(d, a, d2, b)) }
int unlink(const char *a) { REAL(int, unlink, const char *); NAMEOP(UNLINK, a, NULL, real_unlink(a)) }
int unlinkat(int d, const char *a, int fl) { REAL(int, unlinkat, int, const char *, int); NAMEOP(UNLINK, a, NULL, real_unlinkat(d, a, fl)) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); NAMEOP(LINK, a, b, real_link(a, b)) }
int linkat(int d, const char *a, int d2, const char *b, int fl) { REAL(int, linkat, int, const char *, int, const char *, int); NAMEOP(LINK, a, b, real_linkat(d, a, d2, b, fl)) }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); NAMEOP(SYMLINK, b, NULL, real_symlink(a, b)) }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); NAMEOP(MKDIR, a, NULL, real_mkdir(a, m)) }
int rmdir(const char *a) { REAL(int, rmdir, const char *); NAMEOP(RMDIR, a, NULL, real_rmdir(a)) }
int truncate64(const char *a, off_t n) { REAL(int, truncate64, const char *, off_t); NAMEOP(TRUNC, a, NULL, real_truncate64(a, n)) }
int truncate(const char *a, off_t n) { REAL(int, truncate64, const char *, off_t); NAMEOP(TRUNC, a, NULL, real_truncate64(a, n)) }

ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
    if (is(o) || is(i)) { errno = EINVAL; return -1; }
    return real_sendfile64(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (is(o) || is(i)) { errno = EINVAL; return -1; }
    return real_copy_file_range(i, oi, o, oo, n, fl);
}

/* ---- clock: when armed, every reading is drawn by the simulator and may jump either way ---- */
#include <sys/time.h>
#include <time.h>
static int clock_on = 0;
static uint64_t clock_state = 1;
static int64_t clock_now = 0, clock_reads = 0;
static uint64_t clock_rnd(void) { uint64_t x = clock_state; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return clock_state = x; }

void ck_arm(uint64_t seed, int64_t start) { clock_state = seed | 1; clock_now = start; clock_reads = 0; clock_on = 1; }
void ck_disarm(void) { clock_on = 0; }
int64_t ck_reads(void) { return clock_reads; }

static int64_t clock_step(void) {                 /* nanoseconds since the epoch */
    uint64_t r = clock_rnd();
    clock_reads++;
    switch (r % 8) {
        case 0: break;                                                     /* stands still */
        case 1: clock_now += (int64_t) (clock_rnd() % 4000000000000000ll); break;   /* leaps ahead, up to 46 days */
        case 2: clock_now -= (int64_t) (clock_rnd() % 4000000000000000ll); break;   /* set back */
        default: clock_now += (int64_t) (clock_rnd() % 50000000); break;
    }
    if (clock_now < 1000000000ll) clock_now = 1000000000ll;
    if (clock_now > 4000000000000000000ll) clock_now = 4000000000000000000ll;
    return clock_now;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (!clock_on || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return real_clock_gettime(id, ts);
    int64_t t = clock_step();
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (!clock_on) return real_gettimeofday(tv, tz);
    int64_t t = clock_step();
    if (tv) { tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; }
    return 0;
}
time_t time(time_t *out) {
    REAL(time_t, time, time_t *);
    if (!clock_on) return real_time(out);
    time_t t = clock_step() / 1000000000;
    if (out) *out = t;
    return t;
}
