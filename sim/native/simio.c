/* LD_PRELOAD seam: the system calls of one process that touch the simulated
 * file tree are numbered, recorded and, at chosen numbers, made to fail, to be
 * interrupted, to be short, or preceded by a change of the tree or a signal.
 * Off until simio_start() or SIMIO_CONF.  Configuration, one item per line:
 *   trace FILE            the log (created, mapped shared)
 *   root PATH             calls on paths below PATH are simulated
 *   watch FD              calls on this descriptor too
 *   clock SECONDS         offset of the wall clock
 *   pid N                 value of getpid()
 *   rand SEED             getrandom() yields a seeded sequence
 *   host NAME             value of uname().nodename and gethostname(); other kernel release, too
 *   cpus N                number of processors
 *   tty COLUMNS           the standard streams are terminals of that width
 *   err N ERRNO COUNT STICKY   calls N..N+COUNT-1 fail; sticky: and later ones of this kind and path
 *   short N BYTES STICKY       call N transfers at most BYTES
 *   gate RFD WFD          every call waits: a byte to WFD, then one from RFD (g: go on; k, t, i: SIGKILL, SIGTERM, SIGINT first)
 *   unlink N PATH / rename N FROM TO / sig N SIGNAL     before call N
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <dirent.h>
#include <time.h>
#include <unistd.h>

#define MAXF 32
#define MAXFD 1024
#define LOGSZ (8 << 20)

enum { F_ERR, F_SHORT, F_UNLINK, F_RENAME, F_SIG };
struct fault {
    int kind;
    long n;
    int err, count, sticky;
    char a[512], b[512];
    int armed;            /* sticky and reached */
    char op[16], path[512];
};

static int on;
static long owner;
static char roots[8][512];
static int nroots;
static struct fault faults[MAXF];
static int nfaults;
static int full;             /* no write succeeds */
static long counter;
static char *fdpath[MAXFD];
static char *logbuf;
static long clock_off;
static long fake_pid;
static unsigned long rnd;
static int rnd_on;
static char host[64];
static long cpus, tty;
static int gate_r = -1, gate_w = -1;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int active(void) { return on && syscall(SYS_getpid) == owner; }

static void logline(const char *fmt, ...)
{
    if (!logbuf) return;
    long *len = (long *)logbuf;
    char tmp[1500];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof tmp) n = sizeof tmp - 1;
    if (*len + n + 16 > LOGSZ) return;
    memcpy(logbuf + 8 + *len, tmp, n);
    *len += n;
}

/* lexical absolute path */
static int absolute(int dirfd, const char *p, char *out, size_t sz)
{
    char tmp[2048];
    if (!p) return 0;
    if (p[0] == '/') {
        if (strlen(p) >= sizeof tmp) return 0;
        strcpy(tmp, p);
    } else {
        char cwd[1024];
        if (dirfd != AT_FDCWD) {
            if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) snprintf(cwd, sizeof cwd, "%s", fdpath[dirfd]);
            else {
                char l[64];
                snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
                long n = syscall(SYS_readlink, l, cwd, sizeof cwd - 1);
                if (n < 0) return 0;
                cwd[n] = 0;
            }
        } else if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        if (strlen(cwd) + strlen(p) + 2 > sizeof tmp) return 0;
        sprintf(tmp, "%s/%s", cwd, p);
    }
    size_t o = 0;
    char *s = tmp;
    out[0] = 0;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = s;
        while (*e && *e != '/') e++;
        if (e - s == 1 && s[0] == '.') {
        } else if (e - s == 2 && s[0] == '.' && s[1] == '.') {
            while (o > 0 && out[--o] != '/') ;
            out[o] = 0;
        } else {
            if (o + (e - s) + 2 > sz) return 0;
            out[o++] = '/';
            memcpy(out + o, s, e - s);
            o += e - s;
            out[o] = 0;
        }
        s = e;
    }
    return 1;
}

static int inroot(const char *abs)
{
    for (int i = 0; i < nroots; i++) {
        size_t n = strlen(roots[i]);
        if (!strncmp(abs, roots[i], n) && (abs[n] == '/' || abs[n] == 0)) return 1;
    }
    return 0;
}

/* One simulated call: returns the errno to inject or 0; *limit is the byte limit. */
static int enter(const char *op, const char *path, const char *extra, long *limit)
{
    if (gate_w >= 0) {
        /* another process may run now */
        char c = '.';
        while (syscall(SYS_write, gate_w, &c, 1) < 0 && errno == EINTR) ;
        while (syscall(SYS_read, gate_r, &c, 1) < 0 && errno == EINTR) ;
        if (c == 'k') syscall(SYS_kill, owner, SIGKILL);
        else if (c == 't') syscall(SYS_kill, owner, SIGTERM);
        else if (c == 'i') raise(SIGINT);
    }
    long n = counter++;
    int err = 0;
    const char *what = "";
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        int hit = n == f->n;
        if (f->kind == F_ERR) {
            if (f->armed && !strcmp(f->op, op) && !strcmp(f->path, path)) hit = 1;
            if (n >= f->n && n < f->n + f->count) hit = 1;
            if (hit) {
                err = f->err;
                what = "ERR";
            }
        } else if (f->kind == F_SHORT) {
            if (f->armed && !strcmp(f->op, op) && !strcmp(f->path, path)) hit = 1;
            if (hit && limit) {
                *limit = f->err;
                what = "SHORT";
            }
        } else if (hit && f->kind == F_UNLINK) {
            syscall(SYS_unlink, f->a);
            what = "UNLINK";
        } else if (hit && f->kind == F_RENAME) {
            syscall(SYS_rename, f->a, f->b);
            what = "RENAME";
        } else if (hit && f->kind == F_SIG) {
            what = "SIG";
        }
        if (hit && f->sticky && !f->armed) {
            f->armed = 1;
            snprintf(f->op, sizeof f->op, "%s", op);
            snprintf(f->path, sizeof f->path, "%s", path);
        }
    }
    if (full && !strcmp(op, "write")) {
        err = ENOSPC;
        what = "ERR";
    }
    logline("%ld\t%s\t%s\t%s\t%s\t%d\n", n, op, path, extra, what, err);
    for (int i = 0; i < nfaults; i++)
        if (faults[i].kind == F_SIG && faults[i].n == n) raise(faults[i].err);
    return err;
}

static int path_op(const char *op, int dirfd, const char *p, const char *extra, char *abs)
{
    int e = errno, err = 0;
    if (active() && absolute(dirfd, p, abs, 1024) && inroot(abs)) {
        err = enter(op, abs, extra, 0);
        if (!err) err = -1;     /* matched, no fault */
    }
    errno = e;
    return err;
}

static int fd_op(const char *op, int fd, long *limit)
{
    int e = errno, err = 0;
    if (fd >= 0 && fd < MAXFD && fdpath[fd] && active()) err = enter(op, fdpath[fd], "", limit);
    errno = e;
    return err;
}

static void track(int fd, const char *abs)
{
    if (fd >= 0 && fd < MAXFD) {
        free(fdpath[fd]);
        fdpath[fd] = strdup(abs);
    }
}

/* ---- open */

static void note_create(int dirfd, const char *p, int flags, const char *abs)
{
    char a[1024];
    if (!(flags & (O_CREAT | O_WRONLY | O_RDWR)) || !active()) return;
    if (!abs) {
        if (!absolute(dirfd, p, a, sizeof a)) return;
        abs = a;
    }
    logline("-\topened-for-writing\t%s\t%s\t\t0\n", abs, flags & O_CREAT ? "create" : "");
}

static const char *fl(int flags)
{
    int a = flags & O_ACCMODE;
    return a == O_RDONLY ? (flags & O_DIRECTORY ? "dir" : "r") : a == O_WRONLY ? (flags & O_TRUNC ? "w" : "wo") : "rw";
}

#define OPEN_BODY(CALL, DIRFD) \
    char abs[1024]; \
    int r = path_op("open", DIRFD, p, fl(flags), abs); \
    note_create(DIRFD, p, flags, r ? abs : 0); \
    if (r > 0) { errno = r; return -1; } \
    int fd = CALL; \
    if (r && fd >= 0) track(fd, abs); \
    return fd

#define MODE mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...) { MODE REAL(int, open, const char *, int, ...); OPEN_BODY(real_open(p, flags, mode), AT_FDCWD); }
int open64(const char *p, int flags, ...) { MODE REAL(int, open64, const char *, int, ...); OPEN_BODY(real_open64(p, flags, mode), AT_FDCWD); }
int openat(int d, const char *p, int flags, ...) { MODE REAL(int, openat, int, const char *, int, ...); OPEN_BODY(real_openat(d, p, flags, mode), d); }
int openat64(int d, const char *p, int flags, ...) { MODE REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(real_openat64(d, p, flags, mode), d); }
int creat(const char *p, mode_t mode) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

#define FOPEN(name) \
FILE *name(const char *p, const char *m) \
{ \
    REAL(FILE *, name, const char *, const char *); \
    char abs[1024]; \
    int flags = m[0] == 'r' && !strchr(m, '+') ? 0 : O_CREAT | O_WRONLY; \
    int r = path_op("open", AT_FDCWD, p, m, abs); \
    note_create(AT_FDCWD, p, flags, r ? abs : 0); \
    if (r > 0) { errno = r; return 0; } \
    FILE *f = real_##name(p, m); \
    if (r && f) track(fileno(f), abs); \
    return f; \
}
FOPEN(fopen)
FOPEN(fopen64)

DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *);
    char abs[1024];
    int r = path_op("opendir", AT_FDCWD, p, "", abs);
    if (r > 0) { errno = r; return 0; }
    return real_opendir(p);
}

/* ---- paths */

/* changes of names outside the simulated tree are recorded, too */
static void note_change(const char *op, int dirfd, const char *p)
{
    char a[1024];
    int e = errno;
    if ((!strcmp(op, "mkdir") || !strcmp(op, "rename") || !strcmp(op, "link") || !strcmp(op, "utime") || !strcmp(op, "chmod")) && active()
        && absolute(dirfd, p, a, sizeof a) && !inroot(a)) logline("-\tchanged\t%s\t%s\t\t0\n", a, op);
    errno = e;
}

#define PATH1(ret, name, op, DIRFD, P, PROTO, ARGS, TYPES) \
ret name PROTO \
{ \
    REAL(ret, name, TYPES); \
    char abs[1024]; \
    int r = path_op(op, DIRFD, P, "", abs); \
    if (r > 0) { errno = r; return -1; } \
    ret done = real_##name ARGS; \
    if (!r && done == 0) note_change(op, DIRFD, P); \
    return done; \
}
#define C ,
PATH1(int, stat, "stat", AT_FDCWD, p, (const char *p, struct stat *s), (p, s), const char * C struct stat *)
PATH1(int, stat64, "stat", AT_FDCWD, p, (const char *p, struct stat64 *s), (p, s), const char * C struct stat64 *)
PATH1(int, lstat, "stat", AT_FDCWD, p, (const char *p, struct stat *s), (p, s), const char * C struct stat *)
PATH1(int, lstat64, "stat", AT_FDCWD, p, (const char *p, struct stat64 *s), (p, s), const char * C struct stat64 *)
PATH1(int, fstatat, "stat", d, p, (int d, const char *p, struct stat *s, int f), (d, p, s, f), int C const char * C struct stat * C int)
PATH1(int, fstatat64, "stat", d, p, (int d, const char *p, struct stat64 *s, int f), (d, p, s, f), int C const char * C struct stat64 * C int)
PATH1(int, statx, "stat", d, p, (int d, const char *restrict p, int f, unsigned m, struct statx *restrict s), (d, p, f, m, s), int C const char * C int C unsigned C struct statx *)
PATH1(int, access, "access", AT_FDCWD, p, (const char *p, int m), (p, m), const char * C int)
PATH1(int, faccessat, "access", d, p, (int d, const char *p, int m, int f), (d, p, m, f), int C const char * C int C int)
PATH1(ssize_t, readlink, "readlink", AT_FDCWD, p, (const char *p, char *b, size_t n), (p, b, n), const char * C char * C size_t)
PATH1(int, unlink, "unlink", AT_FDCWD, p, (const char *p), (p), const char *)
PATH1(int, unlinkat, "unlink", d, p, (int d, const char *p, int f), (d, p, f), int C const char * C int)
PATH1(int, rmdir, "rmdir", AT_FDCWD, p, (const char *p), (p), const char *)
PATH1(int, mkdir, "mkdir", AT_FDCWD, p, (const char *p, mode_t m), (p, m), const char * C mode_t)
PATH1(int, mkdirat, "mkdir", d, p, (int d, const char *p, mode_t m), (d, p, m), int C const char * C mode_t)
PATH1(int, rename, "rename", AT_FDCWD, q, (const char *p, const char *q), (p, q), const char * C const char *)
PATH1(int, renameat, "rename", d2, q, (int d, const char *p, int d2, const char *q), (d, p, d2, q), int C const char * C int C const char *)
PATH1(int, symlink, "link", AT_FDCWD, q, (const char *p, const char *q), (p, q), const char * C const char *)
PATH1(int, link, "link", AT_FDCWD, q, (const char *p, const char *q), (p, q), const char * C const char *)
PATH1(int, utimensat, "utime", d, p, (int d, const char *p, const struct timespec t[2], int f), (d, p, t, f), int C const char * C const struct timespec * C int)
PATH1(int, chmod, "chmod", AT_FDCWD, p, (const char *p, mode_t m), (p, m), const char * C mode_t)

/* ---- descriptors */

#define FD0(ret, name, op, PROTO, ARGS, TYPES) \
ret name PROTO \
{ \
    REAL(ret, name, TYPES); \
    int e = fd_op(op, fd, 0); \
    if (e > 0) { errno = e; return (ret)-1; } \
    return real_##name ARGS; \
}
FD0(int, fstat, "fstat", (int fd, struct stat *s), (fd, s), int C struct stat *)
FD0(int, fstat64, "fstat", (int fd, struct stat64 *s), (fd, s), int C struct stat64 *)
FD0(int, ftruncate, "ftruncate", (int fd, off_t n), (fd, n), int C off_t)
FD0(int, ftruncate64, "ftruncate", (int fd, off64_t n), (fd, n), int C off64_t)
FD0(int, fsync, "fsync", (int fd), (fd), int)

#define XFER(ret, name, op, PROTO, ARGS, TYPES) \
ret name PROTO \
{ \
    REAL(ret, name, TYPES); \
    long limit = -1; \
    int e = fd_op(op, fd, &limit); \
    if (e > 0) { errno = e; return -1; } \
    if (limit >= 0 && n > (size_t)limit) n = limit ? limit : 1; \
    return real_##name ARGS; \
}
XFER(ssize_t, read, "read", (int fd, void *b, size_t n), (fd, b, n), int C void * C size_t)
XFER(ssize_t, pread, "read", (int fd, void *b, size_t n, off_t o), (fd, b, n, o), int C void * C size_t C off_t)
XFER(ssize_t, pread64, "read", (int fd, void *b, size_t n, off64_t o), (fd, b, n, o), int C void * C size_t C off64_t)
XFER(ssize_t, write, "write", (int fd, const void *b, size_t n), (fd, b, n), int C const void * C size_t)
XFER(ssize_t, pwrite, "write", (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), int C const void * C size_t C off_t)
XFER(ssize_t, pwrite64, "write", (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o), int C const void * C size_t C off64_t)

ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    long limit = -1;
    int e = fd_op("write", fd, &limit);
    if (e > 0) { errno = e; return -1; }
    if (limit >= 0 && n > 0 && v[0].iov_len > 0) {
        struct iovec w = v[0];
        if (w.iov_len > (size_t)limit) w.iov_len = limit ? limit : 1;
        return real_writev(fd, &w, 1);
    }
    return real_writev(fd, v, n);
}

void *mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
    REAL(void *, mmap, void *, size_t, int, int, int, off_t);
    int e = fd >= 0 ? fd_op("mmap", fd, 0) : 0;
    if (e > 0) { errno = e; return MAP_FAILED; }
    return real_mmap(a, n, p, f, fd, o);
}
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o)
{
    REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
    int e = fd >= 0 ? fd_op("mmap", fd, 0) : 0;
    if (e > 0) { errno = e; return MAP_FAILED; }
    return real_mmap64(a, n, p, f, fd, o);
}

int close(int fd)
{
    REAL(int, close, int);
    int e = fd_op("close", fd, 0);
    if (fd >= 0 && fd < MAXFD && fdpath[fd] && active()) {
        free(fdpath[fd]);
        fdpath[fd] = 0;
    }
    /* the descriptor is gone even when close fails */
    int r = real_close(fd);
    if (e > 0) { errno = e; return -1; }
    return r;
}

/* ---- clock and process id */

int clock_gettime(clockid_t c, struct timespec *t)
{
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    int r = real_clock_gettime(c, t);
    if (clock_off && r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += clock_off;
    return r;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
pid_t getpid(void) { return fake_pid ? fake_pid : syscall(SYS_getpid); }

/* ---- randomness */

ssize_t getrandom(void *b, size_t n, unsigned f)
{
    REAL(ssize_t, getrandom, void *, size_t, unsigned);
    if (!rnd_on || !active()) return real_getrandom(b, n, f);
    for (size_t i = 0; i < n; i++) {
        rnd = rnd * 6364136223846793005UL + 1442695040888963407UL;
        ((unsigned char *)b)[i] = rnd >> 56;
    }
    return n;
}
int getentropy(void *b, size_t n)
{
    REAL(int, getentropy, void *, size_t);
    if (!rnd_on || !active()) return real_getentropy(b, n);
    return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
}

/* ---- the machine */

int uname(struct utsname *u)
{
    REAL(int, uname, struct utsname *);
    int r = real_uname(u);
    if (!host[0] || r) return r;
    snprintf(u->nodename, sizeof u->nodename, "%s", host);
    snprintf(u->release, sizeof u->release, "6.%d.0-sim", (int)strlen(host));
    snprintf(u->version, sizeof u->version, "#%d SMP", (int)strlen(host));
    return 0;
}
int gethostname(char *b, size_t n)
{
    REAL(int, gethostname, char *, size_t);
    if (!host[0]) return real_gethostname(b, n);
    snprintf(b, n, "%s", host);
    return 0;
}
long sysconf(int k)
{
    REAL(long, sysconf, int);
    if (cpus && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return cpus;
    return real_sysconf(k);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m)
{
    REAL(int, sched_getaffinity, pid_t, size_t, cpu_set_t *);
    if (!cpus) return real_sched_getaffinity(p, n, m);
    memset(m, 0, n);
    for (long i = 0; i < cpus && i < (long)n * 8; i++) ((unsigned char *)m)[i / 8] |= 1 << i % 8;
    return 0;
}
int isatty(int fd)
{
    REAL(int, isatty, int);
    if (tty && fd >= 0 && fd <= 2) return 1;
    return real_isatty(fd);
}
int ioctl(int fd, unsigned long req, ...)
{
    REAL(int, ioctl, int, unsigned long, ...);
    va_list ap;
    va_start(ap, req);
    void *p = va_arg(ap, void *);
    va_end(ap);
    if (tty && fd >= 0 && fd <= 2 && req == TIOCGWINSZ) {
        struct winsize *w = p;
        memset(w, 0, sizeof *w);
        w->ws_col = tty;
        w->ws_row = 24;
        return 0;
    }
    return real_ioctl(fd, req, p);
}

/* ---- control */

void simio_stop(void) { on = 0; }
long simio_count(void) { return counter; }

int simio_start(const char *conf)
{
    char buf[16384], *save = 0;
    on = 0;
    nroots = nfaults = full = 0;
    counter = 0;
    clock_off = fake_pid = 0;
    rnd_on = 0;
    host[0] = 0;
    cpus = tty = 0;
    gate_r = gate_w = -1;
    for (int i = 0; i < MAXFD; i++) if (fdpath[i]) { free(fdpath[i]); fdpath[i] = 0; }
    if (logbuf) munmap(logbuf, LOGSZ);
    logbuf = 0;
    if (strlen(conf) >= sizeof buf) return -1;
    strcpy(buf, conf);
    for (char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(0, "\n", &save)) {
        char *s2 = 0, *k = strtok_r(l, "\t", &s2);
        char *a[4] = {0, 0, 0, 0};
        for (int i = 0; i < 4; i++) a[i] = strtok_r(0, "\t", &s2);
        if (!k || !a[0]) continue;
        if (!strcmp(k, "trace")) {
            int fd = syscall(SYS_openat, AT_FDCWD, a[0], O_RDWR | O_CREAT | O_CLOEXEC, 0600);
            if (fd < 0) return -2;
            if (syscall(SYS_ftruncate, fd, LOGSZ)) return -3;
            void *m = (void *)syscall(SYS_mmap, 0, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            syscall(SYS_close, fd);
            if (m == MAP_FAILED) return -4;
            logbuf = m;
            *(long *)logbuf = 0;
        } else if (!strcmp(k, "root") && nroots < 8) {
            snprintf(roots[nroots++], 512, "%s", a[0]);
        } else if (!strcmp(k, "watch")) {
            char nm[32];
            snprintf(nm, sizeof nm, "fd:%s", a[0]);
            track(atoi(a[0]), nm);
        } else if (!strcmp(k, "clock")) clock_off = atol(a[0]);
        else if (!strcmp(k, "rand")) { rnd = strtoul(a[0], 0, 10); rnd_on = 1; }
        else if (!strcmp(k, "gate") && a[1]) { gate_r = atoi(a[0]); gate_w = atoi(a[1]); }
        else if (!strcmp(k, "host")) snprintf(host, sizeof host, "%s", a[0]);
        else if (!strcmp(k, "cpus")) cpus = atol(a[0]);
        else if (!strcmp(k, "tty")) tty = atol(a[0]);
        else if (!strcmp(k, "full")) full = atoi(a[0]);
        else if (!strcmp(k, "pid")) fake_pid = atol(a[0]);
        else if (nfaults < MAXF) {
            struct fault *f = &faults[nfaults];
            memset(f, 0, sizeof *f);
            f->n = atol(a[0]);
            f->count = 1;
            if (!strcmp(k, "err") && a[3]) { f->kind = F_ERR; f->err = atoi(a[1]); f->count = atoi(a[2]); f->sticky = atoi(a[3]); }
            else if (!strcmp(k, "short") && a[2]) { f->kind = F_SHORT; f->err = atoi(a[1]); f->sticky = atoi(a[2]); }
            else if (!strcmp(k, "unlink") && a[1]) { f->kind = F_UNLINK; snprintf(f->a, 512, "%s", a[1]); }
            else if (!strcmp(k, "rename") && a[2]) { f->kind = F_RENAME; snprintf(f->a, 512, "%s", a[1]); snprintf(f->b, 512, "%s", a[2]); }
            else if (!strcmp(k, "sig") && a[1]) { f->kind = F_SIG; f->err = atoi(a[1]); }
            else continue;
            nfaults++;
        }
    }
    owner = syscall(SYS_getpid);
    on = 1;
    return 0;
}

__attribute__((constructor)) static void init(void)
{
    const char *c = getenv("SIMIO_CONF");
    static char copy[16384];
    if (c && strlen(c) < sizeof copy) strcpy(copy, c);
    if (getenv("SIMIO_ONCE")) {
        /* the processes it starts run undisturbed */
        unsetenv("LD_PRELOAD");
        unsetenv("SIMIO_CONF");
        unsetenv("SIMIO_ONCE");
    }
    if (copy[0]) simio_start(copy);
}
