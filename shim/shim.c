// Preload library: counts, logs, fails and schedules the file system calls of one process.
//  TV_LOG=path     appends one line per counted call: number, name, path
//  TV_FAULT=n:k,.. injects fault k at counted call n (k: kill before, K: kill after, t: half write then kill,
//                  eERRNO: fail, s: half write, z: write nothing and return 0, S: half write, then ENOSPC for all writes;
//                  a number after t, s or S is the number of bytes that are written instead of half of them)
//  TV_READ=n:k     the n-th read of a file: eERRNO fails, s<bytes> returns fewer bytes; n = 0: all reads
//  TV_SCHED=req,grant  every scheduling point writes the 8-byte hash of everything the process has observed of the file
//                  system so far to fd req and waits for a byte from fd grant
//  TV_PERM=n       entries of directories are returned in the n-th permutation of their sorted order
//  TV_RANDOM=n     getrandom returns bytes derived from n
//  TV_GETENV=v     every environment variable that the program asks for is set, to v
//  TV_TIME=n       the time of day is n seconds after 1970
//  TV_TICK=n       every clock goes on by n seconds with every call
//  TV_PID=n        the process id is n
//  TV_TTY=1        all standard streams are terminals
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static const char *lookup(const char *n) {
    size_t l = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return 0;
}
char *getenv(const char *n) {
    static const char *own[] = {"TV_", "LD_", "RUST_", "GLIBC_", "MALLOC_", "LIBC_", 0};
    for (int i = 0; own[i]; i++)
        if (!strncmp(n, own[i], strlen(own[i]))) return (char *)lookup(n);
    const char *all = lookup("TV_GETENV");
    return (char *)(all ? all : lookup(n));
}
char *secure_getenv(const char *n) { return getenv(n); }

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) {
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

#define MAXF 8
static struct { long n; char k; int err; } fault[MAXF];
static int nfault, logfd = -1, reqfd = -1, grantfd = -1, full, active;
static struct { long n; char k; int err; } rfault = {-1, 0, 0};
static long reads;
static long count, perm = -1, rnd = -1;
static unsigned char isfile[4096];
static uint64_t seen = 0xcbf29ce484222325ull;
static void obs(const void *p, size_t n) {
    for (size_t i = 0; i < n; i++) seen = (seen ^ ((const unsigned char *)p)[i]) * 0x100000001b3ull;
}
static char root[600];
// paths without the scratch directory and the process ids of temporary files
static void obspath(const char *p) {
    size_t n = strlen(root);
    if (n && !strncmp(p, root, n)) p += n;
    const char *b = strrchr(p, '/');
    b = b ? b + 1 : p;
    for (const char *q = p; *q; q++)
        if (!(*b == '.' && q > b && *q >= '0' && *q <= '9')) obs(q, 1);
    obs("", 1);
}
static long obsr(long r) {
    long x = r < 0 ? r : 0;
    obs(&x, sizeof x);
    return r;
}
static char fdpath[4096][64];

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("TV_LOG");
    if (!getcwd(root, sizeof root)) root[0] = 0;
    if (s) {
        int f = raw(SYS_open, (long)s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666, 0, 0, 0);
        if (f >= 0) { logfd = raw(SYS_fcntl, f, F_DUPFD_CLOEXEC, 900, 0, 0, 0); raw(SYS_close, f, 0, 0, 0, 0, 0); }
    }
    s = getenv("TV_FAULT");
    while (s && *s && nfault < MAXF) {
        char *e;
        fault[nfault].n = strtol(s, &e, 10);
        if (*e != ':') break;
        fault[nfault].k = e[1];
        e += 2;
        fault[nfault].err = -1;
        if (*e >= '0' && *e <= '9') fault[nfault].err = strtol(e, &e, 10);
        nfault++;
        s = *e == ',' ? e + 1 : 0;
    }
    s = getenv("TV_READ");
    if (s) sscanf(s, "%ld:%c%d", &rfault.n, &rfault.k, &rfault.err);
    s = getenv("TV_SCHED");
    if (s) sscanf(s, "%d,%d", &reqfd, &grantfd);
    s = getenv("TV_PERM");
    if (s) perm = atol(s);
    s = getenv("TV_RANDOM");
    if (s) rnd = atol(s);
    active = 1;
}

static int outside(const char *p) {
    static const char *sys[] = {"/proc", "/lib", "/etc", "/usr", "/dev/null", "/dev/pts", "/dev/tty", "/sys", 0};
    if (!p) return 0;
    for (int i = 0; sys[i]; i++)
        if (!strncmp(p, sys[i], strlen(sys[i]))) return 1;
    return 0;
}
static void logline(const char *op, const char *a, const char *b) {
    if (logfd < 0) return;
    char buf[600];
    int n = snprintf(buf, sizeof buf, "%ld %s %s%s%s\n", count, op, a ? a : "", b ? " -> " : "", b ? b : "");
    raw(SYS_write, logfd, (long)buf, n < (int)sizeof buf ? n : (int)sizeof buf - 1, 0, 0, 0);
}
static void die(void) {
    raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
    for (;;) {}
}
static void point(void) {
    if (reqfd < 0 || !active) return;
    char c;
    raw(SYS_write, reqfd, (long)&seen, 8, 0, 0, 0);
    for (;;) {
        long r = raw(SYS_read, grantfd, (long)&c, 1, 0, 0, 0);
        if (r == 1) return;
        if (r == 0) die();
    }
}
// counts one modifying call; 0: none, otherwise the fault to inject
static int enter(const char *op, const char *a, const char *b, int *err) {
    point();
    count++;
    logline(op, a, b);
    for (int i = 0; i < nfault; i++)
        if (fault[i].n == count) {
            *err = fault[i].err;
            if (fault[i].k == 'k') die();
            return fault[i].k;
        }
    return 0;
}
#define MODIFY(op, a, b, call)                                     \
    do {                                                           \
        int err = 0, k = enter(op, a, b, &err);                    \
        if (k == 'e') { errno = err; return -1; }                  \
        long r_ = obsr(call);                                      \
        if (k == 'K') die();                                       \
        return ret(r_);                                            \
    } while (0)

static const char *name(int fd) { return fd >= 0 && fd < 4096 ? fdpath[fd] : ""; }
static int file(int fd) { return active && fd >= 0 && fd < 4096 && isfile[fd]; }

static int do_open(int at, const char *p, int fl, mode_t m) {
    int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
    if (!active || outside(p)) return ret(raw(SYS_openat, at, (long)p, fl, m, 0, 0));
    int err = 0, k = 0;
    if (wr) {
        k = enter((fl & O_TRUNC) ? "open-trunc" : "open", p, 0, &err);
        if (k == 'e') { errno = err; return -1; }
    } else
        point();
    long r = raw(SYS_openat, at, (long)p, fl, m, 0, 0);
    if (k == 'K') die();
    obsr(r);
    if (r >= 0 && r < 4096) {
        isfile[r] = wr ? 1 : 2;
        snprintf(fdpath[r], sizeof fdpath[r], "%s", p);
    }
    return ret(r);
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

int close(int fd) {
    if (fd == logfd || fd == reqfd || fd == grantfd) return 0;
    int f = file(fd) ? isfile[fd] : 0;
    if (fd >= 0 && fd < 4096) isfile[fd] = 0;
    if (f == 1) {
        int err = 0, k = enter("close", name(fd), 0, &err);
        long r = raw(SYS_close, fd, 0, 0, 0, 0, 0);
        if (k == 'K') die();
        if (k == 'e') { errno = err; return -1; }
        return ret(r);
    }
    return ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}

static ssize_t do_write(long nr, int fd, const void *b, size_t n, long off) {
    if (!file(fd) || isfile[fd] != 1) return ret(raw(nr, fd, (long)b, n, off, 0, 0));
    int err = 0, k = enter("write", name(fd), 0, &err);
    if (k == 'e') { errno = err; return -1; }
    if (full) { errno = ENOSPC; return -1; }
    if (k == 'z') return 0;
    if (k == 't' || k == 's' || k == 'S') {
        long r = raw(nr, fd, (long)b, err >= 0 && err <= (long)n ? err : n / 2, off, 0, 0);
        if (k == 't') die();
        if (k == 'S') full = 1;
        return ret(r);
    }
    long r = raw(nr, fd, (long)b, n, off, 0, 0);
    obs(&r, sizeof r);
    if (k == 'K') die();
    return ret(r);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(SYS_write, fd, b, n, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(SYS_pwrite64, fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!file(fd) || isfile[fd] != 1) return ret(raw(SYS_writev, fd, (long)v, n, 0, 0, 0));
    // one vector is a legal short write
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_write(SYS_write, fd, v[i].iov_base, v[i].iov_len, 0);
    return 0;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!file(fd)) return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
    point();
    reads++;
    if (rfault.n == reads || rfault.n == 0) {
        if (rfault.k == 'e') { errno = rfault.err; return -1; }
        if (rfault.k == 's' && n > (size_t)rfault.err) n = rfault.err;
    }
    long r = raw(SYS_read, fd, (long)b, n, 0, 0, 0);
    obs(&r, sizeof r);
    if (r > 0) obs(b, r);
    return ret(r);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { MODIFY("copy_file_range", name(o), 0, raw(SYS_copy_file_range, i, (long)io, o, (long)oo, n, f)); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (!file(o)) return ret(raw(SYS_sendfile, o, i, (long)off, n, 0, 0));
    MODIFY("sendfile", name(o), 0, raw(SYS_sendfile, o, i, (long)off, n, 0, 0));
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
int rename(const char *a, const char *b) { MODIFY("rename", a, b, raw(SYS_rename, (long)a, (long)b, 0, 0, 0, 0)); }
int renameat(int x, const char *a, int y, const char *b) { MODIFY("rename", a, b, raw(SYS_renameat, x, (long)a, y, (long)b, 0, 0)); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { MODIFY("rename", a, b, raw(SYS_renameat2, x, (long)a, y, (long)b, f, 0)); }
int unlink(const char *a) { MODIFY("unlink", a, 0, raw(SYS_unlink, (long)a, 0, 0, 0, 0, 0)); }
int unlinkat(int d, const char *a, int f) { MODIFY("unlink", a, 0, raw(SYS_unlinkat, d, (long)a, f, 0, 0, 0)); }
int remove(const char *a) { return unlink(a); }
int rmdir(const char *a) { MODIFY("rmdir", a, 0, raw(SYS_rmdir, (long)a, 0, 0, 0, 0, 0)); }
int mkdir(const char *a, mode_t m) { MODIFY("mkdir", a, 0, raw(SYS_mkdir, (long)a, m, 0, 0, 0, 0)); }
int link(const char *a, const char *b) { MODIFY("link", a, b, raw(SYS_link, (long)a, (long)b, 0, 0, 0, 0)); }
int linkat(int x, const char *a, int y, const char *b, int f) { MODIFY("link", a, b, raw(SYS_linkat, x, (long)a, y, (long)b, f, 0)); }
int symlink(const char *a, const char *b) { MODIFY("symlink", a, b, raw(SYS_symlink, (long)a, (long)b, 0, 0, 0, 0)); }
int chmod(const char *a, mode_t m) { MODIFY("chmod", a, 0, raw(SYS_chmod, (long)a, m, 0, 0, 0, 0)); }
int fchmod(int fd, mode_t m) { MODIFY("fchmod", name(fd), 0, raw(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
int truncate(const char *a, off_t n) { MODIFY("truncate", a, 0, raw(SYS_truncate, (long)a, n, 0, 0, 0, 0)); }
int truncate64(const char *a, off_t n) { return truncate(a, n); }
int ftruncate(int fd, off_t n) { MODIFY("ftruncate", name(fd), 0, raw(SYS_ftruncate, fd, n, 0, 0, 0, 0)); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fsync(int fd) { MODIFY("fsync", name(fd), 0, raw(SYS_fsync, fd, 0, 0, 0, 0, 0)); }
int fdatasync(int fd) { MODIFY("fsync", name(fd), 0, raw(SYS_fdatasync, fd, 0, 0, 0, 0, 0)); }

// observations of the shared state are scheduling points
int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    const char *volatile q = p;
    int shared = active && q && *q && !outside(q);
    if (shared) point();
    long r = raw(SYS_statx, d, (long)p, f, m, (long)b, 0);
    if (shared) {
        obsr(r);
        if (r == 0) { obs(&b->stx_mode, sizeof b->stx_mode); obs(&b->stx_size, sizeof b->stx_size); }
    } else if (active && d >= 0 && d < 4096 && isfile[d] && r == 0)
        obs(&b->stx_size, sizeof b->stx_size);
    return ret(r);
}
char *realpath(const char *p, char *out) {
    static char *(*next)(const char *, char *);
    if (!next) next = dlsym(RTLD_NEXT, "realpath");
    if (!outside(p)) point();
    char *r = next(p, out);
    if (r) obspath(r); else obsr(-errno);
    return r;
}
DIR *opendir(const char *p) {
    static DIR *(*next)(const char *);
    if (!next) next = dlsym(RTLD_NEXT, "opendir");
    if (!outside(p)) point();
    DIR *r = next(p);
    if (!r) obsr(-errno);
    return r;
}

// directories in a chosen order
struct listing { DIR *d; struct dirent64 *e; int n, i; };
static struct listing ls[16];
static int cmp(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static struct dirent64 *listed(DIR *d) {
    static struct dirent64 *(*next)(DIR *);
    if (!next) next = dlsym(RTLD_NEXT, "readdir64");
    if (perm < 0) return next(d);
    struct listing *l = 0;
    for (int i = 0; i < 16; i++)
        if (ls[i].d == d) l = &ls[i];
    if (!l) {
        for (int i = 0; i < 16 && !l; i++)
            if (!ls[i].d) l = &ls[i];
        if (!l) return next(d);
        l->d = d;
        struct dirent64 *x;
        int cap = 0;
        while ((x = next(d))) {
            if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
            if (l->n == cap) l->e = realloc(l->e, (cap = cap * 2 + 16) * sizeof *x);
            memcpy(&l->e[l->n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
        }
        qsort(l->e, l->n, sizeof *x, cmp);
        // factorial number system
        long k = perm;
        for (int i = 0; i < l->n; i++) {
            long f = 1;
            for (int j = 2; j < l->n - i && f < 1000000000; j++) f *= j;
            int j = i + (int)((k / f) % (l->n - i));
            k %= f;
            struct dirent64 t = l->e[j];
            memmove(&l->e[i + 1], &l->e[i], (j - i) * sizeof t);
            l->e[i] = t;
        }
    }
    errno = 0;
    return l->i < l->n ? &l->e[l->i++] : 0;
}
struct dirent64 *readdir64(DIR *d) {
    struct dirent64 *e = listed(d);
    if (e) obspath(e->d_name);
    return e;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    static int (*next)(DIR *);
    if (!next) next = dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 16; i++)
        if (ls[i].d == d) { ls[i].d = 0; ls[i].n = ls[i].i = 0; free(ls[i].e); ls[i].e = 0; }
    return next(d);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    static long ticks;
    int real = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
    const char *s = real ? lookup("TV_TIME") : 0, *k = lookup("TV_TICK");
    if (s) {
        t->tv_sec = atoll(s);
        t->tv_nsec = 0;
    } else {
        int r = ret(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
        if (r) return r;
    }
    if (k) t->tv_sec += atol(k) * ticks++;
    return 0;
}
pid_t getpid(void) {
    const char *s = lookup("TV_PID");
    return s ? atoi(s) : raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
}
int isatty(int fd) {
    const char *s = lookup("TV_TTY");
    if (s) return fd >= 0 && fd <= 2;
    char b[256];
    return !ret(raw(SYS_ioctl, fd, 0x5401 /* TCGETS */, (long)b, 0, 0, 0));
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec x;
    (void)z;
    int r = clock_gettime(CLOCK_REALTIME, &x);
    t->tv_sec = x.tv_sec;
    t->tv_usec = x.tv_nsec / 1000;
    return r;
}
time_t time(time_t *t) {
    struct timespec x;
    clock_gettime(CLOCK_REALTIME, &x);
    if (t) *t = x.tv_sec;
    return x.tv_sec;
}

static long fill(void *b, size_t n) {
    static uint64_t s;
    if (!s) s = 0x9E3779B97F4A7C15ull * (rnd + 1);
    for (size_t i = 0; i < n; i++) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        ((unsigned char *)b)[i] = s >> 32;
    }
    return n;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (rnd >= 0) return fill(b, n);
    return ret(raw(SYS_getrandom, (long)b, n, f, 0, 0, 0));
}
long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    switch (n) {
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_statx: return statx(a, (const char *)b, c, d, (struct statx *)e);
    case SYS_renameat2: return renameat2(a, (const char *)b, c, (const char *)d, e);
    case SYS_copy_file_range: return copy_file_range(a, (off64_t *)b, c, (off64_t *)d, e, f);
    case SYS_openat: return do_open(a, (const char *)b, c, d);
    }
    return ret(raw(n, a, b, c, d, e, f));
}
