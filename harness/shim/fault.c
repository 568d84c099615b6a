// LD_PRELOAD: faults and death at a given point of the file operations on the files below JV_DIR (and TMPDIR).
//   JV_FAULT=KIND:N:ERRNO:K (K >= 0: and dies K operations after the operation N, for errop)
//   killbyte  dies once N bytes were written (a write which crosses is cut there)
//   errbyte   the write which crosses N bytes is cut there, this and the later writes fail
//   oncebyte  the same, only one write fails
//   killop    dies before the operation number N (open for writing, write, seek, rename, truncation, copy, close, unlink)
//   errop     the operation number N fails (once)
//   errops    the operations from number N fail
//   short     every write is cut to at most N bytes
//   intr      every other write is interrupted (EINTR)
//   inread    the read number N of a file below JV_IN fails (ERRNO 0: ends)
// JV_COUNT: file where "bytes ops reads" is written at each change.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static const char *dir, *in, *tmp, *kind;
static long n, then = -1;
static int err, flip;
static long *shared; // bytes, ops, reads, whether the names could not be caught
static unsigned char mine[4096], input[4096];

static void init(void) {
    static int done;
    if (done) return;
    done = 1;
    dir = getenv("JV_DIR");
    in = getenv("JV_IN");
    tmp = getenv("TMPDIR");
    kind = "";
    const char *f = getenv("JV_FAULT");
    static char k[32];
    if (f && sscanf(f, "%31[^:]:%ld:%d:%ld", k, &n, &err, &then) >= 2) kind = k;
    static long local[8];
    shared = local;
    const char *c = getenv("JV_COUNT");
    if (c) {
        int (*ropen)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
        int (*rclose)(int) = dlsym(RTLD_NEXT, "close");
        int fd = ropen(c, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 64) == 0) shared = mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (fd >= 0) rclose(fd);
    }
}
static void die(void) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}
#define IS(x) (!strcmp(kind, x))
// one more operation: 1 when it has to fail
static int op(void) {
    long k = shared[1]++;
    if (IS("killop") && k == n) die();
    if (IS("errop") && then >= 0 && k == n + 1 + then) die();
    if (IS("errop") && k == n) return 1;
    if (IS("errops") && k >= n) return 1;
    return 0;
}
// (relative names are below the directory: the creator runs in it)
static int below(const char *d, const char *p) { return d && p && (*p != '/' ? d == dir && *p : !strncmp(p, d, strlen(d)) || (d == dir && tmp && !strncmp(p, tmp, strlen(tmp)))); }

static void track(int fd, const char *path) {
    if (fd >= 0 && fd < 4096) {
        mine[fd] = below(dir, path);
        input[fd] = below(in, path);
    }
}
static int has(int fd) { init(); return fd >= 0 && fd < 4096 && mine[fd]; }

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    static int (*real)(const char *, int, ...); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    init(); \
    va_list a; va_start(a, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    pthread_mutex_lock(&m); \
    if (below(dir, path) && (flags & O_ACCMODE) != O_RDONLY && op()) { pthread_mutex_unlock(&m); errno = err; return -1; } \
    int fd = real(path, flags, mode); \
    track(fd, path); \
    pthread_mutex_unlock(&m); \
    return fd; \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) { \
    static int (*real)(int, const char *, int, ...); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    init(); \
    va_list a; va_start(a, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    pthread_mutex_lock(&m); \
    if (below(dir, path) && (flags & O_ACCMODE) != O_RDONLY && op()) { pthread_mutex_unlock(&m); errno = err; return -1; } \
    int fd = real(d, path, flags, mode); \
    track(fd, path); \
    pthread_mutex_unlock(&m); \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)

// how many of the `want` bytes may be written; -1: none, it fails
static long allow(long want) {
    if (op()) return -1;
    long b = shared[0];
    if (IS("killbyte")) return b + want > n ? (n > b ? n - b : 0) : want;
    if (IS("errbyte")) return b + want > n ? (n > b ? n - b : -1) : want;
    if (IS("oncebyte") && !flip) { if (b + want > n) { if (n > b) return n - b; flip = 1; return -1; } return want; }
    if (IS("short")) return want > n ? n : want;
    if (IS("intr")) { flip = !flip; if (flip) { errno = EINTR; return -2; } }
    return want;
}
#define WRITING(call) \
    pthread_mutex_lock(&m); \
    long k = allow((long)len); \
    if (k < 0) { int e = k == -2 ? EINTR : err; pthread_mutex_unlock(&m); errno = e; return -1; } \
    ssize_t r = k ? (call) : 0; \
    int e = errno; \
    if (r > 0) shared[0] += r; \
    if (IS("killbyte") && shared[0] >= n && (size_t)k < len) die(); \
    pthread_mutex_unlock(&m); \
    errno = e; \
    return r;

ssize_t write(int fd, const void *buf, size_t len) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (!has(fd)) return real(fd, buf, len);
    WRITING(real(fd, buf, k))
}
ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t off) {
    static ssize_t (*real)(int, const void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pwrite64");
    if (!has(fd)) return real(fd, buf, len, off);
    WRITING(real(fd, buf, k, off))
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = dlsym(RTLD_NEXT, "writev");
    if (!has(fd) || c == 0) return real(fd, v, c);
    // only the first part
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t copy_file_range(int fi, off64_t *oi, int fd, off64_t *oo, size_t len, unsigned fl) {
    static ssize_t (*real)(int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!real) real = dlsym(RTLD_NEXT, "copy_file_range");
    if (!has(fd)) return real(fi, oi, fd, oo, len, fl);
    // (the length asked is often the largest one)
    if (len > (1 << 20)) len = 1 << 20;
    WRITING(real(fi, oi, fd, oo, k, fl))
}
ssize_t sendfile64(int fd, int fi, off64_t *oi, size_t len) {
    static ssize_t (*real)(int, int, off64_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile64");
    if (!has(fd)) return real(fd, fi, oi, len);
    if (len > (1 << 20)) len = 1 << 20;
    WRITING(real(fd, fi, oi, k))
}
ssize_t read(int fd, void *buf, size_t len) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    init();
    // (an own file does not end early)
    if (fd >= 0 && fd < 4096 && (input[fd] || (mine[fd] && (err || !IS("inread"))))) {
        pthread_mutex_lock(&m);
        long k = shared[2]++;
        int bad = IS("inread") && k == n;
        pthread_mutex_unlock(&m);
        if (bad) { errno = err; return err ? -1 : 0; }
    }
    return real(fd, buf, len);
}
#define OPFD(ret, name, args, call) \
ret name args { \
    static ret (*real) args; \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (has(fd)) { \
        pthread_mutex_lock(&m); \
        int bad = op(); \
        pthread_mutex_unlock(&m); \
        if (bad) { errno = err; return -1; } \
    } \
    return call; \
}
OPFD(off64_t, lseek64, (int fd, off64_t off, int w), real(fd, off, w))
OPFD(int, ftruncate64, (int fd, off64_t off), real(fd, off))
OPFD(int, fsync, (int fd), real(fd))
OPFD(int, fdatasync, (int fd), real(fd))
int close(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "close");
    int bad = 0;
    if (has(fd)) {
        pthread_mutex_lock(&m);
        bad = op();
        mine[fd] = 0;
        pthread_mutex_unlock(&m);
    }
    if (fd >= 0 && fd < 4096) input[fd] = 0;
    int r = real(fd);
    if (bad) { errno = err; return -1; }
    return r;
}

// The names of files: caught below the C library (some crates call the kernel directly), a trapped call is done again
// from here with a mark in an unused argument.
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
#define MARK 0x4a56
static void trapped(int sig, siginfo_t *si, void *ctx) {
    (void)sig;
    greg_t *g = ((ucontext_t *)ctx)->uc_mcontext.gregs;
    int saved = errno;
    long nr = si->si_syscall, a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8];
    const char *path = nr == SYS_rename || nr == SYS_link ? (char *)b : nr == SYS_unlink ? (char *)a : nr == SYS_unlinkat ? (char *)b : (char *)d;
    int bad = 0;
    if (below(dir, path)) {
        pthread_mutex_lock(&m);
        bad = op();
        pthread_mutex_unlock(&m);
    }
    long r = bad ? -err : syscall(nr, a, b, c, d, e, MARK) < 0 ? -errno : 0;
    g[REG_RAX] = r;
    errno = saved;
}
static const int names[] = {SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_unlink, SYS_unlinkat};
#define NN ((int)(sizeof names / sizeof *names))
__attribute__((constructor)) static void start(void) {
    init();
    if (!dir) return;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = trapped;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, 0);
    struct sock_filter f[NN + 8];
    int k = 0;
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[5]));
    f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MARK, NN + 1, 0);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < NN; i++) f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, names[i], NN - i, 0);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog prog = {k, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) shared[3] = 1;
}
