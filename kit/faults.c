/* Interposes the system calls of the tool on files below FI_ROOT (and on standard output with FI_STDOUT): records each in
   FI_LOG and makes the FI_AT'th one of kind FI_OP fail, be short, be interrupted or be the last thing the process does. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NFD 1024
static char *names[NFD];
static char writable[NFD];
static char root[PATH_MAX], op[32], kind[32];
static int at = -1, logfd = -1, std_out, every, delay;
static unsigned long seed;
static atomic_int count;
static int ready;

static void setup(void) {
    if (ready) return;
    ready = 1;
    const char *s;
    if ((s = getenv("FI_ROOT"))) snprintf(root, sizeof root, "%s/", s);
    if ((s = getenv("FI_OP"))) snprintf(op, sizeof op, "%s", s);
    if ((s = getenv("FI_KIND"))) snprintf(kind, sizeof kind, "%s", s);
    if ((s = getenv("FI_AT"))) at = atoi(s);
    if ((s = getenv("FI_EVERY"))) every = atoi(s);
    if ((s = getenv("FI_DELAY"))) delay = atoi(s);
    if ((s = getenv("FI_SEED"))) seed = strtoul(s, 0, 10);
    if ((s = getenv("FI_STDOUT"))) std_out = atoi(s);
    if ((s = getenv("FI_LOG"))) {
        int f = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if (f >= 0) {
            logfd = fcntl(f, F_DUPFD_CLOEXEC, 500);
            syscall(SYS_close, f);
        }
    }
    if (std_out) { names[1] = strdup("<stdout>"); writable[1] = 1; }
}

__attribute__((constructor)) static void init(void) { setup(); }

static int below(const char *path, char *full, size_t n) {
    setup();
    if (!root[0] || !path) return 0;
    if (path[0] == '/') snprintf(full, n, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        snprintf(full, n, "%s/%s", cwd, path);
    }
    return strncmp(full, root, strlen(root)) == 0;
}

static void note(const char *what, const char *path, long r, int e, const char *inj) {
    if (logfd < 0) return;
    char b[PATH_MAX + 200];
    int n = snprintf(b, sizeof b, "%s\t%s\t%ld\t%d\t%ld\t%s\n", what, path, r, e, syscall(SYS_gettid), inj);
    syscall(SYS_write, logfd, b, n);
}

/* 0: do it; 1: fail with errno; 2: short */
static int hit(const char *what, const char *path) {
    if (delay) {
        /* threads are held up by different amounts at different calls */
        static atomic_ulong calls;
        unsigned long x = (seed + 0x9e3779b97f4a7c15UL * (atomic_fetch_add(&calls, 1) + 1)) ^ (unsigned long)syscall(SYS_gettid);
        x ^= x >> 31; x *= 0xbf58476d1ce4e5b9UL; x ^= x >> 29;
        if (x % (strcmp(what, "write") ? 4 : 128) == 0) {
            struct timespec t = {0, (long)(x / 128 % delay) * 1000};
            nanosleep(&t, NULL);
        }
    }
    if (strcmp(what, op)) return 0;
    int k = atomic_fetch_add(&count, 1);
    if (every < 0 ? k < at : every ? k % every != at % every : k != at) return 0;
    if (!strcmp(kind, "end")) {
        note(what, path, -1, 0, "end");
        _exit(77);
    }
    if (!strcmp(kind, "short")) return 2;
    if (!strcmp(kind, "again")) { errno = EINTR; note(what, path, -1, EINTR, "again"); return 1; }
    errno = atoi(kind);
    note(what, path, -1, errno, "fail");
    return 1;
}

#define REAL(T, f) static T real; if (!real) real = (T)dlsym(RTLD_NEXT, f)

static int opened(int fd, const char *full, int flags) {
    int e = errno;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    note(w ? "openw" : "open", full, fd, fd < 0 ? e : 0, "");
    if (fd >= 0 && fd < NFD) {
        char *o = names[fd];
        names[fd] = strdup(full);
        writable[fd] = w;
        free(o);
    }
    errno = e;
    return fd;
}

#define OPENBODY(call) \
    char full[PATH_MAX * 2]; \
    int in = below(path, full, sizeof full); \
    if (in && hit((flags & O_ACCMODE) != O_RDONLY ? "openw" : "open", full)) return -1; \
    int fd = (call); \
    return in ? opened(fd, full, flags) : fd;

#define MODE mode_t mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }

int open(const char *path, int flags, ...) { MODE OPENBODY(syscall(SYS_openat, AT_FDCWD, path, flags, mode)) }
int open64(const char *path, int flags, ...) { MODE OPENBODY(syscall(SYS_openat, AT_FDCWD, path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { MODE
    if (d != AT_FDCWD) return syscall(SYS_openat, d, path, flags, mode);
    OPENBODY(syscall(SYS_openat, d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { MODE
    if (d != AT_FDCWD) return syscall(SYS_openat, d, path, flags, mode);
    OPENBODY(syscall(SYS_openat, d, path, flags, mode)) }

int close(int fd) {
    if (fd >= 3 && fd < NFD && names[fd]) {
        char *o = names[fd];
        note("close", o, 0, 0, "");
        names[fd] = NULL;
        free(o);
    }
    return syscall(SYS_close, fd);
}

static const char *of(int fd) { return fd >= 0 && fd < NFD ? names[fd] : NULL; }

ssize_t read(int fd, void *b, size_t n) {
    const char *p = of(fd);
    int h = p ? hit("read", p) : 0;
    if (h == 1) return -1;
    if (h == 2 && n > 1) n = n < 7 ? 1 : 7;
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (p) { int e = errno; note("read", p, r, r < 0 ? e : 0, h ? "short" : ""); errno = e; }
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    const char *p = of(fd);
    int h = p ? hit("write", p) : 0;
    if (h == 1) return -1;
    if (h == 2 && n > 1) n = n < 14 ? 1 : n / 2;
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (p) { int e = errno; note("write", p, r, r < 0 ? e : 0, h ? "short" : ""); errno = e; }
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    const char *p = of(fd);
    int h = p ? hit("write", p) : 0;
    if (h == 1) return -1;
    ssize_t r = syscall(SYS_writev, fd, v, h == 2 && c > 1 ? 1 : c);
    if (p) { int e = errno; note("write", p, r, r < 0 ? e : 0, h ? "short" : ""); errno = e; }
    return r;
}

ssize_t copy_file_range(int in, off64_t *oi, int outf, off64_t *oo, size_t n, unsigned fl) {
    const char *p = of(outf);
    int h = p ? hit("write", p) : 0;
    if (h == 1) return -1;
    if (h == 2 && n > 1) n = 7;
    ssize_t r = syscall(SYS_copy_file_range, in, oi, outf, oo, n, fl);
    if (p) { int e = errno; note("write", p, r, r < 0 ? e : 0, h ? "short" : ""); errno = e; }
    return r;
}

ssize_t sendfile64(int outf, int in, off64_t *o, size_t n) {
    const char *p = of(outf);
    int h = p ? hit("write", p) : 0;
    if (h == 1) return -1;
    if (h == 2 && n > 1) n = 7;
    ssize_t r = syscall(SYS_sendfile, outf, in, o, n);
    if (p) { int e = errno; note("write", p, r, r < 0 ? e : 0, h ? "short" : ""); errno = e; }
    return r;
}
ssize_t sendfile(int outf, int in, off_t *o, size_t n) { return sendfile64(outf, in, o, n); }

int mkdir(const char *path, mode_t m) {
    char full[PATH_MAX * 2];
    int in = below(path, full, sizeof full);
    if (in && hit("mkdir", full)) return -1;
    int r = syscall(SYS_mkdirat, AT_FDCWD, path, m);
    if (in) { int e = errno; note("mkdir", full, r, r < 0 ? e : 0, ""); errno = e; }
    return r;
}

int rename(const char *a, const char *b) {
    char full[PATH_MAX * 2];
    int in = below(b, full, sizeof full);
    if (in && hit("rename", full)) return -1;
    int r = syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
    if (in) { int e = errno; note("rename", full, r, r < 0 ? e : 0, ""); errno = e; }
    return r;
}

int unlink(const char *path) {
    char full[PATH_MAX * 2];
    int in = below(path, full, sizeof full);
    int r = syscall(SYS_unlinkat, AT_FDCWD, path, 0);
    if (in) { int e = errno; note("unlink", full, r, r < 0 ? e : 0, ""); errno = e; }
    return r;
}
