/* Stand-in for the file system calls of the stuart binary (LD_PRELOAD): numbers the calls which touch the
 * project, and can list directories in any order, fail or shorten the n-th call, or end the process there.
 *
 * FS_ROOT   only calls on paths below this directory count
 * FS_TRACE  file to which every counted call is appended
 * FS_AT     number of the call to disturb
 * FS_DO     err:<errno> | sticky:<errno> | kill | torn:<percent> | stop | none
 * FS_FROM   only calls after the creation of this file count
 * FS_MAIN   only calls of the main thread count
 * FS_CHUNK  largest transfer of read and write
 * FS_EINTR  if set, every other read, write and open is interrupted
 * FS_ORDER  <directory>=<permutation>;... with directories relative to FS_ROOT
 * FS_PORT   replaces the port 6904 of bind
 * FS_WEB    replaces the port 80 of connections to 127.0.0.1
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netinet/in.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#undef open
#undef openat
#undef stat64

static char root[PATH_MAX], *order_spec, *from;
static size_t root_len;
static int trace_fd = -1, enabled;
static long at = -1, counter;
static enum { NONE, ERR, STICKY, KILL, TORN, STOP } what;
static int code;
static size_t chunk;
static int eintr, port, web, main_only;
static char inside_fd[4096];
static char *fd_path[4096];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(int, close, int);
REAL(DIR *, opendir, const char *);
REAL(DIR *, fdopendir, int);
REAL(int, closedir, DIR *);
REAL(struct dirent64 *, readdir64, DIR *);
REAL(int, statx, int, const char *, int, unsigned, struct statx *);
REAL(int, stat64, const char *, struct stat64 *);
REAL(int, lstat64, const char *, struct stat64 *);
REAL(int, fstat64, int, struct stat64 *);
REAL(int, fstatat64, int, const char *, struct stat64 *, int);
REAL(int, mkdir, const char *, mode_t);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(int, rmdir, const char *);
REAL(char *, realpath, const char *, char *);
REAL(int, rename, const char *, const char *);
REAL(int, link, const char *, const char *);
REAL(int, linkat, int, const char *, int, const char *, int);
REAL(int, symlink, const char *, const char *);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, chmod, const char *, mode_t);
REAL(int, fchmod, int, mode_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, bind, int, const struct sockaddr *, socklen_t);
REAL(int, connect, int, const struct sockaddr *, socklen_t);
REAL(int, access, const char *, int);

#define LOAD(name) real_##name = dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
    LOAD(open); LOAD(open64); LOAD(openat); LOAD(openat64); LOAD(read); LOAD(readv); LOAD(pread64); LOAD(write); LOAD(writev); LOAD(pwrite64);
    LOAD(close); LOAD(opendir); LOAD(fdopendir); LOAD(closedir); LOAD(readdir64); LOAD(statx); LOAD(stat64); LOAD(lstat64); LOAD(fstat64);
    LOAD(fstatat64); LOAD(mkdir); LOAD(unlink); LOAD(unlinkat); LOAD(rmdir); LOAD(realpath); LOAD(rename); LOAD(link); LOAD(linkat); LOAD(symlink);
    LOAD(copy_file_range); LOAD(sendfile64); LOAD(ftruncate64); LOAD(chmod); LOAD(fchmod); LOAD(fsync); LOAD(fdatasync); LOAD(bind); LOAD(connect); LOAD(access);
    char *v;
    if ((v = getenv("FS_ROOT"))) {
        strncpy(root, v, sizeof root - 1);
        root_len = strlen(root);
        enabled = 1;
    }
    if ((v = getenv("FS_TRACE"))) trace_fd = syscall(SYS_openat, AT_FDCWD, v, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if ((v = getenv("FS_AT"))) at = atol(v);
    if ((v = getenv("FS_DO"))) {
        if (!strncmp(v, "err:", 4)) what = ERR, code = atoi(v + 4);
        else if (!strncmp(v, "sticky:", 7)) what = STICKY, code = atoi(v + 7);
        else if (!strcmp(v, "kill")) what = KILL;
        else if (!strcmp(v, "stop")) what = STOP;
        else if (!strncmp(v, "torn:", 5)) what = TORN, code = atoi(v + 5);
    }
    if ((v = getenv("FS_CHUNK"))) chunk = atol(v);
    if ((v = getenv("FS_EINTR"))) eintr = atoi(v);
    if ((v = getenv("FS_PORT"))) port = atoi(v);
    if ((v = getenv("FS_WEB"))) web = atoi(v);
    if ((v = getenv("FS_FROM"))) from = strdup(v);
    if (getenv("FS_MAIN")) main_only = 1;
    if ((v = getenv("FS_ORDER"))) order_spec = strdup(v);
    /* neither the program nor its children see any of this */
    char *names[] = {"FS_ROOT", "FS_TRACE", "FS_AT", "FS_DO", "FS_CHUNK", "FS_EINTR", "FS_ORDER", "FS_PORT", "FS_WEB", "FS_MAIN", "FS_FROM", "LD_PRELOAD"};
    for (unsigned i = 0; i < sizeof names / sizeof *names; i++) unsetenv(names[i]);
}

static int path_in(const char *p) {
    if (!enabled || !p) return 0;
    if (p[0] != '/') {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        return !strncmp(cwd, root, root_len) && (cwd[root_len] == 0 || cwd[root_len] == '/');
    }
    return !strncmp(p, root, root_len) && (p[root_len] == 0 || p[root_len] == '/');
}
static int fd_in(int fd) { return enabled && fd >= 0 && fd < 4096 && inside_fd[fd]; }
static int at_in(int fd, const char *p) { return p && p[0] && p[0] != '/' && fd != AT_FDCWD ? fd_in(fd) : p && !p[0] ? fd_in(fd) : path_in(p); }
static const char *fd_name(int fd) { return fd >= 0 && fd < 4096 && fd_path[fd] ? fd_path[fd] : "?"; }

/* the path of an argument of an -at call */
static const char *full(int d, const char *p) {
    static __thread char b[PATH_MAX];
    if (!p || !p[0]) return fd_name(d);
    if (p[0] == '/' || d == AT_FDCWD) return p;
    snprintf(b, sizeof b, "%s/%s", fd_name(d), p);
    return b;
}

static void remember(int fd, int dir, const char *p) {
    if (fd < 0 || fd >= 4096) return;
    inside_fd[fd] = 1;
    free(fd_path[fd]);
    fd_path[fd] = 0;
    if (p[0] != '/' && dir != AT_FDCWD) {
        if (asprintf(&fd_path[fd], "%s/%s", fd_name(dir), p) < 0) fd_path[fd] = 0;
    } else
        fd_path[fd] = strdup(p);
}
static void forget(int fd) {
    if (fd >= 0 && fd < 4096) {
        inside_fd[fd] = 0;
        free(fd_path[fd]);
        fd_path[fd] = 0;
    }
}

/* Counts a call; nonzero if it has to fail, with errno set. Flag w: the call writes, and can be torn. */
static int step(const char *op, const char *p, int w) {
    if (main_only && syscall(SYS_gettid) != syscall(SYS_getpid)) return 0;
    if (from) {
        int e = errno, there = !syscall(SYS_faccessat, AT_FDCWD, from, F_OK);
        errno = e;
        if (!there) return 0;
        from = 0;
    }
    long n = ++counter;
    if (trace_fd >= 0) {
        char b[PATH_MAX + 64];
        int l = snprintf(b, sizeof b, "%ld %s %s\n", n, op, p ? p : "?");
        if (l > 0) syscall(SYS_write, trace_fd, b, (size_t)l < sizeof b ? (size_t)l : sizeof b);
    }
    if (at < 0 || n < at) return 0;
    switch (what) {
        case ERR:
            if (n != at) return 0;
            errno = code;
            return 1;
        case STICKY:
            /* from here on, everything that needs space fails */
            if (n != at && !w) return 0;
            errno = code;
            return 1;
        case KILL:
            if (n == at) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
            return 0;
        case STOP:
            if (n == at) syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP);
            return 0;
        default: return 0;
    }
}
static int interrupted(void) {
    static int flip;
    if (!eintr) return 0;
    flip = !flip;
    if (flip) errno = EINTR;
    return flip;
}

static mode_t mode_arg(int flags, va_list ap) { return (flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE ? va_arg(ap, mode_t) : 0; }

static int do_open(int dir, const char *p, int flags, mode_t m) {
    int in = at_in(dir, p);
    if (in) {
        if (interrupted()) return -1;
        if (step(flags & (O_WRONLY | O_RDWR) ? "create" : "open", full(dir, p), flags & (O_CREAT | O_TRUNC) ? 1 : 0)) return -1;
    }
    int fd = real_openat64(dir, p, flags, m);
    if (fd >= 0) {
        if (in) remember(fd, dir, p);
        else forget(fd);
    }
    return fd;
}
int open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = mode_arg(flags, ap); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = mode_arg(flags, ap); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = mode_arg(flags, ap); va_end(ap); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = mode_arg(flags, ap); va_end(ap); return do_open(d, p, flags, m); }

int close(int fd) {
    forget(fd);
    return real_close(fd);
}

ssize_t read(int fd, void *b, size_t n) {
    if (fd_in(fd)) {
        if (interrupted() || step("read", fd_name(fd), 0)) return -1;
        if (chunk && n > chunk) n = chunk;
    }
    return real_read(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (fd_in(fd)) {
        if (interrupted() || step("read", fd_name(fd), 0)) return -1;
        if (chunk && n > chunk) n = chunk;
    }
    return real_pread64(fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (fd_in(fd) && c > 0) return read(fd, v[0].iov_base, v[0].iov_len);
    return real_readv(fd, v, c);
}
static size_t tear(size_t n) {
    return n * code / 100;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd_in(fd)) {
        if (interrupted() || step("write", fd_name(fd), 1)) return -1;
        if (chunk && n > chunk) n = chunk;
        if (what == TORN && counter == at) {
            size_t k = tear(n);
            if (k) real_write(fd, b, k);
            syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        }
    }
    return real_write(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (fd_in(fd)) {
        if (interrupted() || step("write", fd_name(fd), 1)) return -1;
        if (chunk && n > chunk) n = chunk;
        if (what == TORN && counter == at) {
            size_t k = tear(n);
            if (k) real_pwrite64(fd, b, k, o);
            syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        }
    }
    return real_pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd_in(fd) && c > 0) {
        int i = 0;
        while (i < c - 1 && !v[i].iov_len) i++;
        return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return real_writev(fd, v, c);
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (fd_in(a) || fd_in(b)) {
        if (step("copy", fd_name(b), 1)) return -1;
        if (chunk && n > chunk) n = chunk;
    }
    return real_copy_file_range(a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (fd_in(o) || fd_in(i)) {
        if (step("copy", fd_name(o), 1)) return -1;
        if (chunk && n > chunk) n = chunk;
    }
    return real_sendfile64(o, i, off, n);
}

/* ---- directories */
struct listing { DIR *d; struct dirent64 *e; int n, i; struct listing *next; };
static struct listing *lists;

static long order_of(const char *p) {
    if (!order_spec || !p) return -1;
    const char *rel = p;
    if (!strncmp(p, root, root_len)) rel = p + root_len + (p[root_len] == '/');
    size_t l = strlen(rel);
    for (char *s = order_spec; s && *s; s = strchr(s, ';') ? strchr(s, ';') + 1 : 0)
        if (!strncmp(s, rel, l) && s[l] == '=') return atol(s + l + 1);
    return 0;
}
static int by_name(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }

static DIR *opened(DIR *d) {
    long k;
    if (!d || !order_spec || (k = order_of(fd_name(dirfd(d)))) < 0) return d;
    struct listing *l = calloc(1, sizeof *l);
    struct dirent64 *e;
    l->d = d;
    while ((e = real_readdir64(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        l->e = realloc(l->e, (l->n + 1) * sizeof *l->e);
        memcpy(&l->e[l->n], e, e->d_reclen < sizeof *l->e ? e->d_reclen : sizeof *l->e);
        l->n++;
    }
    if (l->n) qsort(l->e, l->n, sizeof *l->e, by_name);
    /* the k-th permutation: selects in turn from what is left */
    struct dirent64 *out = calloc(l->n ? l->n : 1, sizeof *out);
    for (int i = 0, left = l->n; i < l->n; i++, left--) {
        int pick = k % left;
        k /= left;
        out[i] = l->e[pick];
        memmove(&l->e[pick], &l->e[pick + 1], (left - pick - 1) * sizeof *out);
    }
    free(l->e);
    l->e = out;
    l->next = lists;
    lists = l;
    return d;
}
DIR *opendir(const char *p) {
    int in = path_in(p);
    if (in && step("opendir", p, 0)) return 0;
    DIR *d = real_opendir(p);
    if (d && in) {
        remember(dirfd(d), AT_FDCWD, p);
        return opened(d);
    }
    return d;
}
DIR *fdopendir(int fd) {
    if (fd_in(fd) && step("opendir", fd_name(fd), 0)) return 0;
    DIR *d = real_fdopendir(fd);
    return d && fd_in(fd) ? opened(d) : d;
}
int closedir(DIR *d) {
    for (struct listing **l = &lists; *l; l = &(*l)->next)
        if ((*l)->d == d) {
            struct listing *x = *l;
            *l = x->next;
            free(x->e);
            free(x);
            break;
        }
    forget(dirfd(d));
    return real_closedir(d);
}
struct dirent64 *readdir64(DIR *d) {
    int fd = dirfd(d);
    if (fd_in(fd) && step("readdir", fd_name(fd), 0)) return 0;
    for (struct listing *l = lists; l; l = l->next)
        if (l->d == d) return l->i < l->n ? &l->e[l->i++] : 0;
    return real_readdir64(d);
}

/* ---- paths */
int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
    if (at_in(d, p) && step(p && p[0] ? "stat" : "fstat", full(d, p), 0)) return -1;
    return real_statx(d, p, f, m, s);
}
int stat64(const char *p, struct stat64 *s) {
    if (path_in(p) && step("stat", p, 0)) return -1;
    return real_stat64(p, s);
}
int lstat64(const char *p, struct stat64 *s) {
    if (path_in(p) && step("stat", p, 0)) return -1;
    return real_lstat64(p, s);
}
int fstat64(int fd, struct stat64 *s) {
    if (fd_in(fd) && step("fstat", fd_name(fd), 0)) return -1;
    return real_fstat64(fd, s);
}
int fstatat64(int d, const char *p, struct stat64 *s, int f) {
    if (at_in(d, p) && step("stat", full(d, p), 0)) return -1;
    return real_fstatat64(d, p, s, f);
}
int access(const char *p, int m) {
    if (path_in(p) && step("access", p, 0)) return -1;
    return real_access(p, m);
}
int mkdir(const char *p, mode_t m) {
    if (path_in(p) && step("mkdir", p, 1)) return -1;
    return real_mkdir(p, m);
}
int unlink(const char *p) {
    if (path_in(p) && step("unlink", p, 0)) return -1;
    return real_unlink(p);
}
int unlinkat(int d, const char *p, int f) {
    if (at_in(d, p) && step(f & AT_REMOVEDIR ? "rmdir" : "unlink", full(d, p), 0)) return -1;
    return real_unlinkat(d, p, f);
}
int rmdir(const char *p) {
    if (path_in(p) && step("rmdir", p, 0)) return -1;
    return real_rmdir(p);
}
char *realpath(const char *p, char *b) {
    if (path_in(p) && step("realpath", p, 0)) return 0;
    return real_realpath(p, b);
}
int rename(const char *a, const char *b) {
    if ((path_in(a) || path_in(b)) && step("rename", b, 1)) return -1;
    return real_rename(a, b);
}
int link(const char *a, const char *b) {
    if ((path_in(a) || path_in(b)) && step("link", b, 1)) return -1;
    return real_link(a, b);
}
int linkat(int x, const char *a, int y, const char *b, int f) {
    if ((at_in(x, a) || at_in(y, b)) && step("link", b, 1)) return -1;
    return real_linkat(x, a, y, b, f);
}
int symlink(const char *a, const char *b) {
    if (path_in(b) && step("symlink", b, 1)) return -1;
    return real_symlink(a, b);
}
int ftruncate64(int fd, off64_t l) {
    if (fd_in(fd) && step("truncate", fd_name(fd), 1)) return -1;
    return real_ftruncate64(fd, l);
}
int chmod(const char *p, mode_t m) {
    if (path_in(p) && step("chmod", p, 0)) return -1;
    return real_chmod(p, m);
}
int fchmod(int fd, mode_t m) {
    if (fd_in(fd) && step("chmod", fd_name(fd), 0)) return -1;
    return real_fchmod(fd, m);
}
int fsync(int fd) {
    if (fd_in(fd) && step("sync", fd_name(fd), 0)) return -1;
    return real_fsync(fd);
}
int fdatasync(int fd) {
    if (fd_in(fd) && step("sync", fd_name(fd), 0)) return -1;
    return real_fdatasync(fd);
}
int connect(int s, const struct sockaddr *a, socklen_t l) {
    if (web && a->sa_family == AF_INET && l >= sizeof(struct sockaddr_in)) {
        struct sockaddr_in b = *(struct sockaddr_in *)a;
        if (ntohs(b.sin_port) == 80 && ntohl(b.sin_addr.s_addr) == INADDR_LOOPBACK) {
            b.sin_port = htons(web);
            return real_connect(s, (struct sockaddr *)&b, sizeof b);
        }
    }
    return real_connect(s, a, l);
}

int bind(int s, const struct sockaddr *a, socklen_t l) {
    if (port && a->sa_family == AF_INET && l >= sizeof(struct sockaddr_in) && ntohs(((struct sockaddr_in *)a)->sin_port) == 6904) {
        struct sockaddr_in b = *(struct sockaddr_in *)a;
        b.sin_port = htons(port);
        b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        return real_bind(s, (struct sockaddr *)&b, sizeof b);
    }
    return real_bind(s, a, l);
}
