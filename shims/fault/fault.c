/* Fails chosen system calls on files below FAULT_DIR (LD_PRELOAD).
 *
 * FAULT_OP    class of the call that fails: write, read, create, open, mkdir, seek
 * FAULT_N     number of the call in its class
 * FAULT_ERR   errno, or 0 for a transfer of a single byte
 * FAULT_MODE  once or forever
 * FAULT_LOG   receives the number of calls in each class
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { WRITE, READ, CREATE, OPEN, MKDIR, SEEK, NOPS };
static const char *names[NOPS] = {"write", "read", "create", "open", "mkdir", "seek"};
static long counts[NOPS];
static int op = -1, err, forever;
static long at;
static const char *dir;
static size_t dirlen;
static const char *logfile;

__attribute__((constructor)) static void init(void) {
    const char *o = getenv("FAULT_OP");
    dir = getenv("FAULT_DIR");
    if (!dir) return;
    dirlen = strlen(dir);
    logfile = getenv("FAULT_LOG");
    if (!o) return;
    for (int i = 0; i < NOPS; i++)
        if (!strcmp(o, names[i])) op = i;
    at = atol(getenv("FAULT_N"));
    err = atoi(getenv("FAULT_ERR"));
    forever = !strcmp(getenv("FAULT_MODE"), "forever");
}

__attribute__((destructor)) static void fini(void) {
    if (!logfile) return;
    char buf[512];
    int n = 0;
    for (int i = 0; i < NOPS; i++) n += snprintf(buf + n, sizeof buf - n, "%s %ld\n", names[i], counts[i]);
    int fd = syscall(SYS_openat, AT_FDCWD, logfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        syscall(SYS_write, fd, buf, n);
        syscall(SYS_close, fd);
    }
}

/* does this call fail? */
static int hit(int o) {
    long k = __atomic_fetch_add(&counts[o], 1, __ATOMIC_SEQ_CST);
    return o == op && (k == at || (forever && k > at));
}

static int ours(int fd) {
    if (!dir) return 0;
    char link[64], to[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, to, sizeof to);
    return n >= (ssize_t)dirlen && !memcmp(to, dir, dirlen);
}
static int ours_path(const char *p) {
    return dir && (p[0] != '/' || !strncmp(p, dir, dirlen));
}

#define FAIL do { errno = err; return -1; } while (0)

ssize_t write(int fd, const void *b, size_t n) {
    if (ours(fd) && n && hit(WRITE)) {
        if (err) FAIL;
        n = 1;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (ours(fd) && n && hit(WRITE)) {
        if (err) FAIL;
        n = 1;
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (ours(fd) && n && hit(WRITE)) {
        if (err) FAIL;
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, (size_t)1);
    }
    return syscall(SYS_writev, fd, v, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    if (ours(out) && n && hit(WRITE)) {
        if (err) FAIL;
        n = 1;
    }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    if (ours(out) && n && hit(WRITE)) {
        if (err) FAIL;
        n = 1;
    }
    return syscall(SYS_sendfile, out, in, o, n);
}
ssize_t read(int fd, void *b, size_t n) {
    if (ours(fd) && n && hit(READ)) {
        if (err) FAIL;
        n = 1;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (ours(fd) && n && hit(READ)) {
        if (err) FAIL;
        n = 1;
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (ours(fd) && n && hit(READ)) {
        if (err) FAIL;
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return syscall(SYS_read, fd, v[i].iov_base, (size_t)1);
    }
    return syscall(SYS_readv, fd, v, n);
}
static int do_open(int at_fd, const char *p, int flags, mode_t mode) {
    if (ours_path(p) && hit(flags & (O_WRONLY | O_RDWR) ? CREATE : OPEN)) FAIL;
    return syscall(SYS_openat, at_fd, p, flags, mode);
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, flags); mode = va_arg(l, mode_t); va_end(l); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int fd, const char *p, int flags, ...) { MODE return do_open(fd, p, flags, mode); }
int openat64(int fd, const char *p, int flags, ...) { MODE return do_open(fd, p, flags | O_LARGEFILE, mode); }
int mkdir(const char *p, mode_t m) {
    if (ours_path(p) && hit(MKDIR)) FAIL;
    return syscall(SYS_mkdir, p, m);
}
off64_t lseek64(int fd, off64_t o, int w) {
    if (ours(fd) && hit(SEEK)) FAIL;
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
