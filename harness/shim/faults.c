/* Preloaded into a tool of the repository: counts the operations that change files below FAULT_DIR
 * (opening for writing, writing, truncating, renaming, linking, removing) and ends the process, or
 * makes the operation fail, at the FAULT_AT-th of them (counted from 1; 0: never).
 *   FAULT_KIND=kill    the process ends before the operation
 *   FAULT_KIND=torn    as kill, but half of a write is still done
 *   FAULT_KIND=space   this operation and all later ones that need room fail with ENOSPC
 *   FAULT_KIND=short   half of a write is done and reported so (later ones are complete)
 *   FAULT_KIND=again   the operation fails once with EINTR (only writes)
 * Reading (of files below FAULT_DIR and, with FAULT_STDIN, of standard input):
 *   FAULT_READ=dribble   every read gives at most 1 to 7 bytes, every fifth fails with EINTR first
 *   FAULT_READ=N         the N-th read (and all later ones) fails with EIO
 *   FAULT_READ=-N        only the N-th read fails with EIO
 * With FAULT_STDOUT, writes to standard output count as operations, too.
 * At the end the number of operations is written to FAULT_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static long events, at;
static int kind; /* k t s h a */
static char dir[PATH_MAX];
static size_t dir_len;
static char watched[4096], read_from[4096];
static long reads, read_at;
static int dribble;
static char trace[1 << 14];
static size_t trace_len;

__attribute__((constructor)) static void begin(void) {
    const char *d = getenv("FAULT_DIR"), *n = getenv("FAULT_AT"), *k = getenv("FAULT_KIND");
    if (d) { strncpy(dir, d, sizeof dir - 1); dir_len = strlen(dir); }
    at = n ? atol(n) : 0;
    const char *r = getenv("FAULT_READ");
    if (r && !strcmp(r, "dribble")) dribble = 1; else if (r) read_at = atol(r);
    if (getenv("FAULT_STDIN")) read_from[0] = 1;
    if (getenv("FAULT_STDOUT")) watched[1] = 1;
    kind = k && k[0] ? (!strcmp(k, "short") ? 'h' : k[0]) : 0;
}
static void report(void) {
    const char *p = getenv("FAULT_LOG");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    char b[64];
    int l = snprintf(b, sizeof b, "%ld %ld\n", events, reads);
    syscall(SYS_write, fd, b, l);
    syscall(SYS_write, fd, trace, trace_len);
    syscall(SYS_close, fd);
}
__attribute__((destructor)) static void end(void) { report(); }

static int below(int dfd, const char *path) {
    char b[PATH_MAX * 2];
    if (!dir_len || !path) return 0;
    if (path[0] != '/') {
        if (dfd != AT_FDCWD) return 0;
        if (!getcwd(b, PATH_MAX)) return 0;
        strcat(b, "/");
        strncat(b, path, PATH_MAX - 1);
        path = b;
    }
    return !strncmp(path, dir, dir_len) && path[dir_len] == '/';
}
/* 0: go on; 1: do half; -1: fail with errno */
static int event(const char *what, int needs_room, int is_write) {
    int r = 0;
    pthread_mutex_lock(&lock);
    events++;
    int l = snprintf(trace + trace_len, sizeof trace - trace_len, "%s\n", what);
    if (l > 0 && trace_len + l < sizeof trace) trace_len += l;
    if (at && events >= at) {
        int now = events == at;
        switch (kind) {
        case 'k': report(); syscall(SYS_exit_group, 137);
        case 't': if (is_write) r = 1; else { report(); syscall(SYS_exit_group, 137); } break;
        case 's': if (needs_room) { errno = ENOSPC; r = -1; } break;
        case 'h': if (now && is_write) r = 1; break;
        case 'a': if (now && is_write) { errno = EINTR; r = -1; } break;
        }
    }
    pthread_mutex_unlock(&lock);
    return r;
}
static void mark(int fd, int on) { if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = on; }
static int is_marked(int fd) { return fd >= 0 && fd < (int)sizeof watched && watched[fd]; }

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
    int w = (flags & O_ACCMODE) != O_RDONLY && below(dfd, path);
    if (w && event(flags & O_TRUNC ? "open and truncate" : flags & O_CREAT ? "create" : "open", !!(flags & O_CREAT), 0) < 0) return -1;
    int fd = syscall(SYS_openat, dfd, path, flags, mode);
    if (fd >= 0) {
        mark(fd, w);
        if (fd < (int)sizeof read_from) read_from[fd] = (flags & O_ACCMODE) != O_WRONLY && below(dfd, path);
    }
    return fd;
}
#define OPEN(name, large) \
    int name(const char *path, int flags, ...) { \
        va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
        return do_open(AT_FDCWD, path, flags | large, m); }
#define OPENAT(name, large) \
    int name(int dfd, const char *path, int flags, ...) { \
        va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
        return do_open(dfd, path, flags | large, m); }
OPEN(open, 0) OPEN(open64, O_LARGEFILE) OPENAT(openat, 0) OPENAT(openat64, O_LARGEFILE)
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    mark(fd, 0);
    if (fd >= 0 && fd < (int)sizeof read_from) read_from[fd] = 0;
    return syscall(SYS_close, fd); }
int dup(int fd) { int r = syscall(SYS_dup, fd); mark(r, is_marked(fd)); return r; }

ssize_t write(int fd, const void *b, size_t n) {
    if (is_marked(fd)) {
        int e = event("write", 1, 1);
        if (e < 0) return -1;
        if (e > 0) {
            ssize_t r = syscall(SYS_write, fd, b, n > 1 ? n / 2 : n);
            if (kind == 't') { report(); syscall(SYS_exit_group, 137); }
            return r;
        }
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (is_marked(fd)) {
        if (c < 1) return 0;
        int i = 0;
        while (i + 1 < c && !v[i].iov_len) i++;
        return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return syscall(SYS_writev, fd, v, c);
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
    if (is_marked(fd)) {
        int e = event("pwrite", 1, 1);
        if (e < 0) return -1;
        if (e > 0) {
            ssize_t r = syscall(SYS_pwrite64, fd, b, n > 1 ? n / 2 : n, o);
            if (kind == 't') { report(); syscall(SYS_exit_group, 137); }
            return r;
        }
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t copy_file_range(int a, off_t *ao, int b, off_t *bo, size_t n, unsigned f) {
    if (is_marked(b)) {
        int e = event("copy", 1, 1);
        if (e < 0) return -1;
        if (e > 0) {
            ssize_t r = syscall(SYS_copy_file_range, a, ao, b, bo, n < (1 << 20) && n > 64 ? n / 2 : 64, f);
            if (kind == 't') { report(); syscall(SYS_exit_group, 137); }
            return r;
        }
    }
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
/* (callers fall back to reading and writing) */
ssize_t sendfile(int o, int i, off_t *f, size_t n) { if (is_marked(o)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, f, n); }
ssize_t sendfile64(int o, int i, off_t *f, size_t n) { return sendfile(o, i, f, n); }

static int do_ftruncate(int fd, off_t l) { if (is_marked(fd) && event("truncate", 0, 0) < 0) return -1; return syscall(SYS_ftruncate, fd, l); }
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off_t l) { return do_ftruncate(fd, l); }
int truncate(const char *p, off_t l) { if (below(AT_FDCWD, p) && event("truncate", 0, 0) < 0) return -1; return syscall(SYS_truncate, p, l); }
int truncate64(const char *p, off_t l) { return truncate(p, l); }
static int do_rename(int a, const char *p, int b, const char *q, unsigned f) {
    if ((below(a, p) || below(b, q)) && event("rename", 1, 0) < 0) return -1;
    return syscall(SYS_renameat2, a, p, b, q, f);
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return do_rename(a, p, b, q, 0); }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) { return do_rename(a, p, b, q, f); }
int link(const char *p, const char *q) { if (below(AT_FDCWD, q) && event("link", 1, 0) < 0) return -1; return syscall(SYS_linkat, AT_FDCWD, p, AT_FDCWD, q, 0); }
int linkat(int a, const char *p, int b, const char *q, int f) { if (below(b, q) && event("link", 1, 0) < 0) return -1; return syscall(SYS_linkat, a, p, b, q, f); }
int unlink(const char *p) { if (below(AT_FDCWD, p) && event("unlink", 0, 0) < 0) return -1; return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int a, const char *p, int f) { if (below(a, p) && event("unlink", 0, 0) < 0) return -1; return syscall(SYS_unlinkat, a, p, f); }

ssize_t read(int fd, void *b, size_t n) {
    if (fd >= 0 && fd < (int)sizeof read_from && read_from[fd] && n) {
        pthread_mutex_lock(&lock);
        long now = ++reads;
        pthread_mutex_unlock(&lock);
        if ((read_at > 0 && now >= read_at) || (read_at < 0 && now == -read_at)) { errno = EIO; return -1; }
        if (dribble) {
            if (now % 5 == 1) { errno = EINTR; return -1; }
            size_t most = 1 + (now * 5) % 7;
            if (now > 3000) most = 1000; /* (not forever) */
            if (n > most) n = most;
        }
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (fd >= 0 && fd < (int)sizeof read_from && read_from[fd] && c > 0) {
        int i = 0;
        while (i + 1 < c && !v[i].iov_len) i++;
        return read(fd, v[i].iov_base, v[i].iov_len);
    }
    return syscall(SYS_readv, fd, v, c);
}
