/* Preloaded into a child: notes every change of file content and every sync, and which file stands at a watched
   path after each of them. Lines: operation, inode concerned, inode at the path (0 = none). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#undef open
#undef openat

static char target[4096];
static int out = -1;

void fsj_start(const char *path, int fd) { strncpy(target, path, sizeof target - 1); out = fd; }
void fsj_stop(void) { out = -1; }

static unsigned long ino_of(int fd) {
    struct stat s;
    return syscall(SYS_fstat, fd, &s) == 0 && S_ISREG(s.st_mode) ? s.st_ino : 0;
}
static unsigned long ino_at(const char *p) {
    struct stat s;
    return syscall(SYS_newfstatat, AT_FDCWD, p, &s, 0) == 0 && S_ISREG(s.st_mode) ? s.st_ino : 0;
}
static void note(const char *op, unsigned long ino) {
    char b[96];
    if (out < 0) return;
    int n = snprintf(b, sizeof b, "%s %lu %lu\n", op, ino, ino_at(target));
    syscall(SYS_write, out, b, n);
}
static void wrote(int fd) {
    unsigned long i = out < 0 || fd == out ? 0 : ino_of(fd);
    if (i) note(fcntl(fd, F_GETFL) & (O_DSYNC | O_SYNC) ? "other" : "write", i);
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

#define W(ret, name, params, args, types) \
    ret name params { REAL(ret, name, types); ret r = real args; wrote(fd); return r; }
#define T(...) __VA_ARGS__
W(ssize_t, write, (int fd, const void *b, size_t n), (fd, b, n), T(int, const void *, size_t))
W(ssize_t, pwrite, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), T(int, const void *, size_t, off_t))
W(ssize_t, pwrite64, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), T(int, const void *, size_t, off_t))
W(ssize_t, writev, (int fd, const struct iovec *v, int n), (fd, v, n), T(int, const struct iovec *, int))
W(ssize_t, pwritev, (int fd, const struct iovec *v, int n, off_t o), (fd, v, n, o), T(int, const struct iovec *, int, off_t))
W(ssize_t, pwritev64, (int fd, const struct iovec *v, int n, off_t o), (fd, v, n, o), T(int, const struct iovec *, int, off_t))
W(int, ftruncate, (int fd, off_t n), (fd, n), T(int, off_t))
W(int, ftruncate64, (int fd, off_t n), (fd, n), T(int, off_t))
W(ssize_t, sendfile, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), T(int, int, off_t *, size_t))
W(ssize_t, sendfile64, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), T(int, int, off_t *, size_t))
ssize_t copy_file_range(int in, off_t *i, int fd, off_t *o, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
    ssize_t r = real(in, i, fd, o, n, f); wrote(fd); return r;
}
#define TR(name) int name(const char *p, off_t n) { REAL(int, name, const char *, off_t); int r = real(p, n); note("write", ino_at(p)); return r; }
TR(truncate) TR(truncate64)

static void opened(int fd, int flags) { if (fd >= 0 && (flags & O_TRUNC)) wrote(fd); }
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
#define OP(name) int name(const char *p, int flags, ...) { MODE REAL(int, name, const char *, int, ...); int r = real(p, flags, m); opened(r, flags); return r; }
OP(open) OP(open64)
#define OA(name) int name(int d, const char *p, int flags, ...) { MODE REAL(int, name, int, const char *, int, ...); int r = real(d, p, flags, m); opened(r, flags); return r; }
OA(openat) OA(openat64)

int fsync(int fd) { REAL(int, fsync, int); int r = real(fd); if (!r) note("sync", ino_of(fd)); return r; }
int fdatasync(int fd) { REAL(int, fdatasync, int); int r = real(fd); if (!r) note("sync", ino_of(fd)); return r; }
int syncfs(int fd) { REAL(int, syncfs, int); int r = real(fd); if (!r) note("all", 0); return r; }
void sync(void) { REAL(void, sync, void); real(); note("all", 0); }

#define N2(name) int name(const char *a, const char *b) { REAL(int, name, const char *, const char *); int r = real(a, b); note(#name, ino_at(b)); return r; }
N2(rename) N2(link) N2(symlink)
int renameat(int x, const char *a, int y, const char *b) { REAL(int, renameat, int, const char *, int, const char *); int r = real(x, a, y, b); note("rename", 0); return r; }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); int r = real(x, a, y, b, f); note("rename", 0); return r; }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int); int r = real(x, a, y, b, f); note("link", 0); return r; }
int unlink(const char *a) { REAL(int, unlink, const char *); int r = real(a); note("unlink", 0); return r; }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); int r = real(d, a, f); note("unlink", 0); return r; }
