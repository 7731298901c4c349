// Preloaded into a run of the compiler: stops it at, or lets fail, the n-th call that changes files.
// VH_STOP=n:kill  ends the process instead of the call; n:half writes half of what is to be written first; n:fail lets it and every later write fail (the disk is full);
// n:once lets it fail, whatever it is.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int at = -1, seen = 0, full = 0;
static char mode = 0;
static void load(void) {
  if (at >= 0) return;
  const char *s = getenv("VH_STOP");
  at = s ? atoi(s) : 0;
  const char *c = s ? strchr(s, ':') : 0;
  mode = c ? c[1] : 0;
}
// (VH_HIT names a file that is there once this has happened.) Writes of a few bytes happen or do not: there is no half of them.
// 1: fail; 2: do half, then end
static int hit(int grows) {
  load();
  if (!at) return 0;
  if (full && grows) return 1;
  if (++seen != at) return 0;
  const char *mark = getenv("VH_HIT");
  if (mark) close(syscall(SYS_open, mark, O_CREAT | O_WRONLY, 0600));
  if (mode == 'k') _exit(77);
  if (mode == 'h') return 2;
  if (mode == 'o') return 1;
  if (!grows) return 0;
  full = 1;
  return 1;
}
#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = (type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
static int no(void) { errno = ENOSPC; return -1; }

int open(const char *path, int flags, ...) {
  va_list v; va_start(v, flags); mode_t m = va_arg(v, mode_t); va_end(v);
  REAL(int, "open", const char *, int, mode_t);
  if (flags & (O_CREAT | O_TRUNC)) {
    int h = hit(access(path, F_OK) != 0);
    if (h == 1) return no();
    int fd = real(path, flags, m);
    if (h == 2) _exit(77);
    return fd;
  }
  return real(path, flags, m);
}
int open64(const char *path, int flags, ...) {
  va_list v; va_start(v, flags); mode_t m = va_arg(v, mode_t); va_end(v);
  REAL(int, "open64", const char *, int, mode_t);
  if (flags & (O_CREAT | O_TRUNC)) {
    int h = hit(access(path, F_OK) != 0);
    if (h == 1) return no();
    int fd = real(path, flags, m);
    if (h == 2) _exit(77);
    return fd;
  }
  return real(path, flags, m);
}
ssize_t write(int fd, const void *p, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t);
  if (fd <= 2) return real(fd, p, n);
  int h = hit(1);
  if (h == 1) return no();
  if (h == 2) { if (n > 16) real(fd, p, n / 2); _exit(77); }
  return real(fd, p, n);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
  int h = a < 0 || b < 0 ? 0 : hit(1);
  if (h == 1) return no();
  if (h == 2) {
    struct stat st;
    size_t half = fstat(a, &st) == 0 && (size_t)st.st_size < n ? st.st_size / 2 : n / 2;
    real(a, ao, b, bo, half, f);
    _exit(77);
  }
  return real(a, ao, b, bo, n, f);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
  REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
  int h = hit(1);
  if (h == 1) return no();
  if (h == 2) { real(out, in, off, n / 2); _exit(77); }
  return real(out, in, off, n);
}
#define PATH2(name) int name(const char *a, const char *b) { REAL(int, #name, const char *, const char *); int h = hit(0); if (h == 1) return no(); int r = real(a, b); if (h == 2) _exit(77); return r; }
PATH2(rename)
PATH2(link)
int unlink(const char *a) { REAL(int, "unlink", const char *); int h = hit(0); if (h == 1) return no(); int r = real(a); if (h == 2) _exit(77); return r; }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", const char *, mode_t); load(); int h = mode == 'o' ? 0 : hit(0); int r = real(a, m); if (h == 2) _exit(77); return r; }
int fsync(int fd) { REAL(int, "fsync", int); int h = hit(0); if (h == 1) return no(); int r = real(fd); if (h == 2) _exit(77); return r; }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); int h = hit(0); if (h == 1) return no(); int r = real(fd, n); if (h == 2) _exit(77); return r; }
