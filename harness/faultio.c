// LD_PRELOAD shim: makes writes to one file short or failing.
//   FAULTIO_PATH  name the file is opened with
//   FAULTIO_MAX   most bytes one write takes (0: no limit)
//   FAULTIO_AT    fail from this byte offset on (-1: never)
//   FAULTIO_ERRNO errno of the failure
//   FAULTIO_ONCE  1: fail only the first time
//   FAULTIO_EINTR every how many calls to fail with EINTR first (0: never)
//   FAULTIO_CLOSE errno for close (0: succeeds)
//   FAULTIO_MARK  file made when a close was failed
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static long env(const char* n, long d) {
  const char* s = getenv(n);
  return s ? atol(s) : d;
}
static int target(int fd) {
  const char* p = getenv("FAULTIO_PATH");
  struct stat a, b;
  if (!p || fd < 3 || fstat(fd, &a) || stat(p, &b)) return 0;
  return a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}
static long done, calls, failed;

static ssize_t limit(size_t n) {  // bytes to take, or -1
  calls++;
  long e = env("FAULTIO_EINTR", 0), at = env("FAULTIO_AT", -1), mx = env("FAULTIO_MAX", 0);
  if (e && calls % (e + 1) == 0) {
    errno = EINTR;
    return -1;
  }
  if (at >= 0 && !(failed && env("FAULTIO_ONCE", 0))) {
    if (done >= at) {
      failed = 1;
      errno = env("FAULTIO_ERRNO", ENOSPC);
      return -1;
    }
    if ((long)n > at - done) n = at - done;
  }
  if (mx && (long)n > mx) n = mx;
  return n;
}

ssize_t write(int fd, const void* p, size_t n) {
  if (n && target(fd)) {
    ssize_t k = limit(n);
    if (k < 0) return -1;
    ssize_t r = syscall(SYS_write, fd, p, k);
    if (r > 0) done += r;
    return r;
  }
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (target(fd)) {
    ssize_t all = 0;
    for (int i = 0; i < c; i++) {
      if (!v[i].iov_len) continue;
      ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
      if (r < 0) return all ? all : -1;
      all += r;
      if ((size_t)r < v[i].iov_len) break;
    }
    return all;
  }
  return syscall(SYS_writev, fd, v, c);
}
static void mark(void) {
  const char* p = getenv("FAULTIO_MARK");
  int fd = p ? syscall(SYS_open, p, O_CREAT | O_WRONLY, 0600) : -1;
  if (fd >= 0) syscall(SYS_close, fd);
}
int close(int fd) {
  long e = env("FAULTIO_CLOSE", 0);
  int t = e && target(fd);
  int r = syscall(SYS_close, fd);
  if (t) {
    mark();
    errno = e;
    return -1;
  }
  return r;
}
#include <stdio.h>
int fclose(FILE* f) {
  long e = env("FAULTIO_CLOSE", 0);
  int t = e && f && target(fileno(f));
  int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  int r = real(f);
  if (t) {
    mark();
    errno = e;
    return EOF;
  }
  return r;
}
