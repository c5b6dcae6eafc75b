// Faults of the file system for files named *.dat and directories made for them, by LD_PRELOAD.
// TSF: mode, TSF_AT: the call it strikes at (from 1), TSF_SEED.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdio.h>

static long calls, at = -1;
static unsigned long rnd;
static const char *mode(void) { const char *m = getenv("TSF"); return m ? m : ""; }
static void init(void) {
  if (at >= 0) return;
  const char *a = getenv("TSF_AT"), *s = getenv("TSF_SEED");
  at = a ? atol(a) : 0;
  rnd = (s ? strtoul(s, 0, 10) : 1) * 2654435761u + 12345;
}
static unsigned next(void) { rnd = rnd * 6364136223846793005ul + 1442695040888963407ul; return rnd >> 40; }
static int is_data_name(const char *p) { size_t n = strlen(p); return n > 4 && strcmp(p + n - 4, ".dat") == 0; }
static int is_data(int fd) {
  char l[64], t[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, t, sizeof t - 1);
  if (n <= 0) return 0;
  t[n] = 0;
  return is_data_name(t);
}
// what to do with a write of n bytes: -1 error set, otherwise the bytes to write
static ssize_t plan(size_t n) {
  init();
  const char *m = mode();
  calls++;
  if (!strcmp(m, "short")) return n > 1 ? 1 + next() % n : (ssize_t)n;
  if (!strcmp(m, "tiny")) return n > 7 ? 7 : (ssize_t)n;
  if (!strcmp(m, "eintr")) { if (next() % 3 == 0) { errno = EINTR; return -1; } return n; }
  if (!strcmp(m, "eio")) { if (calls >= at) { errno = EIO; return -1; } return n; }
  if (!strcmp(m, "once")) { if (calls == at) { errno = ENOSPC; return -1; } return n; }
  if (!strcmp(m, "shortfull")) { if (calls == at && n > 1) return n / 2; if (calls > at) { errno = ENOSPC; return -1; } return n; }
  if (!strcmp(m, "zero")) { if (calls >= at) return 0; return n; }
  return n;
}
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (!getenv("TSF") || n == 0 || !is_data(fd)) return real(fd, b, n);
  ssize_t k = plan(n);
  return k <= 0 ? k : real(fd, b, k);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static ssize_t (*real)(int, const struct iovec *, int);
  if (!real) real = dlsym(RTLD_NEXT, "writev");
  if (!getenv("TSF") || !is_data(fd)) return real(fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
#define OPEN(NAME) \
int NAME(const char *p, int f, ...) { \
  static int (*real)(const char *, int, ...); \
  if (!real) real = dlsym(RTLD_NEXT, #NAME); \
  mode_t m = 0; \
  if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
  if (is_data_name(p) && (f & O_ACCMODE) != O_RDONLY) { \
    if (!strcmp(mode(), "open_eacces")) { errno = EACCES; return -1; } \
    if (!strcmp(mode(), "open_enospc")) { errno = ENOSPC; return -1; } \
    if (!strcmp(mode(), "open_emfile")) { errno = EMFILE; return -1; } \
    if (!strcmp(mode(), "open_erofs")) { errno = EROFS; return -1; } \
  } \
  return real(p, f, m); \
}
OPEN(open)
OPEN(open64)
int mkdir(const char *p, mode_t m) {
  static int (*real)(const char *, mode_t);
  if (!real) real = dlsym(RTLD_NEXT, "mkdir");
  if (!strcmp(mode(), "mkdir_eacces")) { errno = EACCES; return -1; }
  if (!strcmp(mode(), "mkdir_enospc")) { errno = ENOSPC; return -1; }
  return real(p, m);
}
