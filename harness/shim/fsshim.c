// Fault injection for file system operations below a directory (LD_PRELOAD).
// Environment:
//   FSS_DIR    prefix of the paths that are observed
//   FSS_MODE   count | kill | fail | delay (random pauses before and after the operations of the kinds)
//   FSS_AT     number of the operation (starting with 1) where the fault happens
//   FSS_N      number of operations (of the kinds) that fail (mode fail), default 1
//   FSS_ERR    errno for mode fail
//   FSS_OUT    file where the number of operations (mode count, at exit) or number and kind of the faulty ones is written (outside of FSS_DIR)
//   FSS_KINDS  kinds of operations that can fail (all if not given)
//   FSS_AFTER  1: kill after instead of before the operation
//   FSS_READS  1: opening files for reading is also an operation (kind ropen)
//   FSS_SHORT  1: the first failing write writes a part of the data and reports its length
//   FSS_TORN   1: a killed write first writes a part of the data
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_long counter, failed;
static long at, nfail = 1;
static char kinds[200];
static int err = EIO, mode = 0, after = 0, torn = 0, reads = 0, shortw = 0;
static char dir[PATH_MAX], out[PATH_MAX];
static size_t dirlen = 0;
static atomic_int armed;

__attribute__((constructor)) static void init(void) {
  const char *d = getenv("FSS_DIR"), *m = getenv("FSS_MODE");
  if (!d || !m) return;
  strncpy(dir, d, sizeof dir - 1);
  dirlen = strlen(dir);
  mode = !strcmp(m, "kill") ? 2 : !strcmp(m, "fail") ? 3 : !strcmp(m, "delay") ? 4 : 1;
  if (getenv("FSS_AT")) at = atol(getenv("FSS_AT"));
  if (getenv("FSS_N")) nfail = atol(getenv("FSS_N"));
  if (getenv("FSS_ERR")) err = atoi(getenv("FSS_ERR"));
  if (getenv("FSS_OUT")) strncpy(out, getenv("FSS_OUT"), sizeof out - 1);
  if (getenv("FSS_KINDS")) strncpy(kinds, getenv("FSS_KINDS"), sizeof kinds - 1);
  after = getenv("FSS_AFTER") != 0;
  torn = getenv("FSS_TORN") != 0;
  reads = getenv("FSS_READS") != 0;
  shortw = getenv("FSS_SHORT") != 0;
  if (!getenv("FSS_DELAYED")) atomic_store(&armed, 1);
}
// called by the driver to start and stop counting
void fss_arm(int on) { atomic_store(&armed, on); }
long fss_count(void) { return atomic_load(&counter); }
void fss_set(long a, long n) { atomic_store(&counter, 0); at = a; nfail = n; }

static void report(const char *kind, long nr) {
  if (!out[0]) return;
  int fd = syscall(SYS_openat, AT_FDCWD, out, O_WRONLY | O_CREAT | O_APPEND, 0666);
  if (fd < 0) return;
  char b[200];
  int n = snprintf(b, sizeof b, "%ld %s\n", nr, kind);
  syscall(SYS_write, fd, b, n);
  syscall(SYS_close, fd);
}
__attribute__((destructor)) static void total(void) {
  if (mode == 1) report("total", atomic_load(&counter));
}
static int in_path(const char *p) {
  if (!mode || !p || !atomic_load(&armed)) return 0;
  return !strncmp(p, dir, dirlen);
}
static int in_fd_rel(int dfd, const char *p) {
  if (!mode || !atomic_load(&armed)) return 0;
  if (p && p[0] == '/') return in_path(p);
  if (dfd == AT_FDCWD) return 0;
  char l[64], t[PATH_MAX];
  snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
  ssize_t n = readlink(l, t, sizeof t - 1);
  if (n <= 0) return 0;
  t[n] = 0;
  return !strncmp(t, dir, dirlen);
}
static int in_fd(int fd) { return in_fd_rel(fd, 0); }

static int kind_matches(const char *kind) {
  if (!kinds[0]) return 1;
  size_t n = strlen(kind);
  for (const char *p = kinds; (p = strstr(p, kind)); p += n)
    if ((p == kinds || p[-1] == ' ') && (p[n] == 0 || p[n] == ' ')) return 1;
  return 0;
}
static void nap(void) {
  static _Thread_local unsigned seed;
  if (!seed) seed = getpid() * 7919 + (unsigned)(size_t)&seed;
  int r = rand_r(&seed);
  if (r % 3) usleep(r / 3 % 4000);
}
// 0: execute, 1: fail (errno set); *k: kill after the operation
static int decide(const char *kind, int *k) {
  *k = 0;
  if (mode == 4) {
    if (kind_matches(kind)) { nap(); *k = 4; }
    return 0;
  }
  long nr = atomic_fetch_add(&counter, 1) + 1, nf = 0;
  if (mode == 2 && nr >= at) {
    if (nr == at) report(kind, nr);
    if (after && nr == at) { *k = 1; return 0; }
    if (torn && nr == at && !strcmp(kind, "write")) { *k = 2; return 0; }
    syscall(SYS_kill, getpid(), 9);
    for (;;) pause();
  }
  if (mode == 3 && nr >= at && kind_matches(kind) && (nf = atomic_fetch_add(&failed, 1)) < nfail) {
    report(kind, nr);
    if (shortw && nf == 0 && !strcmp(kind, "write")) { *k = 3; return 0; }
    errno = err;
    return 1;
  }
  return 0;
}
static void die(void) {
  syscall(SYS_kill, getpid(), 9);
  for (;;) pause();
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define OP(kind, cond, call, type) do { int k_ = 0; if (cond) { if (decide(kind, &k_)) return (type)-1; } type r_ = call; if (k_ == 1 || k_ == 2) die(); if (k_ == 4) { int e_ = errno; nap(); errno = e_; } return r_; } while (0)

#define WFLAGS (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))
#define OPEN_BODY(name) \
  mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  REAL(name); OP(WFLAGS ? "open" : "ropen", (WFLAGS || (reads && !(flags & O_DIRECTORY))) && in_path(path), real(path, flags, m), int);
int open(const char *path, int flags, ...) { OPEN_BODY(open) }
int open64(const char *path, int flags, ...) { OPEN_BODY(open64) }
int openat(int d, const char *path, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  REAL(openat); OP(WFLAGS ? "open" : "ropen", (WFLAGS || (reads && !(flags & O_DIRECTORY))) && in_fd_rel(d, path), real(d, path, flags, m), int);
}
int openat64(int d, const char *path, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  REAL(openat64); OP(WFLAGS ? "open" : "ropen", (WFLAGS || (reads && !(flags & O_DIRECTORY))) && in_fd_rel(d, path), real(d, path, flags, m), int);
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  int k = 0;
  if (in_fd(fd)) {
    if (decide("write", &k)) return -1;
    if (k == 2) { if (real(fd, b, n / 2) < 0) die(); die(); }
    if (k == 3) return real(fd, b, n > 1 ? n / 2 : n);
  }
  ssize_t r = real(fd, b, n);
  if (k == 1) die();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); OP("write", in_fd(fd), real(fd, v, n), ssize_t); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); OP("write", in_fd(fd), real(fd, b, n, o), ssize_t); }
int rename(const char *a, const char *b) { REAL(rename); OP("rename", in_path(a) || in_path(b), real(a, b), int); }
int unlink(const char *a) { REAL(unlink); OP("unlink", in_path(a), real(a), int); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); OP("unlink", in_fd_rel(d, a), real(d, a, f), int); }
int rmdir(const char *a) { REAL(rmdir); OP("rmdir", in_path(a), real(a), int); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); OP("mkdir", in_path(a), real(a, m), int); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); OP("truncate", in_fd(fd), real(fd, l), int); }
int fsync(int fd) { REAL(fsync); OP("fsync", in_fd(fd), real(fd), int); }
int fdatasync(int fd) { REAL(fdatasync); OP("fsync", in_fd(fd), real(fd), int); }
ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f) { REAL(copy_file_range); OP("write", in_fd(b), real(a, oa, b, ob, n, f), ssize_t); }
