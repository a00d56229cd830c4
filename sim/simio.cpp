// File and shared memory interposition: faults on files of the run's scratch directory; POSIX shared memory
// objects are files of a directory of the run. Compiled WITHOUT -fsanitize=thread.
#include "core.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <csignal>
#include <sys/socket.h>
#include <sys/utsname.h>
#include <unistd.h>

namespace sim::net { bool closed(int fd); bool is(int fd); }
namespace sim {
static uint64_t g_fd[64]; // descriptors that refer to scratch files (per process image)
static inline bool tracked(int fd) { return fd >= 0 && fd < 4096 && (g_fd[fd >> 6] >> (fd & 63) & 1); }
static inline void track(int fd) { if (fd >= 0 && fd < 4096) g_fd[fd >> 6] |= 1ull << (fd & 63); }
static inline void untrack(int fd) { if (fd >= 0 && fd < 4096) g_fd[fd >> 6] &= ~(1ull << (fd & 63)); }
static inline bool mine(const char * p) {
  if (!p) return false;
  if (!strncmp(p, "/proc/self/cwd/", 15)) p += 15; // absolute names that are the same in every run directory
  if (p[0] == '.' && p[1] == '/') p += 2;
  return p[0] == 's' && p[1] == '/';
}
static inline bool io() { return g_active && tl_me >= 0 && tl_quiet == 0; }

const char * scratch() { S->dirUsed = 1; return "s"; }

static void ioPoint(int kind) { if (on()) { ev(kind, 0); schedule(K_SYNC, true); } }
// The process dies here (children of the run's first process only).
static bool crashHere() { return S->io.crash > 0 && selfProc() > 0 && io() && choose(2, S->io.crash); }
[[noreturn]] static void crashNow(const char * where) { note("the process is killed at %s", where); setExpectCrash(true); count(F_CRASH_SIGNAL); raise(SIGKILL); abort(); }
template <typename F> static F resolve(const char * n) { return (F) dlsym(RTLD_NEXT, n); }
static char g_aliasFrom[256], g_aliasTo[256];
void aliasFile(const char * path, const char * instead) { snprintf(g_aliasFrom, sizeof g_aliasFrom, "%s", path); snprintf(g_aliasTo, sizeof g_aliasTo, "%s", instead); }
} // namespace sim

using namespace sim;
#define RESOLVE(type, name) static decltype(resolve<type>("")) r; if (!r) r = resolve<type>(#name)

extern "C" {

// ------------------------------------------------------------------ shared memory names
static void shmPath(const char * n, char * o, size_t sz) { while (*n == '/') ++n; snprintf(o, sz, "m/%s", n); for (char * c = o + 2; *c; ++c) if (*c == '/') *c = '_'; }
int shm_open(const char * name, int flags, mode_t mode) {
  char p[400]; shmPath(name, p, sizeof p);
  if (!g_active) { errno = ENOENT; return -1; }
  S->dirUsed = 1;
  ioPoint(60);
  return (int) syscall(SYS_openat, AT_FDCWD, p, flags | O_CLOEXEC | O_NOFOLLOW, mode);
}
int shm_unlink(const char * name) {
  char p[400]; shmPath(name, p, sizeof p);
  if (!g_active) { errno = ENOENT; return -1; }
  ioPoint(61);
  return unlink(p);
}

// ------------------------------------------------------------------ descriptors
static bool openFault(const char * p, int flags) {
  if (!io() || !mine(p)) return false;
  ioPoint(62);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  unsigned v = choose(wr ? 4 : 3, S->io.openFail);
  if (!v) return false;
  count(F_OPENFAIL);
  errno = v == 1 ? EACCES : v == 2 ? EMFILE : ENOSPC;
  note("open of %s fails: %s", p, strerror(errno));
  return true;
}
static int doOpen(int dir, const char * p, int flags, mode_t mode) {
  if (openFault(p, flags)) return -1;
  int fd = (int) syscall(SYS_openat, dir, p, flags, mode);
  if (fd >= 0) { if (g_active && mine(p)) track(fd); else untrack(fd); }
  return fd;
}
int open(const char * p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return doOpen(AT_FDCWD, p, flags, m); }
int open64(const char * p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return doOpen(AT_FDCWD, p, flags, m); }
int close(int fd) { untrack(fd); sim::net::closed(fd); return (int) syscall(SYS_close, fd); }

ssize_t read(int fd, void * b, size_t n) {
  if (sim::net::is(fd)) return recv(fd, b, n, 0);
  if (io() && tracked(fd)) {
    ioPoint(63);
    if (fault(F_EINTR, S->io.eintr)) { errno = EINTR; return -1; }
    if (fault(F_READERR, S->io.readErr)) { note("read fails: EIO"); errno = EIO; return -1; }
    if (n > 1) { unsigned v = choose(4, S->io.shortRead); if (v) { count(F_SHORTREAD); n = v == 1 ? 1 : v == 2 ? n / 2 : n - 1; } }
  }
  return syscall(SYS_read, fd, b, n);
}
// returns -1 (errno set), or the number of bytes to really write
static ssize_t writeFault(size_t n) {
  ioPoint(64);
  if (fault(F_EINTR, S->io.eintr)) { errno = EINTR; return -1; }
  if (fault(F_WRITEERR, S->io.writeErr)) { note("write fails: EIO"); errno = EIO; return -1; }
  if (S->diskFull || fault(F_ENOSPC, S->io.enospc)) { if (!S->diskFull) note("disk full from here on"); S->diskFull = 1; errno = ENOSPC; return -1; }
  if (n > 1) { unsigned v = choose(4, S->io.shortWrite); if (v) { count(F_SHORTWRITE); return (ssize_t) (v == 1 ? 1 : v == 2 ? n / 2 : n - 1); } }
  return (ssize_t) n;
}
ssize_t write(int fd, const void * b, size_t n) {
  if (sim::net::is(fd)) return send(fd, b, n, 0);
  if (io() && tracked(fd)) {
    if (crashHere()) { if (unsigned v = choose(3, 1.0)) syscall(SYS_write, fd, b, v == 1 ? n / 2 : n); crashNow("write"); }
    ssize_t k = writeFault(n); if (k < 0) return -1; n = (size_t) k;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec * v, int c) {
  if (io() && tracked(fd)) {
    size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
    ssize_t k = writeFault(n);
    if (k < 0) return -1;
    if ((size_t) k < n) {
      ssize_t done = 0;
      for (int i = 0; i < c && k > 0; ++i) {
        size_t m = v[i].iov_len < (size_t) k ? v[i].iov_len : (size_t) k;
        ssize_t w = syscall(SYS_write, fd, v[i].iov_base, m);
        if (w < 0) return done ? done : -1;
        done += w; k -= w;
      }
      return done;
    }
  }
  return syscall(SYS_writev, fd, v, c);
}

// ------------------------------------------------------------------ stdio
static int modeFlags(const char * m) {
  int f = m[0] == 'r' ? (strchr(m, '+') ? O_RDWR : O_RDONLY) : m[0] == 'w' ? (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC : (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  return f;
}
static FILE * fopenCommon(const char * p, const char * m, FILE * (*r)(const char *, const char *)) {
  if (g_aliasFrom[0] && !strcmp(p, g_aliasFrom)) p = g_aliasTo;
  if (openFault(p, modeFlags(m))) return nullptr;
  FILE * f = r(p, m);
  if (f) { if (g_active && mine(p)) track(fileno(f)); else untrack(fileno(f)); }
  return f;
}
FILE * fopen(const char * p, const char * m) { RESOLVE(FILE * (*)(const char *, const char *), fopen); return fopenCommon(p, m, r); }
FILE * fopen64(const char * p, const char * m) { RESOLVE(FILE * (*)(const char *, const char *), fopen64); return fopenCommon(p, m, r); }
FILE * fdopen(int fd, const char * m) noexcept { RESOLVE(FILE * (*)(int, const char *), fdopen); return r(fd, m); }
int fclose(FILE * f) {
  RESOLVE(int (*)(FILE *), fclose);
  int fd = fileno(f);
  if (tracked(fd) && crashHere()) { if (choose(2, 0.5)) r(f); crashNow("fclose"); }
  if (io() && tracked(fd) && (f->_IO_write_ptr > f->_IO_write_base)) {
    // pending buffered data has to reach the disk
    ssize_t k = writeFault((size_t) (f->_IO_write_ptr - f->_IO_write_base));
    if (k < 0 && errno != EINTR) { int e = errno; f->_IO_write_ptr = f->_IO_write_base; untrack(fd); r(f); errno = e; return EOF; }
  }
  untrack(fd);
  return r(f);
}
size_t fread(void * b, size_t sz, size_t n, FILE * f) {
  RESOLVE(size_t (*)(void *, size_t, size_t, FILE *), fread);
  if (io() && tracked(fileno(f)) && sz && n) {
    ioPoint(65);
    if (fault(F_READERR, S->io.readErr)) {
      note("fread fails: EIO");
      size_t k = n / 2; if (k) k = r(b, sz, k, f);
      f->_flags |= 0x20; errno = EIO; return k;
    }
  }
  return r(b, sz, n, f);
}
size_t fwrite(const void * b, size_t sz, size_t n, FILE * f) {
  RESOLVE(size_t (*)(const void *, size_t, size_t, FILE *), fwrite);
  if (io() && tracked(fileno(f)) && sz && n) {
    if (crashHere()) { unsigned v = choose(4, 1.0); size_t k = v == 0 ? 0 : v == 1 ? n / 2 : n; if (k) r(b, sz, k, f); if (v == 3) fflush(f); crashNow("fwrite"); }
    ioPoint(66);
    bool e1 = fault(F_WRITEERR, S->io.writeErr);
    bool e2 = !e1 && (S->diskFull || fault(F_ENOSPC, S->io.enospc));
    if (e1 || e2) {
      if (e2) S->diskFull = 1;
      note("fwrite fails: %s", e1 ? "EIO" : "ENOSPC");
      size_t k = n / 2; if (k) k = r(b, sz, k, f);
      f->_flags |= 0x20; errno = e1 ? EIO : ENOSPC; return k;
    }
  }
  return r(b, sz, n, f);
}
int fflush(FILE * f) {
  RESOLVE(int (*)(FILE *), fflush);
  if (f && io() && tracked(fileno(f)) && f->_IO_write_ptr > f->_IO_write_base) {
    ssize_t k = writeFault((size_t) (f->_IO_write_ptr - f->_IO_write_base));
    if (k < 0 && errno != EINTR) { f->_flags |= 0x20; return EOF; }
  }
  return r(f);
}
int rename(const char * a, const char * b) noexcept {
  if (io() && (mine(a) || mine(b))) {
    ioPoint(67);
    if (crashHere()) { if (choose(2, 0.5)) syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); crashNow("rename"); }
    if (fault(F_RENAMEFAIL, S->io.renameFail)) { note("rename %s fails: EIO", a); errno = EIO; return -1; }
  }
  return (int) syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}
int mkstemp(char * t) {
  RESOLVE(int (*)(char *), mkstemp);
  if (openFault(t, O_RDWR | O_CREAT)) return -1;
  int fd = r(t);
  if (fd >= 0 && g_active && mine(t)) track(fd);
  return fd;
}
int remove(const char * p) noexcept {
  RESOLVE(int (*)(const char *), remove);
  if (mine(p) && io()) { ioPoint(68); if (crashHere()) { if (choose(2, 0.5)) r(p); crashNow("remove"); } }
  return r(p);
}
// No cloning of file ranges: it depends on the file system below.
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void * a = va_arg(ap, void *); va_end(ap);
  if (g_active && tracked(fd)) { errno = EOPNOTSUPP; return -1; }
  return (int) syscall(SYS_ioctl, fd, req, a);
}
// Boost.Filesystem copies files with read and write on such a kernel.
int uname(struct utsname * u) noexcept {
  int rc = (int) syscall(SYS_uname, u);
  if (rc == 0) strcpy(u->release, "2.6.30");
  return rc;
}
int mkstemp64(char * t) { return mkstemp(t); }

} // extern "C"
