#include "fsops.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace vh::fsops {
  static Plan *plan = nullptr;
  static thread_local bool busy = false;
  static std::recursive_mutex mtx;
  void arm(Plan *p) { plan = p; }

  template <typename T>
  static T real(char const *n) {
    return reinterpret_cast<T>(dlsym(RTLD_NEXT, n));
  }
  static std::string of_fd(int fd) {
    char l[64], b[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = real<ssize_t (*)(char const *, char *, size_t)>("readlink")(l, b, sizeof b - 1);
    return n < 0 ? std::string() : std::string(b, static_cast<size_t>(n));
  }
  static std::string full(char const *p, int dirfd = AT_FDCWD) {
    if (!p) return {};
    if (p[0] == '/') return p;
    if (dirfd != AT_FDCWD) return of_fd(dirfd) + "/" + p;
    char b[PATH_MAX];
    return getcwd(b, sizeof b) ? std::string(b) + "/" + p : std::string(p);
  }
  struct Op {
    bool on = false, data = false;
    int error = 0;
    std::string name, path;
    bool half = false;
    // changing: counted, may be made to fail
    Op(char const *n, std::string const &p, bool changing, bool _data = false) : data(_data), name(n), path(p) {
      if (!plan || busy || path.compare(0, plan->dir.size(), plan->dir) != 0) return;
      if (plan->concerns && !plan->concerns()) return;
      on = true;
      busy = true;
      if (plan->before) plan->before(name, path, changing);
      if (changing) {
        std::lock_guard<std::recursive_mutex> g(mtx);
        int k = plan->count++;
        for (auto const &f : plan->faults) {
          if (!f.full && f.at == k) error = EIO;
          if (f.full && data && k >= f.at) {
            error = ENOSPC;
            half = k == f.at || plan->failed == 0;
          }
        }
        if (error) ++plan->failed;
      } else if (name == "read" && plan->reads++ == plan->read_fault) {
        error = EIO;
        ++plan->failed;
      }
      busy = false;
    }
    template <typename R>
    R done(R r, bool changing = true) {
      if (!on || !changing) return r;
      int e = errno;
      busy = true;
      if (plan->after) plan->after(name, path, error ? error : (r < 0 ? e : 0));
      busy = false;
      errno = e;
      return r;
    }
    int fail() {
      done(0);
      errno = error;
      return -1;
    }
  };
} // namespace vh::fsops

using namespace vh::fsops;
extern "C" {
int rename(char const *a, char const *b) noexcept {
  Op o("rename", full(b), true);
  return o.error ? o.fail() : o.done(real<int (*)(char const *, char const *)>("rename")(a, b));
}
int remove(char const *a) noexcept {
  Op o("remove", full(a), true);
  return o.error ? o.fail() : o.done(real<int (*)(char const *)>("remove")(a));
}
int unlink(char const *a) noexcept {
  Op o("remove", full(a), true);
  return o.error ? o.fail() : o.done(real<int (*)(char const *)>("unlink")(a));
}
int unlinkat(int d, char const *a, int f) noexcept {
  Op o("remove", full(a, d), true);
  return o.error ? o.fail() : o.done(real<int (*)(int, char const *, int)>("unlinkat")(d, a, f));
}
int mkdir(char const *a, mode_t m) noexcept {
  Op o("mkdir", full(a), true);
  return o.error ? o.fail() : o.done(real<int (*)(char const *, mode_t)>("mkdir")(a, m));
}
int link(char const *a, char const *b) noexcept {
  Op o("link", full(b), true);
  return o.error ? o.fail() : o.done(real<int (*)(char const *, char const *)>("link")(a, b));
}
int symlink(char const *a, char const *b) noexcept {
  Op o("symlink", full(b), true);
  return o.error ? o.fail() : o.done(real<int (*)(char const *, char const *)>("symlink")(a, b));
}
int truncate(char const *a, off_t n) noexcept {
  Op o("truncate", full(a), true);
  return o.error ? o.fail() : o.done(real<int (*)(char const *, off_t)>("truncate")(a, n));
}
int open(char const *a, int f, ...) {
  mode_t m = 0;
  if (f & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, f);
    m = va_arg(ap, mode_t);
    va_end(ap);
  }
  bool w = (f & O_ACCMODE) != O_RDONLY;
  Op o((f & O_CREAT) ? ((f & O_EXCL) ? "create" : "open") : w ? "open" : "read", full(a), w);
  return o.error ? o.fail() : o.done(real<int (*)(char const *, int, ...)>("open")(a, f, m), w);
}
int openat(int d, char const *a, int f, ...) {
  mode_t m = 0;
  if (f & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, f);
    m = va_arg(ap, mode_t);
    va_end(ap);
  }
  bool w = (f & O_ACCMODE) != O_RDONLY;
  Op o((f & O_CREAT) ? ((f & O_EXCL) ? "create" : "open") : w ? "open" : "read", full(a, d), w);
  return o.error ? o.fail() : o.done(real<int (*)(int, char const *, int, ...)>("openat")(d, a, f, m), w);
}
static FILE *file_open(char const *sym, char const *a, char const *m) {
  bool w = strpbrk(m, "wa+") != nullptr;
  Op o(!w ? "read" : strchr(m, 'x') ? "create" : "open", full(a), w);
  if (o.error) {
    o.fail();
    return nullptr;
  }
  FILE *f = real<FILE *(*)(char const *, char const *)>(sym)(a, m);
  o.done(f ? 0 : -1, w);
  return f;
}
FILE *fopen(char const *a, char const *m) { return file_open("fopen", a, m); }
FILE *fopen64(char const *a, char const *m) { return file_open("fopen64", a, m); }
ssize_t write(int fd, void const *p, size_t n) {
  auto w = real<ssize_t (*)(int, void const *, size_t)>("write");
  if (!plan) return w(fd, p, n);
  Op o("write", of_fd(fd), true, true);
  if (o.half) (void)!w(fd, p, n / 2);
  return o.error ? o.fail() : o.done(w(fd, p, n));
}
ssize_t writev(int fd, struct iovec const *v, int k) {
  auto w = real<ssize_t (*)(int, struct iovec const *, int)>("writev");
  if (!plan) return w(fd, v, k);
  Op o("write", of_fd(fd), true, true);
  if (o.half && k > 0) {
    struct iovec x = v[k - 1];
    x.iov_len /= 2;
    (void)!w(fd, &x, 1);
  }
  return o.error ? o.fail() : o.done(w(fd, v, k));
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) noexcept {
  auto w = real<ssize_t (*)(int, int, off_t *, size_t)>("sendfile");
  if (!plan) return w(out, in, off, n);
  Op o("write", of_fd(out), true, true);
  return o.error ? o.fail() : o.done(w(out, in, off, n));
}
ssize_t copy_file_range(int in, off64_t *i, int out, off64_t *j, size_t n, unsigned f) {
  auto w = real<ssize_t (*)(int, off64_t *, int, off64_t *, size_t, unsigned)>("copy_file_range");
  if (!plan) return w(in, i, out, j, n, f);
  Op o("write", of_fd(out), true, true);
  return o.error ? o.fail() : o.done(w(in, i, out, j, n, f));
}
static bool writes(int fd) {
  int f = fcntl(fd, F_GETFL);
  return f >= 0 && (f & O_ACCMODE) != O_RDONLY;
}
int close(int fd) {
  auto c = real<int (*)(int)>("close");
  if (!plan || !writes(fd)) return c(fd);
  Op o("close", of_fd(fd), true);
  int r = c(fd);
  return o.error ? o.fail() : o.done(r);
}
int fclose(FILE *f) {
  auto c = real<int (*)(FILE *)>("fclose");
  if (!plan || !writes(fileno(f))) return c(f);
  Op o("close", of_fd(fileno(f)), true);
  int r = c(f);
  return o.error ? o.fail() : o.done(r);
}
int stat(char const *a, struct stat *s) noexcept {
  Op o("stat", full(a), false);
  return real<int (*)(char const *, struct stat *)>("stat")(a, s);
}
int lstat(char const *a, struct stat *s) noexcept {
  Op o("stat", full(a), false);
  return real<int (*)(char const *, struct stat *)>("lstat")(a, s);
}
int access(char const *a, int m) noexcept {
  Op o("stat", full(a), false);
  return real<int (*)(char const *, int)>("access")(a, m);
}
int nanosleep(struct timespec const *t, struct timespec *r) {
  if (plan && plan->sleepless) return 0;
  return real<int (*)(struct timespec const *, struct timespec *)>("nanosleep")(t, r);
}
}
