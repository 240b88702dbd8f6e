// Interposes the write and seek system calls of the file below a path prefix, to
// inject a fault at the k-th of them or to take a snapshot of the file around it.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
#include <functional>
#include <string>
namespace fio {
enum Fault { kNone, kNoSpace, kIo, kShort, kIntr };
struct State { bool on = false, inside = false; std::string path; long n = 0, at = -1; Fault fault = kNone; bool sticky = false, hit = false; std::function<void(long)> observe; };
inline State& S() { static State s; return s; }
inline bool Ours(int fd) {
  auto& s = S(); if (!s.on || s.inside) return false;
  char l[64], p[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, p, sizeof p - 1); if (k <= 0) return false; p[k] = 0; return s.path == p;
}
// Returns the fault to inject into this call.
inline Fault Step() { auto& s = S(); if (s.observe) { s.inside = true; s.observe(s.n); s.inside = false; } long i = s.n++; if (i == s.at) { s.hit = true; if (s.fault != kShort) return s.fault; return kShort; } if (s.hit && s.sticky && i > s.at) return kNoSpace; return kNone; }
inline void Arm(const std::string& path, long at, Fault f) { auto& s = S(); s = State(); s.path = path; s.at = at; s.fault = f; s.sticky = f == kNoSpace || f == kShort; s.on = true; }
inline void Disarm() { S().on = false; S().observe = nullptr; }
}  // namespace fio
extern "C" {
inline ssize_t fio_fail(fio::Fault f) { errno = f == fio::kIo ? EIO : f == fio::kIntr ? EINTR : ENOSPC; return -1; }
__attribute__((used, visibility("default"))) ssize_t write(int fd, const void* b, size_t n) {
  static auto real = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  if (!fio::Ours(fd)) return real(fd, b, n);
  auto f = fio::Step(); if (f == fio::kNone || (f == fio::kShort && n < 2)) return real(fd, b, n);
  if (f == fio::kShort) return real(fd, b, n / 2);
  return fio_fail(f);
}
__attribute__((used, visibility("default"))) ssize_t writev(int fd, const struct iovec* v, int c) {
  static auto real = (ssize_t (*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
  if (!fio::Ours(fd)) return real(fd, v, c);
  auto f = fio::Step(); if (f == fio::kNone) return real(fd, v, c);
  if (f == fio::kShort) { for (int i = 0; i < c; ++i) if (v[i].iov_len > 1) { static auto w = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); if (i) return real(fd, v, i); return w(fd, v[i].iov_base, v[i].iov_len / 2); } return real(fd, v, c); }
  return fio_fail(f);
}
__attribute__((used, visibility("default"))) off_t lseek64(int fd, off_t o, int w) {
  static auto real = (off_t (*)(int, off_t, int))dlsym(RTLD_NEXT, "lseek64");
  if (!fio::Ours(fd)) return real(fd, o, w);
  auto f = fio::Step(); if (f == fio::kNone || f == fio::kShort || f == fio::kIntr) return real(fd, o, w);
  errno = f == fio::kIo ? EIO : ENOSPC; return -1;
}
__attribute__((used, visibility("default"))) off_t lseek(int fd, off_t o, int w) {
  static auto real = (off_t (*)(int, off_t, int))dlsym(RTLD_NEXT, "lseek");
  if (!fio::Ours(fd)) return real(fd, o, w);
  auto f = fio::Step(); if (f == fio::kNone || f == fio::kShort || f == fio::kIntr) return real(fd, o, w);
  errno = f == fio::kIo ? EIO : ENOSPC; return -1;
}
}
