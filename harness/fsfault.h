// File system calls of the code under test, seen by the driver (include in one
// translation unit only): they can be made to fail or to end the process at a
// chosen point, and calls that would change anything outside the scratch
// directory are recorded and refused.
#ifndef VERIF_HARNESS_FSFAULT_H_
#define VERIF_HARNESS_FSFAULT_H_

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <cstdint>
#include <cstring>
#include <filesystem>
#include <string>

#include "trace.h"

namespace fsf {
inline int fd = -1;             // trace, written line by line
inline std::string root;        // scratch directory
inline bool armed = false;      // inside a call of the code under test
inline int countdown = -1;      // file system calls until the fault
inline bool crash = false;      // end the process instead of failing the call
inline int more = 0;            // further calls that fail after the first
inline bool fired = false;
inline std::string crash_event;
inline uint64_t part = 0;       // how much of a failing write happens

template <typename F>
F Real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

inline void Line(const std::string& s) {
  std::string x = s + "\n";
  static auto real = Real<ssize_t (*)(int, const void*, size_t)>("write");
  if (real(fd, x.data(), x.size()) != static_cast<ssize_t>(x.size())) _exit(3);
}
// True if this call is to fail.
inline bool Hit() {
  if (!armed || countdown < 0) return false;
  if (countdown-- > 0) return false;
  fired = true;
  if (more > 0) {
    --more;
    countdown = 0;
  }
  return true;
}
inline void Die() {
  Line(crash_event);
  _exit(77);
}
inline bool Outside(const char* p) {
  if (!armed) return false;
  std::string q = std::filesystem::path(p[0] == '/' ? std::string(p) : root + "/cwd/" + p).lexically_normal().string();
  if (q.compare(0, root.size() + 1, root + "/") == 0) return false;
  Line(verif::Ev("escape").s("path", q).str());
  return true;
}
}  // namespace fsf

#define FSF_FAIL(err, res)              \
  if (fsf::Hit()) {                     \
    if (fsf::crash) fsf::Die();         \
    errno = err;                        \
    return res;                         \
  }
#define FSF_GUARD(path, res)            \
  if (fsf::Outside(path)) {             \
    errno = EACCES;                     \
    return res;                         \
  }
extern "C" {
ssize_t write(int f, const void* p, size_t n) {
  static auto real = fsf::Real<ssize_t (*)(int, const void*, size_t)>("write");
  if (fsf::Hit()) {
    size_t k = n ? fsf::part % (n + 1) : 0;
    if (k) (void)!real(f, p, k);
    if (fsf::crash) fsf::Die();
    errno = ENOSPC;
    return -1;
  }
  return real(f, p, n);
}
ssize_t writev(int f, const struct iovec* v, int c) {
  static auto real = fsf::Real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (fsf::Hit()) {
    static auto w = fsf::Real<ssize_t (*)(int, const void*, size_t)>("write");
    if (c && v[0].iov_len) (void)!w(f, v[0].iov_base, fsf::part % (v[0].iov_len + 1));
    if (fsf::crash) fsf::Die();
    errno = ENOSPC;
    return -1;
  }
  return real(f, v, c);
}
ssize_t read(int f, void* p, size_t n) {
  FSF_FAIL(EIO, -1);
  static auto real = fsf::Real<ssize_t (*)(int, void*, size_t)>("read");
  return real(f, p, n);
}
FILE* fopen(const char* p, const char* m) {
  if (m[0] != 'r' || m[1] == '+') FSF_GUARD(p, nullptr);
  FSF_FAIL(EIO, nullptr);
  static auto real = fsf::Real<FILE* (*)(const char*, const char*)>("fopen");
  return real(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (m[0] != 'r' || m[1] == '+') FSF_GUARD(p, nullptr);
  FSF_FAIL(EIO, nullptr);
  static auto real = fsf::Real<FILE* (*)(const char*, const char*)>("fopen64");
  return real(p, m);
}
#define FSF_OPEN(name)                                                        \
  int name(const char* p, int flags, ...) {                                   \
    va_list a;                                                                \
    va_start(a, flags);                                                       \
    mode_t mode = (flags & O_CREAT) ? va_arg(a, mode_t) : 0;                  \
    va_end(a);                                                                \
    if (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) FSF_GUARD(p, -1);    \
    FSF_FAIL(EIO, -1);                                                        \
    static auto real = fsf::Real<int (*)(const char*, int, ...)>(#name);      \
    return real(p, flags, mode);                                              \
  }
FSF_OPEN(open)
FSF_OPEN(open64)
#define FSF_PATH1(name)                                                       \
  int name(const char* p) {                                                   \
    FSF_GUARD(p, -1);                                                         \
    FSF_FAIL(EIO, -1);                                                        \
    static auto real = fsf::Real<int (*)(const char*)>(#name);                \
    return real(p);                                                           \
  }
FSF_PATH1(remove)
FSF_PATH1(unlink)
FSF_PATH1(rmdir)
int unlinkat(int dir, const char* p, int flags) {
  if (p[0] == '/') FSF_GUARD(p, -1);
  if (fsf::armed && p[0] != '/' && dir >= 0) {  // relative to an open directory
    char buf[4096];
    ssize_t n = readlink(("/proc/self/fd/" + std::to_string(dir)).c_str(), buf, sizeof buf);
    FSF_GUARD((std::string(buf, n > 0 ? n : 0) + "/" + p).c_str(), -1);
  }
  FSF_FAIL(EIO, -1);
  static auto real = fsf::Real<int (*)(int, const char*, int)>("unlinkat");
  return real(dir, p, flags);
}
int rename(const char* a, const char* b) {
  FSF_GUARD(a, -1);
  FSF_GUARD(b, -1);
  FSF_FAIL(EIO, -1);
  static auto real = fsf::Real<int (*)(const char*, const char*)>("rename");
  return real(a, b);
}
int mkdir(const char* p, mode_t m) {
  FSF_GUARD(p, -1);
  FSF_FAIL(EIO, -1);
  static auto real = fsf::Real<int (*)(const char*, mode_t)>("mkdir");
  return real(p, m);
}
int openat(int dir, const char* p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  mode_t mode = (flags & O_CREAT) ? va_arg(a, mode_t) : 0;
  va_end(a);
  if (p[0] == '/' && (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))) FSF_GUARD(p, -1);
  FSF_FAIL(EACCES, -1);
  static auto real = fsf::Real<int (*)(int, const char*, int, ...)>("openat");
  return real(dir, p, flags, mode);
}
int __openat_2(int dir, const char* p, int flags) {
  FSF_FAIL(EACCES, -1);
  static auto real = fsf::Real<int (*)(int, const char*, int)>("__openat_2");
  return real(dir, p, flags);
}
DIR* opendir(const char* p) {
  FSF_FAIL(EIO, nullptr);
  static auto real = fsf::Real<DIR* (*)(const char*)>("opendir");
  return real(p);
}
}

#endif  // VERIF_HARNESS_FSFAULT_H_
