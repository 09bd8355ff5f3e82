// Stand-in for absl/log/absl_log.h, which the installed Abseil (20220623) does
// not have. Same observable contract for the code under test: INFO, WARNING and
// ERROR are dropped, FATAL prints its message and aborts the process.
#ifndef VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_

#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>

namespace verif_log {

class NullMessage {
 public:
  template <typename T>
  NullMessage& operator<<(const T&) {
    return *this;
  }
  NullMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  NullMessage& WithVerbosity(int) { return *this; }
};

class FatalMessage {
 public:
  FatalMessage(const char* file, int line) { s_ << file << ":" << line << " "; }
  [[noreturn]] ~FatalMessage() {
    std::fprintf(stderr, "FATAL %s\n", s_.str().c_str());
    std::fflush(stderr);
    std::abort();
  }
  template <typename T>
  FatalMessage& operator<<(const T& v) {
    s_ << v;
    return *this;
  }
  FatalMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }

 private:
  std::ostringstream s_;
};

struct Voidify {
  template <typename T>
  void operator&&(T&&) const {}
};

}  // namespace verif_log

#define VERIF_LOG_INFO ::verif_log::NullMessage()
#define VERIF_LOG_WARNING ::verif_log::NullMessage()
#define VERIF_LOG_ERROR ::verif_log::NullMessage()
#define VERIF_LOG_FATAL ::verif_log::FatalMessage(__FILE__, __LINE__)

#define ABSL_LOG(severity) VERIF_LOG_##severity
#define ABSL_LOG_IF(severity, condition) \
  switch (0)                             \
  case 0:                                \
  default:                               \
    !(condition) ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_##severity

#endif  // VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_
