// Wall-clock time of the process under driver control (include once).
#ifndef VERIF_HARNESS_VCLOCK_H_
#define VERIF_HARNESS_VCLOCK_H_

#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

#include <cstdint>

#include "absl/time/clock.h"
#include "absl/time/time.h"

namespace vclock {
inline constexpr int64_t kBase = 1700000000;  // s
inline int64_t* ms = nullptr;                 // ms since kBase; null: real time
}  // namespace vclock

extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) {
  static auto real = reinterpret_cast<int (*)(clockid_t, struct timespec*)>(dlsym(RTLD_NEXT, "clock_gettime"));
  if (id != CLOCK_REALTIME || !vclock::ms) return real(id, t);
  t->tv_sec = vclock::kBase + *vclock::ms / 1000;
  t->tv_nsec = *vclock::ms % 1000 * 1000000;
  return 0;
}
int gettimeofday(struct timeval* t, void*) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (out) *out = s.tv_sec;
  return s.tv_sec;
}
}

// The library's absl::Now() extrapolates between looks at the clock.
namespace absl {
ABSL_NAMESPACE_BEGIN
Time Now() {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  return TimeFromTimespec(s);
}
ABSL_NAMESPACE_END
}  // namespace absl

#endif  // VERIF_HARNESS_VCLOCK_H_
