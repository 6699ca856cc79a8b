// Abseil's clock.  The library's version reads the CPU's time-stamp counter
// and retries when a read took too long, which is real time; this one is the
// simulated clock and nothing else.  (Defining all of clock.cc's symbols keeps
// the library's object out of the link.)
#include <time.h>

#include "absl/time/clock.h"
#include "absl/time/time.h"

namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return static_cast<int64_t>(ts.tv_sec) * 1000000000ll + ts.tv_nsec;
}
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }
ABSL_NAMESPACE_END
}  // namespace absl

extern "C" void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration d) {
  struct timespec ts = absl::ToTimespec(d);
  nanosleep(&ts, nullptr);
}
