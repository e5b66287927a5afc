// Native replays take the time from the harness, like the symbolic models do.
#include "../models/sym.h"
#include <absl/time/clock.h>
#include <absl/time/time.h>
#include <chrono>
extern "C" __attribute__((weak)) int64_t env_wall_nanos(void) { return 1600000000000000000ll; }
extern "C" __attribute__((weak)) int64_t env_steady_nanos(void) { return 1000000000000ll; }
namespace absl { ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() { return env_wall_nanos(); }
Time Now() { return FromUnixNanos(env_wall_nanos()); }
ABSL_NAMESPACE_END }
extern "C" void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration) {}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(env_steady_nanos())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(env_wall_nanos())); }
} } }
#include "absl/synchronization/mutex.h"
// allocate absl's per-thread bookkeeping before heap accounting starts
static struct Warm { Warm() { absl::Mutex m; m.Lock(); m.Unlock(); } } warm_;
extern "C" __attribute__((weak)) void env_sleep(int64_t) {}
#include <time.h>
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { env_sleep(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
#include <thread>
extern "C" __attribute__((weak)) unsigned vp_concurrency(void) { return 2; }
unsigned std::thread::hardware_concurrency() noexcept { return vp_concurrency(); }
