// Out-of-line parts of absl used by the code under test.
#include "sym.h"
#include <absl/synchronization/mutex.h>
#include <absl/synchronization/blocking_counter.h>
#include <absl/time/time.h>
#include <absl/time/clock.h>
#include <absl/strings/numbers.h>
#include <stdexcept>
namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() { sym_mutex_lock(this); }
void Mutex::Unlock() { sym_mutex_unlock(this); }
bool Mutex::TryLock() { return sym_mutex_trylock(this); }
void Mutex::ReaderLock() { sym_mutex_rlock(this); }
void Mutex::ReaderUnlock() { sym_mutex_runlock(this); }
Mutex::~Mutex() { sym_mutex_destroy(this); }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
int64_t GetCurrentTimeNanos() { return env_wall_nanos(); }
Time Now() { return FromUnixNanos(env_wall_nanos()); }
namespace base_internal { void ThrowStdOutOfRange(const char* s) { throw std::out_of_range(s); } }

// ---- BlockingCounter: the waiting thread spins through the scheduler
BlockingCounter::BlockingCounter(int n) : count_(n), num_waiting_(0), done_(n == 0) { if (n < 0) sym_fail("BlockingCounter with a negative count"); }
bool BlockingCounter::DecrementCount() { int c = count_.fetch_sub(1, std::memory_order_acq_rel) - 1; if (c < 0) sym_fail("BlockingCounter decremented below zero"); if (c == 0) sym_cond_signal(this); return c == 0; }
void BlockingCounter::Wait() { while (count_.load(std::memory_order_acquire) > 0) sym_cond_block(this); }
ABSL_NAMESPACE_END
}  // namespace absl
#include <absl/strings/str_split.h>
namespace absl {
ABSL_NAMESPACE_BEGIN
ByAnyChar::ByAnyChar(absl::string_view sp) : delimiters_(sp) {}
absl::string_view ByAnyChar::Find(absl::string_view t, size_t pos) const {
  for (size_t i = pos; i < t.size(); i++) for (char d : delimiters_) if (t[i] == d) return {t.data() + i, 1};
  return {t.data() + t.size(), 0};
}
namespace numbers_internal {
static bool sp(char c) { return (c == ' ') | ((unsigned char)(c - 9) < 5u); }
bool safe_strto32_base(absl::string_view t, int32_t* v, int base) {
  if (base != 10) sym_unmodelled("safe_strto32_base");
  size_t b = 0, e = t.size(); *v = 0;
  while (b < e && sp(t[b])) b++;
  while (e > b && sp(t[e - 1])) e--;
  if (b == e) return false;
  bool neg = t[b] == '-'; if (neg || t[b] == '+') b++;
  if (b == e) return false;
  int64_t a = 0;
  for (; b < e; b++) {
    unsigned d = (unsigned char)t[b] - '0'; if (d > 9) return false;
    a = a * 10 + d;
    if (neg ? a > 2147483648ll : a > 2147483647ll) { *v = neg ? INT32_MIN : INT32_MAX; return false; }
  }
  *v = (int32_t)(neg ? -a : a); return true;
}
}
ABSL_NAMESPACE_END
}  // namespace absl
