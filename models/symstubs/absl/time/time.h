// absl durations and times as saturating 64-bit nanoseconds (the real ones: quarter nanoseconds
// with a 64-bit number of seconds).  The two agree on whole nanoseconds within 292 years.
#ifndef ABSL_TIME_TIME_H_
#define ABSL_TIME_TIME_H_
#include <sys/time.h>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <ctime>
#include <limits>
#include <ostream>
#include <string>
#include <type_traits>
#include "absl/base/macros.h"
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Duration;
namespace time_internal {
constexpr Duration raw(int64_t n);
constexpr int64_t rep(Duration d);
constexpr int64_t satAdd(int64_t a, int64_t b) { int64_t r = 0; return __builtin_add_overflow(a, b, &r) ? (b < 0 ? INT64_MIN : INT64_MAX) : r; }
constexpr int64_t satMul(int64_t a, int64_t b) { int64_t r = 0; return __builtin_mul_overflow(a, b, &r) ? ((a < 0) != (b < 0) ? INT64_MIN : INT64_MAX) : r; }
template <class T> constexpr int64_t scale(T v, int64_t unit) {
  if constexpr (std::is_floating_point<T>::value) { double d = (double)v * (double)unit; return d >= 9223372036854775807.0 ? INT64_MAX : d <= -9223372036854775808.0 ? INT64_MIN : d != d ? (d < 0 ? INT64_MIN : INT64_MAX) : (int64_t)d; }
  else { if (!std::is_signed<T>::value && (uint64_t)v > (uint64_t)INT64_MAX) return INT64_MAX; return unit == 1 ? (int64_t)v : satMul((int64_t)v, unit); }
}
constexpr bool inf(int64_t a) { return a == INT64_MAX || a == INT64_MIN; }
}
class Duration {
 public:
  constexpr Duration() : n_(0) {}
  Duration& operator+=(Duration o) { if (!time_internal::inf(n_)) n_ = time_internal::inf(o.n_) ? o.n_ : time_internal::satAdd(n_, o.n_); return *this; }
  Duration& operator-=(Duration o) { int64_t r = 0; if (!time_internal::inf(n_)) n_ = time_internal::inf(o.n_) ? (o.n_ < 0 ? INT64_MAX : INT64_MIN) : (__builtin_sub_overflow(n_, o.n_, &r) ? (o.n_ < 0 ? INT64_MAX : INT64_MIN) : r); return *this; }
  template <class T> Duration& operator*=(T r) { if constexpr (std::is_floating_point<T>::value) n_ = time_internal::scale((double)n_ * (double)r, 1); else n_ = time_internal::inf(n_) ? ((n_ < 0) != (r < 0) ? INT64_MIN : INT64_MAX) : time_internal::satMul(n_, (int64_t)r); return *this; }
  template <class T> Duration& operator/=(T r) { if constexpr (std::is_floating_point<T>::value) n_ = time_internal::scale((double)n_ / (double)r, 1); else n_ = time_internal::inf(n_) || r == 0 ? ((n_ < 0) != (r < 0) ? INT64_MIN : INT64_MAX) : n_ / (int64_t)r; return *this; }
  Duration& operator%=(Duration o) { if (o.n_ != 0 && !time_internal::inf(o.n_)) n_ = n_ % o.n_; return *this; }
  template <class H> friend H AbslHashValue(H h, Duration d) { return H::combine(std::move(h), d.n_); }
 private:
  friend constexpr Duration time_internal::raw(int64_t);
  friend constexpr int64_t time_internal::rep(Duration);
  constexpr explicit Duration(int64_t n) : n_(n) {}
  int64_t n_;
};
namespace time_internal {
constexpr Duration raw(int64_t n) { return Duration(n); }
constexpr int64_t rep(Duration d) { return d.n_; }
}
constexpr bool operator<(Duration a, Duration b) { return time_internal::rep(a) < time_internal::rep(b); }
constexpr bool operator>(Duration a, Duration b) { return b < a; }
constexpr bool operator>=(Duration a, Duration b) { return !(a < b); }
constexpr bool operator<=(Duration a, Duration b) { return !(b < a); }
constexpr bool operator==(Duration a, Duration b) { return time_internal::rep(a) == time_internal::rep(b); }
constexpr bool operator!=(Duration a, Duration b) { return !(a == b); }
constexpr Duration InfiniteDuration() { return time_internal::raw(INT64_MAX); }
constexpr Duration operator-(Duration d) { return time_internal::raw(time_internal::rep(d) == INT64_MIN ? INT64_MAX : time_internal::rep(d) == INT64_MAX ? INT64_MIN : -time_internal::rep(d)); }
inline Duration operator+(Duration a, Duration b) { return a += b; }
inline Duration operator-(Duration a, Duration b) { return a -= b; }
template <class T> Duration operator*(Duration a, T r) { return a *= r; }
template <class T> Duration operator*(T l, Duration a) { return a *= l; }
template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> Duration operator/(Duration a, T r) { return a /= r; }
inline int64_t operator/(Duration a, Duration b) {
  int64_t x = time_internal::rep(a), y = time_internal::rep(b);
  if (time_internal::inf(x) || y == 0) return (x < 0) != (y < 0) ? INT64_MIN : INT64_MAX;
  if (time_internal::inf(y)) return 0;
  return x / y;
}
inline Duration operator%(Duration a, Duration b) { return a %= b; }
inline int64_t IDivDuration(Duration a, Duration b, Duration* rem) { int64_t q = a / b; *rem = a % b; return q; }
inline double FDivDuration(Duration a, Duration b) {
  int64_t x = time_internal::rep(a), y = time_internal::rep(b);
  if (time_internal::inf(x) || y == 0) return (x < 0) == (y < 0) ? __builtin_inf() : -__builtin_inf();
  if (time_internal::inf(y)) return 0;
  return (double)x / (double)y;
}
constexpr Duration ZeroDuration() { return Duration(); }
inline Duration AbsDuration(Duration d) { return d < ZeroDuration() ? -d : d; }
inline Duration Trunc(Duration d, Duration u) { return d - (d % u); }
inline Duration Floor(Duration d, Duration u) { Duration t = Trunc(d, u); return t <= d ? t : t - AbsDuration(u); }
inline Duration Ceil(Duration d, Duration u) { Duration t = Trunc(d, u); return t >= d ? t : t + AbsDuration(u); }
#define VP_UNIT(N, U) template <class T> constexpr Duration N(T n) { return time_internal::raw(time_internal::scale(n, U)); }
VP_UNIT(Nanoseconds, 1) VP_UNIT(Microseconds, 1000) VP_UNIT(Milliseconds, 1000000) VP_UNIT(Seconds, 1000000000) VP_UNIT(Minutes, 60000000000ll) VP_UNIT(Hours, 3600000000000ll)
#undef VP_UNIT
#define VP_TO(N, U) inline int64_t ToInt64##N(Duration d) { int64_t n = time_internal::rep(d); return U == 1 || time_internal::inf(n) ? n : n / U; } inline double ToDouble##N(Duration d) { return FDivDuration(d, time_internal::raw(U)); }
VP_TO(Nanoseconds, 1) VP_TO(Microseconds, 1000) VP_TO(Milliseconds, 1000000) VP_TO(Seconds, 1000000000) VP_TO(Minutes, 60000000000ll) VP_TO(Hours, 3600000000000ll)
#undef VP_TO
template <class R, class P> constexpr Duration FromChrono(const std::chrono::duration<R, P>& d) {
  using X = std::ratio_divide<P, std::nano>;
  if constexpr (X::den == 1) return time_internal::raw(time_internal::scale(d.count(), X::num));
  else return time_internal::raw(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count());
}
#define VP_CH(N, T) inline std::chrono::T ToChrono##N(Duration d) { int64_t n = time_internal::rep(d); return n == INT64_MAX ? std::chrono::T::max() : n == INT64_MIN ? std::chrono::T::min() : std::chrono::duration_cast<std::chrono::T>(std::chrono::nanoseconds(n)); }
VP_CH(Nanoseconds, nanoseconds) VP_CH(Microseconds, microseconds) VP_CH(Milliseconds, milliseconds) VP_CH(Seconds, seconds) VP_CH(Minutes, minutes) VP_CH(Hours, hours)
#undef VP_CH
inline std::string FormatDuration(Duration d) { return std::to_string(time_internal::rep(d)) + "ns"; }
inline std::ostream& operator<<(std::ostream& os, Duration d) { return os << FormatDuration(d); }

class Time {
 public:
  constexpr Time() = default;
  Time& operator+=(Duration d) { d_ += d; return *this; }
  Time& operator-=(Duration d) { d_ -= d; return *this; }
  friend constexpr bool operator<(Time a, Time b) { return a.d_ < b.d_; }
  friend constexpr bool operator>(Time a, Time b) { return a.d_ > b.d_; }
  friend constexpr bool operator<=(Time a, Time b) { return a.d_ <= b.d_; }
  friend constexpr bool operator>=(Time a, Time b) { return a.d_ >= b.d_; }
  friend constexpr bool operator==(Time a, Time b) { return a.d_ == b.d_; }
  friend constexpr bool operator!=(Time a, Time b) { return a.d_ != b.d_; }
  friend Duration operator-(Time a, Time b) { return a.d_ - b.d_; }
  friend Time operator+(Time a, Duration d) { return a += d; }
  friend Time operator+(Duration d, Time a) { return a += d; }
  friend Time operator-(Time a, Duration d) { return a -= d; }
  constexpr explicit Time(Duration d) : d_(d) {}
  Duration sinceEpoch() const { return d_; }
 private:
  Duration d_;
};
constexpr Time UnixEpoch() { return Time(); }
constexpr Time InfiniteFuture() { return Time(InfiniteDuration()); }
constexpr Time InfinitePast() { return Time(-InfiniteDuration()); }
inline Time FromUnixNanos(int64_t n) { return Time(Nanoseconds(n)); }
inline Time FromUnixMicros(int64_t n) { return Time(Microseconds(n)); }
inline Time FromUnixMillis(int64_t n) { return Time(Milliseconds(n)); }
inline Time FromUnixSeconds(int64_t n) { return Time(Seconds(n)); }
inline Time FromTimeT(time_t t) { return FromUnixSeconds(t); }
inline int64_t ToUnixNanos(Time t) { return ToInt64Nanoseconds(t.sinceEpoch()); }
inline int64_t ToUnixMicros(Time t) { return ToInt64Microseconds(Floor(t.sinceEpoch(), Microseconds(1))); }
inline int64_t ToUnixMillis(Time t) { return ToInt64Milliseconds(Floor(t.sinceEpoch(), Milliseconds(1))); }
inline int64_t ToUnixSeconds(Time t) { return ToInt64Seconds(Floor(t.sinceEpoch(), Seconds(1))); }
inline time_t ToTimeT(Time t) { return ToUnixSeconds(t); }
inline Time FromChrono(const std::chrono::system_clock::time_point& t) { return Time(FromChrono(t.time_since_epoch())); }
inline std::chrono::system_clock::time_point ToChronoTime(Time t) { return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(ToChronoNanoseconds(t.sinceEpoch()))); }
ABSL_NAMESPACE_END
}
#endif
