// Small stand-in for {fmt}: "{}" placeholders with strings, integers, bools, doubles (opaque) and the
// repository's own formatter specialisations. Symbolic side only; native replays use the real library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <memory>
#include <vector>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <iterator>
#include <stdexcept>
#include <ostream>
extern "C" void sym_unmodelled(const char*);
extern "C" int sym_is_symbolic(unsigned long);
namespace fmt {
using std::string_view;
struct format_error : std::runtime_error { using std::runtime_error::runtime_error; };
class format_context { public: std::string* s; using iterator = std::string*; iterator out() { return s; } void advance_to(iterator) {} };
struct format_parse_context {};
template <class T, class E = void> struct formatter;
namespace vp {
inline void u64(std::string* s, unsigned long v) { char b[24]; int n = 0; do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) s->push_back(b[--n]); }
inline void i64(std::string* s, long v) { if (v < 0) { s->push_back('-'); u64(s, 0ul - (unsigned long)v); } else u64(s, (unsigned long)v); }
template <class T, class = void> struct is_range : std::false_type {};
template <class T> struct is_range<T, std::void_t<decltype(std::declval<const T&>().begin()), decltype(std::declval<const T&>().end())>> : std::true_type {};
template <class T, class = void> struct has_formatter : std::false_type {};
template <class T> struct has_formatter<T, std::void_t<decltype(formatter<T>())>> : std::true_type {};
template <class T, class = void> struct has_stream : std::false_type {};
template <class T> void put(std::string* s, const T& v) {
  using U = std::decay_t<T>;
  if constexpr (std::is_same_v<U, bool>) s->append(v ? "true" : "false");
  else if constexpr (std::is_same_v<U, char>) s->push_back(v);
  else if constexpr (std::is_integral_v<U> && std::is_signed_v<U>) i64(s, (long)v);
  else if constexpr (std::is_integral_v<U>) u64(s, (unsigned long)v);
  else if constexpr (std::is_floating_point_v<U>) s->append("<double>");
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) s->append(std::string_view(v));
  else if constexpr (std::is_enum_v<U>) i64(s, (long)v);
  else if constexpr (has_formatter<U>::value) { format_context c; c.s = s; formatter<U> f; f.format(v, c); }
  else if constexpr (is_range<U>::value) { s->append("["); bool first = true; for (const auto& e : v) { if (!first) s->append(", "); first = false; put(s, e); } s->append("]"); }
  else s->append("<object>");
}
inline void run(std::string* o, std::string_view f) { for (size_t i = 0; i < f.size(); i++) { if ((f[i] == '{' || f[i] == '}') && i + 1 < f.size() && f[i + 1] == f[i]) i++; o->push_back(f[i]); } }
template <class A, class... R> void run(std::string* o, std::string_view f, const A& a, const R&... r) {
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] == '{' && i + 1 < f.size() && f[i + 1] == '{') { o->push_back('{'); i++; continue; }
    if (f[i] == '}' && i + 1 < f.size() && f[i + 1] == '}') { o->push_back('}'); i++; continue; }
    if (f[i] == '{') { size_t e = i; while (e < f.size() && f[e] != '}') e++; put(o, a); run(o, f.substr(e + 1), r...); return; }
    o->push_back(f[i]);
  }
}
}  // namespace vp
template <> struct formatter<std::string_view> { format_context::iterator format(std::string_view v, format_context& c) const { c.s->append(v); return c.s; } constexpr auto parse(format_parse_context& c) { return 0; } };
template <> struct formatter<std::string> { format_context::iterator format(const std::string& v, format_context& c) const { c.s->append(v); return c.s; } };
template <> struct formatter<int> { format_context::iterator format(int v, format_context& c) const { vp::i64(c.s, v); return c.s; } };
template <> struct formatter<double> { format_context::iterator format(double v, format_context& c) const { c.s->append("<double>"); return c.s; } };
template <class... A> std::string format(std::string_view f, const A&... a) { std::string s; vp::run(&s, f, a...); return s; }
template <class... A> std::string* format_to(std::string* o, std::string_view f, const A&... a) { vp::run(o, f, a...); return o; }
template <class R> std::string join_impl(const R& r, std::string_view sep) { std::string s; bool first = true; for (const auto& e : r) { if (!first) s.append(sep); first = false; vp::put(&s, e); } return s; }
template <class R> std::string join(const R& r, std::string_view sep) { return join_impl(r, sep); }
template <class... A> void print(std::string_view, const A&...) {}
template <class T> std::string to_string(const T& v) { std::string s; vp::put(&s, v); return s; }
}  // namespace fmt
