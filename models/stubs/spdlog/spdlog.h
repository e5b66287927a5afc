// Logging is outside every property: a logger that swallows everything.
#pragma once
#include <memory>
#include <string>
#include <stdexcept>
#include <fmt/format.h>
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
struct spdlog_ex : std::runtime_error { using std::runtime_error::runtime_error; };
class logger {
 public:
  explicit logger(std::string) {}
  template <class... A> void trace(A&&...) {}
  template <class... A> void debug(A&&...) {}
  template <class... A> void info(A&&...) {}
  template <class... A> void warn(A&&...) {}
  template <class... A> void error(A&&...) {}
  template <class... A> void critical(A&&...) {}
  template <class... A> void log(A&&...) {}
  bool should_log(level::level_enum) const { return false; }
  void set_level(level::level_enum) {}
  void flush() {}
};
inline void shutdown() {}
template <class Sink> std::shared_ptr<logger> create_async_nb(const std::string& n) { return std::make_shared<logger>(n); }
namespace sinks { struct ansicolor_stdout_sink_mt {}; }
}  // namespace spdlog
