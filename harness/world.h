// A daemon without the network: real registry, real server, a harness-driven clock.
#pragma once
#include "harness.h"
#include "spectator/registry.h"
#include "spectator/percentile_timer.h"
#include "spectator/percentile_distribution_summary.h"
#include <optional>
#include <string>
#include <string_view>
static int64_t g_now = 1700000000000000000ll, g_steady = 5000000000000ll;
#ifndef VP_OWN_CLOCK
extern "C" int64_t env_wall_nanos(void) { return g_now; }
extern "C" int64_t env_steady_nanos(void) { return g_steady; }
#endif
static spectator::StrRef SR(std::string_view s) { return spectator::intern_str(s); }
struct TestCfg : spectator::Config { bool on = true; bool is_enabled() const override { return on; } };
static std::unique_ptr<TestCfg> mkCfg() {
  auto c = std::make_unique<TestCfg>();
  c->read_timeout = absl::Milliseconds(3000); c->connect_timeout = absl::Milliseconds(1000); c->batch_size = 10; c->frequency = absl::Seconds(5);
  c->expiration_frequency = absl::Seconds(60); c->meter_ttl = absl::Minutes(15); c->age_gauge_limit = 10; c->uri = "http://h/p"; c->status_metrics_enabled = true;
  return c;
}
static std::shared_ptr<spdlog::logger> mkLog() { static auto l = std::make_shared<spdlog::logger>("x"); return l; }
struct TestReg : spectator::Registry { using Registry::Registry; using Registry::remove_expired_meters; };
// the character replacement of the meter name space, written independently
static unsigned char cleanc(unsigned char c) {
  int ok = sym_or(sym_or(sym_and(c >= '0', c <= '9'), sym_and(c >= 'a', c <= 'z')), sym_and(c >= 'A', c <= 'Z'));
  ok = sym_or(ok, sym_or(sym_or(c == '.', c == '-'), sym_or(c == '~', c == '^')));
  return (unsigned char)sym_ite64(ok, c, '_');
}
static int textIs(spectator::StrRef r, const char* p, size_t n) {   // r reads as the cleaned p[0..n)
  if (r.Get() == nullptr) return n == 0;
  if (r.Length() != n) return 0;
  int ok = 1; const char* g = r.Get();
  for (size_t i = 0; i < n; i++) ok = sym_and(ok, (unsigned char)g[i] == cleanc((unsigned char)p[i]));
  return ok;
}
