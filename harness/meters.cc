// Meters used from one thread: every sequence of updates and measurements up to a length.
#include "harness.h"
#include "spectator/counter.h"
#include "spectator/gauge.h"
#include "spectator/max_gauge.h"
#include "spectator/age_gauge.h"
#include "spectator/timer.h"
#include "spectator/dist_summary.h"
#include "spectator/monotonic_counter.h"
#include "spectator/monotonic_counter_uint.h"
#include "spectator/monotonic_sampled.h"
#include <cmath>
#include <string>
using namespace spectator;
static int64_t g_now = 1700000000000000000ll;
extern "C" int64_t env_wall_nanos(void) { return g_now; }
static StrRef S(const char* s) { return intern_str(std::string_view(s)); }
// an id without statistic, with an unrelated tag, or with an explicit statistic
static int g_shape;
static Id mkId() { g_shape = (int)(sym_param("shape", -1) >= 0 ? sym_param("shape", 0) : sym_pick("id", 3)); Tags t; if (g_shape >= 1) t.add(S("app"), S("x")); if (g_shape == 2) t.add(S("statistic"), S("mine")); return Id(S("m"), std::move(t)); }
static void tick() { int64_t t = (int64_t)sym_u64("now"); sym_assume(sym_and(t >= g_now, t <= 3000000000000000000ll)); g_now = t; }
// measurement i carries the meter's name and tags and the expected statistic
static void chkId(const Measurement& m, const char* stat, bool keep) {
  const char* want = keep && g_shape == 2 ? "mine" : stat; const Tags& t = m.id.GetTags();
  sym_assert(m.id.Name() == S("m"), "the measurement carries the meter's name");
  sym_assert(t.at(S("statistic")) == S(want), "the measurement carries the right statistic");
  sym_assert(t.size() == (g_shape >= 1 ? 2u : 1u) && (g_shape < 1 || t.at(S("app")) == S("x")), "the measurement carries the meter's tags");
}
static void obs(const Measurements& m) { for (auto& x : m) sym_observe_u64("v", dbits(x.value)); }
static void expect1(Measurements& ms, bool want, double v, const char* stat, bool keep, const char* msg) {
  sym_assert(ms.size() == (want ? 1u : 0u), msg);
  if (want) { sym_assert(dbits(ms[0].value) == dbits(v) || sym_same_double(ms[0].value, v), msg); chkId(ms[0], stat, keep); }
  obs(ms); ms.clear();
}
static double val(const char* n, double inc) { (void)inc; return sym_double(n); }
HARNESS(h_counter) {
  const int K = (int)sym_param("k", 4);
  Counter c(mkId()); double acc = 0; Measurements ms; int rep = 0;
  for (int i = 0; i < K; i++) switch (sym_pick("op", 3)) {
    case 0: { double d = val("d", 1); c.Add(d); if (d >= 0) acc = acc + d; break; }
    case 1: c.Increment(); acc = acc + 1.0; break;
    default: c.Measure(&ms); if (acc > 0) rep++; expect1(ms, acc > 0, acc, "count", true, "a counter reports exactly what was added since the last report"); acc = 0;
  }
  sym_assert(sym_same_double(c.Count(), acc), "the pending count is what was added since the last report");
  c.Measure(&ms); expect1(ms, acc > 0, acc, "count", true, "a counter reports exactly what was added since the last report");
  c.Measure(&ms); expect1(ms, false, 0, "count", true, "a reported amount is not reported again");
  if (rep) sym_reach("reported"); sym_reach("done");
}
// every whole number of nanoseconds, 36 years either way
static absl::Duration dur(const char* n, int64_t* ns, bool* neg) {
  *ns = (int64_t)sym_u64(n); sym_assume(sym_and(*ns >= -(1ll << 60), *ns <= 1ll << 60)); *neg = *ns < 0;
  return absl::Nanoseconds(*ns);
}
HARNESS(h_timer) {
  const int K = (int)sym_param("k", 3);
  Timer t(mkId()); Measurements ms; int64_t n = 0, tot = 0, mx = 0; double sq = 0;
  auto chk = [&] {
    t.Measure(&ms);
    if (n == 0) { sym_assert(ms.empty(), "an idle timer reports nothing"); return; }
    sym_assert(ms.size() == 4, "a used timer reports count, total, total of squares and maximum");
    double want[4] = {(double)n, tot / 1e9, sq / 1e18, mx / 1e9}; static const char* st[4] = {"count", "totalTime", "totalOfSquares", "max"};
    for (int j = 0; j < 4; j++) { int seen = 0; for (auto& m : ms) if (m.id.GetTags().at(S("statistic")) == S(st[j])) { seen++; chkId(m, st[j], false); sym_assert(sym_same_double(m.value, want[j]), "a timer reports the aggregates of exactly the durations recorded since the last report"); } sym_assert(seen == 1, "each timer statistic is reported once"); }
    obs(ms); ms.clear(); n = 0; tot = 0; mx = 0; sq = 0; sym_reach("reported");
  };
  for (int i = 0; i < K; i++) switch (sym_pick("op", 3)) {
    case 0: { bool neg; int64_t d; t.Record(dur("d", &d, &neg)); if (!neg) { n++; tot += d; sq = sq + (double)d * (double)d; if (d > mx) mx = d; } break; }
    case 1: { int64_t d; bool neg; dur("ns", &d, &neg); t.Record(std::chrono::nanoseconds(d)); if (d >= 0) { n++; tot += d; sq = sq + (double)d * (double)d; if (d > mx) mx = d; } break; }
    default: chk();
  }
  sym_assert(t.Count() == n && t.TotalTime() == tot, "pending totals are those of the durations recorded since the last report");
  chk(); t.Measure(&ms); sym_assert(ms.empty(), "reported durations are not reported again"); sym_reach("done");
}
HARNESS(h_dist) {
  const int K = (int)sym_param("k", 3);
  DistributionSummary t(mkId()); Measurements ms; int64_t n = 0; double tot = 0, mx = 0, sq = 0;
  auto chk = [&] {
    t.Measure(&ms);
    if (n == 0) { sym_assert(ms.empty(), "an idle distribution summary reports nothing"); return; }
    sym_assert(ms.size() == 4, "a used distribution summary reports count, total, total of squares and maximum");
    double want[4] = {(double)n, tot, sq, mx}; static const char* st[4] = {"count", "totalAmount", "totalOfSquares", "max"};
    for (int j = 0; j < 4; j++) { int seen = 0; for (auto& m : ms) if (m.id.GetTags().at(S("statistic")) == S(st[j])) { seen++; chkId(m, st[j], false); sym_assert(sym_same_double(m.value, want[j]), "a distribution summary reports the aggregates of exactly the amounts recorded since the last report"); } sym_assert(seen == 1, "each statistic is reported once"); }
    obs(ms); ms.clear(); n = 0; tot = 0; mx = 0; sq = 0; sym_reach("reported");
  };
  for (int i = 0; i < K; i++) switch (sym_pick("op", 2)) {
    case 0: { double d = val("d", 0); t.Record(d); if (d >= 0) { n++; tot = tot + d; sq = sq + d * d; if (d > mx) mx = d; } break; }
    default: chk();
  }
  sym_assert(t.Count() == n && sym_same_double(t.TotalAmount(), tot), "pending totals are those of the amounts recorded since the last report");
  chk(); t.Measure(&ms); sym_assert(ms.empty(), "reported amounts are not reported again"); sym_reach("done");
}
HARNESS(h_gauge) {
  const int K = (int)sym_param("k", 4);
  int64_t ttl; bool neg; absl::Duration td = dur("ttl", &ttl, &neg);
  auto eff = [](int64_t t) { return t < 5000000000ll ? 5000000000ll : t; };
  Gauge g(mkId(), td); int64_t lim = eff(ttl), upd = g_now; bool has = false; double v = 0; Measurements ms;
  auto meas = [&](bool ex) {
    tick(); bool exp = g_now - upd > lim; if (exp) sym_reach("expired"); else sym_reach("live");
    if (ex) g.Measure(&ms, g_now); else g.Measure(&ms);
    expect1(ms, has, v, "gauge", true, "a gauge reports its last value until its time to live has passed, then at most once more"); if (exp) has = false;
    sym_assert(g.HasExpired(g_now) == exp, "a gauge expires when its time to live has passed since the last update");
  };
  for (int i = 0; i < K; i++) switch (sym_pick("op", 4)) {
    case 0: { double d = val("d", 0); tick(); g.Set(d); v = d; has = !(d != d); upd = g_now; sym_assert(g.Updated() == g_now, "an update is stamped with the current time"); break; }
    case 1: { int64_t t; bool ng; absl::Duration d = dur("ttl", &t, &ng); g.SetTtl(d); lim = eff(t); break; }
    case 2: sym_assert(sym_same_double(g.Get(), has ? v : NAN), "reading a gauge gives its last value"); break;
    default: meas(false);
  }
  meas(true);
}
HARNESS(h_maxgauge) {
  const int K = (int)sym_param("k", 4);
  MaxGauge g(mkId()); bool has = false; double mx = 0; Measurements ms;
  for (int i = 0; i < K; i++) switch (sym_pick("op", 3)) {
    case 0: { double d = val("d", 0); tick(); if (sym_pick("set", 2)) g.Set(d); else g.Update(d); sym_assert(g.Updated() == g_now, "an update is stamped with the current time"); if (d > -1.7976931348623157e308) { if (!has || d > mx) mx = d; has = true; } break; }
    case 1: sym_assert(sym_same_double(g.Get(), has ? mx : NAN), "reading a max gauge gives the maximum so far"); break;
    default: g.Measure(&ms); if (has) sym_reach("reported"); else sym_reach("nothing"); expect1(ms, has, mx, "max", false, "a max gauge reports the largest value set since the last report"); has = false;
  }
  g.Measure(&ms); expect1(ms, has, mx, "max", false, "a max gauge reports the largest value set since the last report");
  g.Measure(&ms); expect1(ms, false, 0, "max", false, "a maximum is reported once");
}
HARNESS(h_agegauge) {
  const int K = (int)sym_param("k", 3);
  AgeGauge g(mkId()); int64_t last = 0; Measurements ms;
  for (int i = 0; i < K; i++) switch (sym_pick("op", 3)) {
    case 0: { int64_t t = (int64_t)sym_range("t", 0, 3000000000000000000ull); g.UpdateLastSuccess(t); last = t; sym_assert(g.GetLastSuccess() == t, "the last success is kept"); break; }
    case 1: tick(); g.UpdateLastSuccess(); last = g_now; break;
    default: tick(); g.Measure(&ms); expect1(ms, true, (double)(g_now - last) / 1e9, "gauge", true, "an age gauge reports the seconds since the last success"); sym_reach("reported");
  }
}
HARNESS(h_monotonic) {
  const int K = (int)sym_param("k", 4);
  MonotonicCounter c(mkId()); bool has = false, base = false; double v = 0, b = 0; Measurements ms;
  for (int i = 0; i < K; i++) switch (sym_pick("op", 2)) {
    case 0: { double d = val("d", 0); c.Set(d); v = d; has = true; break; }
    default: { bool w = has && base && v - b > 0; double dl = v - b; if (has) { b = v; base = true; }
      c.Measure(&ms); if (w) sym_reach("reported"); expect1(ms, w, dl, "count", true, "a monotonic counter reports the increase since the last report"); }
  }
  if (has && base) sym_assert(sym_same_double(c.Delta(), v - b), "the delta is the increase since the last report"); else sym_assert(std::isnan(c.Delta()), "no delta before a baseline");
}
HARNESS(h_monotonic_uint) {
  const int K = (int)sym_param("k", 4);
  MonotonicCounterUint c(mkId()); bool has = false, base = false; uint64_t v = 0, b = 0; Measurements ms;
  for (int i = 0; i < K; i++) switch (sym_pick("op", 2)) {
    case 0: { v = sym_u64("d"); c.Set(v); has = true; break; }
    default: { uint64_t dl = v - b; bool w = has && base && dl > 0; double x = (double)dl; if (w) { sym_reach(v < b ? "wrapped" : "increased"); if (x > 9.223372e18) { x = 0; sym_reach("suspicious"); } } if (has) { b = v; base = true; }
      c.Measure(&ms); expect1(ms, w, x, "count", true, "an unsigned monotonic counter reports the increase modulo 2^64 since the last report, zero if above 2^63"); }
  }
  if (has && base) sym_assert(sym_same_double(c.Delta(), (double)(uint64_t)(v - b)), "the delta is the increase modulo 2^64"); else sym_assert(std::isnan(c.Delta()), "no delta before a baseline");
}
HARNESS(h_sampled) {
  const int K = (int)sym_param("k", 4);
  MonotonicSampled c(mkId()); int n = 0; double v = 0, pv = NAN; int64_t t = 0, pt = 0; Measurements ms; v = NAN;
  for (int i = 0; i < K; i++) switch (sym_pick("op", 2)) {
    case 0: { double d = val("d", 0); static const int64_t TS[] = {1700000000000000000ll, 1700000000250000000ll, 1700000001000000000ll, 1700000060000000000ll, 1700000000000000001ll, 1699999999000000000ll}; int64_t ts = TS[sym_pick("ts", 6)]; sym_assume(sym_and(d >= -1e300, d <= 1e300));
      c.Set(d, ts); if (ts >= t) { if (pv != pv) { pv = v; pt = t; } v = d; t = ts; n++; } else sym_reach("out of order"); break; }
    default: { double r = t > pt ? (v - pv) / ((t - pt) / 1e9) : NAN; bool w = r > 0; if (r == r) { pv = v; pt = t; }
      sym_assert(sym_same_double(c.SampledRate(), r) || r == r, "no rate before two samples");
      c.Measure(&ms); if (w) sym_reach("reported"); expect1(ms, w, r, "count", false, "a sampled counter reports the rate between the reported samples"); }
  }
}
