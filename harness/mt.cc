// Meters, registry parts and the string pool used from several threads: every interleaving of their
// atomic accesses and lock operations with a bounded number of preemptions.
#include "harness.h"
#include "spectator/counter.h"
#include "spectator/gauge.h"
#include "spectator/max_gauge.h"
#include "spectator/age_gauge.h"
#include "spectator/timer.h"
#include "spectator/dist_summary.h"
#include "spectator/monotonic_counter.h"
#include "spectator/monotonic_counter_uint.h"
#include "spectator/monotonic_sampled.h"
#include <cmath>
using namespace spectator;
static int64_t g_now = 1700000000000000000ll;
extern "C" int64_t env_wall_nanos(void) { return g_now; }
static StrRef S(const char* s) { return intern_str(std::string_view(s)); }
template <class F> static void spawn(F& f) { sym_thread([](void* p) { (*static_cast<F*>(p))(); }, &f); }
static Id mkId() { refs(); S("count"); return Id(S("m"), Tags{}); }
static double sum(const Measurements& ms, const char* stat) { double t = 0; for (auto& m : ms) if (m.id.GetTags().at(S("statistic")) == S(stat)) t = t + m.value; return t; }
static int cnt(const Measurements& ms, const char* stat) { int t = 0; for (auto& m : ms) if (m.id.GetTags().at(S("statistic")) == S(stat)) t++; return t; }
// powers of two: any sum identifies its parts
HARNESS(h_mt_counter) {
  Counter c(mkId()); Measurements ms; const int R = (int)sym_param("rounds", 1);
  auto a = [&] { for (int i = 0; i < R; i++) c.Add(i ? 8 : 1); }; auto b = [&] { for (int i = 0; i < R; i++) c.Add(i ? 16 : 2); }; auto m = [&] { for (int i = 0; i < R; i++) c.Measure(&ms); };
  spawn(a); spawn(b); spawn(m); sym_join_all();
  double reported = sum(ms, "count"), pending = c.Count(); if (pending > 0 && reported > 0) sym_reach("split");
  sym_observe_u64("reported", dbits(reported)); sym_observe_u64("pending", dbits(pending));
  sym_assert(reported + pending == (R == 1 ? 3 : 27), "every increment is reported exactly once"); c.Measure(&ms); sym_assert(sum(ms, "count") == (R == 1 ? 3 : 27), "every increment is reported exactly once");
}
HARNESS(h_mt_timer) {
  Timer t(mkId()); Measurements ms; const int W = (int)sym_param("writers", 2);
  auto a = [&] { t.Record(std::chrono::nanoseconds(1000000000)); }; auto b = [&] { t.Record(std::chrono::nanoseconds(3000000000)); }; auto m = [&] { t.Measure(&ms); };
  if (sym_param("mfirst", 0)) spawn(m); spawn(a); if (W > 1) spawn(b); if (!sym_param("mfirst", 0)) spawn(m); sym_join_all();
  double n = cnt(ms, "count"); if (n) sym_reach("measured"); else sym_reach("not measured");
  t.Measure(&ms); double count = sum(ms, "count"), total = sum(ms, "totalTime"), sq = sum(ms, "totalOfSquares"), mx = 0; for (auto& x : ms) if (x.id.GetTags().at(S("statistic")) == S("max") && x.value > mx) mx = x.value;
  sym_observe_u64("count", dbits(count)); sym_observe_u64("total", dbits(total));
  t.Record(std::chrono::nanoseconds(0)); t.Measure(&ms);   // whatever was left pending by a recording in progress
  count = sum(ms, "count"); total = sum(ms, "totalTime"); sq = sum(ms, "totalOfSquares"); mx = 0; for (auto& x : ms) if (x.id.GetTags().at(S("statistic")) == S("max") && x.value > mx) mx = x.value;
  sym_assert(count == W + 1, "every recording is counted exactly once");
  sym_assert(total == (W > 1 ? 4 : 1), "every recording enters the total exactly once");
  sym_assert(sq == (W > 1 ? 10 : 1), "every recording enters the total of squares exactly once");
  sym_assert(mx == (W > 1 ? 3 : 1), "the largest recording is reported");
}
HARNESS(h_mt_dist) {
  DistributionSummary t(mkId()); Measurements ms; const int W = (int)sym_param("writers", 2);
  auto a = [&] { t.Record(1); }; auto b = [&] { t.Record(3); }; auto m = [&] { t.Measure(&ms); };
  spawn(a); if (W > 1) spawn(b); spawn(m); sym_join_all();
  if (cnt(ms, "count")) sym_reach("measured"); else sym_reach("not measured");
  t.Measure(&ms); t.Record(0); t.Measure(&ms);
  double count = sum(ms, "count"), total = sum(ms, "totalAmount"), sq = sum(ms, "totalOfSquares"), mx = 0; for (auto& x : ms) if (x.id.GetTags().at(S("statistic")) == S("max") && x.value > mx) mx = x.value;
  sym_observe_u64("total", dbits(total));
  sym_assert(count == W + 1, "every recording is counted exactly once");
  sym_assert(total == (W > 1 ? 4 : 1), "every recording enters the total exactly once");
  sym_assert(sq == (W > 1 ? 10 : 1), "every recording enters the total of squares exactly once");
  sym_assert(mx == (W > 1 ? 3 : 1), "the largest recording is reported");
}
HARNESS(h_mt_maxgauge) {
  MaxGauge g(mkId()); Measurements ms;
  auto a = [&] { g.Update(5); g.Update(2); }; auto b = [&] { g.Update(3); g.Update(7); }; auto m = [&] { g.Measure(&ms); };
  spawn(a); spawn(b); spawn(m); sym_join_all();
  if (ms.size()) sym_reach("measured"); g.Measure(&ms);
  double mx = 0; for (auto& x : ms) { if (x.value > mx) mx = x.value; sym_observe_u64("v", dbits(x.value)); }
  sym_assert(mx == 7, "the largest value is reported");
  sym_assert(ms.size() >= 1 && ms.size() <= 2, "each report is made once");
}
HARNESS(h_mt_gauge) {
  // the gauge is live throughout: the last set value stays readable and every report is a set value
  Gauge g(mkId(), absl::Seconds(60)); Measurements ms; g.Set(1);
  auto a = [&] { g.Set(2); }; auto b = [&] { g.Set(3); }; auto m = [&] { g.Measure(&ms); };
  spawn(a); spawn(b); spawn(m); sym_join_all();
  sym_assert(ms.size() == 1 && (ms[0].value == 1 || ms[0].value == 2 || ms[0].value == 3), "a live gauge reports a value it was set to"); sym_observe_u64("v", dbits(ms[0].value));
  double v = g.Get(); sym_assert(v == 2 || v == 3, "the last value stays"); if (v == 2) sym_reach("2 last"); else sym_reach("3 last");
}
HARNESS(h_mt_gauge_expiry) {
  // a gauge past its time to live is set while it is being measured: the new value must outlive that report
  Gauge g(mkId(), absl::Seconds(5)); Measurements ms; g.Set(1); g_now += 6000000000ll;
  auto a = [&] { g.Set(2); }; auto m = [&] { g.Measure(&ms); };
  spawn(a); spawn(m); if (sym_param("setters", 1) > 1) spawn(a); sym_join_all();
  if (ms.size() == 1 && ms[0].value == 1) sym_reach("old value"); if (ms.size() == 1 && ms[0].value == 2) sym_reach("new value");
  sym_assert(ms.size() == 1, "an expired gauge reports once more"); ms.clear(); g.Measure(&ms); sym_assert(ms.size() == 1 && ms[0].value == 2, "a value just set is reported until its time to live has passed"); sym_observe_u64("v", dbits(ms[0].value));
}
HARNESS(h_mt_monotonic) {
  MonotonicCounter c(mkId()); Measurements ms; c.Set(10); c.Measure(&ms); sym_assert(ms.empty(), "no increase before a baseline");
  auto a = [&] { c.Set(11); c.Set(13); }; auto m = [&] { c.Measure(&ms); c.Measure(&ms); };
  spawn(a); spawn(m); sym_join_all();
  if (ms.size() == 2) sym_reach("two reports"); c.Measure(&ms); sym_observe_u64("n", ms.size());
  sym_assert(sum(ms, "count") == 3, "the reported increases add up to the whole increase");
}
HARNESS(h_mt_monotonic_uint) {
  MonotonicCounterUint c(mkId()); Measurements ms; const bool first = sym_pick("baseline", 2);
  if (first) { c.Set(10); c.Measure(&ms); sym_assert(ms.empty(), "no increase before a baseline"); }
  auto a = [&] { c.Set(11); c.Set(13); }; auto m = [&] { c.Measure(&ms); c.Measure(&ms); };
  spawn(a); spawn(m); sym_join_all();
  if (ms.size() == 2) sym_reach("two reports"); c.Measure(&ms); sym_observe_u64("n", ms.size()); double s = sum(ms, "count");
  if (first) sym_assert(s == 3, "the reported increases add up to the whole increase"); else sym_assert(s == 0 || s == 2, "no increase before a baseline");
}
HARNESS(h_mt_sampled) {
  MonotonicSampled c(mkId()); Measurements ms; const int64_t t = 1700000000000000000ll, s = 1000000000ll; c.Set(10, t); c.Set(12, t + s); c.Measure(&ms); sym_assert(ms.size() == 1 && ms[0].value == 2, "rate of the first samples"); ms.clear();
  auto a = [&] { c.Set(15, t + 2 * s); }; auto b = [&] { c.Set(19, t + 3 * s); }; auto m = [&] { c.Measure(&ms); };
  spawn(a); spawn(b); spawn(m); sym_join_all(); if (ms.size()) sym_reach("measured"); c.Measure(&ms); sym_observe_u64("n", ms.size());
  // rates times intervals: 12 at t+1 to 19 at t+3, in one or two reports
  double v0 = ms.size() ? ms[0].value : 0, v1 = ms.size() > 1 ? ms[1].value : 0;
  sym_assert((ms.size() == 1 && v0 == 3.5) || (ms.size() == 2 && ((v0 == 3 && v1 == 4) || (v0 == 7 && false))), "the reported rates cover every interval exactly once");
}
