// The registry, the string pool and the caches used from several threads: every interleaving of their
// lock operations and atomic accesses within a bounded number of preemptions, with happens-before race
// detection on every plain access.
#include "world.h"
#include "server/expiring_cache.h"
#include "spectator/string_pool.h"
#include <vector>
using namespace spectator;
static const int64_t S1 = 1000000000ll;
template <class F> static void spawn(F& f) { sym_thread([](void* p) { (*static_cast<F*>(p))(); }, &f); }
static std::unique_ptr<TestReg> reg(int limit = 10) { refs(); auto c = mkCfg(); c->age_gauge_limit = limit; c->status_metrics_enabled = false; return std::make_unique<TestReg>(std::move(c), mkLog()); }
static Id id(const char* n) { return Id(SR(n), Tags{}); }
static double sumOf(const std::vector<Measurement>& ms, const char* name) { double t = 0; for (auto& m : ms) if (m.id.Name() == SR(name)) t += m.value; return t; }
static int cntOf(const std::vector<Measurement>& ms, const char* name) { int t = 0; for (auto& m : ms) if (m.id.Name() == SR(name)) t++; return t; }
// two threads ask for the same id, or for different ones, at the same time
HARNESS(h_rmt_get) {
  auto r = reg(); Registry* R = r.get(); void* got[2] = {nullptr, nullptr}; int kind = (int)sym_param("kind", 0); Id i0 = id("m"), i1 = sym_param("same", 1) ? id("m") : id("n");
  auto go = [&](int k) {
    Id i = k ? i1 : i0;
    switch (kind) {
      case 0: { auto m = R->GetCounter(i); m->Increment(); got[k] = m.get(); break; }
      case 1: { auto m = R->GetGauge(i); m->Set(k + 1); got[k] = m.get(); break; }
      case 2: { auto m = R->GetMaxGauge(i); m->Update(k + 1); got[k] = m.get(); break; }
      case 3: { auto m = R->GetTimer(i); m->Record(absl::Seconds(1)); got[k] = m.get(); break; }
      case 4: { auto m = R->GetDistributionSummary(i); m->Record(1); got[k] = m.get(); break; }
      case 5: { auto m = R->GetMonotonicCounter(i); m->Set(k + 1); got[k] = m.get(); break; }
      case 6: { auto m = R->GetMonotonicCounterUint(i); m->Set(k + 1); got[k] = m.get(); break; }
      case 7: { auto m = R->GetMonotonicSampled(i); m->Set(k + 1, (k + 1) * S1); got[k] = m.get(); break; }
      case 8: { auto m = R->GetAgeGauge(i); m->UpdateLastSuccess(S1); got[k] = m.get(); break; }
      default: { auto m = R->GetGauge(i, absl::Seconds(10)); m->Set(k + 1); got[k] = m.get(); break; }
    }
  };
  auto a = [&] { go(0); }; auto b = [&] { go(1); }; spawn(a); spawn(b); sym_join_all();
  bool same = sym_param("same", 1); sym_assert((got[0] == got[1]) == same, "threads asking for the same id get the same meter"); sym_assert(R->Size() == (same ? 2u : 3u), "each id has one meter");
  auto ms = R->Measurements(); double t = sumOf(ms, "m") + sumOf(ms, "n");
  if (kind == 0) sym_assert(t == 2, "no update is lost"); if (kind == 4 && same) sym_assert(t == 2 + 2 + 2 + 1, "no update is lost"); if (kind == 2) sym_assert(t == (same ? 2 : 3), "no update is lost"); if (kind == 1 || kind == 9) sym_assert(same ? t == 1 || t == 2 : t == 3, "no update is lost");
  sym_reach("done");
}
// updating, measuring, expiring and deleting at the same time
HARNESS(h_rmt_rounds) {
  auto r = reg(); TestReg* R = r.get(); int what = (int)sym_param("what", 0); std::vector<Measurement> ms; auto old = R->GetCounter(id("old")); old->Add(4); R->Measurements(); old.reset(); R->GetGauge(id("g"), absl::Seconds(5))->Set(3); R->GetAgeGauge(id("a"))->UpdateLastSuccess(g_now); g_now += 1000 * S1; R->GetCounter(id("m"))->Add(1); std::shared_ptr<AgeGauge> ag;
  auto upd = [&] { R->GetCounter(id("m"))->Add(2); }; auto upd2 = [&] { R->GetCounter(id("n"))->Add(8); }; auto mea = [&] { ms = R->Measurements(); }; auto exp = [&] { R->remove_expired_meters(); };
  auto del = [&] { R->DeleteMeter("A", id("a")); R->DeleteAllMeters("g"); }; auto age = [&] { ag = R->GetAgeGauge(id("a")); ag->UpdateLastSuccess(g_now); }; auto look = [&] { (void)R->Size(); };
  switch (what) { case 0: spawn(upd); spawn(mea); break; case 1: spawn(upd2); spawn(exp); break; case 2: spawn(mea); spawn(exp); break; case 3: spawn(age); spawn(del); break; case 4: spawn(mea); spawn(del); break; case 5: spawn(upd2); spawn(mea); spawn(exp); break; default: spawn(look); spawn(upd2); spawn(del); }
  sym_join_all(); auto more = R->Measurements(); double m = sumOf(ms, "m") + sumOf(more, "m"), n = sumOf(ms, "n") + sumOf(more, "n");
  sym_assert(m == (what == 0 ? 3 : 1), "no update is lost"); sym_assert(n == (what == 1 || what >= 5 ? 8 : 0), "no update is lost"); sym_assert(sumOf(ms, "old") == 0, "an expired meter is not measured");
  if (what == 1 || what == 2 || what == 5) { R->remove_expired_meters(); sym_assert(R->Counters().size() == (what == 2 ? 1u : 2u) && R->Gauges().empty(), "expired meters are removed, the others stay"); }
  if (what == 3) { sym_assert(ag && ag->Value(g_now) == 0, "the age gauge asked for is returned"); sym_assert(cntOf(more, "a") <= 1 && R->Gauges().empty(), "what was deleted is gone"); if (cntOf(more, "a")) sym_reach("kept"); else sym_reach("deleted"); }
  sym_reach("done");
}
// the limit on age gauges holds however threads interleave
HARNESS(h_rmt_agelimit) {
  auto r = reg(1); Registry* R = r.get(); std::shared_ptr<AgeGauge> g[2]; auto a = [&] { g[0] = R->GetAgeGauge(id("a")); }; auto b = [&] { g[1] = R->GetAgeGauge(id(sym_param("same", 0) ? "a" : "b")); };
  spawn(a); spawn(b); sym_join_all(); sym_assert(g[0] && g[1], "an age gauge is always returned"); sym_assert(R->AgeGauges().size() == 1, "no more age gauges than the limit"); sym_assert(!sym_param("same", 0) || g[0] == g[1], "threads asking for the same id get the same meter"); sym_reach("done");
}
// interning from two threads
HARNESS(h_rmt_intern) {
  static StringPool* P; P = new StringPool; StrRef got[2][2]; static const char* const kT[] = {"a", "a b", "a_b", "c"}; const char* t[2][2];
  for (int i = 0; i < 2; i++) { t[0][i] = kT[sym_pick(i ? "text01" : "text00", 4)]; t[1][i] = kT[sym_pick(i ? "text11" : "text10", 4)]; }
  int n = (int)sym_param("n", 2); auto a = [&] { for (int i = 0; i < n; i++) got[0][i] = P->Intern(t[0][i]); }; auto b = [&] { for (int i = 0; i < n; i++) got[1][i] = P->Intern(t[1][i]); }; spawn(a); spawn(b); sym_join_all();
  auto norm = [](const char* s) { return !strcmp(s, "a b") ? "a_b" : s; }; size_t distinct = 0; const char* seen[4];
  for (int i = 0; i < 2; i++) for (int k = 0; k < n; k++) {
    sym_assert(!strcmp(got[i][k].Get(), norm(t[i][k])), "a handle reads as its text"); bool nw = true; for (size_t d = 0; d < distinct; d++) if (!strcmp(seen[d], norm(t[i][k]))) nw = false; if (nw) seen[distinct++] = norm(t[i][k]);
    for (int j = 0; j < 2; j++) for (int l = 0; l < n; l++) sym_assert((got[i][k] == got[j][l]) == !strcmp(norm(t[i][k]), norm(t[j][l])), "threads interning the same text get the same handle");
  }
  auto s = P->Stats(); sym_assert(s.table_size == distinct && s.misses == distinct && s.hits + s.misses == (size_t)(2 * n), "each text is stored once"); if (distinct == 1) sym_reach("same"); else sym_reach("different"); delete P;
}
// the cache of percentile meters
static int made;
struct Thing { Registry* r; Id id; };
static std::unique_ptr<Thing> make(Registry* r, Id i) { made++; return std::make_unique<Thing>(Thing{r, std::move(i)}); }
HARNESS(h_rmt_cache) {
  auto r = reg(); spectatord::expiring_cache<Thing> c{make}; Thing* got[2]; made = 0; std::pair<size_t, size_t> e{0, 0}; c.get_or_create(r.get(), id("old")); g_steady += 121 * S1; c.get_or_create(r.get(), id("m")); bool same = sym_param("same", 1);
  auto a = [&] { got[0] = c.get_or_create(r.get(), id("x")); sym_assert(got[0]->id == id("x"), "the entry asked for is returned"); }; auto b = [&] { got[1] = c.get_or_create(r.get(), id(same ? "x" : "m")); sym_assert(got[1]->id == id(same ? "x" : "m"), "the entry asked for is returned"); }; auto x = [&] { e = c.expire(); };
  spawn(a); spawn(b); if (sym_param("expire", 1)) spawn(x); sym_join_all(); sym_assert((got[0] == got[1]) == same && made == 3, "one entry is made for each id"); if (sym_param("expire", 1)) { sym_assert(e.second == 1, "entries unused for two minutes are removed"); sym_assert(c.expire().first == 2, "the other entries stay"); }
  sym_reach("done");
}
// common tags changed while they are read
HARNESS(h_rmt_tags) {
  auto r = reg(); Registry* R = r.get(); std::map<std::string, std::string> ct; R->UpdateCommonTag("b", "1"); auto a = [&] { R->UpdateCommonTag("a", "x"); R->EraseCommonTag("b"); }; auto b = [&] { ct = R->CommonTags(); }; spawn(a); spawn(b); sym_join_all();
  sym_assert(ct.count("a") || ct.count("b"), "a consistent set of common tags is read"); auto e = R->CommonTags(); sym_assert(e.size() == 1 && e["a"] == "x", "the changes are made"); sym_reach("done");
}
// percentile meters recorded to from two threads
HARNESS(h_rmt_percentile) {
  auto r = reg(); TestReg* R = r.get(); PercentileTimer t{R, id("p"), absl::ZeroDuration(), absl::Seconds(100)}; PercentileDistributionSummary d{R, id("q"), 0, 1000}; int what = (int)sym_param("what", 0);
  auto a = [&] { if (what == 0) t.Record(absl::Seconds(1)); else d.Record(10); }; auto b = [&] { if (what == 0) t.Record(absl::Seconds(1)); else d.Record(500); }; spawn(a); spawn(b); sym_join_all();
  sym_assert(what == 0 ? t.Count() == 2 : d.Count() == 2, "no update is lost"); double c = 0; for (auto& m : R->Measurements()) if (m.id.GetTags().at(SR("statistic")) == SR("percentile")) c += m.value; sym_assert(c == 2, "no update is lost"); sym_reach("done");
}
// an update through a meter that expires between being asked for and being updated
HARNESS(h_rmt_expire_update) {
  auto r = reg(); TestReg* R = r.get(); auto old = R->GetCounter(id("old")); old->Add(4); R->Measurements(); old.reset(); g_now += 1000 * S1;
  auto upd = [&] { R->GetCounter(id("old"))->Add(2); }; auto exp = [&] { R->remove_expired_meters(); }; spawn(upd); spawn(exp); sym_join_all();
  auto more = R->Measurements(); sym_reach(R->Counters().empty() ? "removed" : "kept"); sym_assert(sumOf(more, "old") == 2, "an update is not lost to the expiration of the meter between its lookup and the update");
}
