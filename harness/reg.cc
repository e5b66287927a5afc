// The registry and the meter cache: histories of look-ups, updates, clock advances, expiry, deletion.
#include "harness.h"
#include "spectator/common_refs.h"
#include "spectator/string_intern.h"
#include <algorithm>
#include <cassert>
#include <functional>
#include <initializer_list>
#include <memory>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <ostream>
#include <map>
#include <unordered_map>
#include <vector>
#include <string>
#define private public
#include "spectator/id.h"
#undef private
#include "world.h"
#include "server/expiring_cache.h"
#include <cmath>
using namespace spectator;
static const int64_t S1 = 1000000000ll, TTL = 900 * S1;
static Id mkId(int i) { Tags t; if (i >= 1) t.add(SR("k"), SR(i == 1 ? "a" : "b")); if (i == 3) t.add(SR("id"), SR("x")); return Id(SR("m"), std::move(t)); }
// what the model knows of one meter
struct E { bool there = false; const void* p = nullptr; int64_t upd = 0, ttl = TTL; int pend = 0; bool set = false, base = false; int n = 0; int64_t last = 0; };
static E es[3];
static std::unique_ptr<TestReg> R;
static int T;   // the type under test: A c d g m C U X t
static std::shared_ptr<void> get(int i, int64_t ttl = 0) {
  bool byId = i != 0; Id id = mkId(i); Tags tg = id.GetTags();
  switch (T) {
    case 0: return byId ? R->GetAgeGauge(id) : R->GetAgeGauge("m", tg);
    case 1: return byId ? R->GetCounter(id) : R->GetCounter("m", tg);
    case 2: return byId ? R->GetDistributionSummary(id) : R->GetDistributionSummary("m", tg);
    case 3: if (ttl) return R->GetGauge(id, absl::Nanoseconds(ttl)); return byId ? R->GetGauge(id) : R->GetGauge("m", tg);
    case 4: return byId ? R->GetMaxGauge(id) : R->GetMaxGauge("m", tg);
    case 5: return byId ? R->GetMonotonicCounter(id) : R->GetMonotonicCounter("m", tg);
    case 6: return byId ? R->GetMonotonicCounterUint(id) : R->GetMonotonicCounterUint("m", tg);
    case 7: return byId ? R->GetMonotonicSampled(id) : R->GetMonotonicSampled("m", tg);
    default: return byId ? R->GetTimer(id) : R->GetTimer("m", tg);
  }
}
static void update(void* p, E& e) {
  e.n++; e.set = true; e.pend++;
  switch (T) {
    case 0: ((AgeGauge*)p)->UpdateLastSuccess(e.last = g_now - 7 * S1); return;      // does not count as activity: age gauges stay anyway
    case 1: ((Counter*)p)->Add(2); break;
    case 2: ((DistributionSummary*)p)->Record(2); break;
    case 3: ((Gauge*)p)->Set(e.n); break;
    case 4: ((MaxGauge*)p)->Update(e.n); break;
    case 5: ((MonotonicCounter*)p)->Set(10 * e.n); break;
    case 6: ((MonotonicCounterUint*)p)->Set((uint64_t)(10 * e.n)); break;
    case 7: ((MonotonicSampled*)p)->Set(10 * e.n, 1000 * S1 + e.n * S1); break;
    default: ((Timer*)p)->Record(absl::Seconds(2));
  }
  e.upd = g_now;
}
static bool gone(const E& e) { return T != 0 && g_now - e.upd > e.ttl; }
static int present() { int n = 0; for (auto& e : es) n += e.there; return n; }
static const char* const stats[][4] = {{"gauge"}, {"count"}, {"count", "totalAmount", "totalOfSquares", "max"}, {"gauge"}, {"max"}, {"count"}, {"count"}, {"count"}, {"count", "totalTime", "totalOfSquares", "max"}};
static double reported(const E& e, int s) {
  switch (T) { case 1: return 2 * e.pend; case 2: case 8: return s == 0 ? e.pend : s == 1 ? 2 * e.pend : s == 2 ? 4 * e.pend : 2; case 3: case 4: return e.n; default: return 10 * e.pend; }
}
static void checkReport(const std::vector<Measurement>& ms) {
  size_t want = 0;
  for (int i = 0; i < 3; i++) {
    E& e = es[i]; if (!e.there || gone(e)) continue;
    int parts = T == 2 || T == 8 ? 4 : 1; bool rep;
    switch (T) { case 0: rep = true; break; case 3: rep = e.set; break; case 5: case 6: case 7: rep = e.pend > 0 && e.base; break; default: rep = e.pend > 0; }
    if (T == 7 && e.pend > 0 && !e.base && e.n > 1) rep = true;            // two samples before the first report make a rate
    for (int s = 0; rep && s < parts; s++) {
      want++; Id id = mkId(i).WithStat(SR(stats[T][s])); int found = 0;
      for (auto& m : ms) if (m.id == id) { found++; double v = m.value; if (T == 7) sym_assert(v == 10, "a meter reports its own value"); else if (T == 0) sym_assert(v == (double)(g_now - e.last) / 1e9, "an age gauge reports the age"); else sym_assert(v == reported(e, s), "a meter reports its own value"); }
      sym_assert(found == 1, "every meter with something to report appears once in the report");
    }
    if (e.set && (T != 7 || rep || e.n > 1)) e.base = true;
    e.pend = 0;
  }
  sym_assert(ms.size() == want, "nothing else is reported");
}
static void fresh(int i, void* p) {
  E& e = es[i];
  if (e.there) { sym_assert(e.p == p, "the same id gives the same meter"); return; }
  for (auto& o : es) sym_assert(!o.there || o.p != p, "different ids give different meters");
  e = E{}; e.there = true; e.p = p; e.upd = g_now;
}
HARNESS(h_registry) {
  auto cfg = mkCfg(); cfg->status_metrics_enabled = false; const size_t limit = (size_t)sym_param("limit", 2); cfg->age_gauge_limit = limit; int64_t h0 = 0;
  const int lo = (int)sym_param("from", 0), n = (int)sym_param("types", 9); T = lo + (int)sym_pick("type", (uint64_t)n); const int K = (int)sym_param("k", 4);
  R = std::make_unique<TestReg>(std::move(cfg), mkLog());
  for (auto& e : es) e = E{};
  std::shared_ptr<void> keep[3]; size_t base = R->Size(); int64_t born = g_now; const int ids = T == 0 ? 3 : (int)sym_param("ids", 2);
  for (int k = 0; k < K; k++) {
    size_t op = sym_pick("op", 6);
    if (op == 0 || op == 1) {                               // look up, and perhaps update
      int i = (int)sym_pick("i", (uint64_t)ids); bool full = T == 0 && !es[i].there && (size_t)present() >= limit;
      int64_t ttl = 0; if (T == 3 && i == 1) { static const int64_t ts[] = {0, 60 * S1, 2000 * S1}; ttl = ts[sym_pick("ttl", 3)]; }
      auto p = get(i, ttl);
      if (full) { for (auto& o : es) sym_assert(!o.there || o.p != p.get(), "a meter beyond the limit is no registered one"); sym_reach("limit"); continue; }
      fresh(i, p.get()); if (ttl) es[i].ttl = ttl; keep[i] = p;
      if (op == 1) update(p.get(), es[i]);
    } else if (op == 2) { uint64_t dt = sym_range("dt", 1, 3 * (uint64_t)TTL); g_now += (int64_t)dt; }
    else if (op == 3) {
      R->remove_expired_meters();
      for (auto& e : es) if (e.there && gone(e)) { e.there = false; sym_reach("expired"); } else if (e.there) sym_reach("kept");
      if (g_now - born > TTL) base = 0;
    } else if (op == 4) { checkReport(R->Measurements()); sym_reach("report"); }
    else {
      // its own kind: one, another, all; the other kind and an unknown kind: one, all
      size_t d = sym_pick("del", T == 0 || T == 3 ? 6 : 4); static const char own[] = "Ag"; char kind = T == 0 || T == 3 ? (d < 3 ? own[T == 3] : d < 5 ? own[T == 0] : 'c') : own[d & 1];
      size_t how = T == 0 || T == 3 ? (d < 2 ? d : d == 2 || d == 4 ? 3 : 0) : d < 2 ? 0 : 3; const char t[2] = {kind, 0}; bool mine = (T == 0 && t[0] == 'A') || (T == 3 && t[0] == 'g');
      if (how == 3) { R->DeleteAllMeters(t); if (mine) for (auto& e : es) e.there = false; }
      else { bool had = mine && es[how].there; bool did = R->DeleteMeter(t, mkId((int)how)); sym_assert(did == had, "deleting says whether the meter was there"); if (had) { es[how].there = false; sym_reach("deleted"); } }
    }
    sym_assert(R->Size() == base + (size_t)present(), "exactly the meters asked for and not expired or deleted are registered");
    if (T == 0) sym_assert(R->AgeGauges().size() == (size_t)present() && present() <= (int)limit, "age gauges never exceed their limit");
    if (T == 3) sym_assert(R->Gauges().size() == (size_t)present(), "exactly the gauges are listed");
  }
  // whatever happened: the identity of every meter still registered
  for (int i = 0; i < 3; i++) if (es[i].there) { auto p = get(i); sym_assert(p.get() == es[i].p, "the same id gives the same meter"); }
  R.reset(); (void)h0;
}
// the same id for every type is a meter of its own
HARNESS(h_types) {
  auto cfg = mkCfg(); cfg->status_metrics_enabled = false; R = std::make_unique<TestReg>(std::move(cfg), mkLog()); size_t base = R->Size();
  std::shared_ptr<void> p[9]; int first = (int)sym_pick("first", 9), n = (int)sym_pick("n", 9) + 1;
  for (int k = 0; k < n; k++) { T = (first + k) % 9; p[T] = get(2); sym_assert(R->Size() == base + (size_t)k + 1, "each type has its own meter for an id"); for (int j = 0; j < 9; j++) if (j != T && p[j]) sym_assert(p[j].get() != p[T].get(), "each type has its own meter for an id"); }
  for (int j = 0; j < 9; j++) if (p[j]) { T = j; sym_assert(get(2).get() == p[j].get(), "the same id gives the same meter"); }
  sym_assert(R->Size() == base + (size_t)n, "looking up registers nothing twice");
  for (auto& q : p) q.reset();
  R.reset(); sym_reach("done");
}
// sets the cached hash of an id, to try every distribution of hash values (they derive from the addresses of interned strings)
template <class I> auto setHash(I& i, size_t h, int) -> decltype(i.hash_ = h, void()) { i.hash_ = h; }
template <class I> void setHash(I&, size_t, long) {}   // an id that keeps its hash otherwise
// many meters: tables that grow, mass deletion and mass expiry
HARNESS(h_many) {
  auto cfg = mkCfg(); cfg->status_metrics_enabled = false; const int N = (int)sym_param("n", 70); cfg->age_gauge_limit = (size_t)N; R = std::make_unique<TestReg>(std::move(cfg), mkLog()); size_t base = R->Size();
  T = sym_pick("gauge", 2) ? 3 : 0; std::vector<Id> id; const size_t collide = sym_param("collide", 0) ? 1 + sym_pick("classes", 2) : 0; static const void* p[200];
  for (int i = 0; i < N; i++) { char b[8] = {'n', (char)('0' + i / 10), (char)('0' + i % 10), 0}; id.push_back(Id(SR(b), Tags{})); if (collide) setHash(id.back(), collide == 1 ? 4096 : 4096 + 64 * (size_t)(i % 3), 0); p[i] = T == 3 ? (void*)R->GetGauge(id[i]).get() : (void*)R->GetAgeGauge(id[i]).get(); }
  sym_assert(R->Size() == base + (size_t)N, "every id has its meter");
  for (int i = 0; i < N; i++) sym_assert((T == 3 ? (void*)R->GetGauge(id[i]).get() : (void*)R->GetAgeGauge(id[i]).get()) == p[i], "the same id gives the same meter");
  size_t op = sym_pick("op", 3);
  if (op == 0) { R->DeleteAllMeters(T == 3 ? "g" : "A"); sym_assert(R->Size() == base, "deleting all leaves none"); sym_reach("all"); }
  if (op == 1) { int k = (int)sym_pick("k", (uint64_t)N); sym_assert(R->DeleteMeter(T == 3 ? "g" : "A", id[k]), "deleting one"); sym_assert(R->Size() == base + (size_t)N - 1, "deleting one leaves the others");
    for (int i = 0; i < N; i++) if (i != k) { Id q(id[i]); sym_assert((T == 3 ? (void*)R->GetGauge(q).get() : (void*)R->GetAgeGauge(q).get()) == p[i], "deleting one leaves the others"); } sym_reach("one"); }
  if (op == 2) { g_now += TTL + 1; if (T == 3) { int k = (int)sym_pick("k", (uint64_t)N); R->GetGauge(id[k])->Set(1); R->remove_expired_meters(); auto g = R->Gauges(); sym_assert(g.size() == 1 && g[0] == p[k], "expiry removes exactly the idle ones"); } else { R->remove_expired_meters(); sym_assert(R->AgeGauges().size() == (size_t)N, "age gauges do not expire"); } sym_reach("expiry"); }
  R.reset();
}
// ---- the cache of percentile meters
struct V { Id id; static int live, made; explicit V(Id i) : id(std::move(i)) { live++; made++; } ~V() { live--; } };
int V::live, V::made;
static std::unique_ptr<V> mk(Registry*, Id id) { return std::make_unique<V>(std::move(id)); }
HARNESS(h_cache) {
  const int K = (int)sym_param("k", 5), pre = (int)sym_param("prefill", 0); static const int64_t EXP = 120 * S1; V::live = V::made = 0;
  { spectatord::expiring_cache<V> c(mk);
    struct M { bool there; V* p; int64_t upd; } m[4] = {}; int64_t t0 = g_steady; bool preThere = pre > 0; int made = 0, live = 0;
    for (int i = 0; i < pre; i++) { char b[8] = {'n', (char)('0' + i / 10), (char)('0' + i % 10), 0}; c.get_or_create(nullptr, Id(SR(b), Tags{})); made++; live++; }
    for (int k = 0; k < K; k++) {
      size_t op = sym_pick("op", 5);
      if (op < 3) {
        int i = (int)op; V* p = c.get_or_create(nullptr, mkId(i));
        if (m[i].there) sym_assert(p == m[i].p, "a cached id gives its meter"); else { made++; live++; for (auto& o : m) sym_assert(!o.there || o.p != p, "different ids give different meters"); }
        sym_assert(p->id == mkId(i), "the meter is the one of the id"); m[i] = {true, p, g_steady};
        sym_assert(V::made == made && V::live == live, "a meter is made once while it is cached");
        sym_reach("look up");
      } else if (op == 3) { g_steady += (int64_t)sym_range("dt", 1, 3 * (uint64_t)EXP); }
      else {
        size_t want = 0, n = (size_t)live; if (preThere && g_steady - t0 > EXP) { want += (size_t)pre; preThere = false; }
        for (auto& o : m) if (o.there && g_steady - o.upd > EXP) { want++; o.there = false; }
        auto r = c.expire(); live -= (int)want;
        sym_assert(r.first == n, "expiry reports the size before it"); sym_assert(r.second == want, "expiry reports how many it removed"); sym_assert(V::live == live, "expiry removes exactly the idle entries");
        sym_reach(want == 0 ? "none" : want == n ? "all" : "some");
      }
    }
    for (auto& o : m) if (o.there) sym_assert(c.get_or_create(nullptr, mkId((int)(&o - m))) == o.p, "a cached id gives its meter");
  }
  sym_assert(V::live == 0, "the cache owns its meters");
}
