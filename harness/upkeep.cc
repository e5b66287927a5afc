// The daemon's metrics about itself: the upkeep of the server, run round by round with everything the
// world can do between two rounds, and the registry's record of its own size.
#include "world.h"
#include "server/spectatord.h"
#include "server/expiring_cache.h"
#include "spectator/string_pool.h"
#include "vp_file.h"
#include <cmath>
#include <functional>
using namespace spectator;
static const int64_t S1 = 1000000000ll;
static std::function<bool()> between;   // what happens between two rounds; false: none is to follow
struct Srv : spectatord::Server { using Server::Server; using Server::parse; };
static Srv* server;
extern "C" unsigned long vp_thread_start(void (*fn)(void*), void* arg) { fn(arg); return 0; }
extern "C" void vp_thread_join(unsigned long) {}
extern "C" int vp_cond_wait(void*, void* m, const void*) { sym_mutex_unlock(m); if (!between()) server->Stop(); sym_mutex_lock(m); return 110; }
static double val(const std::vector<Measurement>& ms, const char* name, const char* stat, const char* idv) {
  double t = 0; for (auto& m : ms) { auto& g = m.id.GetTags(); if (m.id.Name() == SR(name) && g.at(SR("statistic")) == SR(stat) && (!idv || g.at(SR("id")) == SR(idv))) t += m.value; } return t;
}
static int cnt(const std::vector<Measurement>& ms, const char* name) { int t = 0; for (auto& m : ms) if (m.id.Name() == SR(name)) t++; return t; }
// one file for the kernel's table: our port on the second line
static VpFile F; static char text[400]; static uint64_t drops; static unsigned rxq;
static void table() { char* p = text; auto put = [&](const char* s) { while (*s) *p++ = *s++; }; put("head\n  7: 00000000:04D2 00000000:0000 07 00000000:"); for (int i = 7; i >= 0; i--) *p++ = "0123456789ABCDEF"[rxq >> (4 * i) & 15]; put(" 00:00000000 00000000 0 0 1 2 0 "); put(std::to_string(drops).c_str()); put("\n"); F.data = text; F.len = (size_t)(p - text); F.mode = 0; vp_file(&F); }
HARNESS(h_upkeep) {
  int K = (int)sym_param("rounds", 3), r = 0; bool status = sym_param("status", 1), net = sym_param("net", 0); auto c = mkCfg(); c->status_metrics_enabled = status; refs(); auto R = std::make_unique<TestReg>(std::move(c), mkLog()); Srv s(true, 1234, std::nullopt, std::nullopt, R.get()); server = &s;
  struct Ent { bool in = false; int64_t used = 0; } e[3];   // timers a and b, summary c
  double want[2] = {0, 0}, got[2] = {0, 0}, wantDrop = 0, gotDrop = 0, base = -1; size_t pre[2] = {0, 0}, post[2] = {0, 0}; bool lost = false;
  static const char *en[] = {"event0", "event1", "event2", "event3", "event4"}, *tn[] = {"elapsed0", "elapsed1", "elapsed2", "elapsed3", "elapsed4"}, *xn[] = {"expire0", "expire1", "expire2", "expire3", "expire4"}, *dn[] = {"drops0", "drops1", "drops2", "drops3", "drops4"};
  auto upkeepRan = [&] {   // what the upkeep just did, according to what is written down here
    pre[0] = pre[1] = post[0] = post[1] = 0; for (int i = 0; i < 3; i++) if (e[i].in) { pre[i / 2]++; if (g_steady - e[i].used > 120 * S1) { e[i].in = false; want[i / 2]++; } else post[i / 2]++; }
    if (base >= 0 && (double)drops > base) wantDrop += (double)drops - base; base = (double)drops;
  };
  drops = 7; rxq = 0xA0; table();
  spectator::StringPoolStats was{}, been = string_pool_stats(), prevWas{}, prevBeen{}; bool counting = false;   // the pool as it was before and after the upkeep
  between = [&]() -> bool {
    was = been; been = string_pool_stats();
    upkeepRan();
    std::vector<Measurement> ms = R->Measurements(); got[0] += val(ms, "spectatord.percentileExpired", "count", "timer"); got[1] += val(ms, "spectatord.percentileExpired", "count", "dist-summary"); gotDrop += val(ms, "spectatord.udpPacketsDropped", "count", nullptr);
    if (status) {
      double t = val(ms, "spectatord.percentileCacheSize", "gauge", "timer"), d = val(ms, "spectatord.percentileCacheSize", "gauge", "dist-summary");
      sym_assert(t == (double)pre[0] || t == (double)post[0], "the size of the cache of timers is reported"); sym_assert(d == (double)pre[1] || d == (double)post[1], "the size of the cache of summaries is reported");
      if (net) sym_assert(val(ms, "spectatord.udpRxQueue", "max", nullptr) == rxq, "the length of the queue is reported");
      double pe = val(ms, "spectatord.poolEntries", "gauge", nullptr), pa = val(ms, "spectatord.poolAllocSize", "gauge", nullptr), ph = val(ms, "spectatord.poolAccess", "count", "hit"), pm = val(ms, "spectatord.poolAccess", "count", "miss");
      sym_assert(pe >= (double)was.table_size && pe <= (double)been.table_size && pe > 0, "the number of texts in the pool is reported"); sym_assert(pa >= (double)was.alloc_size && pa <= (double)been.alloc_size && pa > 0, "the memory of the pool is reported");
      if (counting) { sym_assert(ph >= (double)(was.hits - prevBeen.hits) && ph <= (double)(been.hits - prevWas.hits), "the hits of the pool are reported"); sym_assert(pm >= (double)(was.misses - prevBeen.misses) && pm <= (double)(been.misses - prevWas.misses), "the misses of the pool are reported"); } else sym_assert(ph == 0 && pm == 0, "no hits or misses are invented");
      counting = true; prevWas = was; prevBeen = been;
    }
    sym_assert(got[0] == (status ? want[0] : 0) && got[1] == (status ? want[1] : 0), "every entry the caches forget is counted"); if (net) sym_assert(gotDrop == (status ? wantDrop : 0), "every packet the kernel drops is counted");
    if (!status) sym_assert(cnt(ms, "spectatord.percentileCacheSize") + cnt(ms, "spectatord.udpRxQueue") + cnt(ms, "spectatord.poolEntries") == 0, "nothing is reported where it is not wanted");
    if (++r == K) { sym_reach(want[0] + want[1] ? "forgotten" : "kept"); return false; }
    if (!net) { static const char* const line[] = {"T:a:1", "T:b:2", "D:c:3"}; int v = (int)sym_pick(en[r - 1], 4); if (v < 3) { std::string b(line[v]); sym_assert(!s.parse(b.data()), "the line is accepted"); e[v].in = true; e[v].used = g_steady; } }
    else { switch (sym_pick(dn[r - 1], 3)) { case 1: drops += 5; rxq = 0x1F; break; case 2: drops = 1; rxq = 0xFFFFFF00; break; default: break; } table(); }
    static const int64_t el[] = {30 * S1, 120 * S1 + 1, 900 * S1 + 1, 120 * S1, 900 * S1}; int64_t d = sym_param("any", 0) ? (int64_t)sym_range(tn[r - 1], 30 * S1, 2000 * S1) : el[sym_pick(tn[r - 1], (uint64_t)sym_param("spans", 3))]; g_now += d; g_steady += d;
    if (sym_pick(xn[r - 1], 2)) { R->remove_expired_meters(); if (d > 900 * S1) { base = -1; counting = false; sym_reach("idle"); } }
    been = string_pool_stats(); return true;
  };
  s.Start(); sym_assert(r == K, "the upkeep goes on until it is stopped"); (void)lost; sym_reach("done"); server = nullptr; between = nullptr;
}
// the number of measurements, as measured one round later
HARNESS(h_self_size) {
  int K = (int)sym_param("rounds", 3); bool status = sym_pick("status", 2); auto c = mkCfg(); c->status_metrics_enabled = status; refs(); auto R = std::make_unique<TestReg>(std::move(c), mkLog()); size_t last = 0; bool fresh = false;
  static const char *tn[] = {"elapsed0", "elapsed1", "elapsed2", "elapsed3", "elapsed4"}, *nn[] = {"meters0", "meters1", "meters2", "meters3", "meters4"};
  for (int r = 0; r < K; r++) {
    int n = (int)sym_pick(nn[r], 3); for (int i = 0; i < n; i++) R->GetCounter(Id(SR(i ? "b" : "a"), Tags{}))->Increment();
    auto ms = R->Measurements(); double k = val(ms, "spectator.registrySize", "count", nullptr), t = val(ms, "spectator.registrySize", "totalAmount", nullptr);
    if (status && fresh) { sym_assert(k == 1 && t == (double)last, "the number of measurements is reported"); sym_reach("reported"); } if (!status) sym_assert(k == 0, "nothing is reported where it is not wanted");
    last = ms.size(); fresh = true; int64_t d = (sym_pick(tn[r], 2) ? 1000 : 5) * S1; g_now += d; if (d > 900 * S1) { R->remove_expired_meters(); fresh = false; sym_reach("idle"); }
  }
  sym_reach("done");
}
