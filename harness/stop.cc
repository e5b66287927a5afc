// Starting and stopping: the background threads of the registry, of its publisher and of the server,
// interleaved with the thread that stops them. Every thread has a clock of its own; a wait with a limit
// runs out a bounded number of times before the stop, and never after it unless it was short.
#define VP_OWN_CLOCK
#include "world.h"
#include "server/spectatord.h"
#include <atomic>
#include <ctime>
using namespace spectator;
static const int64_t S1 = 1000000000ll, MS = 1000000ll;
static int64_t clk[8]; static int waits[8];
extern "C" int64_t env_wall_nanos(void) { return g_now + clk[sym_tid()]; }
extern "C" int64_t env_steady_nanos(void) { return g_steady + clk[sym_tid()]; }
static std::atomic<bool> stopping{false}; static std::atomic<int> running{0}; static int budget;
// ---- threads
struct Start { void (*fn)(void*); void* arg; std::atomic<bool> done{false}; };
static Start start_[6]; static int nStart;
static void tramp(void* p) { auto* s = (Start*)p; running.fetch_add(1); s->fn(s->arg); running.fetch_sub(1); s->done.store(true); sym_cond_signal(s); }
extern "C" unsigned long vp_thread_start(void (*fn)(void*), void* arg) { sym_assert(nStart < 6, "no more threads than there are background tasks"); Start* s = &start_[nStart++]; s->fn = fn; s->arg = arg; sym_thread(tramp, s); return (unsigned long)nStart; }
extern "C" void vp_thread_join(unsigned long id) { Start* s = &start_[id - 1]; while (!s->done.load()) sym_cond_block(s); }
extern "C" int vp_cond_wait(void* c, void* m, const void* until) {
  int t = sym_tid(); auto* u = (const struct timespec*)until; int64_t left = u ? u->tv_sec * S1 + u->tv_nsec - env_steady_nanos() : -1; bool out = u && left <= 0;
  if (u && !out && !stopping.load() && waits[t] < budget) { waits[t]++; out = true; }
  if (u && !out && stopping.load() && left <= S1) out = true;
  if (out) { if (left > 0) clk[t] += left; sym_mutex_unlock(m); sym_mutex_lock(m); return 110; }
  sym_mutex_unlock(m); sym_cond_block(c); sym_mutex_lock(m); return 0;
}
extern "C" void vp_cond_notify(void* c) { sym_yield(); sym_cond_signal(c); }
// ---- the registry
static int64_t work, freq, began[1]; static int sends; static bool over; static std::atomic<int> begun{0};
static void measured(const std::vector<Measurement>&) {
  int t = sym_tid(); int64_t now = clk[t]; sym_assert(!over, "nothing is published after the stop");
  if (sends) { int64_t w = sends == 1 ? work : 0, want = began[0] + (w > freq ? w : freq); sym_assert(now <= want && now > want - MS - 1, "publications begin one interval apart, or at once when the last one took longer"); sym_reach("again"); } else sym_assert(now == 0, "the first publication is immediate");
  began[0] = now; begun.store(sends + 1); sym_cond_signal(&begun); if (sends++ == 0) clk[t] += work;   // only the first takes long: the loop does not pause after those that do
}
HARNESS(h_stop_registry) {
  bool uri = sym_param("uri", 1), exp = sym_param("expire", 1); budget = (int)sym_param("budget", 1); auto c = mkCfg(); c->status_metrics_enabled = false; c->common_tags["a"] = "b"; if (!uri) c->uri.clear(); if (!exp) c->expiration_frequency = absl::ZeroDuration(); freq = 5 * S1;
  static const int64_t wk[] = {0, 2 * S1, 5 * S1 - MS, 5 * S1, 7 * S1}; work = uri ? wk[sym_pick("work", 5)] : 0; refs(); auto r = std::make_unique<TestReg>(std::move(c), mkLog()); r->OnMeasurements(measured); r->GetGauge(Id(SR("g"), Tags{}), absl::Seconds(5));   // never set: nothing to send
  r->Start(); if (sym_param("twice", 0)) r->Start(); sym_assert(nStart == uri + 1, "each background task is started once");
  int after = (int)sym_param("after", 0); while (begun.load() < after) sym_cond_block(&begun);   // from when on the stop can come
  stopping.store(true); r->Stop(); over = true; sym_assert(running.load() == 0, "no background task is left after the stop"); int n = sends; if (sym_param("twice", 0)) r->Stop(); sym_join_all();
  sym_assert(sends == n, "nothing is published after the stop"); if (!uri) sym_assert(sends == 0, "without an address nothing is published");
  if (exp) { int t = uri ? 2 : 1; if (waits[t] == 0) { sym_assert(r->Gauges().size() == 1, "nothing expires before one interval has passed"); } else sym_assert(clk[t] <= waits[t] * 60 * S1 && clk[t] > waits[t] * (60 * S1 - MS) - 1, "meters are expired at each interval"); if (waits[t] && r->Gauges().empty()) sym_reach("expired"); }
  if (sym_param("restart", 0)) {   // and once more
    over = false; stopping.store(false); sends = 0; began[0] = 0; for (auto& x : clk) x = 0; begun.store(0); r->Start(); while (begun.load() < 1) sym_cond_block(&begun);
    stopping.store(true); r->Stop(); over = true; sym_assert(running.load() == 0, "no background task is left after the stop"); sym_join_all(); sym_reach("restarted");
  }
  if (sends == 0) sym_reach("none"); else if (sends == 1) sym_reach("once"); r.reset(); sym_reach("done");
}
// ---- the server
HARNESS(h_stop_server) {
  budget = (int)sym_param("budget", 1); auto c = mkCfg(); c->status_metrics_enabled = sym_param("status", 0); refs(); auto r = std::make_unique<TestReg>(std::move(c), mkLog()); auto s = std::make_unique<spectatord::Server>(true, 1234, std::nullopt, std::nullopt, r.get());
  s->Start(); sym_assert(nStart == 1, "each background task is started once"); stopping.store(true); s->Stop(); sym_assert(running.load() == 0, "no background task is left after the stop"); s->Stop(); sym_join_all(); sym_assert(clk[1] <= waits[1] * 30 * S1 && clk[1] > waits[1] * (30 * S1 - MS) - 1, "the upkeep runs every half minute"); sym_reach(waits[1] ? "twice" : "once"); s.reset(); r.reset(); sym_reach("done");
}
