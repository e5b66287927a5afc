// Percentile buckets and the meters that count into them.
#include "world.h"
#include "spectator/percentile_buckets.h"
#include "percentile_bucket_values.inc"
#include <cmath>
using namespace spectator;
static const int kN = 276;
// bucket i holds lower(i) <= v < upper(i), the last one up to the largest integer
static int inBucket(int64_t v, uint64_t i) {
  int64_t lo = i == 0 ? INT64_MIN : kBucketValues[i - 1], hi = kBucketValues[i];
  return sym_and(v >= lo, i == kN - 1 ? 1 : v < hi);
}
HARNESS(h_perc_table) {
  sym_assert(kBucketValues.size() == (size_t)kN && PercentileBucketsLength() == (size_t)kN, "there are 276 buckets");
  sym_assert(kBucketValues[0] == 1 && kBucketValues[kN - 1] == INT64_MAX, "the buckets cover every amount");
  for (int i = 1; i < kN; i++) sym_assert(kBucketValues[i - 1] < kBucketValues[i], "bucket bounds increase");
  for (int i = 0; i < kN; i++) {
    char want[6] = "T0000"; for (int k = 4, x = i; k >= 1; k--, x /= 16) want[k] = "0123456789ABCDEF"[x % 16];
    sym_assert(kTimerTags[i] == want, "every timer bucket has its own name"); want[0] = 'D';
    sym_assert(kDistTags[i] == want, "every distribution bucket has its own name");
  }
}
// every integer: positive ones by their highest bit
static int64_t anyInt(uint64_t* k) {
  *k = sym_pick("highest", 64); uint64_t u = sym_u64("v");
  if (*k == 0) return -(int64_t)(u >> 1) - (int64_t)(u & 1);
  return *k == 1 ? 1 : (int64_t)((1ull << (*k - 1)) + (u >> (65 - *k)));
}
HARNESS(h_perc_index) {
  uint64_t k; int64_t v = anyInt(&k);
  uint64_t i = PercentileBucketIndexOf(v);
  sym_observe_u64("index", i);
  sym_assert(i < (uint64_t)kN, "the index names a bucket");
  i = sym_concretize(i);
  int in = inBucket(v, i), gap = 0;
  if (k == 4) gap = v == 15; else if (k > 4 && k % 2 == 0) gap = v >= (int64_t)((1ull << k) - 3);
  // in the three integers below a power of four an amount may fall into the next bucket; no further
  sym_assert(sym_or(in, sym_and(gap, i > 0 && inBucket(v, i - 1))), "an amount falls into the bucket that encloses it");
  sym_assert(in, "an amount up to three below a power of four falls into the bucket that encloses it");
  sym_assert(PercentileBucket(v) == kBucketValues[i], "the bucket value is the bucket's upper bound");
  sym_reach(k == 0 ? "no amount" : i == kN - 1 ? "last" : "inner");
}
// the few amounts around every bucket's bound
HARNESS(h_perc_edges) {
  uint64_t b = sym_pick("bucket", kN - 1), o = sym_u8("offset"); sym_assume(o < 8);
  int64_t v = kBucketValues[b] + (int64_t)o - 4;
  uint64_t i = sym_concretize(PercentileBucketIndexOf(v)); sym_assert(i < (uint64_t)kN, "the index names a bucket");
  int gap = 0; for (int k = 4; k < 64; k += 2) gap = sym_or(gap, k == 4 ? v == 15 : sym_and(v >= (int64_t)((1ull << k) - 3), v < (int64_t)(1ull << k)));
  sym_assert(sym_or(inBucket(v, i), sym_and(gap, i > 0 && inBucket(v, i - 1))), "an amount falls into the bucket that encloses it");
  sym_reach("done");
}
// elsewhere the order of the indexes follows from the order of the enclosing buckets
HARNESS(h_perc_order) {
  uint64_t k = 4 + 2 * sym_pick("power", 30); int64_t v = (int64_t)((1ull << k) - 1 - (sym_u64("v") >> 61)), w = v + 1 + (int64_t)sym_pick("step", 4); sym_assume(w > v);
  sym_assert(PercentileBucketIndexOf(v) <= PercentileBucketIndexOf(w), "a larger amount never falls into a smaller bucket");
  sym_reach("done");
}
static Id pid(const Id& id, int i, char c) {
  char t[6] = "T0000"; t[0] = c; for (int k = 4, x = i; k >= 1; k--, x /= 16) t[k] = "0123456789ABCDEF"[x % 16];
  return id.WithTags(SR("statistic"), SR("percentile"), SR("percentile"), SR(std::string_view(t, 5)));
}
static Id theId(uint64_t shape) { Tags t; if (shape) t.add(SR("app"), SR("x")); return Id(SR("m"), std::move(t)); }
static int refBucket(int64_t v) { return (int)sym_concretize(PercentileBucketIndexOf(v)); }   // decided by h_perc_table
static bool split(bool c) { if (sym_concretize(c)) { sym_assume(c); return true; } sym_assume(!c); return false; }   // one path each way, which knows it
static int64_t clamp(int64_t v, int64_t lo, int64_t hi) { if (split(v > hi)) return hi; return split(v < lo) ? lo : v; }
// any amount whose highest bit is one of a few (bit m set in the mask: 0 stands for zero and below)
static int64_t amount(const char* n, uint64_t mask) {
  uint64_t k = sym_pick("bits", 64); sym_assume((mask >> k) & 1); uint64_t u = sym_u64(n);
  if (k == 0) return -(int64_t)(u >> 1) - (int64_t)(u & 1);
  return k == 1 ? 1 : (int64_t)((1ull << (k - 1)) + (u >> (65 - k)));
}
static const uint64_t kTop = 1ull << 63;
HARNESS(h_perc_ds) {
  Registry r(mkCfg(), mkLog()); size_t n0 = r.Counters().size(), d0 = r.DistSummaries().size(); const Id id = theId(sym_pick("id", 2));
  int64_t lo = amount("min", 1 | 1 << 3), hi = amount("max", 1 << 5 | kTop);
  PercentileDistributionSummary p(&r, id, lo, hi);
  int64_t a = amount("amount", 0x7f | kTop); int i = a < 0 ? 0 : refBucket(clamp(a, lo, hi)); p.Record(a);
  if (a < 0) { sym_assert(p.Count() == 0 && r.Counters().size() == n0, "a negative amount is not counted"); sym_reach("negative"); return; }
  sym_assert(p.Count() == 1 && sym_same_double(p.TotalAmount(), (double)a), "the amount enters the underlying summary once");
  sym_assert(r.DistSummaries().size() == d0 + 1 && r.GetDistributionSummary(id)->Count() == 1, "the underlying summary is the one of the same id");
  sym_assert(r.Counters().size() == n0 + 1, "one bucket counter is used");
  sym_assert(r.GetCounter(pid(id, i, 'D'))->Count() == 1.0, "the amount is counted once in the bucket of the clamped amount");
  sym_assert(r.Counters().size() == n0 + 1, "one bucket counter is used");
  p.Record(a);
  sym_assert(r.GetCounter(pid(id, i, 'D'))->Count() == 2.0 && r.Counters().size() == n0 + 1 && p.Count() == 2, "each recording is counted");
  sym_reach(a < lo ? "below" : a > hi ? "above" : "inside");
}
HARNESS(h_perc_timer) {
  Registry r(mkCfg(), mkLog()); size_t n0 = r.Counters().size(), d0 = r.Timers().size(); const Id id = theId(sym_pick("id", 2));
  const int64_t B = 1ll << 60;
  int64_t lo = amount("min", 1 | 1 << 3), hi = amount("max", 1 << 5 | 1ull << 60); sym_assume(lo >= -B);
  PercentileTimer p(&r, id, absl::Nanoseconds(lo), absl::Nanoseconds(hi));
  int64_t a = amount("amount", 0x7f | 1ull << 60 | 1ull << 61); sym_assume(sym_and(a >= -B, a <= B));
  int i = a < 0 ? 0 : refBucket(clamp(a, lo, hi));
  if (sym_pick("clock", 2)) p.Record(std::chrono::nanoseconds(a)); else p.Record(absl::Nanoseconds(a));
  if (a < 0) { sym_assert(p.Count() == 0 && r.Counters().size() == n0, "a negative amount is not counted"); sym_reach("negative"); return; }
  sym_assert(p.Count() == 1 && p.TotalTime() == a, "the amount enters the underlying timer once");
  sym_assert(r.Timers().size() == d0 + 1 && r.GetTimer(id)->Count() == 1, "the underlying timer is the one of the same id");
  sym_assert(r.Counters().size() == n0 + 1, "one bucket counter is used");
  sym_assert(r.GetCounter(pid(id, i, 'T'))->Count() == 1.0, "the amount is counted once in the bucket of the clamped amount");
  sym_assert(r.Counters().size() == n0 + 1, "one bucket counter is used");
  sym_reach(a < lo ? "below" : a > hi ? "above" : "inside");
}
// estimates: a few filled buckets anywhere in the scale, total a power of two so that the reference is exact
HARNESS(h_perc_estimate) {
  static const int at[] = {0, 1, 5, 60, 137, 274, 275}; const int NA = 7;
  std::array<int64_t, 276> c{}; uint64_t i = sym_pick("first", NA), j = sym_pick("second", NA), shape = sym_pick("counts", 4);
  sym_assume(i < j);
  static const int ca[] = {1, 3, 0, 1}, cb[] = {1, 1, 2, 7}; c[at[i]] = ca[shape]; c[at[j]] = cb[shape]; const double total = ca[shape] + cb[shape];
  double p = sym_double("p"); sym_assume(sym_and(p >= 0, p <= 100));
  double e = Percentile(c, p);
  bool first = ca[shape] && p * total <= 100.0 * ca[shape]; int b = first ? at[i] : at[j];
  double lo = b ? (double)kBucketValues[b - 1] : 0.0, hi = (double)kBucketValues[b];
  sym_assert(e >= lo, "an estimate is not below the bucket that contains it");
  sym_assert(e <= hi + hi * 0x1p-51,   // rounding
              "an estimate is not above the bucket that contains it");
  sym_reach(first ? "first bucket" : "second bucket");
}
// several percentiles at once give what each gives alone
HARNESS(h_perc_several) {
  std::array<int64_t, 276> c{}; c[3] = 1; c[9] = 1; c[100] = (int64_t)sym_pick("n", 2) * 2;
  std::vector<double> ps{sym_double("p"), sym_double("q")}; sym_assume(sym_and(sym_and(ps[0] >= 0, ps[0] <= ps[1]), ps[1] <= 100));
  std::vector<double> out(5, -1.0); Percentiles(c, ps, &out);
  sym_assert(out.size() == 2, "one result per percentile");
  sym_assert(dbits(out[0]) == dbits(Percentile(c, ps[0])) && dbits(out[1]) == dbits(Percentile(c, ps[1])), "each percentile is estimated as if alone");
  sym_reach("done");
}
// a percentile meter kept (as the daemon's cache keeps it) across idle times, expiry and useless amounts
HARNESS(h_perc_idle) {
  auto cfg = mkCfg(); cfg->meter_ttl = absl::Seconds(60); cfg->status_metrics_enabled = false; TestReg reg(std::move(cfg), mkLog()); bool timer = sym_pick("timer", 2); Id id = theId(1); const int K = (int)sym_param("k", 3);
  PercentileTimer t(&reg, id, absl::Nanoseconds(1), absl::Seconds(100)); PercentileDistributionSummary d(&reg, id, 1, 1000000); bool idled = false;
  for (int k = 0; k < K; k++) {
    size_t w = sym_pick("record", 3); int64_t v = w == 1 ? -1 : 1000; if (w) { if (timer) t.Record(absl::Nanoseconds(v)); else d.Record(v); }
    int n = 0, p = 0, other = 0; double count = 0, bucket = 0;
    for (auto& m : reg.Measurements()) { if (m.id.Name() != SR("m")) { other++; continue; } auto st = m.id.GetTags().at(SR("statistic")); if (st == SR("count")) { n++; count = m.value; } if (st == SR("percentile")) { p++; bucket = m.value; } }
    if (w == 2) { sym_assert(n == 1 && count == 1, "every recording is counted"); sym_assert(p == 1 && bucket == 1, "every recording is counted in its bucket"); sym_reach(idled ? "after idling" : "at once"); }
    else sym_assert(n == 0 && p == 0, "nothing else is counted");
    uint64_t dt = sym_range("dt", 0, 119ull * 1000000000); g_now += (int64_t)dt; reg.remove_expired_meters(); idled = idled || dt > 60ull * 1000000000;
  }
}
