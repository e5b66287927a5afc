// Publishing: what reaches the backend, decoded independently from the bodies handed to curl, and what
// the backend's answers are accounted for.
#include "world.h"
#include "spectator/publisher.h"
#include "smiledec.h"
#include <vector>
using namespace spectator;
static const int64_t S1 = 1000000000ll;
extern "C" void env_sleep(int64_t ns) { g_now += ns; }
struct PubReg : Registry {
  using Registry::Registry; using Registry::remove_expired_meters; std::vector<Measurement>* given = nullptr; int asked = 0;
  auto Measurements() noexcept -> std::vector<Measurement> { asked++; if (given) return *given; return Registry::Measurements(); }
};
struct Pub : Publisher<PubReg> { using Publisher<PubReg>::Publisher; using Publisher<PubReg>::send_metrics; };
// what must be sent
struct Want { const Id* id; uint64_t bits; int op; int seen; };
static Want want[8]; static int nWant; static std::vector<std::pair<StrRef, StrRef>> common; static int64_t maxBatch; static int nBatches, nPerform; static bool single;
static int expectOp(const char* st) { return st && (!strcmp(st, "count") || !strcmp(st, "totalAmount") || !strcmp(st, "totalTime") || !strcmp(st, "totalOfSquares") || !strcmp(st, "percentile")) ? 0 : 10; }
static std::string decStr(Dec& d) {
  uint8_t t = d.get(); std::string s; size_t len = 0;
  if (t == 0x20) return s;
  if (t == 0xE0) { for (;;) { uint8_t b = d.get(); if (b == 0xFC) return s; s.push_back((char)b); } }
  if (t >= 0x40 && t <= 0x5F) len = t - 0x40 + 1; else if (t >= 0x60 && t <= 0x7F) len = t - 0x60 + 33; else sym_fail("the text table holds texts");
  for (size_t i = 0; i < len; i++) s.push_back((char)d.get());
  return s;
}
static uint64_t decDouble(Dec& d) { sym_assert(d.get() == 0x29, "a value is a 64-bit floating point number"); uint64_t l = d.get(); for (int i = 1; i < 10; i++) l = (l << 7) | d.get(); return l; }
static bool sameText(StrRef r, const std::string& s) { const char* g = r.Get(); size_t n = g ? r.Length() : 0; return n == s.size() && (n == 0 || !memcmp(g, s.data(), n)); }
// checks one payload; returns the measurements in it (indexes into want)
static std::vector<int> decode(const unsigned char* p, size_t n) {
  Dec d = beginRaw(p, n); std::vector<int> out; uint64_t ns = decInt(d, 0); sym_assert(ns < 100, "the text table has a length"); std::vector<std::string> tab;
  for (uint64_t i = 0; i < ns; i++) { tab.push_back(decStr(d)); for (uint64_t j = 0; j < i; j++) sym_assert(tab[j] != tab[i], "the text table holds each text once"); }
  while (d.i < d.n && d.p[d.i] != 0xF9) {
    uint64_t nt = decInt(d, 0); std::vector<std::pair<uint64_t, uint64_t>> tg;
    for (uint64_t i = 0; i < nt; i++) { uint64_t k = decInt(d, 0), v = decInt(d, 0); sym_assert(k < ns && v < ns, "every reference is into the text table"); tg.push_back({k, v}); }
    uint64_t op = decInt(d, 0), val = decDouble(d); int m = -1;
    for (int w = 0; w < nWant && m < 0; w++) {
      auto& tags = want[w].id->GetTags(); std::vector<char> used(tg.size(), 0); bool all = tg.size() == tags.size() + common.size() + 1;
      auto take = [&](StrRef k, StrRef v) { for (size_t i = 0; i < tg.size(); i++) if (!used[i] && sameText(k, tab[tg[i].first]) && sameText(v, tab[tg[i].second])) { used[i] = 1; return; } all = false; };
      for (auto& t : tags) take(t.key, t.value); for (auto& c : common) take(c.first, c.second); take(refs().name(), want[w].id->Name());
      if (all) m = w;
    }
    sym_assert(m >= 0, "every measurement sent carries exactly its tags, its name and the common tags");
    sym_assert(op == (uint64_t)want[m].op, "a measurement is sent with its operation"); sym_assert(val == want[m].bits, "a measurement is sent with its value");
    out.push_back(m);
  }
  end(d); sym_assert(!out.empty() && (int64_t)out.size() <= maxBatch, "a batch holds between one measurement and the configured number");
  return out;
}
// ---- the backend
static long (*answer)(int first, int n, int attempt, std::string* body);   // status, or -1: no answer
static int attemptOf[8]; static int64_t lastOk; static void (*during)();
static bool mtMode;
CURLcode vp_curl_perform(VpCurl* c) {
  if (mtMode) { auto ms = decode((const unsigned char*)c->body, (size_t)c->body_size); for (int m : ms) want[m].seen++; std::string body; long st = answer(ms[0], (int)ms.size(), 0, &body); if (st < 0) return CURLE_RECV_ERROR; c->status = st; return CURLE_OK; }
  nPerform++; auto ms = decode((const unsigned char*)c->body, (size_t)c->body_size); int first = ms[0], att = attemptOf[first]++;
  if (att == 0) { nBatches++; for (int m : ms) { sym_assert(want[m].seen == 0, "a measurement is sent in one batch only"); want[m].seen++; } }
  bool enc = false, typ = false; for (auto* l = c->headers; l; l = l->next) { if (!strcmp(l->data, "Content-Encoding: gzip")) enc = true; if (!strcmp(l->data, "Content-Type: application/x-jackson-smile")) typ = true; }
  sym_assert(enc && typ, "the body's encoding and type are declared"); sym_assert(c->url == "http://h/p" && c->post, "batches are posted to the configured address");
  if (single) g_now += S1; if (during) during();
  std::string body; long st = answer(first, (int)ms.size(), att, &body);
  if (st < 0) return CURLE_RECV_ERROR;
  if (st / 100 == 2) lastOk = g_now;
  c->status = st; if (!body.empty()) c->wfun((char*)body.data(), 1, body.size(), c->wdata);
  return CURLE_OK;
}
static std::vector<std::unique_ptr<Id>> ids;
static std::unique_ptr<PubReg> R; static TestCfg* C; static std::vector<Measurement> list;
static void world(std::map<std::string, std::string> tags, int batch, bool status = true) {
  auto c = mkCfg(); c->common_tags = std::move(tags); c->batch_size = batch; c->status_metrics_enabled = status; maxBatch = batch; C = c.get(); R = std::make_unique<PubReg>(std::move(c), mkLog()); R->given = &list;
  nWant = nBatches = nPerform = 0; list.clear(); ids.clear(); lastOk = 0; during = nullptr; memset(attemptOf, 0, sizeof attemptOf); single = true; common.clear();
}
static void add(Id id, double v, const char* stat) { ids.push_back(std::make_unique<Id>(std::move(id))); list.emplace_back(*ids.back(), v); want[nWant++] = {ids.back().get(), dbits(v), expectOp(stat), 0}; }
static double count(const char* id, const char* err) { Tags t; t.add(SR("owner"), SR("spectatord")); t.add(SR("id"), SR(id)); if (err) t.add(SR("error"), SR(err)); return R->GetCounter("spectator.measurements", t)->Count(); }
static void allSent() { for (int i = 0; i < nWant; i++) sym_assert(want[i].seen == 1, "every measurement is sent"); }
static long fine(int, int, int, std::string*) { return 200; }
static const char* const kStats[] = {nullptr, "count", "totalAmount", "totalTime", "totalOfSquares", "percentile", "max", "gauge", "duration", "counts", ""};
static const char kLong[] = "a-text-that-is-longer-than-sixty-four-characters-so-that-it-needs-the-long-form";
// measurements of every shape against every shape of common tags
HARNESS(h_pub_payload) {
  static const char* names[3] = {"m0", "name", "k"}; uint64_t cs = sym_pick("common", 4); std::map<std::string, std::string> ct;
  if (cs >= 1) ct["k"] = "name"; if (cs >= 2) ct["nf.app"] = "m0"; if (cs == 3) ct["count"] = kLong;
  int n = (int)sym_param("n", 2); world(ct, (int)sym_param("batch", 10)); for (auto& kv : ct) common.push_back({SR(kv.first), SR(kv.second)});
  static const char *nn[] = {"name0", "name1", "name2"}, *nt[] = {"tags0", "tags1", "tags2"}, *ns[] = {"stat0", "stat1", "stat2"}, *nv[] = {"value0", "value1", "value2"}, *uq[] = {"0", "1", "2"};
  for (int i = 0; i < n; i++) {
    Tags t; if (n > 1) t.add(SR("u"), SR(uq[i])); uint64_t ts = sym_pick(nt[i], (uint64_t)sym_param("tagsets", 3));
    if (ts == 1) t.add(SR("k"), SR("name")); if (ts == 2) { t.add(SR("m0"), SR("m0")); t.add(SR("name"), SR(kLong)); } if (ts == 3) { t.add(SR("e"), SR("")); t.add(SR("count"), SR("statistic")); }
    const char* st = kStats[sym_pick(ns[i], (uint64_t)sym_param("stats", 11))]; if (st) t.add(SR("statistic"), SR(st));
    double v = sym_double(nv[i]); add(Id(SR(names[sym_pick(nn[i], 3)]), std::move(t)), v, st);
  }
  answer = fine; Pub p(R.get()); p.send_metrics(); allSent(); sym_reach("sent"); sym_observe_u64("batches", nBatches);
}
static void simple(int n) { static const char* nm[8] = {"a", "b", "c", "d", "e", "f", "g", "h"}; static const char* st[8] = {"count", "gauge", "max", "totalTime", "count", "gauge", "count", "max"}; for (int i = 0; i < n; i++) { Tags t; t.add(SR("statistic"), SR(st[i])); add(Id(SR(nm[i]), t), i + 0.5, st[i]); } }
// how a list falls into batches
HARNESS(h_pub_batches) {
  int n = (int)sym_pick("measurements", (uint64_t)sym_param("n", 7) + 1), b = 1 + (int)sym_pick("batch_size", (uint64_t)sym_param("n", 7) + 1); bool on = sym_pick("enabled", 2), status = sym_pick("status_metrics", 2);
  world({{"c", "d"}}, b, status); common.push_back({SR("c"), SR("d")}); simple(n); C->on = on; answer = fine; Pub p(R.get()); int64_t t0 = g_now; p.send_metrics();
  sym_assert(R->asked == 1, "each round takes the measurements once");
  if (!on || n == 0) { sym_assert(nPerform == 0, "nothing is sent when publishing is disabled or there is nothing to send"); sym_assert(p.GetLastSuccessTime() == t0, "the last success is the last accepted batch"); sym_reach("nothing"); }
  else { allSent(); sym_assert(nBatches == (n + b - 1) / b && nPerform == nBatches, "batches are as few as the size allows"); sym_assert(p.GetLastSuccessTime() == lastOk, "the last success is the last accepted batch"); sym_reach(nBatches > 1 ? "several" : "one"); }
  sym_assert(count("sent", nullptr) == (on && status ? n : 0), "the number sent is accounted for");
}
// ---- the backend's answers, one per batch
static int kind[3]; static int bsz; static int eHi[3];
static std::string num(int v) { return std::to_string(v); }
static long scripted(int first, int n, int att, std::string* body) {
  int b = first / bsz; int e = eHi[b];
  switch (kind[b]) {
    case 0: return 200;
    case 1: *body = "{\"type\":\"partial\",\"errorCount\":" + num(e) + ",\"message\":[\"bad tag\",\"bad tag\"]}"; return 202;
    case 2: *body = "{\"errorCount\":" + num(e) + ",\"message\":[]}"; return 400;
    case 3: *body = "{\"errorCount\":1"; return 202;
    case 4: *body = "{\"message\":[\"no count\"]}"; return 400;
    case 5: return -1;
    case 6: return 503;
    case 7: *body = "not found"; return 404;
    case 8: return att == 0 ? 500 : 200;
    case 9: if (att < 2) return -1; *body = "{\"errorCount\":" + num(e) + ",\"message\":[\"x\"]}"; return 206;
    default: return 429;
  }
}
HARNESS(h_pub_answers) {
  int n = (int)sym_param("n", 4); bsz = 2; int nb = (n + 1) / 2; bool status = sym_param("status", 1); world({}, bsz, status); simple(n);
  static const char *kn[] = {"kind0", "kind1", "kind2"}, *en[] = {"errors0", "errors1", "errors2"}; double sent = 0, inv = 0, http = 0, other = 0; bool ok = false;
  for (int b = 0; b < nb; b++) {
    kind[b] = (int)sym_pick(kn[b], 11); int sz = b == nb - 1 && n % 2 ? 1 : 2; eHi[b] = 0; if (kind[b] == 1 || kind[b] == 2 || kind[b] == 9) eHi[b] = (int)sym_pick(en[b], (uint64_t)sz + 1);
    switch (kind[b]) { case 0: case 8: sent += sz; break; case 1: case 2: case 9: inv += eHi[b]; sent += sz - eHi[b]; break; case 6: http += sz; break; default: other += sz; }
    if (kind[b] == 0 || kind[b] == 1 || kind[b] == 3 || kind[b] == 8 || kind[b] == 9) ok = true;
  }
  answer = scripted; Pub p(R.get()); int64_t t0 = g_now; p.send_metrics(); allSent(); sym_assert(nBatches == nb, "batches are as few as the size allows");
  sym_assert(p.GetLastSuccessTime() == (ok ? lastOk : t0), "the last success is the last accepted batch"); if (!status) sent = inv = http = other = 0;
  sym_observe_u64("sent", dbits(count("sent", nullptr))); sym_observe_u64("dropped", dbits(count("dropped", "other")));
  sym_assert(count("sent", nullptr) == sent, "the number sent is accounted for"); sym_assert(count("dropped", "validation") == inv, "the number found invalid is accounted for");
  sym_assert(count("dropped", "http-error") == http, "the number dropped for server errors is accounted for"); sym_assert(count("dropped", "other") == other, "the number dropped for other reasons is accounted for");
  if (ok) sym_reach("accepted"); else sym_reach("dropped");
}
// answers that make no sense: nothing is lost, invented or dereferenced
static char sbody[80]; static size_t slen; static long sstatus;
static long strange(int, int, int, std::string* body) { body->assign(sbody, slen); return sstatus; }
static void conserved(int n) {
  double s = count("sent", nullptr), i = count("dropped", "validation"), h = count("dropped", "http-error"), o = count("dropped", "other");
  sym_assert(s >= 0 && i >= 0 && h >= 0 && o >= 0 && s + i + h + o == n, "whatever the backend answers, every measurement is accounted for once");
}
HARNESS(h_pub_strange) {
  static const char* const docs[] = {"{\"errorCount\":3,\"message\":[]}", "{\"errorCount\":-1,\"message\":[]}", "{\"errorCount\":\"1\",\"message\":[]}", "{\"errorCount\":1.5,\"message\":[]}", "{\"errorCount\":99999999999,\"message\":[]}", "{\"errorCount\":null}", "[]", "null", "1", "\"x\"", "[{\"errorCount\":1}]", "", "{\"errorCount\":1}", "{\"errorCount\":1,\"message\":\"text\"}", "{\"errorCount\":1,\"message\":[1,null,{}]}", "{\"errorCount\":2,\"message\":null}", "{\"errorCount\":1,\"errorCount\":2,\"message\":[\"a\"]}", "{\"errorCount\":-2147483648,\"message\":[]}", "{\"errorCount\":4294967297,\"message\":[]}"};
  static const long sts[] = {202, 400, 302, 499, 201, 100, 600, 0, 200, 599};
  world({}, 10); simple(2); const char* dc = docs[sym_pick("document", sizeof docs / sizeof *docs)]; slen = strlen(dc); memcpy(sbody, dc, slen); sstatus = sts[sym_pick("status", 10)];
  answer = strange; Pub p(R.get()); p.send_metrics(); allSent(); conserved(2); sym_reach("done"); if (dc[0] == '{' && dc[14] == '1' && dc[15] != '.' && sstatus > 200 && sstatus < 500 && strlen(dc) < 50 && strcmp(dc + 14, "1,\"errorCount\":2,\"message\":[\"a\"]}")) { sym_reach("count"); sym_assert(count("dropped", "validation") == 1 && count("sent", nullptr) == 1, "the number found invalid is accounted for"); }
}
// any text where the count stands, any short document
HARNESS(h_pub_anytext) {
  world({}, 10); simple(2); int form = (int)sym_pick("form", 2); size_t k = (size_t)sym_param("k", 3);
  if (form == 0) { memcpy(sbody, "{\"errorCount\":", 14); sym_bytes(sbody + 14, k, "text"); memcpy(sbody + 14 + k, ",\"message\":[]}", 14); slen = 28 + k; } else { slen = sym_pick("length", k + 1); sym_bytes(sbody, slen, "text"); }
  sstatus = 400; answer = strange; Pub p(R.get()); p.send_metrics(); conserved(2); sym_reach(form ? "document" : "count"); sym_observe_u64("invalid", dbits(count("dropped", "validation")));
}
// the daemon's own registry: meters that expire or are deleted while their measurements are on the way
static int deleted;
static void expireNow() { g_now += 20 * S1; R->remove_expired_meters(); if (deleted) { R->DeleteAllMeters("g"); R->DeleteAllMeters("A"); } }
HARNESS(h_pub_expiry) {
  world({}, 1, false); R->given = nullptr; deleted = (int)sym_pick("delete", 2);
  auto g = R->GetGauge(Id(SR("g1"), Tags{}), absl::Seconds(5)); g->Set(1); g.reset(); auto h = R->GetGauge(Id(SR("g2"), Tags{}), absl::Seconds(5)); h->Set(2); h.reset(); R->GetAgeGauge(Id(SR("a"), Tags{}))->UpdateLastSuccess(g_now - 4 * S1);
  static Id i1 = Id(SR("g1"), Tags{}).WithStat(SR("gauge")), i2 = Id(SR("g2"), Tags{}).WithStat(SR("gauge")), i3 = Id(SR("a"), Tags{}).WithStat(SR("gauge")); want[0] = {&i1, dbits(1), 10, 0}; want[1] = {&i2, dbits(2), 10, 0}; want[2] = {&i3, dbits(4), 10, 0}; nWant = 3;
  during = expireNow; answer = fine; Pub p(R.get()); p.send_metrics(); allSent(); sym_reach("sent");
}
// common tags changed while running, and rounds one after the other through the same buffers
HARNESS(h_pub_rounds) {
  world({{"a", "1"}, {"b", "2"}}, 2); Pub p(R.get()); answer = fine; std::map<std::string, std::string> ct{{"a", "1"}, {"b", "2"}}; int rounds = (int)sym_param("rounds", 3); double total = 0;
  static const char *cn[] = {"change0", "change1", "change2", "change3"}, *mn[] = {"measurements0", "measurements1", "measurements2", "measurements3"};
  for (int r = 0; r < rounds; r++) {
    switch (sym_pick(cn[r], 5)) { case 1: R->UpdateCommonTag("a", "x"); ct["a"] = "x"; break; case 2: R->UpdateCommonTag("c", "3"); ct["c"] = "3"; break; case 3: R->EraseCommonTag("b"); ct.erase("b"); break; case 4: g_now += 1000 * S1; R->remove_expired_meters(); total = 0; break; default: break; }
    common.clear(); for (auto& kv : ct) common.push_back({SR(kv.first), SR(kv.second)});
    nWant = nBatches = nPerform = 0; list.clear(); ids.clear(); memset(attemptOf, 0, sizeof attemptOf); int n = 1 + 2 * (int)sym_pick(mn[r], 2); simple(n); p.send_metrics(); allSent(); total += n; sym_assert(count("sent", nullptr) == total, "the number sent is accounted for");
  }
  sym_reach("done");
}
// the jobs of the thread pool, one thread each: interleaved with each other and with the sending thread
static bool mtPost; static size_t poolThreads; static unsigned cpus = 2;
static std::vector<std::unique_ptr<std::function<void()>>> jobs; static size_t nextJob; static size_t working; static char jobsLock;
extern "C" unsigned vp_concurrency(void) { return cpus; }
// a worker takes one job after the other while there are any
static void worker(void*) {
  for (;;) {
    sym_mutex_lock(&jobsLock); std::function<void()>* j = nextJob < jobs.size() ? jobs[nextJob++].get() : nullptr; if (!j) working--; sym_mutex_unlock(&jobsLock);
    if (!j) return; (*j)();
  }
}
void vp_asio_pool(void*, size_t n) { poolThreads = n; }
void vp_asio_post(void*, std::function<void()> job) {
  if (!mtPost) { if (poolThreads) job(); return; }
  sym_mutex_lock(&jobsLock); jobs.push_back(std::make_unique<std::function<void()>>(std::move(job))); bool more = working < poolThreads; if (more) working++; sym_mutex_unlock(&jobsLock);
  if (more) sym_thread(worker, nullptr);
}
static long mixed(int first, int, int, std::string*) { return first == 0 ? 200 : 404; }
HARNESS(h_pub_threads) {
  int n = (int)sym_param("n", 2); world({{"c", "d"}}, 1, sym_param("status", 0)); common.push_back({SR("c"), SR("d")}); simple(n); Pub p(R.get()); mtMode = mtPost = true; jobs.clear(); nextJob = working = 0; answer = sym_param("fail", 0) ? mixed : fine; sym_assert(poolThreads == 2, "as many sender threads as processors");
  // a first round in one thread: afterwards the function-local statics are there
  mtPost = false; p.send_metrics(); allSent(); for (int i = 0; i < nWant; i++) want[i].seen = 0; double sent0 = count("sent", nullptr); g_now += S1; mtPost = true; p.send_metrics(); mtPost = mtMode = false; allSent(); sym_join_all(); if (sym_param("status", 0)) { sym_assert(count("sent", nullptr) - sent0 == (sym_param("fail", 0) ? 1 : n), "the number sent is accounted for"); }
  sym_assert(p.GetLastSuccessTime() == g_now, "the last success is the last accepted batch"); sym_reach("sent");
}
// any number of processors the system reports, none included
HARNESS(h_pub_processors) {
  static const unsigned k[] = {0, 1, 3, 8, 9, 64}; cpus = k[sym_pick("processors", 6)]; world({}, 1); simple(5); answer = fine; Pub p(R.get()); sym_assert(poolThreads == (cpus == 0 ? 1 : cpus > 8 ? 8 : cpus), "as many sender threads as processors, up to eight");
  p.send_metrics(); allSent(); sym_reach("sent");
}
