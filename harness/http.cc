// HTTP requests: the transfers' outcomes are the harness's, the client's retries, result and
// accounting are checked. curl is the stub of models/stubs/curl.
#include "world.h"
#include "spectator/http_client.h"
#include "spectator/log_entry.h"
using namespace spectator;
extern "C" long zm_payload(const unsigned char*, size_t);
static const int64_t MS = 1000000ll, S1 = 1000000000ll;
static int64_t g_slept;
extern "C" void env_sleep(int64_t ns) { g_slept += ns; g_now += ns; }
struct Outcome { int curl; long status; int64_t dt; const char* body; };   // curl: 0 fine, 1 cannot connect, 2 timed out, 3 anything else
static CURLcode codes[4] = {CURLE_OK, CURLE_COULDNT_CONNECT, CURLE_OPERATION_TIMEDOUT, CURLE_RECV_ERROR};
static Outcome outs[3]; static int nAtt; static bool stopped;
static const char *wUrl, *wMethod; static const void* wBody; static long wSize; static int nHdr; static const char* wHdr[3]; static bool wGzip; static int64_t wConn, wRead;
static int64_t left0;
static void (*decide)(int);
CURLcode vp_curl_perform(VpCurl* c) {
  int a = nAtt++; if (a >= 3) sym_fail("a request is attempted at most three times"); sym_assert(!stopped, "a request is retried only after a retryable outcome");
  sym_assert(c->url == wUrl, "every attempt goes to the requested address"); 
  bool post = !strcmp(wMethod, "POST");
  sym_assert(c->post == post && (post || !strcmp(wMethod, "GET") ? c->method.empty() : c->method == wMethod), "every attempt uses the requested method");
  int h = 0; for (auto* l = c->headers; l; l = l->next, h++) sym_assert(h < nHdr && !strcmp(l->data, wHdr[h]), "every attempt carries the headers of the request");
  sym_assert(h == nHdr, "every attempt carries the headers of the request");
  if (post) {
    sym_assert(c->body_size >= 0, "the body has a size");
    const unsigned char* b = (const unsigned char*)c->body; long n = c->body_size;
    if (wGzip) { long k = zm_payload(b, (size_t)n); sym_assert(k >= 0, "the compressed body is a complete stream"); b += 2; n = k; }
    sym_assert(n == wSize, "every attempt carries the whole payload"); int same = 1; for (long i = 0; i < n; i++) same = sym_and(same, b[i] == ((const unsigned char*)wBody)[i]);
    sym_assert(same, "every attempt carries the payload given");
  } else sym_assert(c->body_size == -1, "a request without a payload sends none");
  sym_assert(c->timeout_ms == (wConn + wRead) / MS && c->connect_ms == wConn / MS, "every attempt is limited by the configured timeouts");
  decide(a); Outcome& o = outs[a]; g_now += o.dt;
  if (o.curl == 0) { c->status = o.status; size_t n = strlen(o.body); if (n) { sym_assert(c->wfun != nullptr, "the body goes somewhere"); size_t k = n / 2; sym_assert(c->wfun((char*)o.body, 1, k, c->wdata) == k && c->wfun((char*)o.body + k, 1, n - k, c->wdata) == n - k, "the body is taken"); } }
  else if (c->errbuf) strcpy(c->errbuf, "why");
  int retry = o.curl ? o.dt < wConn + wRead : sym_or(o.status == 429, sym_and(o.status >= 500, o.status <= 599));
  if (!retry || a == 2) stopped = true;
  return codes[o.curl];
}
static std::unique_ptr<TestReg> R; static HttpClientConfig cfg() {
  wConn = 1000 * MS; wRead = 3000 * MS; HttpClientConfig c{}; c.connect_timeout = absl::Nanoseconds(wConn); c.read_timeout = absl::Nanoseconds(wRead); c.compress = false; c.read_body = true; c.status_metrics_enabled = true; return c;
}
static void endCheck(const HttpResponse& r, bool body) {
  sym_assert(nAtt >= 1 && stopped, "a retryable outcome is retried while attempts are left");
  Outcome& o = outs[nAtt - 1]; sym_observe_u64("status", (uint64_t)(int64_t)r.status); sym_observe_u64("attempts", nAtt);
  sym_assert(r.status == (o.curl ? -1 : (int)o.status), "the outcome of the last attempt is returned");
  sym_assert(r.raw_body == (o.curl || !body ? "" : o.body), "the body of the last attempt is returned");
}
// every attempt is one recording of ipc.client.call
static void ipcCheck(const char* path, bool enabled) {
  auto ms = R->Measurements(); int counts = 0; static const char* att[] = {"initial", "second", "third_up"};
  for (auto& m : ms) if (m.id.Name() == SR("ipc.client.call") && m.id.GetTags().at(SR("statistic")) == SR("count")) counts++;
  sym_assert(counts == (enabled ? nAtt : 0), "each attempt is recorded on its own, and only if wanted");
  for (auto& m : ms) if (!enabled) sym_assert(!(m.id.Name() == SR("ipc.client.call")), "nothing is recorded when status metrics are off");
  for (int a = 0; enabled && a < nAtt; a++) {
    Outcome& o = outs[a]; char st[8]; if (o.curl) strcpy(st, "-1"); else { int k = 0, s = (int)o.status; char t[8]; do { t[k++] = '0' + s % 10; s /= 10; } while (s); for (int i = 0; i < k; i++) st[i] = t[k - 1 - i]; st[k] = 0; }
    bool good = !o.curl && o.status >= 200 && o.status < 300;
    Tags t; t.add(SR("owner"), SR("spectatord")); t.add(SR("ipc.endpoint"), SR(path)); t.add(SR("http.method"), SR(wMethod)); t.add(SR("http.status"), SR(st));
    t.add(SR("ipc.attempt"), SR(att[a])); t.add(SR("ipc.attempt.final"), SR(a == nAtt - 1 ? "true" : "false")); t.add(SR("ipc.result"), SR(good ? "success" : "failure"));
    t.add(SR("ipc.status"), SR(good ? "success" : o.curl == 1 ? "connection_error" : o.curl == 2 ? "timeout" : o.curl == 3 ? "unknown" : "http_error"));
    Id base(SR("ipc.client.call"), t); Id id = base.WithStat(SR("count")), tot = base.WithStat(SR("totalTime")); int f = 0, g = 0, pc = 0;
    for (auto& m : ms) {
      if (m.id == id) { f++; sym_assert(m.value == 1, "each attempt is recorded once"); }
      if (m.id == tot) { g++; sym_assert(m.value == (double)o.dt / 1e9, "an attempt is recorded with the time it took"); }
      if (m.id.Name() == SR("ipc.client.call") && m.id.GetTags().has(SR("percentile"))) { auto x = m.id.GetTags(); if (x.at(SR("ipc.attempt")) == SR(att[a])) { pc++; sym_assert(m.value == 1, "each attempt falls into one bucket"); } }
    }
    sym_assert(f == 1, "each attempt is recorded with the tags that describe it"); sym_assert(g == 1, "each attempt's time is recorded"); sym_assert(pc == 1, "each attempt falls into one bucket");
  }
}
static const long kStatus[] = {200, 429, 500, 404, 503, 302, 204, 499, 599, 100, 428, 430, 600, 0};
static const int64_t kDt[] = {0, 300 * MS, 3999999999ll, 4000000000ll, 9000000000ll};
static void pickOutcome(int a) {
  static const char* names[3] = {"outcome0", "outcome1", "outcome2"}; uint64_t nst = (uint64_t)sym_param("statuses", 14);
  uint64_t k = sym_pick(names[a], 15 + nst); Outcome& o = outs[a];
  if (k < 15) { o.curl = 1 + (int)(k / 5); o.status = 0; o.dt = kDt[k % 5]; o.body = "never"; }
  else { o.curl = 0; o.status = kStatus[k - 15]; o.dt = a == 0 ? 1500 * MS : 0; o.body = a == 0 ? "first" : a == 1 ? "" : "the third"; }
}
static void request(HttpClient& c, int kind, bool compress, HttpResponse* out) {
  static const char url[] = "http://host:80/a/b?x=1"; static const char payload[] = "some payload"; wUrl = url; nHdr = 0; wGzip = false; wBody = payload; wSize = 12;
  switch (kind) {
    case 0: wMethod = "GET"; *out = c.Get(url); break;
    case 1: wMethod = "GET"; wHdr[0] = "X-A: 1"; wHdr[1] = "X-B: 2"; nHdr = 2; *out = c.Get(url, {"X-A: 1", "X-B: 2"}); break;
    case 2: wMethod = "PUT"; wHdr[0] = "X-A: 1"; nHdr = 1; *out = c.Put(url, {"X-A: 1"}); break;
    default: wMethod = "POST"; wHdr[0] = HttpClient::kJsonType; nHdr = 1; if (compress) { wHdr[1] = "Content-Encoding: gzip"; nHdr = 2; wGzip = true; } *out = c.Post(url, HttpClient::kJsonType, payload, 12);
  }
}
// every sequence of outcomes up to the retry limit, with the accounting
HARNESS(h_http_retry) {
  R = std::make_unique<TestReg>(mkCfg(), mkLog()); nAtt = 0; stopped = false; decide = pickOutcome; g_slept = 0;
  auto c = cfg(); int kind = (int)sym_param("kind", 3); c.compress = sym_param("compress", 1); HttpClient client(R.get(), c); HttpResponse r;
  request(client, kind, c.compress, &r); endCheck(r, true);
  if (nAtt == 1) sym_reach("one"); if (nAtt == 2) sym_reach("two"); if (nAtt == 3) sym_reach("three");
  ipcCheck("/a/b", true);
}
// any status code of the first attempt
static void anyStatus(int a) { Outcome& o = outs[a]; o.curl = 0; o.dt = 0; o.body = "b"; o.status = a == 0 ? (long)sym_concretize(sym_range("status", 0, 999)) : 200; }
HARNESS(h_http_status) {
  R = std::make_unique<TestReg>(mkCfg(), mkLog()); nAtt = 0; stopped = false; decide = anyStatus; auto c = cfg(); HttpClient client(R.get(), c); HttpResponse r;
  request(client, 0, false, &r); endCheck(r, true); if (nAtt == 1) sym_reach("kept"); else sym_reach("retried"); ipcCheck("/a/b", true);
}
// failed transfers of any duration under any timeouts; configurations
static void anyTime(int a) { static const char* n[3] = {"took0", "took1", "took2"}; Outcome& o = outs[a]; o.curl = 1 + a; o.status = 0; o.body = ""; o.dt = (int64_t)sym_range(n[a], 0, 30 * S1); }
HARNESS(h_http_time) {
  R = std::make_unique<TestReg>(mkCfg(), mkLog()); nAtt = 0; stopped = false; decide = anyTime; auto c = cfg(); c.status_metrics_enabled = false;
  wConn = (int64_t)sym_range("connect", 0, 10000) * MS; wRead = (int64_t)sym_range("read", 0, 10000) * MS; c.connect_timeout = absl::Nanoseconds(wConn); c.read_timeout = absl::Nanoseconds(wRead);
  HttpClient client(R.get(), c); HttpResponse r; request(client, 0, false, &r); endCheck(r, true); if (nAtt < 3) sym_reach("given up"); else sym_reach("three"); ipcCheck("/a/b", false);
}
// every kind of request with every configuration
static void mostly(int a) { Outcome& o = outs[a]; o.curl = a == 0 && sym_pick("fails", 2) ? 1 : 0; o.status = 200; o.body = "answer"; o.dt = 5 * MS; }
HARNESS(h_http_kinds) {
  R = std::make_unique<TestReg>(mkCfg(), mkLog()); nAtt = 0; stopped = false; decide = mostly; auto c = cfg();
  int kind = (int)sym_pick("kind", 4); uint64_t bits = sym_pick("config", 64); c.compress = bits & 1; c.read_body = bits & 2; c.status_metrics_enabled = bits & 4; c.read_headers = bits & 8; c.verbose_requests = bits & 16; c.external_enabled = bits & 32;
  HttpClient client(R.get(), c); HttpResponse r; request(client, kind, c.compress, &r); endCheck(r, c.read_body); sym_reach(nAtt == 2 ? "second" : "first"); ipcCheck("/a/b", c.status_metrics_enabled);
}
// the retry decision for any status code at all
static void symStatus(int a) { static const char* n[3] = {"status0", "status1", "status2"}; Outcome& o = outs[a]; o.curl = 0; o.dt = 0; o.body = "b"; o.status = (long)sym_range(n[a], 0, 999); }
HARNESS(h_http_anystatus) {
  R = std::make_unique<TestReg>(mkCfg(), mkLog()); nAtt = 0; stopped = false; decide = symStatus; auto c = cfg(); c.status_metrics_enabled = false; HttpClient client(R.get(), c); HttpResponse r;
  request(client, 0, false, &r); endCheck(r, true); sym_reach(nAtt == 1 ? "kept" : nAtt == 2 ? "retried" : "twice"); ipcCheck("/a/b", false);
}
