// The wire protocol: real parser, against a grammar written down independently here.
#include "world.h"
#include "server/spectatord.h"
#include <cctype>
#include <cstdlib>
using namespace spectator;
using spectatord::get_measurement;
extern "C" size_t strlen(const char*);
// ---- reference grammar of  name[,key=value]*:number
struct Ref { bool ok; int nl; int nt; int kb[6], ke[6], vb[6], ve[6]; int vpos; };
static Ref refMeasurement(const char* s, int n) {
  Ref r{}; int i = 0;
  while (i < n && s[i] != ',' && s[i] != ':') i++;
  if (i == n || i == 0) return r;
  r.nl = i;
  while (s[i] == ',') {
    int e = i + 1; while (e < n && s[e] != '=') e++;
    if (e == n) return r;
    int v = e + 1; while (v < n && s[v] != ',' && s[v] != ':') v++;
    if (v == n) return r;
    if (r.nt == 6) { sym_fail("harness: too many tags"); }
    r.kb[r.nt] = i + 1; r.ke[r.nt] = e; r.vb[r.nt] = e + 1; r.ve[r.nt] = v; r.nt++;
    i = v;
  }
  r.vpos = i + 1; r.ok = true; return r;
}
// the tag map that was written: last value of a key wins
static void checkId(const Id& id, const char* s, const Ref& r) {
  sym_assert(textIs(id.Name(), s, (size_t)r.nl), "the name is the written one with disallowed characters replaced");
  Tags want; for (int i = 0; i < r.nt; i++) want.add(std::string_view(s + r.kb[i], (size_t)(r.ke[i] - r.kb[i])), std::string_view(s + r.vb[i], (size_t)(r.ve[i] - r.vb[i])));
  sym_assert(id.GetTags() == want, "the tags are the written ones");
}
HARNESS(h_measurement) {
  size_t N = (size_t)sym_param("n", 6), form = (size_t)sym_param("form", 0), m0 = sym_concretize(sym_range("len", 0, N));
  static const char* const pre[] = {"", "a,k", "a,k=v,"}; static const char* const post[] = {"", ":1", ":2"}; size_t pl = strlen(pre[form]), ql = strlen(post[form]), n = pl + m0 + ql;
  char* buf = new char[n + 1]; memcpy(buf, pre[form], pl); sym_bytes(buf + pl, m0, "s"); memcpy(buf + pl + m0, post[form], ql); buf[n] = 0;   // exactly the text and its terminator: any read beyond is caught
  for (size_t i = 0; i < n; i++) sym_assume(buf[i] != 0);
  char type = sym_pick("type", 2) ? 'U' : 'c';
  std::string err;
  auto m = get_measurement(type, std::string_view(buf, n), &err);
  Ref r = refMeasurement(buf, (int)n);
  if (!r.ok) { sym_assert(!m, "a malformed measurement is rejected"); sym_assert(!err.empty(), "a rejection is explained"); sym_reach("malformed"); }
  else {
    char* e = nullptr; double d = 0; uint64_t u = 0; const char* v = buf + r.vpos;
    if (type == 'U') u = strtoull(v, &e, 10); else d = strtod(v, &e);
    if (e == v) { sym_assert(!m, "a measurement without a number is rejected"); sym_assert(!err.empty(), "a rejection is explained"); sym_reach("no number"); }
    else {
      sym_assert(m.has_value(), "a well-formed measurement is accepted");
      if (type == 'U') sym_assert(m->value.u == u, "the unsigned value is the written one"); else sym_assert(sym_same_double(m->value.d, d), "the value is the written one");
      checkId(m->id, buf, r);
      bool clean = *e == 0 || isspace((unsigned char)*e);
      sym_assert(err.empty() == clean, "characters after the number are reported");
      sym_observe_u64("v", m->value.u);
      sym_reach(r.nt ? "tags" : "plain"); if (!clean) sym_reach("trailing");
    }
  }
  delete[] buf;
}

// ---- whole lines
struct Srv : spectatord::Server { explicit Srv(Registry* r) : Server(true, 1234, {}, {}, r) {} using Server::parse; using Server::parse_statsd; };
struct Sizes { size_t age, cnt, dist, gauge, maxg, mono, monou, timer, total; };
static Sizes sizes(const Registry& r) {      // without the daemon's counts of itself, whenever those come into being
  size_t self = 0; for (auto* c : r.Counters()) { const char* n = c->MeterId().Name().Get(); if (n && strncmp(n, "spectatord.", 11) == 0) self++; }
  return {r.AgeGauges().size(), r.Counters().size() - self, r.DistSummaries().size(), r.Gauges().size(), r.MaxGauges().size(), r.MonotonicCounters().size(), r.MonotonicCountersUint().size(), r.Timers().size(), r.Size() - self};
}
static bool same(const Sizes& a, const Sizes& b) { return a.age == b.age && a.cnt == b.cnt && a.dist == b.dist && a.gauge == b.gauge && a.maxg == b.maxg && a.mono == b.mono && a.monou == b.monou && a.timer == b.timer && a.total == b.total; }
static double selfCount(Registry& r, const char* n) { return r.GetCounter(n)->Count(); }
static bool knownType(char c) { return c == 'A' || c == 'c' || c == 'C' || c == 'd' || c == 'D' || c == 'g' || c == 'm' || c == 't' || c == 'T' || c == 'U' || c == 'X'; }
struct RefLine { bool ok; char type; int64_t extra; int body; Ref m; };
static RefLine refLine(const char* s, int n) {
  RefLine l{}; int i = 1;
  if (n < 2) return l;
  l.type = s[0];
  if (s[i] == ',') { char* e; l.extra = strtoll(s + i + 1, &e, 10); if (l.extra <= 0 && (l.type == 'g' || l.type == 'X')) return l; i = (int)(e - s); }
  if (i >= n || s[i] != ':') return l;
  l.body = i + 1; l.m = refMeasurement(s + i + 1, n - i - 1);
  if (!l.m.ok) return l;
  char* e; const char* v = s + l.body + l.m.vpos;
  if (l.type == 'U') strtoull(v, &e, 10); else strtod(v, &e);
  if (e == v || !knownType(l.type)) return l;
  if (l.type == 'X' && (l.extra <= 0 || l.extra > INT64_MAX / 1000000)) return l;   // a sample without a usable time
  l.ok = true; return l;
}
// how many meters of its kind an accepted line creates
static void checkCreated(const Sizes& a, const Sizes& b, char t) {
  Sizes w = a;
  switch (t) { case 'A': w.age++; break; case 'c': w.cnt++; break; case 'C': w.mono++; break; case 'd': w.dist++; break; case 'D': w.dist++; break; case 'g': w.gauge++; break; case 'm': w.maxg++; break; case 't': w.timer++; break; case 'T': w.timer++; break; case 'U': w.monou++; break; }
  w.total++;
  if ((t == 'D' || t == 'T') && b.cnt > w.cnt) { w.cnt++; w.total++; }   // the bucket of the recorded amount
  sym_assert(same(b, w), "an accepted line creates exactly the meter it names");
}
HARNESS(h_line) {
  size_t N = (size_t)sym_param("n", 5), n = sym_concretize(sym_range("len", 1, N)), form = (size_t)sym_param("form", 0);
  static const char* const pre[] = {"", "g,", "c", "X,"}; static const char* const post[] = {"", "1:a:1", ":a:1", "2:a:1"};
  size_t pl = strlen(pre[form]), ql = strlen(post[form]), tot = pl + n + ql;
  char* buf = new char[tot + 1]; memcpy(buf, pre[form], pl); sym_bytes(buf + pl, n, "s"); memcpy(buf + pl + n, post[form], ql); buf[tot] = 0;
  for (size_t i = 0; i < n; i++) { sym_assume(buf[pl + i] != 0); sym_assume(buf[pl + i] != '\n'); }
  TestReg reg(mkCfg(), mkLog()); Srv srv(&reg);
  Sizes a = sizes(reg);
  RefLine l = refLine(buf, (int)tot);
  auto err = srv.parse(buf);
  Sizes b = sizes(reg);
  double good = selfCount(reg, "spectatord.parsedCount"), bad = selfCount(reg, "spectatord.parseErrors");
  sym_assert(err.has_value() == !l.ok, l.ok ? "a well-formed line is accepted" : "a malformed line is rejected with an explanation");
  if (err) { sym_assert(!err->empty(), "a rejection is explained"); sym_assert(same(a, b), "a rejected line changes no meter"); sym_assert(good == 0 && bad == 1, "a rejected line counts as one error"); sym_reach("rejected"); }
  else { sym_assert(good == 1 && bad == 0, "an accepted line counts as one metric"); checkCreated(a, b, l.type); sym_reach("accepted"); }
  delete[] buf;
}

// ---- types and units: numbers are arbitrary, not spelled
extern "C" { extern double (*vp_strtod_hook)(const char*, char**); extern long long (*vp_strtoll_hook)(const char*, char**); extern unsigned long long (*vp_strtoull_hook)(const char*, char**); }
static double gD; static uint64_t gU; static int64_t gX;
static double hookD(const char* s, char** e) { *e = (char*)s + (*s == '?'); return gD; }
static unsigned long long hookU(const char* s, char** e) { *e = (char*)s + (*s == '?'); return gU; }
static long long hookX(const char* s, char** e) { *e = (char*)s + (*s == '?'); return gX; }
template <class M> static const M* find(const std::vector<const M*>& v, const Id& id) { const M* r = nullptr; for (auto* m : v) if (m->MeterId() == id) { sym_assert(r == nullptr, "one meter per id"); r = m; } return r; }
static int isFin(double d) { return (dbits(d) >> 52 & 0x7ff) != 0x7ff; }
HARNESS(h_type) {
  static const char types[] = "AcCdDgmtTUX";
  int which = (int)sym_param("type", -1); char T = types[which >= 0 ? (uint64_t)which : sym_pick("type", 11)];
  bool ex = T == 'X' || sym_pick("extra", 2);
  vp_strtod_hook = hookD; vp_strtoull_hook = hookU; vp_strtoll_hook = hookX;
  auto cfg = mkCfg(); TestReg reg(std::move(cfg), mkLog()); Srv srv(&reg);
  Sizes a = sizes(reg); Tags tags; tags.add("k", "v"); Id id(SR("n"), std::move(tags));
  double d[2]; int64_t x[2]; uint64_t u[2]; bool far = false;
  for (int i = 0; i < 2; i++) {
    gD = d[i] = sym_double("value"); gU = u[i] = sym_u64("uvalue"); gX = x[i] = (int64_t)sym_u64("extra_value"); g_now += 1000;
    if (ex) sym_assume(x[i] > 0);
    if (T == 't') { sym_assume(isFin(d[i])); sym_assume(sym_and(d[i] > -4e9, d[i] < 4e9)); }
    if (T == 'T') gD = d[i] = (double)((int64_t)sym_pick("ns", 8) - 2) / 1e9;
    if (T == 'm') sym_assume(d[i] != -__DBL_MAX__);
    // any time to live; sample times within 65 s of a fixed one or the last representable one
    if (ex && T == 'g') gX = x[i] = (int64_t)sym_range("ttl", 1, INT64_MAX);
    if (T == 'X') { if (i == 0) far = sym_pick("far", 2); gX = x[i] = (int64_t)sym_range("ms", 1, 1 << 16) + (far ? INT64_MAX / 1000000 - (1 << 16) : 1700000000000ll); if (i) sym_assume(x[1] > x[0]); }

    if (T == 'A') { sym_assume(isFin(d[i])); sym_assume(sym_and(d[i] > -9e9, d[i] < 9e9)); }
    if (T == 'D') sym_assume(sym_and(d[i] >= -3, d[i] < 4));
    if (T == 'd') { sym_assume(isFin(d[i])); }
    char line[24]; int p = 0; line[p++] = T; if (ex) { line[p++] = ','; line[p++] = '?'; } memcpy(line + p, ":n,k=v:?", 9);
    auto err = srv.parse(line); sym_assert(!err, "a well-formed line is accepted");
    Sizes b = sizes(reg); if (i == 0) checkCreated(a, b, T);
    switch (T) {
      case 'A': { auto* m = find(reg.AgeGauges(), id); sym_assert(m != nullptr, "the age gauge exists"); if (d[i] == 0) sym_assert(m->GetLastSuccess() == g_now, "zero means now"); else sym_assert(m->GetLastSuccess() == (int64_t)(d[i] * 1e9), "seconds since the epoch"); break; }
      case 'c': { auto* m = find(reg.Counters(), id); sym_assert(m != nullptr, "the counter exists"); double w = 0; for (int k = 0; k <= i; k++) if (d[k] >= 0) w = w + d[k]; sym_assert(sym_same_double(m->Count(), w), "the counter grows by the value"); break; }
      case 'C': { auto* m = find(reg.MonotonicCounters(), id); sym_assert(m != nullptr, "the monotonic counter exists"); Measurements ms; if (i) sym_assert(sym_same_double(m->Delta(), d[1] - d[0]), "the monotonic counter holds the value"); m->Measure(&ms); break; }
      case 'U': { auto* m = find(reg.MonotonicCountersUint(), id); sym_assert(m != nullptr, "the unsigned monotonic counter exists"); Measurements ms; if (i) sym_assert(u[1] < u[0] || sym_same_double(m->Delta(), (double)(u[1] - u[0])), "the unsigned monotonic counter holds the value"); m->Measure(&ms); break; }
      case 'd': { auto* m = find(reg.DistSummaries(), id); sym_assert(m != nullptr, "the distribution summary exists"); double w = 0; int c = 0; for (int k = 0; k <= i; k++) if (d[k] >= 0) { w = w + d[k]; c++; } sym_assert(m->Count() == c && sym_same_double(m->TotalAmount(), w), "the amount is recorded as written"); break; }
      case 'D': { auto* m = find(reg.DistSummaries(), id); sym_assert(m != nullptr, "the percentile distribution exists"); int64_t w = 0; int c = 0; for (int k = 0; k <= i; k++) if ((int64_t)d[k] >= 0) { w += (int64_t)d[k]; c++; } sym_assert(m->Count() == c && m->TotalAmount() == (double)w, "the whole amount is recorded"); break; }
      case 'g': { auto* m = find(reg.Gauges(), id); sym_assert(m != nullptr, "the gauge exists"); sym_assert(sym_same_double(m->Get(), d[i]), "the gauge has the value"); absl::Duration want = ex ? std::max(absl::Seconds(x[i]), absl::Seconds(5)) : absl::Minutes(15); sym_assert(m->GetTtl() == want, "the gauge lives for the given time"); break; }
      case 'm': { auto* m = find(reg.MaxGauges(), id); sym_assert(m != nullptr, "the maximum gauge exists"); double w = -__builtin_inf(); int any = 0; for (int k = 0; k <= i; k++) if (d[k] > w) { w = d[k]; any = 1; } sym_assert(sym_same_double(m->Get(), any ? w : m->Get()), "the maximum gauge holds the largest value"); break; }
      case 't': { auto* m = find(reg.Timers(), id); sym_assert(m != nullptr, "the timer exists"); int64_t w = 0; int c = 0; for (int k = 0; k <= i; k++) { int64_t ns = (int64_t)(d[k] * 1e9); if (ns >= 0) { w += ns; c++; } } sym_assert(m->Count() == c && m->TotalTime() == w, "the timer records the seconds"); break; }
      case 'T': { auto* m = find(reg.Timers(), id); sym_assert(m != nullptr, "the percentile timer exists"); int64_t w = 0; int c = 0; for (int k = 0; k <= i; k++) { int64_t ns = (int64_t)(d[k] * 1e9); if (ns >= 0) { w += ns; c++; } } sym_assert(m->Count() == c && m->TotalTime() == w, "the timer records the seconds"); break; }
      case 'X': { auto m = reg.GetMonotonicSampled(id); if (i) sym_assert(sym_same_double(m->SampledRate(), (d[1] - d[0]) / ((double)(x[1] * 1000000 - x[0] * 1000000) / 1e9)), "the sample has the value and the time"); break; }
    }
  }
  const char lab[2] = {T, 0}; sym_reach(lab);
}

// ---- datagrams of several lines
static void sameState(const Registry& a, const Registry& b, int k) {
  sym_assert(same(sizes(a), sizes(b)), "the datagram creates the meters its lines create");
  auto ca = a.Counters(), cb = b.Counters(); for (auto* x : ca) { auto* y = find(cb, x->MeterId()); sym_assert(y && sym_same_double(x->Count(), y->Count()), "the datagram has the effect of its lines: counters"); }
  auto ga = a.Gauges(), gb = b.Gauges(); for (auto* x : ga) { auto* y = find(gb, x->MeterId()); sym_assert(y && sym_same_double(x->Get(), y->Get()), "the datagram has the effect of its lines: gauges"); }
  auto da = a.DistSummaries(), db = b.DistSummaries(); for (auto* x : da) { auto* y = find(db, x->MeterId()); sym_assert(y && x->Count() == y->Count() && sym_same_double(x->TotalAmount(), y->TotalAmount()), "the datagram has the effect of its lines: distributions"); }
  auto ta = a.Timers(), tb = b.Timers(); for (auto* x : ta) { auto* y = find(tb, x->MeterId()); sym_assert(y && x->Count() == y->Count() && x->TotalTime() == y->TotalTime(), "the datagram has the effect of its lines: timers"); }
  (void)k;
}
static std::optional<std::string> feed(Srv& s, bool statsd, char* p) { return statsd ? s.parse_statsd(p) : s.parse(p); }
HARNESS(h_lines) {
  // lines with arbitrary bytes before, between and behind them
  bool statsd = sym_param("statsd", 0) != 0; size_t G = (size_t)sym_param("gap", 2), L = (size_t)sym_param("lines", 2); bool blank = sym_param("blank", 0) != 0;   // only empty lines and one-letter lines between
  static const char* const text[2][3] = {{"g:a:1", "c:b:2", "g:a:3"}, {"a:1|g", "b:2|c", "a:3|g"}};
  char* buf = new char[64]; size_t n = 0; 
  for (size_t i = 0; i <= L; i++) {
    size_t g = sym_concretize(sym_range("gap", 0, i == 0 || i == L ? G - (L > 2) : G));
    sym_bytes(buf + n, g, "s"); for (size_t j = 0; j < g; j++) sym_assume(blank ? sym_or(buf[n + j] == '\n', sym_and(j > 0, buf[n + j] == 'c')) : buf[n + j] != 0);
    n += g;
    if (i < L) { size_t l = strlen(text[statsd][i]); memcpy(buf + n, text[statsd][i], l); n += l; }
  }
  char* b2 = new char[n + 1]; memcpy(b2, buf, n); b2[n] = 0;
  TestReg r1(mkCfg(), mkLog()), r2(mkCfg(), mkLog()); Srv s1(&r1), s2(&r2);
  auto err = feed(s1, statsd, b2);
  double good = 0, bad = 0; std::string want; bool any = false;
  for (size_t i = 0; i < n;) {
    if (buf[i] == '\n') { i++; continue; }
    size_t e = i; while (e < n && buf[e] != '\n') e++;
    char* line = new char[e - i + 1]; memcpy(line, buf + i, e - i); line[e - i] = 0;
    auto er = feed(s2, statsd, line); delete[] line;
    if (er) { bad++; if (any) want += '\n'; want += *er; any = true; } else good++;
    i = e;
  }
  sym_assert(selfCount(r1, "spectatord.parsedCount") == good, "every good line counts as one metric");
  sym_assert(selfCount(r1, "spectatord.parseErrors") == bad, "every bad line counts as one error");
  sym_assert(err.has_value() == any, "an error is reported exactly when some line is bad");
  if (err) sym_assert(*err == want, "the errors of all bad lines are reported in order");
  sameState(r1, r2, 0);
  sym_observe_u64("good", (uint64_t)good); sym_observe_u64("bad", (uint64_t)bad);
  if (good > 1) sym_reach("several good"); if (bad) sym_reach("some bad"); if (good && bad) sym_reach("mixed");
  delete[] b2; delete[] buf;
}

// the counts of good and bad lines over reports, idle times and expiry
HARNESS(h_idle) {
  TestReg reg(mkCfg(), mkLog()); Srv srv(&reg); double good = 0, bad = 0; int wg = 0, wb = 0; const int K = (int)sym_param("k", 3); bool idle = false;
  for (int k = 0; k < K; k++) {
    static const char* const line[] = {"c:a:1", "c:a"}; size_t w = sym_pick("line", 3); char buf[16];
    if (w < 2) { strcpy(buf, line[w]); auto e = srv.parse(buf); sym_assert(e.has_value() == (w == 1), "the line is judged as ever"); (w ? wb : wg)++; if (idle) sym_reach("after idling"); }
    for (auto& m : reg.Measurements()) { if (m.id.Name() == SR("spectatord.parsedCount")) good += m.value; if (m.id.Name() == SR("spectatord.parseErrors")) bad += m.value; }
    sym_assert(good == wg, "the reported number of parsed lines is exact"); sym_assert(bad == wb, "the reported number of rejected lines is exact");
    uint64_t dt = sym_range("dt", 0, 3600ull * 1000000000); g_now += (int64_t)dt; reg.remove_expired_meters(); idle = dt > 900ull * 1000000000;
  }
}
// ---- statsd
struct RefS { bool ok, multi; char type; int nl; double v, rate; int nt; int kb[8], ke[8], vb[8], ve[8]; };   // vb < 0: a marker
static RefS refStatsd(const char* s, int n) {
  RefS r{}; r.rate = 1; int i = 0;
  while (i < n && s[i] != ':') i++;
  if (i == n || i == 0) return r;
  r.nl = i; char* e; r.v = strtod(s + i + 1, &e); if (e == s + i + 1) return r;
  i = (int)(e - s);
  if (s[i] != '|') return r;
  r.type = s[i + 1]; i += 2;
  if (r.type == 'm') { if (s[i] != 's') return r; i++; }
  else if (r.type != 'c' && r.type != 'g' && r.type != 'h' && r.type != 's') return r;
  if (s[i] == '|') {
    i++;
    if (s[i] == '@') {
      r.rate = strtod(s + i + 1, &e); if (e == s + i + 1) return r;
      if (!(r.rate > 0 && r.rate <= 1)) return r;
      if (r.rate < 1e-6) return r;      // more than a million updates from one line
      i = (int)(e - s); if (s[i] == '|') i++;
    }
    if (s[i] == '#') {
      i++;
      for (;;) {
        int b = i, c = -1; while (i < n && s[i] != ',') { if (s[i] == ':') { if (c >= 0) r.multi = true; else c = i; } i++; }
        if (b == i || c == b || (c >= 0 && c + 1 == i)) return r;
        if (r.nt == 8) sym_fail("harness: too many tags");
        r.kb[r.nt] = b; r.ke[r.nt] = c < 0 ? i : c; r.vb[r.nt] = c < 0 ? -1 : c + 1; r.ve[r.nt] = i; r.nt++;
        if (i == n) break;
        i++;
      }
    }
  }
  r.ok = true; return r;
}
HARNESS(h_statsd) {
  static const char* const pre[] = {"", "a:1|", "a:2|c|", "a:-1|c|#", "a:3|h|@.5|#"}; static const char* const post[] = {"", "", "", "", ""};
  size_t N = (size_t)sym_param("n", 4), form = (size_t)sym_param("form", 0), n = sym_concretize(sym_range("len", 0, N));
  size_t pl = strlen(pre[form]), ql = strlen(post[form]), tot = pl + n + ql;
  char* buf = new char[tot + 1]; memcpy(buf, pre[form], pl); sym_bytes(buf + pl, n, "s"); memcpy(buf + pl + n, post[form], ql); buf[tot] = 0;
  for (size_t i = 0; i < n; i++) { sym_assume(buf[pl + i] != 0); sym_assume(buf[pl + i] != '\n'); }
  if (tot == 0) { sym_assume(0); }
  TestReg reg(mkCfg(), mkLog()); Srv srv(&reg); Sizes a = sizes(reg), w = a;
  RefS r = refStatsd(buf, (int)tot);
  auto err = srv.parse_statsd(buf); Sizes b = sizes(reg);
  double good = selfCount(reg, "spectatord.parsedCount"), bad = selfCount(reg, "spectatord.parseErrors");
  if (!r.multi) sym_assert(err.has_value() == !r.ok, r.ok ? "a well-formed line is accepted" : "a malformed line is rejected with an explanation");
  if (err) { sym_assert(!err->empty(), "a rejection is explained"); sym_assert(same(a, b), "a rejected line changes no meter"); sym_assert(good == 0 && bad == 1, "a rejected line counts as one error"); sym_reach("rejected"); }
  else {
    sym_assert(good == 1 && bad == 0, "an accepted line counts as one metric");
    switch (r.type) { case 'c': w.cnt++; break; case 'g': w.gauge++; break; case 'h': w.dist++; break; case 'm': w.timer++; break; }
    if (r.type != 's') w.total++;
    sym_assert(same(w, b), "an accepted line creates exactly the meter it names");
    if (r.multi) sym_reach("accepted");
    else if (r.type != 's') {
      Tags t; for (int i = 0; i < r.nt; i++) t.add(std::string_view(buf + r.kb[i], (size_t)(r.ke[i] - r.kb[i])), r.vb[i] < 0 ? std::string_view("1") : std::string_view(buf + r.vb[i], (size_t)(r.ve[i] - r.vb[i])));
      Id id(SR(std::string_view(buf, (size_t)r.nl)), std::move(t));
      long k = r.rate == r.rate ? lround(1 / r.rate) : 0;
      switch (r.type) {
        case 'c': { auto* m = find(reg.Counters(), id); sym_assert(m != nullptr, "the counter with the written name and tags"); double x = r.v / r.rate; sym_assert(sym_same_double(m->Count(), x >= 0 ? x : 0), "a counter grows by the value over the sampling rate"); break; }
        case 'g': { auto* m = find(reg.Gauges(), id); sym_assert(m != nullptr, "the gauge with the written name and tags"); sym_assert(sym_same_double(m->Get(), r.v), "a gauge has the value"); break; }
        case 'h': { auto* m = find(reg.DistSummaries(), id); sym_assert(m != nullptr, "the distribution summary with the written name and tags"); sym_assert(m->Count() == (r.v >= 0 ? k : 0), "an amount is recorded once for each event that its sampling rate stands for"); if (k == 1 && r.v >= 0) sym_assert(sym_same_double(m->TotalAmount(), r.v), "the amount is the written one"); break; }
        case 'm': { auto* m = find(reg.Timers(), id); sym_assert(m != nullptr, "the timer with the written name and tags"); if (r.v >= -1e12 && r.v <= 1e12) { long ns = lround(r.v * 1e6); sym_assert(m->Count() == (ns >= 0 ? k : 0) && m->TotalTime() == (ns >= 0 ? k * ns : 0), "milliseconds are recorded once for each event that the sampling rate stands for"); } break; }
      }
      sym_reach("accepted"); if (r.nt) sym_reach("tags"); if (r.rate != 1) sym_reach("sampled");
    } else sym_reach("set");
  }
  delete[] buf;
}
static double gN[2]; static int gC;
static double hookN(const char* s, char** e) { *e = (char*)s + (*s == '?'); return gN[gC++ & 1]; }
HARNESS(h_statsd_numbers) {
  static const char* const line[] = {"a:?|c|@?", "a:?|g|@?", "a:?|h|@?", "a:?|ms|@?"}; size_t t = sym_pick("type", 4);
  gN[0] = sym_double("value"); gN[1] = sym_double("rate"); double v = gN[0], rate = gN[1]; gC = 0;
  vp_strtod_hook = hookN; char buf[16]; memcpy(buf, line[t], strlen(line[t]) + 1);
  if (t >= 2 && sym_pick("frac", 2)) gN[1] = rate = (sym_u8("frac") + 1.0) / 256;   // up to 256 repetitions
  else if (t >= 2) sym_assume(!(rate >= 1e-6 && rate <= 1));
  if (t == 3) sym_assume(sym_and(v > -9e12, v < 9e12));
  TestReg reg(mkCfg(), mkLog()); Srv srv(&reg); Sizes a = sizes(reg), w = a; Id id(SR("a"), Tags{});
  auto err = srv.parse_statsd(buf); Sizes b = sizes(reg);
  bool ok = rate >= 1e-6 && rate <= 1;
  sym_assert(err.has_value() == !ok, "exactly the sampling rates from one in a million to one are accepted");
  if (!ok) { sym_assert(same(a, b), "a rejected line changes no meter"); sym_reach("rejected"); return; }
  w.total++; (t == 0 ? w.cnt : t == 1 ? w.gauge : t == 2 ? w.dist : w.timer)++;
  sym_assert(same(w, b), "an accepted line creates exactly the meter it names");
  long k = t >= 2 ? lround(1 / rate) : 0;
  switch (t) {
    case 0: { auto* m = find(reg.Counters(), id); double x = v / rate; sym_assert(m && sym_same_double(m->Count(), x > 0 ? x : 0), "a counter grows by the value over the sampling rate"); sym_reach("c"); break; }
    case 1: { auto* m = find(reg.Gauges(), id); sym_assert(m && sym_same_double(m->Get(), v), "a gauge has the value"); sym_reach("g"); break; }
    case 2: { auto* m = find(reg.DistSummaries(), id); sym_assert(m && m->Count() == (v >= 0 ? k : 0), "an amount is recorded once for each event that its sampling rate stands for"); sym_reach("h"); break; }
    default: { auto* m = find(reg.Timers(), id); long ns = lround(v * 1e6); sym_assert(m && m->Count() == (ns >= 0 ? k : 0) && m->TotalTime() == (ns >= 0 ? k * ns : 0), "milliseconds are recorded once for each event that the sampling rate stands for"); sym_reach("ms"); break; }
  }
}
