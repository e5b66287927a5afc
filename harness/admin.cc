// The admin server's requests, against the registry they are about.
#include "world.h"
#include "admin/admin_server.h"
#include "Poco/JSON/Parser.h"
#include "Poco/Net/HTTPServerRequest.h"
#include "Poco/Net/HTTPServerResponse.h"
using namespace spectator;
using Poco::Dynamic::Var; using JObj = Poco::JSON::Object; using JArr = Poco::JSON::Array;
struct Ans { int status; std::string type; int sends; bool threw; };
static Ans ask(Registry& r, const char* method, const std::string& uri, const char* host) {
  admin::RequestHandlerFactory f(r);
  Poco::Net::HTTPServerRequest q; q.vp_uri = uri; q.vp_method = method; if (host) q.vp_host = host; else q.vp_has_host = false;
  Poco::Net::HTTPServerResponse s; vp_poco::last.reset(); vp_poco::text.clear();
  std::unique_ptr<Poco::Net::HTTPRequestHandler> h(f.createRequestHandler(q)); Ans a{};
  try { h->handleRequest(q, s); a.status = s.vp_sent; a.type = s.vp_sent_type; a.sends = s.vp_sends; } catch (Poco::Exception&) { a.threw = true; a.status = 500; a.sends = 1; }   // the HTTP server answers so
  return a;
}
// ---- the meters of a registry
static const char* const kNames[] = {"a", "a,k=v", "b", "b,k=v,l=w"};
static Id idOf(int i) { Tags t; if (i == 1 || i == 3) t.add(SR("k"), SR("v")); if (i == 3) t.add(SR("l"), SR("w")); return Id(SR(i < 2 ? "a" : "b"), std::move(t)); }
static void fill(Registry& r) { for (int i = 0; i < 4; i++) { r.GetAgeGauge(idOf(i)); r.GetGauge(idOf(i))->Set(i); r.GetCounter(idOf(i))->Add(i); r.GetMaxGauge(idOf(i))->Set(1 + i); } }
template <class V> static unsigned mask(const V& v) { unsigned m = 0; for (auto* x : v) for (int i = 0; i < 4; i++) if (x->MeterId() == idOf(i)) { sym_assert(!(m >> i & 1), "one meter per id"); m |= 1u << i; } return m; }
struct State { unsigned a, g, c, x; size_t n; std::map<std::string, std::string> tags; };
static State state(const Registry& r) { return {mask(r.AgeGauges()), mask(r.Gauges()), mask(r.Counters()), mask(r.MaxGauges()), r.Size(), r.CommonTags()}; }
static bool unchanged(const State& s, const State& t) { return s.a == t.a && s.g == t.g && s.c == t.c && s.x == t.x && s.n == t.n && s.tags == t.tags; }
static void setTags(Registry& r) { r.UpdateCommonTag("nf.app", "x"); r.UpdateCommonTag("mantisUser", "u"); }
static bool isErr(int s) { return s >= 400; }
// name[,key=value]* ; which of the ids, 4: another one, -1: not an id
static int refId(const char* s, size_t n) {
  size_t i = 0; while (i < n && s[i] != ',') i++;
  if (i == 0) return -1;
  Id id(std::string_view(s, i), Tags{}); Tags t;
  while (i < n) {
    size_t e = i + 1; while (e < n && s[e] != '=') e++;
    if (e == n) return -1;
    size_t v = e + 1; while (v < n && s[v] != ',') v++;
    t.add(std::string_view(s + i + 1, e - i - 1), std::string_view(s + e + 1, v - e - 1)); i = v;
  }
  Id want(intern_str(std::string_view(s, (size_t)(std::find(s, s + n, ',') - s))), std::move(t));
  for (int k = 0; k < 4; k++) if (want == idOf(k)) return k;
  return 4;
}
static const char* const kHosts[] = {"localhost:1234", "localhost", "127.0.0.1:1", "[::1]:1", "example.com", "localhost.example.com", "a.127.0.0.1:1", "127.0.0.1.example.com", nullptr};
static const int kLocal = 4;
HARNESS(h_adm_delete) {
  TestReg r(mkCfg(), mkLog()); fill(r); setTags(r); const State s = state(r);
  static const char* const pre[] = {"/metrics/", "/metrics/g", "/metrics/g/", "/metrics/A/", "/metrics/g/a", "/metrics/g/a,", "/metrics/A/a,k", "/metrics/g/a,k=v", "/metrics/g/b,k=v,l=w", "/metrics/g/b,l=w,k=v"};
  size_t N = (size_t)sym_param("n", 3), form = sym_pick("form", 10), n = sym_concretize(sym_range("len", 0, form >= 7 ? 1 : N)); char* buf = new char[40]; size_t pl = strlen(pre[form]); memcpy(buf, pre[form], pl);
  sym_bytes(buf + pl, n, "s"); for (size_t i = 0; i < n; i++) sym_assume(sym_and((unsigned char)buf[pl + i] > ' ', (unsigned char)buf[pl + i] < 127));
  std::string uri(buf, pl + n);
  Ans a = ask(r, "DELETE", uri, kHosts[n & 3]); const State t = state(r);
  sym_assert(a.sends == 1, "a request is answered once");
  bool all = uri.size() == 10 && (buf[9] == 'g' || buf[9] == 'A'), one = uri.size() >= 11 && (buf[9] == 'g' || buf[9] == 'A') && buf[10] == '/';
  int k = one ? refId(buf + 11, uri.size() - 11) : -1;
  State w = s;
  if (all || (k >= 0 && k < 4)) { unsigned m = all ? 15u : 1u << k; size_t cnt = all ? 4 : 1; if (buf[9] == 'g') w.g &= ~m; else w.a &= ~m; w.n -= cnt; }
  if (unchanged(s, w)) { sym_assert(isErr(a.status), "a request that names nothing is answered with an error"); sym_assert(unchanged(s, t), "a request that names nothing changes nothing"); sym_reach("nothing"); }
  else { sym_assert(a.status == 200, "a deletion is confirmed"); sym_assert(unchanged(w, t), "exactly the named meters are deleted"); sym_reach(all ? "all" : "one"); }
  delete[] buf;
}
HARNESS(h_adm_elsewhere) {
  TestReg r(mkCfg(), mkLog()); fill(r); setTags(r); const State s = state(r);
  static const char* const uris[] = {"/metrics/g", "/metrics/A", "/metrics/g/a", "/metrics/A/a,k=v", "/config/common_tags", "/metrics", "/config", "/", "/metrics/c", "/metrics/c/a"};
  static const char* const methods[] = {"DELETE", "POST", "GET", "PUT", "delete", ""};
  size_t u = sym_pick("uri", 10), m = sym_pick("method", 6), h = sym_pick("host", 9);
  vp_poco::document = [] { JObj::Ptr o = new JObj(); o->set("mantisJobId", std::string("j")); return Var(o); };
  Ans a = ask(r, methods[m], uris[u], kHosts[h]); const State t = state(r); State w = s;
  bool local = h < (size_t)kLocal, get = m == 2 && u >= 4 && u <= 7, acts = (m == 0 && u < 4) || (m == 1 && u == 4);
  sym_assert(a.sends == 1, "a request is answered once");
  if (acts && local) {
    if (u == 0) { w.g = 0; w.n -= 4; } else if (u == 1) { w.a = 0; w.n -= 4; } else if (u == 2) { w.g &= ~1u; w.n--; } else if (u == 3) { w.a &= ~2u; w.n--; } else w.tags["mantisJobId"] = "j";
    sym_assert(a.status == 200, "an administrative request is confirmed"); sym_reach("done");
  } else if (get) { if (kHosts[h]) sym_assert(a.status == 200 && a.type == "application/json", "state is described"); sym_reach("described"); }
  else { sym_assert(isErr(a.status), "a request addressed elsewhere is answered with an error"); sym_reach("refused"); }
  sym_assert(unchanged(w, t), "a request changes what it names, and only if addressed to this daemon");
}
// hosts close to this one
HARNESS(h_adm_host) {
  TestReg r(mkCfg(), mkLog()); fill(r); const State s = state(r);
  static const char* const names[] = {"", "localhost", "127.0.0.1", "[::1]"}; size_t h = sym_pick("name", 4), b = sym_pick("before", 2), n = sym_concretize(sym_range("len", 0, (size_t)sym_param("n", 2)));
  char* buf = new char[32]; sym_bytes(buf, b, "s"); size_t l = strlen(names[h]); memcpy(buf + b, names[h], l); sym_bytes(buf + b + l, n, "s"); buf[b + l + n] = 0;
  for (size_t i = 0; i < b; i++) sym_assume(buf[i] != 0); for (size_t i = 0; i < n; i++) sym_assume(buf[b + l + i] != 0);
  bool port = n > 0 && buf[b + l] == ':', yes = h && !b && (n == 0 || port);
  Ans a = ask(r, "DELETE", "/metrics/g", buf); const State t = state(r); State w = s; w.g = 0; w.n -= 4;
  sym_assert(a.sends == 1, "a request is answered once");
  if (yes && port) { bool num = n > 1; for (size_t i = 1; i < n; i++) num = num && buf[b + l + i] >= '0' && buf[b + l + i] <= '9'; if (!num) { sym_assert(unchanged(a.status == 200 ? w : s, t), "the answer says what was done"); delete[] buf; return; } }   // hardly a port
  if (yes) { sym_assert(a.status == 200 && unchanged(w, t), "an administrative request is obeyed"); sym_reach("here"); }
  else { sym_assert(isErr(a.status), "a request addressed elsewhere is answered with an error"); sym_assert(unchanged(s, t), "a request addressed elsewhere changes nothing"); sym_reach("elsewhere"); }
  delete[] buf;
}
// any path close to a known one
HARNESS(h_adm_route) {
  TestReg r(mkCfg(), mkLog()); fill(r); setTags(r); const State s = state(r);
  static const char* const pre[] = {"", "/", "/config", "/config/common_tags", "/metrics", "/met"}; size_t N = (size_t)sym_param("n", 2), p = sym_pick("prefix", 6), n = sym_concretize(sym_range("len", 0, N)), m = sym_pick("method", 3);
  char* buf = new char[40]; size_t pl = strlen(pre[p]); memcpy(buf, pre[p], pl); sym_bytes(buf + pl, n, "s"); std::string uri(buf, pl + n); delete[] buf; sym_assume(m < 2 || (uri != "/metrics/A" && uri != "/metrics/g"));   // those are known: adm_delete
  vp_poco::document = []() -> Var { throw Poco::JSON::JSONException("x"); };
  static const char* const methods[] = {"GET", "POST", "DELETE"};
  Ans a = ask(r, methods[m], uri, "localhost"); bool known = m == 0 && (uri == "/" || uri == "/config" || uri == "/config/common_tags" || uri == "/metrics");
  sym_assert(a.sends == 1, "a request is answered once"); sym_assert(known ? a.status == 200 : isErr(a.status), "only known requests are answered");
  sym_assert(unchanged(s, state(r)), "an unknown or malformed request changes nothing"); sym_reach(known ? "known" : "unknown");
}
static const char* const kKeys[] = {"mantisJobId", "mantisJobName", "mantisUser", "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber", "nf.app", "mantisjobid", "", "mantisUser2"};
HARNESS(h_adm_tags) {
  TestReg r(mkCfg(), mkLog()); fill(r); setTags(r); const State s = state(r);
  size_t kind = sym_pick("document", 6), K = (size_t)sym_param("k", 2), k = kind == 0 ? sym_pick("members", K + 1) : 0; JObj::Ptr o = new JObj(true); State w = s; bool bad = kind != 0;
  char sv[2]; for (size_t i = 0, from = 0; i < k; i++) {
    size_t key = from + sym_pick("key", 10 - from); from = key + 1; if (from >= 10) from = 9; size_t v = sym_pick("value", 6); if (o->has(kKeys[key])) sym_assume(0);
    Var x; if (v == 0) x = std::string("new"); else if (v == 1) x = std::string(); else if (v == 2) x = 1; else if (v == 3) x = true; else if (v == 4) { JObj::Ptr q = new JObj(); x = q; }
    else { sym_bytes(sv, 2, "s"); x = std::string(sv, 2); }
    o->set(kKeys[key], x); if (key >= 6 || (v > 1 && v < 5)) bad = true;
    if (v == 0) w.tags[kKeys[key]] = "new"; else if (v == 1) w.tags.erase(kKeys[key]); else if (v == 5) w.tags[kKeys[key]] = std::string(sv, 2);
  }
  vp_poco::document = [&]() -> Var { switch (kind) { case 0: return o; case 1: throw Poco::JSON::JSONException("syntax"); case 2: { JArr::Ptr a = new JArr(); a->add(std::string("mantisJobId")); return a; } case 3: return std::string("mantisJobId"); case 4: return 1; default: return Var(); } };
  Ans a = ask(r, "POST", "/config/common_tags", kHosts[k & 3]); const State t = state(r);
  sym_assert(a.sends == 1, "a request is answered once");
  if (bad) { sym_assert(a.status == 400, "a malformed change of common tags is answered with an error"); sym_assert(unchanged(s, t), "a malformed change of common tags changes nothing"); sym_reach("refused"); }
  else { sym_assert(a.status == 200, "a change of common tags is confirmed"); sym_assert(unchanged(w, t), "exactly the named common tags change"); sym_reach("done"); }
}
static const JArr* arr(const JObj& o, const char* n) { Var v = o.get(n); sym_assert(v.type() == typeid(JArr::Ptr), "meters are listed by type"); return v.extract<JArr::Ptr>().get(); }
static std::string str(const Var& v) { return v.type() == typeid(std::string) ? v.extract<std::string>() : "?"; }
template <class V> static void listed(const JObj& o, const char* n, const V& meters, size_t want) {
  const JArr* a = arr(o, n); sym_assert(a->size() == meters.size() && a->size() == want, "every meter is listed once");
  for (auto* m : meters) {
    int hits = 0;
    for (size_t i = 0; i < a->size(); i++) {
      Var v = a->get((unsigned)i); sym_assert(v.type() == typeid(JObj::Ptr), "a meter is described by an object"); const JObj& d = *v.extract<JObj::Ptr>();
      if (str(d.get("name")) != m->MeterId().Name().Get()) continue;
      const JObj& t = *d.get("tags").extract<JObj::Ptr>(); bool eq = t.size() == m->MeterId().GetTags().size();
      for (const auto& kv : m->MeterId().GetTags()) if (str(t.get(kv.key.Get())) != kv.value.Get()) eq = false;
      if (eq) { hits++; sym_assert(d.has("value"), "a meter's value is described"); }
    }
    sym_assert(hits == 1, "every meter is listed once");
  }
}
HARNESS(h_adm_get) {
  TestReg r(mkCfg(), mkLog()); setTags(r); size_t na = sym_pick("age", 3), ng = sym_pick("gauges", 3), nc = sym_pick("counters", 2), nx = sym_pick("others", 2);
  for (size_t i = 0; i < na; i++) r.GetAgeGauge(idOf((int)(i * 3)));
  for (size_t i = 0; i < ng; i++) r.GetGauge(idOf((int)(i + 1)))->Set(1);
  if (nc) r.GetCounter(idOf(3))->Add(1);
  if (nx) { r.GetMaxGauge(idOf(0)); r.GetTimer(idOf(1)); r.GetMonotonicCounter(idOf(2)); r.GetMonotonicCounterUint(idOf(3)); r.GetDistributionSummary(idOf(3)); r.GetMonotonicCounter(idOf(0)); }
  const State s = state(r);
  Ans a = ask(r, "GET", "/metrics", "example.com"); sym_assert(a.status == 200 && a.sends == 1 && a.type == "application/json", "the meters are described");
  sym_assert(vp_poco::last != nullptr, "the meters are described"); const JObj& o = *vp_poco::last;
  listed(o, "age_gauges", r.AgeGauges(), na); listed(o, "gauges", r.Gauges(), ng); listed(o, "counters", r.Counters(), r.Counters().size()); listed(o, "max_gauges", r.MaxGauges(), nx); listed(o, "timers", r.Timers(), nx);
  listed(o, "mono_counters", r.MonotonicCounters(), 2 * nx); listed(o, "mono_counters_uint", r.MonotonicCountersUint(), nx); listed(o, "dist_summaries", r.DistSummaries(), r.DistSummaries().size());
  sym_assert(unchanged(s, state(r)), "describing the meters changes none");
  a = ask(r, "GET", "/config", "example.com"); sym_assert(a.status == 200 && vp_poco::last != nullptr, "the configuration is described");
  const JObj& t = *vp_poco::last->get("common_tags").extract<JObj::Ptr>(); sym_assert(t.size() == 2 && str(t.get("nf.app")) == "x" && str(t.get("mantisUser")) == "u", "the common tags are described");
  sym_assert(unchanged(s, state(r)), "describing the configuration changes nothing"); sym_reach(na + ng + nc + nx ? "some" : "none");
}
