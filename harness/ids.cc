// String interning, tag sets, ids.
#include "harness.h"
#include "spectator/string_pool.h"
#include "spectator/id.h"
#include <string>
#include <utility>
using namespace spectator;
static unsigned char clean(unsigned char c) {
  int ok = sym_or(sym_or(sym_and(c >= '0', c <= '9'), sym_and(c >= 'a', c <= 'z')), sym_and(c >= 'A', c <= 'Z'));
  ok = sym_or(ok, sym_or(sym_or(c == '.', c == '-'), sym_or(c == '~', c == '^')));
  return (unsigned char)sym_ite64(ok, c, '_');
}
static void checkContent(StrRef r, const unsigned char* raw, size_t n, const char* what) {
  const char* g = r.Get(); int ok = 1;
  for (size_t i = 0; i < n; i++) ok = sym_and(ok, (unsigned char)g[i] == clean(raw[i]));
  sym_assert(ok, what);
  sym_assert(g[n] == 0, "interned string ends where the input ended");
}
static void prefill(StringPool& p, StrRef* out, int m) {
  for (int i = 0; i < m; i++) { char b[64]; size_t l = 5 + i % 40; memset(b, 'q', l); b[0] = (char)('A' + i % 26); b[1] = (char)('a' + i / 26); out[i] = p.Intern(b, l); }
}
HARNESS(h_intern) {
  const int N = (int)sym_param("n", 3); const size_t L = (size_t)sym_param("maxlen", 2);
  int64_t h0 = sym_heap_live();
  {
    StringPool pool; static StrRef pre[128]; int M = sym_pick("grown", 2) ? (int)sym_param("prefill", 40) : 0;
    prefill(pool, pre, M);
    auto st0 = pool.Stats();
    sym_assert(st0.table_size == (size_t)M && st0.misses == (uint64_t)M && st0.hits == 0, "statistics count the first interning of each string as a miss");
    unsigned char raw[6][8]; char buf[6][8]; size_t len[6]; StrRef r[6]; size_t distinct = 0, bytes = 0;
    for (int i = 0; i < N; i++) {
      len[i] = sym_pick("len", L + 1);
      sym_bytes(raw[i], len[i], "s");
      memcpy(buf[i], raw[i], len[i]); buf[i][len[i]] = 0;
      if (i == 0 && sym_pick("cstr", 2)) { for (size_t k = 0; k < len[i]; k++) sym_assume(raw[i][k] != 0); r[i] = pool.Intern(buf[i]); }
      else r[i] = pool.Intern(buf[i], len[i]);
      memset(buf[i], 'Z', sizeof buf[i]);   // the caller's memory is the caller's
      checkContent(r[i], raw[i], len[i], "interned text is the input with characters outside the Atlas set replaced");
      bool seen = false;
      for (int j = 0; j < i; j++) {
        int eq = len[i] == len[j];
        if (eq) for (size_t k = 0; k < len[i]; k++) eq = sym_and(eq, clean(raw[i][k]) == clean(raw[j][k]));
        sym_assert((r[i] == r[j]) == (eq != 0), "two references are equal exactly when the sanitised strings are");
        sym_assert((r[i] != r[j]) == (eq == 0), "inequality is the negation of equality");
        if (r[i] == r[j]) seen = true;
      }
      if (!seen) { distinct++; bytes += len[i] + 1; }
    }
    for (int i = 0; i < N; i++) { checkContent(r[i], raw[i], len[i], "interned text never changes afterwards"); sym_assert(r[i].Length() == len[i], "length is the input length"); }
    auto st = pool.Stats();
    sym_assert(st.table_size == st0.table_size + distinct, "table size counts distinct sanitised strings");
    sym_assert(st.misses == st0.misses + distinct, "each distinct sanitised string misses once");
    sym_assert(st.hits + st.misses == st0.misses + (uint64_t)N, "every lookup is a hit or a miss");
    sym_assert(st.alloc_size == st0.alloc_size + bytes, "allocated bytes are the text plus a terminator each");
    StrRef again[128]; prefill(pool, again, M);
    for (int i = 0; i < M; i++) sym_assert(again[i] == pre[i], "earlier references survive growth");
    sym_observe_u64("distinct", distinct); sym_observe_u64("hits", st.hits); sym_observe_u64("bytes", st.alloc_size);
    sym_reach(distinct == (size_t)N ? "all distinct" : "some equal");
  }
  sym_assert(sym_heap_live() == h0, "destroying a pool releases all memory");
}
HARNESS(h_intern_overloads) {
  unsigned char raw[8]; size_t n = sym_pick("len", (uint64_t)sym_param("maxlen", 4));
  sym_bytes(raw, n, "s");
  std::string s((const char*)raw, n);
  StrRef a = intern_str(s), b = intern_str(std::string_view(s.data(), s.size()));
  sym_assert(a == b, "string and string view give the same reference");
  checkContent(a, raw, n, "global interning sanitises");
  sym_assert(std::hash<StrRef>{}(a) == std::hash<StrRef>{}(b), "equal references hash alike");
  int nul = 0; for (size_t i = 0; i < n; i++) nul = sym_or(nul, raw[i] == 0);
  sym_assume(!nul);
  StrRef c = intern_str(s.c_str());
  sym_assert(a == c, "C string gives the same reference");
  sym_assert(intern_str(a.Get()) == a, "interning is idempotent");
  sym_reach("overloads");
}

// ---- tags
static StrRef key1(unsigned char c) { char b[2] = {(char)c, 0}; return intern_str(std::string_view(b, 1)); }
struct MapM { StrRef k[32], v[32]; int n = 0;
  void put(StrRef a, StrRef b) { for (int i = 0; i < n; i++) if (k[i].Get() == a.Get()) { v[i] = b; return; } k[n] = a; v[n++] = b; } };
static StrRef gk[14], gv[6];
static void initPool(int nk = 14) {
  // intern in an order unrelated to the text so that addresses and text order disagree
  static const char o[] = "nbzfvdjtphxlrB";
  for (int i = 0; i < nk; i++) gk[i] = key1((unsigned char)o[i]);
  gv[0] = intern_str("v0"); gv[1] = intern_str("v1"); gv[2] = intern_str("v2"); gv[3] = intern_str("v3"); gv[4] = intern_str("v4"); gv[5] = intern_str("absent-key");
}
static unsigned char symKey(const char* n) { unsigned char c = sym_u8(n); sym_assume(sym_or(sym_and(c >= 'a', c <= 'z'), sym_and(c >= 'A', c <= 'Z'))); return c; }
static void checkTags(const Tags& t, const MapM& m, const char* what) {
  sym_assert(t.size() == (size_t)m.n, what);
  sym_assert(t.capacity() >= t.size(), "capacity covers the size");
  sym_assert((size_t)(t.end() - t.begin()) == t.size(), "iteration covers every tag");
  sym_assert(t.empty() == (m.n == 0), "empty means no tags");
  for (int i = 0; i < m.n; i++) { sym_assert(t.has(m.k[i]), "every added key is present"); sym_assert(t.at(m.k[i]) == m.v[i], "a key maps to the value given last"); }
  for (auto it = t.begin(); it != t.end(); ++it) {
    bool f = false; for (int i = 0; i < m.n; i++) if (m.k[i] == it->key && m.v[i] == it->value) f = true;
    sym_assert(f, "no tag was invented");
    if (it + 1 != t.end()) { const char *a = it->key.Get(), *b = (it + 1)->key.Get(); sym_assert((unsigned char)a[0] < (unsigned char)b[0] || (a[0] == b[0] && strcmp(a, b) < 0), "tags are in key order without duplicates"); }
  }
  sym_assert(!t.has(gv[5]) && t.at(gv[5]) == StrRef{}, "an absent key is reported absent");
}
static void fill(Tags& t, MapM& m, int n, int v) { for (int i = 0; i < n; i++) { t.add(gk[i], gv[v]); m.put(gk[i], gv[v]); } }
HARNESS(h_tags_add) {
  initPool();
  const int K = (int)sym_param("k", 2); const int MX = (int)sym_param("prefill", 14);
  StrRef sk[4]; for (int i = 0; i < K; i++) sk[i] = key1(symKey("key"));
  static const int E[] = {0, 7, 8, 11, 12};
  int pre = K < 2 ? (int)sym_pick("pre", MX + 1) : E[sym_pick("pre", sym_param("npre", 5))];
  int64_t h0 = sym_heap_live();
  {
    Tags t; MapM m; fill(t, m, pre, 0);
    checkTags(t, m, "size after adding distinct keys");
    for (int i = 0; i < K; i++) { t.add(sk[i], gv[1 + i]); m.put(sk[i], gv[1 + i]); sym_assert(t.size() == (size_t)m.n, "size counts distinct keys"); }
    checkTags(t, m, "size counts distinct keys");
    Tags r; for (int i = m.n; i-- > 0;) r.add(m.k[i], m.v[i]);
    sym_assert(t == r, "equality does not depend on insertion order");
    sym_assert(t.hash() == r.hash(), "equal tag sets hash alike");
    if (m.n) { r.add(m.k[m.n / 2], gv[4]); sym_assert(!(t == r), "a different value makes the sets differ"); }
    sym_observe_u64("n", (uint64_t)m.n);
    if (t.is_large()) sym_reach("large"); else sym_reach("small");
  }
  sym_assert(sym_heap_live() == h0, "tag sets release their memory");
}
HARNESS(h_tags_copy) {
  initPool();
  StrRef k1 = key1(symKey("key"));
  static const int S[] = {0, 3, 8, 9, 12, 13}, T[] = {0, 3, 8, 9, 13};
  int a = S[sym_pick("src", 6)], op = (int)sym_pick("op", 5);
  int b = op >= 2 && op != 4 ? T[sym_pick("dst", 5)] : 0;
  int64_t h0 = sym_heap_live();
  {
    Tags s; MapM ms; fill(s, ms, a, 0);
    if (op == 0) { // copies are independent
      Tags c{s}; MapM mc = ms; c.add(k1, gv[2]); mc.put(k1, gv[2]);
      checkTags(c, mc, "copy plus one"); checkTags(s, ms, "the original of a copy is unaffected");
      s.add(k1, gv[3]); ms.put(k1, gv[3]); checkTags(s, ms, "original after adding"); checkTags(c, mc, "the copy is unaffected by the original");
      sym_reach("copy");
    } else if (op == 1) {
      Tags c{std::move(s)}; checkTags(c, ms, "moved-to set holds the tags"); c.add(k1, gv[2]); ms.put(k1, gv[2]); checkTags(c, ms, "moved-to set plus one"); sym_reach("move");
    } else if (op == 2) {
      Tags d; MapM md; fill(d, md, b, 1); d = std::move(s); checkTags(d, ms, "assigned set holds the tags");
      d.add(k1, gv[2]); ms.put(k1, gv[2]); checkTags(d, ms, "assigned set plus one");
      for (int i = 0; i < 6; i++) { StrRef k = gk[13 - i]; d.add(k, gv[3]); ms.put(k, gv[3]); }
      checkTags(d, ms, "assigned set keeps growing"); sym_reach("assign");
    } else if (op == 3) {
      Tags d; MapM md; for (int i = 0; i < b; i++) { d.add(gk[13 - i], gv[1]); md.put(gk[13 - i], gv[1]); }
      d.add(k1, gv[2]); md.put(k1, gv[2]);
      d.add_all(s); for (int i = 0; i < ms.n; i++) md.put(ms.k[i], ms.v[i]);
      checkTags(d, md, "union with replacement"); checkTags(s, ms, "source of a union is unaffected"); sym_reach("add_all");
    } else {
      Tags c{s}; Tags d{c}; c = std::move(d); checkTags(c, ms, "copy of a copy"); sym_reach("chain");
      sym_assert(c == s && c.hash() == s.hash(), "copies compare equal");
    }
  }
  sym_assert(sym_heap_live() == h0, "tag sets release their memory");
}
HARNESS(h_tags_eq) {
  initPool(0);
  const int N = (int)sym_param("n", 2);
  Tags t[2]; MapM m[2];
  for (int s = 0; s < 2; s++) { int n = (int)sym_pick("size", N + 1); for (int i = 0; i < n; i++) { StrRef k = key1(symKey("key")); StrRef v = gv[sym_pick("val", 2)]; t[s].add(k, v); m[s].put(k, v); } }
  bool same = m[0].n == m[1].n;
  for (int i = 0; same && i < m[0].n; i++) { bool f = false; for (int j = 0; j < m[1].n; j++) if (m[0].k[i] == m[1].k[j] && m[0].v[i] == m[1].v[j]) f = true; same = f; }
  sym_assert((t[0] == t[1]) == same, "tag sets are equal exactly when they hold the same tags");
  if (same) { sym_assert(t[0].hash() == t[1].hash(), "equal tag sets hash alike"); sym_reach("same"); } else sym_reach("different");
}
// ---- ids
static void checkId(const Id& id, StrRef name, const MapM& m) { sym_assert(id.Name() == name, "the name is kept"); checkTags(id.GetTags(), m, "the id holds exactly its tags"); }
HARNESS(h_id) {
  initPool(4);
  const int N = (int)sym_param("n", 2);
  StrRef nm[2]; nm[0] = key1(symKey("name")); nm[1] = key1(symKey("name"));
  StrRef stat = intern_str("statistic");
  Tags t[2]; MapM m[2]; bool order = sym_pick("order", 2);
  int cnt = (int)sym_pick("tags", N + 1);
  for (int i = 0; i < cnt; i++) { StrRef k = key1(symKey("key")); t[0].add(k, gv[i]); m[0].put(k, gv[i]); }
  bool hasStat = sym_pick("stat", 2); if (hasStat) { t[0].add(stat, gv[3]); m[0].put(stat, gv[3]); }
  if (order) for (int i = m[0].n; i-- > 0;) t[1].add(m[0].k[i], m[0].v[i]); else for (int i = 0; i < m[0].n; i++) t[1].add(m[0].k[i], m[0].v[i]);
  m[1] = m[0];
  int extra = (int)sym_pick("extra", 3);
  if (extra == 1) { t[1].add(gk[3], gv[4]); m[1].put(gk[3], gv[4]); }
  if (extra == 2) { t[1].add(stat, gv[4]); m[1].put(stat, gv[4]); }
  Id a(nm[0], std::move(t[0])), b(nm[1], std::move(t[1]));
  std::hash<Id> H;
  bool early = sym_pick("hashfirst", 2); size_t ha = 0; if (early) ha = H(a);
  bool sameTags = m[0].n == m[1].n; for (int i = 0; sameTags && i < m[0].n; i++) { bool f = false; for (int j = 0; j < m[1].n; j++) if (m[0].k[i] == m[1].k[j] && m[0].v[i] == m[1].v[j]) f = true; sameTags = f; }
  bool same = nm[0] == nm[1] && sameTags;
  sym_assert((a == b) == same && (b == a) == same, "ids are equal exactly when name and tags are");
  if (same) { sym_assert(H(a) == H(b), "equal ids hash alike"); sym_reach("same"); } else sym_reach("different");
  checkId(a, nm[0], m[0]); checkId(b, nm[1], m[1]);
  // derived ids
  MapM w = m[0]; w.put(stat, gv[5]);
  { Id s = a.WithStat(gv[5]); checkId(s, nm[0], w); Id s2(nm[0], [&] { Tags x; for (int i = 0; i < w.n; i++) x.add(w.k[i], w.v[i]); return x; }());
    sym_assert(s == s2 && H(s) == H(s2), "a derived id equals the same id built directly"); }
  { Id d = a.WithDefaultStat(gv[5]); if (hasStat) { checkId(d, nm[0], m[0]); sym_assert(d == a && H(d) == H(a), "an explicit statistic is kept"); } else checkId(d, nm[0], w); }
  MapM x = m[0]; x.put(gk[3], gv[4]); { Id d = a.WithTag(gk[3], gv[4]); checkId(d, nm[0], x); }
  x.put(stat, gv[4]); { Id d = a.WithTags(gk[3], gv[4], stat, gv[4]); checkId(d, nm[0], x); }
  { Tags e; e.add(gk[3], gv[4]); e.add(stat, gv[4]); Id d = a.WithTags(std::move(e)); checkId(d, nm[0], x); }
  checkId(a, nm[0], m[0]);
  if (early) sym_assert(H(a) == ha, "the hash of an id never changes");
  Id c{a}; sym_assert(c == a && H(c) == H(a), "a copy equals its original");
  Id e(gv[0], Tags{}); (void)H(e); e = std::move(c); sym_assert(e == a && H(e) == H(a), "an assigned id equals its source"); checkId(e, nm[0], m[0]);
}
