// The path of a URL, against a reference written from the URL grammar.
#include "harness.h"
#include "spectator/strings.h"
#include <string>
extern "C" size_t strlen(const char*);
// scheme "://" authority [path] ["?" query]; returns false when the text has a colon but not this shape
struct Url { bool shaped; int b, e; };
static Url ref(const char* s, int n) {
  int c = 0; while (c < n && s[c] != ':') { if (s[c] == '/' || s[c] == '?') return {false, 0, 0}; c++; }
  if (c == 0 || n - c < 3 || s[c + 1] != '/' || s[c + 2] != '/') return {false, 0, 0};
  int b = c + 3; while (b < n && s[b] != '/' && s[b] != '?') b++;
  int e = b; while (e < n && s[e] != '?') e++;
  return {true, b, e};
}
HARNESS(h_path) {
  static const char* const pre[] = {"", "h://"}; size_t form = (size_t)sym_param("form", 0), N = (size_t)sym_param("n", 6), pl = strlen(pre[form]), m = sym_concretize(sym_range("len", 0, N)), n = pl + m;
  char* s = new char[n]; memcpy(s, pre[form], pl); sym_bytes(s + pl, m, "s");      // no terminator: reading beyond is caught
  std::string p = spectator::PathFromUrl(std::string_view(s, n));
  bool colon = false; for (size_t i = 0; i < n; i++) if (s[i] == ':') colon = true;
  Url u = ref(s, (int)n);
  if (n == 0) { sym_assert(p == "/", "the path of nothing is a slash"); sym_reach("empty"); }
  else if (!colon) { sym_assert(p == std::string_view(s, n), "without a scheme the text is the path"); sym_reach("plain"); }
  else if (u.shaped) {
    if (u.b == u.e) { sym_assert(p == "/", "a URL without a path has the path slash"); sym_reach("no path"); }
    else { sym_assert(p == std::string_view(s + u.b, (size_t)(u.e - u.b)), "the path is the text between authority and query"); sym_reach(u.e < (int)n ? "query" : "path"); }
  } else sym_reach("other");
  sym_observe("p", p.data(), p.size());
  delete[] s;
}
