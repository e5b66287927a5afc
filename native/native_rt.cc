// Native side of the harness API: replays one recorded input vector against the really compiled
// code. File format, one record per line:  E entry | P name value | I name hex | S sched
// Exit codes: 0 completed, 10 assertion failed, 77 assumption not met, 78 inputs do not line up.
#include "../models/sym.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <malloc.h>
#include "harness.h"
#include <unistd.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static volatile int64_t g_live; static void hookM(const volatile void*, size_t) { g_live = g_live + 1; } static void hookF(const volatile void* p) { if (p) g_live = g_live - 1; }
// replays leave through _exit; registering static destructors would show up in heap accounting
extern "C" int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
struct Rec { std::string name, data; };
static std::vector<Rec> ins; static size_t pos; static std::map<std::string, int64_t> params;
static int nassert, nobs; extern "C" void vp_rt_start(const char*); extern "C" void vp_rt_stop();
std::map<std::string, void (*)()>& vp_entries() { static std::map<std::string, void (*)()> m; return m; }
static std::string& next(const char* name, size_t n) {
  if (pos >= ins.size()) { fprintf(stderr, "DIVERGED: inputs exhausted at %s\n", name); fflush(nullptr); _exit(78); }
  Rec& r = ins[pos++];
  if (r.name != name || r.data.size() != n) { fprintf(stderr, "DIVERGED: wanted %s/%zu, have %s/%zu\n", name, n, r.name.c_str(), r.data.size()); fflush(nullptr); _exit(78); }
  return r.data;
}
template <class T> static T nextT(const char* name) { T v; memcpy(&v, next(name, sizeof v).data(), sizeof v); return v; }
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) { auto& d = next(name, n); memcpy(p, d.data(), n); }
uint64_t sym_u64(const char* name) { return nextT<uint64_t>(name); }
uint32_t sym_u32(const char* name) { return nextT<uint32_t>(name); }
uint8_t sym_u8(const char* name) { return nextT<uint8_t>(name); }
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi) { uint64_t v = nextT<uint64_t>(name); if (v < lo || v > hi) { fprintf(stderr, "DIVERGED: range %s %llx not in %llx..%llx\n", name, (unsigned long long)v, (unsigned long long)lo, (unsigned long long)hi); fflush(nullptr); _exit(78); } return v; }
void sym_assume(int c) { if (!c) { fprintf(stderr, "ASSUMPTION not met\n"); fflush(nullptr); _exit(77); } }
void sym_fail(const char* msg) { printf("ASSERT %s\n", msg); fflush(stdout); fprintf(stderr, "property assertion failed: %s\n", msg); fflush(nullptr); _exit(10); }
void sym_assert(int c, const char* msg) { nassert++; if (!c) sym_fail(msg); }
void sym_reach(const char* l) { printf("REACH %s\n", l); }
int64_t sym_param(const char* name, int64_t d) { auto it = params.find(name); return it == params.end() ? d : it->second; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t) { return 0; }
int sym_is_concrete_run(void) { return 1; }
void sym_observe(const char* name, const void* p, size_t n) { printf("OBS %s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
void sym_observe_u64(const char* name, uint64_t v) { sym_observe(name, &v, 8); }
int64_t sym_heap_live(void) { return g_live; }
void sym_unmodelled(const char* w) { fprintf(stderr, "unmodelled natively: %s\n", w); fflush(nullptr); _exit(79); }
void sym_print(const char*, uint64_t) {}
int sym_and(int a, int b) { return (a != 0) & (b != 0); }
int sym_or(int a, int b) { return (a != 0) | (b != 0); }
uint64_t sym_ite64(int c, uint64_t a, uint64_t b) { return c ? a : b; }
}
int main(int argc, char** argv) {
  static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf); static char ebuf[1 << 12]; setvbuf(stderr, ebuf, _IOFBF, sizeof ebuf);
  std::ifstream in(argc > 1 ? argv[1] : "/dev/stdin"); std::string l, entry, sched;
  while (std::getline(in, l)) {
    std::istringstream is(l); std::string k, n, v; is >> k;
    if (k == "E") is >> entry; else if (k == "S") is >> sched;
    else if (k == "P") { is >> n >> v; params[n] = strtoll(v.c_str(), nullptr, 0); }
    else if (k == "I") { is >> n >> v; if (n[0] == '~' || n.rfind("sched_", 0) == 0) continue; std::string d; if (v != "-") for (size_t i = 0; i + 1 < v.size(); i += 2) d += (char)strtol(v.substr(i, 2).c_str(), nullptr, 16); ins.push_back({n, d}); }
  }
  auto& m = vp_entries();
  if (!m.count(entry)) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  __sanitizer_install_malloc_and_free_hooks(hookM, hookF);
  vp_rt_start(sched.c_str());
  m[entry]();
  vp_rt_stop();
  if (pos != ins.size()) { fprintf(stderr, "DIVERGED: %zu inputs left\n", ins.size() - pos); fflush(nullptr); _exit(78); }
  printf("DONE %d\n", nassert);
  fflush(nullptr); _exit(0);
}
