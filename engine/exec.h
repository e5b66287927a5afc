// Symbolic executor over LLVM bitcode.
#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <deque>

namespace llvm { class Module; class Function; class Instruction; class Type; class Constant; class GlobalVariable; class BasicBlock; class Value; class DataLayout; class CallBase; }

template <class T> struct Ref {
  T* p = nullptr;
  Ref() {}
  Ref(T* q) : p(q) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
  T* cow() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

struct Val { uint64_t c; E e; };
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline Val fromE(E e) { if (e->isConst() && e->w <= 64) return {(uint64_t)e->c, nullptr}; return {0, e}; }
inline Val cv(uint64_t c) { return {c, nullptr}; }

constexpr unsigned PG = 256;
struct Page {
  int rc = 0;
  uint8_t b[PG];
  E* s = nullptr;           // symbolic bytes (null entries = concrete)
  uint64_t un[PG / 64];
  bool anyUn;
  Page(bool zero) { memset(b, 0, PG); memset(un, zero ? 0 : 0xff, sizeof un); anyUn = !zero; }
  Page(const Page& o) : anyUn(o.anyUn) { memcpy(b, o.b, PG); memcpy(un, o.un, sizeof un); if (o.s) { s = new E[PG]; memcpy(s, o.s, PG * sizeof(E)); } }
  ~Page() { delete[] s; }
  bool isUn(unsigned i) const { return (un[i >> 6] >> (i & 63)) & 1; }
  void setByte(unsigned i, uint8_t v) { b[i] = v; if (s) s[i] = nullptr; if (anyUn) un[i >> 6] &= ~(1ull << (i & 63)); }
  void setSym(unsigned i, E e) { if (!s) { s = new E[PG](); } s[i] = e; if (anyUn) un[i >> 6] &= ~(1ull << (i & 63)); }
  void setUn(unsigned i) { if (s) s[i] = nullptr; un[i >> 6] |= 1ull << (i & 63); anyUn = true; }
};
enum ObjKind : uint8_t { OK_Heap, OK_Stack, OK_Global, OK_Func, OK_Exc };
struct Obj {
  int rc = 0;
  uint64_t size;
  ObjKind kind;
  bool ro = false, freed = false, zero = false;
  uint8_t owner = 0;
  uint8_t allocFn = 0;   // 0 malloc, 1 new, 2 new[]
  const llvm::Instruction* site = nullptr;
  const llvm::Instruction* freeSite = nullptr;
  const char* name = nullptr;
  std::vector<Ref<Page>> pages;
};
struct Chunk { int rc = 0; Ref<Obj> o[64]; };

constexpr uint64_t ABASE = 0x100000000000ull;
constexpr unsigned ASHIFT = 24;
constexpr uint64_t AOFF = 64;
inline uint64_t objBase(uint32_t id) { return ABASE + ((uint64_t)id << ASHIFT) + AOFF; }

struct FuncInfo; struct CallInfo;
struct Edge { uint32_t target; std::vector<std::pair<int, int>> moves; uint32_t bb; };
struct SlotT { uint16_t w; uint32_t off; };
struct SwitchInfo { std::unordered_map<uint64_t, int> m; std::vector<std::pair<uint64_t, int>> cases; std::vector<Edge> edges; Edge def; };
struct GepInfo { uint64_t off = 0; std::vector<std::pair<int, std::pair<uint64_t, unsigned>>> idx; };
struct Inst {
  uint16_t k; uint16_t sub; uint16_t w, w2;
  int dst, a, b, c; uint32_t n;
  Edge* e0 = nullptr; Edge* e1 = nullptr;
  void* p = nullptr;
  const llvm::Instruction* ll = nullptr;
};
struct State; struct Exec;
struct CallCtx {
  State& s; const Inst& in; const CallInfo& ci; std::vector<Val> args; Val ret[4]; bool pushedFrame = false;
};
typedef void (*Builtin)(Exec&, CallCtx&);
struct ArgInfo { int op; uint32_t n; uint64_t byval; std::vector<SlotT> slots; };
struct CallInfo {
  std::vector<ArgInfo> args; FuncInfo* callee = nullptr; Builtin bi = nullptr; int fop = 0; uint32_t retn = 0; std::vector<SlotT> rets;
  bool invoke = false; Edge* normal = nullptr; Edge* unwind = nullptr; unsigned fixedArgs = 0; bool vararg = false;
  const llvm::CallBase* cb = nullptr; uint32_t iid = 0;
};
struct FuncInfo {
  const llvm::Function* F; std::string name; bool decoded = false; Builtin bi = nullptr;
  std::vector<Inst> code; std::vector<Val> consts; uint32_t nregs = 0; std::vector<uint32_t> argSlot; std::vector<uint32_t> argN;
  uint32_t nbb = 0; std::vector<uint8_t> bbHit; uint64_t calls = 0; bool repo = false; uint32_t retn = 0; bool hasVa = false;
};
struct Frame {
  FuncInfo* f; uint32_t pc; std::vector<Val> regs; std::vector<uint32_t> allocas; const Inst* callInst = nullptr;
  std::vector<Val> va; std::vector<std::pair<uint16_t,uint8_t>> vaT; uint32_t bb = 0;
};
enum TStat : uint8_t { T_Run, T_Mutex, T_JoinAll, T_Done, T_Cond };
struct Exc { uint64_t obj; uint64_t ti; };
struct VC { uint32_t c[6] = {0, 0, 0, 0, 0, 0}; void join(const VC& o) { for (int i = 0; i < 6; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread {
  std::vector<Frame> frames; TStat st = T_Run; uint64_t waitAddr = 0; bool waitShared = false;
  std::vector<Exc> caught; Exc inflight{0, 0}; bool schedDone = false; VC vc; uint32_t uncaught = 0; bool condSignaled = false;
};
struct MutexSt { int owner = -1; int readers = 0; VC vc, rvc; uint32_t depth = 0; };
struct Shadow { uint8_t wt = 0xff; uint32_t wc = 0; const llvm::Instruction* wi = nullptr; VC rd; const llvm::Instruction* ri = nullptr; };
struct InputRec { std::string name; std::vector<E> bytes; unsigned w; };
struct ObsRec { std::string name; std::vector<E> bytes; };
struct State {
  std::vector<Ref<Chunk>> chunks; uint32_t nobj = 0;
  std::vector<Thread> th; unsigned cur = 0;
  std::vector<E> pc; ModelP model;
  std::vector<InputRec> inputs; std::vector<ObsRec> obs;
  std::map<uint64_t, MutexSt> mtx; std::map<uint64_t, VC> atom; std::unordered_map<uint64_t, Shadow> shadow;
  uint64_t steps = 0; uint32_t preempt = 0; uint32_t forks = 0; uint32_t nlive = 1; int atomicDepth = 0;
  std::string sched; uint32_t depth = 0; int64_t heapLive = 0; std::vector<uint64_t> userSlots;
  uint32_t nsched = 0; uint32_t maxPreempt = 0; std::vector<E> assumesFp;
};
