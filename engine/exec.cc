#include "exec.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <thread>
#include <functional>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;

enum K : uint16_t { K_BIN, K_ICMP, K_FBIN, K_FCMP, K_FNEG, K_CAST, K_COPY, K_LOAD, K_STORE, K_GEP, K_ALLOCA, K_BR, K_CBR, K_SWITCH, K_RET,
  K_CALL, K_LPAD, K_RESUME, K_SELECT, K_INSV, K_UNREACH, K_RMW, K_CMPX, K_FENCE, K_UNSUP, K_XELT, K_IELT, K_SHUF, K_NOP };

struct PathEnd { const char* why; };
struct EngineError { std::string msg; };

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string dem(const std::string& s) { return llvm::demangle(s); }

struct Exec {
  Module* M; const DataLayout* DL;
  std::map<const Function*, FuncInfo*> fmap;
  std::map<const GlobalValue*, uint32_t> gid;
  std::unordered_map<uint32_t, FuncInfo*> objFunc;
  std::map<std::string, Builtin> bis;
  std::map<uint64_t, std::string> tiName; std::map<std::string, std::vector<std::string>> tiBase;
  std::map<uint64_t, int> tiId;
  std::deque<State*> work;
  State* cur = nullptr;
  // configuration
  std::map<std::string, int64_t> params;
  uint64_t maxSteps = 30000000, maxPaths = 100000000;
  double deadline = 1e18, t0, stopAfter = 0;
  std::atomic<uint64_t>* shared = nullptr;   // [0] next work item, [8] 1 + milliseconds after t0 to stop at, once a violation is known
  void noteViol() { if (!stopAfter || !shared) return; uint64_t z = 0, e = (uint64_t)((now() - t0) * 1000); shared[8].compare_exchange_strong(z, 1 + e + std::min<uint64_t>(60000, std::max<uint64_t>((uint64_t)(stopAfter * 1000), e / 2))); }
  const char* stopFile = nullptr; double stopSeen = 0;
  bool late() {
    double n = now(); if (n > deadline) return true;
    if (stopFile) { if (!stopSeen && access(stopFile, F_OK) == 0) stopSeen = n; if (stopSeen && n > stopSeen + 15) return true; }
    if (!shared) return false; uint64_t v = shared[8].load(); return v && (n - t0) * 1000 > v;
  }
  // ends solver queries that outlast the deadline, and the process if even that does not help
  std::atomic<bool> dogStop{false}; std::thread dog; std::function<void()> dogLast;
  void watch() { dogStop = false; dog = std::thread([this] { int over = 0; while (!dogStop) { usleep(200000); if (late() && ++over > 10) { solverAbort(); if (over > 100) { dogLast(); _exit(0); } } } }); }
  void unwatch() { dogStop = true; if (dog.joinable()) dog.join(); }
  unsigned maxPreempt = 2; bool uninitCheck = true; int samples = 6; uint64_t seed = 1; bool leakCheck = false;
  unsigned muxLimit = 640;
  std::string repoPrefix = "/repo/";
  // statistics
  uint64_t paths = 0, pathsErr = 0, pathsAssumed = 0, steps = 0, forks = 0, inconclusive = 0, timeouts = 0, memErrChecks = 0, implied = 0, asserts = 0, concretizations = 0;
  std::map<std::string, uint64_t> reach; std::map<std::string, uint64_t> assertMsgs;
  std::map<std::string, std::string> viols; // key -> json
  std::map<std::string, uint64_t> violCount;
  std::map<std::string, uint64_t> errs;
  std::vector<std::string> sampleJson; uint64_t sampleSeen = 0;
  uint32_t callIid = 0;

  // ---------------------------------------------------------------- objects
  static Obj* getObj(State& s, uint32_t id) { return s.chunks[id >> 6]->o[id & 63].p; }
  static Obj* getObjW(State& s, uint32_t id) { Chunk* c = s.chunks[id >> 6].cow(); return c->o[id & 63].cow(); }
  uint32_t newObj(State& s, uint64_t size, ObjKind k, bool zero, const char* name = nullptr, const Instruction* site = nullptr) {
    if (size > (1ull << ASHIFT) - 4096) throw EngineError{"object too large: " + std::to_string(size)};
    uint32_t id = s.nobj++;
    if ((id >> 6) >= s.chunks.size()) s.chunks.push_back(Ref<Chunk>(new Chunk()));
    Chunk* c = s.chunks[id >> 6].cow();
    Obj* o = new Obj();
    o->size = size; o->kind = k; o->zero = zero; o->name = name; o->site = site; o->owner = s.cur;
    o->pages.resize((size + PG - 1) / PG);
    c->o[id & 63] = Ref<Obj>(o);
    return id;
  }
  static Page* pageW(Obj* o, unsigned pi) {
    Ref<Page>& r = o->pages[pi];
    if (!r) { r = Ref<Page>(new Page(o->zero)); return r.p; }
    return r.cow();
  }
  E readByteE(State& s, uint32_t id, uint64_t off) {
    Obj* o = getObj(s, id);
    Page* p = o->pages[off / PG].p;
    unsigned i = off % PG;
    if (!p) { if (o->zero) return mkConst(0, 8); }
    else if (!(p->anyUn && p->isUn(i))) { if (p->s && p->s[i]) return p->s[i]; return mkConst(p->b[i], 8); }
    E v = mkVar("uninit_" + std::to_string(id) + "_" + std::to_string(off), 8, true);
    Obj* ow = getObjW(s, id);
    pageW(ow, off / PG)->setSym(i, v);
    return v;
  }
  Val loadAt(State& s, uint32_t id, uint64_t off, unsigned w) {
    Obj* o = getObj(s, id);
    unsigned nb = (w + 7) / 8;
    Page* p = o->pages[off / PG].p;
    unsigned i = off % PG;
    if (nb <= 8 && i + nb <= PG) {
      if (!p) { if (o->zero) return cv(0); }
      else if (!p->anyUn && !p->s) { uint64_t v = 0; memcpy(&v, p->b + i, nb); return cv(w == 64 ? v : v & (uint64_t)maskW(w)); }
      else {
        bool conc = true;
        for (unsigned k = 0; k < nb; k++) if ((p->s && p->s[i + k]) || (p->anyUn && p->isUn(i + k))) { conc = false; break; }
        if (conc) { uint64_t v = 0; memcpy(&v, p->b + i, nb); return cv(w == 64 ? v : v & (uint64_t)maskW(w)); }
      }
    }
    E e = nullptr;
    for (unsigned k = 0; k < nb; k++) { E b = readByteE(s, id, off + k); e = e ? mkConcat(b, e) : b; }
    if (w < nb * 8) e = mkExtract(e, 0, w);
    return fromE(e);
  }
  void storeAt(State& s, uint32_t id, uint64_t off, Val v, unsigned w) {
    Obj* o = getObjW(s, id);
    unsigned nb = (w + 7) / 8;
    if (!v.e) {
      uint64_t x = v.c;
      for (unsigned k = 0; k < nb;) {
        unsigned i = (off + k) % PG;
        unsigned m = std::min(nb - k, PG - i);
        Page* p = pageW(o, (off + k) / PG);
        if (!p->s && !p->anyUn && nb <= 8) { memcpy(p->b + i, (char*)&x + k, m); }
        else for (unsigned t = 0; t < m; t++) p->setByte(i + t, k + t < 8 ? (uint8_t)(x >> (8 * (k + t))) : 0);
        k += m;
      }
      return;
    }
    E e = v.e;
    if (e->w < nb * 8) e = mkZExt(e, nb * 8);
    for (unsigned k = 0; k < nb; k++) {
      E b = mkExtract(e, k * 8, 8);
      Page* p = pageW(o, (off + k) / PG);
      unsigned i = (off + k) % PG;
      if (b->isConst()) p->setByte(i, (uint8_t)b->c); else p->setSym(i, b);
    }
  }

  // ---------------------------------------------------------------- solver glue
  void addPC(State& s, E c) {
    if (c->isConst()) return;
    if (c->op == Op::And && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    for (E p : s.pc) if (p == c) return;
    s.pc.push_back(c);
  }
  // e with every uninitialised byte replaced by a fresh one
  E refill(E e, std::unordered_map<E, E>& memo) {
    if (!e->taint) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E r = e, a = e->nk > 0 ? refill(e->k[0], memo) : nullptr, b = e->nk > 1 ? refill(e->k[1], memo) : nullptr, c = e->nk > 2 ? refill(e->k[2], memo) : nullptr;
    switch (e->op) {
      case Op::Const: break;
      case Op::Var: { static std::unordered_map<uint32_t, E> fresh; E& f = fresh[e->aux]; if (!f) f = mkVar("refill_" + std::to_string(e->aux), e->w, true); r = f; break; }
      case Op::Ite: r = mkIte(a, b, c); break;
      case Op::ZExt: r = mkZExt(a, e->w); break;
      case Op::SExt: r = mkSExt(a, e->w); break;
      case Op::Extract: r = mkExtract(a, e->aux, e->w); break;
      case Op::Concat: r = mkConcat(a, b); break;
      default: r = e->op >= Op::FAdd ? mkF(e->op, a, b, e->w, e->aux) : mkBin(e->op, a, b);
    }
    return memo[e] = r;
  }
  bool decide(State& s, const Val& cond) {
    if (!cond.e) return cond.c & 1;
    E e = cond.e;
    E ne = mkNot(e);
    for (E p : s.pc) { if (p == e) return true; if (p == ne) return false; }
    bool v = evalExpr(e, *s.model) != 0;
    ModelP nm;
    E other = v ? ne : e;
    SR r = solveCheck(s.pc, other, *s.model, nm);
    if (r == SR::Unsat) { implied++; return v; }
    if (r == SR::Unknown) { inconclusive++; addPC(s, v ? e : ne); return v; }
    if (uninitCheck && e->taint) {
      // a real dependence: some other content of the uninitialised bytes takes the other branch
      std::unordered_map<E, E> memo;
      ModelP m2;
      if (solveCheck(s.pc, mkAnd(e, mkNot(refill(e, memo))), *s.model, m2) == SR::Sat) violate(s, "uninit", "branch depends on uninitialised memory", true, m2.get());
    }
    State* c = new State(s);
    addPC(*c, other);
    c->model = nm;
    c->forks++;
    forks++;
    work.push_back(c);
    addPC(s, v ? e : ne);
    s.forks++;
    return v;
  }
  uint64_t concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c;
    uint64_t x = (uint64_t)evalExpr(v.e, *s.model);
    concretizations++;
    // the clone (v != x) picks its own value when it re-executes
    if (!decide(s, fromE(mkEq(v.e, mkConst(x, w))))) throw EngineError{"concretize"};
    return x;
  }

  // ---------------------------------------------------------------- reporting
  std::string locOf(const Instruction* I) {
    if (!I) return "?";
    const DILocation* d = I->getDebugLoc().get();
    if (!d) return I->getFunction()->getName().str();
    return d->getFilename().str() + ":" + std::to_string(d->getLine());
  }
  std::string repoLoc(State& s) {   // innermost source location, preferring /repo files
    std::string first;
    Thread& t = s.th[s.cur];
    for (int i = (int)t.frames.size() - 1; i >= 0; i--) {
      Frame& f = t.frames[i];
      const Instruction* I = f.f->code[f.pc].ll;
      if (!I) continue;
      for (const DILocation* d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
        std::string l = d->getFilename().str();
        std::string full = l;
        if (!l.empty() && l[0] != '/') full = d->getDirectory().str() + "/" + l;
        if (first.empty()) first = full + ":" + std::to_string(d->getLine());
        if (full.find(repoPrefix) == 0) return full + ":" + std::to_string(d->getLine());
      }
    }
    return first.empty() ? "?" : first;
  }
  std::string stackJson(State& s) {
    std::string o = "[";
    Thread& t = s.th[s.cur];
    bool first = true;
    int cnt = 0;
    for (int i = (int)t.frames.size() - 1; i >= 0 && cnt < 24; i--) {
      Frame& f = t.frames[i];
      const Instruction* I = f.f->code[f.pc].ll;
      std::string where = dem(f.f->name);
      if (I) for (const DILocation* d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
        std::string fn = d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getLinkageName().str() : "";
        if (fn.empty() && d->getScope()->getSubprogram()) fn = d->getScope()->getSubprogram()->getName().str();
        o += (first ? "" : ",") + jstr(dem(fn).substr(0, 160) + " at " + d->getFilename().str() + ":" + std::to_string(d->getLine()));
        first = false; cnt++;
      } else { o += (first ? "" : ",") + jstr(where.substr(0, 160)); first = false; cnt++; }
    }
    return o + "]";
  }
  std::string inputsJson(State& s, const Model& m) {
    std::string o = "[";
    for (size_t i = 0; i < s.inputs.size(); i++) {
      auto& r = s.inputs[i];
      if (i) o += ",";
      std::string hex; char b[4];
      for (E e : r.bytes) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m)); hex += b; }
      o += "[" + jstr(r.name) + "," + jstr(hex) + "]";
    }
    return o + "]";
  }
  std::string obsJson(State& s, const Model& m) {
    std::string o = "[";
    for (size_t i = 0; i < s.obs.size(); i++) {
      auto& r = s.obs[i];
      if (i) o += ",";
      std::string hex; char b[4];
      for (E e : r.bytes) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m)); hex += b; }
      o += "[" + jstr(r.name) + "," + jstr(hex) + "]";
    }
    return o + "]";
  }
  void violate(State& s, const std::string& kind, const std::string& msg, bool isSoft, const Model* m) {
    std::string loc = repoLoc(s);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
    violCount[key]++;
    if (viols.count(key)) return;
    const Model& mm = m ? *m : *s.model;
    std::string j = "{\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"loc\":" + jstr(loc) + ",\"stack\":" + stackJson(s) +
      ",\"inputs\":" + inputsJson(s, mm) + ",\"sched\":" + jstr(s.sched) + ",\"obs\":" + obsJson(s, mm) + "}";
    viols[key] = j; noteViol();
  }
  [[noreturn]] void die(State& s, const std::string& kind, const std::string& msg) {
    violate(s, kind, msg, false, nullptr);
    throw PathEnd{"violation"};
  }

  // ---------------------------------------------------------------- pointers
  struct Loc { uint32_t id; bool sym; uint64_t off; E offE; };
  bool validObj(State& s, uint64_t addr, uint32_t& id) {
    if (addr < ABASE) return false;
    uint64_t k = (addr - ABASE) >> ASHIFT;
    if (k >= s.nobj) return false;
    id = (uint32_t)k;
    return true;
  }
  static E constBase(E e) {
    if (e->op == Op::Const) return e;
    if (e->op == Op::Add) { if (E x = constBase(e->k[1])) return x; return constBase(e->k[0]); }
    return nullptr;
  }
  std::string objDesc(Obj* o) {
    const char* k = o->kind == OK_Heap ? "heap" : o->kind == OK_Stack ? "stack" : o->kind == OK_Global ? "global" : o->kind == OK_Exc ? "exception" : "function";
    std::string r = std::string(k) + " object of " + std::to_string(o->size) + " bytes";
    if (o->name) r += std::string(" '") + o->name + "'";
    return r;
  }
  // whether a symbolic offset ranges over more positions than are worth a path each; then its range
  uint64_t wideLo = 0, wideHi = 0;
  bool feasible(State& s, E e) { ModelP m; return solveCheck(s.pc, e, *s.model, m) != SR::Unsat; }
  bool wide(State& s, E off, uint64_t size) {
    uint64_t x = (uint64_t)evalExpr(off, *s.model); auto K = [](uint64_t v) { return mkConst(v, 64); };
    if (!feasible(s, mkBin(Op::Ult, K(1024), mkBin(Op::Add, mkBin(Op::Sub, off, K(x)), K(512))))) return false;
    uint64_t lo = 0, hi = x;      // lowest feasible offset in [lo, hi]
    while (lo < hi) { uint64_t m = lo + (hi - lo) / 2; if (feasible(s, mkBin(Op::Ule, off, K(m)))) hi = m; else lo = m + 1; }
    wideLo = lo; lo = x; hi = size - 1;
    while (lo < hi) { uint64_t m = lo + (hi - lo + 1) / 2; if (feasible(s, mkBin(Op::Ule, K(m), off))) lo = m; else hi = m - 1; }
    wideHi = lo; return true;
  }
  Loc resolve(State& s, const Val& pv, uint64_t n, bool write, bool wantConcrete = false) {
    memErrChecks++;
    if (!pv.e) {
      uint64_t a = pv.c; uint32_t id;
      if (!validObj(s, a, id)) die(s, a < 65536 ? "null-deref" : "wild-pointer", std::string(a < 65536 ? "null pointer " : "invalid pointer ") + (write ? "write" : "read"));
      Obj* o = getObj(s, id);
      uint64_t off = a - objBase(id);
      if (o->freed) die(s, "use-after-free", std::string(write ? "write to" : "read from") + " freed " + objDesc(o));
      if (off > o->size || n > o->size - off) die(s, "out-of-bounds", std::string(write ? "write" : "read") + " outside " + objDesc(o));
      if (write && o->ro) die(s, "write-readonly", "write to constant " + objDesc(o));
      return {id, false, off, nullptr};
    }
    E p = pv.e;
    for (int attempt = 0; attempt < 2; attempt++) {
      uint64_t a; uint32_t id;
      if (attempt == 0) { E b = constBase(p); if (!b) { a = (uint64_t)evalExpr(p, *s.model); } else a = (uint64_t)b->c; }
      else a = (uint64_t)evalExpr(p, *s.model);
      if (!validObj(s, a, id)) continue;
      Obj* o = getObj(s, id);
      if (o->freed || o->kind == OK_Func) continue;
      if (n > o->size) continue;
      E off = mkBin(Op::Sub, p, mkConst(objBase(id), 64));
      E inb = mkBin(Op::Ule, off, mkConst(o->size - n, 64));
      if (!decide(s, fromE(inb))) continue;
      if (write && o->ro) die(s, "write-readonly", "write to constant " + objDesc(o));
      if (off->isConst()) return {id, false, (uint64_t)off->c, nullptr};
      if (write && n == 1 && !wantConcrete && o->size > muxLimit && wide(s, off, o->size)) return {id, true, 0, off};
      if (wantConcrete || (o->size > (o->ro ? 8192u : muxLimit))) {
        uint64_t x = concretize(s, fromE(off), 64);
        return {id, false, x, nullptr};
      }
      return {id, true, 0, off};
    }
    // no valid object: report with the current model
    Val c = cv((uint64_t)evalExpr(p, *s.model));
    uint32_t id;
    if (validObj(s, c.c, id)) {
      Obj* o = getObj(s, id);
      if (o->freed) die(s, "use-after-free", std::string(write ? "write to" : "read from") + " freed " + objDesc(o));
      die(s, "out-of-bounds", std::string(write ? "write" : "read") + " outside " + objDesc(o));
    }
    E b = constBase(p);
    if (b && validObj(s, (uint64_t)b->c, id)) die(s, "out-of-bounds", std::string(write ? "write" : "read") + " outside " + objDesc(getObj(s, id)));
    die(s, "wild-pointer", std::string("invalid pointer ") + (write ? "write" : "read"));
  }
  std::map<std::tuple<uint32_t, E, unsigned>, E> muxCache;
  E muxLoad(State& s, uint32_t id, E off, unsigned w, uint64_t n) {
    Obj* o = getObj(s, id);
    bool ro = o->ro;
    if (ro) { auto it = muxCache.find({id, off, w}); if (it != muxCache.end()) return it->second; }
    uint64_t maxOff = o->size - n;
    int bits = 0; while ((maxOff >> bits) != 0) bits++;
    std::function<E(int, uint64_t)> rec = [&](int b, uint64_t prefix) -> E {
      if (prefix > maxOff) return nullptr;
      if (b < 0) return toE(loadAt(s, id, prefix, w), w);
      E bit = mkExtract(off, b, 1);
      if (bit->isConst()) return rec(b - 1, prefix | ((uint64_t)bit->c << b));
      E lo = rec(b - 1, prefix), hi = rec(b - 1, prefix | (1ull << b));
      if (!hi) return lo;
      if (!lo) return hi;
      return mkIte(bit, hi, lo);
    };
    E r = rec(bits - 1, 0);
    if (!r) throw EngineError{"mux"};
    if (ro) muxCache[{id, off, w}] = r;
    return r;
  }
  Val load(State& s, const Val& p, unsigned w) {
    unsigned nb = (w + 7) / 8;
    Loc l = resolve(s, p, nb, false);
    if (s.nlive > 1) race(s, objBase(l.id) + l.off, nb, false);
    if (!l.sym) return loadAt(s, l.id, l.off, w);
    return fromE(muxLoad(s, l.id, l.offE, w, nb));
  }
  void store(State& s, const Val& p, Val v, unsigned w) {
    unsigned nb = (w + 7) / 8;
    Loc l = resolve(s, p, nb, true);
    if (s.nlive > 1) race(s, objBase(l.id) + l.off, nb, true);
    if (!l.sym) { storeAt(s, l.id, l.off, v, w); return; }
    Obj* o = getObj(s, l.id);
    if (nb == 1 && o->size > muxLimit) {
      E ve = toE(v, w); if (ve->w < 8) ve = mkZExt(ve, 8);
      for (uint64_t i = wideLo, h = wideHi; i <= h; i++) { E old = readByteE(s, l.id, i); storeAt(s, l.id, i, fromE(mkIte(mkEq(l.offE, mkConst(i, 64)), ve, old)), 8); }
      return;
    }
    if (o->size > 256) { uint64_t x = concretize(s, fromE(l.offE), 64); storeAt(s, l.id, x, v, w); return; }
    E ve = toE(v, w); if (ve->w < nb * 8) ve = mkZExt(ve, nb * 8);
    uint64_t sz = o->size;
    for (uint64_t i = 0; i < sz; i++) {
      E nbv = readByteE(s, l.id, i);
      for (unsigned k = 0; k < nb; k++) if (i >= k && i - k + nb <= sz) {
        E c = mkEq(l.offE, mkConst(i - k, 64));
        nbv = mkIte(c, mkExtract(ve, 8 * k, 8), nbv);
      }
      storeAt(s, l.id, i, fromE(nbv), 8);
    }
  }
  void copyMem(State& s, const Val& d, const Val& sr, uint64_t n) {
    if (!n) return;
    Loc ls = resolve(s, sr, n, false, true);
    Loc ld = resolve(s, d, n, true, true);
    if (s.nlive > 1) { race(s, objBase(ls.id) + ls.off, n, false); race(s, objBase(ld.id) + ld.off, n, true); }
    struct B { uint8_t b; uint8_t un; E e; };
    std::vector<B> t(n);
    Obj* so = getObj(s, ls.id);
    for (uint64_t i = 0; i < n; i++) {
      uint64_t o = ls.off + i; Page* p = so->pages[o / PG].p; unsigned k = o % PG;
      if (!p) { t[i] = {0, (uint8_t)!so->zero, nullptr}; continue; }
      t[i] = {p->b[k], (uint8_t)(p->anyUn && p->isUn(k)), p->s ? p->s[k] : nullptr};
    }
    Obj* dob = getObjW(s, ld.id);
    for (uint64_t i = 0; i < n; i++) {
      uint64_t o = ld.off + i; Page* p = pageW(dob, o / PG); unsigned k = o % PG;
      if (t[i].un) p->setUn(k); else if (t[i].e) p->setSym(k, t[i].e); else p->setByte(k, t[i].b);
    }
  }
  void setMem(State& s, const Val& d, Val b, uint64_t n) {
    if (!n) return;
    Loc l = resolve(s, d, n, true, true);
    if (s.nlive > 1) race(s, objBase(l.id) + l.off, n, true);
    Obj* o = getObjW(s, l.id);
    for (uint64_t i = 0; i < n; i++) {
      Page* p = pageW(o, (l.off + i) / PG);
      if (b.e) p->setSym((l.off + i) % PG, b.e); else p->setByte((l.off + i) % PG, (uint8_t)b.c);
    }
  }
  // ---------------------------------------------------------------- races
  void race(State& s, uint64_t addr, uint64_t n, bool write, bool atomic = false) {
    Thread& t = s.th[s.cur];
    const Instruction* I = t.frames.back().f->code[t.frames.back().pc].ll;
    for (uint64_t i = 0; i < n; i++) {
      Shadow& sh = s.shadow[addr + i];
      if (sh.wt != 0xff && sh.wt != s.cur && sh.wc > t.vc.c[sh.wt]) {
        die(s, "data-race", std::string(write ? "write" : "read") + " races with write at " + locOf(sh.wi));
      }
      if (write) {
        for (unsigned k = 0; k < s.th.size() && k < 6; k++)
          if (k != s.cur && sh.rd.c[k] > t.vc.c[k]) die(s, "data-race", "write races with read at " + locOf(sh.ri));
        sh.wt = s.cur; sh.wc = t.vc.c[s.cur]; sh.wi = I;
      } else { sh.rd.c[s.cur] = t.vc.c[s.cur]; sh.ri = I; }
    }
  }
  void atomicHB(State& s, uint64_t addr, bool acq, bool rel) {
    if (s.th.size() < 2) return;
    Thread& t = s.th[s.cur];
    VC& v = s.atom[addr];
    if (acq) t.vc.join(v);
    if (rel) { v.join(t.vc); t.vc.c[s.cur]++; }
  }

  // ---------------------------------------------------------------- threads
  bool threadEnabled(State& s, unsigned i) {
    Thread& t = s.th[i];
    switch (t.st) {
      case T_Run: return true;
      case T_Mutex: { auto& m = s.mtx[t.waitAddr]; return t.waitShared ? m.owner < 0 : (m.owner < 0 && m.readers == 0); }
      case T_JoinAll: for (unsigned k = 0; k < s.th.size(); k++) if (k != i && s.th[k].st != T_Done) return false; return true;
      case T_Cond: return t.condSignaled;
      default: return false;
    }
  }
  void recordSched(State& s, unsigned tid) {
    E v = mkVar("sched_" + std::to_string(s.nsched++), 8);
    addPC(s, mkEq(v, mkConst(tid, 8)));
    auto m = std::make_shared<Model>(); m->v = s.model->v; m->v.resize(g_vars.size(), 0); m->v[v->aux] = tid; m->stamp = newStamp(); s.model = m;
    s.sched += (char)('0' + tid);
  }
  // called at a scheduling point of the current thread, before its visible operation
  void schedPoint(State& s) {
    Thread& t = s.th[s.cur];
    if (s.nlive < 2 || s.atomicDepth) return;
    if (t.schedDone) return;
    t.schedDone = true;
    for (unsigned i = 0; i < s.th.size(); i++) {
      if (i == s.cur || !threadEnabled(s, i)) continue;
      if (s.preempt >= maxPreempt) break;
      State* c = new State(s);
      forks++;
      c->preempt++;
      c->cur = i;
      recordSched(*c, i);
      work.push_back(c);
    }
    recordSched(s, s.cur);
  }
  // current thread cannot run: pick another
  void switchAway(State& s) {
    std::vector<unsigned> en;
    for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && threadEnabled(s, i)) en.push_back(i);
    if (en.empty()) {
      if (s.th[s.cur].st != T_Done && threadEnabled(s, s.cur)) return;
      bool all = true;
      for (auto& t : s.th) if (t.st != T_Done) all = false;
      if (all) throw PathEnd{"done"};
      die(s, "deadlock", "all threads blocked");
    }
    for (size_t k = 1; k < en.size(); k++) {
      State* c = new State(s); forks++;
      c->cur = en[k]; recordSched(*c, en[k]);
      work.push_back(c);
    }
    s.cur = en[0]; recordSched(s, en[0]);
  }

#include "decode.inc"
#include "interp.inc"
#include "builtins.inc"
#include "run.inc"
};

// symir --instrument OUT IN: the same module with a call to vp_sched() before every atomic access, for native replay
static int instrument(const char* out, const char* in) {
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(in, err, ctx);
  if (!m) { fprintf(stderr, "cannot read %s\n", in); return 3; }
  auto fn = m->getOrInsertFunction("vp_sched", Type::getVoidTy(ctx));
  for (auto& F : *m) {
    if (F.isDeclaration()) continue;
    F.addFnAttr(Attribute::SanitizeAddress);
    std::vector<Instruction*> at;
    for (auto& B : F) for (auto& I : B) if (I.isAtomic() && !isa<FenceInst>(I)) at.push_back(&I);
    for (auto* I : at) { IRBuilder<> b(I); b.CreateCall(fn); }
  }
  std::error_code ec; raw_fd_ostream o(out, ec); WriteBitcodeToFile(*m, o); return ec ? 3 : 0;
}
int main(int argc, char** argv) {
  if (argc == 4 && !strcmp(argv[1], "--instrument")) return instrument(argv[2], argv[3]);
  Exec x;
  return x.main(argc, argv);
}
