  // ---------------------------------------------------------------- builtins
  std::string readCStr(State& s, const Val& p) {
    if (p.e) throw EngineError{"symbolic string pointer"};
    std::string r; uint32_t id;
    if (!validObj(s, p.c, id)) return "?";
    uint64_t off = p.c - objBase(id); Obj* o = getObj(s, id);
    while (off < o->size) { Val b = loadAt(s, id, off++, 8); if (b.e) { r += '?'; continue; } if (!b.c) break; r += (char)b.c; if (r.size() > 400) break; }
    return r;
  }
  Val doMalloc(CallCtx& c, const Val& szv, uint8_t fn, bool zero = false) {
    uint64_t n = concretize(c.s, szv, 64);
    if (n > (8u << 20)) {   // treat as allocation failure
      if (fn == 0) return cv(0);
      throwStd(c, "_ZTISt9bad_alloc"); return cv(0);
    }
    uint32_t id = newObj(c.s, n, OK_Heap, zero, nullptr, c.in.ll);
    getObjW(c.s, id)->allocFn = fn;
    c.s.heapLive++;
    return cv(objBase(id));
  }
  void throwStd(CallCtx& c, const char* tiname) {
    auto* gv = M->getNamedValue(tiname);
    uint64_t ti;
    if (gv) ti = objBase(gid[gv]); else { ti = 0x7000; }
    tiName[ti] = tiname;
    uint32_t id = newObj(c.s, 96, OK_Exc, true, "exception");
    storeAt(c.s, id, 0, cv(ti), 64);
    c.pushedFrame = true;
    unwind(c.s, Exc{objBase(id) + 32, ti});
  }
  void doFree(CallCtx& c, const Val& pv, uint8_t fn) {
    uint64_t p = concretize(c.s, pv, 64);
    if (!p) return;
    uint32_t id;
    if (!validObj(c.s, p, id)) die(c.s, "bad-free", "free of invalid pointer");
    Obj* o = getObj(c.s, id);
    if (o->kind != OK_Heap) die(c.s, "bad-free", "free of non-heap " + objDesc(o));
    if (o->freed) die(c.s, "double-free", "double free of " + objDesc(o));
    if (p != objBase(id)) die(c.s, "bad-free", "free of interior pointer");
    if (o->allocFn != fn) die(c.s, "alloc-dealloc-mismatch", "mismatched allocation and deallocation functions");
    if (c.s.nlive > 1) race(c.s, p, o->size, true);
    o = getObjW(c.s, id);
    o->freed = true; o->pages.clear(); o->freeSite = c.in.ll;
    c.s.heapLive--;
  }
  Builtin lookupBuiltin(const Function* F) {
    std::string n = F->getName().str();
    auto it = bis.find(n);
    if (it != bis.end()) return it->second;
    if (F->isIntrinsic()) {
      // strip type suffix:  llvm.umax.i64 -> llvm.umax
      std::string b = Intrinsic::getBaseName(F->getIntrinsicID()).str();
      it = bis.find(b);
      if (it != bis.end()) return it->second;
    }
    return nullptr;
  }
  static unsigned argW(CallCtx& c, unsigned i) { unsigned k = 0; for (auto& a : c.ci.args) for (auto& s : a.slots) { if (k == i) return s.w; k++; } return 64; }
  void addInput(State& s, const std::string& name, const std::vector<E>& bytes) { s.inputs.push_back({name, bytes, 0}); }
  E newVar(State& s, const std::string& name, unsigned w) { return mkVar(name, w); }
  void doThrow(CallCtx& c, uint64_t obj, uint64_t ti) {
    uint32_t id;
    if (!validObj(c.s, obj, id)) throw EngineError{"throw of foreign object"};
    storeAt(c.s, id, 0, cv(ti), 64);
    c.pushedFrame = true;
    unwind(c.s, Exc{obj, ti});
  }
  E regionDiff(State& s, const Val& a, const Val& b, uint64_t n, bool eqOnly) {
    Loc la = resolve(s, a, n, false, true), lb = resolve(s, b, n, false, true);
    if (s.nlive > 1) { race(s, objBase(la.id) + la.off, n, false); race(s, objBase(lb.id) + lb.off, n, false); }
    if (eqOnly) {
      E r = mkTrue();
      for (uint64_t i = 0; i < n; i++) { r = mkAnd(r, mkEq(readByteE(s, la.id, la.off + i), readByteE(s, lb.id, lb.off + i))); if (r->isConst() && !r->c) break; }
      return mkIte(r, mkConst(0, 32), mkConst(1, 32));
    }
    E r = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      E x = readByteE(s, la.id, la.off + i), y = readByteE(s, lb.id, lb.off + i);
      E d = mkIte(mkEq(x, y), r, mkIte(mkBin(Op::Ult, x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
      r = d;
    }
    return r;
  }
  void registerBuiltins() {
#define BI(NAME) bis[NAME] = [](Exec& x, CallCtx& c)
#define S c.s
#define A(i) c.args[i]
    BI("malloc") { c.ret[0] = x.doMalloc(c, A(0), 0); };
    BI("calloc") { uint64_t a = x.concretize(S, A(0), 64), b = x.concretize(S, A(1), 64); c.ret[0] = x.doMalloc(c, cv(a * b), 0, true); };
    BI("realloc") {
      uint64_t n = x.concretize(S, A(1), 64); uint64_t p = x.concretize(S, A(0), 64);
      Val r = x.doMalloc(c, cv(n), 0);
      if (p) { uint32_t id; if (!x.validObj(S, p, id)) x.die(S, "bad-free", "realloc of invalid pointer"); uint64_t m = std::min(n, getObj(S, id)->size); x.copyMem(S, r, cv(p), m); x.doFree(c, cv(p), 0); }
      c.ret[0] = r; };
    BI("free") { x.doFree(c, A(0), 0); };
    auto nw = [](Exec& x, CallCtx& c) { Val v = x.doMalloc(c, A(0), 1); if (!c.pushedFrame) c.ret[0] = v; };
    auto nwa = [](Exec& x, CallCtx& c) { Val v = x.doMalloc(c, A(0), 2); if (!c.pushedFrame) c.ret[0] = v; };
    auto dl = [](Exec& x, CallCtx& c) { x.doFree(c, A(0), 1); };
    auto dla = [](Exec& x, CallCtx& c) { x.doFree(c, A(0), 2); };
    for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) bis[n] = nw;
    for (auto n : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"}) bis[n] = nwa;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) bis[n] = dl;
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) bis[n] = dla;
    auto mcpy = [](Exec& x, CallCtx& c) { uint64_t n = x.concretize(S, A(2), 64); x.copyMem(S, A(0), A(1), n); c.ret[0] = A(0); };
    for (auto n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) bis[n] = mcpy;
    auto mset = [](Exec& x, CallCtx& c) { uint64_t n = x.concretize(S, A(2), 64); Val b = A(1); if (b.e) { if (b.e->w > 8) b = fromE(mkExtract(b.e, 0, 8)); } else b.c &= 0xff; x.setMem(S, A(0), b, n); c.ret[0] = A(0); };
    bis["llvm.memset"] = mset; bis["memset"] = mset; bis["llvm.memset.inline"] = mset;
    BI("memcmp") { uint64_t n = x.concretize(S, A(2), 64); c.ret[0] = n ? fromE(x.regionDiff(S, A(0), A(1), n, false)) : cv(0); };
    BI("bcmp") { uint64_t n = x.concretize(S, A(2), 64); c.ret[0] = n ? fromE(x.regionDiff(S, A(0), A(1), n, true)) : cv(0); };
    BI("strcmp") {
      Loc la = x.resolve(S, A(0), 1, false, true), lb = x.resolve(S, A(1), 1, false, true);
      std::vector<std::pair<E, E>> ch; bool ended = false;
      for (uint64_t i = 0; !ended; i++) {
        Obj *oa = x.getObj(S, la.id), *ob = x.getObj(S, lb.id);
        if (la.off + i >= oa->size || lb.off + i >= ob->size) {
          E go = mkTrue(); for (auto& q : ch) go = mkAnd(go, mkAnd(mkEq(q.first, q.second), mkNot(mkEq(q.first, mkConst(0, 8)))));
          if (x.decide(S, fromE(go))) x.die(S, "out-of-bounds", "strcmp reads outside " + x.objDesc(la.off + i >= oa->size ? oa : ob));
          break;
        }
        E a = x.readByteE(S, la.id, la.off + i), b = x.readByteE(S, lb.id, lb.off + i);
        ch.push_back({a, b});
        if ((a->isConst() && !a->c) || (b->isConst() && !b->c)) ended = true;
        else if (a->isConst() && b->isConst() && a->c != b->c) ended = true;
      }
      if (S.nlive > 1) { x.race(S, objBase(la.id) + la.off, ch.size(), false); x.race(S, objBase(lb.id) + lb.off, ch.size(), false); }
      E r = mkConst(0, 32), z8 = mkConst(0, 8);
      for (size_t i = ch.size(); i-- > 0;) { E a = ch[i].first, b = ch[i].second; r = mkIte(mkEq(a, b), mkIte(mkEq(a, z8), mkConst(0, 32), r), mkIte(mkBin(Op::Ult, a, b), mkConst(0xffffffff, 32), mkConst(1, 32))); }
      c.ret[0] = fromE(r); };
    // ---- exceptions
    BI("__cxa_allocate_exception") { uint64_t n = x.concretize(S, A(0), 64); uint32_t id = x.newObj(S, n + 32, OK_Exc, false, "exception"); c.ret[0] = cv(objBase(id) + 32); };
    BI("__cxa_free_exception") {};
    BI("__cxa_throw") { x.doThrow(c, A(0).c, A(1).c); };
    BI("__cxa_begin_catch") { Thread& t = S.th[S.cur]; t.caught.push_back({A(0).c, x.excTi(S, A(0).c)}); c.ret[0] = A(0); };
    BI("__cxa_get_exception_ptr") { c.ret[0] = A(0); };
    BI("__cxa_end_catch") { Thread& t = S.th[S.cur]; if (!t.caught.empty()) t.caught.pop_back(); };
    BI("__cxa_rethrow") { Thread& t = S.th[S.cur]; if (t.caught.empty()) x.die(S, "terminate", "rethrow without exception"); Exc e = t.caught.back(); x.doThrow(c, e.obj, e.ti); };
    BI("llvm.eh.typeid.for") { c.ret[0] = cv(x.typeIdFor(A(0).c)); };
    BI("_ZSt9terminatev") { x.die(S, "terminate", "std::terminate called"); };
    BI("__clang_call_terminate") { x.die(S, "terminate", "exception escaped a noexcept function"); };
    BI("abort") { x.die(S, "abort", "abort() called"); };
    BI("exit") { x.die(S, "exit", "exit() called"); };
    BI("__cxa_pure_virtual") { x.die(S, "abort", "pure virtual call"); };
    BI("__assert_fail") { x.die(S, "assert-fail", "assert(" + x.readCStr(S, A(0)) + ") failed"); };
    BI("llvm.trap") { x.die(S, "trap", "trap"); };
    BI("__cxa_atexit") { c.ret[0] = cv(0); };
    BI("__cxa_thread_atexit") { c.ret[0] = cv(0); };
    BI("atexit") { c.ret[0] = cv(0); };
    BI("__cxa_guard_acquire") {
      Val v = x.load(S, A(0), 8); uint64_t b = x.concretize(S, v, 8); c.ret[0] = cv(b == 0); };
    BI("__cxa_guard_release") { x.store(S, A(0), cv(1), 8); if (S.th.size() > 1) x.atomicHB(S, A(0).c, true, true); };
    BI("__cxa_guard_abort") {};
    // ---- intrinsics
    auto mm = [](Exec& x, CallCtx& c, Op op, bool mx) { unsigned n = c.ci.retn; for (unsigned i = 0; i < n; i++) { unsigned w = c.ci.rets[i].w; E a = toE(A(i), w), b = toE(A(i + n), w); E lt = mkBin(op, a, b), gt = mkBin(op, b, a), nl = mkNot(lt), ng = mkNot(gt); int le = -1; for (E p : x.cur->pc) { if (p == lt || p == ng) { le = 1; break; } if (p == gt || p == nl) { le = 0; break; } } c.ret[i] = fromE(le >= 0 ? (mx == (le == 1) ? b : a) : mx ? mkIte(lt, b, a) : mkIte(lt, a, b)); } };
    static auto mmf = mm;
    BI("llvm.umax") { mmf(x, c, Op::Ult, true); };
    BI("llvm.umin") { mmf(x, c, Op::Ult, false); };
    BI("llvm.smax") { mmf(x, c, Op::Slt, true); };
    BI("llvm.smin") { mmf(x, c, Op::Slt, false); };
    BI("llvm.abs") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w); c.ret[0] = fromE(mkIte(mkBin(Op::Slt, a, mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), a), a)); };
    BI("llvm.bswap") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(a, 8 * i, 8); r = r ? mkConcat(r, b) : b; } c.ret[0] = fromE(r); };
    BI("llvm.ctlz") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w); E r = mkConst(w, w); unsigned l = 0, h = 0; while (h < w && (a->hi >> h)) h++; while (l < w && (a->lo >> l) > 1) l++; for (unsigned i = l; i < h; i++) r = i == l && a->lo ? mkConst(w - 1 - i, w) : mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); c.ret[0] = fromE(r); };
    BI("llvm.cttz") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w); E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); c.ret[0] = fromE(r); };
    BI("llvm.ctpop") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w); E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(a, i, 1), w)); c.ret[0] = fromE(r); };
    auto fsh = [](CallCtx& c, bool left) {
      unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), b = toE(A(1), w), s = toE(A(2), w);
      if (w > 64) throw EngineError{"fsh width"};
      E cat = mkConcat(a, b); E k = mkZExt(mkBin(Op::URem, s, mkConst(w, w)), 2 * w);
      E r = left ? mkExtract(mkBin(Op::Shl, cat, k), w, w) : mkExtract(mkBin(Op::LShr, cat, k), 0, w);
      c.ret[0] = fromE(r); };
    static auto fshf = fsh;
    BI("llvm.fshl") { fshf(c, true); };
    BI("llvm.fshr") { fshf(c, false); };
    auto ovf = [](CallCtx& c, Op op, bool sg) {
      unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), b = toE(A(1), w);
      E r = mkBin(op, a, b); c.ret[0] = fromE(r);
      unsigned W2 = op == Op::Mul ? 2 * w : w + 1;
      if (op == Op::Mul && a->isConst()) std::swap(a, b);
      if (op == Op::Mul && b->isConst() && b->c != 0 && (!sg || !(b->c >> (w - 1)))) {   // a constant factor bounds the other one
        u128 k = b->c, hi = sg ? (maskW(w) >> 1) / k : maskW(w) / k;
        E big = sg ? mkBin(Op::Slt, mkConst(hi, w), a) : mkBin(Op::Ult, mkConst(hi, w), a);
        if (sg) big = mkBin(Op::Or, big, mkBin(Op::Slt, a, mkConst(0 - ((u128)1 << (w - 1)) / k, w)));
        c.ret[1] = fromE(big); return;
      }
      if (W2 > 128) throw EngineError{"ovf width"};
      E xa = sg ? mkSExt(a, W2) : mkZExt(a, W2), xb = sg ? mkSExt(b, W2) : mkZExt(b, W2);
      E full = mkBin(op, xa, xb);
      if (!sg && op == Op::Sub) c.ret[1] = fromE(mkBin(Op::Ult, a, b));
      else if (!sg && op == Op::Add) c.ret[1] = fromE(mkBin(Op::Ult, r, a));
      else c.ret[1] = fromE(mkNot(mkEq(full, sg ? mkSExt(r, W2) : mkZExt(r, W2)))); };
    static auto ovff = ovf;
    BI("llvm.uadd.with.overflow") { ovff(c, Op::Add, false); };
    BI("llvm.sadd.with.overflow") { ovff(c, Op::Add, true); };
    BI("llvm.usub.with.overflow") { ovff(c, Op::Sub, false); };
    BI("llvm.ssub.with.overflow") { ovff(c, Op::Sub, true); };
    BI("llvm.umul.with.overflow") { ovff(c, Op::Mul, false); };
    BI("llvm.smul.with.overflow") { ovff(c, Op::Mul, true); };
    BI("llvm.usub.sat") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), b = toE(A(1), w); c.ret[0] = fromE(mkIte(mkBin(Op::Ult, a, b), mkConst(0, w), mkBin(Op::Sub, a, b))); };
    BI("llvm.uadd.sat") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), b = toE(A(1), w); E r = mkBin(Op::Add, a, b); c.ret[0] = fromE(mkIte(mkBin(Op::Ult, r, a), mkConst(maskW(w), w), r)); };
    auto ssat = [](auto& c, E a, E b, E r, E other) {   // signed saturation: overflow iff a and `other` agree in sign and r does not
      unsigned w = c.ci.rets[0].w; E zero = mkConst(0, w);
      E sa = mkBin(Op::Slt, a, zero), so = mkBin(Op::Slt, other, zero), sr = mkBin(Op::Slt, r, zero);
      E ov = mkBin(Op::And, mkBin(Op::Eq, sa, so), mkBin(Op::Xor, sr, sa));
      c.ret[0] = fromE(mkIte(ov, mkIte(sa, mkConst(1ull << (w - 1), w), mkConst((1ull << (w - 1)) - 1, w)), r));
    };
    static auto ssatf = ssat;
    BI("llvm.sadd.sat") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), b = toE(A(1), w); ssatf(c, a, b, mkBin(Op::Add, a, b), b); };
    BI("llvm.ssub.sat") { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), b = toE(A(1), w); ssatf(c, a, b, mkBin(Op::Sub, a, b), mkBin(Op::Xor, b, mkConst(maskW(w), w))); };
    BI("llvm.expect") { c.ret[0] = A(0); };
    BI("llvm.is.constant") { c.ret[0] = cv(0); };
    BI("llvm.objectsize") { c.ret[0] = cv(~0ull); };
    BI("llvm.threadlocal.address") { c.ret[0] = A(0); };
    BI("llvm.stacksave") { c.ret[0] = cv(0); };
    BI("llvm.stackrestore") {};
    BI("llvm.launder.invariant.group") { c.ret[0] = A(0); };
    BI("llvm.strip.invariant.group") { c.ret[0] = A(0); };
    BI("llvm.ptrmask") { c.ret[0] = fromE(mkBin(Op::And, toE(A(0), 64), toE(A(1), 64))); };
    BI("llvm.fabs") { unsigned n = c.ci.retn; for (unsigned i = 0; i < n; i++) { unsigned w = c.ci.rets[i].w; c.ret[i] = fromE(mkBin(Op::And, toE(A(i), w), mkConst(maskW(w - 1), w))); } };
    bis["fabs"] = bis["llvm.fabs"];
    BI("llvm.copysign") { unsigned w = c.ci.rets[0].w; E sg = mkExtract(toE(A(1), w), w - 1, 1); c.ret[0] = fromE(mkConcat(sg, mkExtract(toE(A(0), w), 0, w - 1))); };
    auto rnd = [](CallCtx& c, unsigned rm) { unsigned w = c.ci.rets[0].w; c.ret[0] = fromE(mkF(Op::FRnd, toE(A(0), w), nullptr, w, rm)); };
    static auto rndf = rnd;
    for (auto n : {"llvm.floor", "floor", "floorf"}) BI(n) { rndf(c, 3); };
    for (auto n : {"llvm.ceil", "ceil", "ceilf"}) BI(n) { rndf(c, 2); };
    for (auto n : {"llvm.trunc", "trunc", "truncf"}) BI(n) { rndf(c, 4); };
    for (auto n : {"llvm.round", "round", "roundf"}) BI(n) { rndf(c, 1); };
    for (auto n : {"llvm.rint", "llvm.nearbyint", "llvm.roundeven", "rint", "nearbyint"}) BI(n) { rndf(c, 0); };
    for (auto n : {"llvm.lround", "lround", "llround", "llvm.llround"}) BI(n) { unsigned w = argW(c, 0); E r = mkF(Op::FRnd, toE(A(0), w), nullptr, w, 1); c.ret[0] = fromE(mkF(Op::FToSI, r, nullptr, c.ci.rets[0].w)); };
    for (auto n : {"llvm.sqrt", "sqrt"}) BI(n) { unsigned w = c.ci.rets[0].w; c.ret[0] = fromE(mkF(Op::FSqrt, toE(A(0), w), nullptr, w)); };
    BI("llvm.fmuladd") { unsigned w = c.ci.rets[0].w; E m = mkF(Op::FMul, toE(A(0), w), toE(A(1), w), w); c.ret[0] = fromE(mkF(Op::FAdd, m, toE(A(2), w), w)); };
    BI("fmod") { unsigned w = 64; c.ret[0] = fromE(mkF(Op::FRem, toE(A(0), w), toE(A(1), w), w)); };
    auto fmm = [](CallCtx& c, bool mx) { unsigned w = c.ci.rets[0].w; E a = toE(A(0), w), b = toE(A(1), w); E nanA = mkNot(mkF(Op::FEq, a, a, 1)), nanB = mkNot(mkF(Op::FEq, b, b, 1));
      E lt = mkF(Op::FLt, a, b, 1); E r = mx ? mkIte(lt, b, a) : mkIte(lt, a, b); c.ret[0] = fromE(mkIte(nanA, b, mkIte(nanB, a, r))); };
    static auto fmmf = fmm;
    for (auto n : {"llvm.maxnum", "fmax", "fmaxf"}) BI(n) { fmmf(c, true); };
    for (auto n : {"llvm.minnum", "fmin", "fminf"}) BI(n) { fmmf(c, false); };
    BI("llvm.is.fpclass") {
      unsigned w = argW(c, 0); E a = toE(A(0), w); uint64_t m = A(1).c; unsigned mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8;
      E man = mkExtract(a, 0, mb), ex = mkExtract(a, mb, eb), sg = mkExtract(a, w - 1, 1);
      E em = mkEq(ex, mkConst(maskW(eb), eb)), e0 = mkEq(ex, mkConst(0, eb)), m0 = mkEq(man, mkConst(0, mb)), q = mkExtract(man, mb - 1, 1);
      E nm = mkAnd(mkNot(em), mkNot(e0)), pos = mkNot(sg); E r = mkFalse();
      if (m & 1) r = mkOr(r, mkAnd(mkAnd(em, mkNot(m0)), mkNot(q)));
      if (m & 2) r = mkOr(r, mkAnd(mkAnd(em, mkNot(m0)), q));
      if (m & 4) r = mkOr(r, mkAnd(mkAnd(em, m0), sg));
      if (m & 8) r = mkOr(r, mkAnd(nm, sg));
      if (m & 16) r = mkOr(r, mkAnd(mkAnd(e0, mkNot(m0)), sg));
      if (m & 32) r = mkOr(r, mkAnd(mkAnd(e0, m0), sg));
      if (m & 64) r = mkOr(r, mkAnd(mkAnd(e0, m0), pos));
      if (m & 128) r = mkOr(r, mkAnd(mkAnd(e0, mkNot(m0)), pos));
      if (m & 256) r = mkOr(r, mkAnd(nm, pos));
      if (m & 512) r = mkOr(r, mkAnd(mkAnd(em, m0), pos));
      c.ret[0] = fromE(r); };
    auto red = [](CallCtx& c, Op op) { unsigned w = c.ci.rets[0].w; E r = toE(A(0), w); for (size_t i = 1; i < c.args.size(); i++) r = mkBin(op, r, toE(A(i), w)); c.ret[0] = fromE(r); };
    static auto redf = red;
    BI("llvm.vector.reduce.or") { redf(c, Op::Or); };
    BI("llvm.vector.reduce.and") { redf(c, Op::And); };
    BI("llvm.vector.reduce.add") { redf(c, Op::Add); };
    BI("llvm.vector.reduce.xor") { redf(c, Op::Xor); };
    // ---- varargs (x86-64 va_list: everything in the overflow area)
    BI("llvm.va_start") {
      Frame& f = S.th[S.cur].frames.back();
      uint32_t id = x.newObj(S, f.va.size() * 8 + 8, OK_Stack, true, "varargs");
      for (size_t i = 0; i < f.va.size(); i++) x.storeAt(S, id, i * 8, f.va[i].e ? fromE(mkZExt(f.va[i].e, 64)) : f.va[i], 64);
      S.th[S.cur].frames.back().allocas.push_back(id);
      x.store(S, A(0), cv(48), 32); x.store(S, x.padd(A(0), 4), cv(304), 32); x.store(S, x.padd(A(0), 8), cv(objBase(id)), 64); x.store(S, x.padd(A(0), 16), cv(0), 64); };
    BI("llvm.va_end") {};
    BI("llvm.va_copy") { x.copyMem(S, A(0), A(1), 24); };
    // ---- symbolic API
    BI("sym_bytes") { // (ptr, n, name)
      uint64_t n = A(1).c; std::string nm = x.readCStr(S, A(2)); std::vector<E> b;
      Loc l = x.resolve(S, A(0), n, true, true);
      for (uint64_t i = 0; i < n; i++) { E v = x.newVar(S, nm + "[" + std::to_string(i) + "]", 8); b.push_back(v); x.storeAt(S, l.id, l.off + i, fromE(v), 8); }
      x.addInput(S, nm, b); };
    BI("sym_u64") { std::string nm = x.readCStr(S, A(0)); E v = x.newVar(S, nm, 64); std::vector<E> b; for (int i = 0; i < 8; i++) b.push_back(mkExtract(v, 8 * i, 8)); x.addInput(S, nm, b); c.ret[0] = fromE(v); };
    BI("sym_u32") { std::string nm = x.readCStr(S, A(0)); E v = x.newVar(S, nm, 32); std::vector<E> b; for (int i = 0; i < 4; i++) b.push_back(mkExtract(v, 8 * i, 8)); x.addInput(S, nm, b); c.ret[0] = fromE(v); };
    BI("sym_u8") { std::string nm = x.readCStr(S, A(0)); E v = x.newVar(S, nm, 8); x.addInput(S, nm, {v}); c.ret[0] = fromE(v); };
    BI("sym_range") { // (name, lo, hi) inclusive, as 64 bit
      std::string nm = x.readCStr(S, A(0)); if (A(1).e || A(2).e) throw EngineError{"sym_range with symbolic bounds"};
      uint64_t lo = A(1).c, hi = A(2).c, r = hi - lo; unsigned w = 1; while (w < 64 && (r >> w)) w++;
      E v = x.newVar(S, nm, w); E full = mkBin(Op::Add, mkZExt(v, 64), mkConst(lo, 64));
      std::vector<E> b; for (int i = 0; i < 8; i++) b.push_back(mkExtract(full, 8 * i, 8)); x.addInput(S, nm, b);
      if (w < 64 && r != (uint64_t)maskW(w)) x.addPC(S, mkBin(Op::Ule, v, mkConst(r, w)));
      c.ret[0] = fromE(full); };
    BI("sym_assume") {
      Val v = A(0);
      unsigned w = argW(c, 0);
      E e = mkNot(mkEq(toE(v, w), mkConst(0, w)));
      if (e->isConst()) { if (!e->c) { x.pathsAssumed++; throw PathEnd{"assume"}; } return; }
      if (!evalExpr(e, *S.model)) { ModelP nm; SR r = solveCheck(S.pc, e, *S.model, nm); if (r != SR::Sat) { if (r == SR::Unknown) x.inconclusive++; x.pathsAssumed++; throw PathEnd{"assume"}; } S.model = nm; }
      x.addPC(S, e); };
    BI("sym_assert") { // (cond, msg)
      unsigned w = argW(c, 0); E e = mkNot(mkEq(toE(A(0), w), mkConst(0, w)));
      std::string msg = x.readCStr(S, A(1)); x.asserts++; x.assertMsgs[msg]++;
      if (e->isConst()) { if (!e->c) x.die(S, "assert", msg); return; }
      ModelP nm; E ne = mkNot(e);
      if (!evalExpr(e, *S.model)) { x.violate(S, "assert", msg, false, nullptr); }
      else { SR r = solveCheck(S.pc, ne, *S.model, nm, true); if (r == SR::Unsat) { return; } if (r == SR::Unknown) { x.inconclusive++; return; } x.violate(S, "assert", msg, false, nm.get()); }
      // continue on the passing side
      if (!evalExpr(e, *S.model)) { SR r = solveCheck(S.pc, e, *S.model, nm); if (r != SR::Sat) throw PathEnd{"violation"}; S.model = nm; }
      x.addPC(S, e); };
    BI("sym_reach") { x.reach[x.readCStr(S, A(0))]++; };
    BI("sym_param") { std::string k = x.readCStr(S, A(0)); auto it = x.params.find(k); c.ret[0] = it != x.params.end() ? cv((uint64_t)it->second) : A(1); };
    BI("sym_concretize") { c.ret[0] = cv(x.concretize(S, A(0), 64)); };
    BI("sym_is_symbolic") { c.ret[0] = cv(A(0).e != nullptr); };
    BI("sym_is_concrete_run") { c.ret[0] = cv(0); };
    BI("sym_observe") { std::string nm = x.readCStr(S, A(0)); uint64_t n = x.concretize(S, A(2), 64); std::vector<E> b; if (n) { Loc l = x.resolve(S, A(1), n, false, true); for (uint64_t i = 0; i < n; i++) b.push_back(x.readByteE(S, l.id, l.off + i)); } S.obs.push_back({nm, b}); };
    BI("sym_observe_u64") { std::string nm = x.readCStr(S, A(0)); std::vector<E> b; E v = toE(A(1), 64); for (int i = 0; i < 8; i++) b.push_back(mkExtract(v, 8 * i, 8)); S.obs.push_back({nm, b}); };
    BI("sym_heap_live") { c.ret[0] = cv((uint64_t)S.heapLive); };
    BI("sym_fail") { x.die(S, "assert", x.readCStr(S, A(0))); };
    BI("sym_unmodelled") { throw EngineError{"unmodelled: " + x.readCStr(S, A(0))}; };
    BI("sym_print") { fprintf(stderr, "[print] %s = %s\n", x.readCStr(S, A(0)).c_str(), A(1).e ? exprStr(A(1).e, 5).c_str() : std::to_string(A(1).c).c_str()); };
    BI("sym_and") { c.ret[0] = fromE(mkZExt(mkAnd(mkNot(mkEq(toE(A(0), 32), mkConst(0, 32))), mkNot(mkEq(toE(A(1), 32), mkConst(0, 32)))), 32)); };
    BI("sym_or") { c.ret[0] = fromE(mkZExt(mkOr(mkNot(mkEq(toE(A(0), 32), mkConst(0, 32))), mkNot(mkEq(toE(A(1), 32), mkConst(0, 32)))), 32)); };
    BI("sym_ite64") { c.ret[0] = fromE(mkIte(mkNot(mkEq(toE(A(0), 32), mkConst(0, 32))), toE(A(1), 64), toE(A(2), 64))); };
    // ---- threads
    BI("sym_thread") { // (fn, arg) -> tid
      if (S.th.size() >= 6) throw EngineError{"too many threads"};
      uint32_t id; x.validObj(S, A(0).c, id); FuncInfo* f = x.objFunc[id];
      unsigned parent = S.cur; S.th.emplace_back(); unsigned tid = S.th.size() - 1;
      S.th[parent].vc.c[parent]++;
      S.th[tid].vc = S.th[parent].vc; S.th[tid].vc.c[tid] = 1; S.th[parent].vc.c[parent]++;
      S.nlive++;
      S.cur = tid; x.pushCall(S, f, {A(1)}, nullptr); S.cur = parent;
      c.ret[0] = cv(tid); };
    BI("sym_join_all") {
      Thread& t = S.th[S.cur];
      t.st = T_JoinAll;
      if (!x.threadEnabled(S, S.cur)) { c.pushedFrame = true; x.switchAway(S); return; }
      t.st = T_Run;
      for (auto& o : S.th) t.vc.join(o.vc);
      S.shadow.clear(); S.nlive = 1; };
    BI("sym_yield") { x.schedPoint(S); S.th[S.cur].schedDone = false; };
    BI("sym_atomic_begin") { S.atomicDepth++; };
    BI("sym_atomic_end") { S.atomicDepth--; };
    BI("sym_mutex_lock") {
      uint64_t a = x.concretize(S, A(0), 64);
      Loc l = x.resolve(S, cv(a), 1, true); (void)l;
      if (S.th[S.cur].st == T_Run) x.schedPoint(S);
      Thread& t = S.th[S.cur]; MutexSt& m = S.mtx[a];
      if (m.owner >= 0 || m.readers) {
        if (m.owner == (int)S.cur) x.die(S, "deadlock", "mutex locked twice by the same thread");
        t.st = T_Mutex; t.waitAddr = a; t.waitShared = false; c.pushedFrame = true; x.switchAway(S); return;
      }
      t.st = T_Run; t.schedDone = false; m.owner = S.cur; t.vc.join(m.vc); t.vc.join(m.rvc); };
    BI("sym_mutex_trylock") {
      uint64_t a = x.concretize(S, A(0), 64); x.schedPoint(S); Thread& t = S.th[S.cur]; MutexSt& m = S.mtx[a]; t.schedDone = false;
      if (m.owner >= 0 || m.readers) { c.ret[0] = cv(0); return; }
      m.owner = S.cur; t.vc.join(m.vc); t.vc.join(m.rvc); c.ret[0] = cv(1); };
    BI("sym_mutex_unlock") {
      uint64_t a = x.concretize(S, A(0), 64); MutexSt& m = S.mtx[a];
      if (m.owner != (int)S.cur) x.die(S, "mutex", "unlock of a mutex not held by this thread");
      Thread& t = S.th[S.cur]; m.owner = -1; m.vc = t.vc; t.vc.c[S.cur]++; };
    BI("sym_mutex_rlock") {
      uint64_t a = x.concretize(S, A(0), 64);
      if (S.th[S.cur].st == T_Run) x.schedPoint(S);
      Thread& t = S.th[S.cur]; MutexSt& m = S.mtx[a];
      if (m.owner >= 0) { if (m.owner == (int)S.cur) x.die(S, "deadlock", "mutex locked twice by the same thread"); t.st = T_Mutex; t.waitAddr = a; t.waitShared = true; c.pushedFrame = true; x.switchAway(S); return; }
      t.st = T_Run; t.schedDone = false; m.readers++; t.vc.join(m.vc); };
    BI("sym_mutex_runlock") { uint64_t a = x.concretize(S, A(0), 64); MutexSt& m = S.mtx[a]; Thread& t = S.th[S.cur]; if (m.readers > 0) m.readers--; m.rvc.join(t.vc); t.vc.c[S.cur]++; };
    BI("sym_mutex_destroy") { uint64_t a = A(0).c; auto it = S.mtx.find(a); if (it != S.mtx.end()) { if (it->second.owner >= 0) x.die(S, "mutex", "destroying a held mutex"); S.mtx.erase(it); } };
    // block until another thread calls sym_cond_signal on the address; releases/reacquires nothing
    BI("sym_cond_block") { uint64_t a = A(0).c; Thread& t = S.th[S.cur]; if (t.st == T_Run) { t.st = T_Cond; t.condSignaled = false; t.waitAddr = a; c.pushedFrame = true; x.switchAway(S); return; } t.st = T_Run; t.condSignaled = false; };
    BI("sym_cond_signal") { uint64_t a = A(0).c; for (auto& t : S.th) if (t.st == T_Cond && t.waitAddr == a) t.condSignaled = true; };
    BI("sym_tid") { c.ret[0] = cv(S.cur); };
#undef BI
#undef S
#undef A
  }
