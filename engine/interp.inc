  // ---------------------------------------------------------------- interpretation
  static inline const Val& rd(Frame& f, int o) { return o >= 0 ? f.regs[o] : f.f->consts[~o]; }
  void takeEdge(Frame& f, const Edge* e) {
    if (!e->moves.empty()) {
      if (e->moves.size() == 1) f.regs[e->moves[0].first] = rd(f, e->moves[0].second);
      else {
        static std::vector<Val> tmp; tmp.clear();
        for (auto& m : e->moves) tmp.push_back(rd(f, m.second));
        for (size_t i = 0; i < tmp.size(); i++) f.regs[e->moves[i].first] = tmp[i];
      }
    }
    f.pc = e->target; f.bb = e->bb; f.f->bbHit[e->bb] = 1;
  }
  Val binop(State& s, Op op, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
      uint64_t m = (uint64_t)maskW(w);
      switch (op) {
        case Op::Add: return cv((a.c + b.c) & m);
        case Op::Sub: return cv((a.c - b.c) & m);
        case Op::Mul: return cv((a.c * b.c) & m);
        case Op::And: return cv(a.c & b.c);
        case Op::Or: return cv(a.c | b.c);
        case Op::Xor: return cv(a.c ^ b.c);
        case Op::Shl: return cv(b.c >= w ? 0 : (a.c << b.c) & m);
        case Op::LShr: return cv(b.c >= w ? 0 : a.c >> b.c);
        default: break;
      }
    }
    if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
      Val z = !b.e ? cv(b.c == 0) : fromE(mkEq(b.e, mkConst(0, w)));
      if (z.e ? decide(s, z) : z.c) die(s, "div-by-zero", "integer division by zero");
      if ((op == Op::SDiv || op == Op::SRem) && w >= 32) {
        E ov = mkAnd(mkEq(toE(b, w), mkConst(maskW(w), w)), mkEq(toE(a, w), mkConst((u128)1 << (w - 1), w)));
        if (decide(s, fromE(ov))) die(s, "int-overflow", "signed division overflow");
      }
    }
    return fromE(mkBin(op, toE(a, w), toE(b, w)));
  }
  Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
      int64_t x = (int64_t)sextW(a.c, w), y = (int64_t)sextW(b.c, w);
      switch (p) {
        case CmpInst::ICMP_EQ: return cv(a.c == b.c);
        case CmpInst::ICMP_NE: return cv(a.c != b.c);
        case CmpInst::ICMP_ULT: return cv(a.c < b.c);
        case CmpInst::ICMP_ULE: return cv(a.c <= b.c);
        case CmpInst::ICMP_UGT: return cv(a.c > b.c);
        case CmpInst::ICMP_UGE: return cv(a.c >= b.c);
        case CmpInst::ICMP_SLT: return cv(x < y);
        case CmpInst::ICMP_SLE: return cv(x <= y);
        case CmpInst::ICMP_SGT: return cv(x > y);
        case CmpInst::ICMP_SGE: return cv(x >= y);
      }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return fromE(mkEq(x, y));
      case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
      case CmpInst::ICMP_ULT: return fromE(mkBin(Op::Ult, x, y));
      case CmpInst::ICMP_ULE: return fromE(mkBin(Op::Ule, x, y));
      case CmpInst::ICMP_UGT: return fromE(mkBin(Op::Ult, y, x));
      case CmpInst::ICMP_UGE: return fromE(mkBin(Op::Ule, y, x));
      case CmpInst::ICMP_SLT: return fromE(mkBin(Op::Slt, x, y));
      case CmpInst::ICMP_SLE: return fromE(mkBin(Op::Sle, x, y));
      case CmpInst::ICMP_SGT: return fromE(mkBin(Op::Slt, y, x));
      case CmpInst::ICMP_SGE: return fromE(mkBin(Op::Sle, y, x));
    }
    throw EngineError{"icmp"};
  }
  Val fcmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    E x = toE(a, w), y = toE(b, w);
    auto nan = [&](E v) { return mkNot(mkF(Op::FEq, v, v, 1)); };
    auto uno = [&]() { return mkOr(nan(x), nan(y)); };
    E r;
    switch (p) {
      case CmpInst::FCMP_FALSE: return cv(0);
      case CmpInst::FCMP_TRUE: return cv(1);
      case CmpInst::FCMP_OEQ: r = mkF(Op::FEq, x, y, 1); break;
      case CmpInst::FCMP_OGT: r = mkF(Op::FLt, y, x, 1); break;
      case CmpInst::FCMP_OGE: r = mkF(Op::FLe, y, x, 1); break;
      case CmpInst::FCMP_OLT: r = mkF(Op::FLt, x, y, 1); break;
      case CmpInst::FCMP_OLE: r = mkF(Op::FLe, x, y, 1); break;
      case CmpInst::FCMP_ONE: r = mkOr(mkF(Op::FLt, x, y, 1), mkF(Op::FLt, y, x, 1)); break;
      case CmpInst::FCMP_ORD: r = mkNot(uno()); break;
      case CmpInst::FCMP_UNO: r = uno(); break;
      case CmpInst::FCMP_UEQ: r = mkNot(mkOr(mkF(Op::FLt, x, y, 1), mkF(Op::FLt, y, x, 1))); break;
      case CmpInst::FCMP_UGT: r = mkNot(mkF(Op::FLe, x, y, 1)); break;
      case CmpInst::FCMP_UGE: r = mkNot(mkF(Op::FLt, x, y, 1)); break;
      case CmpInst::FCMP_ULT: r = mkNot(mkF(Op::FLe, y, x, 1)); break;
      case CmpInst::FCMP_ULE: r = mkNot(mkF(Op::FLt, y, x, 1)); break;
      case CmpInst::FCMP_UNE: r = mkNot(mkF(Op::FEq, x, y, 1)); break;
      default: throw EngineError{"fcmp"};
    }
    return fromE(r);
  }
  void pushCall(State& s, FuncInfo* f, const std::vector<Val>& args, const Inst* callInst) {
    if (!f->decoded) decode(f);
    Thread& t = s.th[s.cur];
    if (t.frames.size() > 400) die(s, "stack-overflow", "call depth exceeds 400");
    t.frames.emplace_back();
    Frame& fr = t.frames.back();
    fr.f = f; fr.pc = 0; fr.bb = 0; fr.callInst = callInst;
    fr.regs.assign(f->nregs, Val{0, nullptr});
    f->calls++; if (f->nbb) f->bbHit[0] = 1;
    for (size_t i = 0; i < args.size() && i < f->nregs; i++) fr.regs[i] = args[i];
  }
  void popFrame(State& s) {
    Thread& t = s.th[s.cur];
    Frame& f = t.frames.back();
    for (size_t i = f.allocas.size(); i-- > 0;) {
      uint32_t id = f.allocas[i];
      if (s.nlive < 2 && id + 1 == s.nobj) {   // stack discipline: reuse ids at the top
        s.chunks[id >> 6].cow()->o[id & 63] = Ref<Obj>();
        s.nobj--;
      } else { Obj* o = getObjW(s, id); o->freed = true; o->pages.clear(); }
    }
    t.frames.pop_back();
  }
  // deliver an exception: unwind until a landing pad accepts it
  int typeIdFor(uint64_t ti) { auto it = tiId.find(ti); if (it != tiId.end()) return it->second; int k = (int)tiId.size() + 1; tiId[ti] = k; return k; }
  bool derives(const std::string& d, const std::string& b, int depth = 0) {
    if (d == b) return true;
    if (depth > 10) return false;
    auto it = tiBase.find(d);
    if (it == tiBase.end()) return false;
    for (auto& x : it->second) if (derives(x, b, depth + 1)) return true;
    return false;
  }
  void unwind(State& s, Exc ex) {
    Thread& t = s.th[s.cur];
    // phase 1: is there any handler?
    const std::string& tn = tiName[ex.ti];
    for (;;) {
      Frame& f = t.frames.back();
      const Inst& ci = f.f->code[f.pc];
      if (ci.k == K_CALL) {
        CallInfo* c = (CallInfo*)ci.p;
        if (c->invoke) {
          const Inst* lp = &f.f->code[c->unwind->target];
          auto* L = cast<LandingPadInst>(cast<InvokeInst>(c->cb)->getUnwindDest()->getLandingPadInst());
          int sel = L->isCleanup() ? 0 : -1;
          for (unsigned i = 0; i < L->getNumClauses(); i++) {
            if (L->isCatch(i)) {
              auto* ct = L->getClause(i);
              if (ct->isNullValue()) { sel = typeIdFor(0); break; }
              uint64_t a = constAddr(ct);
              if (derives(tn, tiName[a])) { sel = typeIdFor(a); break; }
            }
          }
          if (sel >= 0) {
            takeEdge(f, c->unwind);
            t.inflight = ex;
            // set landing pad result
            int dst = lp->dst;
            f.regs[dst] = cv(ex.obj); f.regs[dst + 1] = cv(sel);
            return;
          }
        }
      }
      if (t.frames.size() == 1) {
        std::string what = dem(tn.substr(0, 4) == "_ZTI" ? tn.substr(4) : tn);
        die(s, "uncaught-exception", "uncaught exception of type " + dem("_Z" + tn.substr(4)) + " (" + tn + ")");
      }
      // keep the frame of the outermost for reporting
      bool anyHandler = false;
      for (size_t i = 0; i + 1 < t.frames.size() && !anyHandler; i++) { const Inst& q = t.frames[i].f->code[t.frames[i].pc]; if (q.k == K_CALL && ((CallInfo*)q.p)->invoke) anyHandler = true; }
      if (!anyHandler) die(s, "uncaught-exception", "uncaught exception of type " + tn.substr(4));
      popFrame(s);
    }
  }
  void doRet(State& s, const Val* rv, uint32_t n) {
    Thread& t = s.th[s.cur];
    static std::vector<Val> tmp; tmp.assign(rv, rv + n);
    popFrame(s);
    if (t.frames.empty()) { threadDone(s); return; }
    Frame& f = t.frames.back();
    const Inst& ci = f.f->code[f.pc];
    CallInfo* c = (CallInfo*)ci.p;
    for (uint32_t i = 0; i < n && i < c->retn; i++) f.regs[ci.dst + i] = tmp[i];
    if (c->invoke) takeEdge(f, c->normal); else f.pc++;
  }
  void threadDone(State& s) {
    Thread& t = s.th[s.cur];
    t.st = T_Done; s.nlive--;
    t.vc.c[s.cur]++;
    if (s.cur == 0) {
      for (auto& x : s.th) if (x.st != T_Done) die(s, "harness", "main finished with running threads");
      throw PathEnd{"done"};
    }
    switchAway(s);
  }
  void finishCall(State& s, Frame& f, const Inst& in, const CallInfo& c, const Val* ret) {
    for (uint32_t i = 0; i < c.retn; i++) f.regs[in.dst + i] = ret[i];
    if (c.invoke) takeEdge(f, c.normal); else f.pc++;
  }
  void doCall(State& s, Frame& f, const Inst& in) {
    CallInfo& c = *(CallInfo*)in.p;
    FuncInfo* callee = c.callee;
    if (!callee) {
      Val fp = rd(f, c.fop);
      uint64_t a = concretize(s, fp, 64);
      uint32_t id;
      if (!validObj(s, a, id) || !objFunc.count(id) || a != objBase(id)) die(s, a < 65536 ? "null-deref" : "wild-call", "call through invalid function pointer");
      callee = objFunc[id];
      if (callee->F->isDeclaration() && !callee->bi) { callee->bi = lookupBuiltin(callee->F); if (!callee->bi) throw EngineError{"unmodelled external function (indirect) " + callee->name}; }
    }
    if (callee->bi) {
      CallCtx cc{s, in, c, {}, {}, false};
      for (auto& a : c.args) for (uint32_t i = 0; i < a.n; i++) cc.args.push_back(rd(f, opAdd(a.op, i)));
      size_t depth = s.th[s.cur].frames.size(); (void)depth;
      callee->bi(*this, cc);
      if (!cc.pushedFrame) finishCall(s, s.th[s.cur].frames.back(), in, c, cc.ret);
      return;
    }
    std::vector<Val> args;
    std::vector<uint32_t> byvals;
    for (size_t k = 0; k < c.args.size(); k++) {
      auto& a = c.args[k];
      if (c.vararg && k >= c.fixedArgs) break;
      if (a.byval) {
        uint32_t id = newObj(s, a.byval, OK_Stack, false, "byval", in.ll);
        copyMem(s, cv(objBase(id)), rd(f, a.op), a.byval);
        byvals.push_back(id);
        args.push_back(cv(objBase(id)));
        continue;
      }
      for (uint32_t i = 0; i < a.n; i++) args.push_back(rd(f, opAdd(a.op, i)));
    }
    std::vector<Val> va; std::vector<std::pair<uint16_t, uint8_t>> vt;
    if (c.vararg) for (size_t k = c.fixedArgs; k < c.args.size(); k++) for (uint32_t i = 0; i < c.args[k].n; i++) {
      va.push_back(rd(f, opAdd(c.args[k].op, i))); vt.push_back({c.args[k].slots[i].w, (uint8_t)c.cb->getArgOperand(k)->getType()->isFloatingPointTy()});
    }
    pushCall(s, callee, args, &in);
    Frame& nf = s.th[s.cur].frames.back();
    nf.allocas = byvals; nf.va = va; nf.vaT = vt;
  }
  void step(State& s) {
    Thread& t = s.th[s.cur];
    Frame& f = t.frames.back();
    const Inst& in = f.f->code[f.pc];
    s.steps++;
    const unsigned self = s.cur;
    switch (in.k) {
      case K_BIN:
        for (uint32_t i = 0; i < in.n; i++) { Val r = binop(s, (Op)in.sub, rd(f, opAdd(in.a, i)), rd(f, opAdd(in.b, i)), in.w); f.regs[in.dst + i] = r; }
        f.pc++; break;
      case K_ICMP:
        for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = icmp(in.sub, rd(f, opAdd(in.a, i)), rd(f, opAdd(in.b, i)), in.w);
        f.pc++; break;
      case K_FBIN:
        for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = fromE(mkF((Op)in.sub, toE(rd(f, opAdd(in.a, i)), in.w), toE(rd(f, opAdd(in.b, i)), in.w), in.w));
        f.pc++; break;
      case K_FCMP:
        for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = fcmp(in.sub, rd(f, opAdd(in.a, i)), rd(f, opAdd(in.b, i)), in.w);
        f.pc++; break;
      case K_FNEG:
        for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = fromE(mkBin(Op::Xor, toE(rd(f, opAdd(in.a, i)), in.w), mkConst((u128)1 << (in.w - 1), in.w)));
        f.pc++; break;
      case K_CAST: {
        if (in.sub == 9999) {
          auto* sl = (const std::vector<SlotT>*)in.p;
          E e = nullptr;
          for (size_t i = 0; i < sl->size(); i++) { E x = toE(rd(f, opAdd(in.a, i)), (*sl)[i].w); e = e ? mkConcat(x, e) : x; }
          for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = fromE(mkExtract(e, i * in.w, in.w));
          f.pc++; break;
        }
        for (uint32_t i = 0; i < in.n; i++) {
          Val v = rd(f, opAdd(in.a, i)); Val r;
          switch (in.sub) {
            case Instruction::Trunc: r = (!v.e && in.w <= 64) ? cv(v.c & (uint64_t)maskW(in.w)) : fromE(mkExtract(toE(v, in.w2), 0, in.w)); break;
            case Instruction::ZExt: r = (!v.e && in.w <= 64) ? v : fromE(mkZExt(toE(v, in.w2), in.w)); break;
            case Instruction::SExt: r = (!v.e && in.w <= 64) ? cv((uint64_t)sextW(v.c, in.w2) & (uint64_t)maskW(in.w)) : fromE(mkSExt(toE(v, in.w2), in.w)); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: r = in.w < in.w2 ? fromE(mkExtract(toE(v, in.w2), 0, in.w)) : fromE(mkZExt(toE(v, in.w2), in.w)); break;
            case Instruction::FPTrunc: case Instruction::FPExt: r = fromE(mkF(Op::FConv, toE(v, in.w2), nullptr, in.w)); break;
            case Instruction::SIToFP: r = fromE(mkF(Op::SIToF, toE(v, in.w2), nullptr, in.w)); break;
            case Instruction::UIToFP: r = fromE(mkF(Op::UIToF, toE(v, in.w2), nullptr, in.w)); break;
            case Instruction::FPToSI: r = fromE(mkF(Op::FToSI, toE(v, in.w2), nullptr, in.w)); break;
            case Instruction::FPToUI: r = fromE(mkF(Op::FToUI, toE(v, in.w2), nullptr, in.w)); break;
            default: throw EngineError{"cast"};
          }
          f.regs[in.dst + i] = r;
        }
        f.pc++; break;
      }
      case K_COPY: for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = rd(f, opAdd(in.a, i)); f.pc++; break;
      case K_LOAD: {
        if (in.sub) schedPointOrStop(s);
        Val p = rd(f, in.a);
        auto& sl = *(std::vector<SlotT>*)in.p;
        if (in.sub && s.nlive > 1) {
          uint64_t a = concretize(s, p, 64); Loc l = resolve(s, cv(a), (in.w + 7) / 8, false);
          raceAtomic(s, a, (in.w + 7) / 8, false);
          atomicHB(s, a, in.sub == 2, false);
          f.regs[in.dst] = loadAt(s, l.id, l.off, in.w); f.pc++; s.th[self].schedDone = false; break;
        }
        if (in.n == 1) { Val v = load(s, p, in.w); f.regs[in.dst] = v; }
        else { std::vector<Val> tmp; for (uint32_t i = 0; i < in.n; i++) tmp.push_back(load(s, padd(p, sl[i].off), sl[i].w)); for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = tmp[i]; }
        f.pc++; break;
      }
      case K_STORE: {
        if (in.sub) { schedPointOrStop(s); }
        Val p = rd(f, in.b);
        auto& sl = *(std::vector<SlotT>*)in.p;
        if (in.sub && s.nlive > 1) {
          uint64_t a = concretize(s, p, 64); Loc l = resolve(s, cv(a), (in.w + 7) / 8, true);
          raceAtomic(s, a, (in.w + 7) / 8, true);
          atomicHB(s, a, false, in.sub == 2);
          storeAt(s, l.id, l.off, rd(f, in.a), in.w); f.pc++; s.th[self].schedDone = false; break;
        }
        for (uint32_t i = 0; i < in.n; i++) store(s, padd(p, sl[i].off), rd(f, opAdd(in.a, i)), sl[i].w);
        f.pc++; break;
      }
      case K_GEP: {
        Val b = rd(f, in.a);
        auto* g = (GepInfo*)in.p;
        uint64_t coff = g->off;
        E se = nullptr;
        for (auto& ix : g->idx) {
          const Val& v = rd(f, ix.first);
          if (!v.e) coff += (uint64_t)sextW(v.c, ix.second.second) * ix.second.first;
          else { E x = mkSExt(v.e, 64); if (ix.second.second > 64) x = mkExtract(v.e, 0, 64); x = mkBin(Op::Mul, x, mkConst(ix.second.first, 64)); se = se ? mkBin(Op::Add, se, x) : x; }
        }
        if (!b.e && !se) f.regs[in.dst] = cv(b.c + coff);
        else { E x = toE(b, 64); if (se) x = mkBin(Op::Add, x, se); f.regs[in.dst] = fromE(mkBin(Op::Add, x, mkConst(coff, 64))); }
        f.pc++; break;
      }
      case K_ALLOCA: {
        uint64_t n = concretize(s, rd(f, in.a), in.w);
        uint32_t id = newObj(s, n * (uint64_t)(uintptr_t)in.p, OK_Stack, false, nullptr, in.ll);
        Frame& ff = s.th[s.cur].frames.back();
        ff.allocas.push_back(id); ff.regs[in.dst] = cv(objBase(id)); ff.pc++; break;
      }
      case K_BR: takeEdge(f, in.e0); break;
      case K_CBR: { const Val& c = rd(f, in.a); bool v = c.e ? decide(s, c) : (c.c & 1); Frame& ff = s.th[s.cur].frames.back(); takeEdge(ff, v ? in.e0 : in.e1); break; }
      case K_SWITCH: {
        const Val v = rd(f, in.a); auto* si = (SwitchInfo*)in.p; auto& es = swEdges[si];
        if (!v.e) { auto it = si->m.find(v.c); takeEdge(f, es[it == si->m.end() ? in.n : it->second]); break; }
        // fork per distinct successor
        for (size_t k = 0; k < es.size(); k++) {
          if (k == in.n) continue;
          E c = mkFalse();
          for (auto& cs : si->cases) if (cs.second == (int)k) c = mkOr(c, mkEq(v.e, mkConst(cs.first, in.w)));
          if (decide(s, fromE(c))) { takeEdge(s.th[s.cur].frames.back(), es[k]); return; }
        }
        takeEdge(s.th[s.cur].frames.back(), es[in.n]); break;
      }
      case K_RET: {
        std::vector<Val> rv; for (uint32_t i = 0; i < in.n; i++) rv.push_back(rd(f, opAdd(in.a, i)));
        doRet(s, rv.data(), in.n); break;
      }
      case K_CALL: doCall(s, f, in); break;
      case K_LPAD: f.pc++; break;
      case K_RESUME: {
        Exc ex = t.inflight; ex.obj = rd(f, in.a).c;
        // the object's typeinfo is recorded with it
        ex.ti = excTi(s, ex.obj);
        popFrame(s);
        if (t.frames.empty()) die0(s, "uncaught-exception", "uncaught exception " + tiName[ex.ti]);
        unwind(s, ex); break;
      }
      case K_SELECT: {
        if (in.w) { // vector condition
          for (uint32_t i = 0; i < in.n; i++) { const Val& c = rd(f, opAdd(in.a, i)); Val a = rd(f, opAdd(in.b, i)), b = rd(f, opAdd(in.c, i)); unsigned w = (*(std::vector<SlotT>*)in.p)[i].w;
            f.regs[in.dst + i] = !c.e ? (c.c ? a : b) : fromE(mkIte(c.e, toE(a, w), toE(b, w))); }
          f.pc++; break;
        }
        Val c = rd(f, in.a);
        if (c.e && in.sub) { Val a = rd(f, in.b), b = rd(f, in.c); if (!(a.e == b.e && a.c == b.c)) { bool v = decide(s, c); c = cv(v); } }
        else if (c.e) { E ne = mkNot(c.e); for (E p : s.pc) { if (p == c.e) { c = cv(1); break; } if (p == ne) { c = cv(0); break; } } }
        Frame& ff = s.th[s.cur].frames.back();
        for (uint32_t i = 0; i < in.n; i++) {
          Val a = rd(ff, opAdd(in.b, i)), b = rd(ff, opAdd(in.c, i)); unsigned w = (*(std::vector<SlotT>*)in.p)[i].w;
          ff.regs[in.dst + i] = !c.e ? (c.c & 1 ? a : b) : fromE(mkIte(c.e, toE(a, w), toE(b, w)));
        }
        ff.pc++; break;
      }
      case K_INSV:
        for (uint32_t i = 0; i < in.n; i++) { Val v = (i >= in.w && i < (uint32_t)in.w + in.w2) ? rd(f, opAdd(in.b, i - in.w)) : rd(f, opAdd(in.a, i)); f.regs[in.dst + i] = v; }
        f.pc++; break;
      case K_XELT: { uint64_t i = concretize(s, rd(f, in.b), 64); Frame& ff = s.th[s.cur].frames.back(); if (i >= in.n) throw EngineError{"extractelement index"}; ff.regs[in.dst] = rd(ff, opAdd(in.a, i)); ff.pc++; break; }
      case K_IELT: { uint64_t x = concretize(s, rd(f, in.c), 64); Frame& ff = s.th[s.cur].frames.back(); for (uint32_t i = 0; i < in.n; i++) ff.regs[in.dst + i] = i == x ? rd(ff, in.b) : rd(ff, opAdd(in.a, i)); ff.pc++; break; }
      case K_SHUF: { auto& m = *(std::vector<int>*)in.p; std::vector<Val> r; for (uint32_t i = 0; i < in.n; i++) { int k = m[i]; r.push_back(k < 0 ? cv(0) : k < in.w ? rd(f, opAdd(in.a, k)) : rd(f, opAdd(in.b, k - in.w))); } for (uint32_t i = 0; i < in.n; i++) f.regs[in.dst + i] = r[i]; f.pc++; break; }
      case K_UNREACH: die(s, "unreachable", "reached code the compiler proved impossible (undefined behaviour)");
      case K_FENCE: f.pc++; break;
      case K_RMW: {
        schedPointOrStop(s);
        Val p = rd(f, in.a), v = rd(f, in.b);
        uint64_t a = concretize(s, p, 64);
        Loc l = resolve(s, cv(a), (in.w + 7) / 8, true);
        if (s.nlive > 1) { raceAtomic(s, a, (in.w + 7) / 8, true); atomicHB(s, a, true, true); }
        Val old = loadAt(s, l.id, l.off, in.w), nv;
        E x = toE(old, in.w), y = toE(v, in.w);
        switch (in.sub) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = fromE(mkBin(Op::Add, x, y)); break;
          case AtomicRMWInst::Sub: nv = fromE(mkBin(Op::Sub, x, y)); break;
          case AtomicRMWInst::And: nv = fromE(mkBin(Op::And, x, y)); break;
          case AtomicRMWInst::Or: nv = fromE(mkBin(Op::Or, x, y)); break;
          case AtomicRMWInst::Xor: nv = fromE(mkBin(Op::Xor, x, y)); break;
          case AtomicRMWInst::Max: nv = fromE(mkIte(mkBin(Op::Slt, x, y), y, x)); break;
          case AtomicRMWInst::Min: nv = fromE(mkIte(mkBin(Op::Slt, y, x), y, x)); break;
          case AtomicRMWInst::UMax: nv = fromE(mkIte(mkBin(Op::Ult, x, y), y, x)); break;
          case AtomicRMWInst::UMin: nv = fromE(mkIte(mkBin(Op::Ult, y, x), y, x)); break;
          case AtomicRMWInst::FAdd: nv = fromE(mkF(Op::FAdd, x, y, in.w)); break;
          case AtomicRMWInst::FSub: nv = fromE(mkF(Op::FSub, x, y, in.w)); break;
          default: throw EngineError{"atomicrmw op"};
        }
        storeAt(s, l.id, l.off, nv, in.w);
        Frame& ff = s.th[s.cur].frames.back(); ff.regs[in.dst] = old; ff.pc++; s.th[self].schedDone = false; break;
      }
      case K_CMPX: {
        schedPointOrStop(s);
        uint64_t a = concretize(s, rd(f, in.a), 64);
        Loc l = resolve(s, cv(a), (in.w + 7) / 8, true);
        Val old = loadAt(s, l.id, l.off, in.w);
        bool eq = decide(s, fromE(mkEq(toE(old, in.w), toE(rd(f, in.b), in.w))));
        if (s.nlive > 1) { raceAtomic(s, a, (in.w + 7) / 8, eq); atomicHB(s, a, true, eq); }
        if (eq) storeAt(s, l.id, l.off, rd(s.th[s.cur].frames.back(), in.c), in.w);
        Frame& ff = s.th[s.cur].frames.back(); ff.regs[in.dst] = old; ff.regs[in.dst + 1] = cv(eq); ff.pc++; s.th[self].schedDone = false; break;
      }
      case K_UNSUP: throw EngineError{*(std::string*)in.p + " at " + locOf(in.ll)};
      default: throw EngineError{"bad inst"};
    }
  }
  [[noreturn]] void die0(State& s, const std::string& k, const std::string& m) {
    std::string key = k + "|" + m; violCount[key]++;
    if (!viols.count(key)) noteViol();
    if (!viols.count(key)) viols[key] = "{\"kind\":" + jstr(k) + ",\"msg\":" + jstr(m) + ",\"loc\":\"?\",\"stack\":[],\"inputs\":" + inputsJson(s, *s.model) + ",\"sched\":" + jstr(s.sched) + ",\"obs\":[]}";
    throw PathEnd{"violation"};
  }
  Val padd(const Val& p, uint64_t o) { return !p.e ? cv(p.c + o) : fromE(mkBin(Op::Add, p.e, mkConst(o, 64))); }
  std::map<uint64_t, uint64_t> dummy;
  uint64_t excTi(State& s, uint64_t obj) { uint32_t id; if (!validObj(s, obj, id)) throw EngineError{"resume of foreign exception"}; return loadAt(s, id, 0, 64).c; }
  void schedPointOrStop(State& s) { schedPoint(s); }
  // atomic accesses race only with plain accesses
  void raceAtomic(State& s, uint64_t a, uint64_t n, bool write) {
    Thread& t = s.th[s.cur];
    for (uint64_t i = 0; i < n; i++) {
      auto it = s.shadow.find(a + i);
      if (it == s.shadow.end()) continue;
      Shadow& sh = it->second;
      if (sh.wt != 0xff && sh.wt != s.cur && sh.wc > t.vc.c[sh.wt]) die(s, "data-race", "atomic access races with plain write at " + locOf(sh.wi));
      if (write) for (unsigned k = 0; k < s.th.size() && k < 6; k++) if (k != s.cur && sh.rd.c[k] > t.vc.c[k]) die(s, "data-race", "atomic write races with plain read at " + locOf(sh.ri));
    }
  }
