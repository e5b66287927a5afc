  // ---------------------------------------------------------------- decoding (member functions of Exec)
  void flatten(Type* t, uint64_t off, std::vector<SlotT>& out) {
    if (t->isIntegerTy()) { out.push_back({(uint16_t)t->getIntegerBitWidth(), (uint32_t)off}); return; }
    if (t->isPointerTy()) { out.push_back({64, (uint32_t)off}); return; }
    if (t->isFloatTy()) { out.push_back({32, (uint32_t)off}); return; }
    if (t->isDoubleTy()) { out.push_back({64, (uint32_t)off}); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeSizeInBits(vt->getElementType()) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out); return; }
    if (t->isVoidTy()) return;
    std::string s; raw_string_ostream os(s); t->print(os);
    throw EngineError{"unsupported type " + os.str()};
  }
  std::map<Type*, std::vector<SlotT>> flatCache;
  const std::vector<SlotT>& flat(Type* t) {
    auto it = flatCache.find(t);
    if (it != flatCache.end()) return it->second;
    std::vector<SlotT> v; flatten(t, 0, v);
    return flatCache[t] = v;
  }
  unsigned slotIndex(Type* t, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += flat(st->getElementType(k)).size(); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); r += i * flat(at->getElementType()).size(); t = at->getElementType(); }
    }
    return r;
  }
  uint64_t constAddr(const Constant* c) {
    std::vector<Val> v; constVals(c, v);
    if (v.size() != 1 || v[0].e) throw EngineError{"non-simple constant"};
    return v[0].c;
  }
  uint64_t constGep(const GEPOperator* g) {
    uint64_t base = constAddr(cast<Constant>(g->getPointerOperand()));
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) throw EngineError{"constant gep"};
    return base + off.getSExtValue();
  }
  void constVals(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto& s : flat(t)) { if (s.w > 64) out.push_back({0, mkConst(0, s.w)}); else out.push_back(cv(0)); } return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      unsigned w = ci->getBitWidth();
      if (w <= 64) out.push_back(cv(ci->getZExtValue()));
      else if (w <= 128) { u128 v = ((u128)ci->getValue().getRawData()[1] << 64) | ci->getValue().getRawData()[0]; out.push_back({0, mkConst(v, w)}); }
      else throw EngineError{"wide int constant"};
      return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { if (!t->isFloatTy() && !t->isDoubleTy()) throw EngineError{"fp type"}; out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { out.push_back(cv(constAddr(ga->getAliasee()))); return; }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
      auto it = gid.find(gv);
      if (it == gid.end()) throw EngineError{"global without address " + gv->getName().str()};
      out.push_back(cv(objBase(it->second)));
      return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out);
      return;
    }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: out.push_back(cv(constGep(cast<GEPOperator>(ce)))); return;
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
          std::vector<Val> v; constVals(ce->getOperand(0), v);
          uint64_t m = (uint64_t)maskW(flat(t)[0].w);
          out.push_back(cv(v[0].c & m)); return;
        }
        case Instruction::Sub: out.push_back(cv((constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1))) & (uint64_t)maskW(flat(t)[0].w))); return;
        case Instruction::Add: out.push_back(cv((constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1))) & (uint64_t)maskW(flat(t)[0].w))); return;
        case Instruction::ICmp: { uint64_t a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1));
          if (ce->getPredicate() == CmpInst::ICMP_EQ) { out.push_back(cv(a == b)); return; }
          if (ce->getPredicate() == CmpInst::ICMP_NE) { out.push_back(cv(a != b)); return; } }
        default: break;
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw EngineError{"unsupported constant " + os.str().substr(0, 200)};
  }
  void initGlobal(State& s, uint32_t id, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(s, id, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      StringRef raw = cd->getRawDataValues();
      for (size_t i = 0; i < raw.size(); i++) storeAt(s, id, off + i, cv((uint8_t)raw[i]), 8);
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initGlobal(s, id, off + i * es, c->getAggregateElement(i)); return; }
    std::vector<Val> v; constVals(c, v);
    auto& sl = flat(t);
    for (size_t i = 0; i < sl.size(); i++) storeAt(s, id, off + sl[i].off, v[i], sl[i].w);
  }

  struct Dec { FuncInfo* f; DenseMap<const Value*, int> slot; DenseMap<const Value*, int> cslot; std::map<const BasicBlock*, uint32_t> bbStart; std::map<const BasicBlock*, uint32_t> bbNo; std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> fix; };
  int opnd(Dec& d, const Value* v) {
    auto it = d.slot.find(v);
    if (it != d.slot.end()) return it->second;
    auto jt = d.cslot.find(v);
    if (jt != d.cslot.end()) return jt->second;
    auto* c = dyn_cast<Constant>(v);
    if (!c) throw EngineError{"operand kind"};
    int base = d.f->consts.size();
    constVals(c, d.f->consts);
    d.cslot[v] = ~base;
    return ~base;
  }
  static int opAdd(int op, int k) { return op >= 0 ? op + k : ~(~op + k); }
  Edge* mkEdge(Dec& d, const BasicBlock* from, const BasicBlock* to) { Edge* e = new Edge(); d.fix.push_back({e, {from, to}}); return e; }

  void decode(FuncInfo* f) {
    if (f->decoded) return;
    f->decoded = true;
    const Function& F = *f->F;
    Dec d; d.f = f;
    uint32_t n = 0;
    if (auto* sp = F.getSubprogram()) { std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; f->repo = fn.find(repoPrefix) == 0; }
    for (auto& a : F.args()) { d.slot[&a] = n; f->argSlot.push_back(n); f->argN.push_back(flat(a.getType()).size()); n += flat(a.getType()).size(); }
    for (auto& bb : F) for (auto& I : bb) {
      if (I.getType()->isVoidTy() || I.getType()->isTokenTy() || I.getType()->isMetadataTy()) continue;
      size_t k = 1;
      try { k = flat(I.getType()).size(); } catch (EngineError&) { k = 1; }
      d.slot[&I] = n; n += k;
    }
    f->nregs = n;
    f->retn = F.getReturnType()->isVoidTy() ? 0 : flat(F.getReturnType()).size();
    uint32_t bbn = 0;
    for (auto& bb : F) {
      d.bbStart[&bb] = f->code.size(); d.bbNo[&bb] = bbn++;
      for (auto& I : bb) {
        if (isa<PHINode>(I)) continue;
        Inst in{}; in.ll = &I; in.dst = d.slot.count(&I) ? d.slot[&I] : -1; in.k = K_NOP;
        try { decodeInst(d, I, in); } catch (EngineError& e) { in.k = K_UNSUP; in.p = new std::string(e.msg); }
        if (in.k != K_NOP) f->code.push_back(in);
      }
    }
    f->nbb = bbn; f->bbHit.assign(bbn, 0);
    for (auto& fx : d.fix) {
      Edge* e = fx.first; auto* from = fx.second.first; auto* to = fx.second.second;
      e->target = d.bbStart[to]; e->bb = d.bbNo[to];
      for (auto& I : *to) {
        auto* ph = dyn_cast<PHINode>(&I);
        if (!ph) break;
        const Value* v = ph->getIncomingValueForBlock(from);
        size_t k = flat(ph->getType()).size();
        int o = opnd(d, v);
        for (size_t i = 0; i < k; i++) e->moves.push_back({d.slot[ph] + (int)i, opAdd(o, i)});
      }
    }
  }
  void decodeInst(Dec& d, const Instruction& I, Inst& in) {
    auto o = [&](unsigned i) { return opnd(d, I.getOperand(i)); };
    auto W = [&](const Value* v) -> unsigned { return flat(v->getType())[0].w; };
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      in.a = o(0); in.b = o(1); in.n = flat(I.getType()).size(); in.w = W(&I);
      switch (b->getOpcode()) {
#define B(X, Y) case Instruction::X: in.k = K_BIN; in.sub = (uint16_t)Op::Y; break;
        B(Add, Add) B(Sub, Sub) B(Mul, Mul) B(UDiv, UDiv) B(SDiv, SDiv) B(URem, URem) B(SRem, SRem) B(Shl, Shl) B(LShr, LShr) B(AShr, AShr) B(And, And) B(Or, Or) B(Xor, Xor)
#undef B
#define B(X) case Instruction::X: in.k = K_FBIN; in.sub = (uint16_t)Op::X; break;
        B(FAdd) B(FSub) B(FMul) B(FDiv) B(FRem)
#undef B
        default: throw EngineError{"binop"};
      }
      return;
    }
    if (auto* c = dyn_cast<ICmpInst>(&I)) { in.k = K_ICMP; in.sub = c->getPredicate(); in.a = o(0); in.b = o(1); in.w = W(I.getOperand(0)); in.n = flat(I.getType()).size(); return; }
    if (auto* c = dyn_cast<FCmpInst>(&I)) { in.k = K_FCMP; in.sub = c->getPredicate(); in.a = o(0); in.b = o(1); in.w = W(I.getOperand(0)); in.n = flat(I.getType()).size(); return; }
    if (isa<UnaryOperator>(I)) { in.k = K_FNEG; in.a = o(0); in.w = W(&I); in.n = flat(I.getType()).size(); return; }
    if (auto* c = dyn_cast<CastInst>(&I)) {
      in.a = o(0); in.w2 = W(I.getOperand(0)); in.w = W(&I); in.n = flat(I.getType()).size(); in.sub = c->getOpcode(); in.k = K_CAST;
      if (c->getOpcode() == Instruction::BitCast) {
        if (flat(I.getOperand(0)->getType()).size() != in.n || in.w != in.w2) {
          in.sub = 9999; // reinterpret across lanes
          auto* sl = &flat(I.getOperand(0)->getType()); in.p = (void*)sl;
          return;
        }
        in.k = K_COPY; return;
      }
      if (in.w == in.w2 && (c->getOpcode() == Instruction::PtrToInt || c->getOpcode() == Instruction::IntToPtr || c->getOpcode() == Instruction::AddrSpaceCast)) in.k = K_COPY;
      return;
    }
    if (auto* l = dyn_cast<LoadInst>(&I)) {
      in.k = K_LOAD; in.a = o(0); auto& sl = flat(I.getType()); in.p = (void*)&sl; in.n = sl.size(); in.w = sl.empty() ? 0 : sl[0].w;
      in.sub = l->isAtomic() ? 1 + (l->getOrdering() != AtomicOrdering::Monotonic && l->getOrdering() != AtomicOrdering::Unordered) : 0; return;
    }
    if (auto* st = dyn_cast<StoreInst>(&I)) {
      in.k = K_STORE; in.a = o(0); in.b = o(1); auto& sl = flat(st->getValueOperand()->getType()); in.p = (void*)&sl; in.n = sl.size(); in.w = sl.empty() ? 0 : sl[0].w;
      in.sub = st->isAtomic() ? 1 + (st->getOrdering() != AtomicOrdering::Monotonic && st->getOrdering() != AtomicOrdering::Unordered) : 0; return;
    }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      in.k = K_GEP; in.a = o(0);
      if (I.getType()->isVectorTy()) throw EngineError{"vector gep"};
      auto* gi = new GepInfo();
      for (auto it = gep_type_begin(*g), e = gep_type_end(*g); it != e; ++it) {
        const Value* op = it.getOperand();
        if (auto* st = it.getStructTypeOrNull()) { gi->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
        uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(op)) gi->off += (uint64_t)(ci->getSExtValue() * (int64_t)sz);
        else gi->idx.push_back({opnd(d, op), {sz, W(op)}});
      }
      in.p = gi; return;
    }
    if (auto* a = dyn_cast<AllocaInst>(&I)) { in.k = K_ALLOCA; in.a = o(0); in.p = (void*)(uintptr_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); in.w = W(I.getOperand(0)); return; }
    if (auto* b = dyn_cast<BranchInst>(&I)) {
      if (b->isUnconditional()) { in.k = K_BR; in.e0 = mkEdge(d, I.getParent(), b->getSuccessor(0)); }
      else { in.k = K_CBR; in.a = opnd(d, b->getCondition()); in.e0 = mkEdge(d, I.getParent(), b->getSuccessor(0)); in.e1 = mkEdge(d, I.getParent(), b->getSuccessor(1)); }
      return;
    }
    if (auto* sw = dyn_cast<SwitchInst>(&I)) {
      in.k = K_SWITCH; in.a = opnd(d, sw->getCondition()); in.w = W(sw->getCondition());
      auto* si = new SwitchInfo(); in.p = si;
      // one edge per distinct successor
      std::map<const BasicBlock*, int> en;
      std::vector<Edge*> es;
      for (auto& c : sw->cases()) {
        auto* bb = c.getCaseSuccessor();
        if (!en.count(bb)) { en[bb] = es.size(); es.push_back(mkEdge(d, I.getParent(), bb)); }
        si->m[c.getCaseValue()->getZExtValue()] = en[bb];
        si->cases.push_back({c.getCaseValue()->getZExtValue(), en[bb]});
      }
      auto* db = sw->getDefaultDest();
      if (!en.count(db)) { en[db] = es.size(); es.push_back(mkEdge(d, I.getParent(), db)); }
      in.n = en[db];
      swEdges[si] = es;
      return;
    }
    if (auto* r = dyn_cast<ReturnInst>(&I)) { in.k = K_RET; if (r->getReturnValue()) { in.a = o(0); in.n = flat(r->getReturnValue()->getType()).size(); } return; }
    if (auto* cb = dyn_cast<CallBase>(&I)) { decodeCall(d, *cb, in); return; }
    if (isa<LandingPadInst>(I)) { in.k = K_LPAD; return; }
    if (isa<ResumeInst>(I)) { in.k = K_RESUME; in.a = o(0); return; }
    if (isa<SelectInst>(I)) {
      in.k = K_SELECT; in.a = o(0); in.b = o(1); in.c = o(2); auto& sl = flat(I.getType()); in.n = sl.size(); in.p = (void*)&sl; in.w = I.getOperand(0)->getType()->isVectorTy();
      in.sub = I.getType()->isPointerTy();
      // a condition that also selects between pointers is decided at its first use, so that the integers chosen with it stay concrete
      if (!in.sub && !isa<Constant>(I.getOperand(0)) && I.getType()->isIntegerTy()) for (auto* u : I.getOperand(0)->users()) if (isa<SelectInst>(u) && u->getType()->isPointerTy()) in.sub = 1;
      if (!in.sub && isa<FCmpInst>(I.getOperand(0))) in.sub = 1;   // floating point choices are decided, which keeps later expressions small
      return;
    }
    if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { in.k = K_COPY; in.n = flat(I.getType()).size(); in.a = opAdd(o(0), slotIndex(ev->getAggregateOperand()->getType(), ev->getIndices())); return; }
    if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
      in.k = K_INSV; in.n = flat(I.getType()).size(); in.a = o(0); in.b = o(1); in.w = slotIndex(I.getType(), iv->getIndices()); in.w2 = flat(I.getOperand(1)->getType()).size(); return;
    }
    if (isa<ExtractElementInst>(I)) { in.k = K_XELT; in.a = o(0); in.b = o(1); in.n = flat(I.getOperand(0)->getType()).size(); in.w = W(&I); return; }
    if (isa<InsertElementInst>(I)) { in.k = K_IELT; in.a = o(0); in.b = o(1); in.c = o(2); in.n = flat(I.getType()).size(); return; }
    if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { in.k = K_SHUF; in.a = o(0); in.b = o(1); in.n = flat(I.getType()).size(); in.w = flat(I.getOperand(0)->getType()).size(); auto* m = new std::vector<int>(sv->getShuffleMask().begin(), sv->getShuffleMask().end()); in.p = m; return; }
    if (isa<UnreachableInst>(I)) { in.k = K_UNREACH; return; }
    if (isa<FreezeInst>(I)) { in.k = K_COPY; in.a = o(0); in.n = flat(I.getType()).size(); return; }
    if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { in.k = K_RMW; in.sub = rm->getOperation(); in.a = o(0); in.b = o(1); in.w = W(&I); return; }
    if (isa<AtomicCmpXchgInst>(I)) { in.k = K_CMPX; in.a = o(0); in.b = o(1); in.c = o(2); in.w = W(I.getOperand(1)); return; }
    if (isa<FenceInst>(I)) { in.k = K_FENCE; return; }
    std::string s; raw_string_ostream os(s); I.print(os);
    throw EngineError{"unsupported instruction " + os.str()};
  }
  std::map<SwitchInfo*, std::vector<Edge*>> swEdges;
  void decodeCall(Dec& d, const CallBase& cb, Inst& in) {
    if (cb.isInlineAsm()) { auto* ia = cast<InlineAsm>(cb.getCalledOperand()); if (ia->getAsmString().empty()) return; throw EngineError{"inline asm " + ia->getAsmString()}; }
    const Function* cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCastsAndAliases());
    auto* ci = new CallInfo();
    ci->cb = &cb; ci->iid = callIid++;
    if (cf && cf->isIntrinsic()) {
      switch (cf->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect:
          delete ci; return;
        default: break;
      }
    }
    in.k = K_CALL; in.p = ci;
    for (unsigned i = 0; i < cb.arg_size(); i++) {
      const Value* a = cb.getArgOperand(i);
      ArgInfo ai{};
      if (a->getType()->isMetadataTy()) { ai.op = 0; ai.n = 0; ci->args.push_back(ai); continue; }
      ai.op = opnd(d, a); ai.slots = flat(a->getType()); ai.n = ai.slots.size();
      ai.byval = cb.isByValArgument(i) ? DL->getTypeAllocSize(cb.getParamByValType(i)).getFixedValue() : 0;
      ci->args.push_back(ai);
    }
    ci->vararg = cb.getFunctionType()->isVarArg(); ci->fixedArgs = cb.getFunctionType()->getNumParams();
    ci->rets = cb.getType()->isVoidTy() ? std::vector<SlotT>{} : flat(cb.getType());
    ci->retn = ci->rets.size();
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) { ci->invoke = true; ci->normal = mkEdge(d, cb.getParent(), iv->getNormalDest()); ci->unwind = mkEdge(d, cb.getParent(), iv->getUnwindDest()); }
    if (cf) {
      ci->callee = finfo(cf);
      if (cf->isDeclaration()) {
        if (!ci->callee->bi) ci->callee->bi = lookupBuiltin(cf);
        if (!ci->callee->bi) { in.k = K_UNSUP; in.p = new std::string("unmodelled external function " + cf->getName().str() + " = " + dem(cf->getName().str())); return; }
      }
    } else ci->fop = opnd(d, cb.getCalledOperand());
  }
  FuncInfo* finfo(const Function* F) {
    auto& r = fmap[F];
    if (!r) { r = new FuncInfo(); r->F = F; r->name = F->getName().str(); auto it = bis.find(r->name); if (it != bis.end()) r->bi = it->second; }
    return r;
  }
