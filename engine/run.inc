  // ---------------------------------------------------------------- driver
  void endPath(State& s, const char* why) {
    if (!strcmp(why, "done")) {
      paths++;
      // reservoir sample of completed paths
      sampleSeen++;
      uint64_t r = (sampleSeen * 0x9e3779b97f4a7c15ull + seed * 0xff51afd7ed558ccdull); r ^= r >> 29; r *= 0xbf58476d1ce4e5b9ull; r ^= r >> 32;
      if ((int)sampleJson.size() < samples) sampleJson.push_back(sampleOf(s));
      else if (samples && r % sampleSeen < (uint64_t)samples) sampleJson[r % samples] = sampleOf(s);
    } else if (!strcmp(why, "violation")) pathsErr++;
  }
  std::string sampleOf(State& s) {
    return "{\"inputs\":" + inputsJson(s, *s.model) + ",\"obs\":" + obsJson(s, *s.model) + ",\"sched\":" + jstr(s.sched) + ",\"pc\":" + std::to_string(s.pc.size()) + ",\"steps\":" + std::to_string(s.steps) + "}";
  }
  // run until the path ends; forks go to `work`
  void runState(State* s) {
    cur = s; const uint64_t s0 = s->steps;
    try {
      uint64_t k = 0;
      for (;;) {
        step(*s);
        if ((++k & 0xfff) == 0) {
          if (s->steps > maxSteps) die(*s, "step-limit", "execution did not finish within the step bound");
          if (late()) { timeouts++; throw PathEnd{"timeout"}; }
        }
      }
    } catch (PathEnd& e) { endPath(*s, e.why); }
    catch (EngineError& e) { errs[e.msg + " [" + repoLoc(*s) + "]"]++; }
    steps += s->steps - s0;
    delete s;
  }
  void setupGlobals(State& s) {
    for (auto& F : *M) {
      if (F.isIntrinsic()) continue;
      uint32_t id = newObj(s, 1, OK_Func, true, strdup(F.getName().str().c_str()));
      gid[&F] = id; objFunc[id] = finfo(&F);
    }
    for (auto& G : M->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
      if (!G.hasInitializer() && sz < 64) sz = 64;
      uint32_t id = newObj(s, sz, OK_Global, true, strdup(dem(G.getName().str()).c_str()));
      gid[&G] = id;
      if (G.getName().starts_with("_ZTI")) tiName[objBase(id)] = G.getName().str();
    }
    for (auto& G : M->globals()) {
      if (!G.hasInitializer() || G.getName().starts_with("llvm.")) continue;
      try { initGlobal(s, gid[&G], 0, G.getInitializer()); } catch (EngineError& e) { errs["global " + G.getName().str() + ": " + e.msg]++; }
      if (G.isConstant()) getObjW(s, gid[&G])->ro = true;
      if (G.getName().starts_with("_ZTI") && G.getInitializer()->getType()->isStructTy()) {
        auto* ini = G.getInitializer();
        for (unsigned i = 2; i < ini->getNumOperands(); i++) if (auto* b = dyn_cast<GlobalVariable>(ini->getOperand(i)->stripPointerCasts())) if (b->getName().starts_with("_ZTI")) tiBase[G.getName().str()].push_back(b->getName().str());
      }
    }
    auto ext = [&](const char* d, const char* b) { if (!tiBase.count(d)) tiBase[d] = {b}; };
    ext("_ZTISt9bad_alloc", "_ZTISt9exception"); ext("_ZTISt11logic_error", "_ZTISt9exception"); ext("_ZTISt13runtime_error", "_ZTISt9exception");
    ext("_ZTISt12length_error", "_ZTISt11logic_error"); ext("_ZTISt12out_of_range", "_ZTISt11logic_error"); ext("_ZTISt16invalid_argument", "_ZTISt11logic_error");
    ext("_ZTISt12domain_error", "_ZTISt11logic_error"); ext("_ZTISt11range_error", "_ZTISt13runtime_error"); ext("_ZTISt14overflow_error", "_ZTISt13runtime_error");
    ext("_ZTISt8bad_cast", "_ZTISt9exception"); ext("_ZTISt17bad_function_call", "_ZTISt9exception"); ext("_ZTISt12system_error", "_ZTISt13runtime_error"); ext("_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc");
    ext("_ZTISt18bad_variant_access", "_ZTISt9exception"); ext("_ZTISt19bad_optional_access", "_ZTISt9exception");
  }
  std::string outPath;
  void writeResult(std::ostream& o) {
    o << "S paths " << paths << "\nS pathsErr " << pathsErr << "\nS pathsAssumed " << pathsAssumed << "\nS steps " << steps << "\nS forks " << forks << "\nS inconclusive " << inconclusive
      << "\nS timeouts " << timeouts << "\nS memChecks " << memErrChecks << "\nS implied " << implied << "\nS asserts " << asserts << "\nS concretizations " << concretizations
      << "\nS queries " << g_sstats.queries << "\nS cacheHits " << g_sstats.cacheHits << "\nS domHits " << g_sstats.domHits << "\nS intervalHits " << g_sstats.intervalHits << "\nS guessHits " << g_sstats.guessHits << "\nS z3Calls " << g_sstats.z3Calls << "\nS sat " << g_sstats.sat << "\nS unsat " << g_sstats.unsat
      << "\nS unknown " << g_sstats.unknown << "\nS assertQueries " << g_sstats.assertQueries << "\nS assertUnsat " << g_sstats.assertUnsat << "\nT z3Time " << g_sstats.z3Time << "\nT maxQuery " << g_sstats.maxQuery << "\nS exprs " << exprCount() << "\n";
    for (auto& r : reach) o << "R " << r.second << " " << r.first << "\n";
    for (auto& r : assertMsgs) o << "M " << r.second << " " << r.first << "\n";
    for (auto& r : errs) { std::string m = r.first; for (auto& ch : m) if (ch == '\n') ch = ' '; o << "E " << r.second << " " << m << "\n"; }
    for (auto& v : viols) { std::string k = v.first; for (auto& ch : k) if (ch == '\n') ch = ' '; o << "K " << violCount[v.first] << " " << k << "\nV " << v.second << "\n"; }
    for (auto& s : sampleJson) o << "P " << s << "\n";
    for (auto& f : fmap) if (f.second->calls) { uint64_t hit = 0; for (auto b : f.second->bbHit) hit += b; o << "F " << f.second->calls << " " << hit << " " << f.second->nbb << " " << f.second->repo << " " << f.second->name << "\n"; for (size_t i = 0; i < f.second->bbHit.size(); i++) if (f.second->bbHit[i] && f.second->repo) o << "B " << i << " " << f.second->name << "\n"; }
  }
  void clearStats() {
    paths = pathsErr = pathsAssumed = steps = forks = inconclusive = timeouts = memErrChecks = implied = asserts = concretizations = 0;
    reach.clear(); assertMsgs.clear(); viols.clear(); violCount.clear(); errs.clear(); sampleJson.clear(); sampleSeen = 0; g_sstats = SolverStats();
    for (auto& f : fmap) f.second->calls = 0;
  }
  int main(int argc, char** argv) {
    std::string file, entry = "harness_main"; int jobs = 8; uint64_t split = 96; double maxTime = 600; uint64_t rlimit = 100000000ull; std::string workdir = "/tmp";
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
      if (a == "--entry") entry = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--max-time") maxTime = atof(nx().c_str());
      else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--preempt") maxPreempt = atoi(nx().c_str());
      else if (a == "--out") outPath = nx(); else if (a == "--samples") samples = atoi(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
      else if (a == "--rlimit") rlimit = strtoull(nx().c_str(), 0, 10); else if (a == "--no-uninit") uninitCheck = false; else if (a == "--no-dom") g_useDom = false;
      else if (a == "--mux") muxLimit = atoi(nx().c_str()); else if (a == "--split") split = strtoull(nx().c_str(), 0, 10);
      else if (a == "--param") { std::string p = nx(); auto e = p.find('='); params[p.substr(0, e)] = strtoll(p.substr(e + 1).c_str(), 0, 0); }
      else if (a == "--stop-after") stopAfter = atof(nx().c_str());
      else if (a == "--stop-file") stopFile = strdup(nx().c_str());
      else if (a == "--repo") repoPrefix = nx();
      else file = a;
    }
    shared = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    t0 = now(); deadline = t0 + maxTime; solverSetRlimit(rlimit);
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(file, err, ctx);
    if (!mod) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    registerBuiltins();
    State* s = new State(); s->th.reserve(8); s->th.emplace_back(); s->th[0].vc.c[0] = 1;
    s->model = std::make_shared<Model>(Model{newStamp(), {}});
    setupGlobals(*s);
    // constructors, then the entry point: run as consecutive calls
    std::vector<std::pair<int, const Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : arr->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* F = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), F}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    auto* E0 = M->getFunction(entry);
    if (!E0) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    for (auto& c : ctors) {
      try {
        FuncInfo* f = finfo(c.second); if (f->F->isDeclaration()) continue;
        pushCall(*s, f, {}, nullptr); s->nlive = 1; s->th[0].st = T_Run;
        while (!s->th[0].frames.empty()) { if (s->th[0].frames.size() == 1 && s->th[0].frames.back().f->code[s->th[0].frames.back().pc].k == K_RET) { popFrame(*s); break; } step(*s); }
      } catch (EngineError& e) { errs["ctor " + c.second->getName().str() + ": " + e.msg + " [" + (s->th[0].frames.empty() ? std::string() : repoLoc(*s)) + "]"]++; s->th[0].frames.clear(); }
      catch (PathEnd& e) { errs["ctor " + c.second->getName().str() + " ended: " + e.why]++; s->th[0].frames.clear(); }
    }
    s->heapLive = 0; s->steps = 0;
    pushCall(*s, finfo(E0), {}, nullptr);
    work.push_back(s);
    dogLast = [&] { timeouts++; std::ofstream o(outPath); writeResult(o); o << "T wall " << now() - t0 << "\nEND\n"; };
    watch();
    // breadth-first until there is enough work to share
    while (!work.empty() && work.size() < split && jobs > 1) {
      State* q = work.front(); work.pop_front();
      runState(q);
      if (late()) { timeouts += work.size(); work.clear(); break; }
    }
    unwatch();
    std::vector<std::string> parts;
    if (!work.empty() && jobs > 1) {
      std::vector<State*> init(work.begin(), work.end()); work.clear();
      auto* ctr = shared; ctr->store(0);
      std::ostringstream mine; writeResult(mine);
      std::vector<pid_t> pids; std::vector<std::string> files;
      for (int j = 0; j < jobs; j++) {
        std::string fn = outPath + ".w" + std::to_string(j); files.push_back(fn);
        pid_t p = fork();
        if (p == 0) {
          solverReset(); clearStats(); seed = seed * 1000 + j;
          dogLast = [&] { timeouts++; std::ofstream o(fn); writeResult(o); o << "DONE\n"; };
          watch();
          for (;;) {
            uint64_t k = ctr->fetch_add(1);
            if (k >= init.size()) break;
            work.push_back(init[k]);
            while (!work.empty()) { State* q = work.back(); work.pop_back(); runState(q); if (late()) { timeouts += work.size(); break; } }
            if (late()) { timeouts++; break; }
          }
          unwatch();
          std::ofstream o(fn); writeResult(o); o << "DONE\n"; o.close();
          _exit(0);
        }
        pids.push_back(p);
      }
      int st; bool bad = false;
      for (auto p : pids) { waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
      parts.push_back(mine.str());
      for (auto& f : files) { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); parts.push_back(ss.str()); if (ss.str().find("DONE\n") == std::string::npos) bad = true; unlink(f.c_str()); }
      std::ofstream o(outPath);
      for (auto& p : parts) o << p;
      if (bad) o << "E 1 worker process died\n";
      o << "T wall " << now() - t0 << "\nEND\n";
    } else {
      watch();
      while (!work.empty()) { State* q = work.back(); work.pop_back(); runState(q); if (late()) { timeouts += work.size(); break; } }
      unwatch();
      std::ofstream o(outPath);
      writeResult(o);
      o << "T wall " << now() - t0 << "\nEND\n";
    }
    return 0;
  }
