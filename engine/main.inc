// ------------------------------------------------------------------- main ----
static void layoutGlobals(State& s) {
  // every function and global gets an object
  for (auto& F : *M) {
    if (F.isIntrinsic()) continue;
    u32 id = s.mem.alloc(16, 3, 0);
    gAddr[&F] = A(id);
    Fn* f = getFn(&F);
    f->addr = A(id);
    fnById[id] = f;
  }
  for (auto& g : M->globals()) {
    if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.global_dtors" || g.getName() == "llvm.used" ||
        g.getName() == "llvm.compiler.used")
      continue;
    bool ext = !g.hasInitializer();
    u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0;
    if (ext) sz = std::max<u64>(sz, 4096);
    u32 id = s.mem.alloc(sz, ext ? 4 : 2, 0);
    gAddr[&g] = A(id);
    gvById[id] = &g;
  }
  for (auto& al : M->aliases()) {
    const Constant* c = al.getAliasee();
    APInt off(64, 0);
    const Value* b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto* gv = dyn_cast<GlobalValue>(b))
      if (gAddr.count(gv)) gAddr[&al] = gAddr[gv] + off.getZExtValue();
  }
  for (auto& g : M->globals())
    if (gAddr.count(&g) && g.hasInitializer()) {
      Obj* o = s.mem.wget(gAddr[&g] >> 32);
      initGlobal(o, 0, g.getInitializer());
      o->ro = g.isConstant();
    }
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<u64, Function*>> v;
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (unsigned i = 0; i < ca->getNumOperands(); i++) {
        auto* cs = cast<ConstantStruct>(ca->getOperand(i));
        if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
      }
    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& p : v) bootFns.push_back(p.second);
  }
}

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void writeOut(bool complete) {
  FILE* f = cfg.out.empty() ? stdout : fopen(cfg.out.c_str(), "w");
  if (!f) { perror("out"); exit(3); }
  fprintf(f, "{\n \"complete\": %s,\n \"paths\": %lu, \"assume_ended\": %lu, \"forks\": %lu, \"steps\": %lu,\n", complete ? "true" : "false", stPaths, stAssumeEnd, stForks, stSteps);
  fprintf(f, " \"asserts\": %lu, \"assert_queries\": %lu,\n", stAsserts, stAssertQ);
  fprintf(f, " \"queries\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"cache_hits\": %lu, \"external\": %lu, \"finite\": %lu, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f,\n",
          gSolverStats.queries, gSolverStats.sat, gSolverStats.unsat, gSolverStats.unknown, gSolverStats.cacheHits, gSolverStats.external, gSolverStats.finite, gSolverStats.time, gSolverStats.maxTime, nowS() - tStart);
  fprintf(f, " \"incomplete\": [");
  bool first = true;
  for (auto& x : gIncompleteWhy) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x).c_str()); first = false; }
  fprintf(f, "],\n \"reached\": [");
  first = true;
  for (auto& x : gReached) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x).c_str()); first = false; }
  fprintf(f, "],\n \"functions\": {");
  first = true;
  for (auto& p : repoFns) {
    fprintf(f, "%s\n  \"%s\": [", first ? "" : ",", jesc(p.first).c_str());
    bool f2 = true;
    for (auto& n : p.second) { fprintf(f, "%s\"%s\"", f2 ? "" : ", ", jesc(n).c_str()); f2 = false; }
    fprintf(f, "]");
    first = false;
  }
  fprintf(f, "},\n \"witnesses\": [");
  first = true;
  for (auto& v : witnesses) {
    fprintf(f, "%s\n  {\"inputs\": [", first ? "" : ",");
    bool f2 = true;
    for (auto& in : v.inputs) {
      std::string hex;
      char b[4];
      for (u8 x : in.second) { snprintf(b, 4, "%02x", x); hex += b; }
      fprintf(f, "%s[\"%s\", \"%s\"]", f2 ? "" : ", ", jesc(in.first).c_str(), hex.c_str());
      f2 = false;
    }
    fprintf(f, "], \"sched\": [");
    f2 = true;
    for (int x : v.sched) { fprintf(f, "%s%d", f2 ? "" : ", ", x); f2 = false; }
    fprintf(f, "], \"reached\": \"%s\"}", jesc(v.msg).c_str());
    first = false;
  }
  fprintf(f, "],\n \"violations\": [");
  first = true;
  for (auto& v : violations) {
    fprintf(f, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"where\": \"%s\", \"stack\": \"%s\", \"inputs\": [", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.stack).c_str());
    bool f2 = true;
    for (auto& in : v.inputs) {
      std::string hex;
      char b[4];
      for (u8 x : in.second) { snprintf(b, 4, "%02x", x); hex += b; }
      fprintf(f, "%s[\"%s\", \"%s\"]", f2 ? "" : ", ", jesc(in.first).c_str(), hex.c_str());
      f2 = false;
    }
    fprintf(f, "], \"sched\": [");
    f2 = true;
    for (int x : v.sched) { fprintf(f, "%s%d", f2 ? "" : ", ", x); f2 = false; }
    fprintf(f, "], \"notes\": [");
    f2 = true;
    for (auto& x : v.notes) { fprintf(f, "%s\"%s\"", f2 ? "" : ", ", jesc(x).c_str()); f2 = false; }
    fprintf(f, "]}");
    first = false;
  }
  fprintf(f, "]\n}\n");
  if (f != stdout) fclose(f);
}

static size_t rssMB() {
  FILE* f = fopen("/proc/self/statm", "r");
  long a = 0, b = 0;
  if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
  return (size_t)b * 4096 / 1048576;
}

static void* runAll(void*) {
  SMDiagnostic err;
  M = parseIRFile(cfg.input, err, LC);
  if (!M) { err.print("psisym", errs()); exit(3); }
  DL = &M->getDataLayout();
  solverInit(cfg.qTimeout, cfg.scratch, cfg.extTimeout);
  State* s0 = new State;
  s0->model = std::make_shared<Model>();
  layoutGlobals(*s0);
  Function* E = M->getFunction(cfg.entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "psisym: no entry %s\n", cfg.entry.c_str()); exit(3); }
  bootFns.push_back(E);
  Thread t0;
  s0->th.push_back(t0);
  work.push_back(s0);
  bool complete = true;
  u64 tick = 0;
  while (!work.empty() && !gStop) {
    State* s = work.back();
    work.pop_back();
    SR r = S_CONT;
    while (r == S_CONT) {
      r = stepInst(*s);
      s->steps++;
      stSteps++;
      if ((++tick & 0x3fff) == 0) {
        if (nowS() - tStart > cfg.maxTime) { incomplete("time limit"); gStop = true; break; }
        if ((tick & 0xfffff) == 0 && rssMB() > cfg.memLimitMB) { incomplete("memory limit"); gStop = true; break; }
      }
      if (s->steps > cfg.maxSteps) {
        incomplete("step limit on a path at " + where(*s));
        if (cfg.verbose) fprintf(stderr, "step limit:\n%s", stackStr(*s).c_str());
        r = S_END;
      }
      if (stForks > cfg.maxForks) { incomplete("fork limit"); gStop = true; break; }
      if (gStop) break;
    }
    delete s;
  }
  if (!work.empty()) complete = false;
  if (stIncomplete) complete = false;
  writeOut(complete);
  fflush(nullptr);
  _exit(violations.empty() ? (complete ? 0 : 2) : 1);
}

int main(int argc, char** argv) {
  tStart = nowS();
  for (int i = 1; i < argc; i++) {
    std::string x = argv[i];
    auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", x.c_str()); exit(3); } return argv[++i]; };
    if (x == "--entry") cfg.entry = nx();
    else if (x == "--out") cfg.out = nx();
    else if (x == "--scratch") cfg.scratch = nx();
    else if (x == "--max-time") cfg.maxTime = atof(nx().c_str());
    else if (x == "--max-steps") cfg.maxSteps = atoll(nx().c_str());
    else if (x == "--max-forks") cfg.maxForks = atoll(nx().c_str());
    else if (x == "--query-ms") cfg.qTimeout = atoi(nx().c_str());
    else if (x == "--ext-s") cfg.extTimeout = atoi(nx().c_str());
    else if (x == "--preempt") cfg.preempt = atoi(nx().c_str());
    else if (x == "--deviate") cfg.deviate = true;
    else if (x == "--mem-mb") cfg.memLimitMB = atoi(nx().c_str());
    else if (x == "--param") {
      std::string p = nx();
      size_t e = p.find('=');
      cfg.params[p.substr(0, e)] = atol(p.c_str() + e + 1);
    } else if (x == "--trace") cfg.trace = true;
    else if (x == "--verbose") cfg.verbose = true;
    else if (x[0] == '-') { fprintf(stderr, "unknown option %s\n", x.c_str()); return 3; }
    else cfg.input = x;
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, (size_t)1 << 30);
  pthread_t th;
  pthread_create(&th, &at, runAll, nullptr);
  pthread_join(th, nullptr);
  return 0;
}
