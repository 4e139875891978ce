// Models of runtime functions: the symbolic API used by the harnesses, memory,
// exceptions, threads, math and LLVM intrinsics.
#define H(name) static HRes name(State& s, Inst& in, std::vector<Val>& a, Val& r)

static void setRet(Inst& in, Val& r, u128 c) { r = in.ty->isScalar() ? VC(c, in.ty->w) : Val(); }

// Advance past the current call instruction (used by handlers that push frames).
static void advance(State& s, Inst& in) {
  if (in.op == Instruction::Invoke) takeEdge(s, in.edges[0]);
  else s.F().pc++;
}
static Fn* findFn(const char* n) {
  Function* F = M->getFunction(n);
  return F && !F->isDeclaration() ? getFn(F) : nullptr;
}
// call fn(args) in place of the current call
static HRes tailTo(State& s, Inst& in, Fn* fn, const std::vector<Val>& args) {
  if (in.op == Instruction::Invoke) pushFrame(s, fn, args, in.dst, &in.edges[0], &in.edges[1]);
  else { s.F().pc++; pushFrame(s, fn, args, in.dst, nullptr, nullptr); }
  return H_JUMP;
}

// ------------------------------------------------------------ symbolic API --
static u32 arrFor(const std::string& name, u32 size) {
  auto k = std::make_pair(name, size);
  auto it = arrIds.find(k);
  if (it != arrIds.end()) return it->second;
  u32 id = arrays.size();
  arrays.push_back({name, size});
  arrBase.push_back(nextSym);
  nextSym += size;
  arrIds[k] = id;
  return id;
}
H(hSymBytes) {
  concretize(s, a[0]);
  concretize(s, a[1]);
  std::string nm;
  if (!cstr(s, a[2], nm)) return H_STOP;
  int k = s.nameCnt[nm]++;
  nm += "#" + std::to_string(k);
  u64 n = (u64)a[1].c;
  if (!n) return H_OK;
  u32 arr = arrFor(nm, n);
  std::vector<Expr*> sy(n);
  std::vector<u8> b(n, 0);
  for (u64 i = 0; i < n; i++) sy[i] = mkSym(arrBase[arr] + i);
  s.inputs.push_back({nm, arr, (u32)n});
  return writeBytes(s, (u64)a[0].c, n, sy, b) ? H_OK : H_STOP;
}
static Expr* boolOf(const Val& v) {
  Expr* e = v.ex();
  return e->w == 1 ? e : mkNot(mkBin(Op::Eq, mkConst(0, e->w), e));
}
H(hSymAssume) {
  Expr* c = boolOf(a[0]);
  if (c->op == Op::Const) {
    if (c->cv) return H_OK;
    stAssumeEnd++;
    return H_STOP;
  }
  if (!evalExpr(c, *s.model)) {
    Model m = *s.model;
    Res q = solverCheck(s.pc, c, &m, cfg.qTimeout);
    if (q == Res::Unknown) { incomplete("solver unknown in assume at " + where(s)); return H_STOP; }
    if (q == Res::Unsat) { stAssumeEnd++; return H_STOP; }
    setModel(s, m);
  }
  addPC(s, c);
  return H_OK;
}
H(hSymAssert) {
  stAsserts++;
  Expr* c = boolOf(a[0]);
  if (c->op == Op::Const && c->cv) return H_OK;
  std::string msg;
  if (!cstr(s, a[1], msg)) return H_STOP;
  if (c->op == Op::Const) { violation(s, "assert", msg); return H_STOP; }
  stAssertQ++;
  if (!evalExpr(c, *s.model)) { violation(s, "assert", msg); return H_STOP; }
  Model m = *s.model;
  Res q = solverCheck(s.pc, mkNot(c), &m, cfg.qTimeout);
  if (q == Res::Sat) { violation(s, "assert", msg, &m); return H_STOP; }
  if (q == Res::Unknown) incomplete("solver unknown on assertion '" + msg + "'");
  return H_OK;
}
H(hSymReach) {
  std::string l;
  if (!cstr(s, a[0], l)) return H_STOP;
  s.reached.insert(l);
  return H_OK;
}
H(hSymNote) {
  std::string l;
  if (!cstr(s, a[0], l)) return H_STOP;
  Val v = a[1];
  u128 c = v.isC() ? v.c : evalExpr(v.e, *s.model);
  l += "=" + std::to_string((u64)c);
  s.notes.push_back(l);
  if (cfg.verbose) fprintf(stderr, "[note s%lu] %s%s\n", s.id, l.c_str(), v.isC() ? "" : " (sym)");
  return H_OK;
}
H(hSymConcretize) { r = a[0]; concretize(s, r); return H_OK; }
H(hSymIsSym) { r = VC(a[0].isSym(), in.ty->w); return H_OK; }
H(hSymParam) {
  std::string l;
  if (!cstr(s, a[0], l)) return H_STOP;
  auto it = cfg.params.find(l);
  r = it == cfg.params.end() ? a[1] : VC((u128)(s128)it->second, 64);
  return H_OK;
}
H(hSymEnd) { recordPath(s); return H_STOP; }
H(hSymFail) {
  std::string l;
  if (!cstr(s, a[0], l)) return H_STOP;
  violation(s, "assert", l);
  return H_STOP;
}
H(hSymOne) { r = VC(1, in.ty->w); return H_OK; }
H(hCpus) { auto it = cfg.params.find("cpus"); r = VC(it == cfg.params.end() ? 1 : it->second, in.ty->w); return H_OK; }
H(hZero) { setRet(in, r, 0); return H_OK; }
H(hArg0) { r = a[0]; return H_OK; }
// sym_select(c,a,b)
H(hSymSelect) {
  Expr* c = boolOf(a[0]);
  if (c->op == Op::Const) r = c->cv ? a[1] : a[2];
  else r = VE(mkIte(c, a[1].ex(), a[2].ex()));
  return H_OK;
}

// ---------------------------------------------------------------- threads ----
static void wake(State& s, u64 key, bool all) {
  int n = s.th.size();
  for (int k = 1; k <= n; k++) {
    Thread& o = s.th[(s.cur + k) % n];
    if (o.status == Thread::Blocked && o.waitAddr == key) {
      o.status = Thread::Run;
      o.timed = false;
      o.waitAddr = 0;
      if (!all) return;
    }
  }
}
// preemption point: explore switching to every other runnable thread
static void preemptPoint(State& s) {
  if (cfg.preempt < 0) return;
  int idx = s.points++;
  if (s.preempt >= cfg.preempt) return;
  for (size_t i = 0; i < s.th.size(); i++) {
    if ((int)i == s.cur || s.th[i].status != Thread::Run) continue;
    State* o = forkState(s);
    o->cur = i;
    o->preempt++;
    o->sched.push_back(-(idx * 64 + (int)i + 1));
    work.push_back(o);
  }
}
static HRes blockOn(State& s, u64 key, bool timed) {
  Thread& t = s.T();
  t.status = Thread::Blocked;
  t.waitAddr = key;
  t.timed = timed;
  if (!schedule(s)) {
    std::string d = "deadlock: all threads blocked";
    for (auto& x : s.th) if (x.status == Thread::Blocked) {
      int c = s.cur;
      s.cur = x.id;
      s.notes.push_back("thread " + std::to_string(x.id) + " blocked at\n" + stackStr(s));
      s.cur = c;
    }
    violation(s, "deadlock", d);
    return H_STOP;
  }
  return H_RETRY;
}
H(hThreadCreate) {  // sym_thread_create(fn, arg) -> tid
  concretize(s, a[0]);
  auto it = fnById.find((u64)a[0].c >> 32);
  if (it == fnById.end()) { violation(s, "memory", "thread start through invalid pointer"); return H_STOP; }
  int cur = s.cur;
  Thread t;
  t.id = s.th.size();
  s.th.push_back(t);
  int nt = t.id;
  s.cur = nt;
  pushFrame(s, it->second, {a[1]}, -1, nullptr, nullptr);
  s.F().after = 1;
  s.cur = cur;
  r = VC(nt, in.ty->w);
  return H_OK;
}
H(hThreadJoin) {
  concretize(s, a[0]);
  u32 id = (u32)a[0].c;
  if (id >= s.th.size() || (int)id == s.cur) { violation(s, "thread", "join of invalid thread"); return H_STOP; }
  if (s.th[id].status == Thread::Done) { setRet(in, r, 0); return H_OK; }
  return blockOn(s, 0xdead0000ull + id, false);
}
H(hTimedOut) { r = VC(s.T().timed, in.ty->w); s.T().timed = false; return H_OK; }
H(hThreadSelf) { r = VC(s.cur + 1, in.ty->w); return H_OK; }
H(hSchedYield) {
  setRet(in, r, 0);
  int c = s.cur;
  bool other = false;
  for (auto& x : s.th) if (x.id != c && x.status == Thread::Run) other = true;
  if (!other) {
    // nobody else can run: let a timed waiter time out
    for (auto& x : s.th) if (x.status == Thread::Blocked && x.timed) { x.status = Thread::Run; other = true; break; }
    if (!other) return H_OK;
  }
  if (in.dst >= 0) setReg(s.F(), in.dst, r);
  advance(s, in);
  if (!schedule(s)) return H_STOP;
  return H_JUMP;
}
H(hSchedPoint) { preemptPoint(s); return H_OK; }
H(hWaitOn) {
  concretize(s, a[0]);
  u64 key = (u64)a[0].c;
  if (in.dst >= 0) setReg(s.F(), in.dst, VC(0, in.ty->w));
  advance(s, in);
  HRes h = blockOn(s, key, false);
  return h == H_STOP ? H_STOP : H_JUMP;
}
H(hWaitOnTimed) {
  concretize(s, a[0]);
  u64 key = (u64)a[0].c;
  if (in.dst >= 0) setReg(s.F(), in.dst, VC(0, in.ty->w));
  advance(s, in);
  HRes h = blockOn(s, key, true);
  return h == H_STOP ? H_STOP : H_JUMP;
}
H(hNotify) {
  concretize(s, a[0]);
  wake(s, (u64)a[0].c, true);
  return H_OK;
}
H(hNotifyOne) {
  concretize(s, a[0]);
  wake(s, (u64)a[0].c, false);
  setRet(in, r, 0);
  return H_OK;
}
static bool mutexRecursive(State& s, u64 m) {
  Obj* o = s.mem.get(m >> 32);
  if (!o || (m & 0xffffffff) + 20 > o->size) return false;
  return (readObj(s, o, (m & 0xffffffff) + 16, 32).c & 3) == 1;
}
static bool rawUnlock(State& s, u64 m) {
  auto it = s.mutexes.find(m);
  if (it == s.mutexes.end() || it->second.first != s.cur + 1) return false;
  if (--it->second.second == 0) {
    s.mutexes.erase(it);
    wake(s, m, true);
  }
  return true;
}
H(hMutexLock) {
  concretize(s, a[0]);
  u64 m = (u64)a[0].c;
  if (m < 4096) { violation(s, "memory", "lock of null mutex"); return H_STOP; }
  if (s.th.size() > 1) preemptPoint(s);
  auto it = s.mutexes.find(m);
  if (it != s.mutexes.end()) {
    if (it->second.first == s.cur + 1) {
      if (mutexRecursive(s, m)) { it->second.second++; setRet(in, r, 0); return H_OK; }
      violation(s, "deadlock", "mutex locked twice by the same thread");
      return H_STOP;
    }
    return blockOn(s, m, false);
  }
  s.mutexes[m] = {s.cur + 1, 1};
  setRet(in, r, 0);
  return H_OK;
}
H(hMutexTry) {
  concretize(s, a[0]);
  u64 m = (u64)a[0].c;
  auto it = s.mutexes.find(m);
  if (it != s.mutexes.end()) {
    if (it->second.first == s.cur + 1 && mutexRecursive(s, m)) { it->second.second++; setRet(in, r, 0); return H_OK; }
    setRet(in, r, 16);
    return H_OK;
  }
  s.mutexes[m] = {s.cur + 1, 1};
  setRet(in, r, 0);
  return H_OK;
}
H(hMutexUnlock) {
  concretize(s, a[0]);
  if (!rawUnlock(s, (u64)a[0].c)) {
    violation(s, "thread", "unlock of a mutex the thread does not hold");
    return H_STOP;
  }
  setRet(in, r, 0);
  if (in.dst >= 0) setReg(s.F(), in.dst, r);
  advance(s, in);
  if (s.th.size() > 1) preemptPoint(s);
  return H_JUMP;
}
// sym_cond_unlock_wait(cond, mutex, timed): atomically unlock and wait
H(hCondWait) {
  concretize(s, a[0]);
  concretize(s, a[1]);
  concretize(s, a[2]);
  if (!rawUnlock(s, (u64)a[1].c)) { violation(s, "thread", "condition wait without holding the mutex"); return H_STOP; }
  advance(s, in);
  HRes h = blockOn(s, (u64)a[0].c ^ 0x8000000000000000ull, a[2].c != 0);
  return h == H_STOP ? H_STOP : H_JUMP;
}
H(hCondSignal) {
  concretize(s, a[0]);
  wake(s, (u64)a[0].c ^ 0x8000000000000000ull, false);
  setRet(in, r, 0);
  return H_OK;
}
H(hCondBroadcast) {
  concretize(s, a[0]);
  wake(s, (u64)a[0].c ^ 0x8000000000000000ull, true);
  setRet(in, r, 0);
  return H_OK;
}

// ----------------------------------------------------------------- memory ----
static HRes doAlloc(State& s, Inst& in, Val sz, Val& r, u8 fill) {
  concretize(s, sz);
  if ((u64)sz.c > (1ull << 31) - 1) {
    if (Fn* f = findFn("_ZSt17__throw_bad_allocv")) return tailTo(s, in, f, {});
    violation(s, "alloc", "allocation of " + std::to_string((u64)sz.c) + " bytes");
    return H_STOP;
  }
  r = VC(A(s.mem.alloc((u64)sz.c, 0, fill)), 64);
  return H_OK;
}
H(hMalloc) { return doAlloc(s, in, a[0], r, 0xAA); }
H(hAlignedAlloc) { return doAlloc(s, in, a[1], r, 0xAA); }
H(hPosixMemalign) {
  Val p;
  HRes h = doAlloc(s, in, a[2], p, 0xAA);
  if (h != H_OK) return h;
  if (!storeScalar(s, a[0], p)) return H_STOP;
  setRet(in, r, 0);
  return H_OK;
}
H(hCalloc) {
  concretize(s, a[0]);
  concretize(s, a[1]);
  return doAlloc(s, in, VC(a[0].c * a[1].c, 64), r, 0);
}
H(hFree) {
  concretize(s, a[0]);
  u64 p = (u64)a[0].c;
  if (!p) return H_OK;
  Obj* o = s.mem.get(p >> 32);
  if (!o || (p & 0xffffffff) || o->kind != 0) {
    violation(s, "memory", o ? "free of a pointer that is not a heap block" : "double free");
    return H_STOP;
  }
  s.mem.release(p >> 32);
  return H_OK;
}
H(hRealloc) {
  concretize(s, a[0]);
  concretize(s, a[1]);
  u64 p = (u64)a[0].c, n = (u64)a[1].c;
  u64 q = A(s.mem.alloc(n, 0, 0xAA));
  if (p) {
    Obj* o = s.mem.get(p >> 32);
    if (!o) { violation(s, "memory", "realloc of freed block"); return H_STOP; }
    std::vector<Expr*> sy;
    std::vector<u8> b;
    u64 m = std::min<u64>(n, o->size);
    if (!readBytes(s, p, m, sy, b) || !writeBytes(s, q, m, sy, b)) return H_STOP;
    s.mem.release(p >> 32);
  }
  r = VC(q, 64);
  return H_OK;
}
static bool copyMem(State& s, Val d, Val sr, Val n) {
  concretize(s, n);
  fixPtr(s, sr);
  u64 len = (u64)n.c;
  if (!len) return true;
  if (d.isSym()) concretize(s, d);
  std::vector<Expr*> sy;
  std::vector<u8> b;
  if (sr.isSym()) {
    if (len <= 64) {
      std::vector<Val> v(len);
      for (u64 i = 0; i < len; i++)
        if (!loadScalar(s, VE(mkBin(Op::Add, mkConst(i, 64), sr.e)), 8, v[i])) return false;
      for (u64 i = 0; i < len; i++)
        if (!storeScalar(s, VC(d.c + i, 64), v[i])) return false;
      return true;
    }
    concretize(s, sr);
  }
  return readBytes(s, (u64)sr.c, len, sy, b) && writeBytes(s, (u64)d.c, len, sy, b);
}
H(hMemcpy) {
  if (!copyMem(s, a[0], a[1], a[2])) return H_STOP;
  if (in.dst >= 0) { r = a[0]; }
  return H_OK;
}
H(hMemset) {
  concretize(s, a[2]);
  u64 n = (u64)a[2].c;
  if (n) {
    Val d = a[0];
    concretize(s, d);
    Val v = a[1].w > 8 ? castV(Instruction::Trunc, a[1], 8) : a[1];
    std::vector<Expr*> sy(n, v.e);
    std::vector<u8> b(n, v.isC() ? (u8)v.c : 0);
    if (!writeBytes(s, (u64)d.c, n, sy, b)) return H_STOP;
  }
  if (in.dst >= 0) r = a[0];
  return H_OK;
}
static bool bytesAt(State& s, const Val& p, u64 n, std::vector<Val>& out) {
  out.resize(n);
  if (p.isC()) {
    std::vector<Expr*> sy;
    std::vector<u8> b;
    if (!readBytes(s, (u64)p.c, n, sy, b)) return false;
    for (u64 i = 0; i < n; i++) out[i] = sy[i] ? VE(sy[i]) : VC(b[i], 8);
    return true;
  }
  for (u64 i = 0; i < n; i++)
    if (!loadScalar(s, VE(mkBin(Op::Add, mkConst(i, 64), p.e)), 8, out[i])) return false;
  return true;
}
static HRes cmpMem(State& s, Val p, Val q, Val n, bool eqOnly, Val& r, u32 w) {
  concretize(s, n);
  fixPtr(s, p);
  fixPtr(s, q);
  u64 len = (u64)n.c;
  std::vector<Val> x, y;
  if (len && (!bytesAt(s, p, len, x) || !bytesAt(s, q, len, y))) return H_STOP;
  if (eqOnly) {
    Expr* e = mkConst(1, 1);
    for (u64 i = 0; i < len; i++) e = mkBin(Op::And, e, mkBin(Op::Eq, x[i].ex(), y[i].ex()));
    r = VE(mkZExt(mkNot(e), w));
    return H_OK;
  }
  Expr* e = mkConst(0, w);
  for (u64 i = len; i-- > 0;) {
    Expr* c = mkBin(Op::Eq, x[i].ex(), y[i].ex());
    Expr* lt = mkBin(Op::Ult, x[i].ex(), y[i].ex());
    e = mkIte(c, e, mkIte(lt, mkConst((u128)-1, w), mkConst(1, w)));
  }
  r = VE(e);
  return H_OK;
}
H(hMemcmp) { return cmpMem(s, a[0], a[1], a[2], false, r, in.ty->w); }
H(hBcmp) { return cmpMem(s, a[0], a[1], a[2], true, r, in.ty->w); }
static bool isZero(State& s, const Val& v) {  // fork on v == 0 (re-executes)
  if (v.isC()) return v.c == 0;
  Expr* e = mkBin(Op::Eq, mkConst(0, v.w), v.e);
  bool side;
  Model other;
  int r = evalBranch(s, e, side, other);
  if (r != 2) return r;
  State* o = forkState(s);
  addPC(*o, side ? mkNot(e) : e);
  setModel(*o, other);
  work.push_back(o);
  addPC(s, side ? e : mkNot(e));
  return side;
}
H(hStrlen) {
  concretize(s, a[0]);
  u64 p = (u64)a[0].c, n = 0;
  for (;; n++) {
    Val c;
    if (!loadScalar(s, VC(p + n, 64), 8, c)) return H_STOP;
    if (isZero(s, c)) break;
  }
  r = VC(n, 64);
  return H_OK;
}
H(hMemchr) {
  concretize(s, a[0]);
  concretize(s, a[2]);
  Val ch = a[1].isC() ? VC(a[1].c, 8) : VE(mkExtract(a[1].e, 0, 8));
  for (u64 i = 0; i < (u64)a[2].c; i++) {
    Val c;
    if (!loadScalar(s, VC(a[0].c + i, 64), 8, c)) return H_STOP;
    if (isZero(s, binV(Op::Xor, c, ch))) { r = VC(a[0].c + i, 64); return H_OK; }
  }
  r = VC(0, 64);
  return H_OK;
}
static HRes strcmpN(State& s, std::vector<Val>& a, u64 lim, Val& r, u32 w) {
  concretize(s, a[0]);
  concretize(s, a[1]);
  for (u64 i = 0; i < lim; i++) {
    Val x, y;
    if (!loadScalar(s, VC(a[0].c + i, 64), 8, x) || !loadScalar(s, VC(a[1].c + i, 64), 8, y)) return H_STOP;
    if (!isZero(s, binV(Op::Xor, x, y))) {
      if (x.isC() && y.isC()) { r = VC(x.c < y.c ? (u128)-1 : 1, w); return H_OK; }
      r = VE(mkIte(mkBin(Op::Ult, x.ex(), y.ex()), mkConst((u128)-1, w), mkConst(1, w)));
      return H_OK;
    }
    if (isZero(s, x)) break;
  }
  r = VC(0, w);
  return H_OK;
}
H(hStrcmp) { return strcmpN(s, a, ~0ull, r, in.ty->w); }
H(hStrncmp) { concretize(s, a[2]); return strcmpN(s, a, (u64)a[2].c, r, in.ty->w); }

// ------------------------------------------------------------- termination ---
H(hAbort) {
  violation(s, "abort", "call to " + (in.callee ? in.callee->name : std::string("abort")));
  return H_STOP;
}
H(hTerminate) { violation(s, "terminate", "std::terminate called"); return H_STOP; }
H(hAssertFail) {
  std::string m;
  cstr(s, a[0], m);
  violation(s, "assert", "assert(" + m + ") failed");
  return H_STOP;
}
H(hExit) { recordPath(s); return H_STOP; }

// --------------------------------------------------------------- exceptions --
static Fn* dummyFn() {
  static Fn* d = nullptr;
  if (!d) { d = new Fn; d->prepared = true; d->name = "<throw>"; }
  return d;
}
static HRes doThrow(State& s, Inst& in, u64 exc) {
  s.T().uncaught++;
  if (in.op == Instruction::Invoke) {
    s.T().st.emplace_back();
    Frame& f = s.T().st.back();
    f.fn = dummyFn();
    f.unwind = &in.edges[1];
  } else {
    s.T().st.emplace_back();
    s.T().st.back().fn = dummyFn();
  }
  return unwindExc(s, exc);
}
H(hCxaAlloc) {
  HRes h = doAlloc(s, in, a[0], r, 0);
  if (h == H_OK) s.exc[(u64)r.c] = ExcInfo();
  return h;
}
H(hCxaFree) { s.exc.erase((u64)a[0].c); return H_OK; }
H(hCxaThrow) {
  u64 e = (u64)a[0].c;
  s.exc[e].ti = (u64)a[1].c;
  s.exc[e].dtor = (u64)a[2].c;
  return doThrow(s, in, e);
}
H(hCxaBegin) {
  u64 e = (u64)a[0].c;
  auto it = s.exc.find(e);
  if (it == s.exc.end()) { violation(s, "internal", "begin_catch of unknown exception"); return H_STOP; }
  it->second.handlers++;
  if (it->second.rethrown) { it->second.rethrown = false; it->second.refs--; }
  s.T().caught.push_back(e);
  if (s.T().uncaught) s.T().uncaught--;
  r = VC(it->second.adjusted ? it->second.adjusted : e, 64);
  return H_OK;
}
H(hCxaEnd) {
  if (s.T().caught.empty()) { violation(s, "internal", "end_catch without catch"); return H_STOP; }
  u64 e = s.T().caught.back();
  s.T().caught.pop_back();
  ExcInfo& x = s.exc[e];
  x.handlers--;
  if (x.handlers <= 0 && x.refs <= 0) {
    u64 d = x.dtor;
    s.exc.erase(e);
    if (d) {
      auto it = fnById.find(d >> 32);
      if (it != fnById.end() && !it->second->F->isDeclaration()) {
        Inst* I = &in;
        advance(s, *I);
        pushFrame(s, it->second, {VC(e, 64)}, -1, nullptr, nullptr);
        return H_JUMP;
      }
    }
  }
  return H_OK;
}
H(hCxaRethrow) {
  if (s.T().caught.empty()) { violation(s, "terminate", "rethrow without exception"); return H_STOP; }
  u64 e = s.T().caught.back();
  s.exc[e].refs++;
  s.exc[e].rethrown = true;
  return doThrow(s, in, e);
}
H(hCxaGetPtr) { r = VC(s.exc[(u64)a[0].c].adjusted, 64); return H_OK; }
H(hUncaught) { r = VC(s.T().uncaught, in.ty->w); return H_OK; }
H(hCurExc) {  // current_exception(sret)
  u64 e = s.T().caught.empty() ? 0 : s.T().caught.back();
  if (e) s.exc[e].refs++;
  return storeScalar(s, a[0], VC(e, 64)) ? H_OK : H_STOP;
}
H(hEpAddref) {
  Val v;
  if (!loadScalar(s, a[0], 64, v)) return H_STOP;
  if (v.c && s.exc.count((u64)v.c)) s.exc[(u64)v.c].refs++;
  return H_OK;
}
H(hEpRelease) {
  Val v;
  if (!loadScalar(s, a[0], 64, v)) return H_STOP;
  if (v.c && s.exc.count((u64)v.c)) s.exc[(u64)v.c].refs--;
  return H_OK;
}
H(hEpCopy) {
  Val v;
  if (!loadScalar(s, a[1], 64, v)) return H_STOP;
  if (v.c && s.exc.count((u64)v.c)) s.exc[(u64)v.c].refs++;
  return storeScalar(s, a[0], v) ? H_OK : H_STOP;
}
H(hEpCtorPtr) {  // exception_ptr(void*)
  if (a[1].c && s.exc.count((u64)a[1].c)) s.exc[(u64)a[1].c].refs++;
  return storeScalar(s, a[0], a[1]) ? H_OK : H_STOP;
}
H(hEpZero) { return storeScalar(s, a[0], VC(0, 64)) ? H_OK : H_STOP; }
H(hEpAssign) {
  Val v, o;
  if (!loadScalar(s, a[1], 64, v) || !loadScalar(s, a[0], 64, o)) return H_STOP;
  if (v.c && s.exc.count((u64)v.c)) s.exc[(u64)v.c].refs++;
  if (o.c && s.exc.count((u64)o.c)) s.exc[(u64)o.c].refs--;
  r = a[0];
  return storeScalar(s, a[0], v) ? H_OK : H_STOP;
}
H(hEpBool) {
  Val v;
  if (!loadScalar(s, a[0], 64, v)) return H_STOP;
  r = VC(v.c != 0, in.ty->w);
  return H_OK;
}
H(hEpSwap) {
  Val v, o;
  if (!loadScalar(s, a[1], 64, v) || !loadScalar(s, a[0], 64, o)) return H_STOP;
  return storeScalar(s, a[0], v) && storeScalar(s, a[1], o) ? H_OK : H_STOP;
}
H(hRethrowExc) {
  Val v;
  if (!loadScalar(s, a[0], 64, v)) return H_STOP;
  if (!s.exc.count((u64)v.c)) { violation(s, "terminate", "rethrow_exception of null"); return H_STOP; }
  s.exc[(u64)v.c].refs++;
  return doThrow(s, in, (u64)v.c);
}
H(hCxaInitPrimary) {  // (obj, ti, dtor)
  u64 e = (u64)a[0].c;
  s.exc[e].ti = (u64)a[1].c;
  s.exc[e].dtor = (u64)a[2].c;
  s.exc[e].adjusted = e;
  r = a[0];
  return H_OK;
}
H(hGuardAcquire) {
  Val v;
  if (!loadScalar(s, a[0], 8, v)) return H_STOP;
  if (v.c) { setRet(in, r, 0); return H_OK; }
  Val g;
  if (!loadScalar(s, VC(a[0].c + 1, 64), 8, g)) return H_STOP;
  if (g.c) return blockOn(s, (u64)a[0].c, false);
  if (!storeScalar(s, VC(a[0].c + 1, 64), VC(1, 8))) return H_STOP;
  setRet(in, r, 1);
  return H_OK;
}
H(hGuardRelease) {
  if (!storeScalar(s, a[0], VC(1, 8)) || !storeScalar(s, VC(a[0].c + 1, 64), VC(0, 8))) return H_STOP;
  wake(s, (u64)a[0].c, true);
  return H_OK;
}
H(hGuardAbort) {
  if (!storeScalar(s, VC(a[0].c + 1, 64), VC(0, 8))) return H_STOP;
  wake(s, (u64)a[0].c, true);
  return H_OK;
}
H(hDynCast) {
  Val src = a[0];
  concretize(s, src);
  if (!src.c) { r = VC(0, 64); return H_OK; }
  Val vp, ott, ti;
  if (!loadScalar(s, src, 64, vp)) return H_STOP;
  if (!loadScalar(s, VC(vp.c - 16, 64), 64, ott) || !loadScalar(s, VC(vp.c - 8, 64), 64, ti)) return H_STOP;
  u64 full = (u64)(src.c + ott.c);
  s128 off = 0;
  if (tiMatch(s, (u64)ti.c, (u64)a[2].c, off, full)) r = VC(full + (u64)off, 64);
  else r = VC(0, 64);
  return H_OK;
}

// -------------------------------------------------------------------- math ---
template <long double (*F)(long double)>
static HRes fp1(State& s, Inst& in, std::vector<Val>& a, Val& r) {
  if (in.ty->k == Ty::Vec) {
    std::vector<Val> v;
    for (u32 i = 0; i < a[0].agg->n; i++) {
      Val x = a[0].agg->v[i];
      concretize(s, x);
      v.push_back(fpPut(F(fpGet(x, in.ty->el[0])), in.ty->el[0]));
    }
    r = mkAgg(v);
    return H_OK;
  }
  concretize(s, a[0]);
  r = fpPut(F(fpGet(a[0], in.ty)), in.ty);
  return H_OK;
}
// double versions that must round like libm's double functions
template <double (*F)(double), long double (*L)(long double)>
static HRes fp1d(State& s, Inst& in, std::vector<Val>& a, Val& r) {
  concretize(s, a[0]);
  long double x = fpGet(a[0], in.ty);
  r = fpPut(in.ty->k == Ty::F80 ? L(x) : (long double)F((double)x), in.ty);
  return H_OK;
}
template <double (*F)(double, double), long double (*L)(long double, long double)>
static HRes fp2d(State& s, Inst& in, std::vector<Val>& a, Val& r) {
  concretize(s, a[0]);
  concretize(s, a[1]);
  long double x = fpGet(a[0], in.ty), y = fpGet(a[1], in.ty);
  r = fpPut(in.ty->k == Ty::F80 ? L(x, y) : (long double)F((double)x, (double)y), in.ty);
  return H_OK;
}
H(hFma) {
  for (int i = 0; i < 3; i++) concretize(s, a[i]);
  if (in.ty->k == Ty::F64) {
    double x = fpGet(a[0], in.ty), y = fpGet(a[1], in.ty), z = fpGet(a[2], in.ty);
    r = fpPut(x * y + z, in.ty);
  } else r = fpPut(fpGet(a[0], in.ty) * fpGet(a[1], in.ty) + fpGet(a[2], in.ty), in.ty);
  return H_OK;
}
H(hLround) {
  concretize(s, a[0]);
  u64 aw = a[0].w;
  long double x = aw == 32 ? bitsF(a[0].c) : aw == 64 ? bitsD(a[0].c) : bitsL(a[0].c);
  r = VC((u128)(s128)llroundl(x), in.ty->w);
  return H_OK;
}
H(hClock) { s.clock += 1000; r = VC(s.clock, in.ty->w); return H_OK; }
H(hClockGettime) {
  s.clock += 1000;
  if (!storeScalar(s, a[1], VC(1700000000 + s.clock / 1000000000, 64))) return H_STOP;
  if (!storeScalar(s, VC(a[1].c + 8, 64), VC(s.clock % 1000000000, 64))) return H_STOP;
  setRet(in, r, 0);
  return H_OK;
}
H(hErrno) {
  static const char key = 0;
  (void)key;
  // one errno per state, kept in the thread's key map
  auto& k = s.T().keys[0xe];
  if (!k) k = A(s.mem.alloc(8, 0, 0));
  r = VC(k, 64);
  return H_OK;
}
H(hPrint) {
  if (cfg.verbose) { std::string m; cstr(s, a[0], m); fprintf(stderr, "[s%lu] %s", s.id, m.c_str()); }
  setRet(in, r, 0);
  return H_OK;
}

// -------------------------------------------------------------- intrinsics ---
static Val map1(const Val& a, const std::function<Val(const Val&)>& f) {
  if (!a.isAgg()) return f(a);
  std::vector<Val> v;
  for (u32 i = 0; i < a.agg->n; i++) v.push_back(f(a.agg->v[i]));
  return mkAgg(v);
}
static Val iteV(const Val& c, const Val& x, const Val& y) {
  if (c.isC()) return c.c ? x : y;
  return VE(mkIte(c.e, x.ex(), y.ex()));
}
static Expr* bitE(Expr* e, unsigned i) { return mkExtract(e, i, 1); }
H(iNop) { setRet(in, r, 0); return H_OK; }
H(iTrap) { violation(s, "trap", "trap/unreachable executed"); return H_STOP; }
H(iObjSize) { r = VC(a[1].c ? 0 : (u128)-1, in.ty->w); return H_OK; }
H(iTypeid) { r = VC(typeId((u64)a[0].c), 32); return H_OK; }
H(iTls) {
  // per-thread copy
  const CallBase* cb = cast<CallBase>(in.I);
  auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
  if (!gv) { r = a[0]; return H_OK; }
  u64& p = s.T().tls[gv];
  if (!p) {
    u64 sz = DL->getTypeAllocSize(gv->getValueType());
    u32 id = s.mem.alloc(sz, 2, 0);
    if (gv->hasInitializer()) initGlobal(s.mem.wget(id), 0, gv->getInitializer());
    p = A(id);
  }
  r = VC(p, 64);
  return H_OK;
}
H(iMinMax) {
  unsigned id = in.sub;
  r = mapV(a[0], a[1], [&](const Val& x, const Val& y) {
    Val c;
    switch (id) {
      case Intrinsic::umin: c = binV(Op::Ult, x, y); break;
      case Intrinsic::umax: c = binV(Op::Ult, y, x); break;
      case Intrinsic::smin: c = binV(Op::Slt, x, y); break;
      default: c = binV(Op::Slt, y, x); break;
    }
    return iteV(c, x, y);
  });
  return H_OK;
}
H(iAbs) {
  r = map1(a[0], [&](const Val& x) { return iteV(binV(Op::Slt, x, VC(0, x.w)), binV(Op::Sub, VC(0, x.w), x), x); });
  return H_OK;
}
H(iBits) {
  unsigned id = in.sub;
  r = map1(a[0], [&](const Val& x) -> Val {
    unsigned w = x.w;
    if (x.isC()) {
      unsigned n = 0;
      switch (id) {
        case Intrinsic::ctpop: for (unsigned i = 0; i < w; i++) n += (x.c >> i) & 1; return VC(n, w);
        case Intrinsic::cttz: while (n < w && !((x.c >> n) & 1)) n++; return VC(n, w);
        case Intrinsic::ctlz: while (n < w && !((x.c >> (w - 1 - n)) & 1)) n++; return VC(n, w);
        case Intrinsic::bswap: { u128 v = 0; for (unsigned i = 0; i < w; i += 8) v = (v << 8) | ((x.c >> i) & 0xff); return VC(v, w); }
        default: { u128 v = 0; for (unsigned i = 0; i < w; i++) v = (v << 1) | ((x.c >> i) & 1); return VC(v, w); }
      }
    }
    switch (id) {
      case Intrinsic::ctpop: {
        Expr* e = mkConst(0, w);
        for (unsigned i = 0; i < w; i++) e = mkBin(Op::Add, e, mkZExt(bitE(x.e, i), w));
        return VE(e);
      }
      case Intrinsic::cttz: {
        Expr* e = mkConst(w, w);
        for (unsigned i = w; i-- > 0;) e = mkIte(bitE(x.e, i), mkConst(i, w), e);
        return VE(e);
      }
      case Intrinsic::ctlz: {
        Expr* e = mkConst(w, w);
        for (unsigned i = 0; i < w; i++) e = mkIte(bitE(x.e, i), mkConst(w - 1 - i, w), e);
        return VE(e);
      }
      case Intrinsic::bswap: {
        Expr* e = mkExtract(x.e, 0, 8);
        for (unsigned i = 8; i < w; i += 8) e = mkConcat(e, mkExtract(x.e, i, 8));
        return VE(e);
      }
      default: {
        Expr* e = bitE(x.e, 0);
        for (unsigned i = 1; i < w; i++) e = mkConcat(e, bitE(x.e, i));
        return VE(e);
      }
    }
  });
  return H_OK;
}
H(iFunnel) {
  bool left = in.sub == Intrinsic::fshl;
  auto one = [&](const Val& x, const Val& y, const Val& z) -> Val {
    unsigned w = x.w;
    Val m = (w & (w - 1)) == 0 ? binV(Op::And, z, VC(w - 1, w)) : binV(Op::URem, z, VC(w, w));
    Val inv = binV(Op::Sub, VC(w, w), m);
    // x<<m | y>>(w-m)   (shift by w yields 0 in our semantics)
    if (left) return binV(Op::Or, binV(Op::Shl, x, m), binV(Op::LShr, y, inv));
    return binV(Op::Or, binV(Op::Shl, x, inv), binV(Op::LShr, y, m));
  };
  if (a[0].isAgg()) {
    std::vector<Val> v;
    for (u32 i = 0; i < a[0].agg->n; i++) v.push_back(one(a[0].agg->v[i], a[1].agg->v[i], a[2].agg->v[i]));
    r = mkAgg(v);
  } else r = one(a[0], a[1], a[2]);
  return H_OK;
}
H(iOverflow) {
  const Val &x = a[0], &y = a[1];
  unsigned w = x.w;
  Val res, ov;
  switch (in.sub) {
    case Intrinsic::uadd_with_overflow: res = binV(Op::Add, x, y); ov = binV(Op::Ult, res, x); break;
    case Intrinsic::usub_with_overflow: res = binV(Op::Sub, x, y); ov = binV(Op::Ult, x, y); break;
    case Intrinsic::sadd_with_overflow: {
      res = binV(Op::Add, x, y);
      Val t = binV(Op::And, binV(Op::Xor, x, res), binV(Op::Xor, y, res));
      ov = binV(Op::Slt, t, VC(0, w));
      break;
    }
    case Intrinsic::ssub_with_overflow: {
      res = binV(Op::Sub, x, y);
      Val t = binV(Op::And, binV(Op::Xor, x, y), binV(Op::Xor, x, res));
      ov = binV(Op::Slt, t, VC(0, w));
      break;
    }
    case Intrinsic::umul_with_overflow: {
      res = binV(Op::Mul, x, y);
      if (x.isC() && y.isC() && w > 64) { ov = VC(x.c && res.c / x.c != y.c, 1); break; }
      if (w > 64) { violation(s, "internal", "wide mul overflow"); return H_STOP; }
      Val p = binV(Op::Mul, castV(Instruction::ZExt, x, 2 * w), castV(Instruction::ZExt, y, 2 * w));
      ov = binV(Op::Ult, VC(maskw(w), 2 * w), p);
      break;
    }
    default: {
      if (w > 64) { violation(s, "internal", "wide mul overflow"); return H_STOP; }
      res = binV(Op::Mul, x, y);
      Val p = binV(Op::Mul, castV(Instruction::SExt, x, 2 * w), castV(Instruction::SExt, y, 2 * w));
      Val q = castV(Instruction::SExt, res, 2 * w);
      ov = icmpV(CmpInst::ICMP_NE, p, q);
    }
  }
  r = mkAgg({res, ov});
  return H_OK;
}
H(iSat) {
  unsigned id = in.sub;
  r = mapV(a[0], a[1], [&](const Val& x, const Val& y) -> Val {
    unsigned w = x.w;
    if (id == Intrinsic::usub_sat) return iteV(binV(Op::Ult, x, y), VC(0, w), binV(Op::Sub, x, y));
    if (id == Intrinsic::uadd_sat) {
      Val t = binV(Op::Add, x, y);
      return iteV(binV(Op::Ult, t, x), VC(maskw(w), w), t);
    }
    Val mx = VC(maskw(w) >> 1, w), mn = VC((u128)1 << (w - 1), w);
    if (id == Intrinsic::sadd_sat) {
      Val t = binV(Op::Add, x, y);
      Val o = binV(Op::Slt, binV(Op::And, binV(Op::Xor, x, t), binV(Op::Xor, y, t)), VC(0, w));
      return iteV(o, iteV(binV(Op::Slt, x, VC(0, w)), mn, mx), t);
    }
    Val t = binV(Op::Sub, x, y);
    Val o = binV(Op::Slt, binV(Op::And, binV(Op::Xor, x, y), binV(Op::Xor, x, t)), VC(0, w));
    return iteV(o, iteV(binV(Op::Slt, x, VC(0, w)), mn, mx), t);
  });
  return H_OK;
}
H(iReduce) {
  Val acc = a[0].agg->v[0];
  for (u32 i = 1; i < a[0].agg->n; i++) {
    Val y = a[0].agg->v[i];
    switch (in.sub) {
      case Intrinsic::vector_reduce_add: acc = binV(Op::Add, acc, y); break;
      case Intrinsic::vector_reduce_and: acc = binV(Op::And, acc, y); break;
      case Intrinsic::vector_reduce_or: acc = binV(Op::Or, acc, y); break;
      case Intrinsic::vector_reduce_xor: acc = binV(Op::Xor, acc, y); break;
      case Intrinsic::vector_reduce_mul: acc = binV(Op::Mul, acc, y); break;
      case Intrinsic::vector_reduce_umax: acc = iteV(binV(Op::Ult, acc, y), y, acc); break;
      case Intrinsic::vector_reduce_umin: acc = iteV(binV(Op::Ult, y, acc), y, acc); break;
      default: violation(s, "internal", "vector reduce"); return H_STOP;
    }
  }
  r = acc;
  return H_OK;
}
H(iUcmp) {
  Val lt = binV(in.callee->name.find("scmp") != std::string::npos ? Op::Slt : Op::Ult, a[0], a[1]);
  Val gt = binV(in.callee->name.find("scmp") != std::string::npos ? Op::Slt : Op::Ult, a[1], a[0]);
  r = iteV(lt, VC((u128)-1, in.ty->w), iteV(gt, VC(1, in.ty->w), VC(0, in.ty->w)));
  return H_OK;
}
// carry-less multiplication of 64-bit lanes (PCLMULQDQ)
H(iClmul) {
  unsigned imm = (unsigned)a[2].c;
  Val x = a[0].agg->v[imm & 1], y = a[1].agg->v[(imm >> 4) & 1];
  if (x.isC() && y.isC()) {
    u128 p = 0;
    for (int i = 0; i < 64; i++) if ((x.c >> i) & 1) p ^= (y.c & maskw(64)) << i;
    r = mkAgg({VC(p, 64), VC(p >> 64, 64)});
    return H_OK;
  }
  if (y.isC() || (x.isSym() && y.isSym() && y.e->id < x.e->id)) std::swap(x, y);
  Expr* p = mkConst(0, 128);
  Expr* ye = mkZExt(y.ex(), 128);
  for (int i = 0; i < 64; i++) {
    Expr* sh = mkBin(Op::Shl, ye, mkConst(i, 128));
    if (x.isC()) { if ((x.c >> i) & 1) p = mkBin(Op::Xor, p, sh); }
    else p = mkBin(Op::Xor, p, mkIte(bitE(x.e, i), sh, mkConst(0, 128)));
  }
  r = mkAgg({VE(mkExtract(p, 0, 64)), VE(mkExtract(p, 64, 64))});
  return H_OK;
}
// _mm256_permutevar8x32, movmsk, etc. on demand
H(iMovmsk) {
  Expr* e = nullptr;
  for (u32 i = 0; i < a[0].agg->n; i++) {
    Expr* x = a[0].agg->v[i].ex();
    Expr* b = bitE(x, x->w - 1);
    e = e ? mkConcat(b, e) : b;
  }
  r = VE(mkZExt(e, in.ty->w));
  return H_OK;
}
H(iPshufb) {
  // pshufb: dst[i] = mask[i]&0x80 ? 0 : src[lane + (mask[i]&15)]
  std::vector<Val> v;
  for (u32 i = 0; i < a[0].agg->n; i++) {
    Val m = a[1].agg->v[i];
    if (!m.isC()) { violation(s, "internal", "symbolic pshufb mask"); return H_STOP; }
    v.push_back((m.c & 0x80) ? VC(0, 8) : a[0].agg->v[(i & ~15u) + (u32)(m.c & 15)]);
  }
  r = mkAgg(v);
  return H_OK;
}

static Handler intrinsicHandler(Function* F) {
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return hMemcpy;
    case Intrinsic::memset: case Intrinsic::memset_inline: return hMemset;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::stackrestore:
    case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::x86_avx_vzeroupper:
    case Intrinsic::invariant_start: case Intrinsic::stacksave: case Intrinsic::is_constant:
    case Intrinsic::vaend: case Intrinsic::x86_sse2_pause:
      return iNop;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect:
    case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
      return hArg0;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return iTrap;
    case Intrinsic::objectsize: return iObjSize;
    case Intrinsic::eh_typeid_for: return iTypeid;
    case Intrinsic::threadlocal_address: return iTls;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: return iMinMax;
    case Intrinsic::abs: return iAbs;
    case Intrinsic::ctpop: case Intrinsic::cttz: case Intrinsic::ctlz: case Intrinsic::bswap: case Intrinsic::bitreverse: return iBits;
    case Intrinsic::fshl: case Intrinsic::fshr: return iFunnel;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return iOverflow;
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: return iSat;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or:
    case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_umax:
    case Intrinsic::vector_reduce_umin: return iReduce;
    case Intrinsic::x86_pclmulqdq: return iClmul;
    case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: case Intrinsic::x86_sse_movmsk_ps:
    case Intrinsic::x86_sse2_movmsk_pd: return iMovmsk;
    case Intrinsic::x86_ssse3_pshuf_b_128: case Intrinsic::x86_avx2_pshuf_b: return iPshufb;
    case Intrinsic::floor: return fp1<floorl>;
    case Intrinsic::ceil: return fp1<ceill>;
    case Intrinsic::fabs: return fp1<fabsl>;
    case Intrinsic::round: return fp1<roundl>;
    case Intrinsic::trunc: return fp1<truncl>;
    case Intrinsic::rint: case Intrinsic::nearbyint: return fp1<rintl>;
    case Intrinsic::sqrt: return fp1d<sqrt, sqrtl>;
    case Intrinsic::log2: return fp1d<log2, log2l>;
    case Intrinsic::log: return fp1d<log, logl>;
    case Intrinsic::exp: return fp1d<exp, expl>;
    case Intrinsic::exp2: return fp1d<exp2, exp2l>;
    case Intrinsic::pow: return fp2d<pow, powl>;
    case Intrinsic::maxnum: return fp2d<fmax, fmaxl>;
    case Intrinsic::minnum: return fp2d<fmin, fminl>;
    case Intrinsic::fmuladd: case Intrinsic::fma: return hFma;
    case Intrinsic::lround: case Intrinsic::llround: return hLround;
    default: break;
  }
  return nullptr;
}

static Handler lookupHandler(const std::string& name) {
  static const std::unordered_map<std::string, Handler> t = {
      {"sym_bytes", hSymBytes}, {"sym_assume", hSymAssume}, {"sym_assert", hSymAssert}, {"sym_reach", hSymReach},
      {"sym_note", hSymNote}, {"sym_concretize", hSymConcretize}, {"sym_is_symbolic", hSymIsSym}, {"sym_param", hSymParam},
      {"sym_end_path", hSymEnd}, {"sym_fail", hSymFail}, {"sym_in_engine", hSymOne}, {"sym_select", hSymSelect},
      {"sym_thread_create", hThreadCreate}, {"sym_thread_join", hThreadJoin}, {"sym_sched_point", hSchedPoint},
      {"sym_wait_on", hWaitOn}, {"sym_wait_on_timed", hWaitOnTimed}, {"sym_notify", hNotify}, {"sym_notify_one", hNotifyOne}, {"sym_cond_unlock_wait", hCondWait},
      {"sym_thread_self", hThreadSelf}, {"sym_timed_out", hTimedOut}, {"sym_print", hPrint},
      {"pthread_self", hThreadSelf}, {"sched_yield", hSchedYield}, {"nanosleep", hSchedYield}, {"usleep", hSchedYield}, {"sleep", hSchedYield},
      {"pthread_mutex_lock", hMutexLock}, {"pthread_mutex_trylock", hMutexTry}, {"pthread_mutex_unlock", hMutexUnlock},
      {"pthread_rwlock_wrlock", hMutexLock}, {"pthread_rwlock_rdlock", hMutexLock}, {"pthread_rwlock_unlock", hMutexUnlock},
      {"pthread_mutex_init", hZero}, {"pthread_mutex_destroy", hZero}, {"pthread_cond_init", hZero}, {"pthread_cond_destroy", hZero},
      {"pthread_cond_signal", hCondSignal}, {"pthread_cond_broadcast", hCondBroadcast},
      {"pthread_detach", hZero},
      {"malloc", hMalloc}, {"_Znwm", hMalloc}, {"_Znam", hMalloc}, {"_ZnwmSt11align_val_t", hMalloc}, {"_ZnamSt11align_val_t", hMalloc},
      {"_ZnwmRKSt9nothrow_t", hMalloc}, {"_ZnamRKSt9nothrow_t", hMalloc}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", hMalloc},
      {"aligned_alloc", hAlignedAlloc}, {"posix_memalign", hPosixMemalign}, {"calloc", hCalloc}, {"realloc", hRealloc},
      {"free", hFree}, {"_ZdlPv", hFree}, {"_ZdaPv", hFree}, {"_ZdlPvm", hFree}, {"_ZdaPvm", hFree}, {"_ZdlPvSt11align_val_t", hFree},
      {"_ZdaPvSt11align_val_t", hFree}, {"_ZdlPvmSt11align_val_t", hFree}, {"_ZdaPvmSt11align_val_t", hFree}, {"_ZdlPvRKSt9nothrow_t", hFree}, {"_ZdaPvRKSt9nothrow_t", hFree},
      {"memcpy", hMemcpy}, {"memmove", hMemcpy}, {"__memcpy_chk", hMemcpy}, {"memset", hMemset}, {"memcmp", hMemcmp}, {"bcmp", hBcmp},
      {"strlen", hStrlen}, {"memchr", hMemchr}, {"strcmp", hStrcmp}, {"strncmp", hStrncmp},
      {"abort", hAbort}, {"_ZSt9terminatev", hTerminate}, {"__assert_fail", hAssertFail}, {"exit", hExit}, {"_exit", hExit},
      {"__cxa_allocate_exception", hCxaAlloc}, {"__cxa_free_exception", hCxaFree}, {"__cxa_throw", hCxaThrow},
      {"__cxa_begin_catch", hCxaBegin}, {"__cxa_end_catch", hCxaEnd}, {"__cxa_rethrow", hCxaRethrow},
      {"__cxa_get_exception_ptr", hCxaGetPtr}, {"_ZSt19uncaught_exceptionsv", hUncaught}, {"_ZSt18uncaught_exceptionv", hUncaught},
      {"_ZSt17current_exceptionv", hCurExc}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", hEpAddref},
      {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", hEpRelease}, {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", hEpCopy},
      {"_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", hEpCopy}, {"_ZNSt15__exception_ptr13exception_ptrC1EPv", hEpCtorPtr},
      {"_ZNSt15__exception_ptr13exception_ptrC2EPv", hEpCtorPtr}, {"_ZNSt15__exception_ptr13exception_ptrC1Ev", hEpZero},
      {"_ZNSt15__exception_ptr13exception_ptrC2Ev", hEpZero}, {"_ZNSt15__exception_ptr13exception_ptrD1Ev", hEpRelease},
      {"_ZNSt15__exception_ptr13exception_ptrD2Ev", hEpRelease}, {"_ZNSt15__exception_ptr13exception_ptraSERKS0_", hEpAssign},
      {"_ZNSt15__exception_ptr13exception_ptr4swapERS0_", hEpSwap}, {"_ZNKSt15__exception_ptr13exception_ptrcvbEv", hEpBool},
      {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", hRethrowExc}, {"__cxa_init_primary_exception", hCxaInitPrimary},
      {"__cxa_guard_acquire", hGuardAcquire}, {"__cxa_guard_release", hGuardRelease}, {"__cxa_guard_abort", hGuardAbort},
      {"__cxa_atexit", hZero}, {"__cxa_thread_atexit", hZero}, {"atexit", hZero}, {"__cxa_pure_virtual", hAbort}, {"__cxa_deleted_virtual", hAbort},
      {"__dynamic_cast", hDynCast},
      {"log2", fp1d<log2, log2l>}, {"log2l", fp1d<log2, log2l>}, {"log2f", fp1d<log2, log2l>}, {"log", fp1d<log, logl>}, {"logl", fp1d<log, logl>},
      {"log10", fp1d<log10, log10l>}, {"log1p", fp1d<log1p, log1pl>}, {"exp", fp1d<exp, expl>}, {"exp2", fp1d<exp2, exp2l>}, {"sqrt", fp1d<sqrt, sqrtl>}, {"sqrtl", fp1d<sqrt, sqrtl>},
      {"pow", fp2d<pow, powl>}, {"powl", fp2d<pow, powl>}, {"powf", fp2d<pow, powl>}, {"fmod", fp2d<fmod, fmodl>}, {"cbrt", fp1d<cbrt, cbrtl>},
      {"ceil", fp1<ceill>}, {"ceill", fp1<ceill>}, {"ceilf", fp1<ceill>}, {"floor", fp1<floorl>}, {"floorl", fp1<floorl>}, {"floorf", fp1<floorl>},
      {"round", fp1<roundl>}, {"roundl", fp1<roundl>}, {"fabs", fp1<fabsl>}, {"sin", fp1d<sin, sinl>}, {"cos", fp1d<cos, cosl>}, {"lround", hLround}, {"llround", hLround},
      {"_ZNSt6chrono3_V212steady_clock3nowEv", hClock}, {"_ZNSt6chrono3_V212system_clock3nowEv", hClock}, {"clock", hClock}, {"time", hClock},
      {"clock_gettime", hClockGettime}, {"__errno_location", hErrno}, {"getenv", hZero}, {"secure_getenv", hZero},
      {"printf", hZero}, {"fprintf", hZero}, {"puts", hZero}, {"putchar", hZero}, {"fputs", hZero}, {"fwrite", hZero}, {"fflush", hZero}, {"fputc", hZero}, {"perror", hZero},
      {"getpid", hZero}, {"_ZNSt8ios_base4InitC1Ev", hZero}, {"_ZNSt8ios_base4InitD1Ev", hZero},
      {"_ZNSt6thread20hardware_concurrencyEv", hCpus},
  };
  auto it = t.find(name);
  if (it == t.end()) return nullptr;
  return it->second;
}
