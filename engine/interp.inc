// ------------------------------------------------------------- interpreter --
static inline const Val& OP(State& s, Frame& f, int o) {
  return o >= 0 ? f.regs[o] : f.fn->consts[-o - 1];
}
static void setReg(Frame& f, int dst, const Val& v) { if (dst >= 0) f.regs[dst] = v; }

static void takeEdge(State& s, const Edge& e) {
  Frame& f = s.F();
  if (e.phis.size() == 1) {
    Val v = OP(s, f, e.phis[0].second);
    f.regs[e.phis[0].first] = v;
  } else if (!e.phis.empty()) {
    static std::vector<Val> tmp;
    tmp.clear();
    for (auto& p : e.phis) tmp.push_back(OP(s, f, p.second));
    for (size_t i = 0; i < e.phis.size(); i++) f.regs[e.phis[i].first] = tmp[i];
  }
  f.pc = e.target;
}

static Op llOp(unsigned o) {
  switch (o) {
    case Instruction::Add: return Op::Add;
    case Instruction::Sub: return Op::Sub;
    case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv;
    case Instruction::SDiv: return Op::SDiv;
    case Instruction::URem: return Op::URem;
    case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And;
    case Instruction::Or: return Op::Or;
    case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl;
    case Instruction::LShr: return Op::LShr;
    case Instruction::AShr: return Op::AShr;
  }
  abort();
}
static inline Val binV(Op op, const Val& a, const Val& b) {
  if (a.isC() && b.isC()) {
    bool cmp = op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle;
    if (a.w > 128) { fprintf(stderr, "psisym: wide int op\n"); }
    return VC(foldBin(op, a.c, b.c, a.w), cmp ? 1 : a.w);
  }
  return VE(mkBin(op, a.ex(), b.ex()));
}
static Val icmpV(unsigned pred, const Val& a, const Val& b) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return binV(Op::Eq, a, b);
    case CmpInst::ICMP_NE: {
      Val r = binV(Op::Eq, a, b);
      if (r.isC()) return VC(!r.c, 1);
      return VE(mkNot(r.e));
    }
    case CmpInst::ICMP_ULT: return binV(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return binV(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return binV(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return binV(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return binV(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return binV(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return binV(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return binV(Op::Sle, b, a);
  }
  abort();
}
static Val mapV(const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f) {
  if (!a.isAgg()) return f(a, b);
  std::vector<Val> r;
  for (u32 i = 0; i < a.agg->n; i++) r.push_back(f(a.agg->v[i], b.agg->v[i]));
  return mkAgg(r);
}
static Val castV(unsigned op, const Val& a, u32 w) {
  switch (op) {
    case Instruction::Trunc: return a.isC() ? VC(a.c, w) : VE(mkExtract(a.e, 0, w));
    case Instruction::ZExt: return a.isC() ? VC(a.c, w) : VE(mkZExt(a.e, w));
    case Instruction::SExt: return a.isC() ? VC((u128)sextw(a.c, a.w), w) : VE(mkSExt(a.e, w));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (w == a.w) return a;
      if (w < a.w) return a.isC() ? VC(a.c, w) : VE(mkExtract(a.e, 0, w));
      return a.isC() ? VC(a.c, w) : VE(mkZExt(a.e, w));
  }
  abort();
}
static long double fpGet(const Val& v, Ty* t) {
  switch (t->k) {
    case Ty::F32: return bitsF(v.c);
    case Ty::F64: return bitsD(v.c);
    default: return bitsL(v.c);
  }
}
static Val fpPut(long double d, Ty* t) {
  switch (t->k) {
    case Ty::F32: return VC(fBits((float)d), 32);
    case Ty::F64: return VC(dBits((double)d), 64);
    default: return VC(lBits(d), 80);
  }
}
static bool fcmp(unsigned p, long double a, long double b) {
  bool un = isnan(a) || isnan(b);
  switch (p) {
    case CmpInst::FCMP_FALSE: return false;
    case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return !un && a == b;
    case CmpInst::FCMP_OGT: return !un && a > b;
    case CmpInst::FCMP_OGE: return !un && a >= b;
    case CmpInst::FCMP_OLT: return !un && a < b;
    case CmpInst::FCMP_OLE: return !un && a <= b;
    case CmpInst::FCMP_ONE: return !un && a != b;
    case CmpInst::FCMP_ORD: return !un;
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return un || a == b;
    case CmpInst::FCMP_UGT: return un || a > b;
    case CmpInst::FCMP_UGE: return un || a >= b;
    case CmpInst::FCMP_ULT: return un || a < b;
    case CmpInst::FCMP_ULE: return un || a <= b;
    case CmpInst::FCMP_UNE: return un || a != b;
  }
  return false;
}

// --- calls -------------------------------------------------------------------
static void pushFrame(State& s, Fn* fn, const std::vector<Val>& args, int retDst, const Edge* nrm, const Edge* unw) {
  prepare(fn);
  fn->executed = true;
  s.T().st.emplace_back();
  Frame& f = s.T().st.back();
  f.fn = fn;
  f.pc = 0;
  f.regs.resize(fn->nslots);
  size_t na = fn->F->arg_size();
  for (size_t i = 0; i < args.size(); i++) {
    if (i < na) {
      Argument* a = fn->F->getArg(i);
      if (a->hasByValAttr()) {
        // copy the object
        u64 sz = DL->getTypeAllocSize(a->getParamByValType());
        Val p = args[i];
        u32 id = s.mem.alloc(sz, 1, 0);
        f.allocas.push_back(id);
        std::vector<Expr*> sy;
        std::vector<u8> b;
        if (p.isC() && readBytes(s, (u64)p.c, sz, sy, b)) writeBytes(s, A(id), sz, sy, b);
        f.regs[i] = VC(A(id), 64);
      } else f.regs[i] = args[i];
    } else f.va.push_back(args[i]);
  }
  f.retDst = retDst;
  f.normal = nrm;
  f.unwind = unw;
}
static void dropFrame(State& s) {
  Frame& f = s.F();
  for (u32 id : f.allocas) s.mem.release(id);
  s.T().st.pop_back();
}

static bool isInst(u64 ti, const GlobalVariable*& gv) {
  auto it = gvById.find(ti >> 32);
  if (it == gvById.end()) return false;
  gv = it->second;
  return true;
}
static bool gvHas(const GlobalVariable* gv) { return gv->hasInitializer() && isa<ConstantStruct>(gv->getInitializer()); }
static std::string tiKind(const GlobalVariable* gv) {
  if (!gvHas(gv)) return "";
  const Constant* vt = cast<Constant>(gv->getInitializer()->getOperand(0));
  const Value* b = vt->stripInBoundsConstantOffsets();
  if (auto* ce = dyn_cast<ConstantExpr>(b)) b = ce->getOperand(0);
  return b->getName().str();
}
// Does thrown type ti match catch type want?  off = pointer adjustment.
static bool tiMatch(State& s, u64 ti, u64 want, s128& off, u64 objp) {
  if (ti == want) return true;
  const GlobalVariable *g, *w;
  if (!isInst(ti, g)) return false;
  if (isInst(want, w) && w->getName() == g->getName()) return true;
  std::string k = tiKind(g);
  if (k.find("si_class_type_info") != std::string::npos) {
    u64 base = (u64)constVal(cast<Constant>(g->getInitializer()->getOperand(2))).c;
    return tiMatch(s, base, want, off, objp);
  }
  if (k.find("vmi_class_type_info") != std::string::npos) {
    auto* st = g->getInitializer();
    u64 n = (u64)constVal(cast<Constant>(st->getOperand(3))).c;
    for (u64 i = 0; i < n; i++) {
      u64 base = (u64)constVal(cast<Constant>(st->getOperand(4 + 2 * i))).c;
      s128 fl = sextw(constVal(cast<Constant>(st->getOperand(5 + 2 * i))).c, 64);
      s128 o2 = off;
      s128 bo = fl >> 8;
      if (fl & 1) {  // virtual base: offset from vtable
        Val vp, vo;
        if (objp && loadScalar(s, VC(objp + (u64)o2, 64), 64, vp) && vp.isC() &&
            loadScalar(s, VC((u64)vp.c + (u64)bo, 64), 64, vo) && vo.isC())
          bo = sextw(vo.c, 64);
        else bo = 0;
      }
      o2 += bo;
      if (tiMatch(s, base, want, o2, objp)) { off = o2; return true; }
    }
    return false;
  }
  if (k.find("pointer_type_info") != std::string::npos && isInst(want, w) && tiKind(w).find("pointer_type_info") != std::string::npos) {
    // T* -> const T* (flags const bit) or same pointee
    u64 p1 = (u64)constVal(cast<Constant>(g->getInitializer()->getOperand(3))).c;
    u64 p2 = (u64)constVal(cast<Constant>(w->getInitializer()->getOperand(3))).c;
    return p1 == p2;
  }
  return false;
}
static u64 typeId(u64 ti) { return ti == 0 ? 0x7ffffff0 : (ti >> 32); }

static std::string excDesc(State& s, u64 exc) {
  auto it = s.exc.find(exc);
  if (it == s.exc.end()) return "?";
  const GlobalVariable* g;
  std::string r = "?";
  if (isInst(it->second.ti, g)) {
    r = demangle(g->getName().str());
    if (r.compare(0, 13, "typeinfo for ") == 0) r = r.substr(13);
    // try to print a what() string for types deriving std::runtime_error: {vptr, char*}
    Val p;
    Obj* o = s.mem.get(exc >> 32);
    if (o && o->size >= 16) {
      p = readObj(s, o, (exc & 0xffffffff) + 8, 64);
      if (p.isC() && s.mem.get((u64)p.c >> 32) && s.mem.get((u64)p.c >> 32)->kind != 3) {
        std::string t;
        Obj* q = s.mem.get((u64)p.c >> 32);
        for (u64 i = (u64)p.c & 0xffffffff; i < q->size && q->b[i] && t.size() < 300; i++) t += isprint(q->b[i]) ? (char)q->b[i] : '?';
        r += ": " + t;
      }
    }
  }
  return r;
}

// Unwind the current thread's stack with exception object exc.
static HRes unwindExc(State& s, u64 exc) {
  Thread& t = s.T();
  std::string desc = excDesc(s, exc), stk = stackStr(s);
  while (!t.st.empty()) {
    const Edge* uw = t.st.back().unwind;
    bool after = t.st.back().after;
    dropFrame(s);
    if (after || t.st.empty()) break;
    if (!uw) continue;
    Frame& f = t.st.back();
    Inst* lp = nullptr;
    // uw edges always lead to a landingpad (first non-phi instruction)
    lp = &f.fn->code[uw->target];
    if (lp->op != Instruction::LandingPad) continue;
    u64 sel = 0;
    bool take = lp->cleanup;
    for (auto& c : lp->clauses) {
      if (c.first == 1) { take = true; sel = 0xfffffff1; break; }
      s128 off = 0;
      if (c.second == 0) { sel = typeId(0); take = true; s.exc[exc].adjusted = exc; break; }
      if (tiMatch(s, s.exc[exc].ti, c.second, off, exc)) {
        sel = typeId(c.second);
        take = true;
        s.exc[exc].adjusted = exc + (u64)off;
        const GlobalVariable* g;
        if (isInst(s.exc[exc].ti, g) && tiKind(g).find("pointer_type_info") != std::string::npos) {
          Val pv;
          if (loadScalar(s, VC(exc, 64), 64, pv) && pv.isC()) s.exc[exc].adjusted = (u64)pv.c;
        }
        break;
      }
    }
    if (!take) continue;
    takeEdge(s, *uw);
    Frame& f2 = t.st.back();
    Inst& l = f2.fn->code[f2.pc];
    setReg(f2, l.dst, mkAgg({VC(exc, 64), VC(sel, 32)}));
    f2.pc++;
    return H_JUMP;
  }
  // uncaught
  s.notes.push_back("throw at:\n" + stk);
  violation(s, "uncaught", "uncaught exception: " + desc);
  violations.back().stack = stk;
  return H_STOP;
}

static bool threadFinish(State& s) {
  // current thread's stack is empty
  Thread& t = s.T();
  t.status = Thread::Done;
  for (auto& o : s.th)
    if (o.status == Thread::Blocked && o.waitAddr == (0xdead0000ull + t.id)) o.status = Thread::Run;
  return true;
}

// pick another thread to run; returns false on deadlock / end
static bool schedule(State& s) {
  std::vector<int> run;
  int n = s.th.size();
  for (int k = 1; k <= n; k++) {
    int i = (s.cur + k) % n;
    if (s.th[i].status == Thread::Run) run.push_back(i);
  }
  if (run.empty()) {
    for (int k = 1; k <= n; k++) {
      int i = (s.cur + k) % n;
      if (s.th[i].status == Thread::Blocked && s.th[i].timed) { s.th[i].status = Thread::Run; run.push_back(i); break; }
    }
  }
  if (run.empty()) return false;
  if (cfg.preempt >= 0 && run.size() > 1) {
    for (size_t i = 1; i < run.size() && !(cfg.deviate && s.preempt >= cfg.preempt); i++) {
      State* o = forkState(s);
      if (cfg.deviate) o->preempt++;
      o->cur = run[i];
      o->sched.push_back(run[i]);
      work.push_back(o);
    }
    s.sched.push_back(run[0]);
  }
  s.cur = run[0];
  return true;
}

static HRes callFn(State& s, Inst& in, Fn* fn, std::vector<Val>& args);

static void endState(State* s) { delete s; }

enum SR { S_CONT, S_END };

static void recordPath(State& s) {
  stPaths++;
  for (auto& r : s.reached) gReached.insert(r);
  // keep a few completed paths for replay against the native build: 1st, 2nd, 4th, 8th, ...
  if ((stPaths & (stPaths - 1)) == 0 && witnesses.size() < 24) {
    Violation v;
    for (auto& in : s.inputs) {
      std::vector<u8> b;
      for (u32 i = 0; i < in.size; i++) b.push_back(s.model->get(arrBase[in.arr] + i));
      v.inputs.push_back({in.name, b});
    }
    v.sched = s.sched;
    for (auto& r : s.reached) v.msg += r + ",";
    witnesses.push_back(v);
  }
}
static SR finishPath(State& s) {
  recordPath(s);
  return S_END;
}

static SR threadEmpty(State& s) {
  // stack of the current thread is empty
  if (s.cur == 0 && s.T().id == 0) {
    if (s.boot < (int)bootFns.size()) {
      Fn* f = getFn(bootFns[s.boot++]);
      std::vector<Val> a;
      if (f->F->arg_size() == 2) a = {VC(0, 32), VC(0, 64)};
      pushFrame(s, f, a, -1, nullptr, nullptr);
      return S_CONT;
    }
    return finishPath(s);
  }
  threadFinish(s);
  if (!schedule(s)) {
    violation(s, "deadlock", "no runnable thread after a thread finished");
    return S_END;
  }
  return S_CONT;
}

static SR stepInst(State& s) {
  Thread& t = s.T();
  if (t.st.empty()) return threadEmpty(s);
  Frame& f = t.st.back();
  if (f.pc >= (int)f.fn->code.size()) { violation(s, "internal", "pc past end"); return S_END; }
  Inst& in = f.fn->code[f.pc];
  if (cfg.trace) {
    std::string str;
    raw_string_ostream os(str);
    in.I->print(os);
    fprintf(stderr, "[%lu t%d d%zu] %s: %s\n", s.id, s.cur, t.st.size(), f.fn->name.c_str(), os.str().c_str());
  }
#define A0 OP(s, f, in.ops[0])
#define A1 OP(s, f, in.ops[1])
#define A2 OP(s, f, in.ops[2])
#define NEXT(v) { Val _r = (v); setReg(f, in.dst, _r); f.pc++; return S_CONT; }
  switch (in.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      const Val &a = A0, &b = A1;
      Op op = llOp(in.op);
      if (!a.isAgg()) { NEXT(binV(op, a, b)); }
      NEXT(mapV(a, b, [&](const Val& x, const Val& y) { return binV(op, x, y); }));
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val a = A0, b = A1;
      Op op = llOp(in.op);
      if (!a.isAgg()) {
        if (b.isC()) {
          if (!b.c) { violation(s, "divzero", "integer division by zero"); return S_END; }
        } else {
          Expr* nz = mkNot(mkBin(Op::Eq, mkConst(0, b.w), b.e));
          bool side;
          Model other;
          int r = evalBranch(s, nz, side, other);
          if (r == 0) { violation(s, "divzero", "integer division by zero"); return S_END; }
          if (r == 2) {
            violation(s, "divzero", "integer division by zero", side ? &other : s.model.get());
            return S_END;
          }
        }
        NEXT(binV(op, a, b));
      }
      NEXT(mapV(a, b, [&](const Val& x, const Val& y) { return binV(op, x, y); }));
    }
    case Instruction::ICmp: {
      const Val &a = A0, &b = A1;
      if (!a.isAgg()) { NEXT(icmpV(in.sub, a, b)); }
      NEXT(mapV(a, b, [&](const Val& x, const Val& y) { return icmpV(in.sub, x, y); }));
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: {
      Val a = A0, b = in.ops.size() > 1 ? A1 : A0;
      Ty* ft = in.ty->k == Ty::Vec ? in.ty->el[0] : in.ty;
      auto one = [&](Val x, Val y) {
        concretize(s, x);
        concretize(s, y);
        long double p = fpGet(x, ft), q = fpGet(y, ft), r = 0;
        if (ft->k == Ty::F64) {
          double u = (double)p, v = (double)q;
          switch (in.op) {
            case Instruction::FAdd: r = u + v; break;
            case Instruction::FSub: r = u - v; break;
            case Instruction::FMul: r = u * v; break;
            case Instruction::FDiv: r = u / v; break;
            case Instruction::FRem: r = fmod(u, v); break;
            default: r = -u;
          }
        } else if (ft->k == Ty::F32) {
          float u = (float)p, v = (float)q;
          switch (in.op) {
            case Instruction::FAdd: r = u + v; break;
            case Instruction::FSub: r = u - v; break;
            case Instruction::FMul: r = u * v; break;
            case Instruction::FDiv: r = u / v; break;
            case Instruction::FRem: r = fmodf(u, v); break;
            default: r = -u;
          }
        } else {
          switch (in.op) {
            case Instruction::FAdd: r = p + q; break;
            case Instruction::FSub: r = p - q; break;
            case Instruction::FMul: r = p * q; break;
            case Instruction::FDiv: r = p / q; break;
            case Instruction::FRem: r = fmodl(p, q); break;
            default: r = -p;
          }
        }
        return fpPut(r, ft);
      };
      NEXT(mapV(a, b, one));
    }
    case Instruction::FCmp: {
      Val a = A0, b = A1;
      Ty* ft = in.ty2->k == Ty::Vec ? in.ty2->el[0] : in.ty2;
      NEXT(mapV(a, b, [&](Val x, Val y) {
        concretize(s, x);
        concretize(s, y);
        return VC(fcmp(in.sub, fpGet(x, ft), fpGet(y, ft)), 1);
      }));
    }
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
    case Instruction::FPTrunc: case Instruction::FPExt: {
      Val a = A0;
      Ty* st = in.ty2->k == Ty::Vec ? in.ty2->el[0] : in.ty2;
      Ty* dt = in.ty->k == Ty::Vec ? in.ty->el[0] : in.ty;
      NEXT(mapV(a, a, [&](Val x, Val) {
        concretize(s, x);
        switch (in.op) {
          case Instruction::FPToUI: { long double d = fpGet(x, st); return VC(d < 0 ? (u128)(s128)d : (u128)d, dt->w); }
          case Instruction::FPToSI: return VC((u128)(s128)fpGet(x, st), dt->w);
          case Instruction::UIToFP: return dt->k == Ty::F32 ? fpPut((float)x.c, dt) : dt->k == Ty::F64 ? fpPut((double)x.c, dt) : fpPut((long double)x.c, dt);
          case Instruction::SIToFP: { s128 i = sextw(x.c, x.w); return dt->k == Ty::F32 ? fpPut((float)i, dt) : dt->k == Ty::F64 ? fpPut((double)i, dt) : fpPut((long double)i, dt); }
          default: return fpPut(fpGet(x, st), dt);
        }
      }));
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      const Val& a = A0;
      Ty* dt = in.ty->k == Ty::Vec ? in.ty->el[0] : in.ty;
      if (dt->w > 128) { violation(s, "internal", "wide int cast"); return S_END; }
      if (!a.isAgg()) { NEXT(castV(in.op, a, dt->w)); }
      NEXT(mapV(a, a, [&](const Val& x, const Val&) { return castV(in.op, x, dt->w); }));
    }
    case Instruction::BitCast: {
      const Val& a = A0;
      if (in.ty->isScalar() && !a.isAgg()) { Val r = a; NEXT(r); }
      // flatten to bits and rebuild
      std::vector<Expr*> bits;  // little endian pieces
      if (a.isAgg()) for (u32 i = 0; i < a.agg->n; i++) bits.push_back(a.agg->v[i].ex());
      else bits.push_back(a.ex());
      unsigned tot = 0;
      for (auto* e : bits) tot += e->w;
      auto slice = [&](unsigned off, unsigned w) {
        Expr* r = nullptr;
        unsigned p = 0;
        for (auto* e : bits) {
          unsigned lo = std::max(off, p), hi = std::min(off + w, p + e->w);
          if (lo < hi) {
            Expr* x = mkExtract(e, lo - p, hi - lo);
            r = r ? mkConcat(x, r) : x;
          }
          p += e->w;
        }
        return r;
      };
      if (in.ty->isScalar()) { NEXT(VE(slice(0, tot))); }
      std::vector<Val> v;
      unsigned ew = in.ty->el[0]->w;
      for (u32 i = 0; i < in.ty->n; i++) v.push_back(VE(slice(i * ew, ew)));
      NEXT(mkAgg(v));
    }
    case Instruction::Freeze: NEXT(Val(A0));
    case Instruction::Select: {
      Val c = A0, a = A1, b = A2;
      std::function<Val(const Val&, const Val&, const Val&)> sel = [&](const Val& c, const Val& a, const Val& b) -> Val {
        if (c.isAgg()) {
          std::vector<Val> r;
          for (u32 i = 0; i < c.agg->n; i++) r.push_back(sel(c.agg->v[i], a.agg->v[i], b.agg->v[i]));
          return mkAgg(r);
        }
        if (c.isC()) return c.c ? a : b;
        if (a.isAgg()) {
          std::vector<Val> r;
          for (u32 i = 0; i < a.agg->n; i++) r.push_back(sel(c, a.agg->v[i], b.agg->v[i]));
          return mkAgg(r);
        }
        return VE(mkIte(c.e, a.ex(), b.ex()));
      };
      NEXT(sel(c, a, b));
    }
    case Instruction::Br: {
      if (in.ops.empty()) { takeEdge(s, in.edges[0]); return S_CONT; }
      const Val& c = A0;
      if (c.isC()) { takeEdge(s, in.edges[c.c ? 0 : 1]); return S_CONT; }
      Expr* ce = c.e;
      bool side;
      Model other;
      int r = evalBranch(s, ce, side, other);
      if (r == 2) {
        State* o = forkState(s);
        addPC(*o, side ? mkNot(ce) : ce);
        setModel(*o, other);
        takeEdge(*o, in.edges[side ? 1 : 0]);
        work.push_back(o);
        addPC(s, side ? ce : mkNot(ce));
        takeEdge(s, in.edges[side ? 0 : 1]);
      } else {
        takeEdge(s, in.edges[r ? 0 : 1]);
      }
      return S_CONT;
    }
    case Instruction::Switch: {
      Val c = A0;
      if (c.isSym()) {
        // decide case by case, forking; re-executes for the others
        u128 v = evalExpr(c.e, *s.model);
        Expr* cond = nullptr;
        for (auto x : in.cases) if (x == v) cond = mkBin(Op::Eq, mkConst(v, c.w), c.e);
        if (!cond) {
          cond = mkConst(1, 1);
          for (auto x : in.cases) cond = mkBin(Op::And, cond, mkNot(mkBin(Op::Eq, mkConst(x, c.w), c.e)));
        } else {
          // cases sharing this target can be taken together
          int tgt = -1;
          for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v) tgt = i;
          Edge& te = in.edges[tgt + 1];
          for (size_t i = 0; i < in.cases.size(); i++) {
            Edge& oe = in.edges[i + 1];
            if ((int)i != tgt && oe.target == te.target && oe.phis == te.phis)
              cond = mkBin(Op::Or, cond, mkBin(Op::Eq, mkConst(in.cases[i], c.w), c.e));
          }
        }
        bool side;
        Model other;
        int r = evalBranch(s, cond, side, other);
        if (r == 2) {
          State* o = forkState(s);
          addPC(*o, mkNot(cond));
          setModel(*o, other);
          work.push_back(o);
        }
        addPC(s, cond);
        c = VC(v, c.w);
      }
      for (size_t i = 0; i < in.cases.size(); i++)
        if (in.cases[i] == c.c) { takeEdge(s, in.edges[i + 1]); return S_CONT; }
      takeEdge(s, in.edges[0]);
      return S_CONT;
    }
    case Instruction::Ret: {
      Val rv;
      if (!in.ops.empty()) rv = A0;
      int dst = f.retDst;
      const Edge* nrm = f.normal;
      u8 after = f.after;
      dropFrame(s);
      if (after == 1) { t.retval = (u64)rv.c; while (!t.st.empty()) dropFrame(s); return S_CONT; }
      if (t.st.empty()) return S_CONT;
      Frame& c = t.st.back();
      if (dst >= 0) c.regs[dst] = rv;
      if (nrm) takeEdge(s, *nrm);
      return S_CONT;
    }
    case Instruction::Unreachable:
      violation(s, "unreachable", "unreachable instruction executed");
      return S_END;
    case Instruction::Alloca: {
      Val n = A0;
      concretize(s, n);
      u32 id = s.mem.alloc(in.cst * (u64)n.c, 1, 0);
      f.allocas.push_back(id);
      NEXT(VC(A(id), 64));
    }
    case Instruction::Load: {
      Val r;
      Val a = A0;
      if (in.ty->isScalar() && in.ty->w <= 128) {
        if (!loadScalar(s, a, in.ty->w, r)) return S_END;
      } else if (!loadTy(s, a, in.ty, r)) return S_END;
      NEXT(r);
    }
    case Instruction::Store: {
      Val v = A0, a = A1;
      if (!storeTy(s, a, in.ty, v)) return S_END;
      f.pc++;
      return S_CONT;
    }
    case Instruction::GetElementPtr: {
      const Val& b = A0;
      if (b.isAgg()) { violation(s, "internal", "vector gep"); return S_END; }
      Val r = b.isC() ? VC(b.c + in.cst, 64) : (in.cst ? VE(mkBin(Op::Add, mkConst(in.cst, 64), b.e)) : b);
      for (auto& p : in.sc) {
        const Val& ix = OP(s, f, p.first);
        if (ix.isC()) {
          u64 i = (u64)sextw(ix.c, ix.w);
          r = r.isC() ? VC(r.c + i * p.second, 64) : VE(mkBin(Op::Add, mkConst(i * p.second, 64), r.e));
        } else {
          Expr* i = ix.w < 64 ? mkSExt(ix.e, 64) : ix.w > 64 ? mkExtract(ix.e, 0, 64) : ix.e;
          r = VE(mkBin(Op::Add, r.ex(), mkBin(Op::Mul, mkConst(p.second, 64), i)));
        }
      }
      NEXT(r);
    }
    case Instruction::ExtractValue: {
      Val v = A0;
      for (u32 x : in.idx) v = v.agg->v[x];
      NEXT(v);
    }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, size_t)> ins = [&](const Val& a, size_t k) -> Val {
        if (k == in.idx.size()) return A1;
        std::vector<Val> v(a.agg->v, a.agg->v + a.agg->n);
        v[in.idx[k]] = ins(v[in.idx[k]], k + 1);
        return mkAgg(v);
      };
      NEXT(ins(A0, 0));
    }
    case Instruction::ExtractElement: {
      Val i = A1;
      concretize(s, i);
      Val a = A0;
      if (i.c >= a.agg->n) { violation(s, "internal", "extractelement index"); return S_END; }
      NEXT(a.agg->v[(u32)i.c]);
    }
    case Instruction::InsertElement: {
      Val i = A2;
      concretize(s, i);
      Val a = A0;
      std::vector<Val> v(a.agg->v, a.agg->v + a.agg->n);
      v[(u32)i.c] = A1;
      NEXT(mkAgg(v));
    }
    case Instruction::ShuffleVector: {
      Val a = A0, b = A1;
      std::vector<Val> v;
      for (u32 x : in.idx) v.push_back(x < a.agg->n ? a.agg->v[x] : b.agg->v[x - a.agg->n]);
      NEXT(mkAgg(v));
    }
    case Instruction::AtomicRMW: {
      Val a = A0, v = A1, old, nw;
      if (!loadScalar(s, a, v.w, old)) return S_END;
      switch (in.sub) {
        case AtomicRMWInst::Xchg: nw = v; break;
        case AtomicRMWInst::Add: nw = binV(Op::Add, old, v); break;
        case AtomicRMWInst::Sub: nw = binV(Op::Sub, old, v); break;
        case AtomicRMWInst::And: nw = binV(Op::And, old, v); break;
        case AtomicRMWInst::Or: nw = binV(Op::Or, old, v); break;
        case AtomicRMWInst::Xor: nw = binV(Op::Xor, old, v); break;
        case AtomicRMWInst::UMax: nw = VE(mkIte(mkBin(Op::Ult, old.ex(), v.ex()), v.ex(), old.ex())); break;
        case AtomicRMWInst::UMin: nw = VE(mkIte(mkBin(Op::Ult, old.ex(), v.ex()), old.ex(), v.ex())); break;
        default: violation(s, "internal", "atomicrmw op"); return S_END;
      }
      if (!storeScalar(s, a, nw)) return S_END;
      NEXT(old);
    }
    case Instruction::AtomicCmpXchg: {
      Val a = A0, c = A1, n = A2, old;
      if (!loadScalar(s, a, c.w, old)) return S_END;
      Val eq = binV(Op::Eq, old, c);
      Val st = eq.isC() ? (eq.c ? n : old) : VE(mkIte(eq.e, n.ex(), old.ex()));
      if (!storeScalar(s, a, st)) return S_END;
      NEXT(mkAgg({old, eq}));
    }
    case Instruction::Fence: f.pc++; return S_CONT;
    case Instruction::VAArg: violation(s, "internal", "va_arg"); return S_END;
    case Instruction::Resume: {
      Val a = A0;
      u64 exc = (u64)a.agg->v[0].c;
      // continue unwinding from this frame's caller
      HRes r = unwindExc(s, exc);
      return r == H_STOP ? S_END : S_CONT;
    }
    case Instruction::Invoke:
    case Instruction::Call: {
      std::vector<Val> args;
      size_t na = cast<CallBase>(in.I)->arg_size();
      args.reserve(na);
      for (size_t i = 0; i < na; i++) args.push_back(OP(s, f, in.ops[i]));
      Fn* fn = in.callee;
      Handler h = in.handler;
      if (!fn) {
        if (in.sub == 99999) {  // inline asm: treat as no-op (compiler barriers)
          Val z = in.dst >= 0 ? (args.empty() ? zeroVal(in.ty) : args[0]) : Val();
          if (in.dst >= 0) setReg(f, in.dst, z);
          if (in.op == Instruction::Invoke) takeEdge(s, in.edges[0]); else f.pc++;
          return S_CONT;
        }
        Val p = OP(s, f, in.ops[na]);
        concretize(s, p);
        auto it = fnById.find((u64)p.c >> 32);
        if (it == fnById.end() || ((u64)p.c & 0xffffffff)) { violation(s, "memory", "call through invalid function pointer"); return S_END; }
        fn = it->second;
        if (!fn->handler && !fn->prepared) fn->handler = lookupHandler(fn->name);
        h = fn->handler;
      }
      if (h) {
        Val r;
        HRes hr = h(s, in, args, r);
        if (hr == H_STOP) return S_END;
        if (hr == H_RETRY || hr == H_JUMP) return S_CONT;
        Frame& f2 = s.F();
        if (in.dst >= 0) setReg(f2, in.dst, r);
        if (in.op == Instruction::Invoke) takeEdge(s, in.edges[0]); else f2.pc++;
        return S_CONT;
      }
      if (fn->F->isDeclaration()) {
        violation(s, "internal", "call to undefined function " + demangle(fn->name) + " [" + fn->name + "]");
        return S_END;
      }
      if (t.st.size() > 4000) { violation(s, "recursion", "call depth exceeds 4000"); return S_END; }
      if (in.op == Instruction::Invoke) pushFrame(s, fn, args, in.dst, &in.edges[0], &in.edges[1]);
      else { f.pc++; pushFrame(s, fn, args, in.dst, nullptr, nullptr); }
      return S_CONT;
    }
    default:
      violation(s, "internal", std::string("unsupported opcode ") + in.I->getOpcodeName());
      return S_END;
  }
}
