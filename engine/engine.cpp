// psisym: a symbolic executor for LLVM bitcode (see /verif/DESIGN.md).
#include "engine.h"

#include <cxxabi.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <math.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

using namespace llvm;

// ------------------------------------------------------------------ config --
struct Config {
  std::string input, entry = "main", out, scratch = "/tmp", smtDir;
  double maxTime = 600;
  u64 maxSteps = 200000000, totalSteps = 0;
  unsigned qTimeout = 20000, extTimeout = 60;
  int preempt = -1;  // -1: no schedule exploration
  bool deviate = false;  // choosing another thread than the next one when a thread blocks counts as a preemption
  size_t maxForks = 2000000;
  bool trace = false, verbose = false;
  std::map<std::string, long> params;
  size_t memLimitMB = 6000;
} cfg;

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<State*> work;
static double tStart;
static bool gStop = false;
static std::map<Function*, Fn*> fnMap;
static std::vector<Fn*> fnByAddr;  // id -> Fn via map
static std::unordered_map<u32, Fn*> fnById;
static std::unordered_map<const GlobalValue*, u64> gAddr;
static std::unordered_map<u32, const GlobalVariable*> gvById;
static std::vector<Function*> bootFns;
static u64 stPaths = 0, stAssumeEnd = 0, stForks = 0, stSteps = 0, stAsserts = 0, stAssertQ = 0, stIncomplete = 0, stErrPaths = 0;
static std::set<std::string> gReached, gIncompleteWhy;
static u64 nextStateId = 1;
static std::vector<std::pair<std::string, u32>> arrays;  // name,size
static std::vector<u32> arrBase;
static u32 nextSym = 0;
static std::map<std::pair<std::string, u32>, u32> arrIds;

struct Violation {
  std::string kind, msg, where, stack;
  std::vector<std::pair<std::string, std::vector<u8>>> inputs;
  std::vector<int> sched;
  std::vector<std::string> notes;
};
static std::vector<Violation> violations, witnesses;

static double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

Val mkAgg(const std::vector<Val>& v) {
  Val r;
  r.agg = new Agg;
  r.agg->n = v.size();
  r.agg->v = new Val[v.size() ? v.size() : 1];
  for (size_t i = 0; i < v.size(); i++) r.agg->v[i] = v[i];
  return r;
}

static std::string demangle(const std::string& s) {
  int st;
  char* d = abi::__cxa_demangle(s.c_str(), 0, 0, &st);
  if (st == 0 && d) { std::string r = d; free(d); return r; }
  return s;
}

// ------------------------------------------------------------------- types --
static std::unordered_map<Type*, Ty*> tyMap;
static Ty* getTy(Type* t) {
  auto it = tyMap.find(t);
  if (it != tyMap.end()) return it->second;
  Ty* r = new Ty;
  tyMap[t] = r;
  switch (t->getTypeID()) {
    case Type::VoidTyID: case Type::LabelTyID: case Type::MetadataTyID: case Type::TokenTyID:
      r->k = Ty::Void; break;
    case Type::IntegerTyID: r->k = Ty::Int; r->w = t->getIntegerBitWidth(); break;
    case Type::PointerTyID: r->k = Ty::Ptr; r->w = 64; break;
    case Type::FloatTyID: r->k = Ty::F32; r->w = 32; break;
    case Type::DoubleTyID: r->k = Ty::F64; r->w = 64; break;
    case Type::X86_FP80TyID: r->k = Ty::F80; r->w = 80; break;
    case Type::FixedVectorTyID: {
      r->k = Ty::Vec;
      auto* v = cast<FixedVectorType>(t);
      r->n = v->getNumElements();
      r->el.push_back(getTy(v->getElementType()));
      break;
    }
    case Type::ArrayTyID: {
      r->k = Ty::Arr;
      r->n = t->getArrayNumElements();
      r->el.push_back(getTy(t->getArrayElementType()));
      break;
    }
    case Type::StructTyID: {
      r->k = Ty::Struct;
      auto* s = cast<StructType>(t);
      if (!s->isOpaque()) {
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) {
          r->el.push_back(getTy(s->getElementType(i)));
          r->off.push_back(sl->getElementOffset(i));
        }
      }
      break;
    }
    default: r->k = Ty::Void;
  }
  if (t->isSized()) {
    r->size = DL->getTypeAllocSize(t);
    r->store = DL->getTypeStoreSize(t);
  }
  return r;
}
static Val zeroVal(Ty* t) {
  if (t->isScalar()) return VC(0, t->w);
  std::vector<Val> v;
  if (t->k == Ty::Struct) for (auto* e : t->el) v.push_back(zeroVal(e));
  else if (t->k == Ty::Vec || t->k == Ty::Arr) v.assign(t->n, zeroVal(t->el[0]));
  else return Val();
  return mkAgg(v);
}

// --------------------------------------------------------------- utilities --
static std::string where(State& s) {
  for (int f = (int)s.T().st.size() - 1; f >= 0; f--) {
    Frame& fr = s.T().st[f];
    if (fr.pc < (int)fr.fn->code.size()) {
      const Instruction* I = fr.fn->code[fr.pc].I;
      if (I)
        if (auto* d = I->getDebugLoc().get())
          return (d->getFilename() + ":" + std::to_string(d->getLine())).str();
    }
  }
  return "?";
}
static std::string stackStr(State& s, int lim = 14) {
  std::string r;
  int n = 0;
  for (int f = (int)s.T().st.size() - 1; f >= 0 && n < lim; f--, n++) {
    Frame& fr = s.T().st[f];
    std::string loc;
    if (fr.pc < (int)fr.fn->code.size()) {
      const Instruction* I = fr.fn->code[std::max(0, f == (int)s.T().st.size() - 1 ? fr.pc : fr.pc - 1)].I;
      if (I)
        if (auto* d = I->getDebugLoc().get()) {
          loc = (d->getFilename() + ":" + std::to_string(d->getLine())).str();
          const DILocation* ia = d->getInlinedAt();
          int k = 0;
          while (ia && k++ < 6) { loc += " <- " + (ia->getFilename() + ":" + std::to_string(ia->getLine())).str(); ia = ia->getInlinedAt(); }
        }
    }
    r += "  #" + std::to_string(n) + " " + demangle(fr.fn->name).substr(0, 160) + " @ " + loc + "\n";
  }
  return r;
}
static void incomplete(const std::string& why) {
  stIncomplete++;
  if (gIncompleteWhy.size() < 20) gIncompleteWhy.insert(why);
}

static void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.where = where(s);
  v.stack = stackStr(s);
  const Model& mm = m ? *m : *s.model;
  for (auto& in : s.inputs) {
    std::vector<u8> b;
    for (u32 i = 0; i < in.size; i++) b.push_back(mm.get(arrBase[in.arr] + i));
    v.inputs.push_back({in.name, b});
  }
  v.sched = s.sched;
  v.notes = s.notes;
  violations.push_back(v);
  gStop = true;
}

static bool addPC(State& s, Expr* c) {  // returns false if trivially false
  if (c->op == Op::Const) return c->cv != 0;
  if (c->op == Op::And && c->w == 1) return addPC(s, c->k[0]) && addPC(s, c->k[1]);
  for (auto* x : s.pc) if (x == c) return true;
  s.pc.push_back(c);
  return true;
}
static void setModel(State& s, const Model& m) { s.model = std::make_shared<Model>(m); }

// 1: only true, 0: only false, 2: both (the state's model satisfies the branch
// returned in *side; *other is a model for the opposite branch)
static int evalBranch(State& s, Expr* c, bool& side, Model& other) {
  if (c->op == Op::Const) return c->cv ? 1 : 0;
  Expr* n = mkNot(c);
  for (auto* x : s.pc) {
    if (x == c) return 1;
    if (x == n) return 0;
  }
  side = evalExpr(c, *s.model) != 0;
  other = *s.model;
  Res r = solverCheck(s.pc, side ? n : c, &other, cfg.qTimeout);
  if (r == Res::Unknown) {
    incomplete("solver unknown at " + where(s));
    return side ? 1 : 0;
  }
  if (r == Res::Unsat) return side ? 1 : 0;
  return 2;
}
static State* forkState(State& s) {
  State* n = new State(s);
  n->id = nextStateId++;
  n->forks++;
  s.forks++;
  stForks++;
  return n;
}
// Value of e if the path condition pins it.
static bool pinned(State& s, Expr* e, u128& v) {
  u128 add = 0;
  Expr* b = e;
  if (e->op == Op::Add && e->k[0]->op == Op::Const) { add = e->k[0]->cv; b = e->k[1]; }
  for (auto* x : s.pc)
    if (x->op == Op::Eq && x->k[0]->op == Op::Const) {
      if (x->k[1] == b) { v = (x->k[0]->cv + add) & maskw(e->w); return true; }
      if (x->k[1] == e) { v = x->k[0]->cv; return true; }
    }
  return false;
}
// Force a unique concrete value; other values are explored by a forked state
// which re-executes the current instruction.
static bool concretize(State& s, Val& v) {
  if (!v.isSym()) return true;
  Expr* e = v.e;
  {
    u128 pv;
    if (pinned(s, e, pv)) { v = VC(pv, e->w); return true; }
  }
  u128 c = evalExpr(e, *s.model);
  Expr* eq = mkBin(Op::Eq, mkConst(c, e->w), e);
  bool side;
  Model other;
  int r = evalBranch(s, eq, side, other);
  if (r == 2) {
    State* o = forkState(s);
    addPC(*o, mkNot(eq));
    setModel(*o, other);
    work.push_back(o);
  }
  addPC(s, eq);
  v = VC(c, e->w);
  return true;
}

// ------------------------------------------------------------------ memory --
static inline u64 A(u32 id) { return (u64)id << 32; }

static Val readObj(State& s, Obj* o, u64 off, u32 w) {
  u32 n = (w + 7) / 8;
  if (o->s.empty()) {
    u128 v = 0;
    memcpy(&v, &o->b[off], n);
    return VC(v, w);
  }
  bool sym = false;
  for (u32 i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    u128 v = 0;
    memcpy(&v, &o->b[off], n);
    return VC(v, w);
  }
  Expr* e = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    Expr* b = o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8);
    e = e ? mkConcat(e, b) : b;
  }
  if (w < n * 8) e = mkExtract(e, 0, w);
  return VE(e);
}
static void writeByte(Obj* o, u64 off, Expr* e) {
  if (e->op == Op::Const) {
    o->b[off] = (u8)e->cv;
    if (!o->s.empty()) o->s[off] = nullptr;
  } else {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    o->s[off] = e;
  }
}
static void writeObj(Obj* o, u64 off, const Val& v) {
  u32 n = (v.w + 7) / 8;
  if (v.isC()) {
    memcpy(&o->b[off], &v.c, n);
    if (!o->s.empty()) for (u32 i = 0; i < n; i++) o->s[off + i] = nullptr;
    return;
  }
  Expr* e = v.e;
  if (v.w < n * 8) e = mkZExt(e, n * 8);
  for (u32 i = 0; i < n; i++) writeByte(o, off + i, mkExtract(e, i * 8, 8));
}

// low zero bits known from structure
static unsigned lowZeros(Expr* e, int d = 8) {
  if (d == 0) return 0;
  switch (e->op) {
    case Op::Const: {
      if (e->cv == 0) return e->w;
      unsigned n = 0;
      while (!((e->cv >> n) & 1)) n++;
      return n;
    }
    case Op::Concat: {
      unsigned n = lowZeros(e->k[1], d - 1);
      return n >= e->k[1]->w ? e->k[1]->w + lowZeros(e->k[0], d - 1) : n;
    }
    case Op::ZExt: return std::min<unsigned>(lowZeros(e->k[0], d - 1), e->k[0]->w);
    case Op::SExt: return std::min<unsigned>(lowZeros(e->k[0], d - 1), e->k[0]->w);
    case Op::Add: case Op::Sub: case Op::Or: case Op::Xor:
      return std::min(lowZeros(e->k[0], d - 1), lowZeros(e->k[1], d - 1));
    case Op::Mul: return std::min<unsigned>(e->w, lowZeros(e->k[0], d - 1) + lowZeros(e->k[1], d - 1));
    case Op::Ite: return std::min(lowZeros(e->k[1], d - 1), lowZeros(e->k[2], d - 1));
    default: return 0;
  }
}

// The possible constant values of an expression built from ite/add/const only.
static bool leafConsts(Expr* e, std::set<u64>& out, int d = 12) {
  if (d == 0 || out.size() > 64) return false;
  if (e->op == Op::Const) { out.insert((u64)e->cv); return true; }
  if (e->op == Op::Ite) return leafConsts(e->k[1], out, d - 1) && leafConsts(e->k[2], out, d - 1);
  if (e->op == Op::Add && e->k[0]->op == Op::Const) {
    std::set<u64> t;
    if (!leafConsts(e->k[1], t, d - 1)) return false;
    for (u64 x : t) out.insert(x + (u64)e->k[0]->cv);
    return true;
  }
  return false;
}
static bool leafObjs(const std::set<u64>& l) {  // more than one object?
  u64 o = *l.begin() >> 32;
  for (u64 x : l) if ((x >> 32) != o) return true;
  return false;
}

struct SymAcc { u32 id; Expr* t; std::vector<u32> offs; };

static void fixPtr(State& s, Val& v) {
  if (!v.isSym()) return;
  std::set<u64> l;
  if (leafConsts(v.e, l) && leafObjs(l)) concretize(s, v);
}
enum MR { M_OK, M_STOP };
// Resolve an address for an access of n bytes.  On success either conc=true
// with id/off or a SymAcc describing the possible offsets.
static MR resolve(State& s, const Val& addr, u64 n, bool wr, u32& id, u32& off, SymAcc* sa, bool& symb) {
  symb = false;
  u64 a;
  if (addr.isC()) a = (u64)addr.c;
  else {
    Val t = addr;
    u128 pv;
    if (pinned(s, addr.e, pv)) t = VC(pv, 64);
    if (t.isC()) a = (u64)t.c;
    else {
      std::set<u64> leaves;
      if (leafConsts(addr.e, leaves)) {
        if (leafObjs(leaves)) {
          concretize(s, t);
          return resolve(s, t, n, wr, id, off, sa, symb);
        }
        a = *leaves.begin();
        Obj* o = s.mem.get(a >> 32);
        if (o && o->kind != 3 && !(wr && o->ro) && (u32)(*leaves.rbegin()) + n <= o->size) {
          // all candidates are inside one object
          id = a >> 32;
          off = (u32)a;
          symb = true;
          sa->id = id;
          sa->t = mkBin(Op::Sub, addr.e, mkConst(A(id), 64));
          sa->offs.clear();
          for (u64 x : leaves) sa->offs.push_back((u32)x);
          return M_OK;
        }
      }
      a = (u64)evalExpr(addr.e, *s.model);
      symb = true;
    }
  }
  id = a >> 32;
  off = (u32)a;
  Obj* o = s.mem.get(id);
  if (!o || o->kind == 3 || (u64)off + n > o->size) {
    char b[300];
    if (!o)
      snprintf(b, 300, "%s of %lu bytes at 0x%lx (%s)", wr ? "write" : "read", n, a, a < 4096 ? "null pointer" : "freed or invalid object");
    else
      snprintf(b, 300, "out-of-bounds %s of %lu bytes at offset %u of %s object of size %u", wr ? "write" : "read", n, off,
               o->kind == 0 ? "heap" : o->kind == 1 ? "stack" : o->kind == 2 ? "global" : "function", o->size);
    if (o && o->kind == 4) {
      fprintf(stderr, "psisym: access to unresolved external global: %s\n%s", gvById.count(id) ? gvById[id]->getName().str().c_str() : "?", stackStr(s).c_str());
    }
    violation(s, "memory", b);
    return M_STOP;
  }
  if (wr && o->ro) {
    violation(s, "memory", "write to read-only object");
    return M_STOP;
  }
  if (!symb) return M_OK;
  // symbolic: make sure all feasible values are inside this object
  Expr* t = mkBin(Op::Sub, addr.e, mkConst(A(id), 64));
  Expr* in = mkBin(Op::Ule, t, mkConst(o->size - n, 64));
  bool side;
  Model other;
  int r = evalBranch(s, in, side, other);
  if (r == 2) {
    State* f = forkState(s);
    addPC(*f, mkNot(in));
    setModel(*f, other);
    work.push_back(f);
  }
  addPC(s, in);
  unsigned lz = std::min(12u, lowZeros(t));
  u64 stride = (u64)1 << lz;
  u64 cnt = (o->size - n) / stride + 1;
  sa->id = id;
  sa->t = t;
  sa->offs.clear();
  if (cnt <= 64) {
    for (u64 i = 0; i <= o->size - n; i += stride) sa->offs.push_back(i);
    return M_OK;
  }
  // enumerate feasible offsets
  std::vector<Expr*> pc = s.pc;
  Model m = *s.model;
  while (sa->offs.size() < 128) {
    u64 v = (u64)evalExpr(t, m);
    sa->offs.push_back(v);
    Expr* ne = mkNot(mkBin(Op::Eq, mkConst(v, 64), t));
    if (ne->op == Op::Const) { if (!ne->cv) { std::sort(sa->offs.begin(), sa->offs.end()); return M_OK; } }
    Res q = solverCheck(pc, ne, &m, cfg.qTimeout);
    if (q == Res::Unsat) { std::sort(sa->offs.begin(), sa->offs.end()); return M_OK; }
    if (q == Res::Unknown) { incomplete("unknown while enumerating offsets"); return M_OK; }
    pc.push_back(ne);
  }
  if (cnt <= 70000 ) {
    sa->offs.clear();
    for (u64 i = 0; i <= o->size - n; i += stride) sa->offs.push_back(i);
    return M_OK;
  }
  incomplete("symbolic offset too wide");
  return M_OK;
}

static Expr* iteTree(Expr* t, const std::vector<u32>& offs, const std::vector<Expr*>& vals, size_t lo, size_t hi) {
  bool same = true;
  for (size_t i = lo + 1; i < hi; i++) if (vals[i] != vals[lo]) { same = false; break; }
  if (same) return vals[lo];
  size_t mid = (lo + hi) / 2;
  Expr* l = iteTree(t, offs, vals, lo, mid);
  Expr* r = iteTree(t, offs, vals, mid, hi);
  Expr* c = (hi - lo == 2) ? mkBin(Op::Eq, mkConst(offs[lo], t->w), t)
                           : mkBin(Op::Ult, t, mkConst(offs[mid], t->w));
  return mkIte(c, l, r);
}

static bool loadScalar(State& s, const Val& addr, u32 w, Val& out) {
  u32 id, off;
  SymAcc sa;
  bool symb;
  u32 n = (w + 7) / 8;
  if (addr.isC()) {
    u64 a = (u64)addr.c;
    Obj* o = s.mem.get(a >> 32);
    if (o && o->kind != 3 && (a & 0xffffffff) + n <= o->size) {
      out = readObj(s, o, a & 0xffffffff, w);
      return true;
    }
  }
  if (resolve(s, addr, n, false, id, off, &sa, symb) == M_STOP) return false;
  Obj* o = s.mem.get(id);
  if (!symb) { out = readObj(s, o, off, w); return true; }
  std::vector<Expr*> vals;
  for (u32 x : sa.offs) vals.push_back(readObj(s, o, x, w).ex());
  out = VE(iteTree(sa.t, sa.offs, vals, 0, vals.size()));
  return true;
}
static bool storeScalar(State& s, const Val& addr, const Val& v) {
  u32 id, off;
  SymAcc sa;
  bool symb;
  u32 n = (v.w + 7) / 8;
  if (resolve(s, addr, n, true, id, off, &sa, symb) == M_STOP) return false;
  Obj* o = s.mem.wget(id);
  if (!symb) { writeObj(o, off, v); return true; }
  Expr* e = v.ex();
  if (v.w < n * 8) e = mkZExt(e, n * 8);
  Obj snap = *o;
  for (u32 x : sa.offs) {
    Expr* c = mkBin(Op::Eq, mkConst(x, 64), sa.t);
    for (u32 i = 0; i < n; i++) {
      Expr* old = o->s.empty() || !o->s[x + i] ? mkConst(o->b[x + i], 8) : o->s[x + i];
      writeByte(o, x + i, mkIte(c, mkExtract(e, i * 8, 8), old));
    }
  }
  return true;
}
static Val addOff(const Val& a, u64 off) {
  if (!off) return a;
  if (a.isC()) return VC(a.c + off, 64);
  return VE(mkBin(Op::Add, mkConst(off, 64), a.e));
}
static bool loadTy(State& s, const Val& addr, Ty* t, Val& out) {
  switch (t->k) {
    case Ty::Vec: {
      Ty* e = t->el[0];
      std::vector<Val> v(t->n);
      if (e->w % 8 == 0) {
        for (u32 i = 0; i < t->n; i++) if (!loadScalar(s, addOff(addr, (u64)i * (e->w / 8)), e->w, v[i])) return false;
      } else {
        Val x;
        if (!loadScalar(s, addr, t->n * e->w, x)) return false;
        for (u32 i = 0; i < t->n; i++) v[i] = VE(mkExtract(x.ex(), i * e->w, e->w));
      }
      out = mkAgg(v);
      return true;
    }
    case Ty::Struct: {
      std::vector<Val> v(t->el.size());
      for (size_t i = 0; i < v.size(); i++) if (!loadTy(s, addOff(addr, t->off[i]), t->el[i], v[i])) return false;
      out = mkAgg(v);
      return true;
    }
    case Ty::Arr: {
      std::vector<Val> v(t->n);
      for (size_t i = 0; i < v.size(); i++) if (!loadTy(s, addOff(addr, i * t->el[0]->size), t->el[0], v[i])) return false;
      out = mkAgg(v);
      return true;
    }
    default: {
      if (t->w > 128) { violation(s, "internal", "wide integer load"); return false; }
      return loadScalar(s, addr, t->w, out);
    }
  }
}
static bool storeTy(State& s, const Val& addr, Ty* t, const Val& v) {
  switch (t->k) {
    case Ty::Vec: {
      Ty* e = t->el[0];
      if (e->w % 8 == 0) {
        for (u32 i = 0; i < t->n; i++) if (!storeScalar(s, addOff(addr, (u64)i * (e->w / 8)), v.agg->v[i])) return false;
      } else {
        Expr* x = nullptr;
        for (int i = t->n - 1; i >= 0; i--) x = x ? mkConcat(x, v.agg->v[i].ex()) : v.agg->v[i].ex();
        return storeScalar(s, addr, VE(x));
      }
      return true;
    }
    case Ty::Struct:
      for (size_t i = 0; i < t->el.size(); i++) if (!storeTy(s, addOff(addr, t->off[i]), t->el[i], v.agg->v[i])) return false;
      return true;
    case Ty::Arr:
      for (size_t i = 0; i < t->n; i++) if (!storeTy(s, addOff(addr, i * t->el[0]->size), t->el[0], v.agg->v[i])) return false;
      return true;
    default:
      if (t->w > 128) { violation(s, "internal", "wide integer store"); return false; }
      return storeScalar(s, addr, v);
  }
}
// raw byte access for handlers (address concrete)
static bool readBytes(State& s, u64 a, u64 n, std::vector<Expr*>& sy, std::vector<u8>& b) {
  if (!n) return true;
  u32 id, off;
  SymAcc sa;
  bool symb;
  if (resolve(s, VC(a, 64), n, false, id, off, &sa, symb) == M_STOP) return false;
  Obj* o = s.mem.get(id);
  b.assign(o->b.begin() + off, o->b.begin() + off + n);
  sy.assign(n, nullptr);
  if (!o->s.empty()) for (u64 i = 0; i < n; i++) sy[i] = o->s[off + i];
  return true;
}
static bool writeBytes(State& s, u64 a, u64 n, const std::vector<Expr*>& sy, const std::vector<u8>& b) {
  if (!n) return true;
  u32 id, off;
  SymAcc sa;
  bool symb;
  if (resolve(s, VC(a, 64), n, true, id, off, &sa, symb) == M_STOP) return false;
  Obj* o = s.mem.wget(id);
  memcpy(&o->b[off], b.data(), n);
  bool any = false;
  for (u64 i = 0; i < n; i++) if (sy[i]) { any = true; break; }
  if (any && o->s.empty()) o->s.assign(o->size, nullptr);
  if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i] = sy[i];
  return true;
}
static bool cstr(State& s, const Val& a, std::string& out) {
  Val x = a;
  concretize(s, x);
  u64 p = (u64)x.c;
  out.clear();
  for (int i = 0; i < 100000; i++) {
    Val c;
    if (!loadScalar(s, VC(p + i, 64), 8, c)) return false;
    if (c.isSym()) { out += (char)evalExpr(c.e, *s.model); continue; }
    if (!c.c) return true;
    out += (char)c.c;
  }
  return true;
}

// ------------------------------------------------------------ preparation --
static Fn* getFn(Function* F) {
  auto it = fnMap.find(F);
  if (it != fnMap.end()) return it->second;
  Fn* f = new Fn;
  f->F = F;
  f->name = F->getName().str();
  fnMap[F] = f;
  return f;
}
static Val constVal(const Constant* c);
static u64 constAddr(const Constant* c, bool& ok) {
  Val v = constVal(c);
  ok = v.isC() && v.w == 64;
  return (u64)v.c;
}
static double bitsD(u128 c) { u64 u = (u64)c; double d; memcpy(&d, &u, 8); return d; }
static float bitsF(u128 c) { u32 u = (u32)c; float d; memcpy(&d, &u, 4); return d; }
static long double bitsL(u128 c) { long double d = 0; memcpy(&d, &c, 10); return d; }
static u128 dBits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static u128 fBits(float d) { u32 u; memcpy(&u, &d, 4); return u; }
static u128 lBits(long double d) { u128 u = 0; memcpy(&u, &d, 10); return u; }

static Val constVal(const Constant* c) {
  Ty* t = getTy(c->getType());
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    const APInt& v = ci->getValue();
    if (v.getBitWidth() > 128) { Val r = VC(v.extractBits(64, 0).getZExtValue(), 128); r.w = v.getBitWidth(); return r; }
    u128 x = v.getBitWidth() <= 64 ? (u128)v.getZExtValue()
                                   : ((u128)v.lshr(64).trunc(64).getZExtValue() << 64) | v.trunc(64).getZExtValue();
    return VC(x, v.getBitWidth());
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt v = cf->getValueAPF().bitcastToAPInt();
    u128 x = v.getBitWidth() <= 64 ? (u128)v.getZExtValue()
                                   : ((u128)v.lshr(64).getLoBits(64).trunc(64).getZExtValue() << 64) | v.trunc(64).getZExtValue();
    return VC(x, t->w);
  }
  if (isa<ConstantPointerNull>(c)) return VC(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(t);
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gAddr.find(gv);
    if (it == gAddr.end()) {
      if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
      fprintf(stderr, "no addr for %s\n", gv->getName().str().c_str());
      return VC(0, 64);
    }
    return VC(it->second, 64);
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
    return mkAgg(v);
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < c->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(c->getOperand(i))));
    return mkAgg(v);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = constVal(ce->getOperand(0));
        APInt off(64, 0);
        if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return VC(b.c + off.getZExtValue(), 64);
        break;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: { Val v = constVal(ce->getOperand(0)); return VC(v.c, t->w); }
      case Instruction::IntToPtr: { Val v = constVal(ce->getOperand(0)); return VC(v.c, 64); }
      case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); return VC(v.c, t->w); }
      case Instruction::Sub: return VC(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, t->w);
      case Instruction::Add: return VC(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, t->w);
      case Instruction::Xor: return VC(constVal(ce->getOperand(0)).c ^ constVal(ce->getOperand(1)).c, t->w);
      case Instruction::ICmp: {
        u128 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
        bool r = false;
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: r = a == b; break;
          case CmpInst::ICMP_NE: r = a != b; break;
          case CmpInst::ICMP_ULT: r = a < b; break;
          case CmpInst::ICMP_UGT: r = a > b; break;
          default: break;
        }
        return VC(r, 1);
      }
      default: break;
    }
    std::string str;
    raw_string_ostream os(str);
    ce->print(os);
    fprintf(stderr, "unsupported constexpr %s\n", os.str().c_str());
    return zeroVal(t);
  }
  if (auto* be = dyn_cast<DSOLocalEquivalent>(c)) return constVal(be->getGlobalValue());
  if (auto* nc = dyn_cast<NoCFIValue>(c)) return constVal(nc->getGlobalValue());
  return zeroVal(t);
}
static void initGlobal(Obj* o, u64 off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Ty* t = getTy(c->getType());
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(&o->b[off], raw.data(), raw.size());
    return;
  }
  if (t->k == Ty::Struct) {
    for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(o, off + t->off[i], cast<Constant>(c->getOperand(i)));
    return;
  }
  if (t->k == Ty::Arr || t->k == Ty::Vec) {
    for (unsigned i = 0; i < c->getNumOperands(); i++)
      initGlobal(o, off + i * (t->k == Ty::Vec ? t->el[0]->w / 8 : t->el[0]->size), cast<Constant>(c->getOperand(i)));
    return;
  }
  Val v = constVal(c);
  memcpy(&o->b[off], &v.c, (t->w + 7) / 8);
}

static Handler lookupHandler(const std::string& name);
static Handler intrinsicHandler(Function* F);
static std::set<const DISubprogram*> seenSP;
static std::map<std::string, std::set<std::string>> repoFns;  // file -> functions

static void notePrepared(Fn* f) {
  auto note = [&](const DISubprogram* sp) {
    if (!sp || !seenSP.insert(sp).second) return;
    std::string file = (sp->getDirectory() + "/" + sp->getFilename()).str();
    if (!sp->getFilename().empty() && sp->getFilename()[0] == '/') file = sp->getFilename().str();
    std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
    repoFns[file].insert(demangle(nm));
  };
  note(f->F->getSubprogram());
  for (auto& bb : *f->F)
    for (auto& I : bb) {
      const DILocation* d = I.getDebugLoc().get();
      while (d) {
        note(d->getScope()->getSubprogram());
        d = d->getInlinedAt();
      }
    }
}

static void prepare(Fn* f) {
  if (f->prepared) return;
  f->prepared = true;
  Function* F = f->F;
  notePrepared(f);
  std::unordered_map<const Value*, int> slot;
  int n = 0;
  for (auto& a : F->args()) slot[&a] = n++;
  for (auto& bb : *F)
    for (auto& I : bb)
      if (!I.getType()->isVoidTy()) slot[&I] = n++;
  f->nslots = n;
  std::unordered_map<const Value*, int> cidx;
  auto operand = [&](const Value* v) -> int {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    auto ic = cidx.find(v);
    if (ic != cidx.end()) return ic->second;
    Val cv;
    if (auto* c = dyn_cast<Constant>(v)) cv = constVal(c);
    f->consts.push_back(cv);
    int r = -(int)f->consts.size();
    cidx[v] = r;
    return r;
  };
  std::unordered_map<const BasicBlock*, int> start;
  // first pass: pcs (phis are skipped)
  int pc = 0;
  for (auto& bb : *F) {
    start[&bb] = pc;
    for (auto& I : bb) if (!isa<PHINode>(I)) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      pc++;
    }
  }
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.target = start[to];
    for (auto& phi : to->phis()) e.phis.push_back({slot[&phi], operand(phi.getIncomingValueForBlock(from))});
    return e;
  };
  f->code.reserve(pc);
  for (auto& bb : *F) {
    for (auto& I : bb) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      Inst in;
      in.op = I.getOpcode();
      in.I = &I;
      in.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      in.ty = getTy(I.getType());
      if (I.getNumOperands() && !isa<CallBase>(I)) in.ty2 = getTy(I.getOperand(0)->getType());
      switch (I.getOpcode()) {
        case Instruction::Br: {
          auto& b = cast<BranchInst>(I);
          if (b.isConditional()) {
            in.ops.push_back(operand(b.getCondition()));
            in.edges.push_back(mkEdge(&bb, b.getSuccessor(0)));
            in.edges.push_back(mkEdge(&bb, b.getSuccessor(1)));
          } else in.edges.push_back(mkEdge(&bb, b.getSuccessor(0)));
          break;
        }
        case Instruction::Switch: {
          auto& sw = cast<SwitchInst>(I);
          in.ops.push_back(operand(sw.getCondition()));
          in.edges.push_back(mkEdge(&bb, sw.getDefaultDest()));
          for (auto& c : sw.cases()) {
            in.cases.push_back(constVal(c.getCaseValue()).c);
            in.edges.push_back(mkEdge(&bb, c.getCaseSuccessor()));
          }
          break;
        }
        case Instruction::Ret:
          if (I.getNumOperands()) in.ops.push_back(operand(I.getOperand(0)));
          break;
        case Instruction::Invoke:
        case Instruction::Call: {
          auto& cb = cast<CallBase>(I);
          for (auto& a : cb.args()) in.ops.push_back(isa<MetadataAsValue>(a) ? -1 : operand(a));
          if (f->consts.empty()) f->consts.push_back(Val());
          if (auto* iv = dyn_cast<InvokeInst>(&I)) {
            in.edges.push_back(mkEdge(&bb, iv->getNormalDest()));
            in.edges.push_back(mkEdge(&bb, iv->getUnwindDest()));
          }
          const Value* cv = cb.getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
          if (auto* cf = dyn_cast<Function>(cv)) {
            Function* CF = const_cast<Function*>(cf);
            in.callee = getFn(CF);
            if (CF->isIntrinsic()) {
              in.handler = intrinsicHandler(CF);
              in.sub = CF->getIntrinsicID();
              if (!in.handler) fprintf(stderr, "psisym: unsupported intrinsic %s\n", CF->getName().str().c_str());
            } else in.handler = lookupHandler(in.callee->name);
          } else if (isa<InlineAsm>(cv)) {
            in.sub = 99999;
          } else in.ops.push_back(operand(cb.getCalledOperand()));
          break;
        }
        case Instruction::GetElementPtr: {
          in.ops.push_back(operand(I.getOperand(0)));
          u64 c = 0;
          for (auto gti = gep_type_begin(&I), e = gep_type_end(&I); gti != e; ++gti) {
            const Value* ix = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) {
              c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix)) c += sz * (u64)ci->getSExtValue();
              else in.sc.push_back({operand(ix), sz});
            }
          }
          in.cst = c;
          break;
        }
        case Instruction::Alloca: {
          auto& al = cast<AllocaInst>(I);
          in.cst = DL->getTypeAllocSize(al.getAllocatedType());
          in.ops.push_back(operand(al.getArraySize()));
          break;
        }
        case Instruction::Store:
          in.ty = getTy(I.getOperand(0)->getType());
          in.ops.push_back(operand(I.getOperand(0)));
          in.ops.push_back(operand(I.getOperand(1)));
          break;
        case Instruction::ExtractValue:
          in.ops.push_back(operand(I.getOperand(0)));
          for (unsigned x : cast<ExtractValueInst>(I).indices()) in.idx.push_back(x);
          break;
        case Instruction::InsertValue:
          in.ops.push_back(operand(I.getOperand(0)));
          in.ops.push_back(operand(I.getOperand(1)));
          for (unsigned x : cast<InsertValueInst>(I).indices()) in.idx.push_back(x);
          break;
        case Instruction::ShuffleVector:
          in.ops.push_back(operand(I.getOperand(0)));
          in.ops.push_back(operand(I.getOperand(1)));
          for (int x : cast<ShuffleVectorInst>(I).getShuffleMask()) in.idx.push_back(x < 0 ? 0 : x);
          break;
        case Instruction::LandingPad: {
          auto& lp = cast<LandingPadInst>(I);
          in.cleanup = lp.isCleanup();
          for (unsigned i = 0; i < lp.getNumClauses(); i++) {
            if (lp.isCatch(i)) in.clauses.push_back({0, (u64)constVal(lp.getClause(i)).c});
            else in.clauses.push_back({1, 0});
          }
          break;
        }
        case Instruction::ICmp: case Instruction::FCmp:
          in.sub = cast<CmpInst>(I).getPredicate();
          in.ops.push_back(operand(I.getOperand(0)));
          in.ops.push_back(operand(I.getOperand(1)));
          break;
        case Instruction::AtomicRMW:
          in.sub = cast<AtomicRMWInst>(I).getOperation();
          in.ops.push_back(operand(I.getOperand(0)));
          in.ops.push_back(operand(I.getOperand(1)));
          break;
        default:
          for (auto& o : I.operands()) in.ops.push_back(operand(o));
      }
      f->code.push_back(std::move(in));
    }
  }
}

#include "interp.inc"
#include "handlers.inc"
#include "main.inc"
