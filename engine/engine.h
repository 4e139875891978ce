#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>

#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "solver.h"

// ---------------------------------------------------------------- values ---
struct Val;
struct Agg { u32 n; Val* v; };
struct Val {
  Expr* e = nullptr;  // symbolic scalar
  Agg* agg = nullptr; // aggregate / vector
  u128 c = 0;         // concrete scalar
  u32 w = 0;          // width in bits (0 = void/agg)
  bool isAgg() const { return agg != nullptr; }
  bool isC() const { return !e && !agg; }
  bool isSym() const { return e != nullptr; }
  Expr* ex() const { return e ? e : mkConst(c, w); }
};
inline Val VC(u128 c, u32 w) { Val v; v.c = c & maskw(w); v.w = w; return v; }
inline Val VE(Expr* e) {
  Val v;
  v.w = e->w;
  if (e->op == Op::Const) v.c = e->cv; else v.e = e;
  return v;
}
Val mkAgg(const std::vector<Val>& v);

// ----------------------------------------------------------------- types ---
struct Ty {
  enum K { Void, Int, Ptr, F32, F64, F80, Vec, Struct, Arr } k;
  u32 w = 0;        // scalar width
  u64 size = 0;     // alloc size
  u64 store = 0;    // store size
  std::vector<Ty*> el;        // struct elements / [0] for vec & arr
  std::vector<u64> off;       // struct offsets
  u32 n = 0;                  // vec/arr count
  bool isScalar() const { return k >= Int && k <= F80; }
};

// ---------------------------------------------------------------- memory ---
struct Obj {
  int ref = 0;
  u32 size = 0;
  u8 kind = 0;  // 0 heap 1 stack 2 global 3 function 4 symbolic-extern
  bool ro = false;
  std::vector<u8> b;
  std::vector<Expr*> s;  // empty or size
};
struct Chunk {
  int ref = 0;
  Obj* o[64] = {};
  Chunk() {}
  Chunk(const Chunk& c) {
    for (int i = 0; i < 64; i++) { o[i] = c.o[i]; if (o[i]) o[i]->ref++; }
  }
  ~Chunk() { for (auto* x : o) if (x && --x->ref == 0) delete x; }
};
struct Mem {
  std::vector<Chunk*> ch;
  u32 next = 1;
  std::vector<u32> freeStack;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next), freeStack(m.freeStack) {
    for (auto* c : ch) if (c) c->ref++;
  }
  ~Mem() { for (auto* c : ch) if (c && --c->ref == 0) delete c; }
  Obj* get(u32 id) const {
    u32 k = id >> 6;
    if (k >= ch.size() || !ch[k]) return nullptr;
    return ch[k]->o[id & 63];
  }
  Chunk* wchunk(u32 k) {
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) { ch[k] = new Chunk; ch[k]->ref = 1; }
    else if (ch[k]->ref > 1) {
      Chunk* n = new Chunk(*ch[k]);
      n->ref = 1;
      ch[k]->ref--;
      ch[k] = n;
    }
    return ch[k];
  }
  Obj* wget(u32 id) {
    Chunk* c = wchunk(id >> 6);
    Obj*& o = c->o[id & 63];
    if (o && o->ref > 1) {
      Obj* n = new Obj(*o);
      n->ref = 1;
      o->ref--;
      o = n;
    }
    return o;
  }
  u32 alloc(u64 size, u8 kind, u8 fill) {
    u32 id;
    if (kind == 1 && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); }
    else id = next++;
    Obj* o = new Obj;
    o->ref = 1;
    o->size = size;
    o->kind = kind;
    o->b.assign(size, fill);
    Chunk* c = wchunk(id >> 6);
    if (c->o[id & 63]) abort();
    c->o[id & 63] = o;
    return id;
  }
  void release(u32 id) {
    u32 k = id >> 6;
    Chunk* c = wchunk(k);
    Obj*& o = c->o[id & 63];
    if (!o) return;
    bool st = o->kind == 1;
    if (--o->ref == 0) delete o;
    o = nullptr;
    if (st) freeStack.push_back(id);
  }
};

// -------------------------------------------------------------- functions ---
struct Inst;
struct Edge {
  int target = -1;                              // pc
  std::vector<std::pair<int, int>> phis;        // dst slot, src operand
};
struct Fn;
struct State;
enum HRes { H_OK, H_STOP, H_RETRY, H_JUMP };
typedef HRes (*Handler)(State&, Inst&, std::vector<Val>&, Val&);

struct Inst {
  unsigned op = 0;      // LLVM opcode
  unsigned sub = 0;     // predicate / intrinsic id / rmw op
  int dst = -1;
  std::vector<int> ops; // >=0 slot ; <0 const index ~x
  Ty* ty = nullptr;     // result / accessed type
  Ty* ty2 = nullptr;    // operand type
  const llvm::Instruction* I = nullptr;
  u64 cst = 0;          // gep constant offset / alloca size
  std::vector<std::pair<int, u64>> sc; // gep scaled idx (operand, scale)
  std::vector<Edge> edges;
  std::vector<u128> cases;
  Fn* callee = nullptr;
  Handler handler = nullptr;
  std::vector<u32> idx; // extractvalue/insertvalue indices, shuffle mask
  std::vector<std::pair<int, u64>> clauses; // landingpad: kind(0 catch,1 filter), typeinfo addr
  bool cleanup = false;
};
struct Fn {
  llvm::Function* F = nullptr;
  bool prepared = false;
  bool executed = false;
  int nslots = 0;
  std::vector<Inst> code;
  std::vector<Val> consts;
  Handler handler = nullptr;
  std::string name;
  u64 addr = 0;
};

struct Frame {
  Fn* fn;
  int pc = 0;
  std::vector<Val> regs;
  std::vector<Val> va;
  std::vector<u32> allocas;
  int retDst = -1;
  const Edge* normal = nullptr;
  const Edge* unwind = nullptr;
  u8 after = 0;  // 1: return value is thread result
};
struct Thread {
  int id = 0;
  std::vector<Frame> st;
  enum { Run, Blocked, Done } status = Run;
  u64 waitAddr = 0;
  bool timed = false;
  std::vector<u64> caught;
  int uncaught = 0;
  std::map<const llvm::GlobalVariable*, u64> tls;
  std::map<u64, u64> keys;
  u64 retval = 0;
  bool detached = false;
};
struct ExcInfo {
  u64 ti = 0, dtor = 0, adjusted = 0;
  int refs = 0, handlers = 0;
  bool rethrown = false;
};
struct InputRec { std::string name; u32 arr; u32 size; };

struct State {
  u64 id = 0;
  Mem mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Expr*> pc;
  std::shared_ptr<Model> model;
  std::vector<InputRec> inputs;
  std::map<std::string, int> nameCnt;
  std::map<u64, ExcInfo> exc;
  std::map<u64, std::pair<int, int>> mutexes;  // addr -> owner tid+1, depth
  std::map<u64, std::vector<std::pair<u64,u64>>> fs;  // unused
  int boot = 0;
  u64 steps = 0;
  int preempt = 0;
  int points = 0;
  u64 clock = 1;
  std::vector<int> sched;
  std::set<std::string> reached;
  std::vector<std::string> notes;
  unsigned forks = 0;
  Thread& T() { return th[cur]; }
  Frame& F() { return th[cur].st.back(); }
};
