#include "solver.h"

#include <z3.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <functional>
#include <sstream>
#include <map>

SolverStats gSolverStats;

namespace {
Z3_context ctx;
Z3_solver sInc = nullptr;
std::vector<Z3_ast> memo;
std::string scratchDir;
unsigned extTimeout = 60;
unsigned softTimeout = 20000;
bool z3err = false;

void onErr(Z3_context c, Z3_error_code e) {
  z3err = true;
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch()).count();
}

Z3_ast b2bv(Z3_ast b) {
  Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s1),
                   Z3_mk_unsigned_int64(ctx, 0, s1));
}
// width-1 expressions are translated to Bool.
Z3_ast tr(Expr* e);
Z3_ast trBV(Expr* e) {
  Z3_ast a = tr(e);
  return e->w == 1 ? b2bv(a) : a;
}
Z3_ast toBool(Z3_ast bv1) {
  return Z3_mk_eq(ctx, bv1, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
}
Z3_ast constAst(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, s);
  // decimal string
  char buf[64];
  int p = 63;
  buf[p] = 0;
  if (v == 0) buf[--p] = '0';
  while (v) { buf[--p] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(ctx, buf + p, s);
}
Z3_ast trUncached(Expr* e) {
  switch (e->op) {
    case Op::Const:
      if (e->w == 1) return e->cv ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      return constAst(e->cv, e->w);
    case Op::Sym: {
      char nm[24];
      snprintf(nm, 24, "s%u", e->aux);
      return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, 8));
    }
    case Op::Not:
      if (e->w == 1) return Z3_mk_not(ctx, tr(e->k[0]));
      return Z3_mk_bvnot(ctx, tr(e->k[0]));
    case Op::Ite:
      return Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2]));
    case Op::Concat: return Z3_mk_concat(ctx, trBV(e->k[0]), trBV(e->k[1]));
    case Op::Extract: {
      Z3_ast r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, trBV(e->k[0]));
      return e->w == 1 ? toBool(r) : r;
    }
    case Op::ZExt: return Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, trBV(e->k[0]));
    case Op::SExt: return Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, trBV(e->k[0]));
    default: break;
  }
  unsigned kw = e->k[0]->w;
  if (kw == 1) {
    Z3_ast a = tr(e->k[0]), b = tr(e->k[1]);
    Z3_ast ab[2] = {a, b};
    switch (e->op) {
      case Op::And: case Op::Mul: return Z3_mk_and(ctx, 2, ab);
      case Op::Or: return Z3_mk_or(ctx, 2, ab);
      case Op::Xor: case Op::Add: case Op::Sub: return Z3_mk_xor(ctx, a, b);
      case Op::Eq: return Z3_mk_iff(ctx, a, b);
      case Op::Ult: { Z3_ast t[2] = {Z3_mk_not(ctx, a), b}; return Z3_mk_and(ctx, 2, t); }
      case Op::Ule: { Z3_ast t[2] = {Z3_mk_not(ctx, a), b}; return Z3_mk_or(ctx, 2, t); }
      case Op::Slt: { Z3_ast t[2] = {a, Z3_mk_not(ctx, b)}; return Z3_mk_and(ctx, 2, t); }
      case Op::Sle: { Z3_ast t[2] = {a, Z3_mk_not(ctx, b)}; return Z3_mk_or(ctx, 2, t); }
      default: break;
    }
    a = b2bv(a);
    b = b2bv(b);
    Z3_ast r;
    switch (e->op) {
      case Op::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
      case Op::URem: r = Z3_mk_bvurem(ctx, a, b); break;
      case Op::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
      case Op::SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
      case Op::Shl: r = Z3_mk_bvshl(ctx, a, b); break;
      case Op::LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
      case Op::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
      default: abort();
    }
    return toBool(r);
  }
  Z3_ast a = tr(e->k[0]), b = tr(e->k[1]);
  switch (e->op) {
    case Op::Add: return Z3_mk_bvadd(ctx, a, b);
    case Op::Sub: return Z3_mk_bvsub(ctx, a, b);
    case Op::Mul: return Z3_mk_bvmul(ctx, a, b);
    case Op::UDiv: return Z3_mk_bvudiv(ctx, a, b);
    case Op::SDiv: return Z3_mk_bvsdiv(ctx, a, b);
    case Op::URem: return Z3_mk_bvurem(ctx, a, b);
    case Op::SRem: return Z3_mk_bvsrem(ctx, a, b);
    case Op::And: return Z3_mk_bvand(ctx, a, b);
    case Op::Or: return Z3_mk_bvor(ctx, a, b);
    case Op::Xor: return Z3_mk_bvxor(ctx, a, b);
    case Op::Shl: return Z3_mk_bvshl(ctx, a, b);
    case Op::LShr: return Z3_mk_bvlshr(ctx, a, b);
    case Op::AShr: return Z3_mk_bvashr(ctx, a, b);
    case Op::Eq: return Z3_mk_eq(ctx, a, b);
    case Op::Ult: return Z3_mk_bvult(ctx, a, b);
    case Op::Ule: return Z3_mk_bvule(ctx, a, b);
    case Op::Slt: return Z3_mk_bvslt(ctx, a, b);
    case Op::Sle: return Z3_mk_bvsle(ctx, a, b);
    default: abort();
  }
}
Z3_ast tr(Expr* e) {
  if (memo.size() <= e->id) memo.resize(std::max<size_t>(gExprs.size() * 2, e->id + 1024), nullptr);
  if (memo[e->id]) return memo[e->id];
  Z3_ast r = trUncached(e);
  Z3_inc_ref(ctx, r);
  memo[e->id] = r;
  return r;
}

struct CacheEnt { Res r; std::vector<std::pair<u32, u8>> m; };
std::map<std::vector<u32>, CacheEnt> cache;

// ---- external portfolio (z3-new, cvc5) on hard queries -------------------
Res external(const std::vector<Expr*>& cs, const std::vector<u32>& syms,
             std::vector<std::pair<u32, u8>>& out) {
  gSolverStats.external++;
  static int n = 0;
  std::string base = scratchDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++);
  std::string f = base + ".smt2";
  FILE* fp = fopen(f.c_str(), "w");
  if (!fp) return Res::Unknown;
  std::string s = dumpSmt2(cs);
  s += "(check-sat)\n";
  if (!syms.empty()) {
    s += "(get-value (";
    for (u32 x : syms) s += "s" + std::to_string(x) + " ";
    s += "))\n";
  }
  fwrite(s.data(), 1, s.size(), fp);
  fclose(fp);
  std::string T = std::to_string(extTimeout);
  std::vector<std::vector<std::string>> cmds = {
      {"z3-new", "-T:" + T, f},
      {"cvc5", "--produce-models", "--tlimit=" + T + "000", "--bitblast=eager", f},
      {"cvc5", "--produce-models", "--tlimit=" + T + "000", "--solve-bv-as-int=sum", f},
  };
  std::vector<pid_t> pids;
  std::vector<std::string> outs;
  for (size_t i = 0; i < cmds.size(); i++) {
    std::string o = base + ".o" + std::to_string(i);
    outs.push_back(o);
    pid_t p = fork();
    if (p == 0) {
      int fd = open(o.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
      dup2(fd, 1);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 2);
      std::vector<char*> av;
      for (auto& a : cmds[i]) av.push_back((char*)a.c_str());
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    pids.push_back(p);
  }
  Res res = Res::Unknown;
  double end = now() + extTimeout + 5;
  size_t alive = pids.size();
  while (alive && res == Res::Unknown && now() < end) {
    usleep(5000);
    for (size_t i = 0; i < pids.size(); i++) {
      if (pids[i] < 0) continue;
      int st;
      if (waitpid(pids[i], &st, WNOHANG) != pids[i]) continue;
      pids[i] = -1;
      alive--;
      FILE* o = fopen(outs[i].c_str(), "r");
      if (!o) continue;
      std::string txt;
      char b[65536];
      size_t k;
      while ((k = fread(b, 1, sizeof b, o)) > 0) txt.append(b, k);
      fclose(o);
      size_t errp = txt.find("(error");
      if (txt.compare(0, 5, "unsat") == 0) { res = Res::Unsat; break; }
      if (errp != std::string::npos) continue;
      if (txt.compare(0, 3, "sat") == 0) {
        // parse "(sN #xHH)" or "(sN #b........)"
        out.clear();
        size_t p = 0;
        while ((p = txt.find("(s", p)) != std::string::npos) {
          p += 2;
          if (!isdigit(txt[p])) continue;
          u32 id = strtoul(txt.c_str() + p, nullptr, 10);
          size_t h = txt.find('#', p);
          if (h == std::string::npos) break;
          int v = txt[h + 1] == 'x' ? strtol(txt.substr(h + 2, 2).c_str(), nullptr, 16)
                                    : strtol(txt.substr(h + 2, 8).c_str(), nullptr, 2);
          out.push_back({id, (u8)v});
          p = h;
        }
        res = Res::Sat;
        break;
      }
    }
  }
  for (pid_t p : pids)
    if (p > 0) { kill(p, SIGKILL); waitpid(p, nullptr, 0); }
  for (auto& o : outs) unlink(o.c_str());
  if (!getenv("PSISYM_KEEP")) unlink(f.c_str());
  return res;
}
}  // namespace

std::string dumpSmt2(const std::vector<Expr*>& cs) {
  // DAG dump with let-free define-funs
  std::ostringstream o;
  o << "(set-logic QF_BV)\n";
  std::vector<char> seen(gExprs.size() + 1, 0);
  std::ostringstream body;
  std::function<void(Expr*)> visit = [&](Expr* e) {
    if (seen[e->id]) return;
    seen[e->id] = 1;
    for (int i = 0; i < 3; i++) if (e->k[i]) visit(e->k[i]);
    if (e->op == Op::Sym) {
      o << "(declare-const s" << e->aux << " (_ BitVec 8))\n";
    }
  };
  for (auto* c : cs) visit(c);
  // everything is a bitvector here (width-1 too); comparisons become ite.
  auto ref = [&](Expr* e) -> std::string {
    if (e->op == Op::Sym) return "s" + std::to_string(e->aux);
    if (e->op == Op::Const) {
      std::string b = "#b";
      for (int i = e->w - 1; i >= 0; i--) b += ((e->cv >> i) & 1) ? '1' : '0';
      return b;
    }
    return "e" + std::to_string(e->id);
  };
  std::fill(seen.begin(), seen.end(), 0);
  std::function<void(Expr*)> emit = [&](Expr* e) {
    if (seen[e->id]) return;
    seen[e->id] = 1;
    for (int i = 0; i < 3; i++) if (e->k[i]) emit(e->k[i]);
    if (e->op == Op::Sym || e->op == Op::Const) return;
    static const char* nm[] = {"","","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvand","bvor","bvxor","bvshl","bvlshr","bvashr","=","bvult","bvule","bvslt","bvsle"};
    body << "(define-fun e" << e->id << " () (_ BitVec " << e->w << ") ";
    switch (e->op) {
      case Op::Not: body << "(bvnot " << ref(e->k[0]) << ")"; break;
      case Op::Ite: body << "(ite (= " << ref(e->k[0]) << " #b1) " << ref(e->k[1]) << " " << ref(e->k[2]) << ")"; break;
      case Op::Concat: body << "(concat " << ref(e->k[0]) << " " << ref(e->k[1]) << ")"; break;
      case Op::Extract: body << "((_ extract " << e->aux + e->w - 1 << " " << e->aux << ") " << ref(e->k[0]) << ")"; break;
      case Op::ZExt: body << "((_ zero_extend " << e->w - e->k[0]->w << ") " << ref(e->k[0]) << ")"; break;
      case Op::SExt: body << "((_ sign_extend " << e->w - e->k[0]->w << ") " << ref(e->k[0]) << ")"; break;
      case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
        body << "(ite (" << nm[(int)e->op] << " " << ref(e->k[0]) << " " << ref(e->k[1]) << ") #b1 #b0)";
        break;
      default: body << "(" << nm[(int)e->op] << " " << ref(e->k[0]) << " " << ref(e->k[1]) << ")";
    }
    body << ")\n";
  };
  for (auto* c : cs) {
    emit(c);
    body << "(assert (= " << ref(c) << " #b1))\n";
  }
  return o.str() + body.str();
}

void solverInit(unsigned softTimeoutMs, const std::string& scratch, unsigned extTimeoutS) {
  softTimeout = softTimeoutMs;
  scratchDir = scratch;
  extTimeout = extTimeoutS;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  sInc = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, sInc);
}

static Res runZ3(Z3_solver s, const std::vector<Expr*>& cs,
                 const std::vector<u32>& syms,
                 std::vector<std::pair<u32, u8>>& out, unsigned timeoutMs) {
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  for (auto* c : cs) Z3_solver_assert(ctx, s, tr(c));
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    for (u32 x : syms) {
      Z3_ast v;
      if (Z3_model_eval(ctx, m, tr(mkSym(x)), true, &v)) {
        unsigned u = 0;
        Z3_get_numeral_uint(ctx, v, &u);
        out.push_back({x, (u8)u});
      }
    }
    Z3_model_dec_ref(ctx, m);
  }
  return r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
}

// ---- finite domains --------------------------------------------------------
// A conjunction over at most two symbolic bytes is decided by its truth table
// (used when bit-blasting does not answer at once; divisions by constants over
// a byte are typical).
static bool finiteDomain(const std::vector<Expr*>& cs, const std::vector<u32>& syms, CacheEnt& ent) {
  if (syms.size() > 2 || syms.empty()) return false;
  std::vector<Expr*> order;
  std::unordered_map<u32, u32> pos;
  bool wide = false;
  std::function<void(Expr*)> visit = [&](Expr* e) {
    if (wide || pos.count(e->id)) return;
    if (e->w > 128 || order.size() > 400000) { wide = true; return; }
    for (int i = 0; i < 3; i++) if (e->k[i]) visit(e->k[i]);
    if (wide) return;
    pos[e->id] = order.size();
    order.push_back(e);
  };
  for (auto* c : cs) visit(c);
  if (wide || order.size() * (syms.size() == 2 ? 65536.0 : 256.0) > 4e8 || order.size() > 100000) return false;
  gSolverStats.finite++;
  std::vector<u128> val(order.size() * 256);
  std::vector<std::array<int, 3>> kid(order.size());
  for (size_t n = 0; n < order.size(); n++)
    for (int i = 0; i < 3; i++) kid[n][i] = order[n]->k[i] ? (int)pos[order[n]->k[i]->id] : -1;
  for (unsigned outer = 0; outer < (syms.size() == 2 ? 256u : 1u); outer++) {
    for (size_t n = 0; n < order.size(); n++) {
      Expr* e = order[n];
      u128* v = &val[n * 256];
      const u128* a = kid[n][0] >= 0 ? &val[(size_t)kid[n][0] * 256] : nullptr;
      const u128* b = kid[n][1] >= 0 ? &val[(size_t)kid[n][1] * 256] : nullptr;
      const u128* c = kid[n][2] >= 0 ? &val[(size_t)kid[n][2] * 256] : nullptr;
      u128 m = maskw(e->w);
      switch (e->op) {
        case Op::Const: for (int i = 0; i < 256; i++) v[i] = e->cv; break;
        case Op::Sym: for (int i = 0; i < 256; i++) v[i] = e->aux == syms[0] ? (u128)i : (u128)outer; break;
        case Op::Not: for (int i = 0; i < 256; i++) v[i] = ~a[i] & m; break;
        case Op::Ite: for (int i = 0; i < 256; i++) v[i] = a[i] ? b[i] : c[i]; break;
        case Op::Concat: for (int i = 0; i < 256; i++) v[i] = (a[i] << e->k[1]->w) | b[i]; break;
        case Op::Extract: for (int i = 0; i < 256; i++) v[i] = (a[i] >> e->aux) & m; break;
        case Op::ZExt: for (int i = 0; i < 256; i++) v[i] = a[i]; break;
        case Op::SExt: for (int i = 0; i < 256; i++) v[i] = (u128)sextw(a[i], e->k[0]->w) & m; break;
        case Op::Add: for (int i = 0; i < 256; i++) v[i] = (a[i] + b[i]) & m; break;
        case Op::Sub: for (int i = 0; i < 256; i++) v[i] = (a[i] - b[i]) & m; break;
        case Op::Mul: for (int i = 0; i < 256; i++) v[i] = (a[i] * b[i]) & m; break;
        case Op::And: for (int i = 0; i < 256; i++) v[i] = a[i] & b[i]; break;
        case Op::Or: for (int i = 0; i < 256; i++) v[i] = a[i] | b[i]; break;
        case Op::Xor: for (int i = 0; i < 256; i++) v[i] = a[i] ^ b[i]; break;
        default: for (int i = 0; i < 256; i++) v[i] = foldBin(e->op, a[i], b[i], e->k[0]->w); break;
      }
    }
    for (int i = 0; i < 256; i++) {
      bool all = true;
      for (auto* c : cs) if (!val[(size_t)pos[c->id] * 256 + i]) { all = false; break; }
      if (all) {
        ent.r = Res::Sat;
        ent.m.clear();
        ent.m.push_back({syms[0], (u8)i});
        if (syms.size() == 2) ent.m.push_back({syms[1], (u8)outer});
        return true;
      }
    }
  }
  ent.r = Res::Unsat;
  ent.m.clear();
  return true;
}

static bool wideArith(const std::vector<Expr*>& cs) {
  std::unordered_set<u32> seen;
  std::vector<Expr*> st(cs.begin(), cs.end());
  int n = 0;
  while (!st.empty() && n <= 40 && seen.size() < 100000) {
    Expr* e = st.back();
    st.pop_back();
    if (!seen.insert(e->id).second) continue;
    if (e->w >= 32 && (e->op == Op::Mul || e->op == Op::UDiv || e->op == Op::URem || e->op == Op::SDiv || e->op == Op::SRem)) n += e->w > 64 ? 4 : 1;
    for (int i = 0; i < 3; i++) if (e->k[i]) st.push_back(e->k[i]);
  }
  return n > 40;
}

// Disjuncts of e that can be decided one by one (their supports differ).
static void disjuncts(Expr* e, bool neg, std::vector<Expr*>& out) {
  if (e->w == 1 && e->op == Op::Not) { disjuncts(e->k[0], !neg, out); return; }
  if (e->w == 1 && ((e->op == Op::Or && !neg) || (e->op == Op::And && neg))) {
    auto &a = exprSupport(e->k[0]), &b = exprSupport(e->k[1]);
    if (a != b && out.size() < 4096) {
      disjuncts(e->k[0], neg, out);
      disjuncts(e->k[1], neg, out);
      return;
    }
  }
  if (neg && e->op == Op::Eq && e->k[0]->w > 8) {
    // a wide disequality whose parts read different symbols: part by part
    std::vector<unsigned> cuts;
    unsigned w = e->k[0]->w;
    auto coll = [&](Expr* x, auto&& self, unsigned off) -> void {
      if (x->op == Op::Concat) { self(x->k[1], self, off); self(x->k[0], self, off + x->k[1]->w); }
      else if (x->op == Op::ZExt) { cuts.push_back(off); cuts.push_back(off + x->k[0]->w); }
      else cuts.push_back(off);
    };
    coll(e->k[0], coll, 0);
    coll(e->k[1], coll, 0);
    cuts.push_back(w);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    if (cuts.size() > 2 && exprSupport(e).size() > 1) {
      size_t full = exprSupport(e).size();
      std::vector<Expr*> parts;
      bool smaller = false;
      for (size_t i = 0; i + 1 < cuts.size(); i++) {
        Expr* q = mkNot(mkBin(Op::Eq, mkExtract(e->k[0], cuts[i], cuts[i + 1] - cuts[i]), mkExtract(e->k[1], cuts[i], cuts[i + 1] - cuts[i])));
        if (exprSupport(q).size() < full) smaller = true;
        parts.push_back(q);
      }
      if (smaller) { for (auto* q : parts) out.push_back(q); return; }
    }
  }
  out.push_back(neg ? mkNot(e) : e);
}

static Res solverCheck1(const std::vector<Expr*>& pc, Expr* extra, Model* model, unsigned timeoutMs);
Res solverCheck(const std::vector<Expr*>& pc, Expr* extra, Model* model, unsigned timeoutMs) {
  std::vector<Expr*> ds;
  disjuncts(extra, false, ds);
  if (ds.size() <= 1) return solverCheck1(pc, extra, model, timeoutMs);
  Res r = Res::Unsat;
  for (auto* d : ds) {
    if (d->op == Op::Const) { if (d->cv) return solverCheck1(pc, extra, model, timeoutMs); continue; }
    Res x = solverCheck1(pc, d, model, timeoutMs);
    if (x == Res::Sat) return x;
    if (x == Res::Unknown) r = x;
  }
  return r;
}
static Res solverCheck1(const std::vector<Expr*>& pc, Expr* extra, Model* model,
                        unsigned timeoutMs) {
  // slicing
  std::vector<Expr*> cs;
  std::unordered_set<u32> have;
  cs.push_back(extra);
  for (u32 s : exprSupport(extra)) have.insert(s);
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      auto& sp = exprSupport(pc[i]);
      bool hit = false;
      for (u32 s : sp) if (have.count(s)) { hit = true; break; }
      if (hit) {
        used[i] = 1;
        cs.push_back(pc[i]);
        for (u32 s : sp) if (have.insert(s).second) ch = true;
      }
    }
  }
  std::vector<u32> key;
  for (auto* c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) {
    gSolverStats.cacheHits++;
    if (it->second.r == Res::Sat && model)
      for (auto& p : it->second.m) model->set(p.first, p.second);
    return it->second.r;
  }
  std::vector<u32> syms(have.begin(), have.end());
  std::sort(syms.begin(), syms.end());
  gSolverStats.queries++;
  double t0 = now();
  CacheEnt ent;
  z3err = false;
  bool small = syms.size() <= 2;
  // one symbolic byte under long chains of wide arithmetic: bit-blasting only costs time
  if (syms.size() == 1 && wideArith(cs) && finiteDomain(cs, syms, ent)) small = false;
  else {
  Z3_solver_push(ctx, sInc);
  ent.r = runZ3(sInc, cs, syms, ent.m, small ? (syms.size() == 1 ? 60u : 300u) : std::min(timeoutMs, 2000u));
  Z3_solver_pop(ctx, sInc, 1);
  }
  if (small && (ent.r == Res::Unknown || z3err) && finiteDomain(cs, syms, ent)) z3err = false;
  if (ent.r == Res::Unknown || z3err) {
    z3err = false;
    ent.m.clear();
    Z3_solver s2 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s2);
    ent.r = runZ3(s2, cs, syms, ent.m, timeoutMs);
    Z3_solver_dec_ref(ctx, s2);
    if (z3err) ent.r = Res::Unknown;
  }
  if (ent.r == Res::Unknown) {
    ent.m.clear();
    ent.r = external(cs, syms, ent.m);
    if (ent.r == Res::Sat) {
      // trust only if our own evaluator agrees
      Model mm;
      if (model) mm = *model;
      for (auto& p : ent.m) mm.set(p.first, p.second);
      for (auto* c : cs)
        if (!evalExpr(c, mm)) { ent.r = Res::Unknown; break; }
    }
  } else if (ent.r == Res::Sat) {
    Model mm;
    if (model) mm = *model;
    for (auto& p : ent.m) mm.set(p.first, p.second);
    for (auto* c : cs)
      if (!evalExpr(c, mm)) {
        fprintf(stderr, "psisym: solver model disagrees with evaluator on %s\n", exprStr(c).c_str());
        ent.r = Res::Unknown;
        break;
      }
  }
  double dt = now() - t0;
  if (getenv("PSISYM_DUMP") && dt > atof(getenv("PSISYM_DUMP"))) {
    static int dn = 0;
    std::string fn = scratchDir + "/dump" + std::to_string(dn++) + ".smt2";
    if (FILE* f = fopen(fn.c_str(), "w")) { std::string t = dumpSmt2(cs) + "(check-sat)\n"; fwrite(t.data(), 1, t.size(), f); fclose(f); }
  }
  gSolverStats.time += dt;
  if (dt > gSolverStats.maxTime) gSolverStats.maxTime = dt;
  if (ent.r == Res::Sat) gSolverStats.sat++;
  else if (ent.r == Res::Unsat) gSolverStats.unsat++;
  else gSolverStats.unknown++;
  if (ent.r == Res::Sat && model)
    for (auto& p : ent.m) model->set(p.first, p.second);
  if (cache.size() > 400000) cache.clear();
  cache[key] = ent;
  return ent.r;
}
