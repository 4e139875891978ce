#include <unordered_map>
#include "expr.h"

#include <algorithm>

std::vector<Expr*> gExprs;

namespace {
struct KeyHash {
  size_t operator()(const Expr* e) const {
    u64 h = (u64)e->op * 0x9E3779B97F4A7C15ull + e->w;
    h = (h ^ e->aux) * 0xff51afd7ed558ccdull;
    for (int i = 0; i < 3; i++)
      h = (h ^ (e->k[i] ? e->k[i]->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull ^ (h >> 29);
    h ^= (u64)e->cv * 0x9E3779B97F4A7C15ull;
    h ^= (u64)(e->cv >> 64) * 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
  }
};
struct KeyEq {
  bool operator()(const Expr* a, const Expr* b) const {
    return a->op == b->op && a->w == b->w && a->aux == b->aux &&
           a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] &&
           a->cv == b->cv;
  }
};
std::unordered_set<Expr*, KeyHash, KeyEq> table;

Expr* arenaNew() {
  static Expr* cur = nullptr;
  static size_t left = 0;
  if (!left) {
    cur = (Expr*)malloc(sizeof(Expr) * 4096);
    left = 4096;
  }
  left--;
  return new (cur++) Expr();
}

unsigned bitsOf(u128 v) {
  unsigned n = 0;
  while (v) { n++; v >>= 1; }
  return n;
}
u128 upperBound(const Expr* e) {
  u128 m = maskw(e->w);
  const Expr *a = e->k[0], *b = e->k[1];
  if (e->w > 128) return m;
  switch (e->op) {
    case Op::Const: return e->cv;
    case Op::Sym: return 255;
    case Op::Add: { u128 t = a->ub + b->ub; return (t < a->ub || t > m) ? m : t; }
    case Op::Mul: return (bitsOf(a->ub) + bitsOf(b->ub) > 128 || a->ub * b->ub > m) ? m : a->ub * b->ub;
    case Op::UDiv: return b->op == Op::Const && b->cv ? a->ub / b->cv : m;
    case Op::URem: return b->op == Op::Const && b->cv ? std::min(a->ub, b->cv - 1) : a->ub;
    case Op::And: return std::min(a->ub, b->ub);
    case Op::Or: case Op::Xor: return maskw(std::max(1u, std::max(bitsOf(a->ub), bitsOf(b->ub)))) & m;
    case Op::Shl: return b->op == Op::Const && b->cv < e->w && bitsOf(a->ub) + (unsigned)b->cv <= e->w ? a->ub << (unsigned)b->cv : m;
    case Op::LShr: return b->op == Op::Const ? (b->cv < e->w ? a->ub >> (unsigned)b->cv : 0) : a->ub;
    case Op::Ite: return std::max(b->ub, e->k[2]->ub);
    case Op::Concat: return a->w > 128 || b->w > 128 ? m : (a->ub << b->w) | b->ub;
    case Op::Extract: return a->w > 128 ? m : std::min(m, a->ub >> e->aux);
    case Op::ZExt: return a->ub;
    case Op::SExt: return a->ub <= (maskw(a->w) >> 1) ? a->ub : m;
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: return 1;
    default: return m;
  }
}
Expr* intern(Op op, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 cv) {
  Expr t;
  t.op = op;
  t.w = w;
  t.aux = aux;
  t.k[0] = a;
  t.k[1] = b;
  t.k[2] = c;
  t.cv = cv;
  t.id = 0;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr* e = arenaNew();
  *e = t;
  e->ub = upperBound(e);
  e->id = gExprs.size();
  gExprs.push_back(e);
  table.insert(e);
  return e;
}
bool isC(Expr* e) { return e->op == Op::Const; }
bool isC(Expr* e, u128 v) { return e->op == Op::Const && e->cv == v; }
}  // namespace

Expr* mkConst(u128 v, unsigned w) {
  return intern(Op::Const, w, 0, nullptr, nullptr, nullptr, v & maskw(w));
}
Expr* mkSym(u32 idx) {
  return intern(Op::Sym, 8, idx, nullptr, nullptr, nullptr, 0);
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : m;
    case Op::URem: return b ? (a % b) & m : a;
    case Op::SDiv: {
      s128 x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case Op::SRem: {
      s128 x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a & m) >> (unsigned)b;
    case Op::AShr: {
      s128 x = sextw(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m;
    }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextw(a, w) < sextw(b, w);
    case Op::Sle: return sextw(a, w) <= sextw(b, w);
    default: abort();
  }
}

Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(~a->cv, a->w);
  if (a->op == Op::Not) return a->k[0];
  if (a->w == 1) {
    // push negation into comparisons to keep constraint matching canonical
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
  }
  return intern(Op::Not, a->w, 0, a, nullptr, nullptr, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->cv ? a : b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(a, 1)) return mkBin(Op::Or, c, b);
    if (isC(b, 0)) return mkBin(Op::And, c, a);
    if (isC(a, 0)) return mkBin(Op::And, mkNot(c), b);
    if (isC(b, 1)) return mkBin(Op::Or, mkNot(c), a);
  }
  if (a->op == Op::Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == Op::Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->op == Op::Ite && b->k[1] == a)
    return mkIte(mkBin(Op::Or, c, b->k[0]), a, b->k[2]);
  return intern(Op::Ite, a->w, 0, c, a, b, 0);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 128)
    return mkConst((hi->cv << lo->w) | lo->cv, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] &&
      hi->aux == lo->aux + lo->w)
    return mkExtract(hi->k[0], lo->aux, w);
  // concat(hi:extract(x,a+..), concat(extract(x,..), rest))
  if (lo->op == Op::Concat && hi->op == Op::Extract &&
      lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] &&
      hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w),
                    lo->k[1]);
  // right-associate constants: concat(C1, concat(C2, x))
  if (isC(hi) && lo->op == Op::Concat && isC(lo->k[0]) &&
      hi->w + lo->k[0]->w <= 128)
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  if (hi->op == Op::ZExt)
    return mkZExt(mkConcat(hi->k[0], lo), w);
  if (hi->op == Op::Concat)  // right-associate
    return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  // concat(ite(c,a,b), ite(c,x,y)) -> ite(c, a.x, b.y)
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0] && w <= 128)
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]),
                 mkConcat(hi->k[2], lo->k[2]));
  return intern(Op::Concat, w, 0, hi, lo, nullptr, 0);
}

static Expr* extractOf(Expr* a, unsigned off, unsigned w);
// remembered: shared subterms would otherwise be walked once per use
Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  assert(off + w <= a->w);
  if (isC(a)) return mkConst(a->cv >> off, w);
  switch (a->op) {
    case Op::And: case Op::Or: case Op::Xor: case Op::Not: case Op::Add: case Op::Sub: case Op::Mul: case Op::Ite: case Op::Concat: {
      struct K {
        Expr* e; unsigned o, w;
        bool operator==(const K& k) const { return e == k.e && o == k.o && w == k.w; }
      };
      struct H { size_t operator()(const K& k) const { return ((size_t)k.e >> 4) * 0x9e3779b97f4a7c15ull + k.o * 1315423911u + k.w * 2654435761u; } };
      static auto* memo = new std::unordered_map<K, Expr*, H>();
      K k{a, off, w};
      auto i = memo->find(k);
      if (i != memo->end()) return i->second;
      Expr* r = extractOf(a, off, w);
      memo->emplace(k, r);
      return r;
    }
    default: return extractOf(a, off, w);
  }
}
static Expr* extractOf(Expr* a, unsigned off, unsigned w) {
  switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], a->aux + off, w);
    case Op::Concat: {
      unsigned lw = a->k[1]->w;
      if (off >= lw) return mkExtract(a->k[0], off - lw, w);
      if (off + w <= lw) return mkExtract(a->k[1], off, w);
      return mkConcat(mkExtract(a->k[0], 0, off + w - lw),
                      mkExtract(a->k[1], off, lw - off));
    }
    case Op::ZExt: {
      unsigned iw = a->k[0]->w;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      return mkZExt(mkExtract(a->k[0], off, iw - off), w);
    }
    case Op::SExt: {
      unsigned iw = a->k[0]->w;
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      if (off < iw) return mkSExt(mkExtract(a->k[0], off, iw - off), w);
      return mkSExt(mkExtract(a->k[0], iw - 1, 1), w);
    }
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case Op::Not: return mkNot(mkExtract(a->k[0], off, w));
    case Op::Add: case Op::Sub: case Op::Mul:
      if (off == 0 && w <= 64)
        return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    case Op::Shl:
      if (isC(a->k[1])) {
        unsigned s = a->k[1]->cv >= a->w ? a->w : (unsigned)a->k[1]->cv;
        if (off >= s) return mkExtract(a->k[0], off - s, w);
        if (off + w <= s) return mkConst(0, w);
        return mkConcat(mkExtract(a->k[0], 0, off + w - s), mkConst(0, s - off));
      }
      break;
    case Op::LShr:
      if (isC(a->k[1])) {
        unsigned s = a->k[1]->cv >= a->w ? a->w : (unsigned)a->k[1]->cv;
        if (off + s + w <= a->w) return mkExtract(a->k[0], off + s, w);
        if (off + s >= a->w) return mkConst(0, w);
        return mkZExt(mkExtract(a->k[0], off + s, a->w - off - s), w);
      }
      break;
    case Op::Ite: {
      // only push when a branch simplifies
      Expr* x = a->k[1];
      Expr* y = a->k[2];
      if (isC(x) || isC(y) || x->op == Op::Concat || y->op == Op::Concat ||
          x->op == Op::ZExt || y->op == Op::ZExt || x->op == Op::Ite ||
          y->op == Op::Ite)
        return mkIte(a->k[0], mkExtract(x, off, w), mkExtract(y, off, w));
      break;
    }
    default: break;
  }
  return intern(Op::Extract, w, off, a, nullptr, nullptr, 0);
}

Expr* mkZExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  assert(w > a->w);
  if (isC(a) && w <= 128) return mkConst(a->cv, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && w <= 128 && (isC(a->k[1]) || isC(a->k[2])))
    return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return intern(Op::ZExt, w, 0, a, nullptr, nullptr, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  assert(w > a->w);
  if (isC(a) && w <= 128) return mkConst((u128)sextw(a->cv, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && w <= 128 && (isC(a->k[1]) || isC(a->k[2])))
    return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(Op::SExt, w, 0, a, nullptr, nullptr, 0);
}

static bool commutes(Op op) {
  return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or ||
         op == Op::Xor || op == Op::Eq;
}
static bool isCmp(Op op) {
  return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt ||
         op == Op::Sle;
}

static bool constTree(Expr* e, int d) {
  if (isC(e)) return true;
  if (e->op != Op::Ite || d == 0) return false;
  // chains only: one side must be a leaf (or small)
  return (isC(e->k[1]) && constTree(e->k[2], d - 1)) || (isC(e->k[2]) && constTree(e->k[1], d - 1)) ||
         (d > 4 && constTree(e->k[1], 3) && constTree(e->k[2], d - 1)) || (d > 4 && constTree(e->k[2], 3) && constTree(e->k[1], d - 1)) ||
         (d <= 4 && constTree(e->k[1], d - 1) && constTree(e->k[2], d - 1));
}
Expr* mkBin(Op op, Expr* a, Expr* b) {
  if (a->w != b->w) {
    fprintf(stderr, "width mismatch op %d: %d %d\n", (int)op, a->w, b->w);
    abort();
  }
  unsigned w = a->w;
  unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->cv, b->cv, w), rw);
  if (commutes(op) && (isC(b) ? false : (isC(a) ? false : a->id > b->id)))
    std::swap(a, b);
  if (commutes(op) && isC(b)) std::swap(a, b);  // constant on the left
  // narrow operations whose operands have known-zero high bits
  if (w > 8 && w <= 128) {
    unsigned na = bitsOf(a->ub), nb = bitsOf(b->ub), n = std::max(1u, std::max(na, nb));
    switch (op) {
      case Op::UDiv:
        if (isC(b) && b->cv && a->ub < b->cv) return mkConst(0, w);
        if (n < w && !(isC(b) && (b->cv & (b->cv - 1)) == 0))
          return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
        break;
      case Op::URem:
        if (isC(b) && b->cv && a->ub < b->cv) return a;
        if (n < w && !(isC(b) && (b->cv & (b->cv - 1)) == 0))
          return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
        break;
      case Op::Mul:
        n = na + nb;
        if (n < w && n > 0 && na && nb && !(isC(a) && (a->cv & (a->cv - 1)) == 0)) {
          return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
        }
        break;
      case Op::Add:
        n = std::max(1u, bitsOf(a->ub + b->ub));
        if (a->ub <= maskw(w) / 2 && b->ub <= maskw(w) / 2 && n <= w / 2 && !isC(a, 0))
          return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
        break;
      case Op::Ult:
        if (isC(b) && a->ub < b->cv) return mkConst(1, 1);
        if (isC(a) && b->ub <= a->cv) return mkConst(0, 1);
        if (n < w) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n));
        break;
      case Op::Ule:
        if (isC(b) && a->ub <= b->cv) return mkConst(1, 1);
        if (isC(a) && b->ub < a->cv) return mkConst(0, 1);
        if (n < w) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n));
        break;
      case Op::Eq:
        if (isC(a) && a->cv > b->ub) return mkConst(0, 1);
        if (n < w) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n));
        break;
      case Op::Slt: case Op::Sle:
        if (na < w && nb < w) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
        break;
      default: break;
    }
  }
  // comparisons of a constant with a tree of constants: push inside
  if (isCmp(op) && w > 1 && (isC(a) != isC(b))) {
    Expr* t = isC(a) ? b : a;
    if (t->op == Op::Ite && constTree(t, 24)) {
      auto cmp = [&](Expr* x) { return isC(a) ? mkBin(op, a, x) : mkBin(op, x, b); };
      return mkIte(t->k[0], cmp(t->k[1]), cmp(t->k[2]));
    }
  }
  switch (op) {
    case Op::Add:
      if (isC(a, 0)) return b;
      if (isC(a) && b->op == Op::Add && isC(b->k[0]))
        return mkBin(Op::Add, mkConst(a->cv + b->k[0]->cv, w), b->k[1]);
      if (b->op == Op::Add && isC(b->k[0]))
        return mkBin(Op::Add, b->k[0], mkBin(Op::Add, a, b->k[1]));
      if (a->op == Op::Add && isC(a->k[0]))
        return mkBin(Op::Add, a->k[0], mkBin(Op::Add, a->k[1], b));
      if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
      if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
      if (isC(a) && b->op == Op::Ite && isC(b->k[1]) && isC(b->k[2]))
        return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
    case Op::Sub:
      if (isC(b)) return mkBin(Op::Add, mkConst(-b->cv, w), a);
      if (a == b) return mkConst(0, w);
      if (a->op == Op::Add && a->k[0] == b) return a->k[1];
      if (a->op == Op::Add && a->k[1] == b) return a->k[0];
      if (a->op == Op::Add && b->op == Op::Add && isC(a->k[0]) && isC(b->k[0]))
        return mkBin(Op::Add, mkConst(a->k[0]->cv - b->k[0]->cv, w),
                     mkBin(Op::Sub, a->k[1], b->k[1]));
      if (a->op == Op::Add && isC(a->k[0]))
        return mkBin(Op::Add, a->k[0], mkBin(Op::Sub, a->k[1], b));
      if (b->op == Op::Add && isC(b->k[0]))
        return mkBin(Op::Add, mkConst(-b->k[0]->cv, w),
                     mkBin(Op::Sub, a, b->k[1]));
      break;
    case Op::Mul:
      if (isC(a, 0)) return a;
      if (isC(a, 1)) return b;
      if (isC(a) && (a->cv & (a->cv - 1)) == 0) {
        unsigned s = 0;
        while (!((a->cv >> s) & 1)) s++;
        return mkBin(Op::Shl, b, mkConst(s, w));
      }
      if (isC(a) && b->op == Op::Mul && isC(b->k[0]))
        return mkBin(Op::Mul, mkConst(a->cv * b->k[0]->cv, w), b->k[1]);
      if (isC(a) && b->op == Op::Ite && isC(b->k[1]) && isC(b->k[2]))
        return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
    case Op::UDiv:
      if (isC(b, 1)) return a;
      if (isC(b) && b->cv && (b->cv & (b->cv - 1)) == 0) {
        unsigned s = 0;
        while (!((b->cv >> s) & 1)) s++;
        return mkBin(Op::LShr, a, mkConst(s, w));
      }
      break;
    case Op::SDiv:
      if (isC(b, 1)) return a;
      break;
    case Op::URem:
      if (isC(b, 1)) return mkConst(0, w);
      if (isC(b) && b->cv && (b->cv & (b->cv - 1)) == 0)
        return mkBin(Op::And, a, mkConst(b->cv - 1, w));
      if (isC(b) && b->cv && a->op == Op::ZExt && b->cv > maskw(a->k[0]->w))
        return a;
      break;
    case Op::And:
      if (isC(a, 0)) return a;
      if (isC(a, maskw(w))) return b;
      if (a == b) return a;
      if (w == 1 && (mkNot(a) == b)) return mkConst(0, 1);
      if (isC(a)) {
        if (b->op == Op::And && isC(b->k[0]))
          return mkBin(Op::And, mkConst(a->cv & b->k[0]->cv, w), b->k[1]);
        // low mask -> zext(extract)
        u128 m = a->cv;
        if ((m & (m + 1)) == 0) {
          unsigned n = 0;
          while ((m >> n) & 1) n++;
          return mkZExt(mkExtract(b, 0, n), w);
        }
        // contiguous high mask / middle mask
        unsigned lo = 0;
        while (!((m >> lo) & 1)) lo++;
        u128 t = m >> lo;
        if ((t & (t + 1)) == 0) {
          unsigned n = 0;
          while (n < 128 && ((t >> n) & 1)) n++;
          Expr* mid = mkExtract(b, lo, n);
          Expr* r = mkConcat(mid, mkConst(0, lo));
          return r->w < w ? mkZExt(r, w) : r;
        }
        if (b->op == Op::Ite && isC(b->k[1]) && isC(b->k[2]))
          return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      }
      break;
    case Op::Or:
      if (isC(a, 0)) return b;
      if (isC(a, maskw(w))) return a;
      if (a == b) return a;
      if (w == 1 && (mkNot(a) == b)) return mkConst(1, 1);
      if (isC(a) && b->op == Op::Or && isC(b->k[0]))
        return mkBin(Op::Or, mkConst(a->cv | b->k[0]->cv, w), b->k[1]);
      // or of disjoint pieces: zext(x,w) | concat(y, 0..)  -> concat(y, x)
      {
        Expr *p = a, *q = b;
        for (int t = 0; t < 2; t++, std::swap(p, q)) {
          Expr* inner = q;
          unsigned zx = 0;
          if (q->op == Op::ZExt) { inner = q->k[0]; zx = q->w - inner->w; }
          if (p->op == Op::ZExt && inner->op == Op::Concat) {
            // collect the trailing zero width of inner
            Expr* last = inner;
            while (last->op == Op::Concat) last = last->k[1];
            if (isC(last, 0) && last->w >= p->k[0]->w) {
              unsigned tz = last->w;
              Expr* hi = mkExtract(inner, tz, inner->w - tz);
              Expr* lo = mkZExt(p->k[0], tz);
              Expr* r = mkConcat(hi, lo);
              return zx ? mkZExt(r, w) : r;
            }
          }
        }
      }
      break;
    case Op::Xor:
      if (isC(a, 0)) return b;
      if (a == b) return mkConst(0, w);
      if (isC(a, maskw(w))) return mkNot(b);
      if (isC(a) && b->op == Op::Xor && isC(b->k[0]))
        return mkBin(Op::Xor, mkConst(a->cv ^ b->k[0]->cv, w), b->k[1]);
      if (b->op == Op::Xor) {
        if (b->k[0] == a) return b->k[1];
        if (b->k[1] == a) return b->k[0];
        if (isC(b->k[0]) && !isC(a))
          return mkBin(Op::Xor, b->k[0], mkBin(Op::Xor, a, b->k[1]));
      }
      if (a->op == Op::Xor) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (isC(a->k[0]) && !isC(b))
          return mkBin(Op::Xor, a->k[0], mkBin(Op::Xor, a->k[1], b));
      }
      break;
    case Op::Shl:
      if (isC(b)) {
        if (b->cv == 0) return a;
        if (b->cv >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->cv;
        if (w <= 128) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (isC(a, 0)) return a;
      break;
    case Op::LShr:
      if (isC(b)) {
        if (b->cv == 0) return a;
        if (b->cv >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->cv;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (isC(a, 0)) return a;
      break;
    case Op::AShr:
      if (isC(b)) {
        if (b->cv == 0) return a;
        unsigned s = b->cv >= w ? w - 1 : (unsigned)b->cv;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case Op::Eq:
      if (a == b) return mkConst(1, 1);
      if (w == 1) {
        if (isC(a, 1)) return b;
        if (isC(a, 0)) return mkNot(b);
      }
      if (isC(a)) {
        if (b->op == Op::ZExt) {
          unsigned iw = b->k[0]->w;
          if (a->cv >> iw) return mkConst(0, 1);
          return mkBin(Op::Eq, mkConst(a->cv, iw), b->k[0]);
        }
        if (b->op == Op::SExt) {
          unsigned iw = b->k[0]->w;
          u128 t = a->cv & maskw(iw);
          if (((u128)sextw(t, iw) & maskw(w)) != a->cv) return mkConst(0, 1);
          return mkBin(Op::Eq, mkConst(t, iw), b->k[0]);
        }
        if (b->op == Op::Concat && w <= 128) {
          unsigned lw = b->k[1]->w;
          return mkBin(Op::And,
                       mkBin(Op::Eq, mkConst(a->cv >> lw, b->k[0]->w), b->k[0]),
                       mkBin(Op::Eq, mkConst(a->cv, lw), b->k[1]));
        }
        if (b->op == Op::Add && isC(b->k[0]))
          return mkBin(Op::Eq, mkConst(a->cv - b->k[0]->cv, w), b->k[1]);
        if (b->op == Op::Xor && isC(b->k[0]))
          return mkBin(Op::Eq, mkConst(a->cv ^ b->k[0]->cv, w), b->k[1]);
        if (b->op == Op::Sub && isC(a, 0))
          return mkBin(Op::Eq, b->k[0], b->k[1]);
        if (b->op == Op::Xor && isC(a, 0))
          return mkBin(Op::Eq, b->k[0], b->k[1]);
        if (b->op == Op::Not) return mkBin(Op::Eq, mkConst(~a->cv, w), b->k[0]);
        if (b->op == Op::Ite && (isC(b->k[1]) || isC(b->k[2])))
          return mkIte(b->k[0], mkBin(Op::Eq, a, b->k[1]),
                       mkBin(Op::Eq, a, b->k[2]));
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
          return mkBin(Op::Eq, a->k[0], b->k[0]);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w)
          return mkBin(Op::Eq, a->k[0], b->k[0]);
        if (a->op == Op::Concat && b->op == Op::Concat &&
            a->k[1]->w == b->k[1]->w)
          return mkBin(Op::And, mkBin(Op::Eq, a->k[0], b->k[0]),
                       mkBin(Op::Eq, a->k[1], b->k[1]));
        if (a->op == Op::Add && b->op == Op::Add && a->k[0] == b->k[0])
          return mkBin(Op::Eq, a->k[1], b->k[1]);
        if (a->op == Op::Xor && b->op == Op::Xor) {
          if (a->k[0] == b->k[0]) return mkBin(Op::Eq, a->k[1], b->k[1]);
          if (a->k[1] == b->k[1]) return mkBin(Op::Eq, a->k[0], b->k[0]);
          if (a->k[0] == b->k[1]) return mkBin(Op::Eq, a->k[1], b->k[0]);
          if (a->k[1] == b->k[0]) return mkBin(Op::Eq, a->k[0], b->k[1]);
        }
      }
      break;
    case Op::Ult:
      if (a == b) return mkConst(0, 1);
      if (isC(b, 0)) return mkConst(0, 1);
      if (isC(b, 1)) return mkBin(Op::Eq, a, mkConst(0, w));
      if (isC(a, maskw(w))) return mkConst(0, 1);
      if (isC(a, 0)) return mkNot(mkBin(Op::Eq, a, b));
      if (isC(b) && a->op == Op::ZExt) {
        if (b->cv > maskw(a->k[0]->w)) return mkConst(1, 1);
        return mkBin(Op::Ult, a->k[0], mkConst(b->cv, a->k[0]->w));
      }
      if (isC(a) && b->op == Op::ZExt) {
        if (a->cv >= maskw(b->k[0]->w)) return mkConst(0, 1);
        return mkBin(Op::Ult, mkConst(a->cv, b->k[0]->w), b->k[0]);
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
        return mkBin(Op::Ult, a->k[0], b->k[0]);
      if ((isC(b) && a->op == Op::Ite && (isC(a->k[1]) && isC(a->k[2]))))
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if ((isC(a) && b->op == Op::Ite && (isC(b->k[1]) && isC(b->k[2]))))
        return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
    case Op::Ule:
      if (a == b) return mkConst(1, 1);
      if (isC(a, 0)) return mkConst(1, 1);
      if (isC(b, maskw(w))) return mkConst(1, 1);
      if (isC(b, 0)) return mkBin(Op::Eq, a, b);
      if (isC(b) && a->op == Op::ZExt) {
        if (b->cv >= maskw(a->k[0]->w)) return mkConst(1, 1);
        return mkBin(Op::Ule, a->k[0], mkConst(b->cv, a->k[0]->w));
      }
      if (isC(a) && b->op == Op::ZExt) {
        if (a->cv > maskw(b->k[0]->w)) return mkConst(0, 1);
        return mkBin(Op::Ule, mkConst(a->cv, b->k[0]->w), b->k[0]);
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
        return mkBin(Op::Ule, a->k[0], b->k[0]);
      if ((isC(b) && a->op == Op::Ite && (isC(a->k[1]) && isC(a->k[2]))))
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if ((isC(a) && b->op == Op::Ite && (isC(b->k[1]) && isC(b->k[2]))))
        return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
    case Op::Slt:
    case Op::Sle:
      if (a == b) return mkConst(op == Op::Sle, 1);
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
        return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a->k[0], b->k[0]);
      if (a->op == Op::ZExt && isC(b)) {
        if (sextw(b->cv, w) < 0) return mkConst(0, 1);
        return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      }
      if (b->op == Op::ZExt && isC(a)) {
        if (sextw(a->cv, w) < 0) return mkConst(1, 1);
        return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      }
      if ((isC(b) && a->op == Op::Ite && (isC(a->k[1]) && isC(a->k[2]))))
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if ((isC(a) && b->op == Op::Ite && (isC(b->k[1]) && isC(b->k[2]))))
        return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
    default: break;
  }
  return intern(op, rw, 0, a, b, nullptr, 0);
}

const std::vector<u32>& exprSupport(Expr* e) {
  if (e->support) return *e->support;
  // iterative DAG walk
  std::vector<u32> out;
  static std::vector<u32> mark;
  static u32 epoch = 0;
  epoch++;
  if (mark.size() < gExprs.size()) mark.resize(gExprs.size() + 1024, 0);
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    st.pop_back();
    if (mark[x->id] == epoch) continue;
    mark[x->id] = epoch;
    if (x->op == Op::Sym) { out.push_back(x->aux); continue; }
    if (x->support) {
      for (u32 s : *x->support) out.push_back(s);
      continue;
    }
    for (int i = 0; i < 3; i++)
      if (x->k[i]) st.push_back(x->k[i]);
  }
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  e->support = new std::vector<u32>(std::move(out));
  return *e->support;
}

namespace {
std::vector<u32> evEpoch;
std::vector<u128> evVal;
u32 curEpoch = 0;
u128 evalRec(Expr* e, const Model& m) {
  switch (e->op) {
    case Op::Const: return e->cv;
    case Op::Sym: return m.get(e->aux);
    default: break;
  }
  if (evEpoch[e->id] == curEpoch) return evVal[e->id];
  u128 r;
  switch (e->op) {
    case Op::Not: r = ~evalRec(e->k[0], m) & maskw(e->w); break;
    case Op::Ite: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    case Op::Concat: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
    case Op::Extract: r = (evalRec(e->k[0], m) >> e->aux) & maskw(e->w); break;
    case Op::ZExt: r = evalRec(e->k[0], m); break;
    case Op::SExt: r = (u128)sextw(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    default: r = foldBin(e->op, evalRec(e->k[0], m), evalRec(e->k[1], m), e->k[0]->w);
  }
  evEpoch[e->id] = curEpoch;
  evVal[e->id] = r;
  return r;
}
}  // namespace
u128 evalExpr(Expr* e, const Model& m) {
  if (e->op == Op::Const) return e->cv;
  if (evEpoch.size() < gExprs.size()) {
    evEpoch.resize(gExprs.size() * 2 + 1024, 0);
    evVal.resize(gExprs.size() * 2 + 1024, 0);
  }
  curEpoch++;
  return evalRec(e, m);
}

std::string exprStr(Expr* e, int depth) {
  static const char* names[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","not","ite","concat","extract","zext","sext"};
  if (e->op == Op::Const) {
    char b[64];
    if (e->cv >> 64) snprintf(b, 64, "0x%lx%016lx:%d", (u64)(e->cv >> 64), (u64)e->cv, e->w);
    else snprintf(b, 64, "0x%lx:%d", (u64)e->cv, e->w);
    return b;
  }
  if (e->op == Op::Sym) return "s" + std::to_string(e->aux);
  if (depth == 0) return "..";
  std::string r = std::string("(") + names[(int)e->op];
  if (e->op == Op::Extract) r += "@" + std::to_string(e->aux) + ":" + std::to_string(e->w);
  if (e->op == Op::ZExt || e->op == Op::SExt) r += ":" + std::to_string(e->w);
  for (int i = 0; i < 3; i++)
    if (e->k[i]) r += " " + exprStr(e->k[i], depth - 1);
  return r + ")";
}
