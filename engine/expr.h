// Hash-consed bit-vector expressions for psisym (the symbolic executor used by
// every check in /verif).  Widths 1..128 (constants), wider only as Concat.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum class Op : u8 {
  Const, Sym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Not, Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
  Op op;
  uint16_t w;
  u32 id;
  u32 aux;  // Extract offset; Sym: symbol byte index
  Expr* k[3];
  u128 cv;
  u128 ub = 0;  // upper bound (unsigned), only meaningful for w <= 128
  // lazily computed support (sorted list of symbol byte indices), null = none yet
  std::vector<u32>* support = nullptr;
};

inline u128 maskw(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

extern std::vector<Expr*> gExprs;

Expr* mkConst(u128 v, unsigned w);
Expr* mkSym(u32 idx);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
const std::vector<u32>& exprSupport(Expr* e);
u128 foldBin(Op op, u128 a, u128 b, unsigned w);

// Evaluate under a byte assignment.
struct Model {
  std::vector<u8> v;
  u8 get(u32 i) const { return i < v.size() ? v[i] : 0; }
  void set(u32 i, u8 x) {
    if (v.size() <= i) v.resize(i + 1, 0);
    v[i] = x;
  }
};
u128 evalExpr(Expr* e, const Model& m);
std::string exprStr(Expr* e, int depth = 6);
