#include "sym.h"
#include "psi/algorithm/spiral/util.h"
#include "psi/algorithm/spiral/gadget.h"
#include "psi/algorithm/spiral/poly_matrix_utils.h"
#include "psi/algorithm/spiral/arith/arith_params.h"
using namespace psi::spiral;
using u64 = uint64_t;
using u128 = unsigned __int128;
namespace {
u64 wsym() { return symBelow(1u << sym_param("bits", 12), "v"); }
// a window of values below `top` (inclusive upper end last), placed at one of several bases
u64 window(u64 top, const char* name) {
  u64 w = u64(1) << sym_param("bits", 12);
  u64 bases[] = {0, top / 2 - w / 2, top - w, top / 3, top / 257 * 190};
  return bases[choose(5, name)] + wsym();
}
const u64 kQ0 = 268369921, kQ1 = 249561089;
Params P(size_t n) { return Params(n, {kQ0, kQ1}, 0.05, PolyMatrixParams(2, 256, 21, 4, 8, 8, 6), QueryParams(2, 1, 1)); }
}
extern "C" int h_scalar() {
  auto params = P(8);
  const u64 Q = kQ0 * kQ1;
  int op = sym_param("op", 0);
  static const u64 kM[] = {kQ0, kQ1, kQ0 * kQ1, 65537, 1032193};
  if (op == 0) {  // 64-bit reduction
    u64 m = kM[choose(5, "m")], v = window(~u64(0), "base");
    auto cr = arith::GetBarrettCrs(m);
    CHECK_THAT(arith::BarrettRawU64(v, cr.second, m) == v % m, "64-bit reduction");
  } else if (op == 1) {  // 128-bit reduction of a product or of a sum of products
    u64 m = kM[choose(5, "m")];
    u64 a = (m - 1) / 3 * 2 + choose(2, "a"), b = window(m, "base");
    auto cr = arith::GetBarrettCrs(m);
    u128 v = (u128)a * b + (u128)choose(2, "c") * (m - 1) * (m - 2);
    CHECK_THAT(arith::BarrettReductionU128Raw(v, cr.first, cr.second, m) == (u64)(v % m), "128-bit reduction");
    CHECK_THAT(arith::MultiplyUintMod(a, b, m, cr.first, cr.second) == (u64)((u128)a * b % m), "modular product");
  } else if (op == 2) {  // value to residues and back
    u64 v = window(Q, "base");
    auto raw = PolyMatrixRaw::Zero(8, 1, 1);
    raw.Data()[3] = v;
    std::vector<u64> res(16);
    ReduceCopy(params, absl::MakeSpan(res), raw.Poly(0, 0));
    CHECK_THAT(res[3] == v % kQ0 && res[11] == v % kQ1, "residues");
    CHECK_THAT(params.CrtCompose(res, 3) == v, "residues do not compose to the value");
    CHECK_THAT(params.CrtCompose2(v % kQ0, v % kQ1) == v, "composition");
  } else if (op == 3) {  // centring a plaintext value in the large modulus
    u64 small = choose(2, "small") ? 256 : 65536, v = symBelow(small, "v"), big = kM[choose(3, "m")];
    CHECK_THAT(arith::RecenertMod(v, small, big) == (v > small / 2 ? big - (small - v) : v), "centred value");
  } else if (op == 4) {  // centring a large value in a smaller modulus
    u64 big = choose(2, "big") ? Q : kQ0, small = choose(2, "small") ? 1032193 : 4 * 256, v = window(big, "base");
    __int128 c = v >= big / 2 ? (__int128)v - big : v, e = c % (__int128)small;
    if (e < 0) e += small;
    CHECK_THAT(arith::Recenter(v, big, small) == (u64)e, "recentred value");
  } else if (op == 5) {  // rescaling rounds to nearest
    u64 in = choose(2, "in") ? Q : (u64(1) << 21) - 9, out = choose(2, "out") ? 1032193 : 4 * 256, v = window(in, "base");
    __int128 c = v >= in / 2 ? (__int128)v - (__int128)in : v;
    u64 r = arith::Rescale(v, in, out);
    CHECK_THAT(r < out, "rescaled value out of range");
    __int128 d = (c * (__int128)out - (__int128)r * (__int128)in) % ((__int128)in * out);
    if (d < 0) d += (__int128)in * out;
    if (d > (__int128)in * out / 2) d -= (__int128)in * out;
    CHECK_THAT(d <= (__int128)(in / 2 + 1) && -d <= (__int128)(in / 2 + 1), "not the nearest value");
  } else {  // residue arithmetic
    size_t c = choose(2, "crt");
    u64 m = c ? kQ1 : kQ0, a = window(m, "base"), b = (m - 1) / 7 * 5, x = m - 1 - choose(2, "x");
    CHECK_THAT(arith::MultiplyModular(params, a, b, c) == (u64)((u128)a * b % m), "product");
    CHECK_THAT(arith::MultiplyAddModular(params, a, b, x, c) == (u64)(((u128)a * b + x) % m), "product plus");
    CHECK_THAT(arith::AddModular(params, a, x, c) == (a + x) % m, "sum");
  }
  sym_reach("end");
  return 0;
}
extern "C" int h_ring() {
  size_t n = sym_param("n", 8);
  auto params = P(n);
  const u64 Q = params.Modulus();
  int op = sym_param("op", 0);
  size_t pos = choose(n, "pos");
  static const int kSh[] = {0, 25, 48};
  auto a = PolyMatrixRaw::Zero(n, 1, 1), b = PolyMatrixRaw::Zero(n, 1, 1);
  for (size_t i = 0; i < n; i++) a.Data()[i] = (u64)((u128)(i * i + 3) * 0x9e3779b97f4a7c15ULL % Q), b.Data()[i] = (u64)((u128)(i + 7) * 0xc2b2ae3d27d4eb4fULL % Q);
  int sh = kSh[choose(3, "sh")];
  a.Data()[pos] = (u64)sym<uint8_t>("v") << sh;
  if (sh == 48) sym_assume(a.Data()[pos] < Q);
  auto an = ToNtt(params, a);
  for (size_t i = 0; i < 2 * n; i++) CHECK_THAT(an.Data()[i] < (i < n ? kQ0 : kQ1), "transformed value is not reduced");
  auto check = [&](const PolyMatrixRaw& got, const std::vector<u64>& want) {
    for (size_t i = 0; i < n; i++) CHECK_THAT(got.Data()[i] == want[i], "polynomial differs");
  };
  std::vector<u64> w(n);
  if (op == 0) {
    for (size_t i = 0; i < n; i++) w[i] = a.Data()[i];
    check(FromNtt(params, an), w);
  } else if (op == 1) {
    auto bn = ToNtt(params, b);
    auto prod = Multiply(params, an, bn);
    // schoolbook: only the symbolic coefficient varies, the rest is exact concrete arithmetic
    std::vector<u64> acc(n, 0);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        u64 t = (u64)((u128)a.Data()[i] * b.Data()[j] % Q);
        size_t k = (i + j) % n;
        acc[k] = i + j >= n ? (acc[k] + Q - t) % Q : (acc[k] + t) % Q;
      }
    check(FromNtt(params, prod), acc);
    check(FromNtt(params, ScalarMultiply(params, an, bn)), acc);
  } else if (op == 2) {
    auto bn = ToNtt(params, b);
    for (size_t i = 0; i < n; i++) w[i] = (a.Data()[i] + b.Data()[i]) % Q;
    check(FromNtt(params, Add(params, an, bn)), w);
    auto acc = bn;
    AddInto(params, acc, an);
    check(FromNtt(params, acc), w);
  } else {
    size_t t = 2 * choose(n, "t") + 1;
    auto r = Automorphism(params, a, t);
    auto neg = Invert(params, a);
    std::vector<u64> e(n);
    for (size_t i = 0; i < n; i++) {
      size_t k = i * t % (2 * n);
      u64 v = a.Data()[i];
      e[k % n] = k >= n ? (Q - v) % Q : v;
      CHECK_THAT((neg.Data()[i] + v) % Q == 0, "negation");
    }
    for (size_t i = 0; i < n; i++) CHECK_THAT(r.Data()[i] % Q == e[i], "automorphism");
  }
  sym_reach("end");
  return 0;
}
extern "C" int h_gadget() {
  auto params = P(8);
  size_t t = sym_param("t", 8), rows = 2;
  auto g = util::BuildGadget(params, rows, rows * t);
  auto in = PolyMatrixRaw::Zero(8, rows, 1);
  size_t r = choose(rows, "row"), z = choose(8, "z");
  u64 v = sym<u64>("v");
  sym_assume(v < params.Modulus());
  in.Poly(r, 0)[z] = v;
  auto out = PolyMatrixRaw::Zero(8, rows * t, 1);
  util::GadgetInvertRdim(params, out, in, rows);
  size_t bits = util::GetBitsPer(params, t);
  u64 sum[2] = {0, 0};
  for (size_t i = 0; i < rows; i++)
    for (size_t j = 0; j < rows * t; j++) {
      CHECK_THAT(bits == 64 || (out.Poly(j, 0)[z] >> bits) == 0, "digit out of range");
      sum[i] += g.Poly(i, j)[0] * out.Poly(j, 0)[z];
      for (size_t k = 0; k < 8; k++) CHECK_THAT(k == z || out.Poly(j, 0)[k] == 0, "other coefficients changed");
    }
  CHECK_THAT(sum[r] == v && sum[1 - r] == 0, "digits do not recompose");
  sym_reach("end");
  return 0;
}
