// RR22's OPRF and the linear algebra below it: field, matrices, rows, key-value store, both parties' values
#include <cmath>
#include <thread>
#include "psi/algorithm/rr22/davis_meyer_hash.h"
#include "psi/algorithm/rr22/okvs/baxos.h"
#include "psi/algorithm/rr22/okvs/dense_mtx.h"
#include "psi/algorithm/rr22/okvs/galois128.h"
#include "psi/algorithm/rr22/okvs/paxos.h"
#include "psi/algorithm/rr22/rr22_oprf.h"
#include "psi/algorithm/rr22/rr22_utils.h"
#include "sym.h"
#include "yacl/link/test_util.h"
#include "yacl/crypto/tools/ro.h"
#include "yacl/shim_hash.h"
using namespace psi::rr22;
using namespace psi::rr22::okvs;
typedef uint128_t U;
static U u128(uint64_t h, uint64_t l) { return (U)h << 64 | l; }
static U rnd(uint64_t k) { return u128(symcrypto::mix64(2 * k + 17), symcrypto::mix64(2 * k + 90018)); }
// value with some bits free: a window of the given width at a chosen multiple of it
static U window(unsigned bits, const char* what, U base = 0) {
  if (bits >= 128) return sym<U>(what);
  if (bits == 0) return base ^ ((U)choose(3, what) << 63);  // fixed values
  unsigned n = 128 / bits, few = (unsigned)sym_param("places", 0);
  unsigned at = few && few < n ? (unsigned)choose(few, "place") * (n - 1) / (few > 1 ? few - 1 : 1) * bits : (unsigned)choose(n, "place") * bits;
  return base ^ ((U)(sym<uint64_t>(what) & ((1ull << bits) - 1)) << at);
}
// the product, bit by bit, modulo x^128 + x^7 + x^2 + x + 1
static U mulRef(U a, U b) {
  U r = 0;
  for (int i = 127; i >= 0; i--) {
    U top = r >> 127;
    r = (r << 1) ^ (top * 0x87);
    r ^= ((b >> i) & 1) * a;
  }
  return r;
}
// the same, lowest power first
static U mulLow(U a, U b) {
  U r = 0;
  for (int i = 0; i < 128; i++) {
    r ^= ((b >> i) & 1) * a;
    a = (a << 1) ^ ((a >> 127) * 0x87);
  }
  return r;
}
static U val(Galois128 g) { return g.get<U>(0); }
extern "C" int h_galois() {
  // the product is linear in each factor.  Any element, in pieces, times a single bit, or a few free bits of both
  bool vec = sym_param("avx2", 0);
  U x, y;
  if (sym_param("few", 0)) { x = window(sym_param("few", 0), "x"); y = window(sym_param("few", 0), "y"); }
  else {
    size_t k = choose(128 / sym_param("stride", 1), "bit") * sym_param("stride", 1) + sym_param("at", 0);
    y = (U)1 << k;
    x = vec ? window(sym_param("wide", 32), "x") : choose(2, "dense") ? rnd(k) : y;
    if (!vec) y = sym<U>("y");
  }
  U want = vec ? mulRef(x, y) : mulLow(x, y);
  CHECK_THAT(val(Galois128(x) * Galois128(y)) == want, "a product is the polynomial product in GF(2^128)");
  if (vec) CHECK_THAT(val(Galois128(y).Mul(Galois128(x))) == want, "the product does not depend on the order");
  CHECK_THAT(val(Galois128(x) * y) == want, "all forms of the product agree");
  if (!vec) CHECK_THAT(cc_gf128Mul(x, y) == want, "the portable product");
  uint64_t lo = (uint64_t)y;
  CHECK_THAT(val(Galois128(x) * lo) == (vec ? mulRef(x, lo) : mulLow(x, lo)) && val(Galois128(lo)) == (U)lo, "a 64-bit factor stands for its low half");
  Galois128 two((uint64_t)(x >> 64), (uint64_t)x);
  CHECK_THAT(val(two) == x && two.get<uint64_t>(0) == (uint64_t)x && two.get<uint64_t>()[1] == (uint64_t)(x >> 64) && two.get<uint32_t>(3) == (uint32_t)(x >> 96), "an element keeps its bits");
  sym_reach("end");
  return 0;
}
extern "C" int h_power() {
  size_t k = choose(sym_param("values", 6), "value");
  U x = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (U)1 << 127 : rnd(k);
  uint64_t e = choose(sym_param("powers", 9), "power");
  if (e == 8) e = sym_param("big", 1000003);
  U want = 1, sq = x;
  for (uint64_t i = e; i; i >>= 1) { if (i & 1) want = mulRef(want, sq); sq = mulRef(sq, sq); }
  // zero stays zero, whatever the power
  CHECK_THAT(val(Galois128(x).Pow(e)) == (x ? want : 0), "a power is the repeated product");
  if (x) { U i = val(Galois128(x).Inv()); CHECK_THAT(mulRef(x, i) == 1, "an inverse times the element is one"); }
  else CHECK_THAT(throws([&] { Galois128(x).Inv(); }), "zero has no inverse");
  sym_reach("end");
  return 0;
}
typedef std::vector<std::vector<uint8_t>> Bits;
static DenseMtx make(const Bits& b, size_t cols) {
  DenseMtx m(b.size(), cols);
  for (size_t i = 0; i < b.size(); i++) for (size_t j = 0; j < cols; j++) m(i, j) = b[i][j];
  return m;
}
static bool holds(const DenseMtx& m, const Bits& b, size_t cols) {
  if (m.rows() != b.size() || m.cols() != cols) return false;
  uint8_t bad = 0;
  for (size_t i = 0; i < b.size(); i++) for (size_t j = 0; j < cols; j++) bad |= (uint8_t)m(i, j) ^ b[i][j];
  return bad == 0;
}
static Bits bits(size_t n, size_t m, const char* what) {
  Bits b(n, std::vector<uint8_t>(m));
  for (auto& r : b) for (auto& x : r) x = sym<uint8_t>(what) & 1;
  return b;
}
// the determinant over GF(2)
static uint8_t det(const Bits& a) {
  size_t n = a.size();
  if (n == 0) return 1;
  uint8_t r = 0;
  for (size_t j = 0; j < n; j++) {
    Bits s;
    for (size_t i = 1; i < n; i++) { s.emplace_back(); for (size_t k = 0; k < n; k++) if (k != j) s.back().push_back(a[i][k]); }
    r ^= a[0][j] & det(s);
  }
  return r;
}
extern "C" int h_invert() {
  size_t n = sym_param("n", 3);
  Bits a = bits(n, n, "a");
  DenseMtx m = make(a, n);
  DenseMtx i = m.Invert();
  CHECK_THAT(holds(m, a, n), "inverting leaves the matrix as it was");
  bool full = i.rows() == n && i.cols() == n;
  CHECK_THAT(full == (bool)det(a) && (full || i.rows() == 0), "exactly the regular matrices have an inverse");
  if (full) {
    Bits one(n, std::vector<uint8_t>(n));
    for (size_t k = 0; k < n; k++) one[k][k] = 1;
    CHECK_THAT(holds(m * i, one, n) && holds(i * m, one, n) && holds(DenseMtx::Identity(n), one, n), "a matrix times its inverse is the identity");
  }
  sym_reach("end");
  return 0;
}
extern "C" int h_matrix() {
  size_t n = choose(2, "tall") ? 130 : 2, k = 1 + choose(2, "inner"), m = 1 + choose(2, "columns");
  auto some = [&](size_t r, size_t c, const char* w) { Bits b(r, std::vector<uint8_t>(c)); for (size_t i = 0; i < r; i++) if (i < 2 || i > 126) for (auto& x : b[i]) x = sym<uint8_t>(w) & 1; return b; };
  Bits a = some(n, k, "a"), b = some(k, m, "b"), c = some(n, k, "c");
  DenseMtx A = make(a, k), B = make(b, m), C = make(c, k);
  Bits p(n, std::vector<uint8_t>(m)), s(n, std::vector<uint8_t>(k));
  for (size_t i = 0; i < n; i++) {
    for (size_t j = 0; j < m; j++) for (size_t l = 0; l < k; l++) p[i][j] ^= a[i][l] & b[l][j];
    for (size_t j = 0; j < k; j++) s[i][j] = a[i][j] ^ c[i][j];
  }
  CHECK_THAT(holds(A * B, p, m), "a product of matrices");
  DenseMtx D = A;
  CHECK_THAT(D == A && holds(D, a, k), "a copy has the same bits");
  D(0, 0) = 1 ^ (uint8_t)D(0, 0);
  CHECK_THAT(holds(A, a, k), "changing a copy leaves the original");
  D(0, 0) = 1 ^ (uint8_t)D(0, 0);
  { DenseMtx S = A + C; CHECK_THAT(holds(S, s, k), "a sum of matrices"); }
  CHECK_THAT(holds(A, a, k) && holds(C, c, k) && holds(B, b, m), "sums and products leave their operands");
  DenseMtx E;
  E = A;
  E.row(0).swap(E.row(n - 1));
  std::swap(a[0], a[n - 1]);
  CHECK_THAT(holds(E, a, k), "rows are exchanged");
  E.row(1) ^= E.row(0);
  if (n > 2) for (size_t j = 0; j < k; j++) a[1][j] ^= a[0][j];
  else for (size_t j = 0; j < k; j++) a[1][j] ^= a[0][j];
  uint8_t any = 0;
  for (auto x : a[1]) any |= x;
  CHECK_THAT(holds(E, a, k) && E.row(1).IsZero() == (any == 0), "a row is added to another");
  sym_reach("end");
  return 0;
}
// one item at a time or 32 together, any hash: the same rows, distinct and inside the sparse part
template <class I> static void rows(size_t w, size_t size) {
  PaxosHash<I> h;
  h.init(rnd(5), w, size);
  std::vector<U> in(32), d(32), d1(32);
  for (size_t i = 0; i < 32; i++) in[i] = rnd(i + 32 * choose(1, "salt") + 1000 * sym_param("salt", 0));
  bool raw = choose(2, "hashes given");
  std::vector<I> r(32 * w), r1(32 * w);
  if (raw) {
    // small hashes meet each other: every way three positions can coincide
    for (size_t i = 0; i < 32; i++) { uint64_t lo = 0; for (size_t j = 0; j < 4; j++) in[i] = in[i]; lo = i; U v = 0; uint32_t q[4] = {(uint32_t)(lo % 4), (uint32_t)(lo / 4 % 4), (uint32_t)(lo / 16 % 4), (uint32_t)(i % 3)}; memcpy(&v, q, 16); in[i] = v; }
    size_t k = choose(4, "free item");
    U free = 0;
    uint32_t q[4] = {(uint32_t)choose(size, "p0"), (uint32_t)choose(2, "p1"), 0, 0};
    memcpy(&free, q, 16);
    in[k * 9] = free;
    d = in;
    h.BuildRow32(absl::MakeSpan(d), absl::MakeSpan(r));
    for (size_t i = 0; i < 32; i++) h.BuildRow(in[i], absl::MakeSpan(r1.data() + i * w, w));
  } else {
    h.HashBuildRow32(absl::MakeSpan(in), absl::MakeSpan(r), absl::MakeSpan(d));
    for (size_t i = 0; i < 32; i++) h.HashBuildRow1(in[i], absl::MakeSpan(r1.data() + i * w, w), &d1[i]);
    CHECK_THAT(d == d1, "the hash of an item does not depend on its batch");
  }
  CHECK_THAT(r == r1, "the positions of an item do not depend on its batch");
  for (size_t i = 0; i < 32; i++)
    for (size_t j = 0; j < w; j++) {
      CHECK_THAT(r[i * w + j] < size, "a position is inside the sparse part");
      for (size_t k = 0; k < j; k++) CHECK_THAT(r[i * w + j] != r[i * w + k], "the positions of an item are distinct");
    }
}
extern "C" int h_rows() {
  size_t w = sym_param("weight", 3), size = sym_param("sparse", 5);
  switch (choose(4, "index type")) {
    case 0: rows<uint8_t>(w, size); break;
    case 1: rows<uint16_t>(w, size); break;
    case 2: rows<uint32_t>(w, size); break;
    default: rows<uint64_t>(w, size);
  }
  sym_reach("end");
  return 0;
}
extern "C" int h_hash() {
  size_t n = choose(sym_param("n", 18), "values");
  std::vector<U> k(n), v(n), a(n), b(n);
  for (size_t i = 0; i < n; i++) { k[i] = rnd(i); v[i] = rnd(100 + i); }
  if (n) { size_t i = n - 1 - choose(sym_param("same", 0) ? 1 : n < 3 ? n : 3, "free"); v[i] = sym<U>("value"); k[i] = sym<U>("key"); }
  bool inPlace = choose(2, "in place");
  AesCrHash h(rnd(7));
  std::vector<U> src = v;
  if (inPlace) { a = v; h.Hash(absl::MakeConstSpan(a), absl::MakeSpan(a)); }
  else h.Hash(absl::MakeConstSpan(src), absl::MakeSpan(a));
  for (size_t i = 0; i < n; i++) CHECK_THAT(a[i] == h.Hash(v[i]) && a[i] == (h.Encrypt(v[i]) ^ v[i]), "a hash does not depend on its neighbours");
  std::vector<uint8_t> bytes(16 * n), out(16 * n);
  if (n) memcpy(bytes.data(), v.data(), 16 * n);
  if (n) { h.Hash(absl::MakeConstSpan(bytes), absl::MakeSpan(out)); CHECK_THAT(memcmp(out.data(), a.data(), 16 * n) == 0, "bytes and blocks hash alike"); }
  if (inPlace) { b = k; DavisMeyerHash(absl::MakeConstSpan(b), absl::MakeConstSpan(v), absl::MakeSpan(b)); }
  else DavisMeyerHash(absl::MakeConstSpan(k), absl::MakeConstSpan(v), absl::MakeSpan(b));
  for (size_t i = 0; i < n; i++) {
    CHECK_THAT(b[i] == DavisMeyerHash(k[i], v[i]), "a keyed hash does not depend on its neighbours");
    yacl::crypto::SymmetricCrypto c(yacl::crypto::SymmetricCrypto::CryptoType::AES128_ECB, k[i], 0);
    CHECK_THAT(b[i] == (c.Encrypt(v[i]) ^ v[i]), "the keyed hash is the cipher's output plus its input");
  }
  sym_reach("end");
  return 0;
}
static std::vector<U> keys(size_t n) {
  std::vector<U> k;
  uint64_t s = choose(sym_param("seeds", 3), "keys") + 10 * sym_param("salt", 0);
  for (size_t i = 0; i < n; i++) k.push_back(rnd(s * 100 + i));
  return k;
}
template <class I> static void paxos(PaxosParam::DenseType dt) {
  size_t n = choose(sym_param("n", 5), "items") + 1, w = sym_param("weight", 3);
  auto k = keys(n);
  Paxos<I> p;
  PaxosParam pp(n < 2 ? 2 : n, w, sym_param("ssp", 40), dt);
  if (sym_param("tight", 0)) { pp.sparse_size = w + choose(sym_param("tight", 0), "sparse"); pp.g = n; pp.dense_size = dt == PaxosParam::DenseType::Binary ? n + sym_param("ssp", 40) : n; }
  p.Init(n, pp, rnd(3));
  std::shared_ptr<yacl::crypto::Prg<uint8_t>> prng;
  // the randomised binary store is made for keys that share all or none of their positions
  bool dup = pp.sparse_size == w;
  if ((!sym_param("tight", 0) || dup || dt == PaxosParam::DenseType::GF128) && choose(2, "randomised")) prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(rnd(4));
  size_t at = choose(n, "free");
  if (dt == PaxosParam::DenseType::Binary && choose(2, "64 bits")) {
    std::vector<uint64_t> v(n), o(p.size()), r(n);
    for (size_t i = 0; i < n; i++) v[i] = (uint64_t)rnd(50 + i);
    v[at] = sym<uint64_t>("value");
    auto v0 = v;
    p.SetInput(absl::MakeSpan(k));
    p.EncodeU64(absl::MakeSpan(v), absl::MakeSpan(o), prng);
    p.DecodeU64(absl::MakeSpan(k), absl::MakeSpan(r), absl::MakeSpan(o));
    CHECK_THAT(r == v0, "every key decodes to its value");
    // decoding is linear: RR22 decodes masked vectors
    std::vector<U> o2(p.size()), r2(n);
    for (size_t i = 0; i < o.size(); i++) o2[i] = o[i];
    p.Decode(absl::MakeSpan(k), absl::MakeSpan(r2), absl::MakeSpan(o2));
    for (size_t i = 0; i < n; i++) CHECK_THAT(r2[i] == (U)v0[i], "decoding in 64 and in 128 bits agree");
  } else {
    std::vector<U> v(n), o(p.size()), r(n);
    for (size_t i = 0; i < n; i++) v[i] = rnd(50 + i);
    v[at] = window(dt == PaxosParam::DenseType::Binary ? 128 : sym_param("bits", 0), "value", rnd(49));
    auto v0 = v;
    p.SetInput(absl::MakeSpan(k));
    p.Encode(absl::MakeSpan(v), absl::MakeSpan(o), prng);
    p.Decode(absl::MakeSpan(k), absl::MakeSpan(r), absl::MakeSpan(o));
    CHECK_THAT(r == v0, "every key decodes to its value");
    // in another order and among strangers
    std::vector<U> q;
    for (size_t i = 0; i < sym_param("more", 33); i++) q.push_back(i % 3 ? rnd(7000 + i) : k[i / 3 % n]);
    std::vector<U> r3(q.size());
    p.Decode(absl::MakeSpan(q), absl::MakeSpan(r3), absl::MakeSpan(o));
    for (size_t i = 0; i < q.size(); i += 3) CHECK_THAT(r3[i] == v0[i / 3 % n], "a key decodes to its value wherever it stands");
  }
}
extern "C" int h_paxos() {
  auto dt = choose(2, "dense type") ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128;
  switch (sym_param("index", 2)) {
    case 0: paxos<uint8_t>(dt); break;
    case 1: paxos<uint16_t>(dt); break;
    case 2: paxos<uint32_t>(dt); break;
    default: paxos<uint64_t>(dt);
  }
  sym_reach("end");
  return 0;
}
extern "C" int h_baxos() {
  size_t n = sym_param("n", 9), cap = sym_param("cap", 0);
  auto k = keys(n);
  auto dt = choose(2, "dense type") ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128;
  Baxos b;
  b.Init(cap ? cap : n, sym_param("bin", 4), 3, sym_param("ssp", 40), dt, rnd(3));
  size_t th = sym_param("threads", 1);
  std::vector<U> v(n), o(b.size()), r(n);
  for (size_t i = 0; i < n; i++) v[i] = rnd(50 + i);
  v[choose(sym_param("same", 0) ? 1 : n < 3 ? n : 3, "free") * (n / 3 ? n / 3 : 1)] = window(dt == PaxosParam::DenseType::Binary ? 128 : sym_param("bits", 0), "value", rnd(49));
  auto v0 = v;
  std::shared_ptr<yacl::crypto::Prg<uint8_t>> prng;
  if (sym_param("prng", 0) && choose(2, "randomised")) prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(rnd(4));
  b.Solve(absl::MakeSpan(k), absl::MakeSpan(v), absl::MakeSpan(o), prng, th);
  // the other party builds its own and decodes with any number of threads
  Baxos c;
  c.Init(cap ? cap : n, sym_param("bin", 4), 3, sym_param("ssp", 40), dt, rnd(3));
  CHECK_THAT(c.size() == b.size(), "both parties size the store alike");
  c.Decode(absl::MakeSpan(k), absl::MakeSpan(r), absl::MakeSpan(o), sym_param("dthreads", 1));
  CHECK_THAT(r == v0, "every key decodes to its value");
  std::vector<U> q;
  for (size_t i = 0; i < sym_param("more", 40); i++) q.push_back(i % 3 ? rnd(7000 + i) : k[i / 3 % n]);
  if (sym_param("same", 0)) for (size_t i = choose(2, "others first"); i < q.size(); i++) q[i] = k[n - 1];
  std::vector<U> r3(q.size());
  if (!q.empty()) c.Decode(absl::MakeSpan(q), absl::MakeSpan(r3), absl::MakeSpan(o), sym_param("dthreads", 1));
  if (sym_param("same", 0)) { for (size_t i = 3; i < q.size(); i++) CHECK_THAT(r3[i] == v0[n - 1], "a key decodes to its value however often it is asked for"); }
  else for (size_t i = 0; i < q.size(); i += 3) CHECK_THAT(r3[i] == v0[i / 3 % n], "a key decodes to its value wherever it stands");
  sym_reach("end");
  return 0;
}
// both parties' threads
template <class F> static void two(const std::vector<std::shared_ptr<yacl::link::Context>>& w, std::vector<std::string>& err, F f) {
  err.assign(2, "");
  auto run = [&](size_t p) {
    try { f(p); } catch (const std::exception& e) { err[p] = e.what(); w[p]->kill(); }
  };
  std::thread t(run, 1);
  run(0);
  t.join();
}
static U item(size_t i) { return rnd(3000 + i); }
extern "C" int h_oprf() {
  Rr22PsiMode mode = sym_param("low", 0) ? Rr22PsiMode::LowCommMode : Rr22PsiMode::FastMode;
  bool mal = sym_param("malicious", 0), pre = choose(2, "hashes ready");
  size_t ns = choose(sym_param("sender", 2), "sender items") + sym_param("smin", 1), nr = choose(sym_param("receiver", 2), "receiver items") + sym_param("rmin", 1);
  size_t off = choose(sym_param("offsets", 2), "items shared");  // the sender's items start at this one
  std::vector<U> rs, ss;
  for (size_t i = 0; i < nr; i++) rs.push_back(item(i));
  for (size_t i = 0; i < ns; i++) ss.push_back(item(nr - 1 + off - i));
  size_t bin = sym_param("bin", 2), ssp = sym_param("ssp", 40), th = sym_param("threads", 0);
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<std::string> err;
  std::vector<U> os, orr;
  two(w, err, [&](size_t p) {
    if (p == 0) {
      Rr22OprfSender s(bin, ssp, mode, yacl::crypto::CodeType::ExAcc7, mal);
      s.Init(w[0], nr, th);
      auto h = s.Send(w[0], absl::MakeSpan(ss));
      os = pre ? s.Eval(absl::MakeSpan(ss), absl::MakeSpan(h)) : s.Eval(absl::MakeSpan(ss));
    } else {
      Rr22OprfReceiver r(bin, ssp, mode, yacl::crypto::CodeType::ExAcc7, mal);
      r.Init(w[1], nr, th);
      orr = r.Recv(w[1], absl::MakeSpan(rs));
    }
  });
  for (auto& e : err) { if (!e.empty()) sym_print(e.c_str()); CHECK_THAT(e.empty(), "the parties finish"); }
  CHECK_THAT(os.size() == ns && orr.size() == nr, "one value per item");
  for (size_t i = 0; i < ns; i++)
    for (size_t j = 0; j < nr; j++) CHECK_THAT((os[i] == orr[j]) == (ss[i] == rs[j]), "the values of both parties are equal exactly for equal items");
  sym_reach("end");
  return 0;
}
// the sender takes the receiver's vector in pieces of any sizes, and nothing but the vector
extern "C" int h_pieces() {
  size_t n = sym_param("n", 3), total = 0;
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<U> v(n);
  for (size_t i = 0; i < n; i++) v[i] = rnd(i);
  v[choose(n, "free")] = sym<U>("value");
  bool bad = choose(2, "malformed");
  if (!bad) {
    SendChunked(w[1], absl::MakeSpan(v));
    CHECK_THAT(RecvChunked<U>(w[0], n) == v, "a vector arrives as it was sent");
  } else {
    // more than was announced, or not whole elements
    size_t first = choose(n, "first piece");
    if (first) w[1]->SendAsync(0, yacl::ByteContainerView(v.data(), first * 16), "x");
    std::vector<uint8_t> rest((n - first) * 16 + 1 + choose(33, "extra"), 1);
    w[1]->SendAsync(0, yacl::ByteContainerView(rest.data(), rest.size()), "x");
    w[1]->kill();
    CHECK_THAT(throws([&] { RecvChunked<U>(w[0], n); }), "more data than was announced is refused");
  }
  (void)total;
  sym_reach("end");
  return 0;
}
// the receiver of the malicious variant refuses an opening that does not match the commitment
extern "C" int h_commit() {
  auto w = yacl::link::test::SetupWorld(2);
  size_t n = 2;
  std::vector<U> rs = {item(0), item(1)};
  U ws = sym<U>("opening"), other = sym<U>("committed");
  std::vector<std::string> err;
  std::vector<U> out;
  two(w, err, [&](size_t p) {
    if (p == 1) {
      Rr22OprfReceiver r(2, 40, Rr22PsiMode::FastMode, yacl::crypto::CodeType::ExAcc7, true);
      r.Init(w[1], n, 0);
      out = r.Recv(w[1], absl::MakeSpan(rs));
      return;
    }
    auto seed = w[0]->Recv(1, "seed");
    yacl::crypto::SilentVoleSender v(yacl::crypto::CodeType::ExAcc7, true);
    std::vector<U> b(256);
    v.Send(w[0], absl::MakeSpan(b));
    yacl::crypto::RandomOracle ro(yacl::crypto::HashAlgorithm::SHA256, 32);
    w[0]->SendAsync(1, ro(yacl::ByteContainerView(&other, 16), 32), "commit");
    w[0]->Recv(1, "wr");
    w[0]->SendAsync(1, yacl::ByteContainerView(&ws, 16), "open");
    if (ws == other) RecvChunked<U>(w[0], 0), w[0]->Recv(1, "vector");
  });
  CHECK_THAT(err[1].empty() == (ws == other), "the receiver goes on exactly when the opening matches");
  sym_reach("end");
  return 0;
}
