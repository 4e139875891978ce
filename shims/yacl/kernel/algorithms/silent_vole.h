// Ideal vector OLE: the receiver gets a and c, the sender delta and b with
// b = c + delta * a over GF(2^128) (or a over GF(2^64)).  The two ends meet in
// one message, which carries a and c (the model has no secrecy to protect).
#pragma once
#include "absl/types/span.h"
#include "sym.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
enum class CodeType { Silver5, Silver11, ExAcc7, ExAcc11, ExAcc21, ExAcc40, ExConv7x24, ExConv21x24 };
// carry-less product modulo x^128 + x^7 + x^2 + x + 1, bit by bit
inline uint128_t voleMul(uint128_t a, uint128_t b) {
  uint128_t r = 0;
  for (int i = 127; i >= 0; i--) {
    uint128_t top = r >> 127;
    r = (r << 1) ^ (top * 0x87);
    r ^= ((b >> i) & 1) * a;
  }
  return r;
}
class SilentVoleSender {
 public:
  explicit SilentVoleSender(CodeType, bool = false) {}
  uint128_t GetDelta() const { return d_; }
  void Send(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b) { run<uint128_t>(c, b); }
  void SfSend(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b) { run<uint64_t>(c, b); }
 private:
  template <class A> void run(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b) {
    d_ = RandU128();
    if (sym_param("delta_sym", 0)) {  // marked values too
      size_t k = choose(5, "delta");
      uint128_t one = 1;
      if (k) d_ = k == 1 ? one : k == 2 ? one << 64 : k == 3 ? one << 127 : ~(uint128_t)0;
    }
    Buffer m = c->Recv(c->NextRank(), "vole");
    if ((size_t)m.size() != b.size() * (sizeof(A) + 16)) throw EnforceNotMet("vole: numbers differ");
    const A* a = (const A*)m.data();
    const uint8_t* k = (const uint8_t*)m.data() + b.size() * sizeof(A);
    for (size_t i = 0; i < b.size(); i++) { uint128_t x; memcpy(&x, k + 16 * i, 16); b[i] = x ^ voleMul(d_, (uint128_t)a[i]); }
  }
  uint128_t d_ = 0;
};
class SilentVoleReceiver {
 public:
  explicit SilentVoleReceiver(CodeType, bool = false) {}
  void Recv(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> a, absl::Span<uint128_t> k) { run<uint128_t>(c, a, k); }
  void SfRecv(const std::shared_ptr<link::Context>& c, absl::Span<uint64_t> a, absl::Span<uint128_t> k) { run<uint64_t>(c, a, k); }
 private:
  template <class A> void run(const std::shared_ptr<link::Context>& c, absl::Span<A> a, absl::Span<uint128_t> k) {
    if (a.size() != k.size()) throw EnforceNotMet("vole: numbers differ");
    for (auto& x : a) x = (A)RandU128();
    for (auto& x : k) x = RandU128();
    Buffer m(a.size() * (sizeof(A) + 16));
    memcpy(m.data(), a.data(), a.size() * sizeof(A));
    memcpy((uint8_t*)m.data() + a.size() * sizeof(A), k.data(), k.size() * 16);
    c->SendAsync(c->NextRank(), m, "vole");
  }
};
}
