#pragma once
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kNistSm4CtrDrbg, kAesEcb, kSm4Ecb };
inline void prgBytes(uint128_t seed, uint64_t pos, uint8_t* p, size_t n) {
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(symcrypto::mix64((uint64_t)seed * 3 + (uint64_t)(seed >> 64) * 5 + ((pos + i) / 8) * 0x9e3779b1 + 11) >> (8 * ((pos + i) % 8)));
}
template <class T, size_t B = 64> class Prg {
 public:
  explicit Prg(uint128_t seed = 0, PRG_MODE = PRG_MODE::kAesEcb) : s_(seed) {}
  uint128_t Seed() const { return s_; }
  void SetSeed(uint128_t s) { s_ = s; c_ = 0; }
  uint64_t Counter() const { return c_; }
  void SetCounter(uint64_t c) { c_ = c; }
  template <class Y = T> Y operator()() { Y v; prgBytes(s_, c_, (uint8_t*)&v, sizeof v); c_ += sizeof v; return v; }
  template <class Y> void Fill(absl::Span<Y> o) { prgBytes(s_, c_, (uint8_t*)o.data(), o.size() * sizeof(Y)); c_ += o.size() * sizeof(Y); }
  template <class C, class = decltype(std::declval<C&>().data())> void Fill(C& o) { Fill(absl::MakeSpan(o.data(), o.size())); }
 private:
  uint128_t s_; uint64_t c_ = 0;
};
enum class AesMode { AES128_ECB };
template <class T> inline uint64_t PrgAesCtr(uint128_t seed, absl::Span<T> o) { prgBytes(seed, 0, (uint8_t*)o.data(), o.size() * sizeof(T)); return 0; }
template <class T> inline uint64_t PrgAesCtr(uint128_t seed, uint64_t ctr, absl::Span<T> o) { prgBytes(seed, ctr * 16, (uint8_t*)o.data(), o.size() * sizeof(T)); return ctr + 1; }
template <class T> inline std::vector<T> PrgAesCtr(uint128_t seed, size_t n) { std::vector<T> r(n); PrgAesCtr<T>(seed, absl::MakeSpan(r)); return r; }
}
