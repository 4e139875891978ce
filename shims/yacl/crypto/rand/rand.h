#pragma once
#include <random>
#include <string>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/shim_hash.h"
namespace yacl::crypto {
inline uint64_t RandU64() { if (sym_param("rand_sym", 0)) return sym<uint64_t>("rand64"); return symcrypto::nextRand(); }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint64_t FastRandU64() { return RandU64(); }
inline uint128_t RandU128() { uint64_t h = RandU64(); return MakeUint128(h, RandU64()); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline uint128_t RandSeed() { return RandU128(); }
inline std::vector<uint8_t> RandBytes(size_t n, bool = false) { std::vector<uint8_t> r(n); for (size_t i = 0; i < n; i += 8) { uint64_t v = RandU64(); for (size_t j = i; j < n && j < i + 8; j++) r[j] = (uint8_t)(v >> (8 * (j - i))); } return r; }
inline std::vector<uint8_t> SecureRandBytes(size_t n) { return RandBytes(n); }
inline std::vector<uint8_t> FastRandBytes(size_t n) { return RandBytes(n); }
inline void FillRand(char* p, size_t n, bool = false) { auto v = RandBytes(n); if (n) memcpy(p, v.data(), n); }
template <class T> inline std::vector<T> RandVec(size_t n, bool = false) { std::vector<T> r(n); for (auto& x : r) { if constexpr (sizeof(T) == 16) x = (T)RandU128(); else x = (T)RandU64(); } return r; }
template <class T = dynamic_bitset<uint128_t>> inline T RandBits(size_t n, bool = false) { T b(n); for (size_t i = 0; i < n; i++) b.set(i, (bool)(RandU64() & 1)); return b; }
inline dynamic_bitset<uint128_t> SecureRandBits(size_t n) { return RandBits(n); }
template <class T> class StdUrbg { public: using result_type = T; static constexpr T min() { return 0; } static constexpr T max() { return (T)~(T)0; } T operator()() { return (T)RandU64(); } };
template <class T, size_t N = 1024> class YaclStdUrbg : public StdUrbg<T> {};
template <class T, size_t N = 1024> class YaclReplayUrbg {
 public:
  using result_type = T;
  explicit YaclReplayUrbg(uint128_t seed, uint64_t ctr = 0, uint64_t = 0) : s_(seed), c_(ctr) {}
  static constexpr T min() { return 0; }
  static constexpr T max() { return (T)~(T)0; }
  T operator()() { return (T)symcrypto::mix64((uint64_t)s_ ^ (uint64_t)(s_ >> 64) * 31 ^ (c_++ * 0x51ed2701)); }
  uint64_t GetCounter() const { return c_; }
 private:
  uint128_t s_; uint64_t c_;
};
}
