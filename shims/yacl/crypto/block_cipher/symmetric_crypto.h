// Ideal block cipher: a fixed mixing bijection per key; with cipher_table=1 a
// table of pseudo-random constants, equal for equal (key, block) pairs only
#pragma once
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/shim_hash.h"
namespace yacl::crypto {
inline uint128_t shimCipher(uint128_t k, uint128_t x) {
  if (sym_param("cipher_table", 0)) {
    struct E { uint128_t k, x; };
    static auto* t = new std::vector<E>();
    size_t id = 0;
    while (id < t->size() && !((*t)[id].k == k && (*t)[id].x == x)) id++;
    if (id == t->size()) t->push_back({k, x});
    return MakeUint128(symcrypto::mix64(id * 91 + 3), symcrypto::mix64(id * 57 + 1000001));
  }
  x ^= k;
  for (int r = 0; r < 3; r++) {
    x *= MakeUint128(0x9e3779b97f4a7c15ULL, 0xf39cc0605cedc835ULL);
    x ^= x >> 61;
    x += k;
  }
  return x;
}
class SymmetricCrypto {
 public:
  enum class CryptoType { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType, uint128_t key, uint128_t = 0) : k_(key) {}
  SymmetricCrypto(CryptoType, ByteContainerView key, ByteContainerView) { memcpy(&k_, key.data(), 16); }
  static constexpr int BlockSize() { return 16; }
  uint128_t Encrypt(uint128_t x) const { return shimCipher(k_, x); }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const {
    if (in.size() != out.size()) throw EnforceNotMet("sizes differ");
    for (size_t i = 0; i < in.size(); i++) out[i] = shimCipher(k_, in[i]);
  }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    if (in.size() != out.size() || in.size() % 16) throw EnforceNotMet("sizes differ");
    for (size_t i = 0; i < in.size(); i += 16) {
      uint128_t x;
      memcpy(&x, in.data() + i, 16);
      x = shimCipher(k_, x);
      memcpy(out.data() + i, &x, 16);
    }
  }
 private:
  uint128_t k_ = 0;
};
}
