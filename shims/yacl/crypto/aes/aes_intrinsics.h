// Ideal block cipher (see symmetric_crypto.h) with its inverse
#pragma once
#include "yacl/crypto/aes/aes_opt.h"
namespace yacl::crypto {
inline uint128_t shimCipherInv(uint128_t k, uint128_t y) {
  const uint128_t m = MakeUint128(0x9e3779b97f4a7c15ULL, 0xf39cc0605cedc835ULL);
  uint128_t inv = m;  // Newton: m is odd
  for (int i = 0; i < 7; i++) inv *= 2 - m * inv;
  for (int r = 0; r < 3; r++) {
    y -= k;
    y ^= (y >> 61) ^ (y >> 122);
    y *= inv;
  }
  return y ^ k;
}
inline void AES_set_encrypt_key(uint128_t k, AES_KEY* o) { o->k = k; }
inline void AES_set_decrypt_key(uint128_t k, AES_KEY* o) { o->k = k; }
inline void AES_ecb_encrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) {
  for (size_t i = 0; i < in.size(); i++) out[i] = shimCipher(k.k, in[i]);
}
inline void AES_ecb_decrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) {
  for (size_t i = 0; i < in.size(); i++) out[i] = shimCipherInv(k.k, in[i]);
}
}
