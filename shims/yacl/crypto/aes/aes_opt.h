#pragma once
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
struct AES_KEY { uint128_t k; };
template <size_t N> inline void AES_opt_key_schedule(const uint128_t* k, AES_KEY* o) { for (size_t i = 0; i < N; i++) o[i].k = k[i]; }
template <size_t K, size_t N> inline void ParaEnc(uint128_t* b, AES_KEY* k) {
  for (size_t i = 0; i < K; i++) for (size_t j = 0; j < N; j++) b[i * N + j] = shimCipher(k[i].k, b[i * N + j]);
}
}
