#pragma once
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
using Array32 = std::array<uint8_t, 32>;
inline Array32 Sha256(ByteContainerView v) { Array32 r; symcrypto::ideal(0, v, r.data(), 32); return r; }
inline Array32 Sm3(ByteContainerView v) { return Sha256(v); }
inline Array32 Blake2(ByteContainerView v) { return Sha256(v); }
inline Array32 Blake3(ByteContainerView v) { return Sha256(v); }
inline uint128_t Blake3_128(ByteContainerView v) { uint8_t r[16]; symcrypto::ideal(0, v, r, 16); uint128_t x; memcpy(&x, r, 16); return x; }
inline uint128_t Blake2b_128(ByteContainerView v) { return Blake3_128(v); }
inline uint128_t Sha256_128(ByteContainerView v) { return Blake3_128(v); }
}
