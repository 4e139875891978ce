#pragma once
#include <array>
#include <emmintrin.h>
#include <smmintrin.h>
#include <wmmintrin.h>
#include "yacl/base/int128.h"
namespace yacl {
// 128-bit block; kept as an integer so that it stays one bit-vector
struct block {
  uint128_t v;
  block() = default;
  block(const block&) = default;
  block(uint128_t x) : v(x) {}
  block(__m128i x) { __builtin_memcpy(&v, &x, 16); }
  block(uint64_t h, uint64_t l) : v(MakeUint128(h, l)) {}
  operator __m128i() const { __m128i x; __builtin_memcpy(&x, &v, 16); return x; }
  operator uint128_t() const { return v; }
  block& operator=(const block&) = default;
  block operator^(const block& o) const { return block(v ^ o.v); }
  block operator^(uint128_t o) const { return block(v ^ o); }
  block operator&(const block& o) const { return block(v & o.v); }
  block operator|(const block& o) const { return block(v | o.v); }
  block operator~() const { return block(~v); }
  block& operator^=(const block& o) { v ^= o.v; return *this; }
  bool operator==(const block& o) const { return v == o.v; }
  bool operator!=(const block& o) const { return v != o.v; }
  template <class T> std::array<T, 16 / sizeof(T)> as() const { std::array<T, 16 / sizeof(T)> r; __builtin_memcpy(&r, &v, 16); return r; }
};
}
