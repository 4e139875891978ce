#pragma once
#include <cstdint>
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::math {
inline uint64_t Log2Floor(uint64_t n) { uint64_t r = 0; if (n == 0) throw EnforceNotMet("log2 of 0"); while (n >>= 1) r++; return r; }
inline uint64_t Log2Ceil(uint64_t n) { return n <= 1 ? 0 : Log2Floor(n - 1) + 1; }
template <class T> inline T DivCeil(T x, T y) { return (x + y - 1) / y; }
inline uint64_t RoundUpTo(uint64_t x, uint64_t n) { return ((x + n - 1) / n) * n; }
inline uint64_t RoundDownTo(uint64_t x, uint64_t n) { return x - (x % n); }
}
