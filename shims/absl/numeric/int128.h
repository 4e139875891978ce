#pragma once
#include <cstdint>
#include "absl/numeric/bits.h"
namespace absl {
using uint128 = unsigned __int128; using int128 = __int128;
constexpr uint64_t Uint128Low64(uint128 v) { return (uint64_t)v; }
constexpr uint64_t Uint128High64(uint128 v) { return (uint64_t)(v >> 64); }
constexpr uint128 MakeUint128(uint64_t h, uint64_t l) { return ((uint128)h << 64) | l; }
}
