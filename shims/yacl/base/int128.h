#pragma once
#include <cstdint>
#include <cstddef>
#include <utility>
#include <string>
#include <limits>
typedef __int128 int128_t;
typedef unsigned __int128 uint128_t;
namespace yacl {
constexpr uint128_t MakeUint128(uint64_t h, uint64_t l) { return ((uint128_t)h << 64) | l; }
constexpr int128_t MakeInt128(int64_t h, uint64_t l) { return (int128_t)(((uint128_t)(uint64_t)h << 64) | l); }
constexpr uint128_t Uint128Max() { return ~(uint128_t)0; }
constexpr uint128_t Uint128Min() { return 0; }
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) { return {(uint64_t)(v >> 64), (uint64_t)v}; }
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) { return {(int64_t)(v >> 64), (uint64_t)v}; }
}
#include <ios>
inline std::ostream& operator<<(std::ostream& o, uint128_t v) { return o << (uint64_t)(v >> 64) << (uint64_t)v; }
