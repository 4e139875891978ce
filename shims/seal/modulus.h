// Stand-in for SEAL's Modulus and the scalar number theory helpers /repo uses
// (same results; plain arithmetic).
#pragma once
#include <array>
#include <cstdint>
#include <stdexcept>
#include <vector>
namespace seal {
class Modulus {
 public:
  Modulus(std::uint64_t v = 0) { set(v); }
  std::uint64_t value() const { return v_; }
  const std::uint64_t* data() const { return &v_; }
  int bit_count() const { return bits_; }
  bool is_zero() const { return v_ == 0; }
  bool is_prime() const { return true; }
  const std::array<std::uint64_t, 3>& const_ratio() const { return r_; }
  bool operator==(const Modulus& o) const { return v_ == o.v_; }
  bool operator!=(const Modulus& o) const { return v_ != o.v_; }
  std::uint64_t reduce(std::uint64_t x) const { return x % v_; }
  operator std::uint64_t() const = delete;
 private:
  void set(std::uint64_t v) {
    if (v == 1 || (v >> 61) != 0) throw std::invalid_argument("value can be at most 61-bit and cannot be 1");
    v_ = v;
    bits_ = 0;
    while (bits_ < 64 && (v >> bits_) != 0) bits_++;
    r_ = {0, 0, 0};
    if (!v) return;
    unsigned __int128 rem = 1;  // long division of 2^128 by v
    for (int i = 1; i >= 0; i--) {
      rem <<= 64;
      r_[i] = (std::uint64_t)(rem / v);
      rem %= v;
    }
    r_[2] = (std::uint64_t)rem;
  }
  std::uint64_t v_ = 0;
  int bits_ = 0;
  std::array<std::uint64_t, 3> r_{};
};
namespace util {
inline void divide_uint192_inplace(std::uint64_t* num, std::uint64_t den, std::uint64_t* quo) {
  unsigned __int128 rem = 0;
  for (int i = 2; i >= 0; i--) {
    rem = (rem << 64) | num[i];
    quo[i] = (std::uint64_t)(rem / den);
    rem %= den;
  }
  num[0] = (std::uint64_t)rem;
  num[1] = num[2] = 0;
}
inline std::uint64_t multiply_uint_mod(std::uint64_t a, std::uint64_t b, const Modulus& m) {
  return (std::uint64_t)(((unsigned __int128)a * b) % m.value());
}
inline std::uint64_t exponentiate_uint_mod(std::uint64_t a, std::uint64_t e, const Modulus& m) {
  std::uint64_t r = 1 % m.value();
  a %= m.value();
  for (; e; e >>= 1) {
    if (e & 1) r = multiply_uint_mod(r, a, m);
    a = multiply_uint_mod(a, a, m);
  }
  return r;
}
template <class T> inline T reverse_bits(T x, int n) {
  T r = 0;
  for (int i = 0; i < n; i++) r |= ((x >> i) & 1) << (n - 1 - i);
  return n ? r : 0;
}
inline std::uint64_t div2_uint_mod(std::uint64_t a, const Modulus& m) { return (a & 1) ? (a + m.value()) >> 1 : a >> 1; }
inline void multiply_uint64_hw64(std::uint64_t a, std::uint64_t b, unsigned long long* h) { *h = (unsigned long long)(((unsigned __int128)a * b) >> 64); }
inline void multiply_uint64(std::uint64_t a, std::uint64_t b, unsigned long long* r) {
  unsigned __int128 p = (unsigned __int128)a * b;
  r[0] = (unsigned long long)p;
  r[1] = (unsigned long long)(p >> 64);
}
template <class R> inline unsigned char add_uint64(std::uint64_t a, std::uint64_t b, R* r) { *r = a + b; return (unsigned char)(*r < a); }
inline bool is_primitive_root(std::uint64_t r, std::uint64_t degree, const Modulus& m) { return r != 0 && exponentiate_uint_mod(r, degree >> 1, m) == m.value() - 1; }
inline bool try_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& out) {
  std::uint64_t q = m.value() - 1;
  if (q % degree) return false;
  for (std::uint64_t g = 2; g < 200; g++) {
    out = exponentiate_uint_mod(g, q / degree, m);
    if (is_primitive_root(out, degree, m)) return true;
  }
  return false;
}
inline bool try_minimal_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& out) {
  std::uint64_t root;
  if (!try_primitive_root(degree, m, root)) return false;
  std::uint64_t sq = multiply_uint_mod(root, root, m), cur = root;
  for (std::uint64_t i = 0; i < degree; i += 2) {
    if (cur < root) root = cur;
    cur = multiply_uint_mod(cur, sq, m);
  }
  out = root;
  return true;
}
inline bool try_invert_uint_mod(std::uint64_t v, const Modulus& m, std::uint64_t& out) {
  std::int64_t a = (std::int64_t)(v % m.value()), b = (std::int64_t)m.value(), x = 1, y = 0;
  while (a > 1 && b) {
    std::int64_t q = a / b, t = a % b;
    a = b;
    b = t;
    t = x - q * y;
    x = y;
    y = t;
    if (b == 0) break;
  }
  if (a != 1) return false;
  out = (std::uint64_t)(x < 0 ? x + (std::int64_t)m.value() : x);
  return true;
}
}  // namespace util
}  // namespace seal
