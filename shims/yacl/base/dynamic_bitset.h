#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include "yacl/base/int128.h"
namespace yacl {
template <class B = uint128_t> class dynamic_bitset {
 public:
  static constexpr size_t kW = sizeof(B) * 8;
  explicit dynamic_bitset(size_t n = 0, B v = 0) { resize(n); if (n) w_[0] = v; }
  void resize(size_t n, bool x = false) { size_t o = n_; w_.resize((n + kW - 1) / kW); n_ = n; for (size_t i = o; i < n; i++) set(i, x); }
  void clear() { w_.clear(); n_ = 0; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t num_blocks() const { return w_.size(); }
  bool test(size_t i) const { return (bool)((w_[i / kW] >> (i % kW)) & 1); }
  bool operator[](size_t i) const { return test(i); }
  struct ref { dynamic_bitset& b; size_t i; operator bool() const { return b.test(i); } ref& operator=(bool v) { b.set(i, v); return *this; } ref& operator^=(bool v) { b.set(i, b.test(i) ^ v); return *this; } };
  ref operator[](size_t i) { return {*this, i}; }
  dynamic_bitset& set(size_t i, bool v = true) { B m = (B)1 << (i % kW); w_[i / kW] = (w_[i / kW] & ~m) | ((B)v << (i % kW)); return *this; }
  dynamic_bitset& reset(size_t i) { return set(i, false); }
  dynamic_bitset& flip(size_t i) { return set(i, !test(i)); }
  void push_back(bool v) { resize(n_ + 1, v); }
  B* data() { return w_.data(); }
  const B* data() const { return w_.data(); }
  size_t count() const { size_t c = 0; for (size_t i = 0; i < n_; i++) c += test(i); return c; }
  bool operator==(const dynamic_bitset& o) const { return n_ == o.n_ && w_ == o.w_; }
  bool operator!=(const dynamic_bitset& o) const { return !(*this == o); }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { for (size_t i = 0; i < w_.size(); i++) w_[i] ^= o.w_[i]; return *this; }
 private:
  std::vector<B> w_;
  size_t n_ = 0;
};
}
