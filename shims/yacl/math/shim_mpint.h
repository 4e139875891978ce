#pragma once
#include <array>
#include <climits>
#include <cstdint>
#include <cstring>
#include "yacl/base/byte_container_view.h"
namespace yacl {

namespace math {
// a scalar: little-endian bytes only
class MPInt {
 public:
  MPInt() = default;
  explicit MPInt(uint64_t v, size_t = 0) { memcpy(b_.data(), &v, 8); }
  void FromMagBytes(ByteContainerView v, Endian e = Endian::native) {
    b_.fill(0);
    for (size_t i = 0; i < v.size() && i < b_.size(); i++) b_[i] = e == Endian::big ? v[v.size() - 1 - i] : v[i];
  }
  uint64_t low() const { uint64_t v; memcpy(&v, b_.data(), 8); return v; }
 private:
  std::array<uint8_t, 64> b_{};
};
}
}
