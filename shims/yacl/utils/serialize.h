#pragma once
#include <utility>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
namespace yacl {
// length-prefixed concatenation
template <class... A> inline Buffer SerializeVars(const A&... a) {
  std::string o;
  auto one = [&](ByteContainerView v) { uint64_t n = v.size(); o.append((const char*)&n, 8); o.append((const char*)v.data(), v.size()); };
  (one(a), ...);
  return Buffer(o.data(), o.size());
}
inline Buffer SerializeArrayOfBuffers(const std::vector<ByteContainerView>& bs) {
  std::string o;
  uint64_t k = bs.size();
  o.append((const char*)&k, 8);
  for (auto& v : bs) { uint64_t n = v.size(); o.append((const char*)&n, 8); o.append((const char*)v.data(), v.size()); }
  return Buffer(o.data(), o.size());
}
inline std::vector<Buffer> DeserializeArrayOfBuffers(ByteContainerView b) {
  uint64_t k, p = 8;
  if (b.size() < 8) throw EnforceNotMet("bad buffer");
  memcpy(&k, b.data(), 8);
  std::vector<Buffer> r;
  for (uint64_t i = 0; i < k; i++) {
    uint64_t n;
    if (p + 8 > b.size()) throw EnforceNotMet("bad buffer");
    memcpy(&n, b.data() + p, 8);
    p += 8;
    if (n > b.size() - p) throw EnforceNotMet("bad buffer");
    r.emplace_back(b.data() + p, n);
    p += n;
  }
  return r;
}
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, 16); }
inline int128_t DeserializeInt128(ByteContainerView b) { int128_t v; if (b.size() != 16) throw EnforceNotMet("bad int128"); memcpy(&v, b.data(), 16); return v; }
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, 16); }
inline uint128_t DeserializeUint128(ByteContainerView b) { uint128_t v; if (b.size() != 16) throw EnforceNotMet("bad uint128"); memcpy(&v, b.data(), 16); return v; }
}
