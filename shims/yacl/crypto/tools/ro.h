#pragma once
#include "yacl/base/buffer.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle {
 public:
  RandomOracle(HashAlgorithm, size_t n) : n_(n) {}
  Buffer operator()(ByteContainerView v, size_t = 0) const { Buffer b((int64_t)n_); symcrypto::ideal(1, v, b.data<uint8_t>(), n_); return b; }
  template <class T = uint128_t> T Gen(ByteContainerView v) const { std::vector<uint8_t> r(n_ < sizeof(T) ? sizeof(T) : n_); symcrypto::ideal(1, v, r.data(), r.size()); T x; memcpy(&x, r.data(), sizeof x); return x; }
  template <class T = uint128_t> T Gen(ByteContainerView a, uint64_t b) const { std::string s((const char*)a.data(), a.size()); s.append((const char*)&b, 8); return Gen<T>(ByteContainerView(s)); }
  template <class T = uint128_t> T Gen(ByteContainerView a, ByteContainerView b) const { std::string s((const char*)a.data(), a.size()); s.append((const char*)b.data(), b.size()); return Gen<T>(ByteContainerView(s)); }
 private:
  size_t n_;
};
}
