#pragma once
#include <array>
#include <string>
#include <vector>
#include "yacl/shim_hash.h"
namespace yacl::crypto {
enum class HashAlgorithm { SHA224, SHA256, SHA384, SHA512, SHA_1, SM3, BLAKE2B, BLAKE3 };
class HashInterface {
 public:
  HashInterface(HashAlgorithm a, size_t n) : a_(a), n_(n) {}
  virtual ~HashInterface() {}
  HashAlgorithm GetHashAlgorithm() const { return a_; }
  size_t DigestSize() const { return n_; }
  virtual HashInterface& Reset() { s_.clear(); return *this; }
  virtual HashInterface& Update(ByteContainerView v) { s_.append((const char*)v.data(), v.size()); return *this; }
  virtual std::vector<uint8_t> CumulativeHash() const { std::vector<uint8_t> r(n_); symcrypto::ideal(0, s_, r.data(), n_); return r; }
 protected:
  HashAlgorithm a_; size_t n_; std::string s_;
};
}
