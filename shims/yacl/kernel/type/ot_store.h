// Ideal OT stores: only their sizes matter, the transfers themselves are ideal.
#pragma once
#include <cstdint>
#include "yacl/base/dynamic_bitset.h"
namespace yacl::crypto {
class OtSendStore { public: explicit OtSendStore(uint64_t n = 0) : n_(n) {} uint64_t Size() const { return n_; } private: uint64_t n_; };
class OtRecvStore { public: explicit OtRecvStore(uint64_t n = 0) : n_(n) {} uint64_t Size() const { return n_; } private: uint64_t n_; };
}
