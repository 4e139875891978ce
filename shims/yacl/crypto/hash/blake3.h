#pragma once
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto { class Blake3Hash : public HashInterface { public: explicit Blake3Hash(size_t n = 32) : HashInterface(HashAlgorithm::BLAKE3, n) {} }; }
