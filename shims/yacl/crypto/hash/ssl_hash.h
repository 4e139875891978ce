#pragma once
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
class SslHash : public HashInterface { public: explicit SslHash(HashAlgorithm a) : HashInterface(a, a == HashAlgorithm::SHA512 ? 64 : a == HashAlgorithm::SHA_1 ? 20 : 32) {} };
class Sha256Hash : public HashInterface { public: Sha256Hash() : HashInterface(HashAlgorithm::SHA256, 32) {} };
class Sm3Hash : public HashInterface { public: Sm3Hash() : HashInterface(HashAlgorithm::SM3, 32) {} };
}
