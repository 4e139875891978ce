// CreateEccCryptor over the repository's own Sm2Cryptor / SodiumCurve25519Cryptor.
#include "yacl/crypto/hash/hash_utils.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/cryptor/hash_to_curve_elligator2.h"
#include "psi/cryptor/sm2_cryptor.h"
#include "psi/cryptor/sodium_curve25519_cryptor.h"
namespace psi {
yacl::crypto::Array32 HashToCurveElligator2(yacl::ByteContainerView v, const std::string&) { yacl::crypto::Array32 a{}; symcrypto::ideal(0, v, a.data(), 32); return a; }
std::unique_ptr<IEccCryptor> CreateEccCryptor(CurveType t) {
  if (t == CurveType::CURVE_SM2) return std::make_unique<Sm2Cryptor>(t);
  return std::make_unique<SodiumCurve25519Cryptor>();
}
}
