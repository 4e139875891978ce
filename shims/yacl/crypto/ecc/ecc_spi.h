// Ideal group: a point is (base, sum of the scalars applied to it).  Scalar
// multiplication adds, so it commutes and is injective.  A serialised point
// carries all of its information in its LAST 12 bytes and is constant before.
#pragma once
#include <cstring>
#include "yacl/crypto/hash/hash_utils.h"
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include "yacl/base/buffer.h"
#include "yacl/base/exception.h"
#include "yacl/math/shim_mpint.h"
#include "yacl/shim_hash.h"
namespace yacl {
struct ShimArg { std::string v; };
struct ShimArgLib { ShimArg operator=(const char* s) const { return {s}; } };
inline constexpr ShimArgLib ArgLib{};
namespace crypto {
struct EcPoint {
  std::array<uint8_t, 32> b{};
  uint16_t k = 0;
  EcPoint() = default;
  EcPoint(const std::array<uint8_t, 32>& a) : b(a) {}
};
enum class PointOctetFormat { Autonomous, X962Compressed, X962Uncompressed };
enum class HashToCurveStrategy { Autonomous, TryAndRehash_SHA2, TryAndRehash_SM, HashAsPointX_SHA2, HashAsPointX_SM, TryAndRehash_SHA3, TryAndRehash_BLAKE3 };
class EcGroup {
 public:
  explicit EcGroup(size_t len) : len_(len) {}
  virtual ~EcGroup() {}
  size_t GetSerializeLength(PointOctetFormat = PointOctetFormat::Autonomous) const { return len_; }
  EcPoint HashToCurve(HashToCurveStrategy, std::string_view s) const { EcPoint p; symcrypto::ideal(0, s, p.b.data(), 32); return p; }
  EcPoint Mul(const EcPoint& p, const math::MPInt& s) const { EcPoint r = p; r.k = (uint16_t)(r.k + s.low()); return r; }
  EcPoint MulBase(const math::MPInt& s) const { EcPoint p; p.b[0] = 'G'; p.b[31] = 1; return Mul(p, s); }
  Buffer SerializePoint(const EcPoint& p, PointOctetFormat = PointOctetFormat::Autonomous) const {
    Buffer o((int64_t)len_);
    uint8_t* q = o.data<uint8_t>();
    memset(q, 0x5a, len_);
    q += len_ - 12;
    memcpy(q, &p.k, 2);
    q[2] = p.b[31] ^ (pad(p.k) & 0x7f);
    // masked with the scalars, so that points are in another order after each multiplication
    for (int i = 0; i < 9; i++) q[3 + i] = p.b[i] ^ pad(p.k);
    return o;
  }
  EcPoint DeserializePoint(ByteContainerView v, PointOctetFormat = PointOctetFormat::Autonomous) const {
    YACL_ENFORCE(v.size() == len_, "bad point length {}", v.size());
    EcPoint p;
    const uint8_t* q = v.data() + len_ - 12;
    memcpy(&p.k, q, 2);
    p.b[31] = q[2] ^ (pad(p.k) & 0x7f);
    for (int i = 0; i < 9; i++) p.b[i] = q[3 + i] ^ pad(p.k);
    if (p.b[31] & 0x80) for (size_t i = 9; i < 31; i++) p.b[i] = 0;
    return p;
  }
 private:
  static uint8_t pad(uint16_t k) { return (uint8_t)(k * 0x35 ^ k >> 8); }
  size_t len_;
};
class EcGroupFactory {
 public:
  static EcGroupFactory& Instance() { static EcGroupFactory f; return f; }
  std::unique_ptr<EcGroup> Create(const std::string& name, ShimArg = {}) { return std::make_unique<EcGroup>(name == "Curve25519" ? 32 : 33); }
};
}
}
