#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
inline OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>& c, const OtRecvStore& b, uint32_t n, bool = false) { if (b.Size() != 128) throw EnforceNotMet("iknp: base"); return OtSendStore(otMeet(c, n, 's', 'i')); }
inline OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>& c, const OtSendStore& b, const dynamic_bitset<uint128_t>& ch, uint32_t n, bool = false) { if (b.Size() != 128 || ch.size() != n) throw EnforceNotMet("iknp: base"); return OtRecvStore(otMeet(c, n, 'r', 'i')); }
}
