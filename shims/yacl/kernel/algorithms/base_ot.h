#pragma once
#include <memory>
#include "sym.h"
#include "yacl/base/exception.h"
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
// one message each way; the number of transfers is checked on both sides
inline uint64_t otMeet(const std::shared_ptr<link::Context>& c, uint64_t n, char side, char kind) {
  uint64_t m[2] = {n, (uint64_t)(side | kind << 8)}, p[2];
  c->SendAsync(c->NextRank(), ByteContainerView(m, sizeof m), "ot");
  Buffer b = c->Recv(c->NextRank(), "ot");
  if (b.size() != sizeof p) throw EnforceNotMet("ot: message out of place");
  memcpy(p, b.data(), sizeof p);
  if (p[0] != n) throw EnforceNotMet("ot: numbers differ");
  if (p[1] != (uint64_t)((side == 's' ? 'r' : 's') | kind << 8)) throw EnforceNotMet("ot: both parties take the same side");
  return n;
}
inline OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& c, uint32_t n) { return OtSendStore(otMeet(c, n, 's', 'b')); }
inline OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& c, const dynamic_bitset<uint128_t>& ch, uint32_t n) {
  if (ch.size() != n) throw EnforceNotMet("ot: choices");
  return OtRecvStore(otMeet(c, n, 'r', 'b'));
}
}
