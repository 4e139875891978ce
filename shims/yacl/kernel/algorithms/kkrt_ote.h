// Ideal batched OPRF with the interface of yacl's KKRT extension.  The value at
// (position, item) is a pseudo-random constant, equal for equal pairs and
// different for different ones.  The sender may only evaluate a position whose
// correction it has; the receiver gets one value per position, in order.
#pragma once
#include <cstring>
#include "absl/types/span.h"
#include "sym.h"
#include "yacl/kernel/algorithms/base_ot.h"
#include "yacl/shim_hash.h"
namespace yacl::crypto {
inline void kkrtValue(uint64_t idx, uint128_t x, uint8_t* d, size_t n) {
  struct E { uint64_t i; uint128_t x; };
  static auto* t = new std::vector<E>();
  size_t id = 0;
  while (id < t->size() && !((*t)[id].i == idx && (*t)[id].x == x)) id++;
  if (id == t->size()) t->push_back({idx, x});
  for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(symcrypto::mix64(id * 77 + i / 8 + 5) >> (8 * (i % 8)));
}
// both ends use at most this many positions per message (the code asks for 3276)
inline uint64_t kkrtBatch(uint64_t b) { uint64_t m = sym_param("ot_batch", 4); return m && m < b ? m : b; }
class KkrtOtExtSender {
 public:
  void Init(const std::shared_ptr<link::Context>& c, const OtRecvStore& s, uint64_t n) { if (s.Size() != 512) throw EnforceNotMet("kkrt: 512 base transfers"); n_ = n; (void)c; }
  void SetBatchSize(uint64_t b) { if (b == 0) throw EnforceNotMet("kkrt: batch"); b_ = kkrtBatch(b); }
  uint64_t GetBatchSize() const { return b_; }
  void SetCorrection(const Buffer& buf, uint64_t n) {
    uint64_t m[2];
    if (buf.size() != sizeof m) throw EnforceNotMet("kkrt: correction");
    memcpy(m, buf.data(), sizeof m);
    CHECK_THAT(m[0] == at_ && m[1] == n, "corrections are taken in the order and number they were sent");
    at_ += n;
  }
  void Encode(uint64_t i, uint128_t x, void* d, uint64_t n) {
    CHECK_THAT(i < n_ && i < at_, "an encoding is made only for a position whose correction has arrived");
    kkrtValue(i, x, (uint8_t*)d, n);
  }
 private:
  uint64_t n_ = 0, b_ = 128, at_ = 0;
};
class KkrtOtExtReceiver {
 public:
  void Init(const std::shared_ptr<link::Context>& c, const OtSendStore& s, uint64_t n) { if (s.Size() != 512) throw EnforceNotMet("kkrt: 512 base transfers"); done_.assign(n, 0); (void)c; }
  void SetBatchSize(uint64_t b) { if (b == 0) throw EnforceNotMet("kkrt: batch"); b_ = kkrtBatch(b); }
  uint64_t GetBatchSize() const { return b_; }
  void ZeroEncode(uint64_t i) { mark(i); }
  void Encode(uint64_t i, uint128_t x, absl::Span<uint8_t> d) { mark(i); kkrtValue(i, x, d.data(), d.size()); }
  Buffer ShiftCorrection(uint64_t n) {
    for (uint64_t i = at_; i < at_ + n; i++) CHECK_THAT(i < done_.size() && done_[i] == 1, "corrections go out for positions that are encoded, each once");
    uint64_t m[2] = {at_, n};
    at_ += n;
    return Buffer(m, sizeof m);
  }
 private:
  void mark(uint64_t i) { CHECK_THAT(i < done_.size() && done_[i] == 0, "a position is encoded once"); done_[i] = 1; }
  std::vector<char> done_;
  uint64_t b_ = 128, at_ = 0;
};
}
