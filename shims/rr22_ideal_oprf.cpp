// Ideal OPRF in place of psi/algorithm/rr22/rr22_oprf.cc: both ends apply the same
// keyed function; the messages of the two ends are kept, so that the sender learns
// the receiver's size and the receiver waits for the key.
#include "psi/algorithm/rr22/rr22_oprf.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/rand/rand.h"
namespace psi::rr22 {
// the function keeps the low 8 bytes distinct for distinct inputs (a plain xor), as a hash does up to collisions
static uint128_t prf(uint128_t k, uint128_t x) { return x ^ k; }
void Rr22OprfSender::Init(const std::shared_ptr<yacl::link::Context>& c, size_t n, size_t) {
  yacl::Buffer b = c->Recv(c->NextRank(), "oprf");
  YACL_ENFORCE(b.size() == 16);
  uint64_t v[2];
  memcpy(v, b.data(), 16);
  YACL_ENFORCE(v[0] == n, "ideal oprf: sizes differ");
  YACL_ENFORCE(v[1] == (uint64_t)mode_, "ideal oprf: modes differ");
  delta_ = yacl::crypto::SecureRandU128();
  c->SendAsync(c->NextRank(), yacl::ByteContainerView(&delta_, 16), "oprf");
}
std::vector<uint128_t> Rr22OprfSender::Send(const std::shared_ptr<yacl::link::Context>& c, const absl::Span<const uint128_t>& in) {
  yacl::Buffer b = c->Recv(c->NextRank(), "oprf");
  b_.assign(1, delta_);
  return std::vector<uint128_t>(in.size(), delta_);
}
std::vector<uint128_t> Rr22OprfSender::Eval(const absl::Span<const uint128_t>& in) {
  YACL_ENFORCE(b_.size() > 0, "Must use Send() first");
  std::vector<uint128_t> r;
  for (auto x : in) r.push_back(prf(delta_, x));
  b_.clear();
  return r;
}
std::vector<uint128_t> Rr22OprfSender::Eval(const absl::Span<const uint128_t>& in, absl::Span<const uint128_t> h) {
  YACL_ENFORCE(in.size() == h.size());
  for (size_t i = 0; i < in.size(); i++) YACL_ENFORCE(h[i] == delta_, "ideal oprf: not the result of Send");
  return Eval(in);
}
void Rr22OprfReceiver::Init(const std::shared_ptr<yacl::link::Context>& c, size_t n, size_t) {
  uint64_t v[2] = {n, (uint64_t)mode_};
  c->SendAsync(c->NextRank(), yacl::ByteContainerView(v, 16), "oprf");
  yacl::Buffer b = c->Recv(c->NextRank(), "oprf");
  YACL_ENFORCE(b.size() == 16);
  paxos_size_ = n;
  uint128_t k;
  memcpy(&k, b.data(), 16);
  a_.assign(1, k);
}
std::vector<uint128_t> Rr22OprfReceiver::Recv(const std::shared_ptr<yacl::link::Context>& c, const absl::Span<const uint128_t>& in) {
  YACL_ENFORCE(in.size() == paxos_size_);
  c->SendAsync(c->NextRank(), yacl::ByteContainerView("x", 1), "oprf");
  std::vector<uint128_t> r;
  for (auto x : in) r.push_back(prf(a_[0], x));
  return r;
}
}
