// KKRT matching and cuckoo placement under arbitrary item hashes
#include <set>
#include <thread>
#include "psi/algorithm/kkrt/kkrt_psi.h"
#include "psi/utils/cuckoo_index.h"
#include "sym.h"
#include "yacl/shim_hash.h"
#include "yacl/link/test_util.h"
using namespace psi;
// every item sits once, at one of its own positions, or the table refuses
extern "C" int h_cuckoo() {
  CuckooIndex::Options o;
  size_t n = sym_param("n", 3);
  o.num_stash = sym_param("stash", 1);
  o.num_hash = sym_param("hashes", 3);
  o.max_try_count = sym_param("tries", 6);
  o.num_input = o.num_stash ? n : 256;  // smaller tables without a stash get eight more bins
  o.scale_factor = (double)sym_param("bins", 4) / o.num_input;
  size_t nb = o.NumBins();
  std::vector<uint128_t> code;
  for (size_t i = 0; i < n; i++) {
    // with a power of two bins only these bits decide the three positions
    uint8_t raw[16] = {};
    raw[15] = i + 1;
    for (size_t h = 0; h < o.num_hash; h++) raw[2 * h] = sym_param("split", 0) ? choose(sym_param("bins", 4), "position") : sym<uint8_t>("position") & (sym_param("bins", 4) - 1);
    uint128_t c;
    memcpy(&c, raw, 16);
    code.push_back(c);
  }
  CuckooIndex t(o);
  size_t first = choose(n + 1, "items of the first call");
  bool refused = throws([&] {
    t.Insert(absl::MakeSpan(code).subspan(0, first));
    t.Insert(absl::MakeSpan(code).subspan(first));
  });
  if (refused) {
    // never without need: with all first positions different there is room for everyone
    bool clash = false;
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < i; j++) clash |= CuckooIndex::HashRoom(code[i]).GetHash(0) % nb == CuckooIndex::HashRoom(code[j]).GetHash(0) % nb;
    CHECK_THAT(clash, "items with different first positions are all placed");
    sym_reach("refused");
    sym_reach("end");
    return 0;
  }
  std::vector<int> seen(n);
  CHECK_THAT(t.bins().size() == nb && t.stash().size() == o.num_stash && t.hashes().size() == n, "the table has the announced size");
  for (size_t b = 0; b < nb; b++) {
    auto bin = t.bins()[b];
    if (bin.IsEmpty()) continue;
    size_t i = bin.InputIdx(), h = bin.HashIdx();
    CHECK_THAT(i < n && h < o.num_hash, "a bin names an item and one of its positions");
    seen[i]++;
    uint64_t v = 0;
    memcpy(&v, (uint8_t*)&code[i] + 2 * h, 8);
    CHECK_THAT(v % nb == b, "an item is in a bin that is one of its positions, the one recorded");
    size_t m = t.MinCollidingHashIdx(b);
    CHECK_THAT(m <= h, "the least position index of a bin is at most the recorded one");
    for (size_t k = 0; k < o.num_hash; k++) {
      memcpy(&v, (uint8_t*)&code[i] + 2 * k, 8);
      CHECK_THAT(k == m ? v % nb == b : k > m || v % nb != b, "the least position index that leads to the bin is found");
    }
  }
  for (auto s : t.stash())
    if (!s.IsEmpty()) { CHECK_THAT(s.InputIdx() < n, "the stash names an item"); seen[s.InputIdx()]++; }
  for (size_t i = 0; i < n; i++) CHECK_THAT(seen[i] == 1, "every item is placed exactly once");
  if (o.num_input == n) t.SanityCheck();
  sym_reach("end");
  return 0;
}
// the three positions are taken from the hash as documented
extern "C" int h_hash() {
  uint128_t c = sym<uint128_t>("code");
  size_t h = choose(5, "position");
  uint64_t v = 0;
  for (int i = 7; i >= 0; i--) v = v << 8 | (uint8_t)(c >> (8 * (2 * h + i)));
  CHECK_THAT(CuckooIndex::HashRoom(c).GetHash(h) == v, "position h is eight bytes of the hash from byte 2h");
  uint64_t in = sym<uint64_t>("item") >> 8;
  uint8_t k = sym<uint8_t>("hash index");
  CuckooIndex::Bin b(CuckooIndex::Bin::Encode(in, k));
  CHECK_THAT(b.InputIdx() == in && b.HashIdx() == k, "a bin gives back the item and the position index");
  CHECK_THAT(b.IsEmpty() == (k == 255 && in == (uint64_t)-1 >> 8), "only the empty mark reads as empty");
  sym_reach("end");
  return 0;
}
// a hash with the given three positions among nb bins; tag tells items apart
static uint128_t withBins(size_t b0, size_t b1, size_t b2, size_t nb, uint64_t tag) {
  uint64_t w2 = b2, w1 = 0, w0 = 0;
  while ((w1 + (w2 << 16)) % nb != b1) w1++;
  while ((w0 + (w1 << 16) + (w2 << 32)) % nb != b0) w0++;
  return ((uint128_t)(tag << 32) << 64) | w0 | w1 << 16 | w2 << 32;
}
extern "C" int h_match() {
  size_t nr = sym_param("nr", 2), ns = sym_param("ns", 2), range = sym_param("range", 3);
  symcrypto::counter() += 50 * sym_param("rand_salt", 0);
  kkrt::KkrtPsiOptions o = kkrt::GetDefaultKkrtPsiOptions();
  o.ot_batch_size = sym_param("otb", 4);
  o.psi_batch_size = sym_param("psib", 1);
  size_t nb = CuckooIndex::SelectParams(nr, 0, 3).NumBins();
  std::vector<uint128_t> mine;
  for (size_t i = 0; i < nr; i++) {
    size_t b[3];
    for (auto& x : b) x = choose(range, "position");
    mine.push_back(withBins(b[0], b[1], b[2], nb, i + 1));
  }
  std::vector<PsiItemHash> theirs;
  std::vector<size_t> want(nr, 0);
  for (size_t i = 0; i < ns; i++) {
    size_t c = choose(nr + 1, "common item");
    PsiItemHash h;
    if (c < nr) {
      sym_assume(want[c] == 0);  // the items of a side are distinct
      h.data = mine[c];
    } else h.data = withBins(sym_param("other0", 0), i ? 1 : 0, i, nb, 100 + i);
    h.cnt = 1 + choose(sym_param("counts", 2), "repetitions");
    if (c < nr) want[c] = h.cnt;
    theirs.push_back(h);
  }
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<PsiResultIndex> res;
  bool refused = false, broken = false;
  std::thread a([&] {
    try {
      auto ot = kkrt::GetKkrtOtReceiverOptions(w[0], 512);
      res = kkrt::KkrtPsiRecvIndices(w[0], o, ot, mine);
    } catch (const std::exception& e) { refused = true; sym_print(e.what()); w[0]->kill(); }
  });
  std::thread b([&] {
    try {
      auto ot = kkrt::GetKkrtOtSenderOptions(w[1], 512);
      kkrt::KkrtPsiSend(w[1], o, ot, theirs);
    } catch (const std::exception& e) { broken = true; w[1]->kill(); }
  });
  a.join();
  b.join();
  if (refused) {
    // three positions each leave no room only if two items share all of theirs
    std::set<size_t> used;
    for (auto& m : mine) for (size_t h = 0; h < 3; h++) used.insert(CuckooIndex::HashRoom(m).GetHash(h) % nb);
    CHECK_THAT(used.size() < nr, "the receiver refuses only items that cannot be placed");
    sym_reach("end");
    return 0;
  }
  CHECK_THAT(!broken, "the sender finishes when the receiver does");
  std::vector<size_t> have(nr, 0);
  for (auto& r : res) {
    CHECK_THAT(r.data < nr && have[r.data] == 0, "an item is reported once");
    CHECK_THAT(r.peer_item_cnt >= 1, "a common item occurs at least once at the sender");
    have[r.data] = r.peer_item_cnt;
  }
  for (size_t i = 0; i < nr; i++) CHECK_THAT(have[i] == want[i], "exactly the common items are reported, with the sender's number of repetitions");
  sym_reach("end");
  return 0;
}
