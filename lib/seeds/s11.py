import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P11/spec.py").read(), ns)
SRC, PR = ns["SPEC"]["sources"], ns["SPEC"]["protos"]
HEAD = r"""
#include <cstdio>
#include <cstring>
#include <thread>
#include "psi/algorithm/kkrt/kkrt_psi.h"
#include "psi/utils/cuckoo_index.h"
#include "yacl/link/test_util.h"
using namespace psi;
static uint128_t withBins(size_t b0, size_t b1, size_t b2, size_t nb, uint64_t tag) {
  uint64_t w2 = b2, w1 = 0, w0 = 0;
  while ((w1 + (w2 << 16)) % nb != b1) w1++;
  while ((w0 + (w1 << 16) + (w2 << 32)) % nb != b0) w0++;
  return ((uint128_t)(tag << 32) << 64) | w0 | w1 << 16 | w2 << 32;
}
static std::vector<PsiResultIndex> run(const std::vector<uint128_t>& mine, const std::vector<PsiItemHash>& theirs, size_t psib) {
  auto w = yacl::link::test::SetupWorld(2);
  auto o = kkrt::GetDefaultKkrtPsiOptions();
  o.psi_batch_size = psib;
  std::vector<PsiResultIndex> res;
  std::thread a([&] { auto ot = kkrt::GetKkrtOtReceiverOptions(w[0], 512); res = kkrt::KkrtPsiRecvIndices(w[0], o, ot, mine); });
  std::thread b([&] { auto ot = kkrt::GetKkrtOtSenderOptions(w[1], 512); kkrt::KkrtPsiSend(w[1], o, ot, theirs); });
  a.join(); b.join();
  for (auto& r : res) printf("%lu x%u\n", (unsigned long)r.data, r.peer_item_cnt);
  return res;
}
"""
K = dict(flags="-I$T/shims/atomic", inputs="param spin_yield=1\n", support=(), protos=PR, threads=True)
seed("cuckoo-recorded-hash", "P11", [("psi/utils/cuckoo_index.cc", """    auto target = hashes_[input_idx].GetHash(i) % num_bins;
    if (target == bin_index) {""", """    auto target = hashes_[input_idx].GetHash(i) % num_bins;
    if (target == bin_index && i >= bin.HashIdx()) {""")], SRC, HEAD + r"""
int main() {
  size_t nb = CuckooIndex::SelectParams(2, 0, 3).NumBins();
  // the first item's first two positions coincide, and the second item evicts it from there
  std::vector<uint128_t> mine{withBins(1, 1, 2, nb, 1), withBins(1, 4, 5, nb, 2)};
  std::vector<PsiItemHash> theirs{{mine[0], 1}, {mine[1], 1}};
  int bad = run(mine, theirs, 4).size() != 2;
  std::vector<uint128_t> m2{withBins(1, 1, 2, nb, 1), withBins(1, 1, 5, nb, 2)};
  std::vector<PsiItemHash> t2{{m2[0], 1}, {m2[1], 1}};
  bad |= run(m2, t2, 4).size() != 2;
  return bad;
}
""", "the search for an item's least position index starts at the index it was placed by", "an item two of whose positions coincide, placed by the later one after an eviction", **K)
seed("cuckoo-second-insert", "P11", [("psi/utils/cuckoo_index.cc", "    candidates[i].set_encoded(input_offset + i);", "    candidates[i].set_encoded(i);")], SRC, HEAD + r"""
int main() {
  CuckooIndex u(CuckooIndex::SelectParams(4, 0, 3));
  size_t nb = u.bins().size();
  std::vector<uint128_t> c;
  for (size_t i = 0; i < 4; i++) c.push_back(withBins(i, i + 1, i + 2, nb, i));
  u.Insert(absl::MakeSpan(c).subspan(0, 2));
  u.Insert(absl::MakeSpan(c).subspan(2));
  try { u.SanityCheck(); } catch (const std::exception& e) { printf("%s\n", e.what()); return 1; }
  return 0;
}
""", "items of a later insert call are numbered from zero again", "a table filled by more than one call", **K)
seed("kkrt-dup-batch", "P11", [("psi/algorithm/kkrt/kkrt_psi.cc", "        batch.duplicate_item_cnt[j] = items[input_idx].cnt;", "        batch.duplicate_item_cnt[i + j] = items[input_idx].cnt;")], SRC, HEAD + r"""
int main() {
  std::vector<uint128_t> mine;
  std::vector<PsiItemHash> theirs;
  size_t nb = CuckooIndex::SelectParams(5, 0, 3).NumBins();
  for (size_t i = 0; i < 5; i++) { mine.push_back(withBins(i, i + 1, i + 2, nb, i + 1)); theirs.push_back({mine[i], (uint32_t)i + 1}); }
  auto res = run(mine, theirs, 2);
  int bad = res.size() != 5;
  for (auto& r : res) bad |= r.data >= 5 || r.peer_item_cnt != r.data + 1;
  return bad;
}
""", "the repetition counts of later messages are filed under positions in the whole set, not in the message", "more sender items than fit in one message (1024), one of the later ones repeated", **K)
