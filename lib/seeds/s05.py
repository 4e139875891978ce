import sys; sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif/props/P05")
from seedtool import seed
import importlib.util
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P05/spec.py").read(), ns)
SRC, PR = ns["SPEC"]["sources"], ns["SPEC"]["protos"]
HEAD = r'''
#include <cstdio>
#include <filesystem>
#include <map>
#include <thread>
#include "psi/algorithm/ecdh/ecdh_psi.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/utils/ec_point_store.h"
#include "yacl/link/test_util.h"
using namespace psi;
using namespace psi::ecdh;
struct P : IBasicBatchProvider {
  std::vector<std::pair<std::string, uint32_t>> v;
  size_t bs = 2, at = 0;
  size_t batch_size() const override { return bs; }
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> r;
    for (size_t i = 0; i < bs && at < v.size(); i++, at++) { r.first.push_back(v[at].first); if (v[at].second) r.second[i] = v[at].second; }
    return r;
  }
};
typedef std::vector<std::pair<std::string, uint32_t>> L;
// what party p's index file says, as item -> other party's duplicate count
static std::map<std::string, uint64_t> run(const L& a, const L& b, size_t target, size_t bins, int p) {
  static int n = 0;
  std::string dir = "/tmp/demo" + std::to_string(n++);
  auto w = yacl::link::test::SetupWorld(2);
  std::shared_ptr<HashBucketEcPointStore> st[2][2];
  std::thread th[2];
  for (int q = 0; q < 2; q++) {
    std::filesystem::create_directories(dir + "/" + std::to_string(q));
    for (int k = 0; k < 2; k++) st[q][k] = std::make_shared<HashBucketEcPointStore>(dir + "/" + std::to_string(q), bins);
    th[q] = std::thread([&, q] {
      auto pr = std::make_shared<P>();
      pr->v = q ? b : a;
      EcdhPsiOptions o;
      o.ecc_cryptor = CreateEccCryptor(CurveType::CURVE_25519);
      o.link_ctx = w[q];
      o.target_rank = target;
      o.batch_size = 2;
      RunEcdhPsi(o, pr, st[q][0], st[q][1]);
    });
  }
  th[0].join(); th[1].join();
  std::string idx = dir + "/idx";
  { IndexWriter wr(idx, 64, true); FinalizeAndComputeIndices(st[p][0], st[p][1], &wr); }
  FileIndexReader rd(idx);
  std::map<std::string, uint64_t> r;
  while (auto x = rd.GetNextWithPeerCnt()) r[(p ? b : a)[x->first].first] = x->second;
  return r;
}
static std::map<std::string, uint64_t> want(const L& mine, const L& other) {
  std::map<std::string, uint64_t> r;
  for (auto& x : mine) for (auto& y : other) if (x.first == y.first) r[x.first] = y.second;
  return r;
}
'''
CARRY = HEAD + r'''
int main() {
  L a{{"a", 0}, {"b", 0}, {"c", 0}, {"d", 0}}, b{{"b", 3}, {"x", 0}, {"c", 0}, {"y", 0}};
  return run(a, b, 0, 4, 0) != want(a, b);
}
'''
BINS = HEAD + r'''
int main() {
  int bad = 0;
  for (char c = 'a'; c < 'q'; c++) { L a{{std::string(1, c), 0}, {"zz", 0}}, b{{std::string(1, c), 0}}; if (run(a, b, 0, 4, 0) != want(a, b)) bad++; }
  printf("%d of 16 results wrong\n", bad);
  return bad != 0;
}
'''
DUP = HEAD + r'''
int main() {
  L a{{"a", 2}, {"b", 0}}, b{{"b", 1}, {"a", 0}};
  return run(a, b, 0, 4, 0) != want(a, b) || run(a, b, 1, 4, 1) != want(b, a) || run(a, b, yacl::link::kAllRank, 4, 1) != want(b, a);
}
'''
F = "psi/algorithm/ecdh/ecdh_psi.cc"
K = dict(support=("shims/psi_cryptor.cpp",), protos=PR, threads=True)
seed("ecdh-dup-carry", "P05", [(F, "    std::vector<std::string> dual_masked_peers;\n    std::unordered_map<uint32_t, uint32_t> duplicate_item_cnt;\n", "    std::vector<std::string> dual_masked_peers;\n"),
  (F, "    const std::shared_ptr<IEcPointStore>& peer_ec_point_store) {\n  size_t batch_count = 0;\n", "    const std::shared_ptr<IEcPointStore>& peer_ec_point_store) {\n  std::unordered_map<uint32_t, uint32_t> duplicate_item_cnt;\n  size_t batch_count = 0;\n")],
  SRC, CARRY, "duplicate counts of one batch stay for the same positions of the following batches", "several batches, a duplicate in an early one, a matched item without duplicates at the same position of a later one", **K)
seed("ecdh-empty-bin", "P05", [("psi/utils/ec_point_store.cc", "    std::unordered_set<HashBucketCache::BucketItem,\n                       HashBucketCache::HashBucketIter>\n        peer_set(", "    if (peer_results.empty()) {\n      break;\n    }\n    std::unordered_set<HashBucketCache::BucketItem,\n                       HashBucketCache::HashBucketIter>\n        peer_set(")],
  SRC, BINS, "bins after the first one that is empty on the peer's side are not intersected", "a bin without peer items before one with matches", **K)
seed("ecdh-dup-role", "P05", [(F, "    if (PeerCanTouchResults()) {\n      if (!duplicate_item_cnt.empty()) {", "    if (SelfCanTouchResults()) {\n      if (!duplicate_item_cnt.empty()) {")],
  SRC, DUP, "duplicate counts go out according to the wrong party's right to the result", "a one-sided result and duplicates on the other side", **K)
