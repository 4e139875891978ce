import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P12/spec.py").read(), ns)
SRC, PR, SUP = ns["SPEC"]["sources"], ns["SPEC"]["protos"], [s for s in ns["SPEC"]["support"]]
HEAD = r"""
#include <cstdio>
#include <thread>
#include "psi/algorithm/ecdh/ecdh_operator.h"
#include "psi/algorithm/kkrt/kkrt_operator.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/utils/index_store.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct P : IDataProvider {
  std::vector<PsiItemData> v; size_t at = 0;
  std::vector<PsiItemData> ReadNext(size_t n) override { std::vector<PsiItemData> r; while (r.size() < n && at < v.size()) r.push_back(v[at++]); return r; }
  std::vector<PsiItemData> ReadAll() override { return ReadNext(v.size()); }
};
struct S : IDataStore {
  std::vector<PsiItemData> v;
  size_t GetBucketNum() const override { return 1; }
  std::shared_ptr<IDataProvider> Load(size_t) override { auto p = std::make_shared<P>(); p->v = v; return p; }
};
static int show(const char* n, const std::vector<PsiResultIndex>& r) { for (auto& x : r) printf("%s: item %lu, peer has it %u times\n", n, (unsigned long)x.data, x.peer_item_cnt); return 0; }
template <class F> static void both(F make) {
  auto w = yacl::link::test::SetupWorld(2);
  std::thread t[2];
  for (int p = 0; p < 2; p++) t[p] = std::thread([&, p] { auto op = make(p, w[p]); op->Init(); op->Run(); op->End(); });
  t[0].join(); t[1].join();
}
"""
K = dict(flags="-I$T/shims/atomic", inputs="param spin_yield=1\nparam hash_table=1\n", support=SUP, protos=PR, threads=True)
seed("op-bcast-cnt", "P12", [("psi/algorithm/psi_operator.cc", "        dup_item_cnt[i] = inputs[index].cnt;", "        dup_item_cnt[index] = inputs[index].cnt;")], SRC, HEAD + r"""
int main() {
  auto a = std::make_shared<S>(), b = std::make_shared<S>();
  a->v = {{"only a", 1}, {"me too", 1}, {"x", 3}, {"y", 1}};
  b->v = {{"y", 1}, {"x", 1}};
  auto ra = std::make_shared<MemoryResultStore>(), rb = std::make_shared<MemoryResultStore>();
  both([&](int p, auto w) {
    kkrt::KkrtOperator::Options o;
    o.link_ctx = w; o.receiver_rank = 0; o.broadcast_result = true;
    return std::make_unique<kkrt::KkrtOperator>(o, p ? b : a, p ? rb : ra);
  });
  show("b", rb->GetData());
  int bad = rb->GetData().size() != 2;
  for (auto& r : rb->GetData()) bad |= r.peer_item_cnt != (r.data == 1 ? 3u : 1u);
  return bad;
}
""", "the shared repetition counts are filed under the receiver's row numbers, but read as positions in the shared list", "a repeated common item that is not at the same position in the intersection as in the receiver's set", **K)
seed("op-disk-cnt", "P12", [("psi/algorithm/ecdh/ecdh_operator.cc", ".data = item.index, .peer_item_cnt = peer->extra_dup_cnt + 1});", ".data = item.index, .peer_item_cnt = item.extra_dup_cnt + 1});")], SRC, HEAD + r"""
int main() {
  auto a = std::make_shared<S>(), b = std::make_shared<S>();
  a->v = {{"x", 1}, {"z", 2}};
  b->v = {{"y", 1}, {"x", 4}};
  auto ra = std::make_shared<MemoryResultStore>(), rb = std::make_shared<MemoryResultStore>();
  std::filesystem::create_directories("/tmp/o0"); std::filesystem::create_directories("/tmp/o1");
  both([&](int p, auto w) {
    ecdh::EcdhPsiOptions o;
    o.ecc_cryptor = CreateEccCryptor(CurveType::CURVE_25519);
    o.link_ctx = w; o.target_rank = yacl::link::kAllRank;
    return std::make_unique<ecdh::EcdhOperator>(o, p ? b : a, p ? rb : ra, 2, p ? "/tmp/o1" : "/tmp/o0");
  });
  show("a", ra->GetData());
  return !(ra->GetData().size() == 1 && ra->GetData()[0].data == 0 && ra->GetData()[0].peer_item_cnt == 4);
}
""", "the on-disk variant reports the party's own repetition count instead of the peer's", "on-disk point stores and a common item with different counts at the two parties", **K)
