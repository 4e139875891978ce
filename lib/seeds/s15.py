import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P15/spec.py").read(), ns)
S = ns["SPEC"]
SRC, PR, SUP = S["sources"] + sys.argv[2:], S["protos"], S["support"]
K = dict(flags=" ".join(x.replace(V + "/shims", "$T/shims") for x in S["flags"]), inputs="param hash_table=1\nparam spin_yield=1\nparam par_chunk=1\n", support=SUP, protos=PR, threads=True)
HEAD = r"""
#include <cstdio>
#include <thread>
#include "psi/algorithm/nty/nty_mp_psi.h"
#include "psi/legacy/memory_psi.h"
#include "yacl/link/test_util.h"
using namespace psi;
using Strs = std::vector<std::string>;
static std::vector<Strs> run(PsiType t, size_t recv, bool bc, std::vector<Strs> in) {
  auto w = yacl::link::test::SetupWorld(in.size());
  std::vector<Strs> out(in.size());
  std::vector<std::thread> ts;
  for (size_t p = 0; p < in.size(); p++) ts.emplace_back([&, p] {
    MemoryPsiConfig c;
    c.set_psi_type(t); c.set_receiver_rank(recv); c.set_broadcast_result(bc); c.set_curve_type(CurveType::CURVE_25519);
    out[p] = MemoryPsi(c, w[p]).Run(in[p]);
  });
  for (auto& x : ts) x.join();
  return out;
}
static int expect(Strs got, Strs want) {
  for (auto& x : got) printf("%s ", x.c_str());
  printf("\n");
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  return got != want;
}
"""
only = sys.argv[1] if len(sys.argv) > 1 else ""
def S_(id, *a):
    if not only or only == id: seed(id, "P15", a[0], SRC, HEAD + a[1], a[2], a[3], **K)
S_("np-master-sorted", [("psi/legacy/nparty_psi.cc", "std::sort(party_size_rank_vec.begin() + 1, party_size_rank_vec.end());", "std::sort(party_size_rank_vec.begin(), party_size_rank_vec.end());")], r"""
int main() {
  int bad = 0;
  auto small = run(PsiType::ECDH_PSI_NPC, 1, false, {{"a", "b", "c"}, {"b"}, {"b", "d"}});
  bad |= expect(small[1], {"b"});
  auto big = run(PsiType::ECDH_PSI_NPC, 1, false, {{"b"}, {"a", "b", "c"}, {"b", "d"}});
  bad |= expect(big[1], {"b"}) | expect(big[0], {});
  return bad;
}
""", "the smallest party, not the master, ends up with the result", "a master that does not have the smallest set")
S_("3pc-unsorted", [("psi/algorithm/ecdh/ecdh_3pc_psi.cc", "    std::sort(masked_partners_items.begin(), masked_partners_items.end());\n", "")], r"""
int main() {
  Strs a, b, c;
  for (int i = 0; i < 12; i++) { a.push_back("a" + std::to_string(i)); b.push_back("a" + std::to_string(11 - i)); c.push_back("a" + std::to_string(i * 5 % 12)); }
  auto r = run(PsiType::ECDH_PSI_3PC, 0, false, {a, b, c});
  return expect(r[0], a);
}
""", "a binary search over a list in the order of the partners' intermediate values", "two or more items common to the partners whose masked order differs from the order of the final values")
S_("nty-size-of-self", [("psi/algorithm/nty/nty_mp_psi.cc", "DecodeOkvs(inputs, counts[id], p2p_[id], recv_hashed_items[id]);", "DecodeOkvs(inputs, counts[self_rank], p2p_[id],\n                 recv_hashed_items[id]);")], r"""
int main() {
  std::vector<std::vector<uint128_t>> in(4);
  for (uint128_t i = 1; i <= 40; i++) { if (i <= 20) in[0].push_back(i * 77); if (i <= 30) in[1].push_back(i * 77); if (i <= 7) in[2].push_back(i * 77); in[3].push_back(i * 77); }
  auto w = yacl::link::test::SetupWorld(4);
  std::vector<std::vector<uint128_t>> out(4);
  std::vector<std::thread> ts;
  static int threw;
  for (size_t p = 0; p < 4; p++) ts.emplace_back([&, p] {
    try {
    nty::NtyMPsiOptions o(1, 1, 2, 3, false);
    o.link_ctx = w[p];
    nty::NtyMPsi m(o);
    out[p] = m.Run(in[p]);
    } catch (const std::exception& e) { puts(e.what()); threw++; w[p]->kill(); }
  });
  for (auto& x : ts) x.join();
  printf("%zu in the result\n", out[3].size());
  return threw || out[3].size() != 7;
}
""", "the helper decodes another party's table with the size of its own set", "four or more parties of which the helper and a further party have sets of different size")
