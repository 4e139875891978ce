import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P19/spec.py").read(), ns)
S = ns["SPEC"]
SRC, PR, SUP = S["sources"] + ["psi/utils/communication.cc", "psi/utils/progress.cc", "psi/utils/bucket.cc"], S["protos"], S["support"]
K = dict(flags=" ".join(x.replace(V + "/shims", "$T/shims") for x in S["flags"]), inputs="param hash_table=1\nparam spin_yield=1\nparam par_chunk=1\n", support=SUP, protos=PR, threads=True)
HEAD = r"""
#include <cstdio>
#include <fstream>
#include <thread>
#include "psi/legacy/bucket_psi.h"
#include "yacl/link/test_util.h"
using namespace psi;
using Strs = std::vector<std::string>;
static std::string file(const std::string& p) { std::ifstream f(p); std::string l, r; while (std::getline(f, l)) r += l + "\n"; return r; }
static std::string run(PsiType t, Strs in, Strs fields, bool pre) {
  auto w = yacl::link::test::SetupWorld(in.size());
  std::vector<std::thread> ts;
  static bool failed;
  failed = false;
  for (size_t p = 0; p < in.size(); p++) ts.emplace_back([&, p] {
    try {
    std::string d = "/tmp/p" + std::to_string(p);
    std::filesystem::create_directories(d);
    { std::ofstream f(d + "/in.csv"); f << in[p]; }
    BucketPsiConfig c;
    c.set_psi_type(t); c.set_receiver_rank(0); c.set_curve_type(CurveType::CURVE_25519);
    c.mutable_input_params()->set_path(d + "/in.csv");
    for (auto& f : fields) c.mutable_input_params()->add_select_fields(f);
    c.mutable_input_params()->set_precheck(pre);
    c.mutable_output_params()->set_path(d + "/out.csv");
    BucketPsi(c, w[p]).Run();
    } catch (const std::exception& e) { puts(e.what()); failed = true; w[p]->kill(); }
  });
  for (auto& x : ts) x.join();
  return failed ? "failed" : file("/tmp/p0/out.csv");
}
"""
only = sys.argv[1] if len(sys.argv) > 1 else ""
def S_(id, *a):
    if not only or only == id: seed(id, "P19", a[0], SRC, HEAD + a[1], a[2], a[3], **K)
S_("legacy-find-unsorted", [("psi/legacy/bucket_psi.cc", "  std::sort(result_list.begin(), result_list.end());\n  for (size_t i = 0; i < item_data_list", "  for (size_t i = 0; i < item_data_list")], r"""
int main() {
  auto o = run(PsiType::ECDH_PSI_3PC, {"id,v\nd,1\nx,2\nb,3\na,4\nc,5\n", "id\na\nb\nc\nd\ny\n", "id\na\nb\nc\nd\nz\n"}, {"id"}, false);
  puts(o.c_str());
  return o != "id,v\nd,1\nb,3\na,4\nc,5\n";
}
""", "a binary search in the receiver's own order", "the three-party protocol, whose result is in the receiver's order, with a table that is not sorted and not wholly common")
S_("legacy-join-columns", [("psi/utils/csv_checker.cc", "KeysJoin(chosen);", "absl::StrJoin(chosen, \"\");")], r"""
int main() {
  auto o = run(PsiType::ECDH_PSI_NPC, {"a,b,v\nx,yz,1\nxy,z,2\nq,q,3\n", "a,b\nx,yz\nq,q\nr,r\n"}, {"a", "b"}, true);
  puts(o.c_str());
  return o != "a,b,v\nx,yz,1\nq,q,3\n";
}
""", "keys of several columns are joined without a separator", "two key columns whose values run together to the same text, with the check for repeated keys on")
