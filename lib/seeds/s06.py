import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P06/spec.py").read(), ns)
SRC, PR = ns["SPEC"]["sources"], ns["SPEC"]["protos"]
HEAD = r'''
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <thread>
#include "psi/algorithm/ecdh/receiver.h"
#include "psi/algorithm/ecdh/sender.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct T { std::string in; std::vector<std::string> keys; std::vector<std::string> out; PsiResultReport rep; };
static void task(T& r, T& s, int jt, bool left, bool digest) {
  std::filesystem::create_directories("/tmp/demo");
  auto w = yacl::link::test::SetupWorld(2);
  auto side = [&](T& t, bool recv) {
    std::string p = recv ? "/tmp/demo/r" : "/tmp/demo/s";
    v2::PsiConfig c;
    c.mutable_protocol_config()->set_protocol(v2::PROTOCOL_ECDH);
    c.mutable_protocol_config()->set_role(recv ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
    c.mutable_protocol_config()->set_broadcast_result(true);
    c.mutable_protocol_config()->mutable_ecdh_config()->set_curve(CURVE_25519);
    c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_input_config()->set_path(p + ".csv");
    c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_output_config()->set_path(p + ".out.csv");
    for (auto& k : t.keys) c.add_keys(k);
    c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)jt);
    if (jt > 1) c.set_left_side(left ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
    c.set_check_hash_digest(digest);
    { std::ofstream f(p + ".csv"); f << t.in; }
    if (recv) { ecdh::EcdhPsiReceiver q(c, w[0]); t.rep = q.Run(); }
    else { ecdh::EcdhPsiSender q(c, w[1]); t.rep = q.Run(); }
    std::ifstream f(p + ".out.csv");
    std::string l;
    while (std::getline(f, l)) t.out.push_back(l);
    for (auto& x : t.out) printf("%s|%s\n", recv ? "r" : "s", x.c_str());
  };
  std::thread a([&] { side(r, true); }), b([&] { side(s, false); });
  a.join(); b.join();
}
'''
PAD = HEAD + r'''
int main() {
  T r{"id,v\na,1\na,2\nb,3\n", {"id"}}, s{"id,v\na,4\nc,5\n", {"id"}};
  task(r, s, 4, true, false);  // full join: (a,1)(a,4) (a,2)(a,4) (b,3)- -(c,5)
  auto n = [](T& t) { int k = 0; for (auto& l : t.out) k += l == "NULL,NULL"; return k; };
  return !(r.out.size() == 5 && s.out.size() == 5 && n(r) == 1 && n(s) == 1);
}
'''
DIG = HEAD + r'''
int main() {
  T r{"id,v\na,1\na,2\nb,3\n", {"id"}}, s{"id,v\na,4\nb,5\n", {"id"}};
  task(r, s, 1, true, true);
  return !(r.out.size() == 4 && s.out.size() == 4 && s.out[1] == "a,4" && s.out[2] == "a,4");
}
'''
SORT = HEAD + r'''
int main() {
  T r{"id1,v,id2\na,1,x\na,2,y\na,3,x\n", {"id1", "id2"}}, s{"id1,v,id2\na,7,x\n", {"id1", "id2"}};
  task(r, s, 1, true, false);
  return !(r.out.size() == 3 && r.rep.intersection_count() == 2 && r.rep.original_key_count() == 2);
}
'''
K = dict(support=("shims/psi_cryptor.cpp", "shims/sys_sort.cpp"), protos=PR, threads=True)
seed("task-pad-count", "P06", [("psi/interface.cc", "                                        stat.peer_intersection_count);", "                                        stat.self_intersection_count);")],
  SRC, PAD, "padding rows for the other side are counted from the own side's matched rows", "a join that keeps unmatched rows, and a key with different multiplicities on the two sides", **K)
seed("task-digest-any", "P06", [("psi/interface.cc", "auto all_unique = std::all_of(", "auto all_unique = std::any_of(")],
  SRC, DIG, "the equal-digest shortcut is taken when only one side's keys are unique", "equal key sets, duplicates on one side, digest check on", **K)
seed("task-sort-key", "P06", [("psi/utils/key.cc", 'fmt::format("--key={},{}", sort_index, sort_index)', 'fmt::format("--key={}", sort_index)')],
  SRC, SORT, "sort keys reach to the end of the line, so a non-key column breaks up groups of equal keys", "two key columns with another column between them and a key that occurs more than once", **K)
