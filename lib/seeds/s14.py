import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P14/spec.py").read(), ns)
SRC, PR, SUP = ns["SPEC"]["sources"] + ["psi/algorithm/ecdh/ub_psi/ecdh_oprf.cc"], ns["SPEC"]["protos"], ns["SPEC"]["support"]
HEAD = r"""
#include <cstdio>
#include <fstream>
#include <sstream>
#include <thread>
#include "psi/algorithm/ecdh/ub_psi/client.h"
#include "psi/algorithm/ecdh/ub_psi/server.h"
#include "yacl/link/test_util.h"
using namespace psi;
using M = v2::UbPsiConfig;
static int gJoin = 1; static bool gClient = true, gServer = true;
static M cfg(bool server, M::Mode mode) {
  M c;
  c.set_mode(mode);
  c.set_role(server ? v2::ROLE_SERVER : v2::ROLE_CLIENT);
  if (server ? mode == M::MODE_OFFLINE_GEN_CACHE || mode == M::MODE_FULL : mode == M::MODE_ONLINE || mode == M::MODE_FULL) {
    c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_input_config()->set_path(server ? "/tmp/w/s.csv" : "/tmp/w/c.csv");
  }
  c.add_keys("id");
  c.set_cache_path(server ? "/tmp/w/cs" : "/tmp/w/cc");
  c.set_server_get_result(gServer); c.set_client_get_result(gClient);
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(server ? "/tmp/w/so.csv" : "/tmp/w/co.csv");
  c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)gJoin);
  c.set_left_side(v2::ROLE_CLIENT);
  return c;
}
static void table(const char* path, const char* keys) {
  std::filesystem::create_directories("/tmp/w");
  std::ofstream f(path);
  f << "id,v\n";
  int i = 0;
  for (const char* p = keys; *p; p++) f << *p << ",v" << i++ << "\n";
}
static void both(M::Mode m) {
  auto w = yacl::link::test::SetupWorld(2);
  std::thread a([&] { ecdh::EcdhUbPsiClient p(cfg(false, m), w[0]); p.Run(); });
  std::thread b([&] { ecdh::EcdhUbPsiServer p(cfg(true, m), w[1]); p.Run(); });
  a.join(); b.join();
}
static void run() {
  { ecdh::EcdhUbPsiServer p(cfg(true, M::MODE_OFFLINE_GEN_CACHE), nullptr); p.Run(); }
  both(M::MODE_OFFLINE_TRANSFER_CACHE);
  both(M::MODE_ONLINE);
}
// rows of a file, without the header, sorted
static std::string rows(const char* path) {
  std::ifstream f(path);
  std::vector<std::string> v; std::string l;
  std::getline(f, l);
  while (std::getline(f, l)) v.push_back(l);
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto& x : v) r += x + ";";
  printf("%s: %s\n", path, r.c_str());
  return r;
}
"""
K = dict(inputs="param avx2=1\nparam hash_table=1\n", support=SUP, protos=PR, threads=True)
F = "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc"
seed("ub-dup-perm", "P14", [(F, "    cnt_info.peer_dup_cnt[i] = peer_dup_cnt[shuffle_index[i]];", "    cnt_info.peer_dup_cnt[shuffle_index[i]] = peer_dup_cnt[i];")], SRC, HEAD + r"""
int main() {
  gClient = false;
  // several runs: the shuffle of three keys must not be its own inverse
  int bad = 0;
  for (int k = 0; k < 6; k++) {
    table("/tmp/w/s.csv", "abc");
    table("/tmp/w/c.csv", "aabcccc");
    symcrypto::counter() += 17;
    run();
    bad |= rows("/tmp/w/so.csv") != "a,v0;a,v0;b,v1;c,v2;c,v2;c,v2;c,v2;";
  }
  return bad;
}
""", "the client's repetition counts are filed under the inverse of the shuffle", "result for the server only, and at least three client keys with different counts whose shuffle is not its own inverse", **K)
seed("ub-reopen-rows", "P14", [("psi/utils/ec_point_store.cc", "    peer_cnt_ = meta_.peer_cnt;", "    peer_cnt_ = meta_.item_cnt;")], SRC, HEAD + r"""
int main() {
  gJoin = 4;  // full join
  table("/tmp/w/s.csv", "abbb");
  table("/tmp/w/c.csv", "ac");
  run();
  auto r = rows("/tmp/w/co.csv");
  int lines = 0;
  for (char c : r) lines += c == ';';
  return lines != 5;  // a, c, and three rows without a partner
}
""", "a reopened client cache takes the number of keys for the number of rows of the server", "a server table with repeated keys outside the intersection, and a join that keeps the server's unmatched rows", **K)
