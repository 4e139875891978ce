import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P09/spec.py").read(), ns)
SRC, PR = ns["SPEC"]["sources"], ns["SPEC"]["protos"]
HEAD = r'''
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <thread>
#include "psi/algorithm/kkrt/receiver.h"
#include "psi/algorithm/kkrt/sender.h"
#include "psi/algorithm/rr22/receiver.h"
#include "psi/algorithm/rr22/sender.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct T { std::string in; std::vector<std::string> out; PsiResultReport rep; };
template <class A, class B> static void task(T& r, T& s, v2::Protocol proto, bool pdup = false) {
  std::filesystem::create_directories("/tmp/demo");
  auto w = yacl::link::test::SetupWorld(2);
  auto cfg = [&](T& t, const std::string& p, bool recv) {
    v2::PsiConfig c;
    c.mutable_protocol_config()->set_protocol(proto);
    c.mutable_protocol_config()->mutable_kkrt_config()->set_bucket_size(1000);
    c.mutable_protocol_config()->mutable_rr22_config()->set_bucket_size(1000);
    c.mutable_protocol_config()->set_role(recv ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
    c.mutable_protocol_config()->set_broadcast_result(true);
    c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_input_config()->set_path(p + ".csv");
    c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_output_config()->set_path(p + ".out.csv");
    c.add_keys("id");
    c.set_advanced_join_type(v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN);
    c.set_left_side(v2::ROLE_RECEIVER);
    std::ofstream f(p + ".csv");
    f << t.in;
    return c;
  };
  auto done = [&](T& t, const std::string& p) {
    std::ifstream f(p + ".out.csv");
    std::string l;
    while (std::getline(f, l)) t.out.push_back(l);
  };
  std::thread a([&] { A q(cfg(r, "/tmp/demo/r", true), w[0]); r.rep = q.Run(); done(r, "/tmp/demo/r"); });
  std::thread b([&] { B q(cfg(s, "/tmp/demo/s", false), w[1]); s.rep = q.Run(); done(s, "/tmp/demo/s"); });
  a.join(); b.join();
  for (auto& x : r.out) printf("r|%s\n", x.c_str());
  for (auto& x : s.out) printf("s|%s\n", x.c_str());
}
// the two tables must be the join of r.in and s.in, line by line (rows are "key,value")
static bool joined(T& r, T& s) {
  auto rows = [](const std::string& in) {
    std::vector<std::string> v;
    size_t b = in.find('\n') + 1;
    while (b < in.size()) { size_t e = in.find('\n', b); v.push_back(in.substr(b, e - b)); b = e + 1; }
    return v;
  };
  std::multiset<std::pair<std::string, std::string>> want, have;
  for (auto& x : rows(r.in)) for (auto& y : rows(s.in)) if (x[0] == y[0]) want.insert({x, y});
  if (r.out.size() != s.out.size()) return false;
  for (size_t i = 1; i < r.out.size(); i++) have.insert({r.out[i], s.out[i]});
  return want == have;
}
'''
HEAD = HEAD.replace("#include <thread>", "#include <set>\n#include <thread>", 1)
K = dict(flags="-I$T/shims/atomic", inputs="param spin_yield=1\nparam hash_table=1\n", support=("shims/sys_sort.cpp", "shims/rr22_ideal_oprf.cpp"), protos=PR, threads=True)
MK = HEAD + r'''
int main() {
  T r{"id,v\na,1\nb,2\nc,3\nd,4\n"}, s{"id,v\na,5\na,6\nb,7\nc,8\ne,9\n"};
  task<kkrt::KkrtPsiReceiver, kkrt::KkrtPsiSender>(r, s, v2::PROTOCOL_KKRT);
  if (!joined(r, s)) return 1;
  T r2{"id,v\na,1\nb,2\nc,3\n"}, s2{"id,v\na,5\nb,7\nc,8\nc,9\n"};
  task<kkrt::KkrtPsiReceiver, kkrt::KkrtPsiSender>(r2, s2, v2::PROTOCOL_KKRT);
  return !joined(r2, s2);
}
'''
seed("kkrt-dup-perm", "P09", [("psi/algorithm/kkrt/kkrt_psi.cc", "        batch.duplicate_item_cnt[j] = items[input_idx].cnt;", "        batch.duplicate_item_cnt[input_idx] = items[input_idx].cnt;")],
  SRC, MK, "the sender's repetition counts travel under the positions before the shuffle", "a key that the sender holds more than once, at a position the shuffle moves", **K)
ALL = HEAD + r'''
int main() {
  T r{"id,v\nb,1\nc,2\na,3\na,4\n"}, s{"id,v\na,5\nb,7\nc,8\n"};
  task<kkrt::KkrtPsiReceiver, kkrt::KkrtPsiSender>(r, s, v2::PROTOCOL_KKRT);
  if (!joined(r, s)) return 1;
  T r2{"id,v\nb,1\nb,2\na,3\n"}, s2{"id,v\na,5\nb,7\n"};
  task<kkrt::KkrtPsiReceiver, kkrt::KkrtPsiSender>(r2, s2, v2::PROTOCOL_KKRT);
  return !joined(r2, s2);
}
'''
seed("bucket-all-common", "P09", [("psi/utils/bucket.cc", """      for (const auto& item : bucket_items_list) {
        writer->WriteCache(item.index, peer_result[item.base64_data]);
      }""", """      for (size_t i = 0; i != bucket_items_list.size(); ++i) {
        writer->WriteCache(bucket_items_list[i].index, duplicate_item_cnt[i]);
      }""")],
  SRC, ALL, "when all of a bucket's items are common, the peer's counts are taken by position instead of by key", "every sender item in the intersection, a key repeated on the receiver's side, and a result order different from the sender's", **K)
RC = HEAD + r'''
int main() {
  T r{"id,v\na,1\na,2\nb,3\nc,4\nd,5\ne,6\n"}, s{"id,v\na,5\nb,7\nb,8\nb,9\nc,6\nc,7\nd,8\nf,9\n"};
  task<rr22::Rr22PsiReceiver, rr22::Rr22PsiSender>(r, s, v2::PROTOCOL_RR22);
  return !joined(r, s);
}
'''
seed("rr22-chunk-count", "P09", [("psi/algorithm/rr22/rr22_utils.cc", "            tmp_peer_cnt.push_back(peer_item_cnt_map[j]);", "            tmp_peer_cnt.push_back(peer_item_cnt_map[j - begin]);")],
  SRC, RC, "each worker reads the peer's repetition counts relative to its own chunk", "more than one chunk of work and keys the sender holds more than once", **K)
