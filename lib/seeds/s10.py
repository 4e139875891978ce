import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P10/spec.py").read(), ns)
SRC, PR = ns["SPEC"]["sources"], ns["SPEC"]["protos"]
HEAD = r'''
#include <atomic>
#include <cstdio>
#include <map>
#include <filesystem>
#include <fstream>
#include <thread>
#include "psi/algorithm/kkrt/receiver.h"
#include "psi/algorithm/kkrt/sender.h"
#include "psi/algorithm/rr22/receiver.h"
#include "psi/algorithm/rr22/sender.h"
#include "symio.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct T { std::string in; std::vector<std::string> out; };
static bool kkrt_ = true;
// one attempt; party `who` crashes at its n-th change on disk (or loses its link at its n-th message)
static bool attempt(T& r, T& s, int who, bool diskCrash, int n) {
  auto w = yacl::link::test::SetupWorld(2);
  auto& fs = symio::Fs::I();
  bool crashed = false;
  std::string mine = who == 0 ? "/tmp/r/" : "/tmp/s/";
  std::map<std::string, std::string> disk;
  std::vector<std::string> dirs;
  std::atomic<int> count{0};
  if (diskCrash) fs.hook = [&](const char* op, const std::string& p) {
    if (crashed || p.compare(0, 7, mine) != 0 || op[0] == 'c' || op[0] == 'm' || count++ != n) return true;
    for (auto& kv : fs.files) if (kv.first.compare(0, 7, mine) == 0) { if (kv.second->dir) dirs.push_back(kv.first); else disk[kv.first] = kv.second->data; }
    crashed = true;
    w[who]->kill();
    return true;
  };
  w[0]->world().onSend = [&](const std::string&, size_t from, size_t, const std::string&) {
    if ((int)from != who) return;
    if (!diskCrash && count++ == n) { crashed = true; w[who]->kill(); }
    if (crashed) throw yacl::NetworkError("link down");
  };
  bool ok[2] = {};
  auto side = [&](T& t, bool recv) {
    std::string p = recv ? "/tmp/r/" : "/tmp/s/";
    v2::PsiConfig c;
    c.mutable_protocol_config()->set_protocol(kkrt_ ? v2::PROTOCOL_KKRT : v2::PROTOCOL_RR22);
    c.mutable_protocol_config()->mutable_kkrt_config()->set_bucket_size(2);
    c.mutable_protocol_config()->mutable_rr22_config()->set_bucket_size(2);
    c.mutable_protocol_config()->set_role(recv ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
    c.mutable_protocol_config()->set_broadcast_result(true);
    c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_input_config()->set_path(p + "in.csv");
    c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_output_config()->set_path(p + "out.csv");
    c.mutable_recovery_config()->set_enabled(true);
    c.mutable_recovery_config()->set_folder(p + "rec");
    c.add_keys("id");
    c.set_advanced_join_type(v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN);
    try {
      if (kkrt_ && recv) { kkrt::KkrtPsiReceiver q(c, w[0]); q.Run(); }
      else if (kkrt_) { kkrt::KkrtPsiSender q(c, w[1]); q.Run(); }
      else if (recv) { rr22::Rr22PsiReceiver q(c, w[0]); q.Run(); }
      else { rr22::Rr22PsiSender q(c, w[1]); q.Run(); }
      ok[!recv] = true;
    } catch (const std::exception& e) { if (!crashed) printf("%s\n", e.what()); w[!recv]->kill(); }
  };
  std::thread a([&] { side(r, true); }), b([&] { side(s, false); });
  a.join(); b.join();
  fs.hook = nullptr;
  if (crashed && diskCrash) {
    for (auto it = fs.files.begin(); it != fs.files.end();) it = it->first.compare(0, 7, mine) == 0 ? fs.files.erase(it) : std::next(it);
    for (auto& d : dirs) std::filesystem::create_directories(d);
    for (auto& kv : disk) { std::ofstream f(kv.first); f << kv.second; }
  }
  return ok[0] && ok[1] && !crashed;
}
static std::string read(const std::string& f) { std::ifstream i(f); std::string l, o; while (std::getline(i, l)) o += l + ";"; return o; }
int main() {
  int bad = 0, total = 0;
  for (int k = 0; k < 2; k++) for (int disk = 0; disk < 2; disk++)
    for (int who = 0; who < 2; who++)
      for (int n = 0; n < 400; n++) {
        kkrt_ = k;
        symio::Fs::I().files.clear();
        T r{"id,v\na,1\nb,2\nc,3\nd,4\n"}, s{"id,v\nb,5\nd,6\ne,7\nf,8\n"};
        std::filesystem::create_directories("/tmp/r"); std::filesystem::create_directories("/tmp/s");
        { std::ofstream f("/tmp/r/in.csv"); f << r.in; }
        { std::ofstream f("/tmp/s/in.csv"); f << s.in; }
        bool done = attempt(r, s, who, disk, n);
        if (!done && !attempt(r, s, -1, false, -1)) { bad++; total++; continue; }
        total++;
        bad += read("/tmp/r/out.csv") != "\"id\",\"v\";b,2;d,4;" || read("/tmp/s/out.csv") != "\"id\",\"v\";b,5;d,6;";
        if (done) break;  // the attempt ended before its n-th event
      }
  printf("%d of %d interruptions recovered wrongly\n", bad, total);
  return bad != 0;
}
'''

K = dict(flags="-I$T/shims/atomic", inputs="param spin_yield=1\nparam hash_table=1\n", support=("shims/sys_sort.cpp", "shims/rr22_ideal_oprf.cpp"), protos=PR, threads=True)
seed("bucket-count-early", "P10", [("psi/algorithm/rr22/receiver.cc", """        intersection_indices_writer_->Commit();
        if (recovery_manager_) {
          recovery_manager_->UpdateParsedBucketCount(bucket_idx + 1);
        }
""", """        if (recovery_manager_) {
          recovery_manager_->UpdateParsedBucketCount(bucket_idx + 1);
        }
        intersection_indices_writer_->Commit();
""")], SRC, HEAD, "a bucket counts as finished before its indices are on disk", "a crash between the two writes", **K)
seed("bucket-own-count", "P10", [("psi/algorithm/kkrt/sender.cc", """          ? std::min(recovery_manager_->parsed_bucket_count_from_peer(),
                     recovery_manager_->checkpoint().parsed_bucket_count())""", """          ? recovery_manager_->checkpoint().parsed_bucket_count()""")], SRC, HEAD,
  "the resumed sender goes on at its own bucket count, whatever the receiver's is", "an interruption after one party finished a bucket and before the other did", **K)
# resume-any-finished (||  in MarkOnlineStart) was tried: a party past the online stage implies the other is too
