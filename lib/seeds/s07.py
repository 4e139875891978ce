import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P07/spec.py").read(), ns)
SRC, PR = ns["SPEC"]["sources"], ns["SPEC"]["protos"]
HEAD = r'''
#include <atomic>
#include <cstdio>
#include <map>
#include <filesystem>
#include <fstream>
#include <thread>
#include "psi/algorithm/ecdh/receiver.h"
#include "psi/algorithm/ecdh/sender.h"
#include "symio.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct T { std::string in; std::vector<std::string> out; };
static int keys = 0;
template <class B> struct Party : B {
  using B::B;
  void Init() override { B::Init(); this->batch_provider_ = this->keys_info_->GetKeysProviderWithDupCnt(keys); }
};
// one attempt; party `who` crashes at its n-th change on disk (or loses its link at its n-th message)
static bool attempt(T& r, T& s, int who, bool diskCrash, int n) {
  auto w = yacl::link::test::SetupWorld(2);
  auto& fs = symio::Fs::I();
  bool crashed = false;
  std::string mine = who == 0 ? "/tmp/r/" : "/tmp/s/";
  std::map<std::string, std::string> disk;
  std::vector<std::string> dirs;
  std::atomic<int> count{0};
  if (diskCrash) fs.hook = [&](const char* op, const std::string& p) {
    if (crashed || p.compare(0, 7, mine) != 0 || op[0] == 'c' || op[0] == 'm' || count++ != n) return true;
    for (auto& kv : fs.files) if (kv.first.compare(0, 7, mine) == 0) { if (kv.second->dir) dirs.push_back(kv.first); else disk[kv.first] = kv.second->data; }
    crashed = true;
    w[who]->kill();
    return true;
  };
  w[0]->world().onSend = [&](const std::string&, size_t from, size_t, const std::string&) {
    if ((int)from != who) return;
    if (!diskCrash && count++ == n) { crashed = true; w[who]->kill(); }
    if (crashed) throw yacl::NetworkError("link down");
  };
  bool ok[2] = {};
  auto side = [&](T& t, bool recv) {
    std::string p = recv ? "/tmp/r/" : "/tmp/s/";
    v2::PsiConfig c;
    c.mutable_protocol_config()->set_protocol(v2::PROTOCOL_ECDH);
    c.mutable_protocol_config()->set_role(recv ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
    c.mutable_protocol_config()->set_broadcast_result(true);
    c.mutable_protocol_config()->mutable_ecdh_config()->set_curve(CURVE_25519);
    c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_input_config()->set_path(p + "in.csv");
    c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_output_config()->set_path(p + "out.csv");
    c.mutable_recovery_config()->set_enabled(true);
    c.mutable_recovery_config()->set_folder(p + "rec");
    c.add_keys("id");
    c.set_advanced_join_type(v2::PsiConfig::ADVANCED_JOIN_TYPE_INNER_JOIN);
    try {
      if (recv) { Party<ecdh::EcdhPsiReceiver> q(c, w[0]); q.Run(); }
      else { Party<ecdh::EcdhPsiSender> q(c, w[1]); q.Run(); }
      ok[!recv] = true;
    } catch (const std::exception& e) { if (!crashed) printf("%s\n", e.what()); w[!recv]->kill(); }
  };
  std::thread a([&] { side(r, true); }), b([&] { side(s, false); });
  a.join(); b.join();
  fs.hook = nullptr;
  if (crashed && diskCrash) {
    for (auto it = fs.files.begin(); it != fs.files.end();) it = it->first.compare(0, 7, mine) == 0 ? fs.files.erase(it) : std::next(it);
    for (auto& d : dirs) std::filesystem::create_directories(d);
    for (auto& kv : disk) { std::ofstream f(kv.first); f << kv.second; }
  }
  return ok[0] && ok[1] && !crashed;
}
static std::string read(const std::string& f) { std::ifstream i(f); std::string l, o; while (std::getline(i, l)) o += l + ";"; return o; }
int main() {
  int bad = 0, total = 0;
  for (int disk = 0; disk < 2; disk++)
    for (int who = 0; who < 2; who++)
      for (int n = 0; n < 400; n++) {
        symio::Fs::I().files.clear();
        T r{"id,v\na,1\nb,2\nc,3\nd,4\n"}, s{"id,v\nb,5\nd,6\ne,7\nf,8\n"};
        std::filesystem::create_directories("/tmp/r"); std::filesystem::create_directories("/tmp/s");
        { std::ofstream f("/tmp/r/in.csv"); f << r.in; }
        { std::ofstream f("/tmp/s/in.csv"); f << s.in; }
        keys = 1;
        bool done = attempt(r, s, who, disk, n);
        if (!done && !attempt(r, s, -1, false, -1)) { bad++; total++; continue; }
        total++;
        bad += read("/tmp/r/out.csv") != "\"id\",\"v\";b,2;d,4;" || read("/tmp/s/out.csv") != "\"id\",\"v\";b,5;d,6;";
        if (done) break;  // the attempt ended before its n-th event
      }
  printf("%d of %d interruptions recovered wrongly\n", bad, total);
  return bad != 0;
}
'''

ONE = HEAD.replace("set_broadcast_result(true)", "set_broadcast_result(false)").replace('|| read("/tmp/s/out.csv") != ', '|| false && read("/tmp/s/out.csv") != ')
K = dict(support=("shims/psi_cryptor.cpp", "shims/sys_sort.cpp"), protos=PR, threads=True)
seed("resume-flush-order", "P07", [("psi/algorithm/ecdh/ecdh_psi.cc", """          peer_ec_point_store->Flush();
          options_.recovery_manager->UpdateEcdhDualMaskedItemPeerCount(
              peer_ec_point_store->ItemCount());
""", """          options_.recovery_manager->UpdateEcdhDualMaskedItemPeerCount(
              peer_ec_point_store->ItemCount());
          peer_ec_point_store->Flush();
""")], SRC, ONE, "the count of stored peer items reaches the checkpoint before the items reach the disk", "a result for the receiver only and a crash between the two writes", **K)
seed("resume-max", "P07", [("psi/algorithm/ecdh/ecdh_psi.cc", """          std::min(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),""", """          std::max(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),""")],
  SRC, HEAD, "a resumed party goes on from the peer's count even if it did not get that many items back itself", "an interruption after the peer stored a batch and before the own side got it back", **K)
seed("resume-key-order", "P07", [("psi/checkpoint/recovery.cc", """      // save private key
      auto private_key_output =
          io::BuildOutputStream(io::FileIoOptions(private_key_file_path_));
      private_key_output->Write(cryptor->GetPrivateKey().data(), kEccKeySize);
      private_key_output->Flush();

      // save checkpoint file
      SaveCheckpointFile();
""", """      // save checkpoint file
      SaveCheckpointFile();

      // save private key
      auto private_key_output =
          io::BuildOutputStream(io::FileIoOptions(private_key_file_path_));
      private_key_output->Write(cryptor->GetPrivateKey().data(), kEccKeySize);
      private_key_output->Flush();
""")], SRC, HEAD, "the checkpoint says the private key is saved before it is", "a crash between the two writes", **K)
