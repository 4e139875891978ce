import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P08/spec.py").read(), ns)
SRC, PR = ns["SPEC"]["sources"], ns["SPEC"]["protos"]
HEAD = r'''
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <map>
#include <thread>
#include "psi/algorithm/ecdh/receiver.h"
#include "psi/algorithm/ecdh/sender.h"
#include "psi/algorithm/ecdh/ecdh_psi.h"
#include "psi/utils/communication.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct M { std::string ctx; size_t from; std::string data; };
// all messages of a task whose result is for the receiver only
static std::vector<M> task(const std::string& a, const std::string& b) {
  std::filesystem::create_directories("/tmp/demo");
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<M> log;
  w[0]->world().onSend = [&](const std::string& ctx, size_t from, size_t, const std::string& d) { log.push_back({ctx, from, d}); };
  auto side = [&](const std::string& in, bool recv) {
    std::string p = recv ? "/tmp/demo/r" : "/tmp/demo/s";
    v2::PsiConfig c;
    c.mutable_protocol_config()->set_protocol(v2::PROTOCOL_ECDH);
    c.mutable_protocol_config()->set_role(recv ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
    c.mutable_protocol_config()->mutable_ecdh_config()->set_curve(CURVE_25519);
    c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_input_config()->set_path(p + ".csv");
    c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_output_config()->set_path(p + ".out.csv");
    c.add_keys("id");
    c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)1);
    { std::ofstream f(p + ".csv"); f << in; }
    if (recv) { ecdh::EcdhPsiReceiver q(c, w[0]); q.Run(); }
    else { ecdh::EcdhPsiSender q(c, w[1]); q.Run(); }
  };
  std::thread x([&] { side(a, true); }), y([&] { side(b, false); });
  x.join(); y.join();
  return log;
}
static bool batch(const M& m, PsiDataBatch& b) {
  if (m.ctx.size() > 2 && m.ctx.substr(m.ctx.size() - 2) == "#c") return false;
  try { b = PsiDataBatch::Deserialize(yacl::Buffer(m.data.data(), m.data.size())); return b.Serialize().size() == (int64_t)m.data.size(); } catch (...) { return false; }
}
'''
DUP = HEAD + r'''
int main() {  // the sender has no right to the result and must not learn which keys are repeated
  int bad = 0;
  for (auto& m : task("id,v\na,1\na,2\nb,3\n", "id,v\na,4\nc,5\n")) {
    PsiDataBatch b;
    if (m.from == 0 && batch(m, b) && !b.duplicate_item_cnt.empty()) bad++;
  }
  printf("%d messages with duplicate counts to the sender\n", bad);
  return bad != 0;
}
'''
DUAL = HEAD + r'''
int main() {  // twice-masked points of the sender's items may not go back to it
  int bad = 0;
  for (auto& m : task("id,v\na,1\nb,3\n", "id,v\na,4\nc,5\n")) {
    PsiDataBatch b;
    if (m.from == 0 && batch(m, b) && b.item_num && b.flatten_bytes.size() / b.item_num != 32) bad++;
  }
  printf("%d batches of twice-masked points to the sender\n", bad);
  return bad != 0;
}
'''
FLAG = HEAD + r'''
int main() {  // what the sender is sent outside the masked points does not depend on the receiver's rows
  auto a = task("id,v\na,1\nb,3\n", "id,v\na,4\nc,5\n"), b = task("id,v\na,1\na,2\nb,3\n", "id,v\na,4\nc,5\n");
  std::map<std::string, std::vector<std::string>> x, y;
  for (auto& m : a) if (m.from == 0 && m.ctx.size() > 2 && m.ctx.substr(m.ctx.size() - 2) == "#c") x[m.ctx].push_back(m.data);
  for (auto& m : b) if (m.from == 0 && m.ctx.size() > 2 && m.ctx.substr(m.ctx.size() - 2) == "#c") y[m.ctx].push_back(m.data);
  return x != y;
}
'''
F = "psi/algorithm/ecdh/ecdh_psi.cc"
K = dict(support=("shims/psi_cryptor.cpp", "shims/sys_sort.cpp"), protos=PR, threads=True)
seed("wire-dup-leak", "P08", [(F, "    if (PeerCanTouchResults()) {\n      if (!duplicate_item_cnt.empty()) {", "    if (SelfCanTouchResults() || PeerCanTouchResults()) {\n      if (!duplicate_item_cnt.empty()) {")],
  SRC, DUP, "the receiver tells a sender without the result which keys it holds more than once", "a one-sided result and repeated keys on the side that gets it", **K)
seed("wire-dual-last", "P08", [(F, "    // Should send out the dual masked items to peer.\n    if (PeerCanTouchResults()) {", "    // Should send out the dual masked items to peer.\n    if (PeerCanTouchResults() || (batch_count == 0 && !peer_items.empty())) {")],
  SRC, DUAL, "the first batch of twice-masked points goes to a party without the result", "a one-sided result; nobody receives the message, so the task is as before", **K)
seed("wire-flag", "P08", [("psi/interface.cc", "  if (config_.check_hash_digest()) {\n    auto unique_flag = AllGatherFlag(lctx_, keys_info_->DupKeyCnt() == 0);\n", "  auto unique_flag = AllGatherFlag(lctx_, keys_info_->DupKeyCnt() == 0);\n  if (config_.check_hash_digest()) {\n")],
  SRC, FLAG, "both parties always learn whether the other's table has repeated keys", "a task without the digest shortcut; the result does not change", **K)
