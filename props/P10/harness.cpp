#include "task.h"
#include <thread>
#define final  // the check derives from the parties to set the batch size
#include "psi/algorithm/kkrt/receiver.h"
#include "psi/algorithm/kkrt/sender.h"
#include "psi/algorithm/rr22/receiver.h"
#include "psi/algorithm/rr22/sender.h"
#undef final
#include "yacl/link/test_util.h"
struct Trouble {
  int party = -1;      // who is interrupted
  bool disk = false;   // crash at a change on disk, or loss of the link at a message
  int left = 0;        // interruptions still to come
  bool crashed = false;
};
// one attempt of both parties; true if both finished
template <class A, class B> static bool attempt(Side& R, Side& S, int jt, bool bc, v2::Protocol proto, Trouble& t) {
  auto w = yacl::link::test::SetupWorld(2);
  t.crashed = false;
  std::string mine = t.party == 0 ? "/tmp/r/" : "/tmp/s/";
  auto& fs = symio::Fs::I();
  std::map<std::string, std::string> disk;  // what the crash leaves of the party's files
  std::vector<std::string> dirs;
  auto hit = [&] {
    t.crashed = true;
    t.left--;
    w[t.party]->kill();
  };
  if (t.left && t.disk)
    fs.hook = [&](const char* op, const std::string& p) {
      // a file that is created empty makes no difference
      if (t.crashed || p.compare(0, mine.size(), mine) != 0 || op[0] == 'c' || op[0] == 'm' || !choose(2, "crash here")) return true;
      for (auto& kv : fs.files)
        if (kv.first.compare(0, mine.size(), mine) == 0) { if (kv.second->dir) dirs.push_back(kv.first); else disk[kv.first] = kv.second->data; }
      hit();
      return true;
    };
  w[0]->world().onSend = [&](const std::string&, size_t from, size_t, const std::string&) {
    if ((int)from != t.party) return;
    if (t.left && !t.disk && !t.crashed && choose(2, "lose the link here")) hit();
    if (t.crashed) throw yacl::NetworkError("link down");
  };
  bool ok[2] = {};
  auto go = [&](int p) {
    try {
      v2::PsiConfig c = config(p ? S : R, p == 0, jt, bc, true, false, proto);
      c.mutable_recovery_config()->set_enabled(true);
      c.mutable_recovery_config()->set_folder(p ? "/tmp/s/rec" : "/tmp/r/rec");
      if (p == 0) { Party<A> x(c, w[0]); R.rep = x.Run(); }
      else { Party<B> x(c, w[1]); S.rep = x.Run(); }
      ok[p] = true;
    } catch (const std::exception& e) {
      (p ? S : R).err = e.what();
      if (t.crashed) w[p]->kill();
      else sym_fail(("an attempt that nothing interrupts fails: " + (p ? S : R).err).c_str());
    }
  };
  std::thread t0(go, 0), t1(go, 1);
  t0.join();
  t1.join();
  fs.hook = nullptr;
  if (t.crashed && t.disk) {
    for (auto it = fs.files.begin(); it != fs.files.end();) it = it->first.compare(0, mine.size(), mine) == 0 ? fs.files.erase(it) : std::next(it);
    for (auto& d : dirs) std::filesystem::create_directories(d);
    for (auto& kv : disk) { std::ofstream f(kv.first); f << kv.second; }
  }
  return ok[0] && ok[1] && !t.crashed;
}

extern "C" int h_resume() {
  Side R, S;
  bool kkrt = sym_param("kkrt", 1);
  int jt = sym_param("jt", 1);
  bool bc = sym_param("bc", 1);
  mkInput(R, sym_param("nr", 3), "r", "/tmp/r");
  mkInput(S, sym_param("ns", 3), "s", "/tmp/s");
  Trouble t;
  t.party = sym_param("party", 0);
  t.disk = sym_param("disk", 1);
  t.left = sym_param("times", 1);
  for (int i = 0; i <= sym_param("times", 1); i++)
    if (kkrt ? attempt<kkrt::KkrtPsiReceiver, kkrt::KkrtPsiSender>(R, S, jt, bc, v2::PROTOCOL_KKRT, t)
             : attempt<rr22::Rr22PsiReceiver, rr22::Rr22PsiSender>(R, S, jt, bc, v2::PROTOCOL_RR22, t)) break;
  check(R, S, jt, bc, true);
  sym_reach("end");
  return 0;
}
