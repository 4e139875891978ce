#include <filesystem>
#include <fstream>
#include <thread>
#include "psi/algorithm/ecdh/receiver.h"
#include "psi/algorithm/ecdh/sender.h"
#include "sym.h"
#include "symio.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct Side {
  size_t n = 0;
  std::vector<std::string> key;  // symbolic letters; with two key columns, the first is id1 and the rest id2
  bool uniq = false, keyLast = false;
  std::string in, out;
  PsiResultReport rep;
  std::string err;
};
static bool two() { return sym_param("cols", 1) == 2; }
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
// the line of an input row: id,v or v,id; with two key columns id1,v,id2 or v,id2,id1
static std::string lineOf(const Side& s, size_t i) {
  std::string v = std::string(1, s.in[7]) + (char)('0' + (s.keyLast ? s.n - 1 - i : i));
  if (two()) {
    std::string a = s.key[i].substr(0, 1), b = s.key[i].substr(1);
    return s.keyLast ? v + "," + b + "," + a : a + "," + v + "," + b;
  }
  return s.keyLast ? v + "," + s.key[i] : s.key[i] + "," + v;
}
static std::string keyOf(const char* nm, size_t i) { return std::string(1, (nm[0] == 'r' ? "bab" : "cbb")[i]); }
static void mkInput(Side& s, size_t n, const char* nm, const std::string& dir) {
  s.n = n;
  s.in = dir + "/" + nm + ".csv";
  s.out = dir + "/" + nm + ".out.csv";
  std::filesystem::create_directories(dir);
  std::ofstream f(s.in);
  if (two()) f << (s.keyLast ? "v,id2,id1\n" : "id1,v,id2\n");
  else f << (s.keyLast ? "v,id\n" : "id,v\n");
  size_t klen = sym_param("klen", 1);
  for (size_t i = 0; i < n; i++) {
    std::string k = i >= (size_t)sym_param("free", 0) ? keyOf(nm, i) : symStr(two() ? 2 : klen == 2 ? 1 + choose(2, "key length") : klen, nm);
    for (char& c : k) sym_assume((c >= 'a') & (c <= 'a' + (char)sym_param("last letter", 25)));
    if (nm[0] == 's' && sym_param("fixed", 0)) k = "aa";
    if (s.uniq) for (auto& o : s.key) sym_assume(!same(o, k));
    s.key.push_back(k);
    f << lineOf(s, i) << '\n';
  }
}
// output rows: index of the input row, or -1 for a padding row
static std::vector<int> rows(const Side& s) {
  std::vector<int> r;
  std::ifstream f(s.out);
  std::string l;
  CHECK_THAT(!!std::getline(f, l) && l == (two() ? s.keyLast ? "\"v\",\"id2\",\"id1\"" : "\"id1\",\"v\",\"id2\"" : s.keyLast ? "\"v\",\"id\"" : "\"id\",\"v\""), "the output starts with the input's header");
  while (std::getline(f, l)) {
    if (l == (two() ? "NULL,NULL,NULL" : "NULL,NULL")) { r.push_back(-1); continue; }
    int i = -1;
    for (size_t k = 0; k < s.n; k++)
      if (same(l, lineOf(s, k))) i = k;  // the lines of one side differ in v
    CHECK_THAT(i >= 0, "an output line is an input row");
    r.push_back(i);
  }
  return r;
}
static int keysPerBatch = 0;
// the real parties; only the number of keys per batch (4096 in the code) is set by the check
template <class B>
struct Party : B {
  using B::B;
  void Init() override {
    B::Init();
    if (int n = keysPerBatch) this->batch_provider_ = this->keys_info_->GetKeysProviderWithDupCnt(n);
  }
};
static v2::PsiConfig config(const Side& s, bool receiver, int jt, bool bc, bool left, bool digest) {
  v2::PsiConfig c;
  c.mutable_protocol_config()->set_protocol(v2::PROTOCOL_ECDH);
  c.mutable_protocol_config()->set_role(receiver ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  c.mutable_protocol_config()->set_broadcast_result(bc);
  c.mutable_protocol_config()->mutable_ecdh_config()->set_curve(CURVE_25519);
  c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(s.in);
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(s.out);
  if (two()) {
    bool fwd = sym_param("fwd", 0);
    c.add_keys(fwd ? "id1" : "id2");
    c.add_keys(fwd ? "id2" : "id1");
  }
  else c.add_keys("id");
  c.mutable_input_attr()->set_keys_unique(s.uniq);
  c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)jt);
  if (jt > 1) c.set_left_side(left ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  c.set_check_hash_digest(digest);
  c.mutable_recovery_config()->set_enabled(true);
  c.mutable_recovery_config()->set_folder(s.in.substr(0, 7) + "rec");
  return c;
}
static bool eq(const Side& a, size_t i, const Side& b, size_t j) { return same(a.key[i], b.key[j]); }
static void check(Side& R, Side& S, int jt, bool bc, bool recvLeft) {
  // reports
  Side* sd[2] = {&R, &S};
  for (int p = 0; p < 2; p++) {
    Side &me = *sd[p], &you = *sd[1 - p];
    int64_t keys = 0, inter = 0, interKeys = 0;
    for (size_t i = 0; i < me.n; i++) {
      bool first = true, hit = false;
      for (size_t j = 0; j < i; j++) first = first & !eq(me, i, me, j);
      for (size_t j = 0; j < you.n; j++) hit = hit | eq(me, i, you, j);
      keys += first;
      inter += hit;
      interKeys += first & hit;
    }
    CHECK_THAT(me.rep.original_count() == (int64_t)me.n, "the report gives the number of input rows");
    CHECK_THAT(me.rep.original_key_count() == keys, "the report gives the number of different keys");
    if (p == 0 || bc) {
      CHECK_THAT(me.rep.intersection_count() == inter, "the report gives the number of rows in the intersection");
      CHECK_THAT(me.rep.intersection_key_count() == interKeys, "the report gives the number of common keys");
    } else {
      CHECK_THAT(me.rep.intersection_count() == -1, "a party without the result reports -1");
      CHECK_THAT(!std::filesystem::exists(me.out), "a party without the result gets no output file");
    }
  }
  bool hasInter = jt != 5;
  bool exceptR = jt == 4 || jt == 5 || (jt == 2 && recvLeft) || (jt == 3 && !recvLeft);
  bool exceptS = jt == 4 || jt == 5 || (jt == 2 && !recvLeft) || (jt == 3 && recvLeft);
  auto r = rows(R);
  if (!bc) {
    // multiset of the receiver's rows
    for (size_t i = 0; i < R.n; i++) {
      size_t want = 0, have = 0;
      for (size_t j = 0; j < S.n; j++) want += eq(R, i, S, j);
      bool none = want == 0;
      if (!hasInter) want = 0;
      if (exceptR) want += none;
      for (int x : r) have += x == (int)i;
      CHECK_THAT(have == want, "the receiver's table holds every row as often as the join says");
    }
    return;
  }
  auto s = rows(S);
  CHECK_THAT(r.size() == s.size(), "the two parties' tables have the same number of lines");
  for (size_t i = 0; i < R.n; i++)
    for (size_t j = 0; j < S.n; j++) {
      size_t have = 0;
      for (size_t t = 0; t < r.size(); t++) have += (r[t] == (int)i) & (s[t] == (int)j);
      CHECK_THAT(have == (size_t)(hasInter & eq(R, i, S, j)), "line by line the two tables form the join: each matching pair of rows once, no other pair");
    }
  for (size_t i = 0; i < R.n; i++) {
    size_t have = 0;
    bool none = true;
    for (size_t t = 0; t < r.size(); t++) have += (r[t] == (int)i) & (s[t] == -1);
    for (size_t j = 0; j < S.n; j++) none = none & !eq(R, i, S, j);
    CHECK_THAT(have == (size_t)(none & exceptR), "unmatched receiver rows appear once against padding exactly when the join keeps them");
  }
  for (size_t j = 0; j < S.n; j++) {
    size_t have = 0;
    bool none = true;
    for (size_t t = 0; t < r.size(); t++) have += (r[t] == -1) & (s[t] == (int)j);
    for (size_t i = 0; i < R.n; i++) none = none & !eq(R, i, S, j);
    CHECK_THAT(have == (size_t)(none & exceptS), "unmatched sender rows appear once against padding exactly when the join keeps them");
  }
  for (size_t t = 0; t < r.size(); t++) CHECK_THAT(r[t] != -1 || s[t] != -1, "no line is padding on both sides");
}

struct Trouble {
  int party = -1;      // who is interrupted
  bool disk = false;   // crash at a change on disk, or loss of the link at a message
  int left = 0;        // interruptions still to come
  bool crashed = false;
};
// one attempt of both parties; true if both finished
static bool attempt(Side& R, Side& S, int jt, bool bc, bool left, bool digest, Trouble& t) {
  auto w = yacl::link::test::SetupWorld(2);
  t.crashed = false;
  std::string mine = t.party == 0 ? "/tmp/r/" : "/tmp/s/";
  auto& fs = symio::Fs::I();
  std::map<std::string, std::string> disk;  // what the crash leaves of the party's files
  std::vector<std::string> dirs;
  auto hit = [&] {
    t.crashed = true;
    t.left--;
    w[t.party]->kill();
  };
  if (t.left && t.disk)
    fs.hook = [&](const char* op, const std::string& p) {
      // a file that is created empty makes no difference
      if (t.crashed || p.compare(0, mine.size(), mine) != 0 || op[0] == 'c' || op[0] == 'm' || !choose(2, "crash here")) return true;
      for (auto& kv : fs.files)
        if (kv.first.compare(0, mine.size(), mine) == 0) { if (kv.second->dir) dirs.push_back(kv.first); else disk[kv.first] = kv.second->data; }
      hit();
      return true;
    };
  w[0]->world().onSend = [&](const std::string&, size_t from, size_t, const std::string&) {
    if ((int)from != t.party) return;
    if (t.left && !t.disk && !t.crashed && choose(2, "lose the link here")) hit();
    if (t.crashed) throw yacl::NetworkError("link down");
  };
  bool ok[2] = {};
  auto go = [&](int p) {
    try {
      if (p == 0) { Party<ecdh::EcdhPsiReceiver> x(config(R, true, jt, bc, left, digest), w[0]); R.rep = x.Run(); }
      else { Party<ecdh::EcdhPsiSender> x(config(S, false, jt, bc, left, digest), w[1]); S.rep = x.Run(); }
      ok[p] = true;
    } catch (const std::exception& e) {
      (p ? S : R).err = e.what();
      if (t.crashed) w[p]->kill();
      else sym_fail(("an attempt that nothing interrupts fails: " + (p ? S : R).err).c_str());
    }
  };
  std::thread t0(go, 0), t1(go, 1);
  t0.join();
  t1.join();
  fs.hook = nullptr;
  if (t.crashed && t.disk) {
    for (auto it = fs.files.begin(); it != fs.files.end();) it = it->first.compare(0, mine.size(), mine) == 0 ? fs.files.erase(it) : std::next(it);
    for (auto& d : dirs) std::filesystem::create_directories(d);
    for (auto& kv : disk) { std::ofstream f(kv.first); f << kv.second; }
  }
  return ok[0] && ok[1] && !t.crashed;
}
extern "C" int h_resume() {
  Side R, S;
  int jt = sym_param("jt", 1);
  bool bc = sym_param("bc", 1);
  R.uniq = sym_param("uniq", 0) & 1;
  S.uniq = sym_param("uniq", 0) & 2;
  mkInput(R, sym_param("nr", 2), "r", "/tmp/r");
  mkInput(S, sym_param("ns", 2), "s", "/tmp/s");
  Trouble t;
  t.party = sym_param("party", 0);
  t.disk = sym_param("disk", 1);
  t.left = sym_param("times", 1);
  for (int i = 0; i <= sym_param("times", 1); i++)
    if (keysPerBatch = sym_param(i ? "batch2" : "batch", 1), attempt(R, S, jt, bc, true, false, t)) break;
  check(R, S, jt, bc, true);
  sym_reach("end");
  return 0;
}
