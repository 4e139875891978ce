#include <filesystem>
#include <fstream>
#include <thread>
#include "psi/algorithm/ecdh/ecdh_psi.h"
#include "psi/algorithm/ecdh/receiver.h"
#include "psi/algorithm/ecdh/sender.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/utils/communication.h"
#include "psi/utils/ec_point_store.h"
#include "sym.h"
#include "symio.h"
#include "yacl/link/test_util.h"
using namespace psi;
using namespace psi::ecdh;
struct ListProvider : IBasicBatchProvider {
  std::vector<std::string> v;
  std::vector<uint32_t> dup;
  size_t bs, at = 0;
  size_t batch_size() const override { return bs; }
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> r;
    for (size_t i = 0; i < bs && at < v.size(); i++, at++) {
      r.first.push_back(v[at]);
      if (dup[at]) r.second[i] = dup[at];
    }
    return r;
  }
};
struct Side {
  size_t n = 0;
  std::vector<std::string> key;  // symbolic letters; with two key columns, the first is id1 and the rest id2
  bool uniq = false, keyLast = false;
  std::string in, out;
  PsiResultReport rep;
  std::string err;
};
static bool two() { return sym_param("cols", 1) == 2; }
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
// the line of an input row: id,v or v,id; with two key columns id1,v,id2 or v,id2,id1
static std::string lineOf(const Side& s, size_t i) {
  std::string v = std::string(1, s.in[7]) + (char)('0' + (s.keyLast ? s.n - 1 - i : i));
  if (two()) {
    std::string a = s.key[i].substr(0, 1), b = s.key[i].substr(1);
    return s.keyLast ? v + "," + b + "," + a : a + "," + v + "," + b;
  }
  return s.keyLast ? v + "," + s.key[i] : s.key[i] + "," + v;
}
static void mkInput(Side& s, size_t n, const char* nm, const std::string& dir) {
  s.n = n;
  s.in = dir + "/" + nm + ".csv";
  s.out = dir + "/" + nm + ".out.csv";
  std::filesystem::create_directories(dir);
  std::ofstream f(s.in);
  if (two()) f << (s.keyLast ? "v,id2,id1\n" : "id1,v,id2\n");
  else f << (s.keyLast ? "v,id\n" : "id,v\n");
  size_t klen = sym_param("klen", 1);
  for (size_t i = 0; i < n; i++) {
    std::string k = symStr(two() ? 2 : klen == 2 ? 1 + choose(2, "key length") : klen, nm);
    for (char& c : k) sym_assume((c >= 'a') & (c <= 'a' + (char)sym_param("last letter", 25)));
    if (nm[0] == 's' && sym_param("fixed", 0)) k = "aa";
    if (s.uniq) for (auto& o : s.key) sym_assume(!same(o, k));
    s.key.push_back(k);
    f << lineOf(s, i) << '\n';
  }
}
// the real parties; only the number of keys per batch (4096 in the code) is set by the check
template <class B>
struct Party : B {
  using B::B;
  void Init() override {
    B::Init();
    if (int n = sym_param("batch", 0)) this->batch_provider_ = this->keys_info_->GetKeysProviderWithDupCnt(n);
  }
};
static v2::PsiConfig config(const Side& s, bool receiver, int jt, bool bc, bool left, bool digest) {
  v2::PsiConfig c;
  c.mutable_protocol_config()->set_protocol(v2::PROTOCOL_ECDH);
  c.mutable_protocol_config()->set_role(receiver ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  c.mutable_protocol_config()->set_broadcast_result(bc);
  c.mutable_protocol_config()->mutable_ecdh_config()->set_curve(CURVE_25519);
  c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(s.in);
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(s.out);
  if (two()) {
    bool fwd = sym_param("fwd", 0);
    c.add_keys(fwd ? "id1" : "id2");
    c.add_keys(fwd ? "id2" : "id1");
  }
  else c.add_keys("id");
  c.mutable_input_attr()->set_keys_unique(s.uniq);
  c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)jt);
  if (jt > 1) c.set_left_side(left ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  c.set_check_hash_digest(digest);
  return c;
}

struct Msg { std::string ctx; size_t from; std::string data; };
static yacl::Buffer buf(const std::string& s) { return yacl::Buffer(s.data(), s.size()); }
static std::vector<std::string> enc(const std::shared_ptr<IEccCryptor>& c, const std::vector<std::string>& items, bool masked) {
  auto h = c->HashInputs(items);
  std::vector<std::string> r;
  for (auto& b : c->SerializeEcPoints(masked ? c->EccMask(h) : h)) r.emplace_back(b);
  return r;
}
// what a party sends while the protocol runs
extern "C" int h_wire() {
  size_t n[2] = {(size_t)sym_param("na", 2), (size_t)sym_param("nb", 2)};
  size_t batch = chooseRange(1, 2, "batch");
  unsigned t = choose(3, "target");
  CurveType curve = choose(2, "curve") ? CurveType::CURVE_SM2 : CurveType::CURVE_25519;
  std::vector<std::string> it[2];
  std::vector<uint32_t> dup[2];
  for (int p = 0; p < 2; p++)
    for (size_t i = 0; i < n[p]; i++) {
      it[p].push_back("k" + symStr(1, "item"));
      for (size_t j = 0; j < i; j++) sym_assume(it[p][j] != it[p][i]);
      dup[p].push_back(choose(2, "dup"));
    }
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<Msg> log;
  w[0]->world().onSend = [&](const std::string& ctx, size_t from, size_t, const std::string& d) { log.push_back({ctx, from, d}); };
  std::shared_ptr<IEccCryptor> c[2];
  std::shared_ptr<MemoryEcPointStore> st[2][2];
  std::thread th[2];
  for (int p = 0; p < 2; p++) {
    c[p] = CreateEccCryptor(curve);
    for (int k = 0; k < 2; k++) st[p][k] = std::make_shared<MemoryEcPointStore>();
    th[p] = std::thread([&, p] {
      auto prov = std::make_shared<ListProvider>();
      prov->v = it[p];
      prov->dup = dup[p];
      prov->bs = batch;
      EcdhPsiOptions o;
      o.ecc_cryptor = c[p];
      o.link_ctx = w[p];
      o.target_rank = t == 2 ? yacl::link::kAllRank : t;
      o.batch_size = batch;
      RunEcdhPsi(o, prov, st[p][0], st[p][1]);
    });
  }
  for (int p = 0; p < 2; p++) th[p].join();
  for (int p = 0; p < 2; p++) {
    bool peerGets = t == 2 || (int)t == 1 - p, mine = t == 2 || (int)t == p;
    auto open = enc(c[p], it[p], false), once = enc(c[p], it[p], true);
    size_t sent = 0, dual = 0;
    for (auto& m : log) {
      if ((int)m.from != p) continue;
      if (m.ctx.size() > 2 && m.ctx.substr(m.ctx.size() - 2) == "#c") {  // collectives: configuration
        for (auto& o : open) for (size_t i = 0; i + o.size() <= m.data.size(); i++) CHECK_THAT(m.data.substr(i, o.size()) != o, "no point leaves a party without its mask");
        continue;
      }
      PsiDataBatch b = PsiDataBatch::Deserialize(buf(m.data));
      CHECK_THAT(b.Serialize().size() == (int64_t)m.data.size(), "a message of the protocol holds one batch and nothing else");
      if (!peerGets) CHECK_THAT(b.duplicate_item_cnt.empty(), "a party without the result is not told duplicate counts");
      if (b.item_num == 0) { CHECK_THAT(b.flatten_bytes.empty(), "a batch without items has no bytes"); continue; }
      size_t sz = b.flatten_bytes.size() / b.item_num;
      CHECK_THAT(sz * b.item_num == b.flatten_bytes.size(), "the bytes of a batch are its items");
      bool first = sz == once[0].size();
      CHECK_THAT(first || peerGets, "a party without the result is sent no twice-masked points");
      for (size_t i = 0; i < b.item_num; i++) {
        std::string x = b.flatten_bytes.substr(i * sz, sz);
        for (auto& o : open) CHECK_THAT(x != o.substr(o.size() - sz) && x != o.substr(0, sz), "no point leaves a party without its mask");
        if (!first) { dual++; continue; }
        bool known = false;
        for (auto& o : once) known = known | (x == o);
        CHECK_THAT(known, "a full point that leaves a party is one of its items under its own key");
        sent++;
      }
    }
    CHECK_THAT(sent == n[p], "every item is sent once");
    CHECK_THAT(dual == (peerGets ? n[1 - p] : 0), "the peer gets back its own items, each once, if it is to get the result");
    CHECK_THAT(mine || (st[p][0]->content().empty() && st[p][1]->content().empty()), "a party without the result keeps no twice-masked points");
  }
  sym_reach("end");
  return 0;
}
// everything the sender is sent during a task whose result is for the receiver only
static std::vector<Msg> view(Side& R, Side& S) {
  symcrypto::counter() = 1;
  auto before = symio::Fs::I().files;
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<Msg> log;
  w[0]->world().onSend = [&](const std::string& ctx, size_t from, size_t, const std::string& d) { if (from == 0) log.push_back({ctx, from, d}); };
  std::thread t0([&] { Party<ecdh::EcdhPsiReceiver> p(config(R, true, 1, false, true, false), w[0]); R.rep = p.Run(); });
  std::thread t1([&] { Party<ecdh::EcdhPsiSender> p(config(S, false, 1, false, true, false), w[1]); S.rep = p.Run(); });
  t0.join();
  t1.join();
  symio::Fs::I().files = before;  // with the same random numbers, temporary names would be those of the first task
  return log;
}
extern "C" int h_view() {
  Side S, R[2];
  mkInput(S, 2, "s", "/tmp/s");
  size_t uniq = sym_param("nr", 2);
  for (int i = 0; i < 2; i++) {
    R[i].uniq = true;
    mkInput(R[i], uniq, "r", i ? "/tmp/b" : "/tmp/a");
    R[i].uniq = false;
    if (choose(2, "one more row with the first key")) { std::ofstream f(R[i].in, std::ios::app); f << R[i].key[0] << ",x\n"; }
  }
  auto a = view(R[0], S), b = view(R[1], S);
  CHECK_THAT(a.size() == b.size(), "the number of messages a party without the result is sent does not depend on the other table's contents");
  std::vector<std::string> ctx;
  for (auto& m : a) if (std::find(ctx.begin(), ctx.end(), m.ctx) == ctx.end()) ctx.push_back(m.ctx);
  for (auto& k : ctx) {
    std::vector<Msg> x, y;
    for (auto& m : a) if (m.ctx == k) x.push_back(m);
    for (auto& m : b) if (m.ctx == k) y.push_back(m);
    CHECK_THAT(x.size() == y.size(), "the messages on a channel to a party without the result do not depend on the other table's contents: number");
    for (size_t i = 0; i < x.size(); i++) {
      CHECK_THAT(x[i].data.size() == y[i].data.size(), "the messages to a party without the result do not depend on the other table's contents: size");
      bool same = true;
      for (size_t j = 0; j < x[i].data.size(); j++) same = same & (x[i].data[j] == y[i].data[j]);
      if (same) continue;
      PsiDataBatch p, q;
      bool batch = !throws([&] { p = PsiDataBatch::Deserialize(buf(x[i].data)); q = PsiDataBatch::Deserialize(buf(y[i].data)); });
      CHECK_THAT(batch && p.item_num == q.item_num && p.item_num && p.duplicate_item_cnt == q.duplicate_item_cnt && p.flatten_bytes.size() == 32u * p.item_num, "only masked points to a party without the result depend on the other table's contents");
    }
  }
  sym_reach("end");
  return 0;
}
