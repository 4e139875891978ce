#include "task.h"
#include <thread>
#include "psi/algorithm/ecdh/ub_psi/client.h"
#include "psi/algorithm/ecdh/ub_psi/server.h"
#include "yacl/link/test_util.h"
using ecdh::EcdhUbPsiClient;
using ecdh::EcdhUbPsiServer;
// the real parties; only the batch size (8192 in the code) is set by the check
template <class B>
struct Ub : B {
  using B::B;
  void Init() override {
    B::Init();
    if (int n = sym_param("batch", 0)) this->psi_options_.batch_size = n;
  }
};
static v2::UbPsiConfig cfg(const Side& s, bool server, v2::UbPsiConfig::Mode mode, int jt, int who, bool clientLeft, const char* cache) {
  v2::UbPsiConfig c;
  c.set_mode(mode);
  c.set_role(server ? v2::ROLE_SERVER : v2::ROLE_CLIENT);
  // the table is given only where the documentation asks for it
  if (server ? mode != v2::UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE && mode != v2::UbPsiConfig::MODE_ONLINE : mode == v2::UbPsiConfig::MODE_ONLINE || mode == v2::UbPsiConfig::MODE_FULL) {
    c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
    c.mutable_input_config()->set_path(s.in);
  }
  if (two()) {
    bool fwd = sym_param("fwd", 0);
    c.add_keys(fwd ? "id1" : "id2");
    c.add_keys(fwd ? "id2" : "id1");
  } else c.add_keys("id");
  c.set_cache_path(cache);
  c.set_server_get_result(who & 2);
  c.set_client_get_result(who & 1);
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(s.out);
  c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)jt);
  if (jt > 1) c.set_left_side(clientLeft ? v2::ROLE_CLIENT : v2::ROLE_SERVER);
  return c;
}
struct Flow {
  int jt, who;
  bool left;
  void gen(Side& S) {
    Ub<EcdhUbPsiServer> p(cfg(S, true, v2::UbPsiConfig::MODE_OFFLINE_GEN_CACHE, jt, who, left, "/tmp/cs"), nullptr);
    S.rep = p.Run();
    CHECK_THAT(S.rep.intersection_count() == -1, "generating the cache gives no intersection");
  }
  void both(Side& C, Side& S, v2::UbPsiConfig::Mode m) {
    auto w = yacl::link::test::SetupWorld(2);
    std::thread t0([&] { Ub<EcdhUbPsiClient> p(cfg(C, false, m, jt, who, left, "/tmp/cc"), w[0]); C.rep = p.Run(); });
    std::thread t1([&] { Ub<EcdhUbPsiServer> p(cfg(S, true, m, jt, who, left, "/tmp/cs"), w[1]); S.rep = p.Run(); });
    t0.join();
    t1.join();
  }
  void verify(Side& C, Side& S) {
    Side* sd[2] = {&C, &S};
    for (int p = 0; p < 2; p++)
      if (!(who >> p & 1)) {
        CHECK_THAT(!std::filesystem::exists(sd[p]->out), "a party without the result gets no output file");
        CHECK_THAT(sd[p]->rep.intersection_count() <= 0 && sd[p]->rep.intersection_key_count() == 0, "a party without the result reports no counts of the intersection");
        sd[p]->rep.set_intersection_count(-1);
      }
    if (who == 2) check(S, C, jt, false, !left);
    else check(C, S, jt, who == 3, left);
  }
};
using M = v2::UbPsiConfig;
extern "C" int h_task() {
  symcrypto::counter() += 50 * sym_param("rand_salt", 0);  // other keys and shuffles
  Side C, S;
  Flow f;
  f.jt = sym_param("jt", 1);
  f.who = sym_param("who", 3);
  C.keyLast = sym_param("last", 0) & 1;
  S.keyLast = sym_param("last", 0) & 2;
  mkInput(C, sym_param("nr", 2), "r", "/tmp/w");
  mkInput(S, sym_param("ns", 2), "s", "/tmp/w");
  f.left = f.jt > 1 ? choose(2, "left") : true;
  int flow = sym_param("flow", 0);
  if (flow == 0) { f.gen(S); f.both(C, S, M::MODE_OFFLINE_TRANSFER_CACHE); CHECK_THAT(C.rep.original_count() == S.rep.original_count(), "both count the transferred keys"); }
  if (flow == 1) f.both(C, S, M::MODE_OFFLINE);
  f.both(C, S, flow == 2 ? M::MODE_FULL : M::MODE_ONLINE);
  f.verify(C, S);
  // again over the same caches, with another client table
  for (int k = 1; k < sym_param("online", 1); k++) {
    std::filesystem::remove(C.out);
    std::filesystem::remove(S.out);
    C.key.clear();
    mkInput(C, sym_param("nr", 2), "r", "/tmp/w");
    f.both(C, S, M::MODE_ONLINE);
    f.verify(C, S);
  }
  sym_reach("end");
  return 0;
}
#include "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.h"
#include "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h"
#include "psi/utils/batch_provider_impl.h"
// the transfer breaks off: a later online phase never takes the part that arrived for the whole
extern "C" int h_broken() {
  Side C, S;
  Flow f{1, 1, true};
  mkInput(C, 1, "r", "/tmp/w");
  mkInput(S, sym_param("ns", 2), "s", "/tmp/w");
  f.gen(S);
  if (symBool("an earlier transfer was complete")) f.both(C, S, M::MODE_OFFLINE_TRANSFER_CACHE);
  long at = choose(sym_param("points", 5), "messages before the failure");
  size_t who = choose(2, "who fails");
  bool failed = false, none = symBool("no transfer at all");
  if (none) failed = true;
  else {
    auto w = yacl::link::test::SetupWorld(2);
    w[0]->world().failAfter = at;
    w[0]->world().failParty = who;
    bool bad[2] = {false, false};
    auto run = [&](int p, auto body) { try { body(); } catch (const std::exception& e) { sym_print(e.what()); bad[p] = true; w[p]->kill(); } };
    std::thread t0([&] { run(0, [&] { Ub<EcdhUbPsiClient> p(cfg(C, false, M::MODE_OFFLINE_TRANSFER_CACHE, 1, 1, true, "/tmp/cc"), w[0]); p.Run(); }); });
    std::thread t1([&] { run(1, [&] { Ub<EcdhUbPsiServer> p(cfg(S, true, M::MODE_OFFLINE_TRANSFER_CACHE, 1, 1, true, "/tmp/cs"), w[1]); p.Run(); }); });
    t0.join();
    t1.join();
    failed = bad[0];
  }

  auto w = yacl::link::test::SetupWorld(2);
  bool refused = false;
  std::thread t0([&] { try { Ub<EcdhUbPsiClient> p(cfg(C, false, M::MODE_ONLINE, 1, 1, true, "/tmp/cc"), w[0]); C.rep = p.Run(); } catch (const std::exception& e) { sym_print(e.what()); refused = true; w[0]->kill(); } });
  std::thread t1([&] { try { Ub<EcdhUbPsiServer> p(cfg(S, true, M::MODE_ONLINE, 1, 1, true, "/tmp/cs"), w[1]); S.rep = p.Run(); } catch (const std::exception& e) { sym_print(e.what()); w[1]->kill(); } });
  t0.join();
  t1.join();
  CHECK_THAT(refused <= failed, "an online phase over complete caches goes through");
  if (!refused) {
    S.rep.set_original_count(S.n);  // whatever the server reports if it was cut off
    f.verify(C, S);
  }
  sym_reach("end");
  return 0;
}
// blind, evaluate, unblind, for both curve families; 'sk' and 'r' are any keys
static std::vector<uint8_t> anyKey(const char* n) {
  std::vector<uint8_t> k(kEccKeySize, 0x11);
  auto v = sym<uint16_t>(n);
  for (size_t p : {0, 30}) { k[p] = (uint8_t)v; k[p + 1] = (uint8_t)(v >> 8); }
  return k;
}
extern "C" int h_oprf() {
  auto curve = (CurveType[]){CurveType::CURVE_FOURQ, CurveType::CURVE_SM2, CurveType::CURVE_SECP256K1}[choose(3, "curve")];
  size_t nx = choose(3, "x length"), ny = choose(3, "y length");
  std::string x = symStr(nx, "x"), y = symStr(ny, "y");
  auto sk = anyKey("sk"), r = anyKey("r");
  bool sameKey = symBool("client key given");
  auto srv = ecdh::CreateEcdhOprfServer(sk, ecdh::OprfType::Basic, curve);
  auto cli = sameKey ? ecdh::CreateEcdhOprfClient(r, ecdh::OprfType::Basic, curve) : ecdh::CreateEcdhOprfClient(ecdh::OprfType::Basic, curve);
  auto k = srv->GetPrivateKey();
  CHECK_THAT(std::vector<uint8_t>(k.begin(), k.end()) == sk, "the server keeps the key it is given");
  std::string b = cli->Blind(x), e = srv->Evaluate(b);
  CHECK_THAT(b.size() == cli->GetEcPointLength() && e.size() == srv->GetEcPointLength() && cli->GetEcPointLength() == srv->GetEcPointLength(), "points have the declared length");
  if (sameKey) {
    auto r2 = anyKey("r2");
    CHECK_THAT((ecdh::CreateEcdhOprfClient(r2, ecdh::OprfType::Basic, curve)->Blind(x) == b) == (r2 == r), "another blinding key, another blinded item");
  }
  std::string out = cli->Finalize(e), out2 = srv->SimpleEvaluate(y);
  CHECK_THAT(out.size() == cli->GetCompareLength() && out2.size() == srv->GetCompareLength() && out.size() == out2.size(), "outputs have the declared length");
  CHECK_THAT((out == out2) == same(x, y), "the client's output for x is the server's for y exactly when x = y");
  CHECK_THAT((cli->Finalize(x, e) == srv->FullEvaluate(y)) == same(x, y), "so is the output that hashes the item in");
  auto other = sk;
  other[0] ^= 1;
  other[31] ^= 1;
  auto srv2 = ecdh::CreateEcdhOprfServer(other, ecdh::OprfType::Basic, curve);
  CHECK_THAT(srv2->SimpleEvaluate(x) != srv->SimpleEvaluate(x), "another key, another output");
  sym_reach("end");
  return 0;
}
// the caches as stores: what is read is what was saved, in any batches, after reopening too
extern "C" int h_cache() {
  size_t n = choose(4, "items"), batch = 1 + choose(3, "batch size"), len = sym_param("len", 12);
  std::vector<std::string> it;
  std::vector<uint32_t> dup, sh;
  for (size_t i = 0; i < n; i++) {
    it.push_back(symStr(len, "item"));
    dup.push_back(sym<uint32_t>("dup") & 3);
    sh.push_back(sym<uint32_t>("shuffled"));
  }
  std::vector<uint8_t> key = anyKey("key");
  std::filesystem::create_directories("/tmp/c");
  {
    auto c = std::make_shared<UbPsiCache>("/tmp/c", len, std::vector<std::string>{"k1", "k2"}, key);
    for (size_t i = 0; i < n; i++) c->SaveData(it[i], i, sh[i], dup[i]);
    if (n < 3) CHECK_THAT(throws([&] { c->SaveData(std::string(len + 1, 'x'), 0, 0, 0); }), "items of another length are refused");
  }
  int mode = choose(3, "how it is read");
  UbPsiCacheProvider p("/tmp/c", batch);
  CHECK_THAT(p.GetCachePrivateKey() == key && p.GetSelectedFields() == (std::vector<std::string>{"k1", "k2"}), "the cache keeps the server's key and columns");
  size_t at = 0;
  for (;;) {
    std::vector<std::string> v;
    if (mode == 0) v = p.ReadNextBatch();
    if (mode == 1) {
      auto [items, d] = p.ReadNextBatchWithDupCnt();
      v = items;
      for (size_t i = 0; i < v.size(); i++) CHECK_THAT((d.count(i) ? d[i] : 0u) == dup[at + i], "repetition counts are kept");
      for (auto& [i, c] : d) CHECK_THAT(i < v.size() && c > 0, "counts belong to items of the batch");
    }
    if (mode == 2) {
      auto s = p.ReadNextShuffledBatch();
      v = s.batch_items;
      CHECK_THAT(s.batch_indices.size() == v.size() && s.shuffled_indices.size() == v.size() && s.dup_cnts.size() == v.size(), "one entry per item");
      for (size_t i = 0; i < v.size(); i++) CHECK_THAT(s.batch_indices[i] == at + i && s.shuffled_indices[i] == sh[at + i] && s.dup_cnts[i] == dup[at + i], "positions and counts are kept");
    }
    if (v.empty()) break;
    CHECK_THAT(v.size() == std::min(batch, n - at), "batches have the asked size, the last one less");
    for (size_t i = 0; i < v.size(); i++) CHECK_THAT(same(v[i], it[at + i]), "items are kept in order");
    at += v.size();
  }
  CHECK_THAT(at == n, "every item is read once");
  sym_reach("end");
  return 0;
}
extern "C" int h_store() {
  size_t n = choose(4, "peer items"), m = choose(3, "own items"), batch = 1 + choose(3, "batch size"), len = 12;
  auto mk = [&](const char* s) { std::string v(len, 'q'); char c = (char)sym<uint8_t>(s); v[0] = c; return v; };
  std::vector<std::string> peer, own;
  std::vector<uint32_t> pd, od;
  for (size_t i = 0; i < n; i++) { peer.push_back(mk("peer")); pd.push_back(choose(2, "peer dup") * 3); for (size_t j = 0; j < i; j++) sym_assume(!same(peer[i], peer[j])); }
  for (size_t i = 0; i < m; i++) { own.push_back(mk("own")); od.push_back(i * 2); for (size_t j = 0; j < i; j++) sym_assume(!same(own[i], own[j])); }
  uint32_t total = 0;
  for (auto d : pd) total += d + 1;
  std::string path = "/tmp/d/server_cache";
  {
    UbPsiClientCacheFileStore f(path, len);
    std::unordered_map<uint32_t, uint32_t> cnt;
    for (size_t i = 0; i < n; i++) if (pd[i]) cnt[i] = pd[i];
    static_cast<IEcPointStore&>(f).Save(peer, cnt);
    CHECK_THAT(f.ItemCount() == n && f.PeerCount() == total, "the store counts keys and rows");
    f.Flush();
  }
  CHECK_THAT(throws([&] { UbPsiClientCacheFileStore g(path, len - 1); }), "another length of ciphertext is refused");
  auto f = std::make_shared<UbPsiClientCacheFileStore>(path, len);
  CHECK_THAT(f->ItemCount() == n && f->PeerCount() == total, "the counts survive reopening");
  auto mem = std::make_shared<UbPsiClientCacheMemoryStore>();
  for (size_t i = 0; i < m; i++) mem->Save(own[i], od[i]);
  auto r = ComputeIndicesWithDupCnt(mem, f, batch);
  size_t k = r.self_indices.size();
  CHECK_THAT(r.peer_indices.size() == k && r.self_dup_cnt.size() == k && r.peer_dup_cnt.size() == k, "one entry per common item");
  size_t want = 0;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < m; j++) {
      size_t hit = 0;
      for (size_t t = 0; t < k; t++) hit += (r.self_indices[t] == j) & (r.peer_indices[t] == i) & (r.self_dup_cnt[t] == od[j]) & (r.peer_dup_cnt[t] == pd[i]);
      CHECK_THAT(hit == (size_t)same(peer[i], own[j]), "each common item once, with both positions and both counts");
      want += same(peer[i], own[j]);
    }
  CHECK_THAT(k == want, "nothing else");
  sym_reach("end");
  return 0;
}
// the two classes under the parties: several batches, a key of its own per item, both curves
struct Items : IBasicBatchProvider {
  std::vector<std::string> v;
  size_t b = 1, at = 0;
  std::vector<std::string> ReadNextBatch() override { std::vector<std::string> r; while (r.size() < b && at < v.size()) r.push_back(v[at++]); return r; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::unordered_map<uint32_t, uint32_t> d;
    size_t a = at;
    auto r = ReadNextBatch();
    for (size_t i = 0; i < r.size(); i++) if ((a + i) % 2) d[i] = a + i;
    return {r, d};
  }
  size_t batch_size() const override { return b; }
};
extern "C" int h_direct() {
  symcrypto::counter() += 50 * sym_param("rand_salt", 0);
  size_t n = sym_param("n", 3), m = sym_param("m", 2);
  std::vector<std::string> srv, cli;
  for (size_t i = 0; i < n; i++) { srv.push_back(symStr(1, "s")); for (size_t j = 0; j < i; j++) sym_assume(!same(srv[i], srv[j])); }
  for (size_t i = 0; i < m; i++) { cli.push_back(symStr(1, "c")); for (size_t j = 0; j < i; j++) sym_assume(!same(cli[i], cli[j])); }
  auto w = yacl::link::test::SetupWorld(2);
  auto opt = [&](int p) {
    ecdh::EcdhOprfPsiOptions o;
    o.cache_transfer_link = w[p];
    o.online_link = w[p]->Spawn("o");
    o.batch_size = sym_param("batch", 2);
    o.window_size = sym_param("window", 1);
    o.curve_type = sym_param("sm2", 1) ? CurveType::CURVE_SM2 : CurveType::CURVE_FOURQ;
    return o;
  };
  auto o0 = opt(0), o1 = opt(1);
  bool oneKey = sym_param("one_key", 0), shuffle = sym_param("shuffle", 0);
  std::vector<uint64_t> got;
  size_t seen = 0, cnt = 0;
  ecdh::EcdhOprfPsiServer::PeerCntInfo pc;
  std::vector<std::string> cache, mine, sent;
  std::unordered_map<uint32_t, uint32_t> cacheDup;
  std::thread ts([&] {
    std::vector<uint8_t> key(kEccKeySize, 5);
    ecdh::EcdhOprfPsiServer s(o1, key);
    auto in = std::make_shared<Items>();
    in->v = srv;
    in->b = 2;  // two reads of the table for three items
    auto sh = std::make_shared<SimpleShuffledBatchProvider>(in, o1.batch_size);
    auto c = std::make_shared<UbPsiCache>("/tmp/c", s.GetCompareLength(), std::vector<std::string>{"id"}, key);
    cnt = s.FullEvaluateAndSend(sh, c);
    pc = shuffle ? s.RecvBlindAndShuffleSendEvaluate() : s.RecvBlindAndSendEvaluate();
    auto p = std::make_shared<UbPsiCacheProvider>("/tmp/c", o1.batch_size);
    std::tie(got, seen) = s.RecvIntersectionMaskedItems(p);
  });
  std::vector<size_t> hits;
  std::thread tc([&] {
    std::shared_ptr<ecdh::EcdhOprfPsiClient> off = std::make_shared<ecdh::EcdhOprfPsiClient>(o0);
    auto store = std::make_shared<MemoryEcPointStore>();
    off->RecvFinalEvaluatedItems(store);
    cache = store->content();
    cacheDup = store->GetDupMap();
    std::shared_ptr<ecdh::EcdhOprfPsiClient> on = oneKey || shuffle ? std::make_shared<ecdh::EcdhOprfPsiClient>(o0, std::vector<uint8_t>(kEccKeySize, 9)) : off;
    auto in = std::make_shared<Items>();
    in->v = cli;
    in->b = o0.batch_size;
    auto self = std::make_shared<MemoryEcPointStore>();
    auto f = std::async([&] { return on->SendBlindedItems(in, true); });
    on->RecvEvaluatedItems(self);
    CHECK_THAT(f.get() == m, "every item is sent blinded");
    mine = self->content();
    auto mi = std::make_shared<Items>();
    for (auto& x : mine) for (auto& y : cache) if (x == y) { mi->v.push_back(absl::Base64Escape(x)); break; }
    mi->b = 1;
    on->SendIntersectionMaskedItems(mi);
  });
  ts.join();
  tc.join();
  CHECK_THAT(cnt == n && seen == n && cache.size() == n && mine.size() == m, "every item is evaluated, sent and looked at once");
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < i; j++) CHECK_THAT(cache[i] != cache[j], "different items have different values");
  uint32_t dups = 0, wantDups = 0, pdups = 0, wantP = 0;
  for (auto& [i, c] : cacheDup) { CHECK_THAT(i < n, "counts belong to items"); dups += c; }
  for (size_t i = 0; i < n; i++) wantDups += i % 2 ? i : 0;
  CHECK_THAT(dups == wantDups, "the server's repetition counts arrive");
  for (size_t j = 0; j < m; j++) {
    uint32_t d = j % 2 ? j : 0;
    wantP += d;
    if (!shuffle) CHECK_THAT((pc.peer_dup_cnt.count(j) ? pc.peer_dup_cnt[j] : 0u) == d, "the client's repetition counts arrive");
  }
  if (shuffle) {
    // the values come back shuffled: the count at a position is that of the item whose value stands there
    auto ref = ecdh::CreateEcdhOprfServer(std::vector<uint8_t>(kEccKeySize, 5), ecdh::OprfType::Basic, o1.curve_type);
    for (size_t j = 0; j < m; j++) {
      auto v = ref->SimpleEvaluate(cli[j]);
      size_t at = m;
      for (size_t k = 0; k < m; k++) if (mine[k] == v) at = k;
      CHECK_THAT(at < m, "every item's value comes back");
      CHECK_THAT((pc.peer_dup_cnt.count(at) ? pc.peer_dup_cnt[at] : 0u) == (j % 2 ? j : 0), "the repetition counts follow the shuffle");
    }
  }
  for (auto& [i, c] : pc.peer_dup_cnt) { CHECK_THAT(i < m, "counts belong to items"); pdups += c; }
  CHECK_THAT(pdups == wantP && pc.peer_unique_cnt == m && pc.peer_total_cnt == m + wantP, "the server counts the client's keys and rows");
  size_t common = 0;
  for (size_t i = 0; i < n; i++) {
    bool in = false;
    size_t at = 0;
    for (size_t j = 0; j < m; j++) in = in | same(srv[i], cli[j]);
    for (auto g : got) at += g == i;
    CHECK_THAT(at == (size_t)in, "the server finds the row of every common item, once, and no other");
    common += in;
  }
  CHECK_THAT(got.size() == common, "nothing else is found");
  if (!shuffle)
    for (size_t j = 0; j < m; j++) {
      bool in = false, have = false;
      for (size_t i = 0; i < n; i++) in = in | same(srv[i], cli[j]);
      for (auto& x : cache) have = have | (x == mine[j]);
      CHECK_THAT(in == have, "the client's value of an item is in the server's list exactly when the item is common");
    }
  sym_reach("end");
  return 0;
}
// what the messages show: two runs that differ in the keys themselves, or in the client's repetitions when only the
// client gets the result, exchange the same bytes
struct Msg { std::string ctx; size_t from; std::string d; };
static void observe(const std::string& ck, const std::string& sk, int who, std::vector<Msg>& log) {
  auto& fs = symio::Fs::I();
  auto saved = fs.files;
  symcrypto::counter() = 100;
  symcrypto::table().clear();
  Side C, S;
  std::string* keys[2] = {(std::string*)&ck, (std::string*)&sk};
  Side* sd[2] = {&C, &S};
  for (int p = 0; p < 2; p++) {
    sd[p]->in = std::string("/tmp/w/") + "rs"[p] + ".csv";
    sd[p]->out = std::string("/tmp/w/") + "rs"[p] + ".out.csv";
    std::filesystem::create_directories("/tmp/w");
    std::ofstream f(sd[p]->in);
    f << "id,v\n";
    for (char c : *keys[p]) f << c << ",v\n";
  }
  Flow f{1, who, true};
  Ub<EcdhUbPsiServer> p(cfg(S, true, M::MODE_OFFLINE_GEN_CACHE, 1, who, true, "/tmp/cs"), nullptr);
  p.Run();
  auto pk = UbPsiCacheProvider("/tmp/cs", 10).GetCachePrivateKey();
  std::string secret(pk.begin() + 4, pk.begin() + 16);
  for (int phase = 0; phase < 2; phase++) {
    auto w = yacl::link::test::SetupWorld(2);
    w[0]->world().onSend = [&](const std::string& ctx, size_t from, size_t, const std::string& d) {
      log.push_back({std::to_string(phase) + ctx, from, d});
      if (d.size() >= 12) CHECK_THAT(d.find(secret) == std::string::npos, "no message carries the server's key");
    };
    auto m = phase ? M::MODE_ONLINE : M::MODE_OFFLINE_TRANSFER_CACHE;
    std::thread t0([&] { Ub<EcdhUbPsiClient> p(cfg(C, false, m, 1, who, true, "/tmp/cc"), w[0]); p.Run(); });
    std::thread t1([&] { Ub<EcdhUbPsiServer> p(cfg(S, true, m, 1, who, true, "/tmp/cs"), w[1]); p.Run(); });
    t0.join();
    t1.join();
  }
  fs.files = saved;
}
static void sameLogs(const std::vector<Msg>& a, const std::vector<Msg>& b, const char* what, int from) {
  std::vector<const Msg*> x[2];
  for (auto& m : a) if (from < 0 || (int)m.from == from) x[0].push_back(&m);
  for (auto& m : b) if (from < 0 || (int)m.from == from) x[1].push_back(&m);
  CHECK_THAT(x[0].size() == x[1].size(), what);
  for (size_t i = 0; i < x[0].size(); i++) CHECK_THAT(x[0][i]->from == x[1][i]->from && same(x[0][i]->d, x[1][i]->d), what);
}
extern "C" int h_view() {
  int who = sym_param("who", 3);
  uint8_t c = sym<uint8_t>("letter"), d = sym<uint8_t>("another letter");
  sym_assume((c >= 'b') & (c <= 'y') & (d >= 'b') & (d <= 'y') & (d != c));
  auto t = [&](const char* pat, uint8_t l) { std::string r; for (const char* p = pat; *p; p++) r += *p == '?' ? (char)l : *p; return r; };
  std::vector<Msg> a, b;
  int pat = choose(3, "pattern");
  const char* cp[] = {"a?", "?z", "??z"};
  const char* sp[] = {"?", "a?", "?zz"};
  observe(t(cp[pat], c), t(sp[pat], c), who, a);
  observe(t(cp[pat], d), t(sp[pat], d), who, b);
  sameLogs(a, b, "the messages do not depend on the keys, only on which of them are equal", -1);
  if (who == 1) {
    std::vector<Msg> e;
    observe(t(pat == 2 ? "?z" : "?zz", c), t("a?", c), who, e);
    std::vector<Msg> g;
    observe(t(pat == 2 ? "??zz" : "?z", c), t("a?", c), who, g);
    sameLogs(e, g, "a server without the result does not see how often the client's keys repeat", 0);
  }
  sym_reach("end");
  return 0;
}
