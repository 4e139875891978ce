#include <filesystem>
#include <fstream>
#include <set>
#include <thread>
#include "psi/algorithm/ecdh/ecdh_psi.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/utils/ec_point_store.h"
#include "sym.h"
#include "symio.h"
#include "yacl/link/test_util.h"
using namespace psi;
using namespace psi::ecdh;
static std::vector<std::string> mkItems(size_t n, size_t len, const char* nm) {
  std::vector<std::string> v;
  for (size_t i = 0; i < n; i++) {
    v.push_back(std::string(len - 1, 'k') + symStr(1, nm));
    for (size_t j = 0; j < i; j++) sym_assume(v[j].back() != v[i].back());
  }
  return v;
}
static std::vector<std::string> meet(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  std::vector<std::string> r;
  for (auto& x : a) { bool in = false; for (auto& y : b) in = in | (x.back() == y.back()); if (in) r.push_back(x); }
  return r;
}

static void protocol(const std::vector<std::string>& A, const std::vector<std::string>& B, unsigned t, CurveType curve, size_t batch) {
  size_t target = t == 2 ? yacl::link::kAllRank : t;
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<std::string> r[2];
  std::thread t0([&] { r[0] = RunEcdhPsi(w[0], A, target, curve, batch); });
  std::thread t1([&] { r[1] = RunEcdhPsi(w[1], B, target, curve, batch); });
  t0.join();
  t1.join();
  for (int p = 0; p < 2; p++) {
    std::vector<std::string> want;
    if (t == 2 || (int)t == p) want = p == 0 ? meet(A, B) : meet(B, A);
    CHECK_THAT(r[p].size() == want.size(), "a result party gets exactly the common items (and another party nothing): wrong number");
    for (size_t i = 0; i < want.size(); i++) CHECK_THAT(r[p][i] == want[i], "a result party gets exactly the common items, in its own order");
  }
  sym_reach("end");
}
// full protocol through the in-memory API
extern "C" int h_run() {
  size_t na = choose(sym_param("n", 2) + 1, "na"), nb = choose(sym_param("n", 2) + 1, "nb");
  size_t batch = chooseRange(1, sym_param("batch", 2), "batch");
  unsigned t = choose(3, "target");
  CurveType curve = choose(2, "curve") ? CurveType::CURVE_SM2 : CurveType::CURVE_25519;
  auto A = mkItems(na, 2, "a"), B = mkItems(nb, 2, "b");
  protocol(A, B, t, curve, batch);
  return 0;
}
// more batches: this side's items fixed, the other side's arbitrary
extern "C" int h_wide() {
  size_t na = sym_param("na", 4), nb = sym_param("nb", 3);
  size_t batch = chooseRange(1, sym_param("batch", 2), "batch");
  unsigned t = sym_param("target", 2);
  std::vector<std::string> A;
  for (size_t i = 0; i < na; i++) A.push_back(std::string("k") + (char)('a' + i));
  auto B = mkItems(nb, 2, "b");
  if (choose(2, "swap")) protocol(B, A, t == 2 ? t : 1 - t, CurveType::CURVE_25519, batch);
  else protocol(A, B, t, CurveType::CURVE_25519, batch);
  return 0;
}
// one interleaving at a time, with preemptions
extern "C" int h_sched() {
  std::vector<std::string> A{"kx"}, B{"ky", "kx"};
  B.resize(sym_param("nb", 1));
  protocol(A, B, 2, CurveType::CURVE_25519, 1);
  return 0;
}
struct ListProvider : IBasicBatchProvider {
  std::vector<std::string> v;
  std::vector<uint32_t> dup;
  size_t bs, at = 0;
  size_t batch_size() const override { return bs; }
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> r;
    for (size_t i = 0; i < bs && at < v.size(); i++, at++) {
      r.first.push_back(v[at]);
      if (dup[at]) r.second[i] = dup[at];
    }
    return r;
  }
};
static std::set<std::pair<uint64_t, uint64_t>> readIndex(const std::string& p, size_t* lines) {
  std::set<std::pair<uint64_t, uint64_t>> s;
  FileIndexReader rd(p);
  *lines = 0;
  while (auto x = rd.GetNextWithPeerCnt()) { s.insert(*x); ++*lines; }
  return s;
}
// disk stores, duplicate counts, the index file and the counters
extern "C" int h_store() {
  size_t na = sym_param("na", 2), nb = sym_param("nb", 2), bins = sym_param("bins", 2);
  size_t batch = chooseRange(1, 2, "batch");
  unsigned t = choose(3, "target");
  std::vector<std::string> it[2];
  std::vector<uint32_t> dup[2];
  it[0] = mkItems(na, 2, "a");
  it[1] = mkItems(nb, 2, "b");
  for (int p = 0; p < 2; p++) for (size_t i = 0; i < it[p].size(); i++) dup[p].push_back(choose(2, "dup") * (i + 1 + p));
  std::filesystem::create_directories("/tmp/w/0");
  std::filesystem::create_directories("/tmp/w/1");
  auto w = yacl::link::test::SetupWorld(2);
  std::shared_ptr<HashBucketEcPointStore> st[2][2];
  EcdhPsiStatistics stat[2];
  std::string err;
  std::thread th[2];
  for (int p = 0; p < 2; p++) {
    for (int k = 0; k < 2; k++) st[p][k] = std::make_shared<HashBucketEcPointStore>("/tmp/w/" + std::to_string(p), bins);
    th[p] = std::thread([&, p] {
      auto prov = std::make_shared<ListProvider>();
      prov->v = it[p];
      prov->dup = dup[p];
      prov->bs = batch;
      EcdhPsiOptions o;
      o.ecc_cryptor = CreateEccCryptor(CurveType::CURVE_25519);
      o.link_ctx = w[p];
      o.target_rank = t == 2 ? yacl::link::kAllRank : t;
      o.batch_size = batch;
      o.statistics = &stat[p];
      RunEcdhPsi(o, prov, st[p][0], st[p][1]);
    });
  }
  for (int p = 0; p < 2; p++) th[p].join();
  for (int p = 0; p < 2; p++) {
    bool mine = t == 2 || (int)t == p;
    CHECK_THAT(stat[p].self_item_count == it[p].size() && stat[p].peer_item_count == it[1 - p].size(), "the statistics report both parties' item counts");
    std::set<std::pair<uint64_t, uint64_t>> want;
    std::vector<uint64_t> idx;
    uint64_t total = 0, inter = 0;
    if (mine) {
      for (uint32_t d : dup[1 - p]) total += d + 1;
      for (size_t i = 0; i < it[p].size(); i++)
        for (size_t j = 0; j < it[1 - p].size(); j++)
          if (it[p][i].back() == it[1 - p][j].back()) { want.insert({i, dup[1 - p][j]}); idx.push_back(i); inter += dup[1 - p][j] + 1; }
    }
    std::string path = "/tmp/w/idx" + std::to_string(p);
    std::pair<uint32_t, uint32_t> got;
    {
      IndexWriter wr(path, 8, true);
      got = FinalizeAndComputeIndices(st[p][0], st[p][1], &wr);
    }
    size_t lines = 0;
    auto have = readIndex(path, &lines);
    CHECK_THAT(lines == want.size() && have == want, "the index file names exactly the common items, once each, with the other party's duplicate count");
    CHECK_THAT(got.first == total && got.second == inter, "the reported totals count every row of the other party");
    CHECK_THAT(FinalizeAndComputeIndices(st[p][0], st[p][1]) == idx, "the index list holds exactly the common items in order");
  }
  sym_reach("end");
  return 0;
}
