// the operator interface of the three protocols over abstract stores
#include <map>
#include <thread>
#include "psi/algorithm/ecdh/ecdh_operator.h"
#include "psi/algorithm/kkrt/kkrt_operator.h"
#include "psi/algorithm/rr22/common.h"
#include "psi/algorithm/rr22/rr22_operator.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/index_store.h"
#include "sym.h"
#include "yacl/shim_hash.h"
#include "yacl/link/test_util.h"
using namespace psi;
struct Provider : IDataProvider {
  std::vector<PsiItemData> v;
  size_t at = 0;
  std::vector<PsiItemData> ReadNext(size_t n) override {
    std::vector<PsiItemData> r;
    while (r.size() < n && at < v.size()) r.push_back(v[at++]);
    return r;
  }
  std::vector<PsiItemData> ReadAll() override { auto r = ReadNext(v.size()); return r; }
  virtual ~Provider() = default;
};
struct Store : IDataStore {
  std::vector<std::vector<PsiItemData>> b;
  size_t GetBucketNum() const override { return b.size(); }
  std::shared_ptr<IDataProvider> Load(size_t i) override {
    CHECK_THAT(i < b.size(), "only the store's buckets are read");
    auto p = std::make_shared<Provider>();
    p->v = b[i];
    return p;
  }
};
struct Result : IResultReceiver {
  std::vector<PsiResultIndex> v;
  bool open = true;
  void Add(PsiResultIndex i) override { CHECK_THAT(open, "nothing is added after the end"); v.push_back(i); }
  void Add(std::vector<PsiResultIndex> i) override { CHECK_THAT(open, "nothing is added after the end"); v.insert(v.end(), i.begin(), i.end()); }
  void Finish() override { open = false; }
  virtual ~Result() = default;
};
struct Results : IResultStore {
  std::vector<std::shared_ptr<Result>> b;
  size_t GetBucketNum() const override { return b.size(); }
  std::shared_ptr<IResultReceiver> GetReceiver(size_t i) override {
    CHECK_THAT(i < b.size(), "only the store's buckets get results");
    return b[i];
  }
};
// the table of one side: every letter absent, once or twice, per bucket
static void fill(Store& s, size_t nb, size_t letters, int party, size_t counts) {
  s.b.resize(nb);
  for (size_t b = 0; b < nb; b++) {
    for (size_t l = 0; l < letters; l++) {
      size_t c = choose(counts + 1, party ? "sender count" : "receiver count");
      if (c) s.b[b].push_back({std::string(1, 'a' + b * letters + l), (ItemCntType)c});
    }
    if (party && s.b[b].size() > 1 && choose(2, "other order")) std::swap(s.b[b][0], s.b[b].back());
  }
}
static void judge(Store* in, Results* out, int rank, bool entitled) {
  Store& mine = in[rank];
  Store& peer = in[1 - rank];
  for (size_t b = 0; b < mine.b.size(); b++) {
    std::map<std::string, size_t> p;
    for (auto& x : peer.b[b]) p[x.buf] = x.cnt;
    std::vector<size_t> have(mine.b[b].size(), 0);
    for (auto& r : out[rank].b[b]->v) {
      CHECK_THAT(entitled, "a party without a right to the result gets none");
      CHECK_THAT(r.data < have.size() && have[r.data] == 0, "a result is the index of an own item, named once");
      CHECK_THAT(r.peer_item_cnt >= 1, "a common item occurs at the peer");
      have[r.data] = r.peer_item_cnt;
    }
    for (size_t i = 0; entitled && i < have.size(); i++) {
      auto it = p.find(mine.b[b][i].buf);
      CHECK_THAT(have[i] == (it == p.end() ? 0 : it->second), "the result holds exactly the common items with the peer's repetitions");
    }
  }
}
static void runAll(PsiOperator& op) { op.Init(); op.Run(); op.End(); }
template <class F> static void both(std::vector<std::shared_ptr<yacl::link::Context>>& w, bool* failed, F make) {
  std::thread t[2];
  for (int p = 0; p < 2; p++)
    t[p] = std::thread([&, p] {
      try { auto op = make(p); runAll(*op); } catch (const std::exception& e) { failed[p] = true; sym_print(e.what()); w[p]->kill(); }
    });
  t[0].join();
  t[1].join();
}
static void setup(Store* in, Results* out, size_t nb) {
  symcrypto::counter() += 50 * sym_param("rand_salt", 0);
  for (int p = 0; p < 2; p++) {
    fill(in[p], nb, sym_param("letters", 2), p, sym_param("counts", 2));
    for (size_t b = 0; b < nb; b++) out[p].b.push_back(std::make_shared<Result>());
  }
}
// the stores outlive the operators
template <class T> static std::shared_ptr<T> ref(T& x) { return std::shared_ptr<T>(&x, [](T*) {}); }
extern "C" int h_kkrt() {
  size_t nb = sym_param("nb", 1);
  Store in[2];
  Results out[2];
  setup(in, out, nb);
  size_t recv = choose(2, "receiver");
  bool bc = symBool("both get the result"), empty = false, failed[2] = {};
  for (auto& s : in) for (auto& b : s.b) empty |= b.empty();
  auto w = yacl::link::test::SetupWorld(2);
  both(w, failed, [&](int p) {
    kkrt::KkrtOperator::Options o;
    o.link_ctx = w[p];
    o.receiver_rank = recv;
    o.broadcast_result = bc;
    return std::make_unique<kkrt::KkrtOperator>(o, ref(in[p]), ref(out[p]));
  });
  CHECK_THAT(failed[0] == empty && failed[1] == empty, "KKRT works on any non-empty sets, and both parties refuse an empty one");
  if (!empty) for (int p = 0; p < 2; p++) judge(in, out, p, bc || p == (int)recv);
  sym_reach("end");
  return 0;
}
extern "C" int h_rr22() {
  size_t nb = sym_param("nb", 2);
  Store in[2];
  Results out[2];
  setup(in, out, nb);
  size_t recv = sym_param("recv", -1) >= 0 ? sym_param("recv", 0) : choose(2, "receiver");
  bool bc = symBool("both get the result"), failed[2] = {};
  auto w = yacl::link::test::SetupWorld(2);
  both(w, failed, [&](int p) {
    rr22::Rr22Operator::Options o{.rr22_opts = rr22::GenerateRr22PsiOptions(sym_param("low_comm", 0))};
    o.lctx = w[p];
    o.receiver_rank = recv;
    o.broadcast_result = bc;
    o.pipeline_mode = sym_param("pipeline", 1);
    o.parallel_level = sym_param("level", 2);
    return std::make_unique<rr22::Rr22Operator>(o, ref(in[p]), ref(out[p]));
  });
  CHECK_THAT(!failed[0] && !failed[1], "RR22 works on any sets");
  for (int p = 0; p < 2; p++) judge(in, out, p, bc || p == (int)recv);
  sym_reach("end");
  return 0;
}
extern "C" int h_ecdh() {
  Store in[2];
  Results out[2];
  setup(in, out, 1);
  size_t target = choose(3, "target");
  size_t bins = sym_param("bins", 1);
  size_t batch = 1 + choose(sym_param("batches", 2), "batch size");
  bool failed[2] = {};
  auto w = yacl::link::test::SetupWorld(2);
  for (int p = 0; p < 2; p++) std::filesystem::create_directories("/tmp/op" + std::to_string(p));
  both(w, failed, [&](int p) {
    ecdh::EcdhPsiOptions o;
    o.ecc_cryptor = CreateEccCryptor(CurveType::CURVE_25519);
    o.link_ctx = w[p];
    o.batch_size = batch;
    o.target_rank = target == 2 ? yacl::link::kAllRank : target;
    return std::make_unique<ecdh::EcdhOperator>(o, ref(in[p]), ref(out[p]), bins, "/tmp/op" + std::to_string(p));
  });
  CHECK_THAT(!failed[0] && !failed[1], "ECDH works on any sets");
  for (int p = 0; p < 2; p++) judge(in, out, p, target == 2 || p == (int)target);
  sym_reach("end");
  return 0;
}
// the bucket loop of RR22 with workers in parallel, from any first bucket
extern "C" int h_parallel() {
  size_t nb = sym_param("nb", 3), start = choose(nb, "first bucket");
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<int> done[2] = {std::vector<int>(nb), std::vector<int>(nb)};
  std::thread t[2];
  for (int p = 0; p < 2; p++)
    t[p] = std::thread([&, p] {
      rr22::PreProcessFunc pre = [&, p](size_t b) {
        std::vector<HashBucketCache::BucketItem> v;
        for (size_t k = 0; k < 2; k++) {
          HashBucketCache::BucketItem it;
          it.index = k;
          it.extra_dup_cnt = b;
          it.base64_data = std::string(1, 'a' + 3 * b + k + p);
          v.push_back(it);
        }
        return v;
      };
      rr22::PostProcessFunc post = [&, p](size_t b, const std::vector<HashBucketCache::BucketItem>& it, const std::vector<uint32_t>& idx, const std::vector<uint32_t>& cnt) {
        CHECK_THAT(b < nb && done[p][b] == 0, "a bucket is finished once");
        CHECK_THAT(idx.size() == 1 && cnt.size() == 1 && idx[0] < it.size() && it[idx[0]].index == (uint64_t)(1 - p) && cnt[0] == b, "the bucket's common item is found");
        done[p][b] = 1;
      };
      rr22::Rr22Runner r(w[p], rr22::GenerateRr22PsiOptions(false), nb, true, pre, post);
      r.ParallelRun(start, p == 1, sym_param("level", 2));
    });
  t[0].join();
  t[1].join();
  for (int p = 0; p < 2; p++)
    for (size_t b = 0; b < nb; b++) CHECK_THAT(done[p][b] == (b >= start), "every bucket from the first one on is finished, and no other");
  sym_reach("end");
  return 0;
}
