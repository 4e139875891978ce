// messages survive serialization; the collectives and bucket helpers of the PSI protocols
#include <map>
#include <thread>
#include "psi/utils/bucket.h"
#include "psi/utils/communication.h"
#include "psi/utils/serialize.h"
#include "psi/utils/sync.h"
#include "absl/strings/escaping.h"
#include "sym.h"
#include "symio.h"
#include "yacl/link/test_util.h"
using namespace psi;
typedef std::shared_ptr<yacl::link::Context> Ctx;
template <class K, class V> static bool same(const std::unordered_map<K, V>& a, const std::unordered_map<K, V>& b) {
  if (a.size() != b.size()) return false;
  for (auto& x : a) { auto i = b.find(x.first); if (i == b.end() || i->second != x.second) return false; }
  return true;
}
// up to n entries with distinct keys and any values
template <class K> static std::unordered_map<K, uint32_t> counts(size_t n) {
  std::unordered_map<K, uint32_t> m;
  for (size_t i = 0; i < n; i++) if (choose(2, "counted")) m[(K)(i * 0x1000000ull + i)] = sym<uint32_t>("count");
  return m;
}
extern "C" int h_numbers() {
  uint64_t s = sym<uint64_t>("size");
  CHECK_THAT(utils::DeserializeSize(utils::SerializeSize(s)) == s, "a size survives the wire");
  size_t n = choose(3, "indexes");
  std::vector<uint32_t> a(n);
  std::vector<uint64_t> b(n);
  for (size_t i = 0; i < n; i++) { a[i] = sym<uint32_t>("i32"); b[i] = sym<uint64_t>("i64"); }
  CHECK_THAT(utils::DeserializeIndexes<uint32_t>(utils::SerializeIndexes(a)) == a, "32-bit indexes survive the wire");
  CHECK_THAT(utils::DeserializeIndexes<uint64_t>(utils::SerializeIndexes(b)) == b, "64-bit indexes survive the wire");
  sym_reach("end");
  return 0;
}
extern "C" int h_items() {
  size_t n = choose(3, "items");
  std::vector<std::string> v;
  for (size_t i = 0; i < n; i++) { v.push_back(symStr(choose(3, "length"), "item")); for (char& c : v.back()) sym_assume((unsigned char)c < 128); }
  auto cnt = counts<uint64_t>(n + 1);
  auto buf = utils::SerializeStrItems(v, cnt);
  std::vector<std::string> w;
  std::unordered_map<uint64_t, uint32_t> c2;
  utils::DeserializeStrItems(buf, &w, &c2);
  CHECK_THAT(w == v && same(cnt, c2), "items and counts survive the wire, in order");
  std::vector<std::string> w2;
  utils::DeserializeStrItems(buf, &w2);
  CHECK_THAT(w2 == v, "items survive without their counts");
  CHECK_THAT(same(utils::DeserializeItemsCnt(utils::SerializeItemsCnt(cnt)), cnt), "counts survive the wire");
  sym_reach("end");
  return 0;
}
extern "C" int h_batch() {
  PsiDataBatch b;
  b.item_num = sym<uint32_t>("items");
  b.flatten_bytes = symStr(choose(4, "length"), "bytes");
  b.batch_index = sym<int32_t>("index");
  b.is_last_batch = symBool("last");
  const char* types[] = {"", "enc", "dual.enc"};
  b.type = types[choose(3, "type")];
  b.duplicate_item_cnt = counts<uint32_t>(3);
  auto r = PsiDataBatch::Deserialize(b.Serialize());
  CHECK_THAT(r.item_num == b.item_num && r.flatten_bytes == b.flatten_bytes && r.batch_index == b.batch_index && r.is_last_batch == b.is_last_batch && r.type == b.type &&
                 same(r.duplicate_item_cnt, b.duplicate_item_cnt),
             "a batch survives the wire");
  sym_reach("end");
  return 0;
}
// lengths of compared prefixes: at least log2(a) + log2(b) + 40 bits, for any sizes
extern "C" int h_compare() {
  uint64_t a = chooseRange(0, 40, "log a"), b = chooseRange(0, 40, "log b"), st = sym_param("stats", 40);
  uint64_t xa = 1ull << a, xb = 1ull << b;
  if (choose(2, "a above a power of two")) { xa++; a++; }
  if (choose(2, "b above a power of two")) { xb++; b++; }
    size_t n = st == 40 ? utils::GetCompareBytesLength(xa, xb) : utils::GetCompareBytesLength(xa, xb, st);
  CHECK_THAT(8 * n >= a + b + st && 8 * n < a + b + st + 8, "the compared length is the statistical bound, rounded up to bytes");
  sym_reach("end");
  return 0;
}
template <class F> static void run(std::vector<Ctx>& w, F f) {
  std::vector<std::thread> t;
  for (size_t p = 0; p < w.size(); p++) t.emplace_back([&, p] { f(p); });
  for (auto& x : t) x.join();
}
extern "C" int h_gather() {
  size_t n = chooseRange(2, sym_param("parties", 3), "parties");
  auto w = yacl::link::test::SetupWorld(n);
  std::vector<size_t> v(n);
  std::vector<bool> f(n);
  for (size_t i = 0; i < n; i++) { v[i] = sym<size_t>("size"); f[i] = choose(2, "flag"); }
  run(w, [&](size_t p) {
    auto r = AllGatherItemsSize(w[p], v[p]);
    CHECK_THAT(r == v, "every party learns every party's size, by rank");
    auto g = AllGatherFlag(w[p], f[p]);
    CHECK_THAT(g == f, "every party learns every party's flag, by rank");
  });
  sym_reach("end");
  return 0;
}
// the party that has a result shares it; when several have one, nobody takes anybody's
extern "C" int h_broadcast() {
  size_t n = chooseRange(2, sym_param("parties", 3), "parties");
  auto w = yacl::link::test::SetupWorld(n);
  std::vector<std::vector<std::string>> v(n);
  std::vector<std::unordered_map<uint64_t, uint32_t>> c(n);
  size_t owners = 0, owner = 0;
  for (size_t i = 0; i < n; i++) {
    size_t k = choose(3, "results");
    for (size_t j = 0; j < k; j++) { v[i].push_back(symStr(1, "item")); sym_assume((unsigned char)v[i].back()[0] < 128); if (choose(2, "repeated")) c[i][j] = sym<uint32_t>("count"); }
    if (k) { owners++; owner = i; }
  }
  auto v0 = v;
  auto c0 = c;
  std::vector<int> threw(n);
  run(w, [&](size_t p) {
    try {
      if (sym_param("counts", 1)) BroadcastResult(w[p], &v[p], &c[p]);
      else BroadcastResult(w[p], &v[p]);
    } catch (const std::exception&) { threw[p] = 1; }
  });
  for (size_t i = 0; i < n; i++) {
    CHECK_THAT(threw[i] == (owners > 1), "a broadcast is refused by every party exactly when several parties have a result");
    if (owners > 1) continue;
    CHECK_THAT(v[i] == v0[owner], "every party has the owner's result, in order");
    if (sym_param("counts", 1)) CHECK_THAT(same(c[i], c0[owner]), "every party has the owner's counts");
  }
  sym_reach("end");
  return 0;
}
// nobody goes on before everybody's work is done, however long each takes
extern "C" int h_wait() {
  size_t n = chooseRange(2, sym_param("parties", 2), "parties");
  auto w = yacl::link::test::SetupWorld(n);
  std::vector<int> done(n), got(n), threw(n);
  size_t fails = choose(n + 1, "failing party");
  run(w, [&](size_t p) {
    try {
      int r = SyncWait(w[p], [&](int x) { sym_sched_point(); if (p == fails) throw std::runtime_error("work failed"); done[p] = 1; return x + (int)p; }, 10);
      CHECK_THAT(r == 10 + (int)p, "the work's value is returned");
      for (size_t q = 0; q < n; q++) CHECK_THAT(done[q], "nobody goes on before everybody's work is done");
      SyncWait(w[p], [&] { sym_sched_point(); got[p] = 1; });
      for (size_t q = 0; q < n; q++) CHECK_THAT(got[q], "nobody goes on before everybody's second work is done");
    } catch (const std::exception& e) { threw[p] = 1; w[p]->kill(); }
  });
  for (size_t q = 0; q < n; q++) CHECK_THAT(threw[q] == (fails < n), "a failure of one party's work stops all, and only a failure does");
  sym_reach("end");
  return 0;
}
// two parties of a larger world talk privately: messages of different pairs and purposes do not mix
extern "C" int h_p2p() {
  size_t n = chooseRange(2, sym_param("parties", 3), "parties");
  auto w = yacl::link::test::SetupWorld(n);
  bool order = choose(2, "order");
  if (sym_param("names", 0) && n > 2) w[0]->world().ids = {"b", "a", "c", "0"};
  run(w, [&](size_t p) {
    std::map<size_t, Ctx> c;
    for (size_t k = 0; k < n; k++) { size_t q = order ? n - 1 - k : k; if (q != p) c[q] = CreateP2PLinkCtx("x", w[p], q); }
    for (auto& [q, x] : c) {
      CHECK_THAT(x->WorldSize() == 2 && x->PartyIdByRank(x->Rank()) == w[p]->PartyIdByRank(p) && x->PartyIdByRank(1 - x->Rank()) == w[p]->PartyIdByRank(q), "a pair's link joins exactly the two parties");
      x->SendAsync(x->NextRank(), std::string(1, 'a' + p * n + q), "m");
    }
    for (auto& [q, x] : c) {
      auto b = x->Recv(x->NextRank(), "m");
      CHECK_THAT(b.size() == 1 && b.data<char>()[0] == (char)('a' + q * n + p), "a message reaches the party it was meant for");
    }
  });
  sym_reach("end");
  return 0;
}
// every party computes the same number of buckets: enough for its own share, none if somebody has nothing
extern "C" int h_negotiate() {
  size_t n = chooseRange(2, sym_param("parties", 3), "parties");
  auto w = yacl::link::test::SetupWorld(n);
  std::vector<size_t> v(n), r(n);
  const size_t sizes[] = {1, 2, 3, 7, 64, 1 << 20};
  size_t size = sizes[choose(6, "bucket size")];
  for (auto& x : v) {
    if (size & (size - 1)) { x = choose(2 * size + 2, "items"); continue; }
    x = sym<size_t>("items");
    sym_assume(x < (1ull << 40));
  }
  run(w, [&](size_t p) { r[p] = NegotiateBucketNum(w[p], v[p], size, 1); });
  size_t mx = 0, mn = v[0];
  for (auto x : v) { mx = x > mx ? x : mx; mn = x < mn ? x : mn; }
  for (size_t p = 0; p < n; p++) CHECK_THAT(mn == 0 ? r[p] == 0 : r[p] * size >= mx && r[p] * size < mx + size, "the bucket count is the largest party's, rounded up, and 0 when a party is empty");
  sym_reach("end");
  return 0;
}
extern "C" int h_equal() {
  size_t n = choose(sym_param("parties", 4) + 1, "hashes");
  std::vector<yacl::Buffer> v;
  std::vector<std::string> s;
  for (size_t i = 0; i < n; i++) { s.push_back(symStr(1 + choose(2, "length"), "hash")); v.push_back(yacl::Buffer(s.back())); }
  bool eq = true;
  for (auto& x : s) eq = eq && x == s[0];
  bool r = false, t = throws([&] { r = HashListEqualTest(v); });
  CHECK_THAT(t == (n == 0) && (t || r == eq), "digests are equal exactly if all are");
  sym_reach("end");
  return 0;
}
static std::vector<std::pair<uint64_t, uint64_t>> lines(const std::string& path) {
  std::vector<std::pair<uint64_t, uint64_t>> r;
  FileIndexReader rd(path);
  while (auto x = rd.GetNextWithPeerCnt()) r.push_back(*x);
  return r;
}
// the receiver's result of one bucket becomes index files of both parties
extern "C" int h_result() {
  auto w = yacl::link::test::SetupWorld(2);
  size_t letters = sym_param("letters", 3);
  std::vector<HashBucketCache::BucketItem> items[2], res;
  std::map<std::string, std::pair<uint64_t, uint32_t>> at[2];
  for (int p = 0; p < 2; p++)
    for (size_t l = 0; l < letters; l++) {
      if (!choose(2, p ? "sender has" : "receiver has")) continue;
      HashBucketCache::BucketItem it;
      it.index = 10 * p + l + (p ? letters - 2 * l : 0);
      it.extra_dup_cnt = choose(2, "repeated");
      it.base64_data = std::string(1, 'a' + l);
      items[p].push_back(it);
      at[p][it.base64_data] = {it.index, it.extra_dup_cnt};
    }
  std::vector<uint32_t> peer;
  for (auto& it : items[0]) if (at[1].count(it.base64_data)) { res.push_back(it); peer.push_back(at[1][it.base64_data].second); }
  if (res.size() > 1 && choose(2, "other order")) { std::swap(res[0], res.back()); std::swap(peer[0], peer.back()); }
  bool bc = choose(2, "both get the result");
  std::filesystem::create_directories("/tmp/b");
  run(w, [&](size_t p) {
    IndexWriter wr("/tmp/b/" + std::to_string(p) + ".csv");
    if (p == 0) HandleBucketResultByReceiver(bc, w[p], res, peer, &wr);
    else HandleBucketResultBySender(bc, w[p], items[1], &wr);
    // committed before anything else happens
    auto v = lines("/tmp/b/" + std::to_string(p) + ".csv");
    std::map<uint64_t, uint64_t> m(v.begin(), v.end()), want;
    if (p == 0 || bc) for (auto& it : res) want[at[p][it.base64_data].first] = at[1 - p][it.base64_data].second;
    CHECK_THAT(v.size() == m.size() && m == want, "an entitled party's file names its common rows with the other party's counts");
  });
  sym_reach("end");
  return 0;
}
// a bucket is handed to the protocol exactly if no party's share is empty
extern "C" int h_prepare() {
  auto w = yacl::link::test::SetupWorld(2);
  size_t nb = 2;
  std::vector<std::vector<std::string>> have[2];
  size_t bucket = choose(nb, "bucket");
  for (int p = 0; p < 2; p++) {
    have[p].resize(nb);
    std::filesystem::create_directories("/tmp/c" + std::to_string(p));
  }
  std::vector<std::unique_ptr<HashBucketCache>> c(2);
  for (int p = 0; p < 2; p++) {
    c[p] = std::make_unique<HashBucketCache>("/tmp/c" + std::to_string(p), nb, false);
    for (size_t l = 0; l < 2; l++) if (choose(2, "has")) { std::string s(1, (p ? 'm' : 'a') + l); c[p]->WriteItem(s, 0); have[p][std::hash<std::string>()(absl::Base64Escape(s)) % nb].push_back(s); }
    c[p]->Flush();
  }
  run(w, [&](size_t p) {
    auto r = PrepareBucketData(v2::PROTOCOL_KKRT, bucket, w[p], c[p].get());
    bool empty = have[0][bucket].empty() || have[1][bucket].empty();
    CHECK_THAT(r.has_value() == !empty, "a bucket is worked on exactly if both parties have items in it");
    if (r) CHECK_THAT(r->size() == have[p][bucket].size(), "the whole bucket is loaded");
  });
  sym_reach("end");
  return 0;
}
