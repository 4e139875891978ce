#include "task.h"
#include <thread>
#define final  // the check derives from the parties to set the batch size
#include "psi/algorithm/kkrt/receiver.h"
#include "psi/algorithm/kkrt/sender.h"
#include "psi/algorithm/rr22/receiver.h"
#include "psi/algorithm/rr22/sender.h"
#undef final
#include "psi/algorithm/rr22/common.h"
#include "psi/algorithm/rr22/rr22_psi.h"
#include "yacl/link/test_util.h"
template <class A, class B>
static void runBoth(Side& R, Side& S, int jt, bool bc, bool left, v2::Protocol proto) {
  auto w = yacl::link::test::SetupWorld(2);
  std::thread t0([&] { Party<A> p(config(R, true, jt, bc, left, false, proto), w[0]); R.rep = p.Run(); });
  std::thread t1([&] { Party<B> p(config(S, false, jt, bc, left, false, proto), w[1]); S.rep = p.Run(); });
  t0.join();
  t1.join();
}
static void task(bool kkrt) {
  symcrypto::counter() += 50 * sym_param("rand_salt", 0);  // other shuffles
  Side R, S;
  int jt = sym_param("jt", 1);
  bool bc = sym_param("bc", 1);
  R.uniq = sym_param("uniq", 0) & 1;
  S.uniq = sym_param("uniq", 0) & 2;
  mkInput(R, sym_param("nr", 2), "r", "/tmp/w");
  mkInput(S, sym_param("ns", 2), "s", "/tmp/w");
  bool left = jt > 1 ? choose(2, "left") : true;
  if (kkrt) runBoth<kkrt::KkrtPsiReceiver, kkrt::KkrtPsiSender>(R, S, jt, bc, left, v2::PROTOCOL_KKRT);
  else runBoth<rr22::Rr22PsiReceiver, rr22::Rr22PsiSender>(R, S, jt, bc, left, v2::PROTOCOL_RR22);
  check(R, S, jt, bc, left);
  sym_reach("end");
}
extern "C" int h_kkrt() { task(true); return 0; }
extern "C" int h_rr22() { task(false); return 0; }
// the three overlapping stages of RR22 over a list of buckets, both parties
extern "C" int h_runner() {
  size_t nb = sym_param("nb", 2), start = choose(2, "first bucket");
  bool bc = symBool("both get the result");
  // per bucket: the receiver holds letters a and b, the sender b and c, any of them missing
  std::vector<HashBucketCache::BucketItem> items[2][4];
  for (int p = 0; p < 2; p++)
    for (size_t b = 0; b < nb; b++) {
      size_t n = b == nb - 1 ? choose(3, "items") : 2;
      for (size_t k = 0; k < n; k++) {
        HashBucketCache::BucketItem it;
        it.index = 10 * b + k + p;
        it.extra_dup_cnt = 3 * p + k + b;
        it.base64_data = std::string(1, 'a' + 3 * b + k + p);
        items[p][b].push_back(it);
      }
    }
  auto w = yacl::link::test::SetupWorld(2);
  std::vector<size_t> order[2];
  std::vector<std::vector<std::pair<uint64_t, uint32_t>>> out[2];
  std::thread th[2];
  for (int p = 0; p < 2; p++)
    th[p] = std::thread([&, p] {
      rr22::PreProcessFunc pre = [&, p](size_t i) { return items[p][i]; };
      rr22::PostProcessFunc post = [&, p](size_t b, const std::vector<HashBucketCache::BucketItem>& it, const std::vector<uint32_t>& idx, const std::vector<uint32_t>& cnt) {
        CHECK_THAT(idx.size() == cnt.size(), "one count per match");
        order[p].push_back(b);
        std::vector<std::pair<uint64_t, uint32_t>> v;
        for (size_t i = 0; i < idx.size(); i++) {
          CHECK_THAT(idx[i] < it.size(), "a match is one of the bucket's items");
          v.emplace_back(it[idx[i]].index, cnt[i]);
        }
        out[p].push_back(v);
      };
      rr22::Rr22Runner r(w[p], rr22::GenerateRr22PsiOptions(false), nb, bc, pre, post);
      r.AsyncRun(start, p == 1);
    });
  th[0].join();
  th[1].join();
  for (int p = 0; p < 2; p++) {
    CHECK_THAT(order[p].size() == nb - start, "every bucket from the first one on is finished once");
    for (size_t k = 0; k < order[p].size(); k++) {
      size_t b = start + k;
      CHECK_THAT(order[p][k] == b, "buckets are finished in order");
      bool common = items[0][b].size() == 2 && items[1][b].size() >= 1 && (p == 0 || bc);
      CHECK_THAT(out[p][k].size() == (size_t)common, "the bucket's common items are found");
      if (common) {
        auto& mine = items[p][b][p == 0 ? 1 : 0];
        auto& peer = items[1 - p][b][p == 0 ? 0 : 1];
        CHECK_THAT(out[p][k][0].first == mine.index && out[p][k][0].second == peer.extra_dup_cnt, "a match gives the own item and the peer's count");
      }
    }
  }
  sym_reach("end");
  return 0;
}
