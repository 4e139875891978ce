import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P13/spec.py").read(), ns)
SRC, PR, SUP = ns["SPEC"]["sources"], ns["SPEC"]["protos"], ns["SPEC"]["support"]
SRC = SRC + ["psi/utils/arrow_csv_batch_provider.cc", "psi/utils/arrow_helper.cc", "psi/utils/key.cc"]
HEAD = r"""
#include <cstdio>
#include <thread>
#include "psi/utils/bucket.h"
#include "psi/utils/sync.h"
#include "yacl/link/test_util.h"
using namespace psi;
"""
K = dict(support=SUP, protos=PR, threads=True)
seed("bucket-sort-early", "P13", [("psi/utils/bucket.cc", """    std::unordered_map<std::string, uint32_t> peer_result;
    for (size_t i""", """    std::sort(result_list.begin(), result_list.end());
    std::unordered_map<std::string, uint32_t> peer_result;
    for (size_t i""")], SRC, HEAD + r"""
int main() {
  auto w = yacl::link::test::SetupWorld(2);
  std::filesystem::create_directories("/tmp/b");
  std::vector<HashBucketCache::BucketItem> v(3);
  const char* n[] = {"q", "c", "b"};
  for (int i = 0; i < 3; i++) { v[i].index = i; v[i].base64_data = n[i]; v[i].extra_dup_cnt = i == 1 ? 5 : 0; }
  std::vector<HashBucketCache::BucketItem> res{v[1], v[2]};
  std::thread a([&] { IndexWriter x("/tmp/b/0"); HandleBucketResultByReceiver(true, w[0], res, {0, 0}, &x); });
  std::thread b([&] { IndexWriter x("/tmp/b/1"); HandleBucketResultBySender(true, w[1], v, &x); });
  a.join(); b.join();
  FileIndexReader r("/tmp/b/1");
  int bad = 0, k = 0;
  while (auto x = r.GetNextWithPeerCnt()) { printf("row %lu, peer extra %lu\n", (unsigned long)x->first, (unsigned long)x->second); bad |= x->second != (x->first == 1 ? 5u : 0u); k++; }
  return bad || k != 2;
}
""", "the sender sorts the shared items before it pairs them with their counts", "a shared list that is not in sorted order and in which some item is repeated", **K)
seed("negotiate-rank0", "P13", [("psi/utils/bucket.cc", """  for (size_t idx = 0; idx < items_size_list.size(); idx++) {
    bucket_count_list[idx] =""", """  for (size_t idx = 1; idx < items_size_list.size(); idx++) {
    bucket_count_list[idx] =""")], SRC, HEAD + r"""
int main() {
  auto w = yacl::link::test::SetupWorld(2);
  int bad = 0;
  size_t cases[][3] = {{5, 7, 4}, {7, 5, 4}, {0, 7, 0}, {9, 2, 5}};
  for (auto& c : cases) {
    size_t r[2];
    std::thread a([&] { r[0] = NegotiateBucketNum(w[0], c[0], 2, 1); });
    std::thread b([&] { r[1] = NegotiateBucketNum(w[1], c[1], 2, 1); });
    a.join(); b.join();
    printf("%zu and %zu items: %zu and %zu buckets\n", c[0], c[1], r[0], r[1]);
    bad |= r[0] != c[2] || r[1] != c[2];
  }
  return bad;
}
""", "the size of rank 0 is left out", "rank 0 is the larger party, or empty", **K)
