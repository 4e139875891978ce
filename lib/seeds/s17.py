import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P17/spec.py").read(), ns)
SP = ns["SPEC"]
K = dict(flags="-I$T/shims/atomic", inputs="param hash_table=1\n", support=SP["support"], protos=SP["protos"], threads=True)
HEAD = r"""
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <set>
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/table_utils.h"
#include "psi/utils/index_store.h"
using namespace psi;
using Strs = std::vector<std::string>;
static void put(const std::string& p, const std::string& t) { std::filesystem::create_directories("/tmp/d"); std::ofstream f(p); f << t; }
static std::string file(const std::string& p) { std::ifstream f(p); std::string l, r; while (std::getline(f, l)) r += l + "\n"; return r; }
"""
only = sys.argv[1:]
def S(i, *a):
    if not only or i in only: seed(i, "P17", a[0], SP["sources"], HEAD + a[1], a[2], a[3], **K)
U = "psi/utils/"
S("csv-batch-border", [(U + "arrow_csv_batch_provider.cc", "        batch_size_ - read_keys->size(),\n        static_cast<size_t>(buffer_batch_->num_rows() - idx_in_batch_));", "        batch_size_,\n        static_cast<size_t>(buffer_batch_->num_rows() - idx_in_batch_));")], r"""
int main() {
  put("/tmp/d/in.csv", "id,v\na,1\nb,2\nc,3\nd,4\ne,5\nf,6\ng,7\n");
  arrow::csv::shim::rowsPerBatch() = 3;
  int bad = 0;
  ArrowCsvBatchProvider p("/tmp/d/in.csv", {"id"}, 2, {"v"});
  for (int i = 0; i < 3; i++) bad |= p.ReadNextBatch().size() != 2;
  bad |= p.ReadNextBatch() != Strs{"g"};
  printf("%s\n", bad ? "batches are larger than asked for" : "ok");
  return bad;
}
""", "a batch that continues into the next record batch takes a whole batch's worth of further rows", "a table of several record batches whose sizes are no multiple of the batch size")
S("shuffle-base", [(U + "batch_provider_impl.cc", "            shuffle_base_index_ + buffer_.shuffled_indices.front());\n        SPDLOG_DEBUG", "            (base_index_ - base_index_ % batch_size_) +\n            buffer_.shuffled_indices.front());\n        SPDLOG_DEBUG")], r"""
int main() {
  put("/tmp/d/in.csv", "id\na\nb\nc\nd\ne\nf\ng\n");
  int bad = 0;
  SimpleShuffledBatchProvider p(std::make_shared<ArrowCsvBatchProvider>("/tmp/d/in.csv", Strs{"id"}, 4), 2);
  while (true) {
    auto b = p.ReadNextShuffledBatch();
    if (b.batch_items.empty()) break;
    for (size_t i = 0; i < b.batch_items.size(); i++) bad |= b.batch_items[i] != std::string(1, (char)('a' + b.shuffled_indices[i]));
  }
  printf("%s\n", bad ? "an item has another item's place" : "ok");
  return bad;
}
""", "the place of a block's first item is derived from the batches given out, as if blocks were as large as batches", "a source that is read in blocks larger than the batches given out")
S("unique-third-batch", [(U + "table_utils.cc", "  read_index_ += batch_info.start_indexes.size();", "  read_index_ = batch_info.start_indexes.size();")], r"""
int main() {
  put("/tmp/d/in.csv", "id\na\nb\nc\nd\ne\nf\ng\n");
  int bad = 0;
  uint32_t at = 0;
  auto p = KeyInfo::Make(UniqueKeyTable::Make("/tmp/d/in.csv", "csv", {"id"}))->GetBatchProvider(2);
  while (true) {
    auto b = p->ReadBatchWithInfo();
    if (b.keys.empty()) break;
    for (auto i : b.start_indexes) bad |= i != at++;
  }
  printf("%s\n", bad ? "a key has another row's number" : "ok");
  return bad;
}
""", "row numbers start from the size of the last batch, not from the rows read so far", "a table without repeated keys that takes three batches or more")
