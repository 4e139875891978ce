// Tables in, rows out: CSV batches, sorting, key groups, applying an intersection, shuffled batches, index files.
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/arrow_helper.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/index_store.h"
#include "psi/utils/key.h"
#include "psi/utils/table_utils.h"
#include "sym.h"
#include "symio.h"
#include "yacl/shim_hash.h"
using namespace psi;
typedef std::vector<std::string> Strs;
static const std::string DIR = "/scratch/t";
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
static bool sameAll(const Strs& a, const Strs& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
  return true;
}
static std::string cell(const char* what, size_t len = 1) {
  std::string s = symStr(len, what);
  for (char& c : s) sym_assume((c >= 'a') & (c <= 'a' + (char)sym_param("last letter", 25)));
  return s;
}
struct Tab {
  Strs cols;
  std::vector<Strs> rows;  // unquoted values
  std::vector<bool> q;     // row written with quotes
  std::string path;
  size_t blank = 99;       // an empty line in front of this row
  bool crlf = false;
  std::string line(size_t i) const {
    std::string l;
    for (size_t c = 0; c < cols.size(); c++) {
      if (c) l += ',';
      if (i < q.size() && q[i]) {
        l += '"';
        for (char x : rows[i][c]) { if (x == '"') l += '"'; l += x; }
        l += '"';
      } else l += rows[i][c];
    }
    return l + (crlf ? "\r" : "");
  }
  void write() const {
    std::filesystem::create_directories(DIR);
    std::ofstream f(path);
    for (size_t c = 0; c < cols.size(); c++) f << (c ? "," : "") << cols[c];
    f << (crlf ? "\r\n" : "\n");
    for (size_t i = 0; i <= rows.size(); i++) {
      if (i == blank) f << (crlf ? "\r\n" : "\n");
      if (i < rows.size()) f << line(i) << '\n';
    }
  }
  std::string key(size_t i, const Strs& ks) const {
    std::string k;
    for (size_t j = 0; j < ks.size(); j++) {
      if (j) k += ',';
      for (size_t c = 0; c < cols.size(); c++) if (cols[c] == ks[j]) { k += rows[i][c]; break; }
    }
    return k;
  }
};
static Strs lines(const std::string& p) {
  Strs r;
  std::ifstream f(p);
  std::string l;
  while (std::getline(f, l)) r.push_back(l);
  return r;
}
static Strs pick(const char* w, std::initializer_list<Strs> l) { return *(l.begin() + choose(l.size(), w)); }
extern "C" int h_csv() {
  Tab t;
  t.path = DIR + "/in.csv";
  t.cols = {"a", "b", "c"};
  size_t n = choose(sym_param("n", 3) + 1, "rows");
  for (size_t i = 0; i < n; i++) {
    t.rows.push_back({cell("a"), std::string(1, (char)('m' + i)), cell("c")});
    t.q.push_back(sym_param("quoted", 0) && i % 2 == 1);
    if (t.q[i]) t.rows[i][1] = "m,\"" + t.rows[i][1];
  }
  if (sym_param("blanks", 0) && choose(2, "blank line")) t.blank = choose(n + 1, "before row");
  t.crlf = sym_param("blanks", 0) && choose(2, "line ends");
  t.write();
  Strs ks = pick("keys", {{"a"}, {"c", "a"}, {"b"}}), ls = pick("labels", {{}, {"b"}, {"c", "b"}});
  size_t bs = choose(sym_param("batch", 3), "batch size") + 1;
  arrow::csv::shim::rowsPerBatch() = choose(sym_param("block", 3), "block");
  ArrowCsvBatchProvider p(t.path, ks, bs, ls);
  CHECK_THAT(p.batch_size() == bs, "the batch size");
  size_t at = 0;
  while (true) {
    std::pair<Strs, Strs> b;
    if (ls.empty()) b.first = p.ReadNextBatch(); else b = p.ReadNextLabeledBatch();
    CHECK_THAT(b.first.size() == std::min(bs, n - at), "all batches but the last are full");
    CHECK_THAT(b.second.size() == (ls.empty() ? 0 : b.first.size()), "one label per row");
    for (size_t i = 0; i < b.first.size(); i++) {
      CHECK_THAT(same(b.first[i], t.key(at + i, ks)), "a batch has the rows' keys in the order asked for");
      if (!ls.empty()) CHECK_THAT(same(b.second[i], t.key(at + i, ls)), "a batch has the rows' labels");
    }
    at += b.first.size();
    if (b.first.empty()) break;
  }
  CHECK_THAT(at == n, "every row comes once");
  CHECK_THAT(p.row_cnt() == n, "rows counted");
  CHECK_THAT(p.ReadNextBatch().empty(), "the end is final");
  sym_reach("end");
  return 0;
}
extern "C" int h_sort() {
  Tab t;
  t.path = DIR + "/in.csv";
  t.cols = {"a", "b", "c"};
  size_t n = choose(sym_param("n", 3), "rows") + 1;
  bool num = sym_param("numeric", 0);
  for (size_t i = 0; i < n; i++) t.rows.push_back(num ? Strs{std::to_string(chooseRange(8, 11, "a")), std::string(1, (char)('m' + i)), std::to_string(chooseRange(9, 10, "c"))} : Strs{cell("a"), std::string(1, (char)('m' + i)), cell("c", 1 + (sym_param("longer", 0) && choose(2, "length")))});
  t.write();
  Strs ks = pick("keys", {{"a"}, {"c"}, {"c", "a"}, {"a", "c"}});
  auto out = DIR + "/out.csv";
  MultiKeySort(t.path, out, ks, num);
  auto l = lines(out);
  CHECK_THAT(l.size() == n + 1 && l[0] == "a,b,c", "header and all rows");
  std::vector<size_t> o;
  for (size_t i = 1; i < l.size(); i++) {
    size_t k = 0;
    while (k < n && !same(l[i], t.line(k))) k++;
    CHECK_THAT(k < n, "rows are copied as they are");
    o.push_back(k);
  }
  auto less = [&](size_t x, size_t y) {
    for (auto& k : ks) {
      size_t c = k == "a" ? 0 : 2;
      auto &p = t.rows[x][c], &q = t.rows[y][c];
      if (num) { if (std::stoi(p) != std::stoi(q)) return std::stoi(p) < std::stoi(q); continue; }
      for (size_t i = 0; i < std::min(p.size(), q.size()); i++) if (p[i] != q[i]) return p[i] < q[i];
      if (p.size() != q.size()) return p.size() < q.size();
    }
    return false;
  };
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < i; j++) {
      CHECK_THAT(o[i] != o[j], "every row comes once");
      CHECK_THAT(!less(o[i], o[j]), "rows are in the order of the keys, in the order the keys are given");
      if (!less(o[j], o[i])) CHECK_THAT(o[j] < o[i], "rows with equal keys keep their order");
    }
  sym_reach("end");
  return 0;
}
// a table of n rows with its key info
struct Info {
  Tab t;
  Strs ks;
  bool uniq;
  std::string sorted;
  std::shared_ptr<KeyInfo> k;
  // oracle: the lines in the order of the table the key info is about
  std::vector<size_t> order;
  struct G { std::string key; size_t start, dup; };
  std::vector<G> groups;
  explicit Info(bool u, const std::string& nm = "in") : uniq(u) {
    t.path = DIR + "/" + nm + ".csv";
    sorted = DIR + "/" + nm + ".sorted.csv";
    t.cols = sym_param("keylast", 0) ? Strs{"v", "id"} : Strs{"id", "v"};
    ks = {"id"};
    if (sym_param("cols", 1) == 2) { t.cols.push_back("id2"); ks = {"id2", "id"}; }
  }
  void fill(size_t n) {
    for (size_t i = 0; i < n; i++) {
      Strs r;
      std::string v = cell("key");
      if (sym_param("special", 0)) v += std::string(1, (char)choose(2, "more") ? '"' : 'b') + (choose(2, "tail") ? "b" : "");
      for (auto& c : t.cols) r.push_back(c == "v" ? std::string(1, (char)('n' + n - i)) : c == "id" ? v : cell("key 2"));
      t.rows.push_back(r);
      t.q.push_back(sym_param("special", 0));
      if (uniq) for (size_t j = 0; j < i; j++) sym_assume(!same(t.key(j, ks), t.key(i, ks)));
    }
    if (sym_param("blanks", 0)) t.blank = choose(n + 2, "blank line before row");
    t.crlf = sym_param("blanks", 0) && choose(2, "line ends");
    t.write();
    order.resize(n);
    for (size_t i = 0; i < n; i++) order[i] = i;
    auto before = [&](size_t x, size_t y) {
      for (auto& c : ks) {
        size_t k = std::find(t.cols.begin(), t.cols.end(), c) - t.cols.begin();
        auto &p = t.rows[x][k], &q = t.rows[y][k];
        for (size_t i = 0; i < std::min(p.size(), q.size()); i++) if (p[i] != q[i]) return p[i] < q[i];
        if (p.size() != q.size()) return p.size() < q.size();
      }
      return false;
    };
    if (!uniq)  // insertion sort, stable
      for (size_t i = 1; i < n; i++)
        for (size_t j = i; j && before(order[j], order[j - 1]); j--) std::swap(order[j], order[j - 1]);
    // keys that only differ in quotes sort by their raw text: take the order from the file then
    if (!uniq && sym_param("special", 0)) {
      sort();
      auto l = lines(sorted);
      for (size_t i = 0; i < n; i++) { size_t k = 0; bool used = true; while (used) { while (!same(l[i + 1], t.line(k))) k++; used = false; for (size_t j = 0; j < i; j++) used |= order[j] == k; if (used) k++; } order[i] = k; }
    }
    for (size_t i = 0; i < n; i++) {
      auto key = t.key(order[i], ks);
      if (!uniq && !groups.empty() && same(groups.back().key, key)) groups.back().dup++;
      else groups.push_back({key, i, 0});
    }
  }
  void sort() { st = SortedTable::Make(Table::MakeFromCsv(t.path), sorted, ks); }
  std::shared_ptr<SortedTable> st;
  void make() {
    if (uniq) { k = KeyInfo::Make(UniqueKeyTable::Make(t.path, "csv", ks)); return; }
    if (!st) sort();
    k = KeyInfo::Make(st, DIR + "/info.csv");
  }
};
extern "C" int h_keyinfo() {
  Info f(sym_param("uniq", 0));
  arrow::csv::shim::rowsPerBatch() = choose(sym_param("block", 3), "block");
  f.fill(choose(sym_param("n", 3), "rows") + 1);
  for (int round = 0; round < 2; round++) {
    f.make();
    size_t dups = 0;
    for (auto& g : f.groups) dups += g.dup != 0;
    CHECK_THAT(f.k->KeyCnt() == f.groups.size(), "number of different keys");
    CHECK_THAT(f.k->DupKeyCnt() == dups, "number of keys that repeat");
    CHECK_THAT(f.k->OriginCnt() == f.order.size(), "number of rows");
    CHECK_THAT(f.k->SourceFileColumns() == f.t.cols, "columns of the table");
    size_t bs = choose(sym_param("batch", 3), "batch size") + 1, at = 0, at2 = 0;
    auto p = f.k->GetBatchProvider(bs);
    while (true) {
      auto b = p->ReadBatchWithInfo();
      CHECK_THAT(b.keys.size() == std::min(bs, f.groups.size() - at) && b.start_indexes.size() == b.keys.size() && b.dup_cnts.size() == b.keys.size(), "all batches but the last are full");
      for (size_t i = 0; i < b.keys.size(); i++, at++)
        CHECK_THAT(same(b.keys[i], f.groups[at].key) & (b.start_indexes[i] == f.groups[at].start) & (b.dup_cnts[i] == f.groups[at].dup), "each key once, with its first row and repetitions");
      if (b.keys.empty()) break;
    }
    CHECK_THAT(at == f.groups.size(), "all keys");
    auto d = f.k->GetKeysProviderWithDupCnt(bs);
    while (true) {
      auto [it, cnt] = d->ReadNextBatchWithDupCnt();
      CHECK_THAT(it.size() == std::min(bs, f.groups.size() - at2), "all batches but the last are full");
      for (size_t i = 0; i < it.size(); i++, at2++) {
        auto c = cnt.find(i);
        CHECK_THAT(same(it[i], f.groups[at2].key) & ((c == cnt.end() ? 0 : c->second) == f.groups[at2].dup), "each key once, with its repetitions");
      }
      if (it.empty()) break;
    }
  }
  sym_reach("end");
  return 0;
}
// The rows of an intersection: which keys, and how often the other party has them.
extern "C" int h_apply() {
  Info f(sym_param("uniq", 0));
  arrow::csv::shim::rowsPerBatch() = sym_param("block", 0);
  f.fill(choose(sym_param("n", 3), "rows") + 1);
  f.make();
  std::vector<uint32_t> idx, cnt;
  std::map<size_t, uint32_t> peer;
  for (size_t g = 0; g < f.groups.size(); g++)
    if (choose(2, "common")) { peer[g] = (uint32_t)choose(sym_param("counts", 2), "peer repeats"); }
  for (auto& [g, c] : peer) { idx.push_back(g); cnt.push_back(c); }
  std::unique_ptr<IndexReader> r;
  if (sym_param("file", 0)) {
    { IndexWriter w(DIR + "/index.csv"); for (size_t i = 0; i < idx.size(); i++) { w.WriteCache(idx[i], cnt[i]); if (i == 0) w.Commit(); } }
    r = std::make_unique<FileIndexReader>(DIR + "/index.csv");
  } else {
    if (choose(2, "reversed")) { std::reverse(idx.begin(), idx.end()); std::reverse(cnt.begin(), cnt.end()); }
    r = std::make_unique<MemoryIndexReader>(idx, cnt);
  }
  bool group = choose(2, "repeat whole groups");
  int want = sym_param("files", 0) ? (int)choose(4, "outputs") : 3;
  KeyInfo::StatInfo s;
  {
    ResultDumper d(want & 1 ? DIR + "/inter.csv" : "", want & 2 ? DIR + "/except.csv" : "");
    s = f.k->ApplyPeerDupCnt(*r, d, group);
    d.Flush();
  }
  Strs in, ex;
  size_t self = 0, pc = 0;
  for (size_t g = 0; g < f.groups.size(); g++) {
    auto it = peer.find(g);
    Strs mine;
    for (size_t i = 0; i <= f.groups[g].dup; i++) mine.push_back(f.t.line(f.order[f.groups[g].start + i]));
    if (it == peer.end()) { ex.insert(ex.end(), mine.begin(), mine.end()); continue; }
    self += mine.size(), pc += it->second + 1;
    if (group) for (size_t k = 0; k <= it->second; k++) in.insert(in.end(), mine.begin(), mine.end());
    else for (auto& l : mine) for (size_t k = 0; k <= it->second; k++) in.push_back(l);
  }
  if (want & 1) {
    auto l = lines(DIR + "/inter.csv");
    CHECK_THAT(!l.empty() && sameAll(Strs(l.begin() + 1, l.end()), in), "the rows of the common keys, each as often as the other party has the key");
  }
  if (want & 2) {
    auto l = lines(DIR + "/except.csv");
    CHECK_THAT(!l.empty() && sameAll(Strs(l.begin() + 1, l.end()), ex), "the other rows, each once");
  }
  CHECK_THAT(s.self_intersection_count == self && s.peer_intersection_count == pc && s.join_intersection_count == in.size() && s.inter_unique_cnt == peer.size(), "counts of the intersection");
  CHECK_THAT(s.original_count == f.order.size(), "number of rows");
  sym_reach("end");
  return 0;
}
// Two tables have the same digest exactly when they have the same keys.
extern "C" int h_digest() {
  bool u = sym_param("uniq", 0);
  Info a(u, "a"), b(u, "b");
  a.fill(choose(2, "rows") + 1);
  b.fill(choose(2, "rows") + 1);
  a.make();
  auto ha = a.k->KeysHash();
  std::filesystem::remove(DIR + "/info.csv");
  std::filesystem::remove(DIR + "/info.csv.meta");
  b.make();
  bool eq = a.groups.size() == b.groups.size();
  for (size_t i = 0; eq && i < a.groups.size(); i++) eq = same(a.groups[i].key, b.groups[i].key);
  CHECK_THAT((ha == b.k->KeysHash()) == eq, "digests are equal exactly for equal keys");
  sym_reach("end");
  return 0;
}
// Keys of several columns stay apart.
extern "C" int h_commas() {
  Tab t;
  t.path = DIR + "/in.csv";
  t.cols = {"id", "id2"};
  t.rows = {{"x,y", "z"}, {"x", "y,z"}};
  t.q = {true, true};
  t.write();
  ArrowCsvBatchProvider p(t.path, {"id", "id2"}, 4);
  auto b = p.ReadNextBatch();
  CHECK_THAT(b.size() == 2 && b[0] != b[1], "different key columns give different keys");
  sym_reach("end");
  return 0;
}
// Quoted fields that hold commas.
extern "C" int h_quoted() {
  Tab t;
  t.path = DIR + "/in.csv";
  t.cols = {"v", "id"};
  t.rows = {{"1,z", "b"}, {"2,y", "a"}, {"3,x", "b"}};
  t.q = {true, true, true};
  t.write();
  auto k = KeyInfo::Make(SortedTable::Make(Table::MakeFromCsv(t.path), DIR + "/s.csv", {"id"}), DIR + "/info.csv");
  CHECK_THAT(k->KeyCnt() == 2, "each key once");
  sym_reach("end");
  return 0;
}
struct Src : IBasicBatchProvider {
  std::vector<std::pair<Strs, std::unordered_map<uint32_t, uint32_t>>> b;
  size_t at = 0, bs = 1;
  size_t batch_size() const override { return bs; }
  Strs ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<Strs, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    if (at >= b.size()) return {};
    return b[at++];
  }
};
extern "C" int h_shuffled() {
  auto src = std::make_shared<Src>();
  src->bs = chooseRange(1, sym_param("source", 3), "source batch");
  size_t n = choose(sym_param("n", 5), "items"), bs = choose(sym_param("batch", 3), "batch size") + 1;
  Strs items;
  std::vector<uint32_t> cnt;
  for (size_t i = 0; i < n; i++) {
    if (i % src->bs == 0) src->b.emplace_back();
    items.push_back(std::string(1, (char)('a' + i)) + symStr(1, "item"));
    cnt.push_back(sym<uint32_t>("count"));
    if (cnt[i] != 0) src->b.back().second[i % src->bs] = cnt[i];
    src->b.back().first.push_back(items[i]);
  }
  if (sym_param("small", 1)) for (auto c : cnt) sym_assume(c < 2);
  SimpleShuffledBatchProvider p(src, bs);
  size_t at = 0;
  std::set<size_t> seen;
  while (true) {
    auto b = p.ReadNextShuffledBatch();
    CHECK_THAT(b.batch_items.size() == std::min(bs, n - at), "all batches but the last are full");
    CHECK_THAT(b.batch_indices.size() == b.batch_items.size() && b.shuffled_indices.size() == b.batch_items.size() && b.dup_cnts.size() == b.batch_items.size(), "everything for every item");
    for (size_t i = 0; i < b.batch_items.size(); i++) {
      CHECK_THAT(b.batch_indices[i] == at + i, "items are numbered in the order given out");
      size_t k = b.shuffled_indices[i];
      CHECK_THAT(k < n && seen.insert(k).second, "every item comes once");
      CHECK_THAT(same(b.batch_items[i], items[k]), "the item's place in the source");
      CHECK_THAT(b.dup_cnts[i] == cnt[k], "the item's repetitions");
    }
    at += b.batch_items.size();
    if (b.batch_items.empty()) break;
  }
  CHECK_THAT(at == n, "all items");
  CHECK_THAT(p.ReadNextShuffledBatch().batch_items.empty(), "the end is final");
  sym_reach("end");
  return 0;
}
extern "C" int h_memory() {
  size_t n = choose(sym_param("n", 5), "items"), bs = choose(sym_param("batch", 3), "batch size") + 1;
  Strs items, labels;
  for (size_t i = 0; i < n; i++) items.push_back(std::string(1, (char)('a' + i)) + symStr(1, "item")), labels.push_back(std::string(1, (char)('A' + i)));
  size_t kind = choose(4, "read");
  MemoryBatchProvider p(items, bs, labels, kind == 2);
  size_t at = 0;
  std::set<size_t> seen;
  if (kind == 2 && !n) { CHECK_THAT(throws([&] { p.ReadNextShuffledBatch(); }), "an empty set cannot be shuffled"); sym_reach("end"); return 0; }
  for (size_t k = 0; k < n + 2; k++) {
    Strs it;
    if (kind == 0) it = p.ReadNextBatch();
    if (kind == 1) { if (!n) break; auto b = p.ReadNextLabeledBatch(); it = b.first; CHECK_THAT(b.second == Strs(labels.begin() + at, labels.begin() + std::min(n, at + bs)), "labels of the items"); }
    if (kind == 2) {
      auto b = p.ReadNextShuffledBatch();
      it = b.batch_items;
      for (size_t i = 0; i < it.size(); i++) {
        CHECK_THAT(b.batch_indices[i] == at + i && b.shuffled_indices[i] < n && seen.insert(b.shuffled_indices[i]).second && b.shuffled_indices[i] == p.shuffled_indices()[at + i], "every item comes once");
        CHECK_THAT(same(it[i], items[b.shuffled_indices[i]]), "the item's place");
      }
    }
    size_t want = bs;
    if (kind == 3) { want = choose(3, "how many"); for (auto& d : p.ReadNext(want)) it.push_back(d.buf); }
    CHECK_THAT(it.size() == std::min(want, n - at), "as many as asked for, or the rest");
    if (kind != 2) for (size_t i = 0; i < it.size(); i++) CHECK_THAT(same(it[i], items[at + i]), "items in order");
    at += it.size();
  }
  if (kind != 3 && n) CHECK_THAT(at == n, "all items");
  CHECK_THAT(p.ReadAll().size() == n, "everything at once");
  sym_reach("end");
  return 0;
}
