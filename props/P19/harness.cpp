// The older file-based tasks: tables in, rows of the common keys out
#include <filesystem>
#include <fstream>
#include <set>
#include <thread>
#include "psi/legacy/bucket_psi.h"
#include "psi/utils/index_store.h"
#include "sym.h"
#include "yacl/link/test_util.h"
#include "yacl/shim_hash.h"
using namespace psi;
// keys that run together: "ab" next to "a","b"; with two columns the split matters too
static std::vector<std::string> key(unsigned l) {
  static const char* one[] = {"ab", "a", "b", "ba"};
  static const char* two[][2] = {{"ab", "a"}, {"a", "ba"}, {"a", "b"}, {"b", "a"}};
  if (sym_param("cols", 1) == 2) return {two[l][0], two[l][1]};
  return {one[l]};
}
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : ",") + x; return r; }
struct Table {
  unsigned mask = 0;
  std::vector<unsigned> order;  // the letter of every row
  std::vector<std::string> rows;
  bool dup = false;
  std::string in, out;
};
static std::vector<std::string> lines(const std::string& path) {
  std::ifstream f(path);
  std::vector<std::string> v;
  std::string l;
  while (std::getline(f, l)) v.push_back(l);
  return v;
}
static std::string header(bool last) { std::string k = sym_param("cols", 1) == 2 ? "id2,id1" : "id"; return last ? "v," + k : k + ",v"; }
static void make(Table& t, size_t p, unsigned letters, bool dups) {
  t.mask = choose(1u << letters, "keys");
  for (unsigned l = 0; l < letters; l++) if (t.mask >> l & 1) t.order.push_back(l);
  if (t.order.size() > 1 && choose(2, "other order")) std::reverse(t.order.begin(), t.order.end());
  if (dups && !t.order.empty() && choose(2, "a key twice")) { t.order.push_back(t.order[0]); t.dup = true; }
  std::string dir = "/tmp/p" + std::to_string(p);
  std::filesystem::create_directories(dir);
  t.in = dir + "/in.csv";
  t.out = dir + "/o/out.csv";  // the folder does not exist yet
  bool last = p % 2;
  std::ofstream f(t.in);
  f << header(last) << "\n";
  int i = 0;
  for (auto l : t.order) {
    auto k = key(l);
    if (k.size() == 2) std::swap(k[0], k[1]);  // the columns stand the other way round than they are selected
    std::string v = std::string("v") + (char)('z' - i) + (char)('0' + p);
    i++;
    t.rows.push_back(last ? v + "," + join(k) : join(k) + "," + v);
    f << t.rows.back() << "\n";
  }
}
extern "C" int h_run() {
  symcrypto::counter() += 50 * sym_param("rand_salt", 0);
  size_t n = sym_param("n", 2);
  auto type = (PsiType)sym_param("type", 1);
  bool dups = sym_param("dups", 0);
  std::vector<Table> t(n);
  for (size_t p = 0; p < n; p++) make(t[p], p, sym_param("letters", 3), dups);
  bool bc = sym_param("bc", -1) >= 0 ? sym_param("bc", 0) : choose(2, "broadcast"), sort = sym_param("sort", -1) >= 0 ? sym_param("sort", 0) : choose(2, "sort"), pre = dups || sym_param("pre", 0);
  size_t recv = sym_param("recv", -1) >= 0 ? sym_param("recv", 0) : choose(n, "receiver");
  bool prog = sym_param("progress", 0);
  auto w = yacl::link::test::SetupWorld(n);
  std::vector<PsiResultReport> rep(n);
  std::vector<std::string> err(n);
  std::vector<std::vector<size_t>> seen(n);
  std::vector<std::thread> ts;
  for (size_t p = 0; p < n; p++) ts.emplace_back([&, p] {
    try {
      BucketPsiConfig c;
      c.set_psi_type(type);
      c.set_receiver_rank(recv);
      c.set_broadcast_result(bc);
      c.set_curve_type(CurveType::CURVE_25519);
      c.set_bucket_size(sym_param("bucket", 0));
      c.mutable_input_params()->set_path(t[p].in);
      for (auto& f : sym_param("cols", 1) == 2 ? std::vector<std::string>{"id1", "id2"} : std::vector<std::string>{"id"}) c.mutable_input_params()->add_select_fields(f);
      c.mutable_input_params()->set_precheck(pre);
      c.mutable_output_params()->set_path(t[p].out);
      c.mutable_output_params()->set_need_sort(sort);
      BucketPsi task(c, w[p]);
      ProgressCallbacks cb;
      if (prog) cb = [&, p](const Progress::Data& d) { seen[p].push_back(d.percentage); };
      rep[p] = task.Run(cb, 10);
    } catch (const std::exception& e) { err[p] = e.what(); if (err[p].empty()) err[p] = "?"; sym_print(e.what()); w[p]->kill(); }
  });
  for (auto& x : ts) x.join();
  bool bad = false;
  for (auto& x : t) bad |= x.dup;
  unsigned common = ~0u;
  for (auto& x : t) common &= x.mask;
  std::vector<std::vector<std::string>> keysOut(n);
  for (size_t p = 0; p < n; p++) {
    CHECK_THAT(err[p].empty() != bad, "a task runs exactly when no table repeats a key");
    bool mine = !bad && (bc || p == recv);
    CHECK_THAT(std::filesystem::exists(t[p].out) == mine, "a party has an output file exactly when it has a right to the result");
    // nothing else is left behind
    for (auto& kv : symio::Fs::I().files)
      if (!kv.second->dir && kv.first != t[p].in && kv.first != t[p].out) {
        bool own = false;
        for (auto& x : t) own |= kv.first == x.in || kv.first == x.out;
        if (!own) sym_print(kv.first.c_str());
        CHECK_THAT(own, "no other file is left behind");
      }
    if (bad) continue;
    CHECK_THAT(rep[p].original_count() == (int64_t)t[p].rows.size(), "the report counts the rows of the table");
    CHECK_THAT(rep[p].intersection_count() == (mine ? __builtin_popcount(common) : -1), "the report counts the common keys, for those with a right to the result only");
    if (!mine) continue;
    auto got = lines(t[p].out);
    std::vector<std::string> want;
    for (size_t i = 0; i < t[p].rows.size(); i++) if (common >> t[p].order[i] & 1) want.push_back(t[p].rows[i]);
    CHECK_THAT(!got.empty() && got[0] == header(p % 2), "the header is kept");
    got.erase(got.begin());
    for (auto& g : got) for (size_t i = 0; i < t[p].rows.size(); i++) if (g == t[p].rows[i]) keysOut[p].push_back(join(key(t[p].order[i])));
    if (sort) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    CHECK_THAT(got == want, sort ? "the output has the rows of the common keys" : "the output has the rows of the common keys, in the order of the table");
    if (prog) {
      CHECK_THAT(!seen[p].empty() && seen[p].back() == 100, "the last progress shown is 100 percent");
      for (size_t i = 1; i < seen[p].size(); i++) CHECK_THAT(seen[p][i] >= seen[p][i - 1], "progress does not go back");
    }
  }
  if (sort && !bad)
    for (size_t p = 0; p < n; p++)
      if (bc || p == recv) CHECK_THAT(keysOut[p] == keysOut[bc ? 0 : recv], "sorted outputs of the parties are aligned");
  sym_reach("end");
  return 0;
}
// rows picked by position, both ways the positions are given
extern "C" int h_filter() {
  size_t n = choose(sym_param("rows", 3) + 1, "rows"), head = choose(3, "header lines");
  bool diff = choose(2, "difference"), viaFile = choose(2, "positions in a file");
  std::vector<uint64_t> idx;
  size_t m = choose(4, "positions"), blank = choose(n + 2, "an empty line in front of row"), kind = n & 1;
  for (size_t i = 0; i < m; i++) idx.push_back(choose(n + 1, "position"));
  bool ok = true;
  for (size_t i = 0; i < m; i++) ok &= idx[i] < n && (i == 0 || idx[i] > idx[i - 1]);
  std::vector<std::string> row;
  {
    std::ofstream f("/tmp/in.csv");
    for (size_t i = 0; i < head; i++) f << "h" << i << "\n";
    for (size_t i = 0; i < n; i++) {
      if (i == blank) f << (kind ? "\r\n" : "\n");
      std::string r = symStr(2, "row");
      for (char& c : r) sym_assume(c != '\n');
      row.push_back(r);
      f << r << "\n";
    }
    IndexWriter w("/tmp/idx");
    for (auto i : idx) w.WriteCache(i);
    w.Commit();
    w.Close();
  }
  size_t ret = 0;
  bool threw = throws([&] {
    if (viaFile) ret = FilterFileByIndices("/tmp/in.csv", "/tmp/out.csv", std::filesystem::path("/tmp/idx"), diff, head);
    else ret = FilterFileByIndices("/tmp/in.csv", "/tmp/out.csv", idx, diff, head);
  });
  if (!ok) {
    if (!diff && !viaFile) CHECK_THAT(threw, "positions that are not sorted, repeat or lie outside the table are refused");
    sym_reach("end");
    return 0;
  }
  CHECK_THAT(!threw && ret == m, "sorted positions are accepted and counted");
  auto got = lines("/tmp/out.csv");
  size_t at = 0;
  for (size_t i = 0; i < head; i++) CHECK_THAT(at < got.size() && got[at++] == "h" + std::to_string(i), "header lines are kept");
  for (size_t i = 0; i < n; i++) {
    bool in = std::find(idx.begin(), idx.end(), i) != idx.end();
    if (in == diff) continue;
    bool eq = at < got.size() && got[at].size() == row[i].size();
    if (eq) for (size_t k = 0; k < row[i].size(); k++) eq &= got[at][k] == row[i][k];
    CHECK_THAT(eq, "the asked rows, unchanged and in order");
    at++;
  }
  CHECK_THAT(at == got.size(), "and no others");
  sym_reach("end");
  return 0;
}
extern "C" int h_indices() {
  size_t n = choose(5, "items");
  std::vector<std::string> data;
  std::vector<HashBucketCache::BucketItem> items(n);
  std::vector<std::string> res;
  unsigned mask = choose(1u << n, "which are common");
  for (size_t i = 0; i < n; i++) {
    data.push_back(symStr(1 + i % 2, "item"));
    for (size_t j = 0; j < i; j++) if (data[j].size() == data[i].size()) { bool e = true; for (size_t k = 0; k < data[i].size(); k++) e &= data[i][k] == data[j][k]; sym_assume(!e); }
    items[i].index = 10 * (n - i);
    items[i].base64_data = data[i];
  }
  bool rev = choose(2, "other order");
  for (size_t k = 0; k < n; k++) { size_t i = rev ? n - 1 - k : k; if (mask >> i & 1) res.push_back(data[i]); }
  std::vector<uint64_t> idx{7};
  GetResultIndices(data, items, res, &idx);
  CHECK_THAT(idx.size() == 1u + __builtin_popcount(mask) && idx[0] == 7, "one position per common item is added");
  for (size_t i = 0; i < n; i++) {
    size_t hit = 0;
    for (auto x : idx) hit += x == items[i].index;
    CHECK_THAT(hit == (mask >> i & 1), "the positions of the common items");
  }
  sym_reach("end");
  return 0;
}
// the digest by which tables count as aligned
extern "C" int h_digest() {
  std::vector<std::string> c[2];
  for (int s = 0; s < 2; s++) {
    size_t n = choose(4, "rows");
    std::filesystem::create_directories("/tmp");
    std::ofstream f("/tmp/" + std::to_string(s));
    f << "id,v\n";
    for (size_t i = 0; i < n; i++) {
      size_t len = 1 + choose(2, "length");
      std::string k;
      for (size_t j = 0; j < len; j++) k += sym<uint8_t>("letter") & 1 ? 'x' : ':';
      c[s].push_back(k);
      f << k << ",v\n";
    }
  }
  CsvChecker a("/tmp/0", {"id"}, true), b("/tmp/1", {"id"}, true);
  bool eq = c[0].size() == c[1].size();
  for (size_t i = 0; eq && i < c[0].size(); i++) { if (c[0][i].size() != c[1][i].size()) { eq = false; break; } bool e = true; for (size_t k = 0; k < c[0][i].size(); k++) e &= c[0][i][k] == c[1][i][k]; eq = eq && e; }
  CHECK_THAT(a.data_count() == c[0].size() && b.data_count() == c[1].size(), "rows are counted");
  CHECK_THAT((a.hash_digest() == b.hash_digest()) == eq, "tables have equal digests exactly when they have the same keys in the same order");
  sym_reach("end");
  return 0;
}
extern "C" int h_refuse() {
  std::string k = symStr(3, "text");
  { std::ofstream f("/tmp/a.csv"); f << k << "id,v\n"; }
  bool bom = (uint8_t)k[0] == 0xEF && (uint8_t)k[1] == 0xBB && (uint8_t)k[2] == 0xBF;
  if (bom) CHECK_THAT(throws([&] { CsvChecker c("/tmp/a.csv", {"id"}, true); }), "a file with a byte order mark is refused");
  int what = choose(4, "table");
  const char* body[] = {"x,1\n,2\n", "1,x\n2,\n", "x,1\ny,2\nx,3\n", "x,1\ny,2\nxy,3\n"};
  { std::ofstream f("/tmp/b.csv"); f << (what == 1 ? "v,id\n" : "id,v\n") << body[what]; }
  bool skip = choose(2, "skip the check");
  CHECK_THAT(throws([&] { CsvChecker c("/tmp/b.csv", {"id"}, skip); }) == (what < 2 || (what == 2 && !skip)), "empty keys are refused, and repeated ones if this is checked");
  CHECK_THAT(throws([&] { CsvChecker c("/tmp/b.csv", {"nothere"}, skip); }), "a missing column is refused");
  for (auto& kv : symio::Fs::I().files) CHECK_THAT(kv.second->dir || kv.first.rfind("/tmp/", 0) == 0, "no other file is left behind");
  sym_reach("end");
  return 0;
}
