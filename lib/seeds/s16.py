import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
V, R = "/verif", "/repo"
ns = {"VERIF": V, "REPO": R}
exec(open("/verif/props/P16/spec.py").read(), ns)
SRC = [x for x in ns["SPEC"]["sources"] if "rr22_oprf" not in x]
HEAD = r"""
#include <cstdio>
#include <cstring>
#include <thread>
#include <algorithm>
#include "psi/algorithm/rr22/okvs/baxos.h"
#include "psi/algorithm/rr22/okvs/paxos.h"
#include "psi/algorithm/rr22/davis_meyer_hash.h"
using namespace psi;
using namespace psi::rr22;
using namespace psi::rr22::okvs;
static uint64_t mixs(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static uint128_t rnd(uint64_t x) { return ((uint128_t)mixs(2 * x + 1) << 64) | mixs(2 * x); }
"""
K = dict(flags="-I$T/shims/atomic -msse4.2 -mpclmul", inputs="param hash_table=1\nparam cipher_table=1\nparam avx2=1\n", support=(), threads=True)
F = "psi/algorithm/rr22/okvs/"
only = sys.argv[1:]
def S(i, *a, **k):
    if not only or i in only: seed(i, "P16", *a, **k)
t = open(R + "/" + F + "paxos.cc").read()
o = "        x[5] = (Galois128(x[5]) * dense[5]).get<uint128_t>(0);\n"
assert t.count(o) == 2
at = t.rindex(o)
ctx = t[t.rindex("        auto dense = dense_span.data() + k * 8;", 0, at):at + len(o)]
S("okvs-power-32", [(F + "paxos.cc", ctx, ctx.replace("Galois128(x[5]) * dense[5]", "Galois128(x[5]) * x[5]"))], SRC, HEAD + r"""
int main() {
  // keys that meet in all columns: a small sparse part
  int bad = 0;
  for (size_t n = 2; n <= 6; n++) {
    std::vector<uint128_t> k, v, r(n), q(64), r2(64);
    for (size_t i = 0; i < n; i++) { k.push_back(rnd(100 + i)); v.push_back(rnd(200 + i)); }
    PaxosParam pp; pp.Init(n, 3, 40, PaxosParam::DenseType::GF128);
    pp.sparse_size = 3; pp.dense_size = n; pp.g = n;
    Paxos<uint16_t> p;
    p.Init(n, pp, rnd(3));
    std::vector<uint128_t> o(p.size());
    p.SetInput(absl::MakeSpan(k));
    p.Encode(absl::MakeSpan(v), absl::MakeSpan(o), nullptr);
    for (size_t i = 0; i < 64; i++) q[i] = k[(i + 1) % n];
    p.Decode(absl::MakeSpan(q), absl::MakeSpan(r2), absl::MakeSpan(o));
    for (size_t i = 0; i < 64; i++) bad |= r2[i] != v[(i + 1) % n];
  }
  printf("%s\n", bad ? "a key does not decode to its value" : "ok");
  return bad;
}
""", "one place in a group of 32 uses x^(2^i) instead of x^(i+1)", "a gap of three or more (keys no sparse column separates) and a key at place 5 of a group of eight", **K)
S("baxos-third-thread", [(F + "baxos.cc", "        bin_pos += size;\n", "        bin_pos = thrd_bin_sizes_mtx(0, bin_idx) + size;\n")], SRC, HEAD + r"""
int main() {
  int bad = 0;
  for (size_t th = 1; th <= 5; th++) {
    size_t n = 60;
    std::vector<uint128_t> k, v, r(n);
    for (size_t i = 0; i < n; i++) { k.push_back(rnd(100 + i)); v.push_back(rnd(200 + i)); }
    Baxos b;
    b.Init(n, 20, 3, 40, PaxosParam::DenseType::GF128, rnd(3));
    std::vector<uint128_t> o(b.size());
    b.Solve(absl::MakeSpan(k), absl::MakeSpan(v), absl::MakeSpan(o), nullptr, th);
    b.Decode(absl::MakeSpan(k), absl::MakeSpan(r), absl::MakeSpan(o), 1);
    bad |= r != v;
    printf("%zu threads: %s\n", th, r == v ? "ok" : "wrong");
  }
  return bad;
}
""", "the items a fourth or later thread puts into a bin are placed over the third one's", "four or more threads, each with items of one bin", **K)
S("baxos-tail-full-bin", [(F + "baxos.cc", """    if (batch_sizes[bin_idx] == decode_size) {
      auto p = pp.subspan(bin_idx * size_per, size_per);
      ImplDecodeBin<IdxType>(bin_idx, batches_mtx[bin_idx], values, buff,
                             in_idxs_mtx[bin_idx], p, h, paxos);
""", """    if (batch_sizes[bin_idx] == decode_size) {
      auto p = pp.subspan(bin_idx * size_per, size_per);
      ImplDecodeBin<IdxType>(
          bin_idx, batches_mtx[bin_idx].subspan(0, decode_size / 32 * 32 - 1),
          values, buff, in_idxs_mtx[bin_idx], p, h, paxos);
""")], SRC, HEAD + r"""
int main() {
  size_t n = 9;
  int bad = 0;
  std::vector<uint128_t> k, v;
  for (size_t i = 0; i < n; i++) { k.push_back(rnd(100 + i)); v.push_back(rnd(200 + i)); }
  Baxos b;
  b.Init(n, 4, 3, 40, PaxosParam::DenseType::GF128, rnd(3));
  std::vector<uint128_t> o(b.size());
  b.Solve(absl::MakeSpan(k), absl::MakeSpan(v), absl::MakeSpan(o), nullptr, 1);
  for (size_t m = 500; m < 560; m++)
    for (size_t lead : {1, 2}) {
      std::vector<uint128_t> q(m, k[0]), r(m);
      for (size_t i = 0; i < lead; i++) q[i] = rnd(900 + i);
      b.Decode(absl::MakeSpan(q), absl::MakeSpan(r), absl::MakeSpan(o), 1);
      for (size_t i = lead; i < m; i++) bad |= r[i] != v[0];
    }
  printf("%s\n", bad ? "a key does not decode to its value" : "ok");
  return bad;
}
""", "when a bin's buffer fills up within the last, incomplete group, its last item is not decoded", "more than 512 queries of which the 512th of a bin comes in the last group", **K)
S("dm-group-slot", [("psi/algorithm/rr22/davis_meyer_hash.cc", "      outputs[i + 6] = para_values[6] ^ value[i + 6];\n      outputs[i + 7]", "      outputs[i + 6] = para_values[6] ^ value[i];\n      outputs[i + 7]")], SRC, HEAD + r"""
int main() {
  int bad = 0;
  for (size_t n = 0; n < 20; n++) {
    std::vector<uint128_t> k, v, r(n);
    for (size_t i = 0; i < n; i++) { k.push_back(rnd(100 + i)); v.push_back(rnd(200 + i)); }
    DavisMeyerHash(absl::MakeSpan(k), absl::MakeSpan(v), absl::MakeSpan(r));
    for (size_t i = 0; i < n; i++) bad |= r[i] != DavisMeyerHash(k[i], v[i]);
  }
  printf("%s\n", bad ? "the value depends on the place" : "ok");
  return bad;
}
""", "one place of a group of eight is masked by another item's value", "the malicious variant with eight or more items, a common item at place 6 of a group at one party only", **K)
