// PSI among three and more parties, and the interface of the legacy in-memory tasks
#include <thread>
#include "psi/algorithm/nty/nty_mp_psi.h"
#include "openssl/rand.h"
#include "psi/legacy/memory_psi.h"
#include "sym.h"
#include "yacl/link/test_util.h"
#include "yacl/shim_hash.h"
extern "C" unsigned sym_random_device_state;
using namespace psi;
// which of 'letters' items the party has, and in which order (bit mask of the letters)
struct Set {
  unsigned mask = 0;
  std::vector<unsigned> order;
};
static std::vector<Set> sets(size_t n, unsigned letters, unsigned minSize) {
  symcrypto::counter() += 50 * sym_param("rand_salt", 0);
  std::vector<Set> s(n);
  for (auto& x : s) {
    x.mask = choose(1u << letters, "items");
    if ((unsigned)__builtin_popcount(x.mask) < minSize) { sym_assume(false); }
    for (unsigned l = 0; l < letters; l++) if (x.mask >> l & 1) x.order.push_back(l);
    if (sym_param("orders", 1) && x.order.size() > 1 && choose(2, "other order")) std::reverse(x.order.begin(), x.order.end());
  }
  return s;
}
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
template <class F> static void all(std::vector<std::shared_ptr<yacl::link::Context>>& w, std::vector<std::string>& err, F f) {
  size_t n = w.size();
  err.assign(n, "");
  std::vector<std::thread> t;
  for (size_t p = 0; p < n; p++)
    t.emplace_back([&, p] { try { f(p); } catch (const std::exception& e) { err[p] = e.what(); if (err[p].empty()) err[p] = "?"; w[p]->kill(); } });
  for (auto& x : t) x.join();
}
// the result of a party with a right to it: the common items, each once (in its own order where 'inOrder')
template <class T> static void judge(const std::vector<T>& got, const Set& self, unsigned common, T (*item)(unsigned), bool inOrder, bool entitled) {
  if (!entitled) { CHECK_THAT(got.empty(), "a party without a right to the result gets none"); return; }
  CHECK_THAT(got.size() == (size_t)__builtin_popcount(common), "the result has as many items as are common to all");
  size_t at = 0;
  for (auto l : self.order)
    if (common >> l & 1) {
      size_t hit = 0;
      for (auto& g : got) hit += g == item(l);
      CHECK_THAT(hit == 1, "every item common to all is in the result once");
      if (inOrder) CHECK_THAT(got[at] == item(l), "the result keeps the receiver's order");
      at++;
    }
}
static std::string letter(unsigned l) { return std::string(1 + l % 2, 'a' + l); }
extern "C" int h_memory() {
  size_t n = sym_param("n", 3);
  auto s = sets(n, sym_param("letters", 3), 0);
  unsigned common = ~0u;
  for (auto& x : s) common &= x.mask;
  size_t recv = sym_param("recv", -1) >= 0 ? sym_param("recv", 0) : choose(n, "receiver");
  bool bc = sym_param("bc", -1) >= 0 ? sym_param("bc", 0) : choose(2, "broadcast");
  auto w = yacl::link::test::SetupWorld(n);
  std::vector<std::vector<std::string>> out(n);
  std::vector<std::string> err;
  auto type = (PsiType)sym_param("type", 4);
  all(w, err, [&](size_t p) {
    MemoryPsiConfig c;
    c.set_psi_type(type);
    c.set_receiver_rank(recv);
    c.set_broadcast_result(bc);
    c.set_curve_type(CurveType::CURVE_25519);
    std::vector<std::string> in;
    for (auto l : s[p].order) in.push_back(letter(l));
    out[p] = MemoryPsi(c, w[p]).Run(in);
  });
  for (size_t p = 0; p < n; p++) {
    if (!err[p].empty()) sym_print(err[p].c_str());
    CHECK_THAT(err[p].empty(), "every party's task ends normally");
  }
  for (size_t p = 0; p < n; p++) judge<std::string>(out[p], s[p], common, letter, type == PsiType::ECDH_PSI_3PC && p == recv, bc || p == recv);
  if (bc) for (size_t p = 0; p < n; p++) CHECK_THAT(out[p] == out[recv], "all parties get the same list");
  sym_reach("end");
  return 0;
}
// two runs with renamed items exchange the same messages
struct Msg { std::string ctx, d; };
static char gBase = 'a';
static std::string renamed(unsigned l) { return std::string(2, gBase + l); }
static void observe(PsiType type, size_t n, size_t recv, bool bc, const std::vector<Set>& s, std::vector<Msg>& log) {
  symcrypto::counter() = 100;
  shimRandCtr() = 11;
  sym_random_device_state = 1;
  symcrypto::table().clear();
  auto w = yacl::link::test::SetupWorld(n);
  w[0]->world().onSend = [&](const std::string& ctx, size_t from, size_t to, const std::string& d) { log.push_back({ctx + "/" + std::to_string(from) + ">" + std::to_string(to), d}); };
  std::vector<std::string> err;
  all(w, err, [&](size_t p) {
    MemoryPsiConfig c;
    c.set_psi_type(type);
    c.set_receiver_rank(recv);
    c.set_broadcast_result(bc);
    c.set_curve_type(CurveType::CURVE_25519);
    std::vector<std::string> in;
    for (auto l : s[p].order) in.push_back(renamed(l));
    MemoryPsi(c, w[p]).Run(in);
  });
  for (auto& e : err) CHECK_THAT(e.empty(), "every party's task ends normally");
}
extern "C" int h_view() {
  size_t n = sym_param("n", 3);
  auto s = sets(n, sym_param("letters", 2), 0);
  size_t recv = sym_param("recv", 0);
  std::vector<Msg> a, b;
  auto type = (PsiType)sym_param("type", 4);
  gBase = 'a';
  observe(type, n, recv, false, s, a);
  gBase = (char)sym<uint8_t>("first letter");
  sym_assume((gBase >= 'c') & (gBase <= 'x'));
  observe(type, n, recv, false, s, b);
  CHECK_THAT(a.size() == b.size(), "the messages do not depend on the items, only on which of them are equal");
  for (size_t i = 0; i < a.size(); i++) CHECK_THAT(a[i].ctx == b[i].ctx && same(a[i].d, b[i].d), "the messages do not depend on the items, only on which of them are equal");
  sym_reach("end");
  return 0;
}
static uint128_t block(unsigned l) { return yacl::MakeUint128(0x1234567 * (l + 1), 0x89abcdef01ull * (l + 3)); }
// a task that cannot be what was meant is refused by every party, before any item is looked at
extern "C" int h_refuse() {
  size_t n = 1 + choose(4, "parties");
  auto type = (PsiType)choose(16, "type");
  size_t recv = choose(5, "receiver");
  auto w = yacl::link::test::SetupWorld(n);
  MemoryPsiConfig c;
  c.set_psi_type(type);
  c.set_receiver_rank(recv);
  bool bad = throws([&] { MemoryPsi(c, w[0]); });
  CHECK_THAT(bad == (type == PsiType::INVALID_PSI_TYPE || recv >= n || (type == PsiType::ECDH_PSI_3PC && n != 3)), "tasks of no type, for a receiver that takes no part, or of three parties among others are refused");
  sym_reach("end");
  return 0;
}
extern "C" int h_nty() {
  size_t n = sym_param("n", 3);
  auto s = sets(n, sym_param("letters", 2), sym_param("min", 0));
  unsigned common = ~0u;
  for (auto& x : s) common &= x.mask;
  bool fixed = sym_param("fixed roles", 0);
  size_t aid = fixed ? 1 : choose(n, "aided server"), help = fixed ? 3 : choose(n, "helper"), recv = fixed ? 2 : choose(n, "receiver");
  bool bc = choose(2, "broadcast"), roles = aid != help && aid != recv && help != recv;
  auto w = yacl::link::test::SetupWorld(n);
  w[0]->world().onSend = [&](const std::string& ctx, size_t, size_t, const std::string& d) {
    if (bc && ctx.find("#c") != std::string::npos) return;  // the result itself
    for (size_t i = 0; i + 16 <= d.size(); i += 16)
      for (unsigned l = 0; l < 4; l++) { auto b = block(l); CHECK_THAT(memcmp(d.data() + i, &b, 16) != 0, "no message carries an item"); }
  };
  std::vector<std::vector<uint128_t>> out(n);
  std::vector<std::string> err;
  all(w, err, [&](size_t p) {
    nty::NtyMPsiOptions o(sym_param("threads", 1), aid, help, recv, bc);
    o.link_ctx = w[p];
    std::vector<uint128_t> in;
    for (auto l : s[p].order) in.push_back(block(l));
    nty::NtyMPsi m(o);
    out[p] = m.Run(in);
  });
  for (size_t p = 0; p < n; p++) {
    if (!err[p].empty()) sym_print(err[p].c_str());
    CHECK_THAT(err[p].empty() == roles, "the task runs exactly when the three roles are different parties");
  }
  if (roles) for (size_t p = 0; p < n; p++) judge<uint128_t>(out[p], s[p], common, block, false, bc || p == recv);
  sym_reach("end");
  return 0;
}
