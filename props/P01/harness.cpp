#include "sym.h"
#include <thread>
#include <vector>
#include "psi/utils/progress.h"
using psi::Progress;
namespace {
struct Ref { size_t tw = 0, tp = 0, fin = 0, run = 0; };
size_t cap(size_t v) { return v > 100 ? 100 : v; }
size_t pct(size_t tp, size_t tw) { return tp / (tw == 0 ? 1 : tw); }
void add(Ref& r, size_t w, size_t p) { r.tw += w; r.tp += w * p; r.fin += p >= 100; r.run += (p > 0) & (p < 100); }
void check(const Progress::Data& d, const Ref& r, size_t total) {
  CHECK_THAT(d.percentage == pct(r.tp, r.tw), "percentage is not the weighted mean");
  CHECK_THAT(d.total == total, "total");
  CHECK_THAT(d.finished == r.fin, "finished");
  CHECK_THAT(d.running == r.run, "running");
}
}
extern "C" int h_tree() {
  int n = (int)sym_param("n", 2);
  auto p = std::make_shared<Progress>("root");
  std::vector<size_t> w;
  static const size_t kW[][4] = {{1, 1, 1, 1}, {0, 2, 5, 3}, {10, 80, 10, 1}, {7, 3, 0, 4}, {0, 0, 0, 0}, {150, 87, 1000, 3}, {60, 77, 3, 70000}};
  unsigned wi = choose(n > 2 ? 7 : 3, "w");
  if (n <= 2 && wi) wi += 4;
  for (int i = 0; i < n; i++) w.push_back(n > 2 || wi ? kW[wi][i] : symBelow(4, "w"));
  const char* desc = choose(2, "desc") ? "s" : "";
  p->SetWeights(w, symBool("par") ? Progress::Mode::kParallel : Progress::Mode::kSerial);
  Ref r;
  std::vector<std::shared_ptr<Progress>> subs;
  for (int i = 0; i < n; i++) {
    subs.push_back(p->AddSubProgress(desc));
    size_t v = 0;
    unsigned how = choose(n > 3 ? 2 : 3, "how");  // updated, untouched or done
    if (how == 0) subs[i]->Update(v = sym<uint8_t>("u"));
    if (how == 2) subs[i]->Done(), v = 100;
    add(r, w[i], cap(v));
    auto sd = subs[i]->Get();
    CHECK_THAT(sd.percentage == cap(v), "phase percentage");
  }
  check(p->Get(), r, n);
  p->Done();
  CHECK_THAT(p->IsDone(), "done");
  auto d = p->Get();
  CHECK_THAT(d.percentage == (r.tw == 0 ? 0 : 100), "not 100 after all phases are done");
  CHECK_THAT(d.finished == (size_t)n && d.running == 0, "not all finished");
  sym_reach("end");
  return 0;
}
extern "C" int h_nested() {
  auto p = std::make_shared<Progress>("root");
  static const size_t kN[][4] = {{1, 1, 1, 1}, {10, 90, 3, 1}, {0, 3, 1, 2}, {5, 3, 0, 0}, {80, 10, 0, 7}, {300, 77, 40, 190}};
  unsigned wi = choose(6, "w");
  size_t w0 = kN[wi][0], w1 = kN[wi][1], a = kN[wi][2], b = kN[wi][3];
  p->SetWeights({w0, w1});
  auto s0 = p->AddSubProgress("a");
  s0->SetWeights({a, b}, Progress::Mode::kParallel);
  auto s00 = s0->AddSubProgress("aa"), s01 = s0->AddSubProgress("ab"), s1 = p->AddSubProgress("b");
  size_t u0 = symBelow(101, "u"), u1 = symBelow(101, "u"), u2 = symBelow(101, "u");
  s00->Update(u0);
  s01->Update(u1);
  s1->Update(u2);
  Ref in, r;
  add(in, a, cap(u0));
  add(in, b, cap(u1));
  check(s0->Get(), in, 2);
  add(r, w0, pct(in.tp, in.tw));
  r.fin = in.fin;
  r.run = in.run;
  add(r, w1, cap(u2));
  check(p->Get(), r, 3);
  // a phase that finishes as a whole takes its own phases with it
  bool inner = choose(2, "which");
  inner ? s0->Done() : p->Done();
  Ref r2;
  add(r2, w0, pct((a + b) * 100, a + b));
  add(r2, w1, inner ? cap(u2) : 100);
  r2.fin = 2 + (inner ? u2 >= 100 : 1);
  r2.run = inner ? (u2 > 0) & (u2 < 100) : 0;
  check(p->Get(), r2, 3);
  CHECK_THAT(s0->IsDone() && p->IsDone() == !inner, "done");
  sym_reach("end");
  return 0;
}
// phases announced but not started, equal weights, a phase whose own phases are not announced yet
extern "C" int h_announced() {
  size_t n = 1 + choose(3, "n"), made = choose(n + 1, "made");
  auto p = std::make_shared<Progress>(choose(2, "desc") ? "j" : "");
  p->SetSubJobCount(n, choose(2, "par") ? Progress::Mode::kParallel : Progress::Mode::kSerial);
  Ref r;
  r.tw = n - made;
  size_t total = n;
  for (size_t i = 0; i < made; i++) {
    auto s = p->AddSubProgress("s");
    unsigned how = choose(4, "how");
    size_t v = 0;
    if (how == 0) s->Update(v = sym<uint8_t>("u"));
    if (how == 1) s->Done(), v = 100;
    if (how == 2) {  // a phase of two phases, the first one under way
      s->SetSubJobCount(2);
      total++;
      size_t u = symBelow(101, "u");
      s->AddSubProgress("")->Update(u);
      v = u / 2;
      r.tw++, r.tp += v, r.fin += u >= 100, r.run += (u > 0) & (u < 100);
      continue;
    }
    add(r, 1, cap(v));
  }
  check(p->Get(), r, total);
  sym_reach("end");
  return 0;
}
extern "C" int h_history() {
  int k = (int)sym_param("k", 4), n = 3;
  auto p = std::make_shared<Progress>("job");
  std::vector<size_t> w;
  static const size_t kW[][3] = {{1, 1, 1}, {0, 2, 5}, {10, 80, 10}, {7, 3, 0}};
  unsigned wi = choose(4, "w");
  for (int i = 0; i < n; i++) w.push_back(kW[wi][i]);
  p->SetWeights(w);
  std::vector<size_t> at;
  std::shared_ptr<Progress> cur;
  size_t last = 0;
  for (int i = 0; i < k; i++) {
    unsigned op = choose(4, "op");
    if (op == 0) {
      if ((int)at.size() == n) sym_end_path();
      if (!at.empty()) at.back() = 100;
      cur = p->NextSubProgress("x");
      at.push_back(0);
    } else if (op == 1) {
      if (!cur) sym_end_path();
      size_t v = symBelow(128, "v");
      sym_assume(cap(v) >= at.back());
      cur->Update(v);
      at.back() = cap(v);
    } else if (op == 2) {
      if (!cur) sym_end_path();
      cur->Done();
      at.back() = 100;
      CHECK_THAT(cur->IsDone(), "done");
    } else {
      if ((int)at.size() == n) sym_end_path();
      cur = p->AddSubProgress("y");
      at.push_back(0);
    }
    Ref r;
    for (int j = 0; j < n; j++) {
      if (j < (int)at.size()) add(r, w[j], at[j]);
      else r.tw += w[j];
    }
    auto d = p->Get();
    check(d, r, n);
    CHECK_THAT(d.percentage >= last, "progress went backwards");
    CHECK_THAT(d.percentage <= 100, "over 100");
    last = d.percentage;
  }
  sym_reach("end");
  return 0;
}
extern "C" int h_threads() {
  auto p = std::make_shared<Progress>("root");
  size_t w0 = 1 + symBelow(4, "w"), w1 = 1 + symBelow(4, "w");
  p->SetWeights({w0, w1}, Progress::Mode::kParallel);
  auto job = [&] {
    auto s = p->AddSubProgress("x");
    s->Update(40);
    s->Update(90);
    s->Done();
  };
  std::thread a(job), b(job);
  size_t last = 0;
  for (int i = 0; i < 2; i++) {
    auto d = p->Get();
    CHECK_THAT(d.percentage <= 100, "over 100");
    CHECK_THAT(d.percentage >= last, "progress went backwards");
    CHECK_THAT(d.finished + d.running <= d.total && d.total == 2, "counts");
    last = d.percentage;
  }
  a.join();
  b.join();
  auto d = p->Get();
  CHECK_THAT(d.percentage == 100 && d.finished == 2 && d.running == 0 && d.total == 2, "not complete");
  sym_reach("end");
  return 0;
}
