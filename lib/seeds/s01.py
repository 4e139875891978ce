import sys; sys.path.insert(0, "/verif/lib")
from seedtool import seed
G = "psi/utils/progress.cc"
seed("progress-round", "P01", [(G, "  size_t total_percent = 0;\n  Data out;", "  size_t total_percent = 0;\n  size_t percent_rest = 0;\n  Data out;"),
  (G, "    total_percent += weights_[i] * sub_data.percentage;", "    // keep the running sum in percent units, carrying what does not divide\n    auto part = weights_[i] * sub_data.percentage + percent_rest;\n    total_percent += part / (total_weight == 0 ? 1 : total_weight);\n    percent_rest = part % (total_weight < 128 ? (total_weight == 0 ? 1 : total_weight) : 128);"),
  (G, "  out.percentage = total_percent / (total_weight == 0 ? 1 : total_weight);", "  out.percentage = total_percent;")],
 [G], r'''
#include "psi/utils/progress.h"
#include <cstdio>
using psi::Progress;
int main() {
  int bad = 0;
  for (size_t a = 0; a <= 300; a += 25) for (size_t b = 0; b <= 300; b += 30) for (size_t u = 0; u <= 100; u += 7) for (size_t v = 0; v <= 100; v += 9) {
    auto p = std::make_shared<Progress>("x");
    p->SetWeights({a, b});
    auto s = p->AddSubProgress("a"), t = p->AddSubProgress("b");
    s->Update(u); t->Update(v);
    size_t want = (a * u + b * v) / (a + b ? a + b : 1);
    if (p->Get().percentage != want) bad++;
  }
  printf("%d wrong\n", bad);
  return bad != 0;
}
''', "the weighted mean is accumulated with a carry cut at 128, so large total weights report a wrong percentage", "a total weight of 128 or more and percentages whose parts do not divide")
seed("progress-nested-running", "P01", [(G, "    out.running += sub_data.running;", "    out.running += sub_data.running;\n    if (sub_data.total == sub_data.finished && sub_data.running == 0) {\n      // a finished phase never counts as running\n      out.running = std::min(out.running, sub_progresses_.size() - i - 1);\n    }")],
 [G], r'''
#include "psi/utils/progress.h"
using psi::Progress;
int main() {
  auto p = std::make_shared<Progress>("x");
  p->SetWeights({1, 1}, Progress::Mode::kParallel);
  auto a = p->AddSubProgress("a"), b = p->AddSubProgress("b");
  a->Update(50); b->Done();
  return p->Get().running != 1;
}
''', "a phase still running is not counted when a later phase of a parallel job finished first", "two parallel phases of which the last one finishes first")
seed("progress-late-update", "P01", [(G, "  percentage_.store(100);\n  done_.store(true);", "  done_.store(true);\n  percentage_.store(percentage_.load() == 0 ? 0 : 100);"), (G, "    auto p = percentage_.load();\n    out.total = 1;", "    auto p = percentage_.load();\n    if (done_.load() && p < 100 && !description_.empty()) {\n      p = 100;\n    }\n    out.total = 1;")],
 [G], r'''
#include "psi/utils/progress.h"
using psi::Progress;
int main() {
  auto p = std::make_shared<Progress>("x");
  p->SetWeights({1, 1});
  p->AddSubProgress("a"); auto b = p->AddSubProgress("");
  p->Done();
  return p->Get().percentage != 100 || p->Get().finished != 2;
}
''', "a phase without description that is completed without ever being updated stays at 0", "a phase without a description completed before any update")
