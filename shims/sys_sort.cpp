// system() stand-in: interprets the sort / uniq pipelines the repository runs.
// tail -n +K F, [LC_ALL=C] sort [-n] [--stable] [--parallel=..] [--buffer-size=..] [--field-separator=X] [--key=a,b]... [FILE...], uniq [-d], > and >>
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "sym.h"
namespace {
typedef std::vector<std::string> Lines;
Lines readLines(const std::string& f, bool& ok) {
  Lines r;
  std::ifstream in(f);
  ok = in.good();
  std::string l;
  while (std::getline(in, l)) r.push_back(l);
  return r;
}
std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++;
    if (i >= s.size()) break;
    std::string w;
    while (i < s.size() && s[i] != ' ' && s[i] != '\n') {
      if (s[i] == '\'' || s[i] == '"') { char q = s[i++]; while (i < s.size() && s[i] != q) w += s[i++]; i++; }
      else w += s[i++];
    }
    r.push_back(w);
  }
  return r;
}
// byte comparison, as strcmp in the C locale
int cmpBytes(const std::string& a, const std::string& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) {
    if ((unsigned char)a[i] < (unsigned char)b[i]) return -1;
    if ((unsigned char)a[i] > (unsigned char)b[i]) return 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
// a locale that ignores case first: good enough to show that the C locale is needed
int cmpLocale(const std::string& a, const std::string& b) {
  std::string x, y;
  for (char c : a) x += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
  for (char c : b) y += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
  int r = cmpBytes(x, y);
  return r ? r : -cmpBytes(a, b);
}
std::string fields(const std::string& l, char sep, int from, int to) {
  std::vector<std::string> f;
  size_t i = 0;
  while (true) { size_t j = l.find(sep, i); if (j == std::string::npos) { f.push_back(l.substr(i)); break; } f.push_back(l.substr(i, j - i)); i = j + 1; }
  std::string r;
  for (int k = from; k <= to && k <= (int)f.size(); k++) { if (k > from) r += sep; r += f[k - 1]; }
  return r;
}
long long num(const std::string& s) {
  size_t i = 0;
  bool neg = false;
  long long v = 0;
  while (i < s.size() && s[i] == ' ') i++;
  if (i < s.size() && s[i] == '-') { neg = true; i++; }
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') v = v * 10 + (s[i++] - '0');
  return neg ? -v : v;
}
bool run(std::vector<std::string> w, Lines& data, bool first) {
  bool c = false;
  size_t i = 0;
  while (i < w.size() && w[i].find('=') != std::string::npos && w[i][0] != '-') { if (w[i] == "LC_ALL=C") c = true; i++; }
  if (i >= w.size()) return false;
  std::string cmd = w[i++];
  if (cmd == "tail") {
    if (i + 2 >= w.size() || w[i] != "-n" || w[i + 1][0] != '+') return false;
    long k = atol(w[i + 1].c_str() + 1);
    bool ok;
    Lines l = readLines(w[i + 2], ok);
    if (!ok || w.size() != i + 3) return false;
    if (k > 1) l.erase(l.begin(), l.begin() + std::min<long>(k - 1, l.size()));
    data = l;
    return true;
  }
  if (cmd == "sort") {
    bool n = false, stable = false, u = false, rev = false;
    char sep = 0;
    std::vector<std::pair<int, int>> keys;
    std::vector<std::string> files;
    for (; i < w.size(); i++) {
      const std::string& a = w[i];
      if (a == "-n" || a == "--numeric-sort") n = true;
      else if (a == "-s" || a == "--stable") stable = true;
      else if (a == "-u" || a == "--unique") u = true;
      else if (a == "-r" || a == "--reverse") rev = true;
      else if (a.rfind("--parallel=", 0) == 0 || a.rfind("--buffer-size=", 0) == 0) {}
      else if (a.rfind("--field-separator=", 0) == 0) sep = a[18];
      else if (a.rfind("--key=", 0) == 0) {
        int x = atoi(a.c_str() + 6), y = 1 << 20;
        size_t k = a.find(',');
        if (k != std::string::npos) y = atoi(a.c_str() + k + 1);
        keys.push_back({x, y});
      } else if (a[0] == '-') return false;
      else files.push_back(a);
    }
    if (!files.empty()) {
      data.clear();
      for (auto& f : files) { bool ok; Lines l = readLines(f, ok); if (!ok) return false; data.insert(data.end(), l.begin(), l.end()); }
    } else if (first) return false;
    auto one = [&](const std::string& a, const std::string& b) -> int {
      if (n) { long long x = num(a), y = num(b); return x < y ? -1 : x > y; }
      return c ? cmpBytes(a, b) : cmpLocale(a, b);
    };
    auto cmp = [&](const std::string& a, const std::string& b) -> int {
      int r = 0;
      if (keys.empty()) r = one(a, b);
      for (auto& k : keys) { if (r) break; r = one(fields(a, sep ? sep : ' ', k.first, k.second), fields(b, sep ? sep : ' ', k.first, k.second)); }
      if (rev) r = -r;
      if (!r && !stable && !u) r = c ? cmpBytes(a, b) : cmpLocale(a, b);
      return r;
    };
    // insertion sort: stable, one comparison per branch
    Lines out;
    for (auto& l : data) {
      size_t p = out.size();
      while (p > 0 && cmp(l, out[p - 1]) < 0) p--;
      out.insert(out.begin() + p, l);
    }
    if (u) { Lines o2; for (auto& l : out) if (o2.empty() || cmp(o2.back(), l) != 0) o2.push_back(l); out = o2; }
    data = out;
    return true;
  }
  if (cmd == "uniq") {
    bool d = false;
    for (; i < w.size(); i++) { if (w[i] == "-d") d = true; else return false; }
    Lines out;
    for (size_t k = 0; k < data.size();) {
      size_t e = k + 1;
      while (e < data.size() && data[e] == data[k]) e++;
      if (!d || e - k > 1) out.push_back(data[k]);
      k = e;
    }
    data = out;
    return true;
  }
  return false;
}
}
extern "C" int system(const char* s) {
  std::string t = s ? s : "", out;
  bool app = false;
  size_t g = t.find('>');
  if (g != std::string::npos) {
    size_t k = g + 1;
    if (k < t.size() && t[k] == '>') { app = true; k++; }
    auto w = words(t.substr(k));
    if (w.size() != 1) { sym_fail("system(): a command the stand-in shell does not know"); return 1; }
    out = w[0];
    t = t.substr(0, g);
  }
  // the shell opens the output before the commands run
  if (!out.empty()) { std::ofstream o(out, app ? std::ios::app : std::ios::trunc); if (!o.good()) return 256; }
  Lines data;
  bool first = true;
  size_t i = 0;
  while (true) {
    size_t j = t.find('|', i);
    auto w = words(t.substr(i, j == std::string::npos ? std::string::npos : j - i));
    if (!run(w, data, first)) { sym_fail("system(): a command the stand-in shell does not know"); return 256; }
    first = false;
    if (j == std::string::npos) break;
    i = j + 1;
  }
  if (!out.empty()) {
    std::ofstream o(out, std::ios::app);
    for (auto& l : data) o << l << '\n';
  }
  return 0;
}
