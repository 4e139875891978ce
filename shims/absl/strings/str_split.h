#pragma once
#include <vector>
#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
namespace absl {
struct ByChar { char c; explicit ByChar(char x) : c(x) {} };
struct ByString { std::string s; explicit ByString(string_view x) : s(x) {} };
struct ByAnyChar { std::string s; explicit ByAnyChar(string_view x) : s(x) {} };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SplitResult {
  std::vector<string_view> v;
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  template <class C, class = typename C::value_type, class = std::enable_if_t<!std::is_same_v<C, std::string> && !std::is_same_v<C, string_view>>> operator C() const {
    C c;
    for (auto& s : v) c.insert(c.end(), typename C::value_type(s));
    return c;
  }
  template <class A, class B> operator std::pair<A, B>() const { return {A(v.size() > 0 ? v[0] : string_view()), B(v.size() > 1 ? v[1] : string_view())}; }
};
template <class P> inline SplitResult splitImpl(string_view s, string_view d, bool any, P p) {
  SplitResult r;
  size_t b = 0;
  while (true) {
    size_t k = string_view::npos;
    for (size_t i = b; i < s.size() && k == string_view::npos; i++) {
      bool m = false;
      if (any) { for (char c : d) m = m | (s[i] == c); }
      else m = i + d.size() <= s.size() && s.compare(i, d.size(), d) == 0;
      if (m) k = i;
    }
    string_view t = k == string_view::npos ? s.substr(b) : s.substr(b, k - b);
    if (p(t)) r.v.push_back(t);
    if (k == string_view::npos) return r;
    b = k + (any ? 1 : d.size());
  }
}
inline SplitResult StrSplit(string_view s, char d) { return splitImpl(s, string_view(&d, 1), true, AllowEmpty()); }
inline SplitResult StrSplit(string_view s, string_view d) { return splitImpl(s, d, d.size() == 1, AllowEmpty()); }
inline SplitResult StrSplit(string_view s, const char* d) { return StrSplit(s, string_view(d)); }
inline SplitResult StrSplit(string_view s, ByChar d) { return StrSplit(s, d.c); }
inline SplitResult StrSplit(string_view s, ByString d) { return StrSplit(s, string_view(d.s)); }
inline SplitResult StrSplit(string_view s, ByAnyChar d) { return splitImpl(s, d.s, true, AllowEmpty()); }
template <class P> inline SplitResult StrSplit(string_view s, char d, P p) { return splitImpl(s, string_view(&d, 1), true, p); }
template <class P> inline SplitResult StrSplit(string_view s, const char* d, P p) { string_view x(d); return splitImpl(s, x, x.size() == 1, p); }
template <class P> inline SplitResult StrSplit(string_view s, ByChar d, P p) { return StrSplit(s, d.c, p); }
}
