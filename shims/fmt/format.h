// fmt-lite: "{}" substitution only.  Numbers that are symbolic in the solver
// run print as "<sym>" (texts built from them are log/description texts).
#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" bool sym_is_symbolic(uint64_t v);
namespace fmt {
namespace detail {
inline void num(std::string& o, unsigned long long v, bool neg, int base = 10, int width = 0) {
  if (sym_is_symbolic(v)) { o += "<sym>"; return; }
  char b[70];
  int p = 70;
  do { int d = (int)(v % base); b[--p] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
  while (70 - p < width) b[--p] = '0';
  if (neg) o += '-';
  o.append(b + p, 70 - p);
}
template <class T, class = void> struct Has : std::false_type {};
template <class R> struct JoinView { const R& r; std::string_view sep; };
template <class T> void one(std::string& o, const T& v, std::string_view spec);
template <class R> void one(std::string& o, const JoinView<R>& j, std::string_view spec) {
  bool f = true;
  for (const auto& x : j.r) { if (!f) o.append(j.sep.data(), j.sep.size()); f = false; one(o, x, spec); }
}
template <class T> void one(std::string& o, const T& v, std::string_view spec) {
  if constexpr (std::is_same_v<T, bool>) o += v ? "true" : "false";
  else if constexpr (std::is_same_v<T, char>) o += v;
  else if constexpr (std::is_enum_v<T>) one(o, static_cast<std::underlying_type_t<T>>(v), spec);
  else if constexpr (std::is_integral_v<T>) {
    int base = 10, width = 0;
    for (char c : spec) { if (c == 'x' || c == 'X') base = 16; else if (c >= '0' && c <= '9') width = width * 10 + (c - '0'); }
    if constexpr (std::is_signed_v<T>) num(o, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0, base, width);
    else num(o, v, false, base, width);
  } else if constexpr (std::is_floating_point_v<T>) o += "<float>";
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view s = v; o.append(s.data(), s.size()); }
  else if constexpr (std::is_pointer_v<T>) o += "<ptr>";
  else o += "<obj>";
}
inline void run(std::string& o, std::string_view f) {
  for (size_t i = 0; i < f.size(); i++) {
    if ((f[i] == '{' || f[i] == '}') && i + 1 < f.size() && f[i + 1] == f[i]) i++;
    o += f[i];
  }
}
template <class A, class... R> void run(std::string& o, std::string_view f, const A& a, const R&... r) {
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] == '{' && i + 1 < f.size() && f[i + 1] == '{') { o += '{'; i++; continue; }
    if (f[i] == '}' && i + 1 < f.size() && f[i + 1] == '}') { o += '}'; i++; continue; }
    if (f[i] == '{') {
      size_t e = f.find('}', i);
      if (e == std::string_view::npos) return;
      std::string_view spec = f.substr(i + 1, e - i - 1);
      size_t c = spec.find(':');
      spec = c == std::string_view::npos ? std::string_view() : spec.substr(c + 1);
      one(o, a, spec);
      run(o, f.substr(e + 1), r...);
      return;
    }
    o += f[i];
  }
}
}  // namespace detail
using string_view = std::string_view;
template <class S> inline std::string_view runtime(const S& s) { return s; }
template <class... A> inline std::string format(std::string_view f, const A&... a) {
  std::string o;
  detail::run(o, f, a...);
  return o;
}
template <class T> inline std::string to_string(const T& v) { std::string o; detail::one(o, v, {}); return o; }
template <class R> inline detail::JoinView<R> join(const R& r, std::string_view sep) { return {r, sep}; }
template <class... A> inline void print(std::string_view, const A&...) {}
template <class T> inline const void* ptr(T p) { return (const void*)p; }
struct ostream_formatter {};
template <class T, class C = char> struct formatter {};
}  // namespace fmt
