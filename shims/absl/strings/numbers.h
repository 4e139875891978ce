#pragma once
#include "absl/strings/ascii.h"
#include <limits>
namespace absl {
template <class T> inline bool SimpleAtoi(string_view s, T* out) {
  s = StripAsciiWhitespace(s);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) { *out = 0; return false; }
  if (neg && !std::is_signed_v<T>) { *out = 0; return false; }
  unsigned __int128 v = 0, lim = (unsigned __int128)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  for (char c : s) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + (unsigned)(c - '0');
    if (v > lim) { *out = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); return false; }
  }
  *out = neg ? (T)(0 - (unsigned long long)v) : (T)v;
  return true;
}
}
