#pragma once
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
namespace absl {
// table-free so that symbolic bytes do not fork
inline char symHexDigit(unsigned d) { return (char)(d + '0' + (unsigned)(d > 9) * 39); }
inline std::string BytesToHexString(string_view s) { std::string o; for (unsigned char c : s) { o += symHexDigit(c >> 4); o += symHexDigit(c & 15); } return o; }
inline std::string HexStringToBytes(string_view s) { auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)(d(s[i]) * 16 + d(s[i + 1])); return o; }
inline std::string Base64Escape(string_view s) {  // injective stand-in: same length behaviour class, hex digits
  return BytesToHexString(s);
}
inline bool Base64Unescape(string_view s, std::string* o) { *o = HexStringToBytes(s); return true; }
inline std::string CEscape(string_view s) { return std::string(s); }
}
