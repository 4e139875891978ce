#pragma once
#include "absl/strings/string_view.h"
namespace absl {
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline string_view StripLeadingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline string_view StripTrailingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline string_view StripAsciiWhitespace(string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline void StripAsciiWhitespace(std::string* s) { std::string t(StripAsciiWhitespace(string_view(*s))); *s = t; }
inline std::string AsciiStrToLower(string_view s) { std::string o(s); for (auto& c : o) if (c >= 'A' && c <= 'Z') c += 32; return o; }
inline std::string AsciiStrToUpper(string_view s) { std::string o(s); for (auto& c : o) if (c >= 'a' && c <= 'z') c -= 32; return o; }
}
