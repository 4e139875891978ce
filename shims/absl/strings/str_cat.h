#pragma once
#include "fmt/format.h"
#include "absl/strings/string_view.h"
namespace absl {
template <class... A> inline std::string StrCat(const A&... a) { std::string o; (fmt::detail::one(o, a, {}), ...); return o; }
template <class... A> inline void StrAppend(std::string* o, const A&... a) { (fmt::detail::one(*o, a, {}), ...); }
}
