#pragma once
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <class C> inline std::string StrJoin(const C& c, string_view sep) { std::string o; bool f = true; for (const auto& x : c) { if (!f) o.append(sep.data(), sep.size()); f = false; if constexpr (std::is_convertible_v<decltype(x), string_view>) { string_view v = x; o.append(v.data(), v.size()); } else o += std::to_string(x); } return o; }
template <class I> inline std::string StrJoin(I b, I e, string_view sep) { std::string o; for (I i = b; i != e; ++i) { if (i != b) o.append(sep.data(), sep.size()); string_view v = *i; o.append(v.data(), v.size()); } return o; }
template <class T> inline std::string StrJoin(std::initializer_list<T> c, string_view sep) { return StrJoin<std::initializer_list<T>>(c, sep); }
}
