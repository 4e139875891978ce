#pragma once
#include <iosfwd>
namespace std {
template <typename C, typename T> inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, long n) { o.write(s, n); return o; }
}
