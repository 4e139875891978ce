#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
extern "C" long sym_param(const char* name, long dflt);
namespace yacl {
// Sequential stand-in.  The range is cut into chunks of sym_param("par_chunk")
// items (default 2) handed out last chunk first, so that code depending on one
// chunk or on ascending order does not pass.
template <class F> inline void parallel_for_impl(int64_t b, int64_t e, const F& f) {
  if (b >= e) return;
  int64_t c = sym_param("par_chunk", 2);
  int64_t n = (e - b + c - 1) / c;
  for (int64_t i = n - 1; i >= 0; i--) f(b + i * c, std::min(e, b + (i + 1) * c));
}
inline void parallel_for(int64_t b, int64_t e, int64_t, const std::function<void(int64_t, int64_t)>& f) { parallel_for_impl(b, e, f); }
inline void parallel_for(int64_t b, int64_t e, const std::function<void(int64_t, int64_t)>& f) { parallel_for_impl(b, e, f); }
template <class R, class F, class S> inline R parallel_reduce(int64_t b, int64_t e, int64_t, const F& f, const S& s) {
  if (b >= e) return R();
  int64_t m = b + (e - b + 1) / 2;
  R r = f(b, m);
  if (m < e) r = s(r, f(m, e));
  return r;
}
inline int get_num_threads() { return 1; }
inline void set_num_threads(int) {}
inline int intraop_default_num_threads() { return 1; }
}
