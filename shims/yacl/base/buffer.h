#pragma once
#include <cstring>
#include <ostream>
#include <functional>
#include <string>
#include <string_view>
#include <vector>
#include "yacl/base/exception.h"
namespace yacl {
class Buffer {
 public:
  Buffer() {}
  explicit Buffer(int64_t n) { if (n < 0) throw EnforceNotMet("buffer size"); resize(n); }
  Buffer(const void* p, size_t n) { resize((int64_t)n); if (n) memcpy(p_, p, n); }
  Buffer(void* p, size_t n, const std::function<void(void*)>& del) : p_((char*)p), n_((int64_t)n), c_((int64_t)n), del_(del) {}
  explicit Buffer(std::string_view s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(const char* s) : Buffer(s, strlen(s)) {}
  Buffer(const Buffer& o) { *this = o; }
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(const Buffer& o) { if (this != &o) { reset(); resize(o.n_); if (o.n_) memcpy(p_, o.p_, (size_t)o.n_); } return *this; }
  Buffer& operator=(Buffer&& o) noexcept { if (this != &o) { reset(); swap(o); } return *this; }
  ~Buffer() { reset(); }
  template <class T = void> T* data() { return (T*)p_; }
  template <class T = void> const T* data() const { return (const T*)p_; }
  int64_t size() const { return n_; }
  int64_t capacity() const { return c_; }
  bool empty() const { return n_ == 0; }
  void resize(int64_t n) {
    if (n > c_) {
      char* q = new char[(size_t)n];
      if (n_) memcpy(q, p_, (size_t)n_);
      int64_t k = n;
      reset();
      p_ = q;
      c_ = k;
    }
    n_ = n;
  }
  void reserve(int64_t n) { int64_t k = n_; if (n > c_) { resize(n); n_ = k; } }
  void reset() { if (p_) { if (del_) del_(p_); else delete[] p_; } p_ = nullptr; n_ = c_ = 0; del_ = nullptr; }
  void* release() { void* p = p_; p_ = nullptr; n_ = c_ = 0; return p; }
  operator std::string_view() const { return {p_, (size_t)n_}; }
  bool operator==(const Buffer& o) const { return n_ == o.n_ && (n_ == 0 || memcmp(p_, o.p_, (size_t)n_) == 0); }
  bool operator!=(const Buffer& o) const { return !(*this == o); }
 private:
  void swap(Buffer& o) { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(c_, o.c_); std::swap(del_, o.del_); }
  char* p_ = nullptr;
  int64_t n_ = 0, c_ = 0;
  std::function<void(void*)> del_;
};
inline std::ostream& operator<<(std::ostream& o, const Buffer& b) { return o.write(b.data<char>(), b.size()); }
}
