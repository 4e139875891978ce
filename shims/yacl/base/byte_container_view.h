#pragma once
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <stdexcept>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace yacl {
enum class Endian { native, little, big };
class Buffer;
class ByteContainerView {
 public:
  ByteContainerView() {}
  ByteContainerView(const void* p, size_t n) : p_((const uint8_t*)p), n_(n) {}
  ByteContainerView(const char* s) : p_((const uint8_t*)s), n_(strlen(s)) {}
  ByteContainerView(const uint128_t* v) = delete;
  ByteContainerView(const uint128_t& v) : p_((const uint8_t*)&v), n_(16) {}
  template <class T, std::enable_if_t<std::is_integral_v<T> && sizeof(T) == 1, int> = 0> ByteContainerView(std::initializer_list<T> l) : p_((const uint8_t*)l.begin()), n_(l.size()) {}
  template <class C, class = decltype(std::declval<const C&>().data()), class = decltype(std::declval<const C&>().size()), class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, ByteContainerView>>>
  ByteContainerView(const C& c) : p_((const uint8_t*)c.data()), n_((size_t)c.size() * elem<C>()) {}
  const uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  const uint8_t* begin() const { return p_; }
  const uint8_t* end() const { return p_ + n_; }
  const uint8_t& operator[](size_t i) const { return p_[i]; }
  const uint8_t& at(size_t i) const { if (i >= n_) throw std::out_of_range("ByteContainerView"); return p_[i]; }
  const uint8_t& front() const { return p_[0]; }
  const uint8_t& back() const { return p_[n_ - 1]; }
  ByteContainerView subspan(size_t pos, size_t len = (size_t)-1) const { if (pos > n_) throw std::out_of_range("subspan"); return {p_ + pos, len < n_ - pos ? len : n_ - pos}; }
  operator std::string_view() const { return {(const char*)p_, n_}; }
  operator absl::Span<const uint8_t>() const { return {p_, n_}; }
  explicit operator std::string() const { return std::string((const char*)p_, n_); }
  template <class T, std::enable_if_t<sizeof(T) == 1, int> = 0> explicit operator std::vector<T>() const { return std::vector<T>(p_, p_ + n_); }
  bool operator==(ByteContainerView o) const { return n_ == o.n_ && (n_ == 0 || memcmp(p_, o.p_, n_) == 0); }
  bool operator!=(ByteContainerView o) const { return !(*this == o); }
 private:
  template <class C> static constexpr size_t elem() {
    using E = std::remove_pointer_t<decltype(std::declval<const C&>().data())>;
    if constexpr (std::is_void_v<E>) return 1; else return sizeof(E);
  }
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};
inline std::ostream& operator<<(std::ostream& o, const ByteContainerView& v) { return o << std::string_view(v); }
}
