#pragma once
#include "absl/numeric/bits.h"
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
namespace absl {
template <class T> class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*; using size_type = size_t; using difference_type = std::ptrdiff_t;
  using reverse_iterator = std::reverse_iterator<iterator>;
  static const size_t npos = ~(size_t)0;
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <class V, class = std::enable_if_t<!std::is_same_v<std::decay_t<V>, Span> && std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<V&>().data())> (*)[], T (*)[]> && (std::is_const_v<T> || !std::is_const_v<V>)>, class = decltype(std::declval<V&>().size())>
  constexpr Span(V& v) : p_(v.data()), n_(v.size()) {}
  template <class V, class = void, class = std::enable_if_t<!std::is_same_v<std::decay_t<V>, Span> && std::is_const_v<T> && std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<const V&>().data())> (*)[], T (*)[]>>, class = decltype(std::declval<const V&>().size())>
  constexpr Span(const V& v) : p_(v.data()), n_(v.size()) {}
  template <class L = T, class = std::enable_if_t<std::is_const_v<L>>> constexpr Span(std::initializer_list<value_type> v) : p_(v.begin()), n_(v.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { return p_[i]; }
  T& at(size_t i) const { if (i >= n_) throw std::out_of_range("Span::at"); return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr const T* cbegin() const { return p_; }
  constexpr const T* cend() const { return p_ + n_; }
  reverse_iterator rbegin() const { return reverse_iterator(end()); }
  reverse_iterator rend() const { return reverse_iterator(begin()); }
  Span subspan(size_t pos = 0, size_t len = npos) const { if (pos > n_) throw std::out_of_range("pos > size()"); size_t m = n_ - pos; return Span(p_ + pos, len < m ? len : m); }
  Span first(size_t len) const { if (len > n_) throw std::out_of_range("len > size()"); return Span(p_, len); }
  Span last(size_t len) const { if (len > n_) throw std::out_of_range("len > size()"); return Span(p_ + n_ - len, len); }
  void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { n_ -= n; }
  friend bool operator==(Span a, Span b) { if (a.n_ != b.n_) return false; for (size_t i = 0; i < a.n_; i++) if (!(a.p_[i] == b.p_[i])) return false; return true; }
  friend bool operator!=(Span a, Span b) { return !(a == b); }
 private:
  T* p_;
  size_t n_;
};
template <class T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class T> constexpr Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, (size_t)(e - b)); }
template <class C> constexpr auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class C, class = std::enable_if_t<!std::is_lvalue_reference_v<C>>> constexpr auto MakeSpan(C&& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return {a, N}; }
template <class T> constexpr Span<const T> MakeConstSpan(const T* p, size_t n) { return {p, n}; }
template <class C> constexpr auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return {a, N}; }
}
