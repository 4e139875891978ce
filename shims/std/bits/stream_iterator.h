#pragma once
#include <iosfwd>
#include "../symio.h"
namespace std {
template <class T> class istream_iterator {
 public:
  typedef input_iterator_tag iterator_category; typedef T value_type; typedef long difference_type; typedef const T* pointer; typedef const T& reference;
  istream_iterator() {}
  istream_iterator(istream& i) : i_(&i) { next(); }
  const T& operator*() const { return v_; }
  istream_iterator& operator++() { next(); return *this; }
  friend bool operator==(const istream_iterator& a, const istream_iterator& b) { return a.i_ == b.i_; }
  friend bool operator!=(const istream_iterator& a, const istream_iterator& b) { return a.i_ != b.i_; }
 private:
  void next() { if (!(*i_ >> v_)) i_ = nullptr; }
  istream* i_ = nullptr;
  T v_{};
};
template <class T> class ostream_iterator {
 public:
  typedef output_iterator_tag iterator_category; typedef void value_type; typedef long difference_type; typedef void pointer; typedef void reference;
  ostream_iterator(ostream& o, const char* d = nullptr) : o_(&o), d_(d) {}
  ostream_iterator& operator=(const T& v) { *o_ << v; if (d_) *o_ << d_; return *this; }
  ostream_iterator& operator*() { return *this; }
  ostream_iterator& operator++() { return *this; }
  ostream_iterator& operator++(int) { return *this; }
 private:
  ostream* o_; const char* d_;
};
}
