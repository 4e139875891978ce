#pragma once
#include <iosfwd>
#include "../symio.h"
#include <bits/stl_iterator_base_types.h>
namespace std {
template <> class istreambuf_iterator<char, char_traits<char>> {
 public:
  typedef input_iterator_tag iterator_category;
  typedef char value_type;
  typedef long difference_type;
  typedef char* pointer;
  typedef char reference;
  istreambuf_iterator() {}
  istreambuf_iterator(istream& i) : b_(i.buf()) {}
  istreambuf_iterator(symio::ios::Buf* b) : b_(b) {}
  bool end() const { return !b_ || !b_->f || b_->r >= b_->f->data.size(); }
  char operator*() const { return b_->f->data[b_->r]; }
  istreambuf_iterator& operator++() { b_->r++; return *this; }
  struct P { char c; char operator*() const { return c; } };
  P operator++(int) { P p{**this}; ++*this; return p; }
  friend bool operator==(const istreambuf_iterator& a, const istreambuf_iterator& b) { return a.end() == b.end(); }
  friend bool operator!=(const istreambuf_iterator& a, const istreambuf_iterator& b) { return !(a == b); }
 private:
  symio::ios::Buf* b_ = nullptr;
};
}
