// cpp_bin_float<16> as a double
#pragma once
#include <cmath>
namespace boost::multiprecision {
namespace backends { template <unsigned N> struct cpp_bin_float {}; }
template <class B> struct number {
  double v = 0;
  number() = default;
  number(double x) : v(x) {}
  explicit operator double() const { return v; }
  number& operator+=(const number& o) { v += o.v; return *this; }
  friend number operator+(const number& a, const number& b) { return a.v + b.v; }
  friend number operator-(const number& a, const number& b) { return a.v - b.v; }
  friend number operator*(const number& a, const number& b) { return a.v * b.v; }
  friend number operator/(const number& a, const number& b) { return a.v / b.v; }
  number operator-() const { return -v; }
  friend bool operator>(const number& a, const number& b) { return a.v > b.v; }
  friend bool operator<(const number& a, const number& b) { return a.v < b.v; }
};
template <class B> number<B> pow(const number<B>& a, double e) { return std::pow(a.v, e); }
template <class B> number<B> log2(const number<B>& a) { return std::log2(a.v); }
template <class B> number<B> abs(const number<B>& a) { return std::fabs(a.v); }
}
