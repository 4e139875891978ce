#pragma once
namespace boost::math {
template <class T> T binomial_coefficient(unsigned n, unsigned k) {
  double r = 1;
  for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i;
  return T(r);
}
}
