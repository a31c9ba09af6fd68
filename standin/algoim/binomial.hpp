// Stand-in for algoim/binomial.hpp: rows of Pascal's triangle.
#ifndef ALGOIM_BINOMIAL_HPP
#define ALGOIM_BINOMIAL_HPP
#include "uvector.hpp"
#include <cassert>
namespace algoim {
struct Binomial
{
  static constexpr int max_degree = 40;
  static const real *row(int n)
  {
    static real table[max_degree + 1][max_degree + 1];
    assert(0 <= n && n <= max_degree);
    real *r = table[n];
    r[0] = 1;
    for (int k = 1; k <= n; ++k) r[k] = r[k - 1] * static_cast<real>(n - k + 1) / static_cast<real>(k);
    return r;
  }
  static real c(int n, int k) { return row(n)[k]; }
};
}
#endif
