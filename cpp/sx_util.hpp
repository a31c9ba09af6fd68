#pragma once
#include "sx.hpp"
#include <cmath>
#include <string>
#include <functional>
#include <qugar/point.hpp>

namespace sxu {
//! Symbolic integer within [lo,hi].
inline int i32(const char *name, int lo, int hi)
{
  const int v = sx_i32(name);
  sx_assume(lo <= v && v <= hi);
  return v;
}
inline std::int64_t i64(const char *name, std::int64_t lo, std::int64_t hi)
{
  const std::int64_t v = sx_i64(name);
  sx_assume(lo <= v && v <= hi);
  return v;
}
//! Symbolic real within [lo,hi].
inline double real(const char *name, double lo, double hi)
{
  const double v = sx_real(name);
  sx_assume(lo <= v);
  sx_assume(v <= hi);
  return v;
}
inline const char *idx(const char *base, int i)
{
  static char buf[64][24];
  static int k = 0;
  k = (k + 1) % 64;
  char *b = buf[k];
  int n = 0;
  for (; base[n] && n < 18; ++n) b[n] = base[n];
  if (i >= 10) b[n++] = static_cast<char>('0' + i / 10);
  b[n++] = static_cast<char>('0' + i % 10);
  b[n] = 0;
  return b;
}
//! Symbolic point with coordinates base0, base1, ...
template<int dim> inline qugar::Point<dim> point(const char *base)
{
  qugar::Point<dim> p;
  for (int d = 0; d < dim; ++d) p(d) = sx_real(idx(base, d));
  return p;
}
template<int dim> inline qugar::Point<dim> point(const char *base, double lo, double hi)
{
  qugar::Point<dim> p;
  for (int d = 0; d < dim; ++d) p(d) = real(idx(base, d), lo, hi);
  return p;
}

//! Asserts that `claimed` is the derivative of f along direction dir at x.
//! Symbolically: the exact derivative of the expression computed by f.
//! Natively (replay): central differences.
template<class F, class P> inline void derivative(const F &f, const P &x, int dir, double claimed, const char *msg)
{
  if (sx_symbolic()) {
    const double v = f(x);
    sx_assert_eq(sx_diff(v, x(dir)), claimed, msg);
  } else {
    const double h = 1.0e-4 * (1.0 + std::fabs(x(dir)));
    P a = x, b = x;
    a(dir) += h;
    b(dir) -= h;
    P a2 = x, b2 = x;
    a2(dir) += 2 * h;
    b2(dir) -= 2 * h;
    const double d = (8 * (f(a) - f(b)) - (f(a2) - f(b2))) / (12 * h);
    const double scale = 1.0 + std::fabs(d) + std::fabs(claimed) + 1.0e-3 * std::fabs(f(x));
    sx_assert(std::fabs(d - claimed) <= 2.0e-4 * scale, msg);
  }
}
}
