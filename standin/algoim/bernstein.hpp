// Stand-in for algoim/bernstein.hpp: the functions QUGaR calls, written from their
// mathematical definition.  Axis d of the coefficient array is coordinate x(d).
#ifndef ALGOIM_BERNSTEIN_HPP
#define ALGOIM_BERNSTEIN_HPP
#include "binomial.hpp"
#include "interval.hpp"
#include "uvector.hpp"
#include "xarray.hpp"
#include <algorithm>
#include <cmath>
#include <vector>
namespace algoim::bernstein {
inline real modifiedChebyshevNode(int i, int P)
{
  if (P == 1) return 0.5;
  const real pi = 3.141592653589793238462643383279502884;
  return 0.5 - 0.5 * std::cos(pi * (2 * i + 1) / (2.0 * P)) / std::cos(pi / (2.0 * P));
}
//! Restricts, in place, one strided line to [a,b] (blossoming: no division).
inline void deCasteljauLine(real *c, int P, int stride, real a, real b)
{
  std::vector<real> out(P), w(P);
  for (int i = 0; i < P; ++i) {
    for (int k = 0; k < P; ++k) w[k] = c[k * stride];
    for (int s = 1; s < P; ++s) {
      const real t = s <= i ? b : a;
      for (int k = 0; k < P - s; ++k) w[k] = w[k] * (real(1) - t) + w[k + 1] * t;
    }
    out[i] = w[0];
  }
  for (int i = 0; i < P; ++i) c[i * stride] = out[i];
}
template<int N> void deCasteljau(xarray<real, N> &alpha, const real *a, const real *b)
{
  int stride = 1;
  for (int d = N - 1; d >= 0; --d) {
    const int P = alpha.ext(d);
    const int total = alpha.size();
    for (int base = 0; base < total; ++base)
      if ((base / stride) % P == 0) deCasteljauLine(alpha.data() + base, P, stride, a[d], b[d]);
    stride *= P;
  }
}
template<int N> int uniformSign(const xarray<real, N> &beta)
{
  const auto sgn = [](real v) { return (v > 0) - (v < 0); };
  const int s = sgn(beta[0]);
  for (int i = 1; i < beta.size(); ++i)
    if (sgn(beta[i]) != s) return 0;
  return s;
}
inline void evalBasis(int P, real x, real *out)
{
  for (int i = 0; i < P; ++i) {
    real v = Binomial::c(P - 1, i);
    for (int k = 0; k < i; ++k) v *= x;
    for (int k = 0; k < P - 1 - i; ++k) v *= real(1) - x;
    out[i] = v;
  }
}
template<int N> real evalBernsteinPoly(const xarray<real, N> &alpha, const uvector<real, N> &x)
{
  std::vector<std::vector<real>> b(N);
  for (int d = 0; d < N; ++d) {
    b[d].resize(alpha.ext(d));
    evalBasis(alpha.ext(d), x(d), b[d].data());
  }
  real r = 0;
  for (int f = 0; f < alpha.size(); ++f) {
    int rem = f;
    real w = 1;
    for (int d = N - 1; d >= 0; --d) {
      w *= b[d][rem % alpha.ext(d)];
      rem /= alpha.ext(d);
    }
    r += alpha[f] * w;
  }
  return r;
}
template<int N> uvector<real, N> evalBernsteinPolyGradient(const xarray<real, N> &alpha, const uvector<real, N> &x)
{
  uvector<real, N> g;
  for (int dir = 0; dir < N; ++dir) {
    std::vector<std::vector<real>> b(N);
    for (int d = 0; d < N; ++d) {
      const int P = alpha.ext(d);
      b[d].resize(P);
      if (d != dir)
        evalBasis(P, x(d), b[d].data());
      else {
        std::vector<real> l(P);
        if (P > 1) evalBasis(P - 1, x(d), l.data());
        for (int i = 0; i < P; ++i) b[d][i] = P == 1 ? 0.0 : (P - 1) * ((i > 0 ? l[i - 1] : 0.0) - (i < P - 1 ? l[i] : 0.0));
      }
    }
    real r = 0;
    for (int f = 0; f < alpha.size(); ++f) {
      int rem = f;
      real w = 1;
      for (int d = N - 1; d >= 0; --d) {
        w *= b[d][rem % alpha.ext(d)];
        rem /= alpha.ext(d);
      }
      r += alpha[f] * w;
    }
    g(dir) = r;
  }
  return g;
}
}
#endif
