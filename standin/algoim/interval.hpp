// Stand-in for algoim/interval.hpp: first-order (affine) interval arithmetic.
// An Interval<N> encloses { alpha + beta.y + e : |y_i| <= delta_i, |e| <= eps }.
#ifndef ALGOIM_INTERVAL_HPP
#define ALGOIM_INTERVAL_HPP
#include <algoim/uvector.hpp>
#include <cmath>
namespace algoim {
template<int N> struct Interval
{
  real alpha;
  uvector<real, N> beta;
  real eps;

  Interval() : alpha(0.0), beta(0.0), eps(0.0) {}
  Interval(real a) : alpha(a), beta(0.0), eps(0.0) {}
  Interval(real a, const uvector<real, N> &b) : alpha(a), beta(b), eps(0.0) {}
  Interval(real a, const uvector<real, N> &b, real e) : alpha(a), beta(b), eps(e) {}

  static uvector<real, N> &delta()
  {
    static uvector<real, N> d(0.0);
    return d;
  }
  static real &delta(int i) { return delta()(i); }

  real linDeviation() const
  {
    real d = 0.0;
    for (int i = 0; i < N; ++i) d += std::fabs(beta(i)) * delta(i);
    return d;
  }
  real maxDeviation() const { return linDeviation() + eps; }
  bool uniformSign() const { return std::fabs(alpha) > maxDeviation(); }
  int sign() const { return uniformSign() ? (alpha >= 0.0 ? 1 : -1) : 0; }

  Interval operator-() const { return Interval(-alpha, -beta, eps); }
  Interval &operator+=(const Interval &y)
  {
    alpha += y.alpha; beta += y.beta; eps += y.eps;
    return *this;
  }
  Interval &operator-=(const Interval &y)
  {
    alpha -= y.alpha; beta -= y.beta; eps += y.eps;
    return *this;
  }
  Interval &operator*=(const Interval &y) { return *this = mul(*this, y); }
  Interval &operator/=(const Interval &y) { return *this = mul(*this, inv(y)); }

  static Interval mul(const Interval &x, const Interval &y)
  {
    const real lx = x.linDeviation();
    const real ly = y.linDeviation();
    return Interval(x.alpha * y.alpha,
      x.alpha * y.beta + y.alpha * x.beta,
      lx * ly + x.eps * (std::fabs(y.alpha) + ly) + y.eps * (std::fabs(x.alpha) + lx) + x.eps * y.eps);
  }
  // f with value f0, slope f1 and second-order remainder bound C over the interval.
  static Interval taylor(const Interval &x, real f0, real f1, real C)
  {
    const real l = x.linDeviation();
    const real dev = l + x.eps;
    return Interval(f0, f1 * x.beta, std::fabs(f1) * x.eps + 0.5 * C * dev * dev);
  }
  static Interval inv(const Interval &x)
  {
    assert(x.uniformSign());
    const real m = std::fabs(x.alpha) - x.maxDeviation();
    return taylor(x, 1.0 / x.alpha, -1.0 / (x.alpha * x.alpha), 2.0 / (m * m * m));
  }
};
template<int N> Interval<N> operator+(Interval<N> x, const Interval<N> &y) { x += y; return x; }
template<int N> Interval<N> operator+(Interval<N> x, real y) { x.alpha += y; return x; }
template<int N> Interval<N> operator+(real y, Interval<N> x) { x.alpha += y; return x; }
template<int N> Interval<N> operator-(Interval<N> x, const Interval<N> &y) { x -= y; return x; }
template<int N> Interval<N> operator-(Interval<N> x, real y) { x.alpha -= y; return x; }
template<int N> Interval<N> operator-(real y, const Interval<N> &x) { return Interval<N>(y - x.alpha, -x.beta, x.eps); }
template<int N> Interval<N> operator*(const Interval<N> &x, const Interval<N> &y) { return Interval<N>::mul(x, y); }
template<int N> Interval<N> operator*(const Interval<N> &x, real y)
{
  return Interval<N>(x.alpha * y, x.beta * y, x.eps * std::fabs(y));
}
template<int N> Interval<N> operator*(real y, const Interval<N> &x) { return x * y; }
template<int N> Interval<N> operator/(const Interval<N> &x, const Interval<N> &y)
{
  return Interval<N>::mul(x, Interval<N>::inv(y));
}
template<int N> Interval<N> operator/(const Interval<N> &x, real y)
{
  return Interval<N>(x.alpha / y, x.beta / y, x.eps / std::fabs(y));
}
template<int N> Interval<N> operator/(real y, const Interval<N> &x) { return Interval<N>::inv(x) * y; }
template<int N> Interval<N> sin(const Interval<N> &x)
{
  return Interval<N>::taylor(x, std::sin(x.alpha), std::cos(x.alpha), 1.0);
}
template<int N> Interval<N> cos(const Interval<N> &x)
{
  return Interval<N>::taylor(x, std::cos(x.alpha), -std::sin(x.alpha), 1.0);
}
template<int N> Interval<N> sqrt(const Interval<N> &x)
{
  const real m = x.alpha - x.maxDeviation();
  const real s = std::sqrt(x.alpha);
  return Interval<N>::taylor(x, s, 0.5 / s, 0.25 / (m * std::sqrt(m)));
}
}// namespace algoim
#endif
