// Stand-in for algoim/polyset.hpp and the elimination of directions of quadrature_multipoly.hpp: sets of
// Bernstein polynomials, for polynomials which are linear along the direction eliminated.
#ifndef ALGOIM_POLYSET_HPP
#define ALGOIM_POLYSET_HPP
#include <algoim/bernstein.hpp>
#include <algoim/booluarray.hpp>
#include <algoim/uvector.hpp>
#include <algoim/xarray.hpp>
#include <cassert>
#include <vector>
#ifndef ALGOIM_M
#define ALGOIM_M 8
#endif
namespace algoim {
template<int N, int E> struct PolySet
{
  struct Poly
  {
    std::vector<real> coefs;
    uvector<int, N> ext;
    booluarray<N, E> mask;
  };
  mutable std::vector<Poly> polys;
  void push_back(const xarray<real, N> &p, const booluarray<N, E> &m)
  {
    polys.push_back(Poly{ std::vector<real>(p.data(), p.data() + p.size()), p.ext(), m });
  }
  std::size_t count() const { return polys.size(); }
  xarray<real, N> poly(std::size_t i) const
  {
    assert(i < polys.size());
    return xarray<real, N>(polys[i].coefs.data(), polys[i].ext);
  }
  const booluarray<N, E> &mask(std::size_t i) const
  {
    assert(i < polys.size());
    return polys[i].mask;
  }
};
template<typename T> struct SparkStack
{
  std::vector<std::vector<T>> blocks;
  SparkStack(T **a, int n, T **b, int m) : blocks(2)
  {
    blocks[0].resize(static_cast<std::size_t>(n));
    blocks[1].resize(static_cast<std::size_t>(m > 0 ? m : 1));
    *a = blocks[0].data();
    *b = blocks[1].data();
  }
};
#define algoim_spark_alloc(T, ...) SparkStack<T> spark_stack_(__VA_ARGS__)
//! What the subdivision of a cell would tell about a polynomial of coefficients of different signs: whether it has no zeros.
inline bool &noZeros()
{
  static bool v = false;
  return v;
}
namespace detail {
  template<int N, int E> bool maskEmpty(const booluarray<N, E> &m) { return !m.on; }
  template<int N> bool mixed(const xarray<real, N> &p)
  {
    bool pos = true, neg = true;
    for (int i = 0; i < p.size(); ++i) {
      pos = pos & (p[i] > 0.0);
      neg = neg & (p[i] < 0.0);
    }
    return !(pos | neg);
  }
  template<int N, int E> booluarray<N, E> nonzeroMask(const xarray<real, N> &p, const booluarray<N, E> &m)
  {
    return booluarray<N, E>(m.on && !noZeros() && mixed(p));
  }
  template<int N, int E, int M> bool lineIntersectsMask(const booluarray<N, E> &m, const uvector<real, M> &, int) { return m.on; }
  template<int N, int E> bool pointWithinMask(const booluarray<N, E> &m, const uvector<real, N> &) { return m.on; }
  //! one score per direction: total of the absolute values of the derivative
  template<int N, int E> uvector<real, N> score_estimate(const PolySet<N, E> &phi, uvector<bool, N> &has_disc)
  {
    has_disc = uvector<bool, N>(false);
    uvector<real, N> s(0.0);
    for (std::size_t i = 0; i < phi.count(); ++i)
      for (int k = 0; k < (1 << N); ++k) {
        uvector<real, N> x;
        for (int d = 0; d < N; ++d) x(d) = (k >> d) & 1 ? 0.75 : 0.25;
        const auto g = bernstein::evalBernsteinPolyGradient(phi.poly(i), x);
        for (int d = 0; d < N; ++d) s(d) += std::fabs(g(d));
      }
    return s;
  }
  //! the part of a polynomial at one end of a direction along which it is linear
  template<int N> std::vector<real> end(const xarray<real, N> &p, int k, int side, uvector<int, N - 1> &ext)
  {
    assert(p.ext(k) == 2);
    std::vector<real> r;
    for (int d = 0, j = 0; d < N; ++d)
      if (d != k) ext(j++) = p.ext(d);
    int stride = 1;
    for (int d = N - 1; d > k; --d) stride *= p.ext(d);
    for (int i = 0; i < p.size(); ++i)
      if (i / stride % 2 == side) r.push_back(p[i]);
    return r;
  }
  template<int N> void product(const xarray<real, N> &p, const xarray<real, N> &q, double sign, std::vector<real> &r, uvector<int, N> &ext)
  {
    int n = 1;
    for (int d = 0; d < N; ++d) {
      ext(d) = p.ext(d) + q.ext(d) - 1;
      n *= ext(d);
    }
    if (r.empty()) r.assign(static_cast<std::size_t>(n), 0.0);
    for (int i = 0; i < p.size(); ++i)
      for (int j = 0; j < q.size(); ++j) {
        int a = i, b = j, f = 0, stride = 1;
        double w = sign;
        for (int d = N - 1; d >= 0; --d) {
          const int u = a % p.ext(d), v = b % q.ext(d);
          a /= p.ext(d);
          b /= q.ext(d);
          f += stride * (u + v);
          stride *= ext(d);
          w *= Binomial::c(p.ext(d) - 1, u) * Binomial::c(q.ext(d) - 1, v) / Binomial::c(ext(d) - 1, u + v);
        }
        r[static_cast<std::size_t>(f)] += w * p[i] * q[j];
      }
  }
  //! the polynomials at both ends of the direction, and the resultants of those with several
  template<int N, int E> void eliminate_axis(const PolySet<N, E> &phi, int k, PolySet<N - 1, E> &out)
  {
    const auto add = [&out](std::vector<real> &c, const uvector<int, N - 1> &ext) {
      const xarray<real, N - 1> x(c.data(), ext);
      const auto m = nonzeroMask(x, booluarray<N - 1, E>(true));
      if (m.on) out.push_back(x, m);
    };
    uvector<int, N - 1> ext;
    for (std::size_t i = 0; i < phi.count(); ++i)
      for (int side = 0; side < 2; ++side) {
        auto c = end(phi.poly(i), k, side, ext);
        add(c, ext);
      }
    for (std::size_t i = 0; i < phi.count(); ++i)
      for (std::size_t j = i + 1; j < phi.count(); ++j) {
        auto p0 = end(phi.poly(i), k, 0, ext), p1 = end(phi.poly(i), k, 1, ext), q0 = end(phi.poly(j), k, 0, ext), q1 = end(phi.poly(j), k, 1, ext);
        using X = xarray<real, N - 1>;
        std::vector<real> r;
        uvector<int, N - 1> e;
        product(X(p0.data(), ext), X(q1.data(), ext), 1.0, r, e);
        product(X(p1.data(), ext), X(q0.data(), ext), -1.0, r, e);
        add(r, e);
      }
  }
}// namespace detail
namespace bernstein {
  template<int N> void collapseAlongAxis(const xarray<real, N> &p, const uvector<real, N - 1> &x, int k, real *out)
  {
    std::vector<std::vector<real>> b(N);
    for (int d = 0, j = 0; d < N; ++d)
      if (d != k) {
        b[static_cast<std::size_t>(d)].resize(static_cast<std::size_t>(p.ext(d)));
        evalBasis(p.ext(d), x(j++), b[static_cast<std::size_t>(d)].data());
      }
    for (int i = 0; i < p.ext(k); ++i) out[i] = 0.0;
    for (int f = 0; f < p.size(); ++f) {
      int rem = f, at = 0;
      real w = 1.0;
      for (int d = N - 1; d >= 0; --d) {
        const int i = rem % p.ext(d);
        rem /= p.ext(d);
        if (d == k)
          at = i;
        else
          w *= b[static_cast<std::size_t>(d)][static_cast<std::size_t>(i)];
      }
      out[at] += p[f] * w;
    }
  }
  //! Whether the roots at the ends of the interval are found.
  inline bool &endRoots()
  {
    static bool v = false;
    return v;
  }
  inline int bernsteinUnitIntervalRealRoots(const real *c, int P, real *out)
  {
    if (P != 2) {
      bool pos = true, neg = true;
      for (int i = 0; i < P; ++i) {
        pos = pos & (c[i] > 0.0);
        neg = neg & (c[i] < 0.0);
      }
      assert(pos | neg);
      return 0;
    }
    const real a = c[0], b = c[1];
    if (endRoots() ? ((a <= 0.0) & (b >= 0.0)) | ((a >= 0.0) & (b <= 0.0)) : ((a < 0.0) & (b > 0.0)) | ((a > 0.0) & (b < 0.0))) {
      if (a == b) return 0;
      out[0] = a / (a - b);
      return 1;
    }
    return 0;
  }
}// namespace bernstein
}// namespace algoim
#endif
