// One-dimensional quadrature tables and tensor-product quadratures.
#include "sx_util.hpp"
#include <array>
#include <memory>
#include <qugar/bbox.hpp>
#include <qugar/quadrature.hpp>
using namespace qugar;

#if PART == 0
//! Every rule of n points is exact for every polynomial of degree 2 n - 1 with coefficients in [-1,1].
extern "C" void sx_main()
{
  double coef[8];
  for (int k = 0; k < 8; ++k) coef[k] = sxu::real(sxu::idx("c", k), -1.0, 1.0);
  for (int n = FIRST; n <= LAST; ++n) {
    double prev = 0.0;
    std::array<double, 2 * LAST> m{};
    for (int i = 0; i < n; ++i) {
      const double x = Gauss::get_abscissa(n, i), w = Gauss::get_weight(n, i);
      sx_assert(x > prev, "abscissae increase within (0,1)");
      sx_assert(x < 1.0, "abscissae below one");
      sx_assert(w > 0.0, "positive weights");
      prev = x;
      double p = w;
      for (int k = 0; k < 2 * n; ++k, p = sx_fma(p, x, 0.0)) m[static_cast<std::size_t>(k)] = sx_fma(p, 1.0, m[static_cast<std::size_t>(k)]);
    }
    // eight coefficients at a time (the error is additive over the groups)
    for (int k0 = 0; k0 < 2 * n; k0 += 8) {
      double quad = 0.0, exact = 0.0;
      for (int k = k0; k < 2 * n && k < k0 + 8; ++k) {
        const double c = coef[k - k0];
        quad += c * m[static_cast<std::size_t>(k)];
        exact += c / static_cast<double>(k + 1);
      }
      sx_assert((quad - exact < 5.0e-15) & (exact - quad < 5.0e-15), "integral of a polynomial within rounding errors");
    }
  }
  sx_reach("end");
}
#elif PART == 1
extern "C" void sx_main()
{
  double coef[9];
  for (int k = 0; k < 9; ++k) coef[k] = sxu::real(sxu::idx("c", k), -1.0, 1.0);
  for (int n = FIRST; n <= LAST; ++n) {
    double prev = 0.0, sum = 0.0;
    std::array<double, 9> m{};
    for (int i = 0; i < n; ++i) {
      const double x = TanhSinh::get_abscissa(n, i), w = TanhSinh::get_weight(n, i);
      sx_assert(x >= prev, "abscissae do not decrease");
      sx_assert(x <= 1.0, "abscissae not above one");
      sx_assert(w >= 0.0, "weights not negative");
      sx_assert(std::fabs(x + TanhSinh::get_abscissa(n, n - 1 - i) - 1.0) < 1.0e-14, "symmetric abscissae");
      sx_assert(std::fabs(w - TanhSinh::get_weight(n, n - 1 - i)) < 1.0e-14, "symmetric weights");
      prev = x;
      sum += w;
      double p = w;
      for (int k = 0; k < 9; ++k, p = sx_fma(p, x, 0.0)) m[static_cast<std::size_t>(k)] = sx_fma(p, 1.0, m[static_cast<std::size_t>(k)]);
    }
    sx_assert(std::fabs(sum - 1.0) < 1.0e-14, "weights add up to one");
    // error for polynomials: none for degree one, decreasing with the number of points up to degree eight
    double quad = 0.0, exact = 0.0;
    for (int k = 0; k < 9; ++k) {
      const double c = coef[k];
      quad += c * m[static_cast<std::size_t>(k)];
      exact += c / static_cast<double>(k + 1);
      if (k == 1) {
        sx_assert(quad - exact < 1.0e-13, "integral of a linear polynomial");
        sx_assert(exact - quad < 1.0e-13, "integral of a linear polynomial");
      }
    }
    const double tol = n >= 50 ? 1.0e-13 : n >= 30 ? 1.0e-10 : n >= 20 ? 1.0e-6 : n >= 10 ? 1.0e-3 : n >= 5 ? 0.1 : 1.0;
    sx_assert(quad - exact < tol, "the rule converges for polynomials");
    sx_assert(exact - quad < tol, "the rule converges for polynomials");
  }
  sx_reach("end");
}
#elif PART == 2
//! Tensor-product rules over any box: they are the product measure of the one-dimensional rules mapped to the box.
constexpr int dim = DIM;
template<class Rule, class Make> static void product(const Make &make, const BoundBox<dim> &box, const std::array<int, dim> &n)
{
  const auto quad = make(n);
  int tot = 1;
  for (int d = 0; d < dim; ++d) tot *= n[d];
  sx_assert(quad->get_num_points() == static_cast<std::size_t>(tot), "number of points");
  sx_assert(quad->points().size() == static_cast<std::size_t>(tot), "number of stored points");
  sx_assert(quad->weights().size() == static_cast<std::size_t>(tot), "number of stored weights");
  // the usual order (first direction fastest), if it is so, makes it at once
  bool same = true;
  for (int q = 0; q < tot && same; ++q) {
    int r = q;
    double w = 1.0;
    for (int d = 0; d < dim; ++d) {
      const int i = r % n[d];
      r /= n[d];
      same = same && sx_same(quad->points()[static_cast<std::size_t>(q)](d), box.min(d) + Rule::get_abscissa(n[d], i) * box.length(d));
      w *= Rule::get_weight(n[d], i) * box.length(d);
    }
    same = same && sx_same(quad->weights()[static_cast<std::size_t>(q)], w);
  }
  // otherwise, through the moments
  if (!same)
    for (int a = 0; a < 4; ++a)
      for (int b = 0; b < (dim > 1 ? 4 : 1); ++b)
        for (int c = 0; c < (dim > 2 ? 4 : 1); ++c) {
          const int e[3] = { a, b, c };
          double got = 0.0, ref = 1.0;
          for (int q = 0; q < tot; ++q) {
            double t = quad->weights()[static_cast<std::size_t>(q)];
            for (int d = 0; d < dim; ++d)
              for (int k = 0; k < e[d]; ++k) t *= quad->points()[static_cast<std::size_t>(q)](d);
            got += t;
          }
          for (int d = 0; d < dim; ++d) {
            double s = 0.0;
            for (int i = 0; i < n[d]; ++i) {
              double t = Rule::get_weight(n[d], i) * box.length(d);
              for (int k = 0; k < e[d]; ++k) t *= box.min(d) + Rule::get_abscissa(n[d], i) * box.length(d);
              s += t;
            }
            ref *= s;
          }
          sx_assert_eq(got, ref, "moments of the product measure");
        }
  // rescaling the weights
  const double ratio = sx_real("ratio");
  std::vector<double> w0 = quad->weights();
  const auto p0 = quad->points();
  quad->scale_weights(ratio);
  for (int q = 0; q < tot; ++q) {
    sx_assert_eq(quad->weights()[static_cast<std::size_t>(q)], ratio * w0[static_cast<std::size_t>(q)], "scaled weight");
    for (int d = 0; d < dim; ++d)
      sx_assert_eq(quad->points()[static_cast<std::size_t>(q)](d), p0[static_cast<std::size_t>(q)](d), "point kept");
  }
}
extern "C" void sx_main()
{
  Point<dim> lo, hi;
  std::array<int, dim> n{};
  const int kind = sx_choice("kind", 0, 3);
  for (int d = 0; d < dim; ++d) {
    n[d] = sx_choice(sxu::idx("n", d), 1, MAXN);
    lo(d) = kind < 2 ? sx_real(sxu::idx("lo", d)) : 0.0;
    hi(d) = kind < 2 ? sx_real(sxu::idx("hi", d)) : 1.0;
    if (kind < 2) sx_assume(hi(d) - lo(d) > 0.001);
  }
  const BoundBox<dim> box(lo, hi);
  switch (kind) {
  case 0:
    product<Gauss>([&](const auto &m) { return Quadrature<dim>::create_Gauss(m, box); }, box, n);
    break;
  case 1:
    product<TanhSinh>([&](const auto &m) { return Quadrature<dim>::create_tanh_sinh(m, box); }, box, n);
    break;
  case 2: {
    for (int d = 1; d < dim; ++d) n[d] = n[0];
    product<Gauss>([&](const auto &m) { return Quadrature<dim>::create_Gauss_01(m[0]); }, box, n);
    product<TanhSinh>([&](const auto &m) { return Quadrature<dim>::create_tanh_sinh_01(m[0]); }, box, n);
    break;
  }
  default:
    product<Gauss>([&](const auto &m) { return Quadrature<dim>::create_Gauss_01(m); }, box, n);
    product<TanhSinh>([&](const auto &m) { return Quadrature<dim>::create_tanh_sinh_01(m); }, box, n);
  }
  sx_reach("end");
}
#endif
