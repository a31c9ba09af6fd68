// Tensor-product polynomials: values, derivatives, conversions, bases.
#include "sx_util.hpp"
#include <memory>
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/bezier_tp_utils.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/monomials_tp.hpp>
#include <algoim/bernstein.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <vector>
using namespace qugar;
using namespace qugar::impl;
constexpr int dim = DIM;
#ifndef RANGE
#define RANGE 1
#endif
#ifndef MAXORDER
#define MAXORDER 3
#endif
using TS = TensorSizeTP<dim>;
using Coef = std::conditional_t<RANGE == 1, real, Point<RANGE>>;
template<class V> static double comp(const V &v, int i)
{
  if constexpr (std::is_arithmetic_v<std::decay_t<V>>) {
    (void)i;
    return v;
  } else
    return v(i);
}
template<class V> static void setc(V &v, int i, double x)
{
  if constexpr (std::is_arithmetic_v<V>) {
    (void)i;
    v = x;
  } else
    v(i) = x;
}
static TS orders(const char *n, int lo = 1, int hi = MAXORDER)
{
  Vector<int, dim> v;
  for (int d = 0; d < dim; ++d) v(d) = sx_choice(sxu::idx(n, d), lo, hi);
  return TS(v);
}
static std::vector<Coef> coefs(const char *n, const TS &o)
{
  std::vector<Coef> c;
  const int total = static_cast<int>(o.size());
  for (int i = 0; i < total; ++i) {
    Coef v{};
    for (int k = 0; k < RANGE; ++k) setc(v, k, sx_real(sxu::idx(n, i * RANGE + k)));
    c.push_back(v);
  }
  return c;
}
static double powi(double x, int k)
{
  double r = 1.0;
  for (int i = 0; i < k; ++i) r = r * x;
  return r;
}
static double binom(int n, int k)
{
  double r = 1.0;
  for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1);
  return r;
}
static double basis1(bool bernstein, int order, int i, double x)
{
  if (!bernstein) return powi(x, i);
  return binom(order - 1, i) * powi(x, i) * powi(1.0 - x, order - 1 - i);
}
// the reference: sum of coefficients times basis functions, direction 0 fastest
static double reference(bool bernstein, const TS &o, const std::vector<Coef> &c, const Point<dim> &x, int k)
{
  double v = 0.0;
  for (int i = 0; i < static_cast<int>(o.size()); ++i) {
    double t = comp(c[i], k);
    int rem = i;
    for (int d = 0; d < dim; ++d) {
      t = t * basis1(bernstein, o(d), rem % o(d), x(d));
      rem /= o(d);
    }
    v = v + t;
  }
  return v;
}
template<class P> static void check_function(const P &p, bool bernstein, const TS &o, const std::vector<Coef> &c)
{
  const auto x = sxu::point<dim>("x");
  const auto v = p(x);
  for (int k = 0; k < RANGE; ++k) {
    sx_assert_eq(comp(v, k), reference(bernstein, o, c, x, k), "value is the sum of coefficients times basis functions");
  }
  const auto g = p.grad(x);
  for (int i = 0; i < dim; ++i)
    for (int k = 0; k < RANGE; ++k)
      sxu::derivative([&](const Point<dim> &y) { return comp(p(y), k); }, x, i, comp(g(i), k), "gradient is the derivative of the value");
  const auto h = p.hessian(x);
  for (int i = 0, ij = 0; i < dim; ++i)
    for (int j = i; j < dim; ++j, ++ij)
      for (int k = 0; k < RANGE; ++k)
        sxu::derivative([&](const Point<dim> &y) { return comp(p.grad(y)(i), k); }, x, j, comp(h(ij), k), "Hessian is the derivative of the gradient");
#if RANGE == 1
  using IV = ::algoim::Interval<dim>;
  Point<dim, IV> xi;
  for (int i = 0; i < dim; ++i) xi(i) = IV(x(i));
  sx_assert_eq(p(xi).alpha, v, "interval value at a point");
  const auto gi = p.grad(xi);
  for (int i = 0; i < dim; ++i) sx_assert_eq(gi(i).alpha, g(i), "interval gradient at a point");
#endif
  sx_reach("end");
}
#if PART == 0
extern "C" void sx_main()
{
  const auto o = orders("o");
  const auto c = coefs("c", o);
  check_function(MonomialsTP<dim, RANGE>(o, c), false, o, c);
}
#elif PART == 1
extern "C" void sx_main()
{
  const auto o = orders("o");
  const auto c = coefs("c", o);
  check_function(BezierTP<dim, RANGE>(o, c), true, o, c);
}
#elif PART == 2
// monomials -> Bezier keep the function; derivative objects; image transformations; copies
extern "C" void sx_main()
{
  const auto o = orders("o");
  const auto c = coefs("c", o);
  const MonomialsTP<dim, RANGE> m(o, c);
  const BezierTP<dim, RANGE> b(m);
  const auto x = sxu::point<dim>("x");
  for (int k = 0; k < RANGE; ++k) sx_assert_eq(comp(b(x), k), comp(m(x), k), "conversion of monomials to Bezier keeps the function");
  const MonomialsTP<dim, RANGE> mc(m);
  const BezierTP<dim, RANGE> bc(b);
  for (int d = 0; d < dim; ++d) {
    sx_assert(b.get_order(d) == o(d) && mc.get_order(d) == o(d) && bc.get_order(d) == o(d) && m.get_degree(d) == o(d) - 1, "orders are kept");
    if (o(d) > 1) {
      const auto der = m.create_derivative(d);
      const auto g = m.grad(x);
      for (int k = 0; k < RANGE; ++k) sx_assert_eq(comp((*der)(x), k), comp(g(d), k), "derivative polynomial");
      for (int e = 0; e < dim; ++e) sx_assert(der->get_order(e) == o(e) - (e == d ? 1 : 0), "order of the derivative polynomial");
    }
  }
  for (int k = 0; k < RANGE; ++k) {
    sx_assert_eq(comp(mc(x), k), comp(m(x), k), "copies keep the function (monomials)");
    sx_assert_eq(comp(bc(x), k), comp(m(x), k), "copies keep the function (Bezier)");
  }
  const int i = sx_choice("i", 0, static_cast<int>(o.size()) - 1);
  const TensorIndexTP<dim> tid(i, o);
  for (int k = 0; k < RANGE; ++k) sx_assert_eq(comp(m.get_coef(tid), k), comp(c[i], k), "coefficients are stored with direction 0 fastest");
  sx_assert(m.get_num_coefs() == static_cast<std::size_t>(o.size()), "number of coefficients");
  sx_reach("end");
}
#elif PART == 3
// Bernstein bases in 1D
extern "C" void sx_main()
{
  const int order = sx_choice("order", 1, MAXORDER), der = sx_choice("der", 0, 3);
  const double x = sx_real("x");
  std::vector<real> v(static_cast<std::size_t>(order)), w(static_cast<std::size_t>(order));
  evaluate_Bernstein_value<real>(x, order, v);
  sx_assert(static_cast<int>(v.size()) == order, "number of basis values");
  for (int i = 0; i < order; ++i) sx_assert_eq(v[i], basis1(true, order, i, x), "Bernstein polynomial");
  evaluate_Bernstein<real>(x, order, der, w);
  sx_assert(static_cast<int>(w.size()) == order, "number of basis derivatives");
  // derivative of order der through the recurrence B'_{i,n} = n (B_{i-1,n-1} - B_{i,n-1})
  for (int i = 0; i < order; ++i) {
    double ref = 0.0;
    if (der < order) {
      const int n = order - 1;
      double f = 1.0;
      for (int k = 0; k < der; ++k) f = f * (n - k);
      for (int k = 0; k <= der; ++k) {
        const int idx = i - der + k;// coefficient (-1)^k binom(der,k) B_{i-der+k, n-der}
        if (idx < 0 || idx > n - der) continue;
        const double b = basis1(true, order - der, idx, x) * binom(der, k);
        ref = (k % 2 == 0) ? ref + b : ref - b;
      }
      ref = ref * f;
    }
    sx_assert_eq(w[i], ref, "derivative of the Bernstein polynomial");
  }
  sx_reach("end");
}
#elif PART == 4
// Lagrange bases at equidistant nodes
static std::vector<real> nodes(int order)
{
  std::vector<real> t;
  for (int i = 0; i < order; ++i) t.push_back(static_cast<real>(i) / (order - 1));
  return t;
}
extern "C" void sx_main()
{
  const auto o = orders("o", 2, MAXORDER);
  const auto x = sxu::point<dim>("x");
  const auto c = coefs("c", o);
  std::vector<real> b;
  Vector<std::vector<real>, dim> db;
  evaluate_Lagrange_basis<dim>(x, o, false, b);
  evaluate_Lagrange_derivative<dim>(x, o, false, db);
  const int total = static_cast<int>(o.size());
  sx_assert(static_cast<int>(b.size()) == total, "number of basis values");
  for (int i = 0; i < total; ++i) {
    double ref = 1.0;
    int rem = i;
    for (int d = 0; d < dim; ++d) {
      const auto t = nodes(o(d));
      const int k = rem % o(d);
      rem /= o(d);
      for (int j = 0; j < o(d); ++j)
        if (j != k) ref = ref * (x(d) - t[j]) / (t[k] - t[j]);
    }
    sx_assert_eq(b[i], ref, "Lagrange polynomial of the equidistant nodes");
    for (int d = 0; d < dim; ++d) {
      sxu::derivative(
        [&](const Point<dim> &y) {
          std::vector<real> by;
          evaluate_Lagrange_basis<dim>(y, o, false, by);
          return by[i];
        },
        x, d, db(d)[i], "derivative of the Lagrange polynomial");
    }
  }
  // the other family of nodes: a partition of unity that vanishes at equidistant interior nodes only for linear and quadratic orders
  std::vector<real> bc;
  Vector<std::vector<real>, dim> dbc;
  evaluate_Lagrange_basis<dim>(x, o, true, bc);
  evaluate_Lagrange_derivative<dim>(x, o, true, dbc);
  Point<dim> node;
  int rem = static_cast<int>(sx_choice("node", 0, total - 1)), which = rem;
  for (int d = 0; d < dim; ++d) {
    node(d) = ::algoim::bernstein::modifiedChebyshevNode(rem % o(d), o(d));
    rem /= o(d);
  }
  std::vector<real> bn;
  evaluate_Lagrange_basis<dim>(node, o, true, bn);
  for (int i = 0; i < total; ++i) {
    sx_assert_eq(bn[i], i == which ? 1.0 : 0.0, "Lagrange polynomials of the Chebyshev nodes are nodal");
    for (int d = 0; d < dim; ++d) {
      sxu::derivative(
        [&](const Point<dim> &y) {
          std::vector<real> by;
          evaluate_Lagrange_basis<dim>(y, o, true, by);
          return by[i];
        },
        x, d, dbc(d)[i], "derivative of the Lagrange polynomial (Chebyshev)");
    }
  }
  sx_reach("end");
}
#elif PART == 5
// image transformations
extern "C" void sx_main()
{
  const auto o = orders("o");
  const auto c = coefs("c", o);
  const auto x = sxu::point<dim>("x");
  BezierTP<dim, RANGE> b(o, c), t(o, c), l(o, c);
  const double s = sx_real("scale");
  Coef shift{};
  for (int k = 0; k < RANGE; ++k) setc(shift, k, sx_real(sxu::idx("shift", k)));
  l.coefs_linear_transform(s, shift);
  const auto v = b(x);
  const auto vl = l(x);
  for (int k = 0; k < RANGE; ++k) sx_assert_eq(comp(vl, k), s * comp(v, k) + comp(shift, k), "linear transformation of the image");
  Point<RANGE> lo0, hi0, lo1, hi1;
  for (int k = 0; k < RANGE; ++k) {
    lo0(k) = sx_real(sxu::idx("lo0_", k));
    lo1(k) = sx_real(sxu::idx("lo1_", k));
    hi0(k) = lo0(k) + sxu::real(sxu::idx("len0_", k), 0.01, 100.0);
    hi1(k) = lo1(k) + sxu::real(sxu::idx("len1_", k), 0.01, 100.0);
  }
  t.transform_image(BoundBox<RANGE>(lo0, hi0), BoundBox<RANGE>(lo1, hi1));
  const auto vt = t(x);
  for (int k = 0; k < RANGE; ++k)
    sx_assert_eq((comp(vt, k) - lo1(k)) * (hi0(k) - lo0(k)), (comp(v, k) - lo0(k)) * (hi1(k) - lo1(k)), "image of the old box is mapped to the new box");
  sx_reach("end");
}
#endif
