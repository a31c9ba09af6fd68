// Operations with tensor-product polynomials: the resulting polynomial is the result of the operation at every point.
#include "sx_util.hpp"
#include <memory>
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/bezier_tp_utils.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/monomials_tp.hpp>
#include <algoim/bernstein.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <vector>
using namespace qugar;
using namespace qugar::impl;
constexpr int dim = DIM;
#ifndef RANGE
#define RANGE 1
#endif
#ifndef MAXORDER
#define MAXORDER 3
#endif
using TS = TensorSizeTP<dim>;
using Coef = std::conditional_t<RANGE == 1, real, Point<RANGE>>;
template<class V> static double comp(const V &v, int i)
{
  if constexpr (std::is_arithmetic_v<std::decay_t<V>>) {
    (void)i;
    return v;
  } else
    return v(i);
}
template<class V> static void setc(V &v, int i, double x)
{
  if constexpr (std::is_arithmetic_v<V>) {
    (void)i;
    v = x;
  } else
    v(i) = x;
}
template<int D = dim> static TensorSizeTP<D> orders(const char *n, int lo = 1, int hi = MAXORDER)
{
  Vector<int, D> v;
  for (int d = 0; d < D; ++d) v(d) = sx_choice(sxu::idx(n, d), lo, hi);
  return TensorSizeTP<D>(v);
}
template<int D = dim, int R = RANGE> static auto coefs(const char *n, const TensorSizeTP<D> &o)
{
  using C = std::conditional_t<R == 1, real, Point<R>>;
  std::vector<C> c;
  const int total = static_cast<int>(o.size());
  for (int i = 0; i < total; ++i) {
    C v{};
    for (int k = 0; k < R; ++k) setc(v, k, sx_real(sxu::idx(n, i * R + k)));
    c.push_back(v);
  }
  return c;
}
using Bez = BezierTP<dim, RANGE>;
template<class A, class B> static void same(const A &a, const B &b, const char *msg)
{
  for (int k = 0; k < RANGE; ++k) sx_assert_eq(comp(a, k), comp(b, k), msg);
}
template<class V> static V scaled(const V &v, double s)
{
  V r = v;
  for (int k = 0; k < RANGE; ++k) setc(r, k, comp(v, k) * s);
  return r;
}
#if PART == 0
// sums, differences, products, negation, order elevation
extern "C" void sx_main()
{
  const auto oa = orders("oa"), ob = orders("ob");
  const auto ca = coefs("a", oa), cb = coefs("b", ob);
  const Bez a(oa, ca), b(ob, cb);
  const auto x = sxu::point<dim>("x");
  const auto va = a(x), vb = b(x);
  const auto s = a + b, d = a - b, p = a * b, n = a.negate();
  const auto vs = (*s)(x), vd = (*d)(x), vp = (*p)(x), vn = (*n)(x);
  for (int k = 0; k < RANGE; ++k) {
    sx_assert_eq(comp(vs, k), comp(va, k) + comp(vb, k), "sum of polynomials");
    sx_assert_eq(comp(vd, k), comp(va, k) - comp(vb, k), "difference of polynomials");
    sx_assert_eq(comp(vp, k), comp(va, k) * comp(vb, k), "product of polynomials");
    sx_assert_eq(comp(vn, k), -comp(va, k), "negative of a polynomial");
  }
  Vector<int, dim> up;
  for (int e = 0; e < dim; ++e) up(e) = oa(e) + sx_choice(sxu::idx("up", e), 0, 1);
  const auto r = a.raise_order(TS(up));
  same((*r)(x), va, "order elevation keeps the polynomial");
  for (int e = 0; e < dim; ++e) {
    sx_assert(r->get_order(e) == up(e), "order after the elevation");
    sx_assert(p->get_order(e) == oa(e) + ob(e) - 1, "order of the product");
    sx_assert(s->get_order(e) == std::max(oa(e), ob(e)) && d->get_order(e) == std::max(oa(e), ob(e)), "order of the sum");
    sx_assert(n->get_order(e) == oa(e), "order of the negative");
  }
  same(a(x), va, "operands are not modified");
  same(b(x), vb, "operands are not modified");
  sx_reach("end");
}
#elif PART == 1
// restriction to facets
extern "C" void sx_main()
{
  const auto o = orders("o");
  const auto c = coefs("c", o);
  const int f = sx_choice("facet", 0, 2 * dim - 1);
  const auto x = sxu::point<dim>("x");
  Point<dim> y = x;
  Point<dim - 1> z;
  for (int d = 0, k = 0; d < dim; ++d)
    if (d == f / 2)
      y(d) = f % 2;
    else
      z(k++) = x(d);
  const Bez b(o, c);
  const auto fb = b.extract_facet(f);
  same((*fb)(z), b(y), "a Bezier polynomial restricted to a facet");
  const MonomialsTP<dim, RANGE> m(o, c);
  const auto fm = m.extract_facet(f);
  same((*fm)(z), m(y), "a polynomial of monomials restricted to a facet");
  for (int d = 0, k = 0; d < dim; ++d)
    if (d != f / 2) {
      sx_assert(fb->get_order(k) == o(d) && fm->get_order(k) == o(d), "order of the restriction");
      ++k;
    }
  sx_reach("end");
}
#elif PART == 2
// change of domain, sign
extern "C" void sx_main()
{
  const auto o = orders("o");
  const auto c = coefs("c", o);
  const Bez orig(o, c);
  Bez b(o, c);
  const auto lo = sxu::point<dim>("lo"), hi = sxu::point<dim>("hi");
  for (int d = 0; d < dim; ++d) sx_assume(lo(d) < hi(d));
  const auto x = sxu::point<dim>("x");
  Point<dim> y;
  for (int d = 0; d < dim; ++d) y(d) = lo(d) + x(d) * (hi(d) - lo(d));
  b.rescale_domain(BoundBox<dim>(lo, hi));
  same(b(x), orig(y), "change of the domain");
  for (int d = 0; d < dim; ++d) sx_assert(b.get_order(d) == o(d), "order after a change of domain");
  Bez copy(b);
  copy.coefs_linear_transform(2.0, 1.0);
  same(b(x), orig(y), "copies are independent");
  sx_assert_eq(copy(x), 2.0 * b(x) + 1.0, "change of the coefficients");
  sx_reach("end");
}
#elif PART == 4
extern "C" void sx_main()
{
  const auto o = orders("o");
  const auto c = coefs("c", o);
  const Bez b(o, c);
  const auto s = b.sign();
  bool pos = true, neg = true;
  for (const auto &v : b.get_coefs()) {
    pos = pos & (v > 0.0);
    neg = neg & (v < 0.0);
  }
  sx_assert((s == FuncSign::positive) == pos, "a polynomial is positive exactly when all its coefficients are");
  sx_assert((s == FuncSign::negative) == neg, "a polynomial is negative exactly when all its coefficients are");
  sx_assert((s == FuncSign::undetermined) == (!pos && !neg), "sign undetermined otherwise");
  sx_reach("end");
}
#elif PART == 3
// composition
extern "C" void sx_main()
{
  constexpr int outer = OUTER;
  const auto oa = orders<outer>("oa", 1, OUTERORDER);
  const auto ob = orders<dim>("ob", 1, MAXORDER);
  const auto ca = coefs<outer, RANGE>("a", oa);
  const auto cb = coefs<dim, outer>("b", ob);
  const BezierTP<outer, RANGE> a(oa, ca);
  const BezierTP<dim, outer> b(ob, cb);
  const auto x = sxu::point<dim>("x");
  const auto inner = b(x);
  Point<outer> y;
  for (int d = 0; d < outer; ++d) y(d) = comp(inner, d);
  const auto ab = a.template compose<dim>(b);
  same((*ab)(x), a(y), "composition of polynomials");
  int deg = 0;
  for (int d = 0; d < outer; ++d) deg += oa(d) - 1;
  for (int d = 0; d < dim; ++d) sx_assert(ab->get_order(d) == deg * (ob(d) - 1) + 1, "order of the composition");
  sx_reach("end");
}
#endif
