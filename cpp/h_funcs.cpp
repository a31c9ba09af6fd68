// Implicit functions: gradients and Hessians are the exact derivatives of the values.
// FUNC selects the function, DIM the dimension.
#include "sx_util.hpp"
#include <memory>
#include <qugar/affine_transf.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tpms_lib.hpp>
using namespace qugar;
using namespace qugar::impl;
constexpr int dim = DIM;
using F = std::shared_ptr<const ImplicitFunc<dim>>;
using IV = ::algoim::Interval<dim>;

static AffineTransf<dim> affine()
{
  Vector<real, dim *(dim + 1)> a;
  for (int i = 0; i < dim * (dim + 1); ++i) a(i) = sx_real(sxu::idx("a", i));
#if DIM == 2
  const double det = a(0) * a(3) - a(1) * a(2);
#else
  const double det = a(0) * (a(4) * a(8) - a(7) * a(5)) - a(1) * (a(3) * a(8) - a(5) * a(6)) + a(2) * (a(3) * a(7) - a(4) * a(6));
#endif
  sx_assume(det > 0.01 || det < -0.01);
  return AffineTransf<dim>(a);
}
static AffineTransf<dim> square_map;
static F multilinear(const char *n, bool transf)
{
  std::array<real, (1 << dim)> c;
  for (int i = 0; i < (1 << dim); ++i) c[i] = sx_real(sxu::idx(n, i));
  if (transf) return std::make_shared<funcs::DimLinear<dim>>(c, affine());
  return std::make_shared<funcs::DimLinear<dim>>(c);
}
static F sphere() { return std::make_shared<funcs::Sphere<dim>>(sxu::real("R", 0.01, 100.0), sxu::point<dim>("c")); }
static F quartic()
{
#if DIM == 2
  const double ri = sxu::real("ri", 0.01, 10.0), ro = sxu::real("ro", 0.01, 10.0);
  sx_assume(ri < ro);
  return std::make_shared<funcs::Annulus>(ri, ro, sxu::point<2>("c"));
#else
  const double ri = sxu::real("ri", 0.01, 10.0), ro = sxu::real("ro", 0.01, 10.0);
  sx_assume(ri < ro);
  const auto ax = sxu::point<3>("ax", -4.0, 4.0);
  sx_assume(ax(0) * ax(0) + ax(1) * ax(1) + ax(2) * ax(2) > 0.01);
  return std::make_shared<funcs::Torus>(ro, ri, sxu::point<3>("c"), ax);
#endif
}
template<class T> static F make_tpms()
{
  const auto m = sxu::point<dim>("m", 0.1, 5.0);
#if DIM == 2
  return std::make_shared<T>(m, sxu::real("z", -2.0, 2.0));
#else
  return std::make_shared<T>(m);
#endif
}
static F make()
{
#if FUNC == 0
  return sphere();
#elif FUNC == 1
  Point<dim> s = sxu::point<dim>("s", 0.1, 10.0);
  const auto ax = sxu::point<dim>("ax", -4.0, 4.0);
#if DIM == 2
  sx_assume(ax(0) * ax(0) + ax(1) * ax(1) > 0.01);
  return std::make_shared<funcs::Ellipsoid<2>>(s, RefSystem<2>(sxu::point<2>("o"), ax));
#else
  // an axis away from the x-direction (the other branch is covered with the reference systems)
  sx_assume(ax(1) * ax(1) + ax(2) * ax(2) > 0.01);
  return std::make_shared<funcs::Ellipsoid<3>>(s, RefSystem<3>(sxu::point<3>("o"), ax));
#endif
#elif FUNC == 2
  return std::make_shared<funcs::Plane<dim>>(sxu::point<dim>("o"), sxu::point<dim>("n"));
#elif FUNC == 3
  return std::make_shared<funcs::Constant<dim>>(sx_real("value"));
#elif FUNC == 4
  return multilinear("f", true);
#elif FUNC == 5
  return std::make_shared<funcs::TransformedFunction<dim>>(sphere(), affine());
#elif FUNC == 6
  return std::make_shared<funcs::Negative<dim>>(quartic());
#elif FUNC == 7
  return std::make_shared<funcs::AddFunctions<dim>>(quartic(), multilinear("f", false));
#elif FUNC == 8
  return std::make_shared<funcs::SubtractFunctions<dim>>(quartic(), multilinear("f", false));
#elif FUNC == 9
  return quartic();
#elif FUNC == 10
  const auto ax = sxu::point<3>("ax", -4.0, 4.0);
  sx_assume(ax(0) * ax(0) + ax(1) * ax(1) + ax(2) * ax(2) > 0.01);
  return std::make_shared<funcs::Cylinder>(sxu::real("R", 0.01, 100.0), sxu::point<3>("o"), ax);
#elif FUNC == 11
  // an orthotropic map: translation, scaling and a quarter turn of the axes
  Vector<real, dim *(dim + 1)> a(0.0);
  const int turn = sx_choice("turn", 0, 1);
  for (int i = 0; i < dim; ++i) {
    a(i * dim + (i < 2 && turn == 1 ? 1 - i : i)) = sxu::real(sxu::idx("scale", i), 0.1, 10.0);
    a(dim * dim + i) = sx_real(sxu::idx("shift", i));
  }
  square_map = AffineTransf<dim>(a);
  return std::make_shared<funcs::Square<dim>>(square_map);
#elif FUNC == 20
  return make_tpms<impl::tpms::Schoen<dim>>();
#elif FUNC == 21
  return make_tpms<impl::tpms::SchoenIWP<dim>>();
#elif FUNC == 22
  return make_tpms<impl::tpms::SchoenFRD<dim>>();
#elif FUNC == 23
  return make_tpms<impl::tpms::FischerKochS<dim>>();
#elif FUNC == 24
  return make_tpms<impl::tpms::SchwarzDiamond<dim>>();
#elif FUNC == 25
  return make_tpms<impl::tpms::SchwarzPrimitive<dim>>();
#endif
}

extern "C" void sx_main()
{
  const F f = make();
  const auto x = sxu::point<dim>("x");
#if FUNC == 11
  // away from the edges, where the function is not differentiable
  {
    const auto y = square_map.inverse().transform_point(x);
    double m[dim];
    for (int i = 0; i < dim; ++i) {
      m[i] = y(i) < 0.0 ? -y(i) : y(i);
      sx_assume(m[i] > 0.01);
      for (int j = 0; j < i; ++j) sx_assume(m[i] - m[j] > 0.01 || m[j] - m[i] > 0.01);
    }
  }
#endif
  const auto g = f->grad(x);
  for (int i = 0; i < dim; ++i) sxu::derivative([&](const Point<dim> &p) { return (*f)(p); }, x, i, g(i), "component of the gradient is the derivative of the value");
#if FUNC != 11
  const auto h = f->hessian(x);
  int ij = 0;
  for (int i = 0; i < dim; ++i)
    for (int j = i; j < dim; ++j, ++ij) {
      sxu::derivative([&](const Point<dim> &p) { return f->grad(p)(i); }, x, j, h(ij), "entry of the Hessian is the derivative of the gradient");
    }
#endif
  // interval evaluation restricted to a single point
  Point<dim, IV> xi;
  for (int i = 0; i < dim; ++i) xi(i) = IV(x(i));
  sx_assert_eq((*f)(xi).alpha, (*f)(x), "interval value at a point");
  const auto gi = f->grad(xi);
  for (int i = 0; i < dim; ++i) sx_assert_eq(gi(i).alpha, g(i), "interval gradient at a point");
  sx_reach("end");
}
