// Named implicit shapes: the sign of the function tells inside from outside, for every set
// of parameters and every point; the functions with a documented formula take that value.
#include "sx_util.hpp"
#include <memory>
#include <qugar/affine_transf.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tpms_lib.hpp>
using namespace qugar;
using namespace qugar::impl;
constexpr int dim = DIM;
using P = Point<dim>;
using IV = ::algoim::Interval<dim>;

static P x;
//! The function is negative / zero / positive exactly when the reference is.
static void same_sign(const double f, const double ref)
{
  if (sx_same(f, ref)) return;
  sx_assert((f < 0.0) == (ref < 0.0), "function is negative exactly inside the shape");
  sx_assert((f > 0.0) == (ref > 0.0), "function is positive exactly outside the shape");
}
static void same_point(const P &a, const P &b, const char *msg)
{
  for (int i = 0; i < dim; ++i) sx_assert_eq(a(i), b(i), msg);
}
static P not_null(const char *n)
{
#if DIM == 2
  static const double fixed[2][2] = { { 3.0, -4.0 }, { -0.5, 1.2 } };
#else
  static const double fixed[2][3] = { { 1.0, 2.0, -2.0 }, { 6.0, -2.0, 3.0 } };
#endif
  // a general axis, or one with a rational length
#ifdef FIXED_AXIS
  const int k = sx_choice("axis", 1, 2);
#else
  const int k = sx_choice("axis", 0, 2);
#endif
  if (k > 0) {
    P r;
    for (int i = 0; i < dim; ++i) r(i) = fixed[k - 1][i];
    return r;
  }
  const P a = sxu::point<dim>(n, -4.0, 4.0);
  double s = 0.0;
  for (int i = 0; i < dim; ++i) s += a(i) * a(i);
  sx_assume(s > 0.01);
  return a;
}
static double dot_(const P &a, const P &b)
{
  double s = 0.0;
  for (int i = 0; i < dim; ++i) s += a(i) * b(i);
  return s;
}
[[maybe_unused]] static P unit(int k)
{
  P e(0.0);
  e(k) = 1.0;
  return e;
}

template<class S> static void sphere()
{
  const double R = sxu::real("R", 0.01, 100.0);
  const bool dflt = sx_choice("default center", 0, 1) == 1;
  const P c = dflt ? P(0.0) : sxu::point<dim>("c");
  const S s = dflt ? S(R) : S(R, c);
  const P d = x - c;
  same_sign(s(x), dot_(d, d) - R * R);
  sx_assert_eq(s.radius(), R, "radius");
  same_point(s.center(), c, "center");
}
#if DIM == 3
template<class S> static void cylinder()
{
  const double R = sxu::real("R", 0.01, 100.0);
  const int ctor = sx_choice("constructor", 0, 2);
  const P o = ctor > 0 ? sxu::point<3>("o") : P(0.0);
  const P a = ctor > 1 ? not_null("ax") : unit(2);
  const S s = ctor == 0 ? S(R) : ctor == 1 ? S(R, o) : S(R, o, a);
  const P d = x - o;
  const double da = dot_(d, a), aa = dot_(a, a);
  same_sign(s(x), dot_(d, d) - da * da / aa - R * R);
  sx_assert_eq(s.radius(), R, "radius");
  same_point(s.origin(), o, "origin");
  // the axis is kept, up to its length
  for (int i = 0; i < 3; ++i) sx_assert_eq(s.axis()(i) * dot_(a, s.axis()), a(i) * dot_(s.axis(), s.axis()), "axis direction");
}
template<class S> static void torus()
{
  const double r = sxu::real("r", 0.01, 10.0), R = sxu::real("R", 0.01, 10.0);
  sx_assume(r < R);
  const int ctor = sx_choice("constructor", 0, 2);
  const P o = ctor > 0 ? sxu::point<3>("o") : P(0.0);
  const P a = ctor > 1 ? not_null("ax") : unit(2);
  const S s = ctor == 0 ? S(R, r) : ctor == 1 ? S(R, r, o) : S(R, r, o, a);
  const P d = x - o;
  const double dd = dot_(d, d), da = dot_(d, a), aa = dot_(a, a);
  // squared distance to the axis: perp; inside iff (sqrt(perp) - R)^2 + (dd - perp) < r^2
  const double perp = dd - da * da / aa;
  const double t = dd + R * R - r * r;
  same_sign(s(x), t * t - 4.0 * R * R * perp);
  sx_assert_eq(s.major_radius(), R, "major radius");
  sx_assert_eq(s.minor_radius(), r, "minor radius");
  same_point(s.center(), o, "center");
  for (int i = 0; i < 3; ++i) sx_assert_eq(s.axis()(i) * dot_(a, s.axis()), a(i) * dot_(s.axis(), s.axis()), "axis direction");
}
#else
template<class S> static void annulus()
{
  const double r = sxu::real("ri", 0.01, 10.0), R = sxu::real("ro", 0.01, 10.0);
  sx_assume(r < R);
  const bool dflt = sx_choice("default center", 0, 1) == 1;
  const P c = dflt ? P(0.0) : sxu::point<dim>("c");
  const S s = dflt ? S(r, R) : S(r, R, c);
  const P d = x - c;
  const double dd = dot_(d, d);
  const double v = s(x);
  same_sign(v, (dd - r * r) * (dd - R * R));
  // and the meaning of that reference
  sx_assert_eq(s.inner_radius(), r, "inner radius");
  sx_assert_eq(s.outer_radius(), R, "outer radius");
  same_point(s.center(), c, "center");
}
#endif
template<class S> static void ellipsoid()
{
  const P ax = sxu::point<dim>("s", 0.1, 10.0);
  const bool dflt = sx_choice("default system", 0, 1) == 1;
  if (dflt) {
    const S s(ax);
    double ref = -1.0;
    for (int i = 0; i < dim; ++i) ref += (x(i) / ax(i)) * (x(i) / ax(i));
    same_sign(s(x), ref);
    same_point(s.semi_axes(), ax, "semi-axes");
    return;
  }
  const P o = sxu::point<dim>("o");
#if DIM == 2
  const RefSystem<2> sys(o, not_null("ax"));
#else
  const P z = not_null("ax");
  sx_assume(z(1) * z(1) + z(2) * z(2) > 0.01);
  const RefSystem<3> sys(o, z);
#endif
  const S s(ax, sys);
  const P d = x - o;
  double ref = -1.0;
  for (int i = 0; i < dim; ++i) {
    const double y = dot_(d, sys.get_basis()[i]) / ax(i);
    ref += y * y;
  }
  same_sign(s(x), ref);
  same_point(s.semi_axes(), ax, "semi-axes");
  same_point(s.ref_system().get_origin(), o, "reference system");
}
template<class S> static void plane()
{
  const bool dflt = sx_choice("default", 0, 1) == 1;
  const P o = dflt ? P(0.0) : sxu::point<dim>("o");
  const P n = dflt ? unit(0) : not_null("n");
  const S s = dflt ? S() : S(o, n);
  same_sign(s(x), dot_(x - o, n));
  same_point(s.origin(), o, "origin");
  for (int i = 0; i < dim; ++i) sx_assert_eq(s.normal()(i) * dot_(n, s.normal()), n(i) * dot_(s.normal(), s.normal()), "normal direction");
}
template<class S> static void constant()
{
  const bool dflt = sx_choice("default", 0, 1) == 1;
  const double v = dflt ? 0.5 : sx_real("value");
  const S s = dflt ? S() : S(v);
  sx_assert_eq(s(x), v, "constant value");
  sx_assert_eq(s.value(), v, "constant");
}
//! A symbolic invertible affine map y = A x + b, with its matrix.
static double A_[dim][dim], b_[dim];
static AffineTransf<dim> affine()
{
  Vector<real, dim *(dim + 1)> a;
  for (int i = 0; i < dim * (dim + 1); ++i) a(i) = sx_real(sxu::idx("a", i));
  for (int i = 0; i < dim; ++i) {
    b_[i] = a(dim * dim + i);
    for (int j = 0; j < dim; ++j) A_[i][j] = a(i * dim + j);
  }
#if DIM == 2
  const double det = a(0) * a(3) - a(1) * a(2);
#else
  const double det = a(0) * (a(4) * a(8) - a(7) * a(5)) - a(1) * (a(3) * a(8) - a(5) * a(6)) + a(2) * (a(3) * a(7) - a(4) * a(6));
#endif
  sx_assume(det > 0.01 || det < -0.01);
  return AffineTransf<dim>(a);
}
static P image(const P &y)
{
  P r;
  for (int i = 0; i < dim; ++i) {
    r(i) = b_[i];
    for (int j = 0; j < dim; ++j) r(i) += A_[i][j] * y(j);
  }
  return r;
}
[[maybe_unused]] static void square()
{
  const bool dflt = sx_choice("default", 0, 1) == 1;
  // an orthotropic map: translation, scaling and a quarter turn of the axes
  Vector<real, dim *(dim + 1)> a(0.0);
  double sc[dim], sh[dim];
  int from[dim];
  const int turn = dflt ? 0 : sx_choice("turn", 0, 1);
  for (int i = 0; i < dim; ++i) {
    sc[i] = dflt ? 1.0 : sxu::real(sxu::idx("scale", i), 0.1, 10.0);
    sh[i] = dflt ? 0.0 : sx_real(sxu::idx("shift", i));
    from[i] = i < 2 && turn == 1 ? 1 - i : i;
    a(i * dim + from[i]) = sc[i];
    a(dim * dim + i) = sh[i];
  }
  const funcs::Square<dim> s = dflt ? funcs::Square<dim>() : funcs::Square<dim>(AffineTransf<dim>(a));
  const double v = s(x);
  bool in = true, out = false;
  for (int i = 0; i < dim; ++i) {
    in = in & (x(i) - sh[i] < sc[i]) & (x(i) - sh[i] > -sc[i]);
    out = out | (x(i) - sh[i] > sc[i]) | (x(i) - sh[i] < -sc[i]);
  }
  sx_assert((v < 0.0) == in, "function is negative exactly inside the square");
  sx_assert((v > 0.0) == out, "function is positive exactly outside the square");
}
[[maybe_unused]] static void multilinear(bool transf)
{
  std::array<real, (1 << dim)> c;
  for (int i = 0; i < (1 << dim); ++i) c[i] = sx_real(sxu::idx("f", i));
  double ref = 0.0;
  for (int k = 0; k < (1 << dim); ++k) {
    double w = c[k];
    for (int i = 0; i < dim; ++i) w *= (k >> i) & 1 ? x(i) : 1.0 - x(i);
    ref += w;
  }
  if (transf) {
    const auto t = affine();
    sx_assert_eq(funcs::DimLinear<dim>(c, t)(image(x)), ref, "value of the transformed multilinear function");
  } else
    sx_assert_eq(funcs::DimLinear<dim>(c)(x), ref, "value of the multilinear function");
}
using F = std::shared_ptr<const ImplicitFunc<dim>>;
static F quartic()
{
  const double ri = sxu::real("ri", 0.01, 10.0), ro = sxu::real("ro", 0.01, 10.0);
  sx_assume(ri < ro);
#if DIM == 2
  return std::make_shared<funcs::Annulus>(ri, ro, sxu::point<2>("c"));
#else
  return std::make_shared<funcs::Torus>(ro, ri, sxu::point<3>("c"));
#endif
}
[[maybe_unused]] static void combos()
{
  const F a = quartic();
  const F b = std::make_shared<funcs::Plane<dim>>(sxu::point<dim>("o"), sxu::point<dim>("n"));
  const double va = (*a)(x), vb = (*b)(x);
  sx_assert_eq(funcs::Negative<dim>(a)(x), -va, "negative");
  sx_assert_eq(funcs::AddFunctions<dim>(a, b)(x), va + vb, "sum");
  sx_assert_eq(funcs::SubtractFunctions<dim>(a, b)(x), va - vb, "difference");
  sx_assert_eq(funcs::Negative<dim>(std::make_shared<funcs::SubtractFunctions<dim>>(b, a))(x), va - vb, "composition of combinations");
}
[[maybe_unused]] static void transformed()
{
  const F a = quartic();
  const double va = (*a)(x);
  const auto t = affine();
  sx_assert_eq(funcs::TransformedFunction<dim>(a, t)(image(x)), va, "the transformed function at the image of a point is the function at the point");
}
constexpr double pi = 3.14159265358979323846;
[[maybe_unused]] static double c2(double t) { return std::cos(2.0 * pi * t); }
[[maybe_unused]] static double s2(double t) { return std::sin(2.0 * pi * t); }
[[maybe_unused]] static double c4(double t) { return std::cos(4.0 * pi * t); }
#define COND_TPMS(NAME, EXPR)                                                            \
  static void tpms_##NAME()                                                              \
  {                                                                                      \
    const auto mm = sxu::point<dim>("m", 0.1, 5.0);                                      \
    double u[3];                                                                         \
    for (int i = 0; i < dim; ++i) u[i] = mm(i) * x(i);                                   \
    if (dim == 2) u[2] = sxu::real("z", -2.0, 2.0);                                      \
    const double X = u[0], Y = u[1], Z = u[2];                                           \
    sx_assert_eq(tpms_make<impl::tpms::NAME<dim>>(mm, Z)(x), EXPR, "documented formula"); \
  }
template<class T> static T tpms_make(const P &m, [[maybe_unused]] double z)
{
#if DIM == 2
  return T(m, z);
#else
  return T(m);
#endif
}
#if FUNC == 20
COND_TPMS(Schoen, s2(X) * c2(Y) + s2(Y) * c2(Z) + s2(Z) * c2(X))
#elif FUNC == 21
COND_TPMS(SchoenIWP, 2.0 * (c2(X) * c2(Y) + c2(Y) * c2(Z) + c2(Z) * c2(X)) - c4(X) - c4(Y) - c4(Z))
#elif FUNC == 22
COND_TPMS(SchoenFRD, 4.0 * c2(X) * c2(Y) * c2(Z) - c4(X) * c4(Y) - c4(Y) * c4(Z) - c4(Z) * c4(X))
#elif FUNC == 23
COND_TPMS(FischerKochS, c4(X) * s2(Y) * c2(Z) + c2(X) * c4(Y) * s2(Z) + s2(X) * c2(Y) * c4(Z))
#elif FUNC == 24
COND_TPMS(SchwarzDiamond, c2(X) * c2(Y) * c2(Z) - s2(X) * s2(Y) * s2(Z))
#elif FUNC == 25
COND_TPMS(SchwarzPrimitive, c2(X) + c2(Y) + c2(Z))
#endif

extern "C" void sx_main()
{
  x = sxu::point<dim>("x");
#if FUNC == 0
  sphere<funcs::Sphere<dim>>();
#elif FUNC == 1
  sphere<funcs::SphereBzr<dim>>();
#elif FUNC == 2
  ellipsoid<funcs::Ellipsoid<dim>>();
#elif FUNC == 3
  ellipsoid<funcs::EllipsoidBzr<dim>>();
#elif FUNC == 4
  plane<funcs::Plane<dim>>();
#elif FUNC == 5
  plane<funcs::PlaneBzr<dim>>();
#elif FUNC == 6
  constant<funcs::Constant<dim>>();
#elif FUNC == 7
  constant<funcs::ConstantBzr<dim>>();
#elif FUNC == 8
#if DIM == 2
  annulus<funcs::Annulus>();
#else
  torus<funcs::Torus>();
#endif
#elif FUNC == 9
#if DIM == 2
  annulus<funcs::AnnulusBzr>();
#else
  torus<funcs::TorusBzr>();
#endif
#elif FUNC == 10
  cylinder<funcs::Cylinder>();
#elif FUNC == 11
  cylinder<funcs::CylinderBzr>();
#elif FUNC == 12
  square();
#elif FUNC == 13
  multilinear(false);
#elif FUNC == 14
  multilinear(true);
#elif FUNC == 15
  combos();
#elif FUNC == 16
  transformed();
#elif FUNC == 20
  tpms_Schoen();
#elif FUNC == 21
  tpms_SchoenIWP();
#elif FUNC == 22
  tpms_SchoenFRD();
#elif FUNC == 23
  tpms_FischerKochS();
#elif FUNC == 24
  tpms_SchwarzDiamond();
#elif FUNC == 25
  tpms_SchwarzPrimitive();
#endif
  sx_reach("end");
}
