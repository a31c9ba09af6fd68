// Affine transformations.  DIM = 2..3; PART selects the obligation.
#include "sx_util.hpp"
#include <qugar/affine_transf.hpp>
#include <qugar/ref_system.hpp>
#include <utility>
using namespace qugar;
using namespace qugar::impl;
constexpr int dim = DIM;
namespace qugar::impl {
std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(Vector<real, 3> axis_z);
}
using A = AffineTransf<dim>;
constexpr int nc = dim * (dim + 1);
constexpr int nt = dim * (dim + 1) / 2;
static Vector<real, nc> coefs(const char *n)
{
  Vector<real, nc> c;
  for (int i = 0; i < nc; ++i) c(i) = sx_real(sxu::idx(n, i));
  return c;
}
static double det(const Vector<real, nc> &c)
{
#if DIM == 2
  return c(0) * c(3) - c(1) * c(2);
#else
  return c(0) * (c(4) * c(8) - c(5) * c(7)) - c(1) * (c(3) * c(8) - c(5) * c(6)) + c(2) * (c(3) * c(7) - c(4) * c(6));
#endif
}
static int pos(int i, int j)
{
  if (i > j) std::swap(i, j);
  int k = 0;
  for (int a = 0; a < dim; ++a)
    for (int b = a; b < dim; ++b, ++k)
      if (a == i && b == j) return k;
  return -1;
}
extern "C" void sx_main()
{
#if PART == 0
  // action on points, vectors and tensors
  const auto c = coefs("c");
  const A T(c);
  const auto p = sxu::point<dim>("p"), g = sxu::point<dim>("g");
  Vector<real, nt> h;
  for (int i = 0; i < nt; ++i) h(i) = sx_real(sxu::idx("h", i));
  const auto q = T.transform_point(p), w = T.transform_vector(g);
  const auto H = T.transform_tensor(h);
  for (int i = 0; i < dim; ++i) {
    double s = c(dim * dim + i), t = 0.0;
    for (int j = 0; j < dim; ++j) {
      s = s + c(dim * i + j) * p(j);
      t = t + c(dim * j + i) * g(j);
    }
    sx_assert_eq(q(i), s, "points map to A x + b");
    sx_assert_eq(w(i), t, "gradients are pulled back with the transposed matrix");
    for (int j = i; j < dim; ++j) {
      double r = 0.0;
      for (int k = 0; k < dim; ++k)
        for (int l = 0; l < dim; ++l) r = r + c(dim * k + i) * c(dim * l + j) * h(pos(k, l));
      sx_assert_eq(H(pos(i, j)), r, "second derivatives are pulled back on both sides");
    }
  }
#elif PART == 1
  // composition
  const A S(coefs("s")), T(coefs("t"));
  const auto p = sxu::point<dim>("p"), g = sxu::point<dim>("g");
  const A ST = S * T;
  const auto q = ST.transform_point(p), r = S.transform_point(T.transform_point(p));
  const auto v = ST.transform_vector(g), w = T.transform_vector(S.transform_vector(g));
  Vector<real, nt> h;
  for (int i = 0; i < nt; ++i) h(i) = sx_real(sxu::idx("h", i));
  const auto H = ST.transform_tensor(h), K = T.transform_tensor(S.transform_tensor(h));
  for (int i = 0; i < dim; ++i) {
    sx_assert_eq(q(i), r(i), "composition applies the right factor first");
    sx_assert_eq(v(i), w(i), "gradients compose");
  }
  for (int i = 0; i < nt; ++i) sx_assert_eq(H(i), K(i), "second derivatives compose");
#elif PART == 2
  // inverse
  const auto c = coefs("c");
  const double D = det(c);
  sx_assume(D > 1.0e-3 || D < -1.0e-3);
  const A T(c), I = T.inverse();
  const auto p = sxu::point<dim>("p");
  const auto q = I.transform_point(T.transform_point(p)), r = T.transform_point(I.transform_point(p));
  for (int i = 0; i < dim; ++i) {
    sx_assert_eq(q(i), p(i), "the inverse undoes the transformation");
    sx_assert_eq(r(i), p(i), "the transformation undoes the inverse");
  }
#elif PART == 3
  // identity, translation, isotropic scaling
  const auto o = sxu::point<dim>("o"), p = sxu::point<dim>("p");
  const double s = sx_real("s");
  const auto a = A().transform_point(p), b = A(o).transform_point(p), c = A(o, s).transform_point(p);
  for (int i = 0; i < dim; ++i) {
    sx_assert_eq(a(i), p(i), "default is the identity");
    sx_assert_eq(b(i), p(i) + o(i), "translation");
    sx_assert_eq(c(i), s * p(i) + o(i), "scaling about the new origin");
  }
#elif PART == 4
  // systems built from axes are orthonormal up to the scalings, with the documented orientation
  const auto o = sxu::point<dim>("o");
#if DIM == 2
  const auto ax = sxu::point<dim>("ax", -4.0, 4.0);
#else
  static const double dirs[6][3] = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 3, -4, 0 }, { 0, 5, 12 }, { 2, -1, 2 } };
  const int choice = sx_choice("axdir", 0, 5);
  const double len = sxu::real("axlen", 0.125, 4.0);
  const Point<3> ax(len * dirs[choice][0], len * dirs[choice][1], len * dirs[choice][2]);
#endif
  double n2 = 0.0;
  for (int i = 0; i < dim; ++i) n2 = n2 + ax(i) * ax(i);
  sx_assume(n2 > 0.01);
#if DIM == 2
  const double sx = sxu::real("sx", 0.125, 8.0), sy = sxu::real("sy", 0.125, 8.0);
  const A T(o, ax, sx, sy), U(o, ax);
  const auto e0 = U.transform_point(Point<2>(1.0, 0.0)) - o, e1 = U.transform_point(Point<2>(0.0, 1.0)) - o;
  const auto f0 = T.transform_point(Point<2>(1.0, 0.0)) - o, f1 = T.transform_point(Point<2>(0.0, 1.0)) - o;
  const auto oo = T.transform_point(Point<2>(0.0, 0.0));
  sx_assert_eq(e0(0) * e0(0) + e0(1) * e0(1), 1.0, "first axis has unit length");
  sx_assert(e0(0) * ax(0) + e0(1) * ax(1) > 0.0, "first axis points along the given one");
  sx_assert_eq(e0(0) * ax(1) - e0(1) * ax(0), 0.0, "first axis is parallel to the given one");
  for (int i = 0; i < 2; ++i) {
    sx_assert_eq(oo(i), o(i), "origin maps to the given origin");
    sx_assert_eq(f0(i), sx * e0(i), "scaling along the first axis");
    sx_assert_eq(f1(i), sy * e1(i), "scaling along the second axis");
  }
  sx_assert_eq(e1(0), -e0(1), "second axis is the first rotated 90 degrees counter-clockwise (x)");
  sx_assert_eq(e1(1), e0(0), "second axis is the first rotated 90 degrees counter-clockwise (y)");
#else
  const auto ay = sxu::point<dim>("ay", -4.0, 4.0);
  Point<3> u0 = ax;
  u0 /= norm(u0);
  const double c0 = u0(1) * ay(2) - u0(2) * ay(1), c1 = u0(2) * ay(0) - u0(0) * ay(2), c2 = u0(0) * ay(1) - u0(1) * ay(0);
  sx_assume(c0 * c0 + c1 * c1 + c2 * c2 > 0.01);
  const A U(o, ax, ay);
  Point<3> e[3];
  for (int k = 0; k < 3; ++k) {
    Point<3> u(0.0, 0.0, 0.0);
    u(k) = 1.0;
    e[k] = U.transform_point(u) - o;
  }
  sx_assert_eq(e[0](0) * e[0](0) + e[0](1) * e[0](1) + e[0](2) * e[0](2), 1.0, "first axis has unit length");
  sx_assert_eq(e[2](0) * e[2](0) + e[2](1) * e[2](1) + e[2](2) * e[2](2), 1.0, "third axis has unit length");
  sx_assert_eq(e[0](0) * e[2](0) + e[0](1) * e[2](1) + e[0](2) * e[2](2), 0.0, "first and third axes are orthogonal");
  sx_assert_eq(e[1](0), e[2](1) * e[0](2) - e[2](2) * e[0](1), "second axis completes a right-handed system (x)");
  sx_assert_eq(e[1](1), e[2](2) * e[0](0) - e[2](0) * e[0](2), "second axis completes a right-handed system (y)");
  sx_assert_eq(e[1](2), e[2](0) * e[0](1) - e[2](1) * e[0](0), "second axis completes a right-handed system (z)");
  sx_assert_eq(e[2](0) * ay(0) + e[2](1) * ay(1) + e[2](2) * ay(2), 0.0, "third axis is normal to the given plane");
#endif
#elif PART == 5 && DIM == 3
  // orthotropic scaling: columns scale independently
  const auto o = sxu::point<dim>("o");
  const Point<3> ax(sxu::real("ax", 0.5, 4.0), 0.0, 0.0), ay(sxu::real("ayx", -4.0, 4.0), sxu::real("ayy", 0.5, 4.0), 0.0);
  const double s[3] = { sxu::real("sx", 0.125, 8.0), sxu::real("sy", 0.125, 8.0), sxu::real("sz", 0.125, 8.0) };
  const A T(o, ax, ay, s[0], s[1], s[2]);
  for (int k = 0; k < 3; ++k) {
    Point<3> u(0.0, 0.0, 0.0);
    u(k) = 1.0;
    const auto f = T.transform_point(u) - o;
    for (int i = 0; i < 3; ++i) sx_assert_eq(f(i), i == k ? s[k] : 0.0, "axes in the xy plane with orthotropic scaling");
  }
#elif PART == 6 && DIM == 3
  // system around an axis (used by cylinders, ellipsoids...)
  Vector<real, 3> z;
#if defined(NEARX)
  z(0) = 1.0;
  z(1) = sxu::real("z1", -0.00005, 0.00005);
  z(2) = sxu::real("z2", -0.00005, 0.00005);
#else
  z(0) = sxu::real("z0", -1.0, 1.0);
  z(1) = sxu::real("z1", -1.0, 1.0);
  z(2) = sxu::real("z2", -1.0, 1.0);
  sx_assume(z(1) * z(1) + z(2) * z(2) > 0.01);
#endif
  const auto s = create_reference_system_around_axis(z);
  const auto &x = s.first, &y = s.second;
  double xx = 0, xz = 0, yz = 0, xy = 0, yy = 0;
  for (int i = 0; i < 3; ++i) {
    xx = xx + x(i) * x(i);
    yy = yy + y(i) * y(i);
    xy = xy + x(i) * y(i);
    xz = xz + x(i) * z(i);
    yz = yz + y(i) * z(i);
  }
  sx_assert_eq(xz, 0.0, "first axis is normal to the given axis");
  sx_assert_eq(yz, 0.0, "second axis is normal to the given axis");
  sx_assert_eq(xy, 0.0, "the two axes are orthogonal");
  sx_assert_eq(xx, 1.0, "first axis has unit length");
  sx_assert_eq(yy, 1.0, "second axis has unit length");
#elif PART == 7
  // reference systems
  const auto o = sxu::point<dim>("o");
  Point<dim> ax;
  double n2 = 0.0;
  for (int i = 0; i < dim; ++i) {
    ax(i) = sxu::real(sxu::idx("ax", i), -2.0, 2.0);
    n2 = n2 + ax(i) * ax(i);
  }
#if DIM == 3
#if defined(NEARX)
  sx_assume(ax(0) > 1.0 && ax(1) * ax(1) + ax(2) * ax(2) < 0.009);
#else
  sx_assume(ax(1) * ax(1) + ax(2) * ax(2) > 0.02 * n2);
#endif
#endif
  sx_assume(n2 > 0.01);
  const RefSystem<dim> R(o, ax);
  const auto &b = R.get_basis();
  for (int i = 0; i < dim; ++i) sx_assert(R.get_origin()(i) == o(i), "origin");
#if DIM == 2
  sx_assert_eq(b[0](0) * b[0](0) + b[0](1) * b[0](1), 1.0, "x axis has unit length");
  sx_assert_eq(b[0](0) * ax(1) - b[0](1) * ax(0), 0.0, "x axis is parallel to the given one");
  sx_assert(b[0](0) * ax(0) + b[0](1) * ax(1) > 0.0, "x axis points along the given one");
  sx_assert_eq(b[1](0), -b[0](1), "y axis is the rotated x axis (x)");
  sx_assert_eq(b[1](1), b[0](0), "y axis is the rotated x axis (y)");
#else
  const auto &x = b[0], &y = b[1], &z = b[2];
  double zz = 0, xz = 0, za = 0, xx = 0;
  for (int i = 0; i < 3; ++i) {
    zz = zz + z(i) * z(i);
    xx = xx + x(i) * x(i);
    xz = xz + x(i) * z(i);
    za = za + z(i) * ax(i);
    sx_assert_eq(z(i) * ax((i + 1) % 3), z((i + 1) % 3) * ax(i), "z axis is parallel to the given one");
  }
  sx_assert(za > 0.0, "z axis points along the given one");
  sx_assert_eq(zz, 1.0, "z axis has unit length");
  sx_assert_eq(xz, 0.0, "x axis is orthogonal to z axis");
  sx_assert_eq(xx, 1.0, "x axis has unit length");
#if defined(NEARX)
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    sx_assert_eq(y(i), z(j) * x(k) - z(k) * x(j), "right-handed basis");
  }
#else
  double xy = 0, yz = 0, yy = 0;
  for (int i = 0; i < 3; ++i) {
    xy = xy + x(i) * y(i);
    yy = yy + y(i) * y(i);
    yz = yz + y(i) * z(i);
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    sx_assert_eq(x(i), y(j) * z(k) - y(k) * z(j), "right-handed basis");
  }
  sx_assert_eq(yy, 1.0, "y axis has unit length");
  sx_assert_eq(yz, 0.0, "y axis is orthogonal to z axis");
#endif
#endif
  const RefSystem<dim> R0, R1(o);
  sx_assert(R0.is_Cartesian_oriented() && R1.is_Cartesian_oriented(), "default systems are Cartesian");
  for (int i = 0; i < dim; ++i) {
    sx_assert(R1.get_origin()(i) == o(i), "origin of a translated system");
    for (int j = 0; j < dim; ++j) sx_assert(R1.get_basis()[i](j) == (i == j ? 1.0 : 0.0), "canonical basis");
  }
#endif
  sx_reach("end");
}
