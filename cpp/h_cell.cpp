// Reparameterizations of single cells cut by functions whose roots along every direction are known.
#include "sx_util.hpp"
#include <algorithm>
#include <array>
#include <cstring>
#include <vector>
// Words of bits start as zeros: the masks with which std::vector<bool> sets bits one by one leave the others of a new word untouched.
template<> inline unsigned long *std::__new_allocator<unsigned long>::allocate(std::size_t n, const void *)
{
  return static_cast<unsigned long *>(std::memset(::operator new(n * sizeof(unsigned long)), 0, n * sizeof(unsigned long)));
}
#ifdef BEZIER
#include "impl_reparam_bezier.cpp"
#else
#include "impl_reparam_general.cpp"
#endif
#include "impl_utils.cpp"
using namespace qugar;
constexpr int range = RANGE, order = ORDER;
#if KIND == 0
constexpr int dim = RANGE;
#else
constexpr int dim = RANGE - 1;
#endif
using Mesh = impl::ImplReparamMesh<dim, range>;
using P = Point<range>;
constexpr int power(int b, int e) { return e == 0 ? 1 : b * power(b, e - 1); }
constexpr int n_pc = power(order, dim);
template<typename T> using V = Vector<T, range>;

//! the function, on points and intervals
struct Fn final : public impl::ImplicitFunc<range>
{
  std::array<double, 3> a{};//!< slopes
  double c{};
  // LINEAR: c + a.x     PARABOLA: x_last - a_0 (x_0^2 - c^2)    BAND: (x_0 - 1/2)^2 - c^2    BOWL (no zeros): |x - 1/2|^2 + c    SADDLE: (x_0 - 1/2)(x_1 - 1/2) + c    TILTED (3D): the saddle + x_2 / 8    CROSS: (x_0 - c)(x_1 - a_1)
  template<typename T> T value(const V<T> &x) const
  {
#if FN == 0
    T v = x(0) * a[0];
    for (int d = 1; d < range; ++d) v = v + x(d) * a[static_cast<std::size_t>(d)];
    return v + c;
#elif FN == 1
    return x(range - 1) - (x(0) * x(0) - c * c) * a[0];
#elif FN == 2
    return (x(0) - 0.5) * (x(0) - 0.5) - c * c;
#elif FN == 4
    T v = (x(0) - 0.5) * (x(0) - 0.5);
    for (int d = 1; d < range; ++d) v = v + (x(d) - 0.5) * (x(d) - 0.5);
    return v + c;
#elif FN == 6
    return (x(0) - c) * (x(1) - a[1]);
#elif FN == 5
    return (x(0) - 0.5) * (x(1) - 0.5) + x(2) * 0.125 + c;
#else
    return (x(0) - 0.5) * (x(1) - 0.5) + c;
#endif
  }
  template<typename T> V<T> slope(const V<T> &x) const
  {
    V<T> g;
    for (int d = 0; d < range; ++d) g(d) = T(0.0);
#if FN == 0
    static_cast<void>(x);
    for (int d = 0; d < range; ++d) g(d) = T(a[static_cast<std::size_t>(d)]);
#elif FN == 1
    g(0) = x(0) * (-2.0 * a[0]);
    g(range - 1) = T(1.0);
#elif FN == 2
    g(0) = (x(0) - 0.5) * 2.0;
#elif FN == 4
    for (int d = 0; d < range; ++d) g(d) = (x(d) - 0.5) * 2.0;
#elif FN == 6
    g(0) = x(1) - a[1];
    g(1) = x(0) - c;
#else
    g(0) = x(1) - 0.5;
    g(1) = x(0) - 0.5;
    if (FN == 5) g(range - 1) = T(0.125);
#endif
    return g;
  }
  double operator()(const P &x) const final { return value<double>(x); }
  Interval<range> operator()(const Point<range, Interval<range>> &x) const final { return value<Interval<range>>(x); }
  V<double> grad(const P &x) const final { return slope<double>(x); }
  V<Interval<range>> grad(const Point<range, Interval<range>> &x) const final { return slope<Interval<range>>(x); }
  Hessian<double> hessian(const P &) const final { return Hessian<double>(0.0); }
};
static Fn fn;
//! its roots along a direction; roots at the ends may or may not be found
struct Roots final : public algoim::RootOracle<range>
{
  bool ends = false;
  void keep(double r, double x0, double x1, std::vector<double> &out)
  {
    if (r < x0 || r > x1) return;
    if (!ends && ((r == x0) | (r == x1))) return;
    out.push_back(r);
  }
  void roots(const algoim::uvector<double, range> &x, int dir, double x0, double x1, std::vector<double> &out) final
  {
#if FN == 0
    double s = fn.c;
    for (int d = 0; d < range; ++d)
      if (d != dir) s += fn.a[static_cast<std::size_t>(d)] * x(d);
    if (fn.a[static_cast<std::size_t>(dir)] != 0.0) keep(-s / fn.a[static_cast<std::size_t>(dir)], x0, x1, out);
#elif FN == 1
    if (dir == range - 1)
      keep(fn.a[0] * (x(0) * x(0) - fn.c * fn.c), x0, x1, out);
    else if (dir == 0 && x(range - 1) == 0.0)
      keep(fn.c, x0, x1, out);// at the top there are no roots within the box
#elif FN == 4
    static_cast<void>(x);
#elif FN == 2
    if (dir == 0) {
      keep(0.5 - fn.c, x0, x1, out);
      keep(0.5 + fn.c, x0, x1, out);
    }
#elif FN == 6
    static_cast<void>(x);
    keep(dir == 0 ? fn.c : fn.a[1], x0, x1, out);
#else
    const double o = dir == 0 ? x(1) : x(0), r = FN == 5 ? fn.c + 0.125 * x(range - 1) : fn.c;
    if (dir < 2) {
      if (o != 0.5) keep(0.5 - r / (o - 0.5), x0, x1, out);
    } else {
      keep(-8.0 * (fn.c + (x(0) - 0.5) * (x(1) - 0.5)), x0, x1, out);
    }
#endif
  }
};
static double positive(double v) { return v > 0.0 ? v : 0.0; }
//! measure of the part of a box where a linear function is negative
static double part(const P &lo, const P &hi, int fixed, int side)
{
  double u = -fn.c, scale = 1.0;
  std::vector<double> edge;
  for (int d = 0; d < range; ++d) {
    const double s = fn.a[static_cast<std::size_t>(d)], l = hi(d) - lo(d);
    if (d == fixed) {
      u -= s * (side ? hi(d) : lo(d));
      continue;
    }
    u -= s > 0.0 ? s * lo(d) : s * hi(d);
    if (s == 0.0) {
      scale *= l;
      continue;
    }
    edge.push_back(std::fabs(s) * l);
    scale /= std::fabs(s);
  }
  const int n = static_cast<int>(edge.size());
  double v = 0.0;
  for (int k = 0; k < (1 << n); ++k) {
    double t = u, sgn = 1.0;
    for (int e = 0; e < n; ++e)
      if ((k >> e) & 1) {
        t -= edge[static_cast<std::size_t>(e)];
        sgn = -sgn;
      }
    if (n == 0) return u > 0.0 ? scale : 0.0;
    t = positive(t);
    double p = sgn;
    for (int e = 0; e < n; ++e) p *= t / (e + 1);
    v += p;
  }
  return v * scale;
}
//! derivative of the former with respect to the constant, changed of sign: measure of the surface over the norm of the gradient
static double skin(const P &lo, const P &hi)
{
  double u = -fn.c, scale = 1.0;
  std::vector<double> edge;
  for (int d = 0; d < range; ++d) {
    const double s = fn.a[static_cast<std::size_t>(d)], l = hi(d) - lo(d);
    u -= s > 0.0 ? s * lo(d) : s * hi(d);
    if (s == 0.0) {
      scale *= l;
      continue;
    }
    edge.push_back(std::fabs(s) * l);
    scale /= std::fabs(s);
  }
  const int n = static_cast<int>(edge.size());
  double v = 0.0;
  for (int k = 0; k < (1 << n); ++k) {
    double t = u, sgn = 1.0;
    for (int e = 0; e < n; ++e)
      if ((k >> e) & 1) {
        t -= edge[static_cast<std::size_t>(e)];
        sgn = -sgn;
      }
    double p = t > 0.0 ? sgn : 0.0;
    for (int e = 0; e + 1 < n; ++e) p *= t / (e + 1);
    v += p;
  }
  return v * scale;
}
static void near(double a, double b, const char *msg)
{
  sx_assert_le(a, b + 1.0e-9, msg);
  sx_assert_le(b, a + 1.0e-9, msg);
}
using Cell = std::array<P, static_cast<std::size_t>(power(2, dim))>;
//! interpolation of the corners at parameters in [0,1]
static P blend(const Cell &q, const std::array<double, 3> &u)
{
  P r;
  for (int d = 0; d < range; ++d) r(d) = 0.0;
  for (int k = 0; k < power(2, dim); ++k) {
    double w = 1.0;
    for (int d = 0; d < dim; ++d) w *= (k >> d) & 1 ? u[static_cast<std::size_t>(d)] : 1.0 - u[static_cast<std::size_t>(d)];
    if (w != 0.0)
      for (int d = 0; d < range; ++d) r(d) += w * q[static_cast<std::size_t>(k)](d);
  }
  return r;
}
//! derivative of the former
static P tangent(const Cell &q, const std::array<double, 3> &u, int dir)
{
  auto a = u, b = u;
  a[static_cast<std::size_t>(dir)] = 0.0;
  b[static_cast<std::size_t>(dir)] = 1.0;
  return blend(q, b) - blend(q, a);
}
static const double simpson_w[3] = { 1.0, 4.0, 1.0 };
//! integral of the Jacobian (dim == range) or of the vector of area (dim < range)
static P area(const Cell &q)
{
  P s;
  for (int d = 0; d < range; ++d) s(d) = 0.0;
  if constexpr (dim == 1) {
    const P t = q[1] - q[0];
    s(0) = t(1);
    s(1) = -t(0);
  } else if constexpr (dim == 2 && range == 2) {
    const P d0 = q[3] - q[0], d1 = q[2] - q[1];
    s(0) = 0.5 * (d0(0) * d1(1) - d0(1) * d1(0));
  } else if constexpr (dim == 2) {
    const P d0 = q[3] - q[0], d1 = q[2] - q[1];
    for (int d = 0; d < 3; ++d) s(d) = 0.5 * (d0((d + 1) % 3) * d1((d + 2) % 3) - d0((d + 2) % 3) * d1((d + 1) % 3));
  } else {
    for (int i = 0; i < 27; ++i) {
      const std::array<double, 3> u{ 0.5 * (i % 3), 0.5 * (i / 3 % 3), 0.5 * (i / 9) };
      const P t0 = tangent(q, u, 0), t1 = tangent(q, u, 1), t2 = tangent(q, u, 2);
      double det = 0.0;
      for (int d = 0; d < 3; ++d) det += t0(d) * (t1((d + 1) % 3) * t2((d + 2) % 3) - t1((d + 2) % 3) * t2((d + 1) % 3));
      s(0) += simpson_w[i % 3] * simpson_w[i / 3 % 3] * simpson_w[i / 9] * det;
    }
    s(0) = s(0) / 216.0;
  }
  return s;
}
static std::array<int, 3> multi(int i)
{
  std::array<int, 3> t{};
  for (int d = 0; d < dim; ++d, i /= order) t[static_cast<std::size_t>(d)] = i % order;
  return t;
}

#if KIND != 2
static void reparam(const BoundBox<range> &box, Mesh &mesh)
{
#ifdef BEZIER
  // the same function, over the box
  std::vector<double> coefs;
  constexpr int degree = FN == 4 ? 2 : 1;
  for (int k = 0; k < power(2, range); ++k) {
    P x;
    for (int d = 0; d < range; ++d) x(d) = (k >> d) & 1 ? box.max(d) : box.min(d);
    if (FN != 4) coefs.push_back(fn(x));
  }
  if (FN == 4)
    for (int k = 0; k < power(3, range); ++k) {
      double v = fn.c;
      for (int d = 0, i = k; d < range; ++d, i /= 3) v += i % 3 == 1 ? -0.25 : 0.25;
      coefs.push_back(v);
    }
  const impl::BezierTP<range, 1> bzr(TensorSizeTP<range>(degree + 1), coefs);
  impl::reparam_Bezier<range, KIND == 1>(bzr, box, mesh);
#else
  impl::reparam_general<range, KIND == 1>(fn, box, mesh);
#endif
}
#endif
#ifdef WIRES
//! edges of the boundary or of the level set: those of the wires
static void wires(const Mesh &mesh, int first, const P &lo, const P &m0, const P &m1, const P &hi)
{
  const auto &pts = mesh.get_points();
  const auto &conn = mesh.get_connectivity();
  const auto &w = mesh.get_wires_connectivity();
  std::vector<std::array<std::size_t, 2>> expected;
  const auto same = [](double a, double b) { return (a - b < 1.0e-7) & (b - a < 1.0e-7); };
  for (int e = 0; e < static_cast<int>(mesh.get_num_cells()); ++e) {
    const P &l = e < first ? lo : m1, &h = e < first ? m0 : hi;
    std::array<std::size_t, static_cast<std::size_t>(power(2, dim))> q{};
    for (int k = 0; k < power(2, dim); ++k) {
      int i = 0, stride = 1;
      for (int d = 0; d < dim; ++d, stride *= order) i += ((k >> d) & 1) * (order - 1) * stride;
      q[static_cast<std::size_t>(k)] = conn[static_cast<std::size_t>(e * n_pc + i)];
    }
    for (int d = 0; d < dim; ++d)
      for (int k = 0; k < power(2, dim); ++k) {
        if ((k >> d) & 1) continue;
        const auto ia = q[static_cast<std::size_t>(k)], ib = q[static_cast<std::size_t>(k | (1 << d))];
        const P &a = pts[ia], &b = pts[ib];
        bool equal = true;
        int common = 0;
        for (int t = 0; t < range; ++t) {
          equal = equal & same(a(t), b(t));
          if ((same(a(t), l(t)) & same(b(t), l(t))) | (same(a(t), h(t)) & same(b(t), h(t)))) ++common;
        }
        if (equal) continue;
        if (common >= range - 1 || ((range == 2 || common >= 1) && (same(fn(a), 0.0) & same(fn(b), 0.0)))) expected.push_back({ ia, ib });
      }
  }
  sx_assert(w.size() == expected.size() * order, "wires: edges on the edges of the cell and of the level set");
  std::vector<bool> used(expected.size(), false);
  for (std::size_t i = 0; i < expected.size(); ++i) {
    const auto a = w[i * order], b = w[i * order + order - 1];
    bool found = false;
    for (std::size_t j = 0; j < expected.size() && !found; ++j)
      if (!used[j] && ((expected[j][0] == a && expected[j][1] == b) || (expected[j][0] == b && expected[j][1] == a))) used[j] = found = true;
    sx_assert(found, "wires: edges on the edges of the cell and of the level set");
  }
}
#endif

void sx_main(void)
{
  constexpr double sl[5][3] = { { -1.0, 0.5, 0.75 }, { 0.0, 1.0, 0.5 }, { 0.5, -2.0, -1.0 }, { 1.0, 2.0, 1.5 }, { -1.5, -1.0, 0.25 } };
  P lo, hi;
  for (int d = 0; d < range; ++d) {
    lo(d) = FN == 0 ? -0.25 * d : 0.0;
    hi(d) = FN == 0 ? 1.0 + 0.5 * d : 1.0;
  }
  Roots oracle;
  oracle.ends = sx_choice("roots at the ends", 0, 1) == 1;
  algoim::rootOracle<range>() = &oracle;
#if FN == 0
  const int var = sx_choice("slopes", 0, SLOPES - 1);
  for (int d = 0; d < 3; ++d) fn.a[static_cast<std::size_t>(d)] = sl[var][d];
  // every position of the line or plane, but those through the corners of the box
  fn.c = sxu::real("c", -8.0, 8.0);
  for (int k = 0; k < power(2, range); ++k) {
    P x;
    for (int d = 0; d < range; ++d) x(d) = (k >> d) & 1 ? hi(d) : lo(d);
    const double v = fn(x);
    sx_assume((v > 1.0e-3) | (v < -1.0e-3));
  }
#elif FN == 1
  fn.a[0] = 0.5;
#ifdef NARROW
  fn.c = sxu::real("c", 0.2, 0.6);
#else
  fn.c = sxu::real("c", 0.01, 0.99);
#endif
#elif FN == 2
  fn.c = sxu::real("c", 0.3, 0.45);
#elif FN == 4
  fn.c = sxu::real("c", -2.0, 2.0);
  sx_assume((fn.c > 0.001) | (fn.c < -0.001 - 0.25 * range));
  algoim::noZeros() = true;
#elif FN == 6
  // two lines which cross where the subdivision never finds a monotone direction
  constexpr double at[3][2] = { { 0.399, 0.3 }, { 0.887, 0.9 }, { 0.101, 0.7 } };
  const int which = sx_choice("crossing", 0, 2);
  fn.c = sxu::real("c", at[which][0], at[which][0] + 0.0005);
  fn.a[1] = at[which][1];
#elif FN == 5
  fn.c = sxu::real("c", 0.015, 0.03);
  // a point where the function is negative
  constexpr double at[2][3] = { { 0.05, 0.75, 0.05 }, { 0.65, 0.05, 0.05 } };
  const int which = sx_choice("point", 0, 1);
  P inside;
  for (int d = 0; d < range; ++d) inside(d) = at[which][d];
  sx_assume(fn(inside) < -0.01);
  bool covered = false;
#else
  fn.c = sxu::real("c", -0.2, 0.2);
  sx_assume((fn.c > 0.05) | (fn.c < -0.05));
#endif
  const BoundBox<range> box(lo, hi);
#ifdef BEZIER
  algoim::bernstein::endRoots() = oracle.ends;
#endif
  Mesh mesh(order);
#if KIND == 2
  P m0 = hi, m1 = lo;
  const int facet = sx_choice("facet", 0, 2 * range - 1), fixed = facet / 2, side = facet % 2;
  impl::reparam_general_facet<range>(fn, box, facet, mesh);
  const int first = static_cast<int>(mesh.get_num_cells());
#else
  int first = 0;//!< cells of the first part
  P m0 = hi, m1 = lo;
  if (TWICE && sx_choice("parts", 1, 2) == 2) {
    // in two parts added to the same mesh
    m0(0) = m1(0) = 0.375;
    for (int k = 0; FN == 0 && k < power(2, range - 1); ++k) {
      P x = m0;
      for (int d = 1; d < range; ++d) x(d) = (k >> (d - 1)) & 1 ? hi(d) : lo(d);
      const double v = fn(x);
      sx_assume((v > 1.0e-3) | (v < -1.0e-3));
    }
    reparam(BoundBox<range>(lo, m0), mesh);
    first = static_cast<int>(mesh.get_num_cells());
    const auto points = mesh.get_points();
    const auto cells = mesh.get_connectivity(), edges = mesh.get_wires_connectivity();
    const bool opposite = FN == 0 && sx_choice("opposite function for the second part", 0, 1) == 1;
    if (opposite) {
      for (auto &s : fn.a) s = -s;
      fn.c = -fn.c;
    }
    reparam(BoundBox<range>(m1, hi), mesh);
    sx_assert(mesh.get_points().size() >= points.size() && mesh.get_connectivity().size() >= cells.size() && mesh.get_wires_connectivity().size() >= edges.size(), "what the mesh has is kept");
    for (std::size_t i = 0; i < points.size(); ++i)
      for (int d = 0; d < range; ++d) near(mesh.get_points()[i](d), points[i](d), "the points of the mesh are kept");
    sx_assert(std::equal(cells.begin(), cells.end(), mesh.get_connectivity().begin()), "the cells of the mesh are kept");
    sx_assert(std::equal(edges.begin(), edges.end(), mesh.get_wires_connectivity().begin()), "the wires of the mesh are kept");
    if (opposite) {
      sx_reach("end");
      return;
    }
  } else {
    reparam(box, mesh);
    first = static_cast<int>(mesh.get_num_cells());
  }
#endif
  const auto &pts = mesh.get_points();
  const auto &conn = mesh.get_connectivity();
  const auto n = static_cast<int>(mesh.get_num_cells());
  sx_assert(conn.size() == static_cast<std::size_t>(n) * n_pc, "every cell has its points");
  const double tol = FN == 6 ? 1.0e-4 : 1.0e-9;
  std::array<double, 3> total{};
  P least = hi, most = lo;
  for (int e = 0; e < n; ++e) {
    Cell q;
    std::array<P, static_cast<std::size_t>(n_pc)> x;
    for (int i = 0; i < n_pc; ++i) {
      const auto id = conn[static_cast<std::size_t>(e * n_pc + i)];
      sx_assert(id < pts.size(), "points exist");
      x[static_cast<std::size_t>(i)] = pts[id];
      const auto t = multi(i);
      int k = 0;
      bool corner = true;
      for (int d = 0; d < dim; ++d) {
        const int v = t[static_cast<std::size_t>(d)];
        corner = corner && (v == 0 || v == order - 1);
        if (v) k |= 1 << d;
      }
      if (corner) q[static_cast<std::size_t>(k)] = pts[id];
    }
    for (int i = 0; i < n_pc; ++i) {
      const P &p = x[static_cast<std::size_t>(i)];
      for (int d = 0; d < range; ++d) {
        sx_assert_le(lo(d) - tol, p(d), "points within the cell");
        sx_assert_le(p(d), hi(d) + tol, "points within the cell");
        if (FN > 0) {
          least(d) = std::min(least(d), p(d));
          most(d) = std::max(most(d), p(d));
        }
      }
#if KIND == 2
      near(p(fixed), side ? hi(fixed) : lo(fixed), "points on the facet");
#endif
#if KIND == 1 && FN != 6
      near(fn(p), 0.0, "points on the zero level set");
#else
      sx_assert_le(fn(p), tol, "points where the function is negative");
#endif
#if FN == 0
      std::array<double, 3> u{};
      const auto t = multi(i);
      for (int d = 0; d < dim; ++d) u[static_cast<std::size_t>(d)] = t[static_cast<std::size_t>(d)] / static_cast<double>(order - 1);
      const P b = blend(q, u);
      for (int d = 0; d < range; ++d) near(p(d), b(d), "points equally spaced within each reparameterization cell");
#endif
    }
#if FN == 5
    bool in = true;
    for (int d = 0; d < range; ++d) {
      double l = x[0](d), h = x[0](d);
      for (const auto &p : x) {
        l = std::min(l, p(d));
        h = std::max(h, p(d));
      }
      in = in & (l <= inside(d) + tol) & (inside(d) - tol <= h);
    }
    covered = covered | in;
#endif
    const P s = area(q);
    for (int d = 0; d < range; ++d) total[static_cast<std::size_t>(d)] += s(d);
#if KIND == 0
    sx_assert_le(-tol, s(0), "cells are oriented positively");
#endif
  }
#if FN == 0
#if KIND == 0
  near(total[0], part(lo, hi, -1, 0), "the cells cover the negative part, once");
#elif KIND == 1
  const double k = skin(lo, hi);
  for (int d = 0; d < range; ++d) near(total[static_cast<std::size_t>(d)], fn.a[static_cast<std::size_t>(d)] * k, "the cells cover the zero level set, once, with the normal along the gradient");
#else
  const double k = part(lo, hi, fixed, side);
  for (int d = 0; d < range; ++d) near(total[static_cast<std::size_t>(d)], d == fixed ? (side ? k : -k) : 0.0, "the cells cover the negative part of the facet, once, with the normal outwards");
#endif
#endif
#if FN == 4
  near(total[0], KIND == 0 && fn.c < 0.0 ? 1.0 : 0.0, "the whole cell where the function is negative, nothing where it is positive");
#elif FN == 6
  const double exact = fn.c * (1.0 - fn.a[1]) + (1.0 - fn.c) * fn.a[1];
  sx_assert_le(total[0], exact + tol, "the cells cover the negative part, once");
  sx_assert_le(exact - tol, total[0], "the cells cover the negative part, once");
#elif FN == 5
  sx_assert(covered, "every point where the function is negative is covered");
#elif FN > 0
  // extents of the set covered
  P from = lo, to = hi;
  if (FN == 1) {
    from(0) = fn.c;
    to(range - 1) = fn.a[0] * (1.0 - fn.c * fn.c);
  } else if (FN == 2) {
    from(0) = 0.5 - fn.c;
    to(0) = 0.5 + fn.c;
  }
  for (int d = 0; d < range; ++d) {
    near(least(d), from(d), "extents of the reparameterization");
    near(most(d), to(d), "extents of the reparameterization");
  }
  if (FN == 2) near(total[0], KIND == 0 ? 2.0 * fn.c : 0.0, "the cells cover the band, or both of its sides");
#endif
#ifdef WIRES
  wires(mesh, first, lo, m0, m1, hi);
#endif
  sx_reach("end");
}
