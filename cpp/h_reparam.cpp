// Meshes of reparameterisations.
#include "sx_util.hpp"
#include <array>
#include <functional>
#include <memory>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_general.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/reparam_mesh.hpp>
#include <qugar/tolerance.hpp>
#include <qugar/unfitted_domain_binary_part.hpp>
#include <vector>
using namespace qugar;
constexpr int dim = DIM, range = RANGE, order = ORDER;
using Mesh = impl::ImplReparamMesh<dim, range>;
using P = Point<range>;
using Conn = std::vector<std::size_t>;
constexpr int npc() { int n = 1; for (int d = 0; d < dim; ++d) n *= order; return n; }
constexpr int n_pc = npc();
static std::array<int, 3> multi(int i)
{
  std::array<int, 3> t{};
  for (int d = 0; d < dim; ++d, i /= order) t[static_cast<std::size_t>(d)] = i % order;
  return t;
}
static void same_point(const P &a, const P &b, const char *msg)
{
  for (int d = 0; d < range; ++d) sx_assert_eq(a(d), b(d), msg);
}
//! the edges of a cell (flat indices of their points within the cell), each from its lower end
static std::vector<std::vector<int>> cell_edges()
{
  std::vector<std::vector<int>> E;
  for (int dir = 0, s = 1; dir < dim; ++dir, s *= order)
    for (int i = 0; i < n_pc; ++i) {
      const auto t = multi(i);
      bool start = t[static_cast<std::size_t>(dir)] == 0;
      for (int d = 0; d < dim; ++d) start = start && (d == dir || t[static_cast<std::size_t>(d)] == 0 || t[static_cast<std::size_t>(d)] == order - 1);
      if (!start) continue;
      E.emplace_back();
      for (int k = 0; k < order; ++k) E.back().push_back(i + k * s);
    }
  return E;
}
static bool same_edge(const std::size_t *a, const std::size_t *b)
{
  bool f = true, r = true;
  for (int k = 0; k < order; ++k) {
    f = f && a[k] == b[k];
    r = r && a[k] == b[order - 1 - k];
  }
  return f || r;
}
//! the wires are the given edges (in any order and sense), each as many times as given
static void check_wires(const Conn &wires, const Conn &expected, const char *msg)
{
  sx_assert(wires.size() == expected.size(), msg);
  const auto n = wires.size() / order;
  std::vector<char> used(n, 0);
  for (std::size_t i = 0; i < n; ++i) {
    bool found = false;
    for (std::size_t j = 0; j < n && !found; ++j)
      if (!used[j] && same_edge(&wires[i * order], &expected[j * order])) used[j] = found = true;
    sx_assert(found, msg);
  }
}

#if PART == 0 || PART == 1
//! a grid of unequal cells starting at a symbolic place
static std::shared_ptr<const CartGridTP<range>> make_grid(const int nx, const int ny, const double l)
{
  std::array<std::vector<double>, range> breaks;
  const double start = sxu::real("start", -100.0, 100.0);
  for (int d = 0; d < range; ++d)
    for (int i = 0; i <= (d == 0 ? nx : d == 1 ? ny : 1); ++i) breaks[static_cast<std::size_t>(d)].push_back((d == 0 ? start : 0.25 * d) + (d == 1 ? l : 1.5) * i);
  return std::make_shared<const CartGridTP<range>>(breaks);
}
static double node(const int i)
{
  if (order < 7) return static_cast<double>(i) / (order - 1);
  return 0.5 - 0.5 * std::cos(3.14159265358979323846 * (2 * i + 1) / (2.0 * order)) / std::cos(3.14159265358979323846 / (2.0 * order));
}
static P cell_point(const CartGridTP<range> &grid, const std::int64_t c, const int i)
{
  const auto box = grid.get_cell_domain(c);
  const auto t = multi(i);
  P x;
  for (int d = 0; d < range; ++d) x(d) = box.min(d) + (box.max(d) - box.min(d)) * node(t[static_cast<std::size_t>(d)]);
  return x;
}
#endif

#if PART == 0
// Cells added and merged.
extern "C" void sx_main()
{
  const auto grid = make_grid(2, range == 2 ? 2 : 1, sxu::real("length", 0.01, 10.0));
  const auto N = static_cast<int>(grid->get_num_cells());
  const bool wires = sx_choice("wires", 0, 1) == 1, wires2 = sx_choice("wires2", 0, 1) == 1;
  const int first = sx_choice("first", 0, N - 1);
  std::vector<std::int64_t> ids{ first, (first + 1) % N }, id2{ sx_choice("third", 0, N > 2 ? N - 2 : N - 1) };
  Mesh a(order), b(order);
  a.add_full_cells(*grid, ids, wires);
  if (sx_choice("single", 0, 1) == 1)
    b.add_full_cell(grid->get_cell_domain(id2[0]), wires2);
  else
    b.add_full_cells(*grid, id2, wires2);
  const auto shared = static_cast<int>(a.get_num_points());
  const int cell = b.allocate_cells(1);
  sx_assert(cell == 1, "index of the allocated cell");
  std::vector<P> pts;
  for (int i = n_pc - 1; i >= 0; --i) {
    pts.push_back(sxu::point<range>(sxu::idx("p", i), -10.0, 10.0));
    b.insert_cell_point(pts.back(), cell, i);
  }
  a.merge(b);
  const auto &P_ = a.get_points();
  const auto &C = a.get_connectivity();
  static_cast<void>(shared);
  sx_assert((a.get_num_cells() == 4) & (a.get_num_points() == 4 * n_pc) & (P_.size() == 4 * n_pc) & (C.size() == 4 * n_pc), "numbers of cells and points");
  sx_assert((a.get_order() == order) & (a.get_num_points_per_cell() == n_pc) & (a.use_Chebyshev() == (order >= 7)) & (Mesh::use_Chebyshev(order) == (order >= 7)), "order");
  for (auto i : C) sx_assert(i < P_.size(), "connectivity refers to points");
  for (int i = 0; i < n_pc; ++i) {
    same_point(P_[C[static_cast<std::size_t>(i)]], cell_point(*grid, ids[0], i), "nodes of the first cell");
    same_point(P_[C[static_cast<std::size_t>(n_pc + i)]], cell_point(*grid, ids[1], i), "nodes of the second cell");
    same_point(P_[C[static_cast<std::size_t>(2 * n_pc + i)]], cell_point(*grid, id2[0], i), "nodes of the merged cell");
    same_point(P_[C[static_cast<std::size_t>(3 * n_pc + i)]], pts[static_cast<std::size_t>(n_pc - 1 - i)], "nodes of the inserted cell");
  }
  Conn expected;
  const auto E = cell_edges();
  for (std::size_t c = 0; c < 3; ++c)
    if (c < 2 ? wires : wires2)
      for (const auto &e : E)
        for (int k : e) expected.push_back(C[c * n_pc + static_cast<std::size_t>(k)]);
  check_wires(a.get_wires_connectivity(), expected, "wires are the edges of the cells");
  // scaling
  P lo, hi, nlo, nhi;
  for (int d = 0; d < range; ++d) {
    lo(d) = -0.5 + d;
    hi(d) = 1.5 + 2 * d;
    nlo(d) = sxu::real(sxu::idx("min", d), -100.0, 100.0);
    nhi(d) = nlo(d) + 0.25 + d;
  }
  const BoundBox<range> from(lo, hi), to(nlo, nhi);
  const bool some = sx_choice("some", 0, 1) == 1;
  const auto old = P_;
  const auto old_conn = C;
  if (some)
    a.scale_points({ 1, n_pc + 2 }, from, to);
  else
    a.scale_points(from, to);
  sx_assert(a.get_num_points() == old.size(), "scaling keeps the points");
  sx_assert(a.get_connectivity() == old_conn, "scaling keeps the connectivity");
  for (std::size_t i = 0; i < old.size(); ++i)
    for (int d = 0; d < range; ++d) {
      const bool moved = !some || i == 1 || i == n_pc + 2;
      sx_assert_eq(a.get_points()[i](d), moved ? nlo(d) + (old[i](d) - lo(d)) / (hi(d) - lo(d)) * (nhi(d) - nlo(d)) : old[i](d), "scaled points");
    }
  sx_reach("end");
}
#elif PART == 1
// Coincident points.
extern "C" void sx_main()
{
  const auto grid = make_grid(range == 2 ? 3 : 2, range == 2 ? 2 : 1, 2.25);
  const auto N = static_cast<int>(grid->get_num_cells());
  std::vector<std::int64_t> ids;
  const int n = sx_choice("cells", 1, range == 2 ? 3 : 2);
  for (int i = 0; i < n; ++i) ids.push_back(sx_choice(sxu::idx("id", i), 0, N - 1));
  Mesh a(order);
  const bool wires = sx_choice("wires", 0, 1) == 1;
  a.add_full_cells(*grid, ids, wires);
  const auto old = a.get_points();
  const auto oc = a.get_connectivity();
  const auto ow = a.get_wires_connectivity();
  a.merge_coincident_points(Tolerance(1.0e-6));
  const auto &P_ = a.get_points();
  const auto &C = a.get_connectivity();
  const auto &W = a.get_wires_connectivity();
  sx_assert(C.size() == oc.size(), "merging keeps the cells");
  std::vector<char> used(P_.size(), 0);
  for (std::size_t i = 0; i < C.size(); ++i) {
    sx_assert(C[i] < P_.size(), "connectivity refers to points");
    used[C[i]] = 1;
    same_point(P_[C[i]], old[oc[i]], "merging keeps the nodes of the cells");
  }
  for (std::size_t i = 0; i < P_.size(); ++i) {
    sx_assert(used[i], "no spare points");
    for (std::size_t j = 0; j < i; ++j) {
      bool far = false;
      for (int d = 0; d < range; ++d) far = far | (P_[i](d) - P_[j](d) > 1.0e-6) | (P_[j](d) - P_[i](d) > 1.0e-6);
      sx_assert(far, "no points are coincident");
    }
  }
  // every different edge once
  Conn expected;
  const auto E = cell_edges();
  for (int c = 0; wires && c < n; ++c)
    for (const auto &e : E) {
      Conn pts;
      for (int k : e) pts.push_back(C[static_cast<std::size_t>(c * n_pc + k)]);
      bool found = false;
      for (std::size_t k = 0; k < expected.size() && !found; k += order) found = same_edge(&expected[k], pts.data());
      if (!found) expected.insert(expected.end(), pts.begin(), pts.end());
    }
  check_wires(W, expected, "every edge of the wires once");
  static_cast<void>(ow);
  // again
  const auto C1 = C, W1 = W;
  const auto n1 = P_.size();
  a.merge_coincident_points(Tolerance(1.0e-6));
  sx_assert(a.get_num_points() == n1, "merging again changes nothing");
  check_wires(a.get_wires_connectivity(), W1.size() == expected.size() ? a.get_wires_connectivity() : W1, "merging again keeps the wires");
  sx_assert(a.get_wires_connectivity().size() == expected.size(), "merging again keeps the wires");
  sx_reach("end");
}
#elif PART == 2
// Orientation of cells.
struct Func : impl::ImplicitFunc<range>
{
  P g;
  double operator()(const P &) const override { return 0.0; }
  algoim::Interval<range> operator()(const Point<range, algoim::Interval<range>> &) const override { return algoim::Interval<range>(0.0); }
  P grad(const P &) const override { return g; }
  Vector<algoim::Interval<range>, range> grad(const Point<range, algoim::Interval<range>> &) const override { return {}; }
  Vector<double, range *(range + 1) / 2> hessian(const P &) const override { return {}; }
};
extern "C" void sx_main()
{
  // the second cell is the image by an affine map of the unit cube, that of some vectors symbolic
  Mesh a(order);
  a.allocate_cells(2);
  P dirs[dim];
  for (int d = 0; d < dim; ++d)
    for (int r = 0; r < range; ++r)
      dirs[d](r) = d == VAR ? sxu::real(sxu::idx("v", r), -10.0, 10.0) : 0.25 * (((d + 2) * (r + 3)) % 5) - 0.375;
  for (int c = 0; c < 2; ++c)
    for (int i = 0; i < n_pc; ++i) {
      const auto t = multi(i);
      P x;
      for (int r = 0; r < range; ++r) {
        x(r) = 1.0 + r;
        for (int d = 0; d < dim; ++d) x(r) += dirs[d](r) * t[static_cast<std::size_t>(d)] / (order - 1.0) * (c == 0 ? -1.0 : 1.0);
      }
      a.insert_cell_point(x, c, i);
    }
  const auto old = a.get_connectivity();
  const bool all = sx_choice("all", 0, 1) == 1;
  double o = 0.0;// the orientation of the second cell
#if DIM == RANGE
  o = dim == 2 ? dirs[0](0) * dirs[1](1) - dirs[0](1) * dirs[1](0)
               : dirs[0](0) * (dirs[1](1) * dirs[dim - 1](range - 1) - dirs[1](range - 1) * dirs[dim - 1](1)) - dirs[0](1) * (dirs[1](0) * dirs[dim - 1](range - 1) - dirs[1](range - 1) * dirs[dim - 1](0))
                   + dirs[0](range - 1) * (dirs[1](0) * dirs[dim - 1](1) - dirs[1](1) * dirs[dim - 1](0));
  sx_assume((o > 0.001) | (o < -0.001));
  if (all)
    a.orient_cells_positively();
  else
    a.orient_cells_positively({ 1 });
  const bool even = dim % 2 == 0;
#else
  Func f;
  const int facet = sx_choice("facet", -1, 2 * range - 1), sense = facet < 0 ? sx_choice("sense", 0, 1) : 0;
  for (int r = 0; r < range; ++r) f.g(r) = facet >= 0 ? (r == facet / 2 ? 2.0 * (facet % 2) - 1.0 : 0.0) : (sense == 0 ? 1.0 : -1.0) * (range == 2 ? 1.5 + 0.5 * r : r == 0 ? 1.5 : -3.0);
  if (dim == 1)
    o = dirs[0](1) * f.g(0) - dirs[0](0) * f.g(1);
  else
    for (int r = 0; r < 3; ++r) o += f.g(r % range) * (dirs[0]((r + 1) % range) * dirs[dim - 1]((r + 2) % range) - dirs[0]((r + 2) % range) * dirs[dim - 1]((r + 1) % range));
  sx_assume((o > 0.001) | (o < -0.001));
  if (facet >= 0) {
    if (all)
      a.orient_facet_cells_positively(facet);
    else
      a.orient_facet_cells_positively(facet, { 1 });
  } else {
    const std::vector<std::reference_wrapper<const impl::ImplicitFunc<range>>> fs{ f };
    if (all)
      a.orient_levelset_cells_positively(fs);
    else
      a.orient_levelset_cells_positively(fs, { 1 });
  }
  const bool even = dim % 2 == 0;
#endif
  const auto &C = a.get_connectivity();
  sx_assert((C.size() == old.size()) & (a.get_num_points() == 2 * n_pc), "orienting keeps the points");
  for (int c = 0; c < 2; ++c) {
    const bool flip = (c == 1 || all) && ((c == 1 || even) ? o < 0.0 : o > 0.0);
    bool kept = true, swapped = true;
    for (int i = 0; i < n_pc; ++i) {
      const auto t = multi(i);
      const int j = dim == 1 ? order - 1 - i : i - t[0] - order * t[1] + t[1] + order * t[0];
      kept = kept && C[static_cast<std::size_t>(c * n_pc + i)] == old[static_cast<std::size_t>(c * n_pc + i)];
      swapped = swapped && C[static_cast<std::size_t>(c * n_pc + i)] == old[static_cast<std::size_t>(c * n_pc + j)];
    }
    sx_assert(flip ? swapped : kept, "cells are oriented positively");
  }
  sx_reach("end");
}
#elif PART == 3
// Wires of cells within a box.
struct Func : impl::ImplicitFunc<range>
{
  std::vector<P> pts;
  std::vector<char> on;
  double operator()(const P &x) const override
  {
    for (std::size_t i = 0; i < pts.size(); ++i) {
      bool same = true;
      for (int d = 0; d < range && same; ++d) same = sx_same(pts[i](d), x(d)) != 0;
      if (same) return on[i] ? 0.0 : -0.5;
    }
    sx_assert(false, "function evaluated at the points of the mesh");
    return 0.0;
  }
  algoim::Interval<range> operator()(const Point<range, algoim::Interval<range>> &) const override { return algoim::Interval<range>(0.0); }
  P grad(const P &) const override { return {}; }
  Vector<algoim::Interval<range>, range> grad(const Point<range, algoim::Interval<range>> &) const override { return {}; }
  Vector<double, range *(range + 1) / 2> hessian(const P &) const override { return {}; }
};
extern "C" void sx_main()
{
  const auto E = cell_edges();
  const auto &edge = E[static_cast<std::size_t>(EDGE)];
  Func f;
  P lo, hi;
  for (int d = 0; d < range; ++d) {
    lo(d) = 0.5 * d - 1.0;
    hi(d) = lo(d) + 1.0 + d;
  }
  const BoundBox<range> box(lo, hi);
  // all the points are inside and off the level set, but those of one edge, straight, with any ends
  std::vector<P> x(n_pc);
  std::vector<char> on(n_pc, 0);
  for (int i = 0; i < n_pc; ++i) {
    const auto t = multi(i);
    for (int d = 0; d < range; ++d) x[static_cast<std::size_t>(i)](d) = lo(d) + (hi(d) - lo(d)) * (0.25 + 0.5 * (d < dim ? t[static_cast<std::size_t>(d)] : t[0] + t[1]) / (order * 2.0));
  }
  int bounds[2][3];
  P ends[2];
  bool equal = sx_choice("degenerate", 0, 1) == 1;
  for (int e = 0; e < 2; ++e)
    for (int d = 0; d < range; ++d) {
      bounds[e][d] = d == EDGE % range ? sx_choice(sxu::idx(e == 0 ? "low" : "high", d), -1, 1) : sx_choice(sxu::idx(e == 0 ? "low" : "high", d), 0, 1) == 0 ? -1 : (EDGE + d) % 2;
      const double w = hi(d) - lo(d);
      ends[e](d) = bounds[e][d] == 0 ? lo(d) : bounds[e][d] == 1 ? hi(d) : lo(d) + w * sxu::real(sxu::idx(e == 0 ? "x" : "y", d), 0.01, 0.99);
    }
  if (equal) {
    ends[1] = ends[0];
    for (int d = 0; d < range; ++d) bounds[1][d] = bounds[0][d];
  } else {
    bool far = false;
    for (int d = 0; d < range; ++d) far = far | (ends[0](d) - ends[1](d) > 0.01) | (ends[1](d) - ends[0](d) > 0.01);
    sx_assume(far);
  }
  const int which = sx_choice("level_set", 0, order);
  bool all_on = true;
  for (int k = 0; k < order; ++k) {
    const auto i = static_cast<std::size_t>(edge[static_cast<std::size_t>(k)]);
    for (int d = 0; d < range; ++d) x[i](d) = k == 0 ? ends[0](d) : k == order - 1 ? ends[1](d) : ends[0](d) + (ends[1](d) - ends[0](d)) * k / (order - 1.0);
    on[i] = which == order || (which > 0 && k != which - 1);// none, all but one, or all
    all_on = all_on && on[i];
  }
  Mesh a(order);
  a.allocate_cells(2);
  for (int i = 0; i < n_pc; ++i) a.insert_cell_point(x[static_cast<std::size_t>(i)], 1, i);
  for (int i = 0; i < n_pc; ++i) a.insert_cell_point(P(lo(0) + 0.3), 0, i);
  f.pts = x;
  f.on = on;
  f.pts.push_back(P(lo(0) + 0.3));
  f.on.push_back(1);
  const std::vector<std::reference_wrapper<const impl::ImplicitFunc<range>>> fs{ f };
  if (which % 2 == 0)
    a.generate_wirebasket(fs, box, Tolerance(1.0e-6));
  else
    a.generate_wirebasket(fs, { 1 }, box, Tolerance(1.0e-6));
  int common = 0;
  for (int d = 0; d < range; ++d) common += bounds[0][d] >= 0 && bounds[0][d] == bounds[1][d];
  const bool expected = !equal && (common >= range - 1 || (all_on && (common >= 1 || range == 2)));
  // no other edge has all its points in the level set or the boundary
  Conn w;
  const auto &C = a.get_connectivity();
  if (expected)
    for (int k : edge) w.push_back(C[static_cast<std::size_t>(n_pc + k)]);
  check_wires(a.get_wires_connectivity(), w, "edges of the wires");
  sx_reach("end");
}
#elif PART == 4
// Reparameterisation of a domain: cut cells one by one, and full cells.
static std::vector<int> asked;
static std::shared_ptr<const CartGridTP<range>> grid;
constexpr bool levelset = DIM < RANGE;
static double value = 0.0;
template<class F> static void add(const F &at_point, const bool unit, const BoundBox<range> &box, Mesh &m)
{
  int c = -1;
  for (int k = 0; k < static_cast<int>(grid->get_num_cells()); ++k) {
    const auto b = grid->get_cell_domain(k);
    bool same = true;
    for (int d = 0; d < range; ++d) same = same && b.min(d) == box.min(d) && b.max(d) == box.max(d);
    if (same) c = k;
  }
  sx_assert(c >= 0, "cells of the grid");
  P mid, at;
  for (int d = 0; d < range; ++d) {
    mid(d) = box.min(d) + 0.25 * (box.max(d) - box.min(d));
    at(d) = unit ? 0.25 : mid(d);
  }
  double v = value;
  for (int d = 0; d < range; ++d) v += (d + 1.0) * mid(d);
  sx_assert_eq(at_point(at), v, "the function of the domain, over the cell");
  asked.push_back(c);
  const int k = m.allocate_cells(1);
  for (int i = 0; i < n_pc; ++i) {
    P x;
    for (int d = 0; d < range; ++d) x(d) = 1000.0 + 100.0 * c + 10.0 * i + d;
    m.insert_cell_point(x, k, i);
  }
}
namespace qugar::impl {
template<> void reparam_Bezier<RANGE, (DIM < RANGE)>(const BezierTP<RANGE, 1> &f, const BoundBox<RANGE> &b, ImplReparamMesh<DIM, RANGE> &m)
{
  add([&](const P &x) { return f(x); }, true, b, m);
}
template<> void reparam_general<RANGE, (DIM < RANGE)>(const ImplicitFunc<RANGE> &f, const BoundBox<RANGE> &b, ImplReparamMesh<DIM, RANGE> &m)
{
  add([&](const P &x) { return f(x); }, false, b, m);
}
}// namespace qugar::impl
struct Func : impl::ImplicitFunc<range>
{
  double operator()(const P &x) const override
  {
    double v = value;
    for (int d = 0; d < range; ++d) v += (d + 1.0) * x(d);
    return v;
  }
  algoim::Interval<range> operator()(const Point<range, algoim::Interval<range>> &) const override { return algoim::Interval<range>(-1.0); }
  P grad(const P &) const override { return {}; }
  Vector<algoim::Interval<range>, range> grad(const Point<range, algoim::Interval<range>> &) const override { return {}; }
  Vector<double, range *(range + 1) / 2> hessian(const P &) const override { return {}; }
};
struct Domain : impl::UnfittedImplDomain<range>
{
  using Part = UnfittedBinarySpacePart<range>;
  const std::vector<int> &kinds;
  void fill(Part &part)
  {
    const auto sub = part.get_subgrid();
    if (!sub->is_unique_cell()) {
      part.branch();
      fill(*part.get_child(0));
      fill(*part.get_child(1));
      return;
    }
    const int k = kinds[static_cast<std::size_t>(sub->get_single_cell())];
    part.set_status(k == 0 ? ImmersedCellStatus::empty : k == 2 ? ImmersedCellStatus::cut : ImmersedCellStatus::full);
  }
  Domain(const std::shared_ptr<const impl::ImplicitFunc<range>> &f, const std::vector<int> &k) : impl::UnfittedImplDomain<range>(f, grid), kinds(k)
  {
    this->binary_sp_part_ = std::make_shared<Part>(grid);
    fill(*this->binary_sp_part_);
  }
};
extern "C" void sx_main()
{
  std::array<std::vector<double>, range> breaks;
  for (int d = 0; d < range; ++d)
    for (int i = 0; i <= (d == 0 ? 3 : 1); ++i) breaks[static_cast<std::size_t>(d)].push_back(0.25 * d + (d == 1 ? 2.25 : 1.5) * i);
  grid = std::make_shared<const CartGridTP<range>>(breaks);
  const bool bezier = sx_choice("bezier", 0, 1) == 1;
  std::shared_ptr<const impl::ImplicitFunc<range>> f = std::make_shared<const Func>();
  std::shared_ptr<impl::BezierTP<range>> b;
  std::vector<double> coefs;
  value = sxu::real("value", -10.0, 10.0);
  if (bezier) {
    TensorSizeTP<range> two(2);
    b = std::make_shared<impl::BezierTP<range>>(two, std::vector<double>(static_cast<std::size_t>(1) << range, -1.0));
    f = b;
    for (int i = 0; i < (1 << range); ++i) {
      double v = value;
      for (int d = 0; d < range; ++d) v += (d + 1.0) * ((i >> d) & 1);
      coefs.push_back(v);
    }
  }
  std::vector<int> kinds;
  for (int c = 0; c < 3; ++c) kinds.push_back(sx_choice(sxu::idx("kind", c), 0, 2));
  const Domain dom(f, kinds);
  if (bezier) *b = impl::BezierTP<range>(TensorSizeTP<range>(2), coefs);
  const bool all = sx_choice("all", 0, 1) == 1, merge = sx_choice("merge", 0, 1) == 1;
  std::vector<std::int64_t> cells;
  if (all)
    cells = { 0, 1, 2 };
  else {
    const int first = sx_choice("first", 0, 2);
    cells.push_back(first);
    if (sx_choice("two", 0, 1) == 1) cells.push_back((first + sx_choice("second", 1, 2)) % 3);
  }
  const auto m = all ? create_reparameterization<range, levelset>(dom, order, merge) : create_reparameterization<range, levelset>(dom, cells, order, merge);
  // each cut cell once
  std::vector<int> cut, full;
  for (int c = 0; c < 3; ++c) {
    bool in = false;
    for (auto k : cells) in = in || k == c;
    if (in && kinds[static_cast<std::size_t>(c)] == 2) cut.push_back(c);
    if (in && kinds[static_cast<std::size_t>(c)] == 1 && !levelset) full.push_back(c);
  }
  sx_assert(asked.size() == cut.size(), "each cut cell once");
  for (int c : cut) {
    int k = 0;
    for (int q : asked) k += q == c;
    sx_assert(k == 1, "each cut cell once");
  }
  sx_assert((m->get_order() == order) & (m->get_num_cells() == cut.size() + full.size()), "number of cells");
  const auto &X = m->get_points();
  const auto &C = m->get_connectivity();
  std::size_t nf = 0;
  for (std::size_t k = 0; k < m->get_num_cells(); ++k) {
    if (X[C[k * n_pc]](0) > 999.0) continue;
    ++nf;
    int found = 0;
    for (int c : full) {
      const auto box = grid->get_cell_domain(c);
      bool same = true;
      for (int i = 0; i < n_pc; ++i) {
        const auto t = multi(i);
        for (int d = 0; d < range; ++d) {
          const double e = X[C[k * n_pc + static_cast<std::size_t>(i)]](d) - (box.min(d) + (box.max(d) - box.min(d)) * t[static_cast<std::size_t>(d)] / (order - 1.0));
          same = same && e < 1.0e-9 && e > -1.0e-9;
        }
      }
      found += same;
    }
    sx_assert(found == 1, "full cells are covered");
  }
  sx_assert(nf == full.size(), "full cells are covered");
  // points
  const int n_edges = dim == 2 ? 4 : 12;
  if (!merge) {
    sx_assert(X.size() == m->get_num_cells() * n_pc, "points are kept");
    sx_assert(m->get_wires_connectivity().size() == full.size() * n_edges * order, "wires of the full cells");
  } else
    for (std::size_t i = 0; i < X.size(); ++i)
      for (std::size_t j = 0; j < i; ++j) {
        double e = 0.0;
        for (int d = 0; d < range; ++d) e += (X[i](d) - X[j](d)) * (X[i](d) - X[j](d));
        sx_assert(e > 1.0e-9, "coincident points are merged");
      }
  sx_reach("end");
}
#elif PART == 5
// Wires of any kind (closed, sharing nodes, in any sense, repeated) after merging coincident points.
struct Wires : Mesh
{
  using Mesh::Mesh;
  std::vector<P> &pts() { return this->points_; }
  Conn &conn() { return this->connectivity_; }
  Conn &wires() { return this->wires_connectivity_; }
};
extern "C" void sx_main()
{
  Wires a(order);
  // point 4 is point 1 again
  const double at[5][2] = { { 0, 0 }, { 1, 0 }, { 1, 1 }, { 0, 1 }, { 1, 0 } };
  const int alias[5] = { 0, 1, 2, 3, 1 };
  const double x0 = sxu::real("x0", -10.0, 10.0), e = sxu::real("gap", -5.0e-7, 5.0e-7);
  for (int i = 0; i < 5; ++i) {
    P q(0.0);
    q(0) = at[i][0] + x0 + (i == 4 ? e : 0.0);
    q(1) = at[i][1];
    a.pts().push_back(q);
  }
  for (int i = 0; i < 2 * n_pc; ++i) a.conn().push_back(static_cast<std::size_t>(i % 5));
  const auto old = a.pts();
  const auto oc = a.conn();
  constexpr int n = 3;
  std::vector<std::vector<int>> W;
  for (int k = 0; k < n; ++k) {
    const int kind = sx_choice(sxu::idx("kind", k), 0, order == 2 ? 3 : 6);
    std::vector<int> w;
    for (int i = 0; i < order; ++i) {
      const int last = order - 1;
      int v = i;
      if (i > 3) v = i - 3;
      switch (kind) {
      case 0: break;
      case 1: v = i == last ? (v == 3 ? 2 : 3) : v; break;// as 0, but the last one
      case 2: v = i == 1 ? 4 : v; break;// as 0, once merged
      case 3: v = i == 0 ? 2 : i == 1 ? 0 : v; break;
      case 4: v = i == 0 || i == last ? 0 : v; break;// closed
      case 5: v = i == 0 || i == last ? 0 : i == last - 1 && order > 3 ? 3 : v; break;// closed, others inside
      default: v = i == 0 || i == last ? 0 : i == 1 ? 4 : v; break;// as 4, once merged
      }
      w.push_back(v);
    }
    if (sx_choice(sxu::idx("back", k), 0, 1) == 1) w = std::vector<int>(w.rbegin(), w.rend());
    for (int v : w) a.wires().push_back(static_cast<std::size_t>(v));
    W.push_back(w);
  }
  a.merge_coincident_points(Tolerance(1.0e-6));
  // where every point has gone
  std::size_t now[5];
  sx_assert(a.conn().size() == oc.size() && a.pts().size() == 4, "merging keeps the cells");
  for (std::size_t i = 0; i < oc.size(); ++i) {
    if (i < 5) now[i] = a.conn()[i];
    sx_assert(a.conn()[i] == now[alias[oc[i]]] && now[alias[oc[i]]] < 4, "merging keeps the cells");
    for (int d = 0; d < range; ++d) {
      const double g = a.pts()[a.conn()[i]](d) - old[oc[i]](d);
      sx_assert((g < 1.0e-6) & (g > -1.0e-6), "merging keeps the nodes of the cells");
    }
  }
  Conn expected;
  for (const auto &w : W) {
    Conn c;
    for (int v : w) c.push_back(now[alias[v]]);
    bool found = false;
    for (std::size_t k = 0; k < expected.size() && !found; k += order) found = same_edge(&expected[k], c.data());
    if (!found) expected.insert(expected.end(), c.begin(), c.end());
  }
  check_wires(a.get_wires_connectivity(), expected, "every edge of the wires once");
  sx_reach("end");
}
#endif
