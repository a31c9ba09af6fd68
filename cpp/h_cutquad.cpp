// Quadratures of cut cells, facets and unfitted boundaries.
#include "sx_util.hpp"
#include <algoim/bernstein.hpp>
#include <algoim/quadrature_general.hpp>
#include <algoim/quadrature_multipoly.hpp>
#include <memory>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/cut_quadrature.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/quadrature.hpp>
#include <qugar/unfitted_domain_binary_part.hpp>
#include <vector>
using namespace qugar;
namespace alg = algoim;
constexpr int dim = DIM;
constexpr int nf = 2 * dim;
static int n_asked = NPTS;
using IV = alg::Interval<dim>;
using P = Point<dim>;
using F = Point<dim - 1>;
using Box = alg::HyperRectangle<double, dim>;
using Ids = std::vector<std::int64_t>;

static const bool s_full[] = { 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
static const bool s_cut[] = { 1, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0 };
static const bool s_fullunf[] = { 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0 };
static const bool s_unf[] = { 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 1 };
static const bool s_ext[] = { 0, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1 };

//! A node in the unit box of its cell; kind: 0 inside, 1 unfitted boundary growing outwards of the facet, 2 inwards, 3 elsewhere in the zero level set
struct Node
{
  P t, x, g;
  double w = 0.0, phi = 0.0;
  int kind = 0;
};
struct Cell
{
  int kind = 1;// 0 empty, 1 full, 2 cut, 3 full with unfitted boundary
  int facet[nf] = {};
  bool made[nf + 2] = {};
  std::vector<Node> nodes[nf + 2];// of every facet, of the cell, of the surface
};
static double h[3] = { 1.25, 2.25, 0.5 };

struct Func : impl::ImplicitFunc<dim>, alg::GeneralOracle<dim>
{
  std::shared_ptr<const CartGridTP<dim>> grid;
  std::vector<Cell> cells;

  IV operator()(const Point<dim, IV> &) const override { return IV(-1.0); }
  const Node &node(const P &x) const
  {
    for (const auto &c : cells)
      for (const auto &l : c.nodes)
        for (const auto &n : l) {
          bool same = true;
          for (int d = 0; d < dim && same; ++d) same = sx_same(n.x(d), x(d)) != 0;
          if (same) return n;
        }
    sx_assert(false, "function evaluated at the given points");
    return cells[0].nodes[0][0];
  }
  double operator()(const P &x) const override { return node(x).phi; }
  P grad(const P &x) const override { return node(x).g; }
  Gradient<IV> grad(const Point<dim, IV> &) const override { return {}; }
  Hessian<double> hessian(const P &) const override { return {}; }

  void add(const int c, const int slot, const int kind)
  {
    Cell &cell = cells[static_cast<std::size_t>(c)];
    Node n;
    const int k = static_cast<int>(cell.nodes[slot].size());
    n.kind = kind;
    n.w = sxu::real(sxu::idx("w", k), 0.0001, 10.0);
    const auto box = grid->get_cell_domain(c);
    const int dir = slot < nf ? slot / 2 : -1, side = slot % 2;
    for (int d = 0; d < dim; ++d) {
      n.t(d) = d == dir ? side : sxu::real(sxu::idx("t", k * 3 + d), 0.001, 0.999);
      n.x(d) = box.min(d) + n.t(d) * h[d];
    }
    n.phi = kind == 0 ? -1.0 : 0.0;
    if (dir >= 0) {
      const double g = sxu::real("slope", 0.001, 1000.0);
      n.g(dir) = (kind == 1 ? 1.0 : -1.0) * (side == 0 ? -g : g);
    }
    cell.nodes[slot].push_back(n);
  }
  //! a point of the surface, within the cell or (facet >= 0) on a facet where the function grows in the given sense
  void add_surface(const int c, const int facet, const int kind)
  {
    Cell &cell = cells[static_cast<std::size_t>(c)];
    Node n;
    const int k = static_cast<int>(cell.nodes[nf + 1].size());
    n.kind = kind;
    n.w = sxu::real(sxu::idx("sw", k), 0.0001, 10.0);
    const auto box = grid->get_cell_domain(c);
    for (int d = 0; d < dim; ++d) {
      n.t(d) = facet >= 0 && d == facet / 2 ? facet % 2 : sxu::real(sxu::idx("st", k * 3 + d), 0.001, 0.999);
      n.x(d) = box.min(d) + n.t(d) * h[d];
    }
    if (kind == 3) {
      for (int d = 0; d < dim; ++d) n.g(d) = d < 2 ? sxu::real(sxu::idx("sg", k * 3 + d), -10.0, 10.0) : 0.0;
      sx_assume((n.g(0) > 0.1) | (n.g(0) < -0.1));
      sx_assume((n.g(1) > 0.1) | (n.g(1) < -0.1));
    } else {
      const double g = sxu::real("slope", 0.001, 1000.0);
      n.g(facet / 2) = (kind == 1 ? 1.0 : -1.0) * (facet % 2 == 0 ? -g : g);
    }
    cell.nodes[nf + 1].push_back(n);
  }
  //! the nodes of a facet (0 to nf-1), of a cell (nf) or of the surface (nf+1)
  const std::vector<Node> &get(const int c, const int slot)
  {
    Cell &cell = cells[static_cast<std::size_t>(c)];
    if (cell.made[slot]) return cell.nodes[slot];
    cell.made[slot] = true;
    if (slot == nf) {
      const int n = sx_choice(sxu::idx("points", c), 0, 2);
      for (int k = 0; k < n; ++k) add(c, slot, 0);
    } else if (slot == nf + 1) {
      const int n = sx_choice(sxu::idx("surfaces", c), 0, 1);
      for (int k = 0; k < n; ++k) add_surface(c, -1, 3);
      for (int f = 0; f < nf; ++f) {
        const int s = cell.facet[f];
        if (s_full[s] || s_fullunf[s]) continue;
        if (s_unf[s]) add_surface(c, f, 1);
        if (s_ext[s]) add_surface(c, f, 2);
      }
      if (n == 1) add_surface(c, 1, 3);
    } else {
      const int s = cell.facet[slot];
      if (s_unf[s]) add(c, slot, 1);
      if (s_cut[s]) add(c, slot, 0);
      if (s_ext[s]) add(c, slot, 2);
      if (s_cut[s]) add(c, slot, 0);
      if (s_unf[s]) add(c, slot, 1);
    }
    return cell.nodes[slot];
  }
  void quad(const Box &box, const int dir, const int side, const int p, alg::QuadratureRule<dim> &rule) override
  {
    sx_assert(p == n_asked, "as many points per direction as asked");
    int c = -1;
    for (int k = 0; k < static_cast<int>(cells.size()); ++k) {
      const auto b = grid->get_cell_domain(k);
      bool same = true;
      for (int d = 0; d < dim; ++d) same = same && b.min(d) == box.min(d) && b.max(d) == box.max(d);
      if (same) c = k;
    }
    sx_assert(c >= 0, "quadrature asked for a cell");
    const int slot = dir == -1 ? nf : dir == dim ? nf + 1 : 2 * dir + side;
    for (const auto &n : get(c, slot)) rule.evalIntegrand(n.x, n.w);
  }
};

//! A domain whose cells and facets have the given statuses.
struct Domain : impl::UnfittedImplDomain<dim>
{
  using Part = UnfittedBinarySpacePart<dim>;
  const std::vector<Cell> &cells;
  void fill(Part &part)
  {
    const auto sub = part.get_subgrid();
    if (!sub->is_unique_cell()) {
      part.branch();
      fill(*part.get_child(0));
      fill(*part.get_child(1));
      return;
    }
    const auto c = sub->get_single_cell();
    const Cell &cell = cells[static_cast<std::size_t>(c)];
    part.set_status(cell.kind == 0 ? ImmersedCellStatus::empty : cell.kind == 2 ? ImmersedCellStatus::cut : ImmersedCellStatus::full);
    if (cell.kind >= 2) {
      FacetsStatus s{};
      for (int f = 0; f < nf; ++f) s[static_cast<std::size_t>(f)] = static_cast<ImmersedFacetStatus>(cell.facet[f]);
      this->facets_status_.emplace(c, s);
    }
  }
  Domain(const std::shared_ptr<const impl::ImplicitFunc<dim>> &f, const std::shared_ptr<const CartGridTP<dim>> &g, const std::vector<Cell> &c)
    : impl::UnfittedImplDomain<dim>(f, g), cells(c)
  {
    this->binary_sp_part_ = std::make_shared<Part>(g);
    this->facets_status_.clear();
    this->full_cells_with_unf_bdry_.clear();
    fill(*this->binary_sp_part_);
    this->init_full_cells_with_unf_bdry();
  }
};

template<int N> static void gauss(const std::vector<Point<N>> &pts, const std::vector<double> &w, std::size_t &k, const char *msg)
{
  const auto q = Quadrature<N>::create_Gauss_01(NPTS);
  sx_assert((k + q->get_num_points() <= pts.size()) & (k + q->get_num_points() <= w.size()), msg);
  for (std::size_t i = 0; i < q->get_num_points(); ++i, ++k) {
    for (int d = 0; d < N; ++d) sx_assert(pts[k](d) == q->points()[i](d), msg);
    sx_assert(w[k] == q->weights()[i], msg);
  }
}
static double facet_vol(const int dir)
{
  double v = 1.0;
  for (int d = 0; d < dim; ++d) v *= d == dir ? 1.0 : h[d];
  return v;
}
//! the next point is the given node of the facet
static void facet_node(const Node &n, const int dir, const std::vector<F> &pts, const std::vector<double> &w, std::size_t &k)
{
  sx_assert((k < pts.size()) & (k < w.size()), "no point of the facet is lost");
  for (int d = 0, e = 0; d < dim; ++d)
    if (d != dir) sx_assert_eq(pts[k](e++), n.t(d), "points of facets relative to the facet");
  sx_assert_eq(w[k] * facet_vol(dir), n.w, "weights of facets relative to their size");
  ++k;
}
constexpr int sizes[3] = { 2, 1, 1 };
#if PART == 3
//! Quadratures of polynomials: nodes on both sides, or in the zero level set.
struct Bezier
{
  TensorSizeTP<dim> order;
  std::vector<double> coefs;
  static double bernstein(const int n, const int i, const double x)
  {
    double v = 1.0;
    for (int k = 0; k < i; ++k) v = v * (n - k) / (k + 1);
    for (int k = 0; k < i; ++k) v *= x;
    for (int k = i; k < n; ++k) v *= 1.0 - x;
    return v;
  }
  static double slope(const int n, const int i, const double x)
  {
    return n * ((i > 0 ? bernstein(n - 1, i - 1, x) : 0.0) - (i < n ? bernstein(n - 1, i, x) : 0.0));
  }
  //! the value, or the derivative along a direction
  double operator()(const P &x, const int der = -1) const
  {
    double v = 0.0;
    for (std::size_t i = 0; i < coefs.size(); ++i) {
      double b = 1.0;
      int r = static_cast<int>(i);
      for (int d = 0; d < dim; ++d) {
        const int n = order(d);
        b *= d == der ? slope(n - 1, r % n, x(d)) : bernstein(n - 1, r % n, x(d));
        r /= n;
      }
      v += coefs[i] * b;
    }
    return v;
  }
};
static Bezier bez;
static BoundBox<dim> asked;
static int asked_facet = -1;
static P physical(const P &t)
{
  P x;
  for (int d = 0; d < dim; ++d) x(d) = asked.min(d) + t(d) * h[d];
  return x;
}
template<int N> static P lift(const alg::uvector<double, N> &perm)
{
  P t;
  for (int d = 0, e = 0; d < dim; ++d) t(d) = d == asked_facet / 2 && asked_facet >= 0 ? asked_facet % 2 : perm(N - 1 - e++);
  return t;
}
static const double at_[3][3] = { { 0.25, 0.75, 0.5 }, { 0.875, 0.125, 0.625 }, { 0.5, 0.375, 0.25 } };
struct Given
{
  P t;
  double v, w;
};
static std::vector<Given> given;
template<int N> struct Oracle : alg::PolyOracle<N>
{
  void quad(const alg::xarray<double, N> &poly, const bool surface, const int p, std::vector<typename alg::PolyOracle<N>::Node> &nodes) override
  {
    sx_assert((p == n_asked) & (surface == (SURFACE == 1)), "quadrature asked");
    given.clear();
    for (int k = 0; k < (surface ? 1 : 3); ++k) {
      alg::uvector<double, N> x;
      for (int d = 0; d < N; ++d) x(d) = at_[k][d];
      const P t = lift<N>(x);
      const double v = bez(physical(t));
      sx_assert_eq(alg::bernstein::evalBernsteinPoly(poly, x), v, "polynomial restricted to the cell or facet");
      if (surface)
        sx_assume(v == 0.0);
      else
        sx_assume((v < -0.001) | (v > 0.001));
      const double w = sxu::real(sxu::idx("w", k), 0.0001, 10.0);
      given.push_back({ t, v, w });
      nodes.push_back({ x, w, {} });
    }
  }
};
extern "C" void sx_main()
{
  std::array<std::vector<double>, dim> breaks;
  for (int d = 0; d < dim; ++d)
    for (int i = 0; i <= sizes[d]; ++i) breaks[static_cast<std::size_t>(d)].push_back(0.5 - d + h[d] * i);
  const auto grid = std::make_shared<const CartGridTP<dim>>(breaks);
  int n = 1;
  for (int d = 0; d < dim; ++d) {
    bez.order(d) = d == 1 ? 3 : 2;
    n *= bez.order(d);
  }
  for (int i = 0; i < n; ++i) bez.coefs.push_back(sxu::real(sxu::idx("c", i), -10.0, 10.0));
  // the classification (by other checks) sees a full domain
  const auto func = std::make_shared<impl::BezierTP<dim>>(bez.order, std::vector<double>(static_cast<std::size_t>(n), -1.0));
  const int c0 = sx_choice("cell", 0, 1);
  std::vector<Cell> kinds(2);
  kinds[static_cast<std::size_t>(c0)].kind = 2;
  const Domain dom(func, grid, kinds);
  *func = impl::BezierTP<dim>(bez.order, bez.coefs);
  Oracle<dim> o;
  Oracle<dim - 1> of;
  alg::polyOracle<dim>() = &o;
  alg::polyOracle<dim - 1>() = &of;
  asked = grid->get_cell_domain(c0);
#if SURFACE == 1
  {
    P x;
    for (int d = 0; d < dim; ++d) x(d) = at_[0][dim - 1 - d];
    const double g = bez(physical(x), 0);
    sx_assume((g > 0.1) | (g < -0.1));
  }
  const auto quad = create_unfitted_bound_quadrature<dim>(dom, Ids{ c0 }, NPTS, true, false);
  sx_assert((quad->points.size() == 1) & (quad->weights.size() == 1) & (quad->normals.size() == 1) & (quad->n_pts_per_cell == std::vector<int>{ 1 }), "no point of the surface is lost");
  double in = 0.0, nn = 0.0, g[dim];
  for (int d = 0; d < dim; ++d) g[d] = bez(physical(given[0].t), d) * h[d];
  for (int d = 0; d < dim; ++d) {
    const double m = quad->normals[0](d);
    sx_assert_eq(quad->points[0](d), given[0].t(d), "points of the surface relative to the cell");
    in += m * g[d];
    nn += m * m;
    sx_assert_eq(m * g[(d + 1) % dim], quad->normals[0]((d + 1) % dim) * g[d], "normals are orthogonal to the surface");
  }
  sx_assert(in > 0.0, "normals point outwards");
  sx_assert_eq(nn, 1.0, "normals have unit length");
  sx_assert_eq(quad->weights[0], given[0].w, "weights of the surface");
#else
  asked_facet = sx_choice("facet", -1, nf - 1);
  std::size_t k = 0;
  if (asked_facet < 0) {
    const auto quad = create_quadrature<dim>(dom, Ids{ c0 }, NPTS);
    for (const auto &gv : given)
      if (gv.v < 0.0) {
        sx_assert((k < quad->points.size()) & (k < quad->weights.size()), "no point of the cell is lost");
        for (int d = 0; d < dim; ++d) sx_assert_eq(quad->points[k](d), gv.t(d), "points relative to the cell");
        sx_assert_eq(quad->weights[k++], gv.w, "weights relative to the cell");
      }
    sx_assert((quad->points.size() == k) & (quad->weights.size() == k) & (quad->n_pts_per_cell == std::vector<int>{ static_cast<int>(k) }), "points outside of the domain");
  } else {
    const std::vector<int> ff{ asked_facet };
    const auto quad = grid->on_boundary(c0, asked_facet) ? create_facets_quadrature_exterior_integral<dim>(dom, Ids{ c0 }, ff, NPTS) : create_facets_quadrature_interior_integral<dim>(dom, Ids{ c0 }, ff, NPTS);
    for (const auto &gv : given)
      if (gv.v < 0.0) {
        sx_assert((k < quad->points.size()) & (k < quad->weights.size()), "no point of the facet is lost");
        for (int d = 0, e = 0; d < dim; ++d)
          if (d != asked_facet / 2) sx_assert_eq(quad->points[k](e++), gv.t(d), "points relative to the facet");
        sx_assert_eq(quad->weights[k++], gv.w, "weights relative to the facet");
      }
    sx_assert((quad->points.size() == k) & (quad->weights.size() == k) & (quad->n_pts_per_facet == std::vector<int>{ static_cast<int>(k) }), "points outside of the domain");
  }
#endif
  sx_reach("end");
}
#else
extern "C" void sx_main()
{
  std::array<std::vector<double>, dim> breaks;
  for (int d = 0; d < dim; ++d)
    for (int i = 0; i <= sizes[d]; ++i) breaks[static_cast<std::size_t>(d)].push_back(0.5 - d + h[d] * i);
  const auto grid = std::make_shared<const CartGridTP<dim>>(breaks);
  const auto func = std::make_shared<Func>();
  func->grid = grid;
  func->cells.resize(2);
  // one cell is of any kind and one of its facets of any status
  const int c0 = sx_choice("cell", 0, 1);
  Cell &cell = func->cells[static_cast<std::size_t>(c0)];
  cell.kind = sx_choice("kind", 0, 3);
  func->cells[static_cast<std::size_t>(1 - c0)].kind = 1;
  if (cell.kind >= 2) {
    for (int f = 0; f < nf; ++f) cell.facet[f] = cell.kind == 3 ? 1 : (f + FACET) % 3 == 2 ? 3 : f % 2 == 0 ? 0 : 2;
    const int s = sx_u8("status");
    sx_assume(s <= 10);
    cell.facet[FACET] = s;
  }
  alg::generalOracle<dim>() = func.get();
  const Domain dom(func, grid, func->cells);
  const Ids cells{ c0, 1 - c0, c0 };
  // rules of other numbers of points come first
  n_asked = NPTS + 1;
  create_quadrature<dim>(dom, Ids{ 1 - c0 }, n_asked);
  create_facets_quadrature_interior_integral<dim>(dom, Ids{ 1 - c0 }, { c0 == 0 ? 0 : 1 }, n_asked);
  n_asked = NPTS;
#if PART == 0
  const auto quad = create_quadrature<dim>(dom, cells, NPTS);
  sx_assert((quad->cells == cells) & (quad->n_pts_per_cell.size() == cells.size()), "cells of the quadrature");
  std::size_t k = 0;
  for (std::size_t i = 0; i < cells.size(); ++i) {
    const Cell &c = func->cells[static_cast<std::size_t>(cells[i])];
    const std::size_t before = k;
    if (c.kind == 2) {
      for (const auto &n : func->get(static_cast<int>(cells[i]), nf)) {
        sx_assert((k < quad->points.size()) & (k < quad->weights.size()), "no point of the cell is lost");
        for (int d = 0; d < dim; ++d) sx_assert_eq(quad->points[k](d), n.t(d), "points of a cut cell relative to the cell");
        sx_assert_eq(quad->weights[k] * facet_vol(-1), n.w, "weights of a cut cell relative to its volume");
        ++k;
      }
    } else if (c.kind != 0)
      gauss<dim>(quad->points, quad->weights, k, "full cells have the Gauss rule");
    sx_assert(quad->n_pts_per_cell[i] == static_cast<int>(k - before), "number of points of a cell");
  }
  sx_assert((quad->points.size() == k) & (quad->weights.size() == k), "total number of points");
#elif PART == 1
  const bool include = sx_choice("include", 0, 1) == 1, exclude = sx_choice("exclude", 0, 1) == 1;
  const auto quad = create_unfitted_bound_quadrature<dim>(dom, cells, NPTS, include, exclude);
  sx_assert((quad->cells == cells) & (quad->n_pts_per_cell.size() == cells.size()), "cells of the quadrature");
  std::size_t k = 0;
  const auto enough = [&]() { sx_assert((k < quad->points.size()) & (k < quad->weights.size()) & (k < quad->normals.size()), "no point of the unfitted boundary is lost"); };
  for (std::size_t i = 0; i < cells.size(); ++i) {
    const int ci = static_cast<int>(cells[i]);
    const Cell &c = func->cells[static_cast<std::size_t>(ci)];
    const std::size_t before = k;
    if (c.kind == 2)
      for (const auto &n : func->get(ci, nf + 1)) {
        if (n.kind != 3) continue;// on facets
        enough();
        double gg = 0.0, hh = 0.0, nn = 0.0, in = 0.0;
        for (int d = 0; d < dim; ++d) {
          const double m = quad->normals[k](d);
          sx_assert_eq(quad->points[k](d), n.t(d), "points of the unfitted boundary relative to the cell");
          gg += n.g(d) * n.g(d);
          hh += n.g(d) * h[d] * n.g(d) * h[d];
          nn += m * m;
          in += m * n.g(d) * h[d];
          const int e = (d + 1) % dim;
          sx_assert_eq(m * n.g(e) * h[e], quad->normals[k](e) * n.g(d) * h[d], "normals are orthogonal to the mapped boundary");
        }
        sx_assert(in > 0.0, "normals point outwards");
        sx_assert_eq(nn, 1.0, "normals have unit length");
        const double w = quad->weights[k] * facet_vol(-1);
        sx_assert(w > 0.0, "positive weight");
        sx_assert_eq(w * w * gg, n.w * n.w * hh, "weights of the unfitted boundary relative to the cell");
        ++k;
      }
    if (c.kind >= 2 && include)
      for (int f = 0; f < nf; ++f) {
        const int s = c.facet[f], dir = f / 2;
        if (!s_unf[s] || (exclude && dom.is_exterior_facet(ci, f))) continue;
        std::vector<F> pts;
        std::vector<double> w;
        const std::size_t k0 = k;
        std::size_t l = 0;
        const int np = s_fullunf[s] ? (dim == 2 ? NPTS : NPTS * NPTS) : 2;
        for (int q = 0; q < np; ++q, ++k) {
          enough();
          F p;
          for (int d = 0, e = 0; d < dim; ++d) {
            if (d != dir) p(e++) = quad->points[k](d);
            sx_assert_eq(quad->normals[k](d), d == dir ? (f % 2 == 0 ? -1.0 : 1.0) : 0.0, "normals of the boundary on facets");
          }
          sx_assert_eq(quad->points[k](dir), f % 2, "points of the boundary on facets");
          pts.push_back(p);
          w.push_back(quad->weights[k]);
        }
        static_cast<void>(k0);
        if (s_fullunf[s])
          gauss<dim - 1>(pts, w, l, "the boundary covering a facet has the Gauss rule");
        else
          for (const auto &n : func->get(ci, f))
            if (n.kind == 1) facet_node(n, dir, pts, w, l);
      }
    sx_assert(quad->n_pts_per_cell[i] == static_cast<int>(k - before), "number of points of a cell");
  }
  sx_assert((quad->points.size() == k) & (quad->weights.size() == k) & (quad->normals.size() == k), "total number of points");
#else
  Ids fc;
  std::vector<int> ff;
  for (int i = 0; i < 3; ++i) {
    fc.push_back(cells[static_cast<std::size_t>(i)]);
    ff.push_back((FACET + i) % nf);
  }
  fc.push_back(c0);
  ff.push_back(FACET);
  const bool interior = sx_choice("interior", 0, 1) == 1;
  const auto quad = interior ? create_facets_quadrature_interior_integral<dim>(dom, fc, ff, NPTS) : create_facets_quadrature_exterior_integral<dim>(dom, fc, ff, NPTS);
  sx_assert((quad->cells == fc) & (quad->local_facet_ids == ff) & (quad->n_pts_per_facet.size() == fc.size()), "facets of the quadrature");
  std::size_t k = 0;
  for (std::size_t i = 0; i < fc.size(); ++i) {
    const int c = static_cast<int>(fc[i]), f = ff[i], dir = f / 2;
    const Cell &cc = func->cells[static_cast<std::size_t>(c)];
    const int s = cc.kind == 0 ? 2 : cc.kind == 1 ? 1 : cc.facet[f];
    const bool outer = grid->on_boundary(c, f);
    const std::size_t before = k;
    const bool inside = interior ? !outer : outer;// the part within the domain
    const bool bdry = !interior;// the part in the unfitted boundary
    if ((s_full[s] && inside) || (s_fullunf[s] && bdry))
      gauss<dim - 1>(quad->points, quad->weights, k, "full facets have the Gauss rule");
    else if (s_cut[s] || (s_unf[s] && !s_fullunf[s]))
      for (const auto &n : func->get(c, f))
        if ((n.kind == 0 && inside) || (n.kind == 1 && bdry)) facet_node(n, dir, quad->points, quad->weights, k);
    sx_assert(quad->n_pts_per_facet[i] == static_cast<int>(k - before), "number of points of a facet");
  }
  sx_assert((quad->points.size() == k) & (quad->weights.size() == k), "total number of points");
#endif
  sx_reach("end");
}
#endif
