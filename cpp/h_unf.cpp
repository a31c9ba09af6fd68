// Unfitted domains: classification of cells and facets.
#include "sx_util.hpp"
#include <algorithm>
#include <memory>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <qugar/unfitted_domain.hpp>
#include <qugar/unfitted_domain_binary_part.hpp>
#include <vector>
using namespace qugar;
constexpr int dim = DIM;
constexpr int nf = 2 * dim;
using Status = ImmersedFacetStatus;
using Ids = std::vector<std::int64_t>;

#if PART == 0
//! Any decomposition of the grid, and any status of the facets.
struct Domain : UnfittedDomain<dim>
{
  std::vector<int> cell;// status of every cell, as given
  std::vector<char> listed;// with statuses of its facets
  std::vector<std::array<int, nf>> facet;
  int nodes = 0;

  using Part = UnfittedBinarySpacePart<dim>;

  void decompose(Part &part, const TensorSizeTP<dim> &n)
  {
    const auto sub = part.get_subgrid();
    const bool unique = sub->is_unique_cell();
    if (!unique && sx_choice(sxu::idx("branch", nodes++), 0, 1) == 1) {
      part.branch();
      decompose(*part.get_child(0), n);
      decompose(*part.get_child(1), n);
      return;
    }
    const int k = sx_choice(sxu::idx("status", nodes++), unique ? 0 : 1, 3);
    constexpr ImmersedCellStatus st[] = { ImmersedCellStatus::cut, ImmersedCellStatus::full, ImmersedCellStatus::empty, ImmersedCellStatus::unknown };
    part.set_status(st[k]);
    for (const auto &it : sub->get_range()) {
      const auto id = static_cast<std::size_t>(it.flat(n));
      cell[id] = k;
      listed[id] = k == 0 || (k == 1 && unique && sx_choice(sxu::idx("touching", static_cast<int>(id)), 0, 1) == 1);
    }
  }

  explicit Domain(const std::shared_ptr<const CartGridTP<dim>> &grid) : UnfittedDomain<dim>(grid)
  {
    const auto n = grid->get_num_cells();
    cell.assign(n, 3);
    listed.assign(n, false);
    facet.resize(n);
    decompose(*this->binary_sp_part_, grid->get_num_cells_dir());
    for (std::size_t c = 0; c < n; ++c) {
      if (!listed[c]) continue;
      FacetsStatus s{};
      for (int f = 0; f < nf; ++f) {
        // some facets take any status
        int &k = facet[c][static_cast<std::size_t>(f)];
        k = (f + static_cast<int>(c)) % 11;
        if ((f + static_cast<int>(c)) % nf < FREE) {
          k = sx_u8(sxu::idx("facet", static_cast<int>(c) * nf + f));
          sx_assume(k <= 10);
        }
        s[static_cast<std::size_t>(f)] = static_cast<Status>(facet[c][static_cast<std::size_t>(f)]);
      }
      this->facets_status_.emplace(static_cast<std::int64_t>(c), s);
    }
    this->init_full_cells_with_unf_bdry();
  }
};
//! members of sets of statuses: cut, full, empty, cut_unf_bdry, cut_ext_bdry, cut_unf_bdry_ext_bdry, full_unf_bdry, full_ext_bdry, unf_bdry, ext_bdry, unf_bdry_ext_bdry
static const bool s_full[] = { 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
static const bool s_empty[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0 };
static const bool s_cut[] = { 1, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0 };
static const bool s_fullunf[] = { 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0 };
static const bool s_unf[] = { 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 1 };
static const bool s_ext[] = { 0, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1 };

static void same_cells(const Ids &got, const Ids &ref, const char *msg)
{
  sx_assert(got.size() == ref.size(), msg);
  for (std::size_t i = 0; i < ref.size(); ++i) sx_assert(got[i] == ref[i], msg);
}
//! same pairs, in any order unless it is given by the user's list
static void same_facets(Ids c, std::vector<int> f, const Ids &rc, const std::vector<int> &rf, const bool sorted, const char *msg)
{
  sx_assert((c.size() == rc.size()) & (f.size() == rf.size()), msg);
  std::vector<std::int64_t> a, b;
  for (std::size_t i = 0; i < rc.size(); ++i) {
    a.push_back(c[i] * nf + f[i]);
    b.push_back(rc[i] * nf + rf[i]);
  }
  if (sorted) {
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
  }
  for (std::size_t i = 0; i < rc.size(); ++i) sx_assert(a[i] == b[i], msg);
}
extern "C" void sx_main()
{
  std::array<int, dim> n{ NX, NY
#if DIM == 3
    ,
    NZ
#endif
  };
  std::array<std::vector<real>, dim> breaks;
  for (int d = 0; d < dim; ++d)
    for (int i = 0; i <= n[d]; ++i) breaks[d].push_back(static_cast<real>(i));
  const auto grid = std::make_shared<const CartGridTP<dim>>(breaks);
  Domain dom(grid);
  const auto N = static_cast<std::int64_t>(grid->get_num_cells());
  Ids full, empty, cut, got;
  for (std::int64_t c = 0; c < N; ++c) {
    const int k = dom.cell[static_cast<std::size_t>(c)];
    const bool l = dom.listed[static_cast<std::size_t>(c)] != 0;
    if (k == 0) cut.push_back(c);
    if (k == 1) full.push_back(c);
    if (k == 2) empty.push_back(c);
    sx_assert(dom.is_cut_cell(c) == (k == 0), "cut cell");
    sx_assert(dom.is_full_cell(c) == (k == 1), "full cell");
    sx_assert(dom.is_empty_cell(c) == (k == 2), "empty cell");
    sx_assert(dom.is_full_with_unf_bdry_cell(c) == ((k == 1) & l), "full cell with unfitted boundary");
    sx_assert(dom.is_cell_with_unf_bdry(c) == l, "cell with unfitted boundary");
  }
  sx_assert(dom.get_num_total_cells() == static_cast<std::size_t>(N), "number of cells");
  sx_assert(dom.get_num_full_cells() == full.size(), "number of full cells");
  sx_assert(dom.get_num_empty_cells() == empty.size(), "number of empty cells");
  sx_assert(dom.get_num_cut_cells() == cut.size(), "number of cut cells");
  dom.get_full_cells(got);
  same_cells(got, full, "full cells");
  dom.get_empty_cells(got);
  same_cells(got, empty, "empty cells");
  dom.get_cut_cells(got);
  same_cells(got, cut, "cut cells");
  // among some cells
  Ids target;
  for (std::int64_t c = N - 1; c >= 0; c -= 1 + static_cast<std::int64_t>(c % 3 == 1)) target.push_back(c);
  const auto among = [&](const Ids &all) {
    Ids r;
    for (const auto c : all)
      if (std::find(target.begin(), target.end(), c) != target.end()) r.push_back(c);
    return r;
  };
  dom.get_full_cells(target, got);
  same_cells(got, among(full), "full cells among the target ones");
  dom.get_empty_cells(target, got);
  same_cells(got, among(empty), "empty cells among the target ones");
  dom.get_cut_cells(target, got);
  same_cells(got, among(cut), "cut cells among the target ones");
  // facets
  Ids tc;
  std::vector<int> tf;
  for (std::int64_t c = N - 1; c >= 0; --c)
    for (int f = static_cast<int>(c) % 2; f < nf; f += 1 + static_cast<int>(c) % 2) {
      tc.push_back(c);
      tf.push_back(f);
    }
  bool any_unf = false;
  for (std::int64_t c = 0; c < N; ++c)
    for (int f = 0; f < nf; ++f) {
      const auto uc = static_cast<std::size_t>(c);
      const int k = dom.cell[uc], s = dom.listed[uc] ? dom.facet[uc][static_cast<std::size_t>(f)] : 0;
      const bool l = dom.listed[uc] != 0;
      sx_assert(dom.is_full_facet(c, f) == (l ? s_full[s] : k == 1), "full facet");
      sx_assert(dom.is_empty_facet(c, f) == (l ? s_empty[s] : k == 2), "empty facet");
      sx_assert(dom.is_cut_facet(c, f) == (l && s_cut[s]), "cut facet");
      sx_assert(dom.is_full_unfitted_facet(c, f) == (l && s_fullunf[s]), "full unfitted facet");
      sx_assert(dom.has_unfitted_boundary(c, f) == (l && s_unf[s]), "facet with unfitted boundary");
      sx_assert(dom.has_external_boundary(c, f) == (l && s_ext[s]), "facet with external boundary");
      const auto id = grid->to_tensor(c);
      sx_assert(dom.is_exterior_facet(c, f) == (f % 2 == 0 ? id(f / 2) == 0 : id(f / 2) == n[f / 2] - 1), "exterior facet");
      any_unf = any_unf || (l && s_unf[s]);
    }
  sx_assert(dom.has_facets_with_unf_bdry() == any_unf, "some facet has unfitted boundary");
  const auto lists = [&](const auto &all, const auto &some, const bool *set, const int whole, const char *msg) {
    Ids rc, tgc, c;
    std::vector<int> rf, tgf, f;
    const auto in = [&](const std::int64_t cc, const int ff) {
      const auto uc = static_cast<std::size_t>(cc);
      return dom.listed[uc] ? set[dom.facet[uc][static_cast<std::size_t>(ff)]] : dom.cell[uc] == whole;
    };
    for (std::int64_t cc = 0; cc < N; ++cc)
      for (int ff = 0; ff < nf; ++ff)
        if (in(cc, ff)) {
          rc.push_back(cc);
          rf.push_back(ff);
        }
    all(c, f);
    same_facets(c, f, rc, rf, true, msg);
    for (std::size_t i = 0; i < tc.size(); ++i)
      if (in(tc[i], tf[i])) {
        tgc.push_back(tc[i]);
        tgf.push_back(tf[i]);
      }
    some(c, f);
    same_facets(c, f, tgc, tgf, false, msg);
  };
  lists([&](auto &c, auto &f) { dom.get_full_facets(c, f); }, [&](auto &c, auto &f) { dom.get_full_facets(tc, tf, c, f); }, s_full, 1, "list of full facets");
  lists([&](auto &c, auto &f) { dom.get_empty_facets(c, f); }, [&](auto &c, auto &f) { dom.get_empty_facets(tc, tf, c, f); }, s_empty, 2, "list of empty facets");
  lists([&](auto &c, auto &f) { dom.get_cut_facets(c, f); }, [&](auto &c, auto &f) { dom.get_cut_facets(tc, tf, c, f); }, s_cut, -1, "list of cut facets");
  lists([&](auto &c, auto &f) { dom.get_full_unfitted_facets(c, f); }, [&](auto &c, auto &f) { dom.get_full_unfitted_facets(tc, tf, c, f); }, s_fullunf, -1, "list of full unfitted facets");
  lists([&](auto &c, auto &f) { dom.get_unfitted_facets(c, f); }, [&](auto &c, auto &f) { dom.get_unfitted_facets(tc, tf, c, f); }, s_unf, -1, "list of facets with unfitted boundary");
  // the statuses themselves
  const int k = sx_u8("status");
  sx_assume(k <= 10);
  const auto s = static_cast<Status>(k);
  using D = UnfittedDomain<dim>;
  sx_assert((D::is_full_facet(s) == s_full[k]) & (D::is_empty_facet(s) == s_empty[k]) & (D::is_cut_facet(s) == s_cut[k]) & (D::is_full_unfitted_facet(s) == s_fullunf[k])
              & (D::has_unfitted_boundary(s) == s_unf[k]) & (D::has_external_boundary(s) == s_ext[k]),
    "meaning of the statuses of facets");
  sx_reach("end");
}
#endif

#if PART == 1
#include <algoim/quadrature_general.hpp>
#include <qugar/domain_function.hpp>
#include <qugar/impl_unfitted_domain.hpp>
namespace alg = algoim;
using IV = alg::Interval<dim>;
using P = Point<dim>;
using Box = alg::HyperRectangle<double, dim>;
constexpr int MAXN = 3;

//! Which sets of points compose the part of a facet where the function is not positive.
struct Facet
{
  int n_neg = 0, n_unf = 0, n_ext = 0, n_tan = 0;
  bool full = false;
};
struct Cell
{
  int kind = 1;// 0 positive, 1 negative, 2 cut, 3 negative with zeros in its boundary, 4 positive with zeros in its boundary
  Facet f[nf];
};
//! A function known only through its regions; it answers what any function with those regions may answer.
struct Func : impl::ImplicitFunc<dim>, alg::GeneralOracle<dim>
{
  std::shared_ptr<const CartGridTP<dim>> grid;
  std::vector<Cell> cells;
  struct Node
  {
    P x;
    double phi;
    P g;
  };
  std::vector<Node> nodes;
  int asked = 0;

  double brk(const int d, const int i) const { return grid->get_breaks(d)[static_cast<std::size_t>(i)]; }
  //! cells (in a direction) of an interval
  void span(const int d, const double lo, const double hi, int &i0, int &i1) const
  {
    const int n = grid->get_num_cells_dir()(d);
    i0 = n;
    i1 = -1;
    for (int i = 0; i < n; ++i) {
      const double mid = 0.5 * (brk(d, i) + brk(d, i + 1));
      if (lo < mid && mid < hi) {
        i0 = i < i0 ? i : i0;
        i1 = i;
      }
    }
    sx_assert(i0 <= i1, "function asked within the grid");
    sx_assert((lo <= brk(d, i0)) & (hi >= brk(d, i1 + 1)), "function asked over complete cells");
    const double h = brk(d, i1 + 1) - brk(d, i0);
    sx_assert((lo >= brk(d, i0) - 0.001 * h) & (hi <= brk(d, i1 + 1) + 0.001 * h), "function not asked beyond the cells");
  }
  IV operator()(const Point<dim, IV> &x) const override
  {
    int i0[3] = { 0, 0, 0 }, i1[3] = { 0, 0, 0 };
    for (int d = 0; d < dim; ++d) {
      const double m = x(d).alpha, r = IV::delta(d);
      span(d, m - r, m + r, i0[d], i1[d]);
      for (int e = 0; e < dim; ++e) sx_assert(x(d).beta(e) == (d == e ? 1.0 : 0.0), "interval arguments vary in their own direction");
    }
    bool pos = true, neg = true;
    for (int k = i0[2]; k <= i1[2]; ++k)
      for (int j = i0[1]; j <= i1[1]; ++j)
        for (int i = i0[0]; i <= i1[0]; ++i) {
          TensorIndexTP<dim> id;
          const int ijk[3] = { i, j, k };
          for (int d = 0; d < dim; ++d) id(d) = ijk[d];
          const int c = cells[static_cast<std::size_t>(grid->to_flat(id))].kind;
          pos = pos && c == 0;
          neg = neg && c == 1;
        }
    // intervals are exact or too wide
    if ((pos || neg) && sx_choice(sxu::idx("wide", const_cast<Func *>(this)->asked++), 0, 1) == 0) {
      const double a = sxu::real("alpha", 0.001, 1000.0);
      return IV(pos ? a : -a, alg::uvector<double, dim>(0.0), 0.5 * a);
    }
    const double a = sxu::real("alpha", -1000.0, 1000.0);
    return IV(a, alg::uvector<double, dim>(0.0), 1001.0);
  }
  const Node &node(const P &x) const
  {
    for (const auto &n : nodes) {
      bool same = true;
      for (int d = 0; d < dim && same; ++d) same = sx_same(n.x(d), x(d)) != 0;
      if (same) return n;
    }
    sx_assert(false, "function evaluated at the given points");
    return nodes[0];
  }
  double operator()(const P &x) const override { return node(x).phi; }
  P grad(const P &x) const override { return node(x).g; }
  Gradient<IV> grad(const Point<dim, IV> &) const override { return {}; }
  Hessian<double> hessian(const P &) const override { return {}; }

  void quad(const Box &box, const int dir, const int side, const int p, alg::QuadratureRule<dim> &rule) override
  {
    sx_assert(p >= 1, "at least one point");
    TensorIndexTP<dim> id;
    for (int d = 0; d < dim; ++d) {
      int i0 = 0, i1 = 0;
      span(d, box.min(d), box.max(d), i0, i1);
      sx_assert((i0 == i1) & (box.min(d) == brk(d, i0)) & (box.max(d) == brk(d, i0 + 1)), "quadrature asked for a cell");
      id(d) = i0;
    }
    const auto c = static_cast<int>(grid->to_flat(id));
    const Cell &cell = cells[static_cast<std::size_t>(c)];
    double vol = 1.0;
    for (int d = 0; d < dim; ++d) vol *= d == dir ? 1.0 : box.extent(d);
    if (dir == -1) {
      // one or two nodes
      if (cell.kind == 0 || cell.kind == 4) return;
      const double frac = cell.kind == 2 ? sxu::real(sxu::idx("fraction", c), 0.000001, 0.999999) : 1.0;
      const double part = sxu::real(sxu::idx("part", c), 0.001, 1.0);
      rule.evalIntegrand(P(box.midpoint()), vol * frac * part);
      if (sx_choice(sxu::idx("nodes", c), 1, 2) == 2) rule.evalIntegrand(P(box.midpoint()), vol * frac * (1.0 - part));
      else sx_assume(part == 1.0);
      return;
    }
    sx_assert((0 <= dir) & (dir < dim) & (0 <= side) & (side <= 1), "quadrature asked for a facet");
    const Facet &f = cell.f[2 * dir + side];
    const int tot = f.n_neg + f.n_unf + f.n_ext + f.n_tan;
    const double frac = f.full ? 1.0 : sxu::real(sxu::idx("facet", c * nf + 2 * dir + side), 0.001, 0.999);
    double left = frac;
    for (int k = 0; k < tot; ++k) {
      Node n;
      for (int d = 0; d < dim; ++d) n.x(d) = d == dir ? box.side(side)(d) : box.min(d) + box.extent(d) * (k + 1.0) / (tot + 1.0 + d);
      const char *gn = sxu::idx("gradient", k);
      const double g = sxu::real(gn, 0.001, 1000.0);
      n.g = P(0.0);
      const double out = side == 0 ? -1.0 : 1.0;
      if (k < f.n_neg) {
        n.phi = sxu::real(sxu::idx("value", k), -1000.0, -0.000001);
        n.g(dir) = sxu::real(gn, -1.0, 1.0);
      } else {
        n.phi = 0.0;
        if (k < f.n_neg + f.n_unf)
          n.g(dir) = g * out;
        else if (k < f.n_neg + f.n_unf + f.n_ext)
          n.g(dir) = -g * out;
        else {
          n.g(dir) = 0.6 * g;
          n.g((dir + 1) % dim) = -0.8 * g;
        }
      }
      nodes.push_back(n);
      const double w = k == tot - 1 ? left : sxu::real(sxu::idx("weight", k), 0.0001, 1.0);
      sx_assume(w > 0.00001);
      left -= w;
      rule.evalIntegrand(n.x, w * vol);
    }
  }
};
extern "C" void sx_main()
{
  const int n[3] = { NX, NY, NZ };
  std::array<std::vector<double>, dim> breaks;
  const double scale[] = { 1.0, 1.0e-5, 1000.0 };
  const double s = scale[SCALE];
  for (int d = 0; d < dim; ++d) {
    double x = s * (d - 0.75);
    for (int i = 0; i <= n[d]; ++i) {
      breaks[static_cast<std::size_t>(d)].push_back(x);
      x += s * (1.0 + 0.5 * d + 0.25 * i);
    }
  }
  const auto func = std::make_shared<Func>();
  const auto grid = std::make_shared<const CartGridTP<dim>>(breaks);
  func->grid = grid;
  const auto N = static_cast<int>(grid->get_num_cells());
  func->cells.resize(static_cast<std::size_t>(N));
  for (int c = 0; c < N; ++c) {
    auto &cell = func->cells[static_cast<std::size_t>(c)];
    cell.kind = sx_choice(sxu::idx("kind", c), 0, 4);
    for (int k = 0; k < nf; ++k) {
      Facet &f = cell.f[k];
      if (FACETS && cell.kind >= 2 && cell.kind <= 3 && k == (c + FIRST) % nf) {
        // any composition
        const int m = sx_choice(sxu::idx("composition", c), 0, MAXCOMP);
        f.n_neg = m % 3;
        f.n_unf = m / 3 % 3;
        f.n_ext = m / 9 % 2;
        f.n_tan = m / 18 % 2;
        f.full = f.n_neg + f.n_unf + f.n_ext > 0 && sx_choice(sxu::idx("whole", c), 0, 1) == 1;
      } else {
        f.n_neg = cell.kind % 2 == 1 || k % 2 == 0 ? 1 : 0;
        f.full = cell.kind % 2 == 1;
      }
    }
  }
  alg::generalOracle<dim>() = func.get();
  const impl::UnfittedImplDomain<dim> dom(func, grid);
  sx_assert(dom.get_impl_func() == func, "function of the domain");
  sx_assert(dom.get_grid() == grid, "grid of the domain");
  for (int c = 0; c < N; ++c) {
    const Cell &cell = func->cells[static_cast<std::size_t>(c)];
    sx_assert(dom.is_cut_cell(c) == (cell.kind == 2), "a cell is cut exactly if the function is negative in part of it");
    sx_assert(dom.is_full_cell(c) == (cell.kind == 1 || cell.kind == 3), "a cell is full exactly if the function is negative all over its interior");
    sx_assert(dom.is_empty_cell(c) == (cell.kind == 0 || cell.kind == 4), "a cell is empty exactly if the function is positive all over its interior");
    bool unf_cell = cell.kind == 2;
    for (int k = 0; k < nf; ++k) {
      const Facet &f = cell.f[k];
      bool full = false, empty = false, cut = false, fullunf = false, unf = false, ext = false;
      if (cell.kind == 1)
        full = true;
      else if (cell.kind == 0 || cell.kind == 4)
        empty = true;
      else if (cell.kind == 3 && f.n_neg == 0)
        fullunf = unf = true;// nothing but zeros at the boundary of a full cell
      else {
        unf = f.n_unf > 0;
        ext = f.n_ext > 0;
        full = f.full && f.n_neg > 0 && !unf && !ext;
        cut = f.n_neg > 0 && !full;
        fullunf = f.full && f.n_unf == 1 && f.n_neg + f.n_ext + f.n_tan == 0;
        empty = !cut && !unf && !full;
        if (cell.kind == 3) unf_cell = unf_cell || !full;
      }
      unf_cell = unf_cell || unf;
      sx_assert(dom.is_full_facet(c, k) == full, "a facet is full exactly if the function is negative all over it");
      sx_assert(dom.is_empty_facet(c, k) == empty, "a facet is empty exactly if nothing in it is inside or an unfitted boundary");
      sx_assert(dom.is_cut_facet(c, k) == cut, "a facet is cut exactly if the function is negative in part of it");
      sx_assert(dom.is_full_unfitted_facet(c, k) == fullunf, "a facet is an unfitted boundary exactly if the function vanishes all over it");
      sx_assert(dom.has_unfitted_boundary(c, k) == unf, "a facet has unfitted boundary exactly if the function vanishes in part of it, growing outwards");
      sx_assert(dom.has_external_boundary(c, k) == ext, "a facet has external boundary exactly if the function vanishes in part of it, growing inwards");
    }
    sx_assert(dom.is_cell_with_unf_bdry(c) == unf_cell, "a cell has unfitted boundary if it is cut, or full with some facet that is not");
  }
  sx_reach("end");
}
#endif

#if PART == 2
#include <algoim/quadrature_multipoly.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/impl_unfitted_domain.hpp>
namespace alg = algoim;
using P = Point<dim>;
//! Quadratures of affine polynomials (orders 2 in every direction: the coefficients are the values at the corners).
template<int N> struct Oracle : alg::PolyOracle<N>
{
  int asked = 0;
  void quad(const alg::xarray<double, N> &poly, const bool surface, const int p, std::vector<typename alg::PolyOracle<N>::Node> &nodes) override
  {
    sx_assert(!surface & (p >= 1), "volume asked");
    bool pos = true, neg = true;
    alg::uvector<double, N> lo(0.0), hi(0.0);
    for (int i = 0; i < poly.size(); ++i) {
      alg::uvector<double, N> x(0.0);
      for (int d = N - 1, r = i; d >= 0; --d, r /= 2) x(d) = r % 2;
      if (poly[i] > 0.0) {
        neg = false;
        hi = x;
      } else if (poly[i] < 0.0) {
        pos = false;
        lo = x;
      }
    }
    ++asked;
    if (pos || neg) {
      nodes.push_back({ alg::uvector<double, N>(0.5), 1.0, {} });
      return;
    }
    const double v = sxu::real("fraction", 0.001, 0.999);
    nodes.push_back({ hi, 1.0 - v, {} });
    nodes.push_back({ lo, v, {} });
  }
};
extern "C" void sx_main()
{
  const int n[3] = { NX, NY, NZ };
  std::array<std::vector<double>, dim> breaks;
  for (int d = 0; d < dim; ++d)
    for (int i = 0; i <= n[d]; ++i) breaks[static_cast<std::size_t>(d)].push_back(ORIGIN + 0.125 * d + (1.5 + 0.25 * d) * i);
  const auto grid = std::make_shared<const CartGridTP<dim>>(breaks);
  double a[dim], b = sxu::real("b", -100.0, 100.0);
  bool zero = true;
  for (int d = 0; d < dim; ++d) {
    a[d] = FEWER && d >= 1 ? (sx_choice(sxu::idx("slope", d), 0, 1) == 0 ? 1.5 - 3.0 * (d % 2) : d == 1 ? 2.0 : 0.0) : sxu::real(sxu::idx("a", d), -100.0, 100.0);
    zero = zero & (a[d] == 0.0);
  }
  sx_assume(!zero);
  const auto phi = [&](const P &x) {
    double v = b;
    for (int d = 0; d < dim; ++d) v += a[d] * x(d);
    return v;
  };
  std::vector<double> coefs;
  for (int i = 0; i < (1 << dim); ++i) {
    P x;
    for (int d = 0; d < dim; ++d) x(d) = (i >> d) & 1;
    coefs.push_back(phi(x));
  }
  TensorSizeTP<dim> order;
  for (int d = 0; d < dim; ++d) order(d) = 2;
  const auto bzr = std::make_shared<const impl::BezierTP<dim>>(order, coefs);
  const auto N = static_cast<int>(grid->get_num_cells());
  // the values at the corners are zero or clearly not
  for (int c = 0; c < N; ++c)
    for (int i = 0; i < (1 << dim); ++i) {
      P x;
      const auto box = grid->get_cell_domain(c);
      for (int d = 0; d < dim; ++d) x(d) = (i >> d) & 1 ? box.max(d) : box.min(d);
      const double v = phi(x);
      sx_assume((v == 0.0) | (v < -0.001) | (v > 0.001));
    }
  Oracle<dim> o;
  Oracle<dim - 1> of;
  alg::polyOracle<dim>() = &o;
  alg::polyOracle<dim - 1>() = &of;
  const impl::UnfittedImplDomain<dim> dom(bzr, grid);
  for (int c = 0; c < N; ++c) {
    const auto box = grid->get_cell_domain(c);
    bool pos = true, neg = true, fpos[nf], fneg[nf];
    for (int k = 0; k < nf; ++k) fpos[k] = fneg[k] = true;
    for (int i = 0; i < (1 << dim); ++i) {
      P x;
      for (int d = 0; d < dim; ++d) x(d) = (i >> d) & 1 ? box.max(d) : box.min(d);
      const double v = phi(x);
      const bool p = v >= 0.0, m = v <= 0.0;
      pos = pos & p;
      neg = neg & m;
      for (int d = 0; d < dim; ++d) {
        const int k = 2 * d + ((i >> d) & 1);
        fpos[k] = fpos[k] & p;
        fneg[k] = fneg[k] & m;
      }
    }
    sx_assert(dom.is_empty_cell(c) == pos, "a cell is empty exactly if the function is positive all over its interior");
    sx_assert(dom.is_full_cell(c) == neg, "a cell is full exactly if the function is negative all over its interior");
    sx_assert(dom.is_cut_cell(c) == (!pos & !neg), "a cell is cut exactly if the function is negative in part of it");
    for (int k = 0; k < nf; ++k) {
      const bool zeros = fpos[k] & fneg[k];
      sx_assert(dom.is_full_unfitted_facet(c, k) == (neg & zeros), "a facet of a full cell is an unfitted boundary exactly if the function vanishes all over it");
      sx_assert(dom.has_unfitted_boundary(c, k) == (neg & zeros), "facets with unfitted boundary");
      sx_assert(dom.is_full_facet(c, k) == (!pos & fneg[k] & !zeros), "a facet is full exactly if the function is negative all over it");
      sx_assert(dom.is_cut_facet(c, k) == (!pos & !fneg[k] & !fpos[k]), "a facet is cut exactly if the function is negative in part of it");
      sx_assert(dom.is_empty_facet(c, k) == (pos | (fpos[k] & !(neg & zeros))), "a facet is empty exactly if the function is positive all over it");
    }
  }
  sx_reach("end");
}
#endif
