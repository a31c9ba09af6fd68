// Cartesian grids and subgrids.  DIM = 2..3; PART selects the obligation.  Breaks are symbolic.
#include "sx_util.hpp"
#include <array>
#include <memory>
#include <qugar/bbox.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/tolerance.hpp>
#include <vector>
using namespace qugar;
constexpr int dim = DIM;
#ifndef NMAX
#define NMAX (DIM == 2 ? 3 : 2)
#endif
static std::array<std::vector<real>, dim> symBreaks(double gap)
{
  std::array<std::vector<real>, dim> b;
  for (int d = 0; d < dim; ++d) {
    const int n = sx_choice(sxu::idx("ncells", d), 1, NMAX);
    double x = sx_real(sxu::idx("x", d));
    b[d].push_back(x);
    for (int i = 0; i < n; ++i) {
      const double y = sx_real(sxu::idx("x", d));
      sx_assume(y - x > gap);
      b[d].push_back(y);
      x = y;
    }
  }
  return b;
}
static std::int64_t total(const std::array<std::vector<real>, dim> &b)
{
  std::int64_t t = 1;
  for (const auto &v : b) t *= static_cast<std::int64_t>(v.size()) - 1;
  return t;
}

#if PART == 0
// cells tile the domain; queries about a cell and its facets
extern "C" void sx_main()
{
  const auto b = symBreaks(0.0);
  const CartGridTP<dim> grid(b);
  const std::int64_t n = total(b);
  sx_assert(static_cast<std::int64_t>(grid.get_num_cells()) == n, "number of cells");
  for (int d = 0; d < dim; ++d) {
    sx_assert(grid.get_num_cells_dir()(d) == static_cast<int>(b[d].size()) - 1, "cells per direction");
    sx_assert(grid.get_domain().min(d) == b[d].front() && grid.get_domain().max(d) == b[d].back(), "domain spans the breaks");
    for (std::size_t i = 0; i < b[d].size(); ++i) sx_assert(grid.get_breaks(d)[i] == b[d][i], "breaks are kept");
  }
  const std::int64_t c = sx_choice("cell", 0, static_cast<int>(n) - 1);
  std::int64_t rem = c;
  Vector<int, dim> tid;
  for (int d = 0; d < dim; ++d) {
    const std::int64_t nd = static_cast<std::int64_t>(b[d].size()) - 1;
    tid(d) = static_cast<int>(rem % nd);
    rem /= nd;
  }
  sx_assert(grid.to_tensor(c) == TensorIndexTP<dim>(tid) && grid.to_flat(TensorIndexTP<dim>(tid)) == c, "cell numbering is lexicographic");
  const auto box = grid.get_cell_domain(c);
  for (int d = 0; d < dim; ++d)
    sx_assert(box.min(d) == b[d][tid(d)] && box.max(d) == b[d][tid(d) + 1], "cell domain is the product of its break intervals");
  for (int f = 0; f < 2 * dim; ++f) {
    const int dir = f / 2, side = f % 2;
    const bool on = tid(dir) == (side ? static_cast<int>(b[dir].size()) - 2 : 0);
    sx_assert(grid.on_boundary(c, f) == on, "cell facet on the grid boundary");
    const auto cells = grid.get_boundary_cells(f);
    int cnt = 0;
    std::int64_t prev = -1;
    for (const auto k : cells) {
      sx_assert(k > prev && k < n, "boundary cells are sorted and valid");
      prev = k;
      if (k == c) ++cnt;
    }
    sx_assert(cnt == (on ? 1 : 0), "boundary cells are exactly the cells with that facet on the boundary");
  }
  sx_reach("end");
}
#elif PART == 1
// point location
extern "C" void sx_main()
{
  const double t = sxu::real("tol", 0.0, 0.01);
  const Tolerance tol(t);
  const auto b = symBreaks(0.05);
  const CartGridTP<dim> grid(b);
  const auto p = sxu::point<dim>("p");
  for (int d = 0; d < dim; ++d) sx_assume(p(d) >= b[d].front() && p(d) <= b[d].back());
  const auto id = grid.get_cell_id(p, tol);
  sx_assert(0 <= id && id < total(b), "located cell is a cell of the grid");
  const auto box = grid.get_cell_domain(id);
  bool interior = false;
  for (int d = 0; d < dim; ++d) {
    sx_assert(box.min(d) - t <= p(d) && p(d) <= box.max(d) + t, "located cell contains the point up to the tolerance");
    // lowest index among the cells touching the point
    for (std::size_t i = 1; i + 1 < b[d].size(); ++i) {
      const double dist = p(d) - b[d][i];
      const bool at = dist <= t && -dist <= t;
      if (at) interior = true;
      if (at) sx_assert(box.max(d) == b[d][i], "a point between cells is located in the one with the lowest index");
    }
  }
  const auto dir = grid.at_cells_boundary(p, tol);
  sx_assert(dir.has_value() == interior, "a point is between cells exactly when it is on an interior break");
  if (dir.has_value()) {
    bool found = false;
    int first = dim;
    for (int d = dim - 1; d >= 0; --d)
      for (std::size_t i = 1; i + 1 < b[d].size(); ++i) {
        const double dist = p(d) - b[d][i];
        if (dist <= t && -dist <= t) {
          first = d;
          if (d == *dir) found = true;
        }
      }
    (void)first;
    sx_assert(found, "the reported direction is one where the point is on an interior break");
  }
  sx_reach("end");
}
#elif PART == 2
// subgrids
extern "C" void sx_main()
{
  const auto b = symBreaks(0.0);
  const auto grid = std::make_shared<const CartGridTP<dim>>(b);
  Vector<int, dim> lo, up;
  int n = 1;
  bool full = true;
  for (int d = 0; d < dim; ++d) {
    const int nd = static_cast<int>(b[d].size()) - 1;
    lo(d) = sx_choice(sxu::idx("lo", d), 0, nd - 1);
    up(d) = sx_choice(sxu::idx("up", d), lo(d) + 1, nd);
    n *= up(d) - lo(d);
    full = full && lo(d) == 0 && up(d) == nd;
  }
  const SubCartGridTP<dim> sub(grid, TensorIndexTP<dim>(lo), TensorIndexTP<dim>(up));
  sx_assert(static_cast<int>(sub.get_num_cells()) == n && sub.is_unique_cell() == (n == 1) && sub.is_full() == full, "subgrid size queries");
  const SubCartGridTP<dim> all(grid);
  sx_assert(all.is_full() && all.get_num_cells() == grid->get_num_cells(), "the default subgrid is the full grid");
  const auto box = sub.get_domain();
  for (int d = 0; d < dim; ++d) {
    sx_assert(sub.get_num_cells_dir()(d) == up(d) - lo(d), "subgrid cells per direction");
    sx_assert(box.min(d) == b[d][lo(d)] && box.max(d) == b[d][up(d)], "subgrid domain is the union of its cells");
  }
  // corner cells of the parent numbering
  Vector<int, dim> last;
  for (int d = 0; d < dim; ++d) last(d) = up(d) - 1;
  sx_assert(sub.to_flat(TensorIndexTP<dim>(lo)) == grid->to_flat(TensorIndexTP<dim>(lo))
              && sub.to_flat(TensorIndexTP<dim>(last)) == grid->to_flat(TensorIndexTP<dim>(last)),
    "subgrid cells keep the parent's numbering");
  sx_assert(sub.get_grid() == grid, "parent grid");
  if (n == 1)
    sx_assert(sub.get_single_cell() == grid->to_flat(TensorIndexTP<dim>(lo)), "single cell of a one-cell subgrid");
  else {
    const auto h = sub.split();
    sx_assert(h[0]->get_num_cells() + h[1]->get_num_cells() == sub.get_num_cells(), "a split keeps the number of cells");
    int nd = 0;
    for (int d = 0; d < dim; ++d) {
      const auto b0 = h[0]->get_domain(), b1 = h[1]->get_domain();
      if (b0.min(d) == box.min(d) && b0.max(d) == box.max(d) && b1.min(d) == box.min(d) && b1.max(d) == box.max(d)) continue;
      ++nd;
      sx_assert(b0.min(d) == box.min(d) && b1.max(d) == box.max(d) && b0.max(d) == b1.min(d), "the halves of a split tile the subgrid");
    }
    sx_assert(nd == 1, "a split divides exactly one direction");
  }
  sx_reach("end");
}
#elif PART == 3
// equispaced grids
extern "C" void sx_main()
{
  std::array<std::size_t, dim> n;
  Point<dim> lo, hi;
  for (int d = 0; d < dim; ++d) {
    n[d] = static_cast<std::size_t>(sx_choice(sxu::idx("n", d), 1, NMAX + 1));
    lo(d) = sx_real(sxu::idx("lo", d));
    hi(d) = sx_real(sxu::idx("hi", d));
    sx_assume(hi(d) > lo(d));
  }
  const CartGridTP<dim> grid(BoundBox<dim>(lo, hi), n), unit(n);
  for (int d = 0; d < dim; ++d) {
    sx_assert(grid.get_breaks(d).size() == n[d] + 1, "number of breaks");
    for (std::size_t i = 0; i <= n[d]; ++i) {
      const double f = static_cast<double>(i);
      sx_assert_eq(grid.get_breaks(d)[i] * static_cast<double>(n[d]), lo(d) * (static_cast<double>(n[d]) - f) + hi(d) * f, "breaks are equispaced over the domain");
      const double u = unit.get_breaks(d)[i] * static_cast<double>(n[d]) - f;
      sx_assert(u < 1e-12 && u > -1e-12, "the default domain is the unit box");
    }
  }
  sx_reach("end");
}
#endif
