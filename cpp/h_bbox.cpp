// Bounding boxes.  DIM = 1..3.
#include "sx_util.hpp"
#include <qugar/bbox.hpp>
using namespace qugar;
constexpr int dim = DIM;
static BoundBox<dim> box(const char *lo, const char *ln)
{
  Point<dim> a, b;
  for (int d = 0; d < dim; ++d) {
    a(d) = sx_real(sxu::idx(lo, d));
    const double l = sx_real(sxu::idx(ln, d));
    sx_assume(l > 0.0);
    b(d) = a(d) + l;
  }
  return BoundBox<dim>(a, b);
}
extern "C" void sx_main()
{
  const auto B = box("lo", "len"), N = box("nlo", "nlen");
  double vol = 1.0;
  for (int d = 0; d < dim; ++d) {
    sx_assert_eq(B.length(d), B.max(d) - B.min(d), "length");
    sx_assert_eq(B.get_lengths()(d), B.length(d), "lengths");
    sx_assert_eq(2.0 * B.mid_point()(d), B.min(d) + B.max(d), "mid point");
    sx_assert_eq(B.min_corner()(d), B.min(d), "min corner");
    sx_assert_eq(B.max_corner()(d), B.max(d), "max corner");
    vol = vol * (B.max(d) - B.min(d));
  }
  sx_assert_eq(B.volume(), vol, "volume is the product of the lengths");
  const auto p = sxu::point<dim>("p");
  const auto u = B.scale_to_0_1(p), q = B.scale_to_new_domain(N, p);
  const auto back = B.scale_from_0_1(u), back2 = N.scale_to_new_domain(B, q), via = N.scale_from_0_1(u);
  for (int d = 0; d < dim; ++d) {
    sx_assert_eq(u(d) * B.length(d), p(d) - B.min(d), "unit coordinates are relative to the box");
    sx_assert_eq(back(d), p(d), "scaling to the unit box and back is the identity");
    sx_assert_eq(back2(d), p(d), "scaling between two boxes and back is the identity");
    sx_assert_eq(via(d), q(d), "scaling between boxes is scaling through the unit box");
    sx_assert((u(d) >= 0.0 && u(d) <= 1.0) == (p(d) >= B.min(d) && p(d) <= B.max(d)), "inside points have unit coordinates in [0,1]");
  }
  auto E = B;
  E.extend(p);
  for (int d = 0; d < dim; ++d) {
    const double lo = p(d) < B.min(d) ? p(d) : B.min(d), hi = p(d) > B.max(d) ? p(d) : B.max(d);
    sx_assert(E.min(d) == lo && E.max(d) == hi, "extending by a point gives the smallest box containing both");
  }
  const double delta = sx_real("delta");
  sx_assume(delta >= 0.0);
  const auto D = B.extend(delta);
  for (int d = 0; d < dim; ++d) {
    sx_assert_eq(D.min(d), B.min(d) - delta, "extending by a margin (lower)");
    sx_assert_eq(D.max(d), B.max(d) + delta, "extending by a margin (upper)");
  }
  const auto H = BoundBox<dim>(B.to_hyperrectangle());
  for (int d = 0; d < dim; ++d) sx_assert(H.min(d) == B.min(d) && H.max(d) == B.max(d), "conversion to and from a hyperrectangle");
  const BoundBox<dim> unit;
  for (int d = 0; d < dim; ++d) sx_assert(unit.min(d) == 0.0 && unit.max(d) == 1.0, "the default box is the unit box");
#if DIM > 1
  for (int c = 0; c < dim; ++c) {
    const auto S = B.slice(c);
    for (int d = 0, k = 0; d < dim; ++d)
      if (d != c) {
        sx_assert(S.min(k) == B.min(d) && S.max(k) == B.max(d), "a slice drops exactly one direction");
        ++k;
      }
  }
#endif
  sx_reach("end");
}
