// Tolerant comparisons and merging of coincident points.  PART selects the obligation.
#include "sx_util.hpp"
#include <qugar/point.hpp>
#include <qugar/tolerance.hpp>
#include <vector>
using namespace qugar;
static double absv(double x) { return x < 0.0 ? -x : x; }
#if PART == 0
extern "C" void sx_main()
{
  const double t = sx_real("t"), s = sx_real("s"), a = sx_real("a"), b = sx_real("b");
  sx_assume(t >= 0.0 && s >= 0.0);
  const Tolerance T(t), S(s), M(t, s), N2(T, S);
  const double mx = t > s ? t : s;
  sx_assert(T.value() == t && M.value() == mx && N2.value() == mx, "the largest of two tolerances is kept");
  Tolerance U(t), V(t);
  U.update(s);
  V.update(S);
  sx_assert(U.value() == mx && V.value() == mx, "updating keeps the largest tolerance");
  sx_assert(T.is_zero(a) == (absv(a) <= t), "zero");
  sx_assert(T.is_negative(a) == (a < -t), "negative");
  sx_assert(T.is_positive(a) == (a > t), "positive");
  sx_assert(static_cast<int>(T.is_zero(a)) + static_cast<int>(T.is_negative(a)) + static_cast<int>(T.is_positive(a)) == 1, "sign trichotomy");
  sx_assert(T.equal(a, b) == (absv(a - b) <= t), "equal");
  sx_assert(T.greater_than(a, b) == (a - b > t), "greater");
  sx_assert(T.smaller_than(a, b) == (b - a > t), "smaller");
  sx_assert(static_cast<int>(T.equal(a, b)) + static_cast<int>(T.greater_than(a, b)) + static_cast<int>(T.smaller_than(a, b)) == 1, "order trichotomy");
  sx_assert(T.greater_equal_than(a, b) == !T.smaller_than(a, b), "greater or equal");
  sx_assert(T.smaller_equal_than(a, b) == !T.greater_than(a, b), "smaller or equal");
  const double m = absv(a) > absv(b) ? absv(a) : absv(b);
  sx_assert(T.equal_rel(a, b) == (absv(a - b) <= t * m), "relative equality");
  sx_assert(T.equal_rel(a, b, S) == (absv(a - b) <= t + s * m), "absolute and relative equality");
  sx_assert(T.greater_than_rel(a, b) == (a - b > t * m), "relatively greater");
  sx_assert(T.smaller_than_rel(a, b) == (b - a > t * m), "relatively smaller");
  sx_reach("end");
}
#elif PART == 1
// unique values: the result is sorted, separated, a subset, and covers every value
extern "C" void sx_main()
{
  const double t = sxu::real("t", 0.0, 1.0);
  std::vector<real> v;
  for (int i = 0; i < NP; ++i) v.push_back(sx_real(sxu::idx("v", i)));
  auto w = v;
  Tolerance(t).unique(w);
  sx_assert(!w.empty() && w.size() <= v.size(), "number of unique values");
  for (std::size_t i = 1; i < w.size(); ++i) sx_assert(w[i] - w[i - 1] > t, "unique values are sorted and separated by more than the tolerance");
  for (const auto x : w) {
    bool in = false;
    for (const auto y : v) in = in || x == y;
    sx_assert(in, "unique values come from the input");
  }
  for (const auto y : v) {
    bool cov = false;
    for (const auto x : w) cov = cov || absv(x - y) <= t;
    sx_assert(cov, "every value is represented up to the tolerance");
  }
  sx_reach("end");
}
#elif PART == 2
// merging points (well separated: two points are either coincident or far apart in some direction)
extern "C" void sx_main()
{
  const double t = 0.01;
  std::vector<Point<DIM>> p;
  for (int i = 0; i < NP; ++i) p.push_back(sxu::point<DIM>(sxu::idx("p", i)));
  bool same[NP][NP];
  for (int i = 0; i < NP; ++i)
    for (int j = 0; j < NP; ++j) {
      bool eq = true;
      for (int d = 0; d < DIM; ++d) eq = eq && absv(p[i](d) - p[j](d)) <= t;
      same[i][j] = eq;
    }
#if defined(SEPARATED)
  for (int i = 0; i < NP; ++i)
    for (int j = 0; j < i; ++j)
      for (int d = 0; d < DIM; ++d) sx_assume(absv(p[i](d) - p[j](d)) <= t / NP || absv(p[i](d) - p[j](d)) > t);
#endif
  const Tolerance tol(t);
  std::vector<std::size_t> map;
  find_coincident_points<DIM>(p, tol, map);
  sx_assert(map.size() == NP, "one representative per point");
  for (int i = 0; i < NP; ++i) {
    sx_assert(map[i] < NP && map[map[i]] == map[i], "representatives represent themselves");
    for (int j = 0; j < i; ++j) {
      if (same[i][j]) sx_assert(map[i] == map[j], "coincident points share their representative");
#if defined(SEPARATED)
      if (!same[i][j]) sx_assert(map[i] != map[j], "distinct points are not merged");
#endif
    }
  }
  auto q = p;
  std::vector<std::size_t> o2n;
  make_points_unique<DIM>(q, tol, o2n);
  std::size_t reps = 0;
  for (int i = 0; i < NP; ++i) reps += map[i] == static_cast<std::size_t>(i) ? 1 : 0;
  sx_assert(q.size() == reps && o2n.size() == NP, "one unique point per representative");
  for (int i = 0; i < NP; ++i) {
    sx_assert(o2n[i] < q.size(), "renumbering is valid");
    for (int d = 0; d < DIM; ++d) sx_assert(q[o2n[i]](d) == p[map[i]](d), "every point is renumbered to the position of its representative");
    for (int j = 0; j < i; ++j) sx_assert((o2n[i] == o2n[j]) == (map[i] == map[j]), "renumbering merges exactly the merged points");
  }
  sx_reach("end");
}
#endif
