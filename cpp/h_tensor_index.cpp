// Tensor-product indices, sizes and ranges.  DIM = 1..3, PART selects the obligation.
#include "sx_util.hpp"
#include <qugar/tensor_index_tp.hpp>
using namespace qugar;
constexpr int dim = DIM;
using TI = TensorIndexTP<dim>;
using TS = TensorSizeTP<dim>;
using TR = TensorIndexRangeTP<dim>;

static TI symIndex(const char *n, int hi)
{
  Vector<int, dim> v;
  for (int d = 0; d < dim; ++d) v(d) = sxu::i32(sxu::idx(n, d), 0, hi);
  return TI(v);
}
// sizes are picked from a table (all combinations are explored); flat indices are symbolic
static TS sizes()
{
#if defined(SMALL)
  static const int table[] = { 1, 2, 3, 5, 4, 7 };
  constexpr int n = dim == 3 ? 4 : 6;
#else
  static const int table[] = { 1, 3, 1500, 65536 };
  constexpr int n = dim == 3 ? 2 : 4;
  if (dim == 3) {
    // three sizes with large products
    static const int triples[3][3] = { { 1500, 1500, 1500 }, { 65536, 3, 65536 }, { 3, 1, 65536 } };
    const int c = sx_choice("triple", 0, 2);
    Vector<int, dim> w;
    for (int d = 0; d < dim; ++d) w(d) = triples[c][d];
    return TS(w);
  }
#endif
  Vector<int, dim> v;
  for (int d = 0; d < dim; ++d) v(d) = table[sx_choice(sxu::idx("size", d), 0, n - 1)];
  return TS(v);
}

#if PART == 0
// flat -> multi -> flat
extern "C" void sx_main()
{
  const TS sz = sizes();
  std::int64_t total = 1;
  for (int d = 0; d < dim; ++d) total *= sz(d);
  sx_assert(static_cast<std::int64_t>(sz.size()) == total, "number of entries is the product of the sizes");
  const std::int64_t f = sxu::i64("flat", 0, total - 1);
  const TI t(f, sz);
  std::int64_t expect = 0, stride = 1;
  for (int d = 0; d < dim; ++d) {
    sx_assert(0 <= t(d) && t(d) < sz(d), "multi-index within the sizes");
    expect += t(d) * stride;
    stride *= sz(d);
  }
  sx_assert(expect == f, "axis 0 runs fastest in flat -> multi");
  sx_assert(t.flat(sz) == f, "flat -> multi -> flat is the identity");
  sx_assert(t.flat(TI(sz)) == f, "flat index does not depend on how the size is given");
  sx_reach("end");
}
#elif PART == 1
// multi -> flat -> multi, order
extern "C" void sx_main()
{
  const TS sz = sizes();
  const TI a = symIndex("a", 65535), b = symIndex("b", 65535);
  for (int d = 0; d < dim; ++d) sx_assume(a(d) < sz(d) && b(d) < sz(d));
  const std::int64_t fa = a.flat(sz), fb = b.flat(sz);
  const std::int64_t total = static_cast<std::int64_t>(sz.size());
  sx_assert(0 <= fa && fa < total, "flat index within the number of entries");
#if defined(SMALL)
  sx_assert(TI(fa, sz) == a, "multi -> flat -> multi is the identity");
#endif
  sx_assert((fa == fb) == (a == b), "flat indices are equal exactly for equal multi-indices");
  sx_assert((a == b) != (a != b), "equality and inequality are complementary");
  sx_assert((a < b) == (fa < fb), "the order of multi-indices is the order of flat indices");
  sx_reach("end");
}
#elif PART == 2
// iteration over a range [lower, upper)
extern "C" void sx_main()
{
  Vector<int, dim> lo, up, ext;
  for (int d = 0; d < dim; ++d) {
    lo(d) = sxu::i32(sxu::idx("lo", d), 0, 1000000);
    ext(d) = sx_choice(sxu::idx("ext", d), 0, dim == 3 ? 2 : 3);
    up(d) = lo(d) + ext(d);
  }
  const TR r{ TI(lo), TI(up) };
  int n = 1;
  for (int d = 0; d < dim; ++d) n *= ext(d);
  sx_assert(static_cast<int>(r.size()) == n, "range size");
  int k = 0;
  auto post = r.begin();
  for (const auto &t : r) {
    sx_assert(k < n, "iteration visits no more indices than the range holds");
    int rem = k;
    for (int d = 0; d < dim; ++d) {
      sx_assert(t(d) == lo(d) + rem % ext(d), "iteration visits the indices of the box in flat order");
      rem /= ext(d);
    }
    sx_assert(r.is_in_range(t), "visited indices are in the range");
    const auto old = post++;
    sx_assert(*old == t && old->operator()(0) == t(0), "post-increment returns the previous position");
    ++k;
  }
  sx_assert(k == n, "iteration visits every index of the range");
  sx_assert(post == r.end() && r.cbegin() == r.begin() && r.cend() == r.end(), "iterator ends");
  if (n > 0) {
    TI t(lo);
    bool in = true;
    for (int d = 0; d < dim; ++d) {
      t(d) = sxu::i32(sxu::idx("q", d), 0, 2000000);
      in = in && lo(d) <= t(d) && t(d) < up(d);
    }
    sx_assert(r.is_in_range(t) == in, "membership is componentwise lower <= index < upper");
  }
  sx_reach("end");
}
#elif PART == 3
// splitting
extern "C" void sx_main()
{
  Vector<int, dim> lo, up;
  int mx = 0;
  bool empty = false;
  for (int d = 0; d < dim; ++d) {
    lo(d) = sxu::i32(sxu::idx("lo", d), 0, 1000000);
    const int e = sxu::i32(sxu::idx("ext", d), 1, dim == 1 ? 100000 : dim == 2 ? 16 : 60);
    up(d) = lo(d) + e;
    if (e > mx) mx = e;
  }
  (void)empty;
  sx_assume(mx > 1);
  const TR r{ TI(lo), TI(up) };
  for (int d = 0; d < dim; ++d) sx_assert(r.get_sizes()(d) == up(d) - lo(d), "range sizes per direction");
  const auto h = r.split();
  int nd = 0;
  for (int d = 0; d < dim; ++d) {
    const int l0 = h[0].get_lower_bound()(d), u0 = h[0].get_upper_bound()(d);
    const int l1 = h[1].get_lower_bound()(d), u1 = h[1].get_upper_bound()(d);
    if (l0 == lo(d) && u0 == up(d) && l1 == lo(d) && u1 == up(d)) continue;
    ++nd;
    sx_assert(l0 == lo(d) && u1 == up(d) && u0 == l1 && l0 < u0 && l1 < u1, "the two halves are non-empty and tile the range");
    sx_assert(up(d) - lo(d) == mx, "a longest direction is split");
    const int diff = (u0 - l0) - (u1 - l1);
    sx_assert(-1 <= diff && diff <= 1, "the halves differ by at most one index");
  }
  sx_assert(nd == 1, "exactly one direction is split");
  sx_reach("end");
}
#elif PART == 4
// flat membership
extern "C" void sx_main()
{
  Vector<int, dim> szv;
  for (int d = 0; d < dim; ++d) szv(d) = sx_choice(sxu::idx("size", d), dim == 3 ? 2 : 1, dim == 3 ? 3 : 5);
  const TS sz(szv);
  Vector<int, dim> lo, up;
  for (int d = 0; d < dim; ++d) {
    lo(d) = sxu::i32(sxu::idx("lo", d), 0, 8);
    up(d) = sxu::i32(sxu::idx("up", d), 0, 8);
    sx_assume(lo(d) <= up(d) && up(d) <= sz(d));
  }
  const TR r{ TI(lo), TI(up) };
  const std::int64_t f = sxu::i64("flat", 0, 400);
  bool in = f < static_cast<std::int64_t>(sz.size());
  std::int64_t rem = f;
  for (int d = 0; d < dim; ++d) {
    const int c = static_cast<int>(rem % sz(d));
    rem /= sz(d);
    in = in && lo(d) <= c && c < up(d);
  }
  sx_assert(r.is_in_range(f, sz) == in, "membership of a flat index");
  sx_reach("end");
}
#endif
