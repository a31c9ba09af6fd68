// the shim through which generated kernels tabulate basix elements
#include "sx.hpp"
#include "qugar_basix_shim.cpp"
#include <memory>
namespace {
struct Key
{
  int k[6];
};
char nm[64];
const char *name(const char *s, int i)
{
  int n = 0;
  for (; s[n]; ++n) nm[n] = s[n];
  nm[n] = (char)('0' + i);
  nm[n + 1] = 0;
  return nm;
}
// MASK: parameters that are arbitrary
#ifndef MASK
#define MASK 63
#endif
Key any_key(int i)
{
  Key k{ { 1, 4, 2, 1, 0, 0 } };
  if (MASK & 1) k.k[0] = sx_i32(name("family", i));
  if (MASK & 2) k.k[1] = sx_i32(name("cell", i));
  if (MASK & 4) k.k[2] = sx_i32(name("degree", i));
  if (MASK & 8) k.k[3] = sx_i32(name("lagrange", i));
  if (MASK & 16) k.k[4] = sx_i32(name("dpc", i));
  if (MASK & 32) k.k[5] = sx_choice(name("disc", i), 0, 1);
  return k;
}
bool same(const Key &a, const Key &b)
{
  bool r = true;
  for (int i = 0; i < 6; ++i) r = r & (a.k[i] == b.k[i]);
  return r;
}
int reg(bool f32, const Key &k)
{
  return f32 ? qugar_register_element_f32(k.k[0], k.k[1], k.k[2], k.k[3], k.k[4], k.k[5]) : qugar_register_element_f64(k.k[0], k.k[1], k.k[2], k.k[3], k.k[4], k.k[5]);
}
int size_of(bool f32)
{
  return f32 ? qugar_registry_size_f32() : qugar_registry_size_f64();
}
#if MODE == 0
// any sequence of registrations
void go()
{
  const int n = NREG;
  Key keys[NREG];
  bool f32[NREG];
  int h[NREG];
  int live[2] = { 0, 0 }, created[2] = { 0, 0 };
  for (int i = 0; i < n; ++i) {
    keys[i] = any_key(i);
    f32[i] = sx_choice(name("f32_", i), 0, 1) != 0;
    h[i] = reg(f32[i], keys[i]);
    const bool bad = keys[i].k[2] < 0 || keys[i].k[2] > 40;
    bool known = false;
    int want = live[f32[i]];
    for (int j = 0; j < i; ++j)
      if (f32[j] == f32[i] && h[j] >= 0 && same(keys[i], keys[j])) known = true, want = h[j];
    if (bad) {
      sx_assert(h[i] == (keys[i].k[2] < 0 ? -1 : -2), "rejected elements give an error code");
      ++created[f32[i]];
    } else {
      sx_assert(h[i] == want, "one handle per element and type, numbered consecutively");
      if (!known) ++live[f32[i]], ++created[f32[i]];
    }
    for (int t = 0; t < 2; ++t) {
      sx_assert(size_of(t) == live[t], "only new valid elements are stored");
      sx_assert(g_created[t] == created[t], "every element is created once");
    }
  }
  // each handle still leads to its own element
  for (int i = 0; i < n; ++i) {
    if (h[i] < 0) continue;
    const int *k = keys[i].k;
    long s[4] = { -7, -7, -7, -7 };
    int rc = f32[i] ? qugar_tabulate_shape_f32(h[i], 0, 3, s) : qugar_tabulate_shape_f64(h[i], 0, 3, s);
    sx_assert(rc == 0 && s[0] == 1 && s[1] == 3 && s[2] == k[2] + 1 && s[3] == (k[0] == 2 ? 2 : 1), "the handle leads to the element registered");
  }
  if (NREG == 2 && sx_choice("reset", 0, 1)) {
    qugar_shim_reset();
    sx_assert(size_of(0) == 0 && size_of(1) == 0, "nothing is left after the reset");
    double x[3] = { 0, 0, 0 };
    sx_assert(qugar_tabulate_f64(0, 0, x, 1, 1, x, 100) == -3, "old handles are rejected after the reset");
    const int i = n - 1;
    int a = reg(f32[i], keys[i]);
    sx_assert(h[i] < 0 ? a == h[i] : a == 0, "elements are created again after the reset");
    sx_assert(size_of(f32[i]) == (h[i] < 0 ? 0 : 1) && g_created[f32[i]] == created[f32[i]] + 1, "elements are created again after the reset");
  }
  sx_reach("end");
}
#elif MODE == 1
template<typename T> void tab()
{
  const bool f32 = sizeof(T) == 4;
  const Key k[2] = { { { 1, CELL, DEG, 1, 0, 0 } }, { { 2, CELL, DEG + 1, 1, 0, 1 } } };
  sx_assert(reg(f32, k[0]) == 0 && reg(f32, k[1]) == 1, "handles of the elements");
  reg(!f32, k[1]);
  int h = sx_i32("handle");
  const int td = basix::tdim_of(CELL);
  int nd = sx_choice("nd", 0, ND), npts = sx_choice("npts", 0, 2), gdim = sx_choice("gdim", td, td + (ND > 0 ? 1 : 0));
  const bool ok = h == 0 || h == 1;
  std::array<int, 6> key{};
  std::size_t need = 0;
  if (ok) {
    int hh = h == 0 ? 0 : 1;
    for (int i = 0; i < 6; ++i) key[(size_t)i] = k[hh].k[i];
    basix::FiniteElement<T> e;
    e.key = key;
    auto s = e.tabulate_shape((size_t)nd, (size_t)npts);
    need = s[0] * s[1] * s[2] * s[3];
    long g[4];
    int rc = f32 ? qugar_tabulate_shape_f32(h, nd, npts, g) : qugar_tabulate_shape_f64(h, nd, npts, g);
    sx_assert(rc == 0, "shape of the table");
    for (int i = 0; i < 4; ++i) sx_assert(g[i] == (long)s[(size_t)i], "shape of the table");
  } else {
    long g[4] = { 1, 2, 3, 4 };
    int rc = f32 ? qugar_tabulate_shape_f32(h, nd, npts, g) : qugar_tabulate_shape_f64(h, nd, npts, g);
    sx_assert(rc == -3, "unknown handles are rejected");
  }
  int d = sx_choice("extra", -1, 2);
  long cap = (long)need + d;
  std::vector<T> buf((std::size_t)(cap > 0 ? cap : 0), (T)-5);
  std::unique_ptr<T[]> x(new T[(std::size_t)(npts * gdim)]);
  for (int i = 0; i < npts * gdim; ++i) x[(size_t)i] = (T)sx_real(name("x", i));
  int rc;
  if constexpr (sizeof(T) == 4)
    rc = qugar_tabulate_f32(h, nd, x.get(), npts, gdim, buf.data(), cap);
  else
    rc = qugar_tabulate_f64(h, nd, x.get(), npts, gdim, buf.data(), cap);
  std::size_t filled = 0;
  if (!ok)
    sx_assert(rc == -3, "unknown handles are rejected");
  else if (d < 0)
    sx_assert(rc == -4, "too small buffers are rejected");
  else if (gdim != td)
    sx_assert(rc == -1, "failures of basix give an error code");
  else {
    sx_assert(rc == 0, "success");
    filled = need;
    basix::FiniteElement<T> e;
    e.key = key;
    std::vector<T> want(need);
    e.tabulate(nd, std::span<const T>(x.get(), (size_t)(npts * gdim)), { (size_t)npts, (size_t)gdim }, std::span<T>(want));
    for (std::size_t i = 0; i < need; ++i) sx_assert_eq(buf[i], want[i], "the table is that of the element, at the points given");
  }
  for (std::size_t i = filled; i < buf.size(); ++i) sx_assert_eq(buf[i], -5, "nothing else is written");
  sx_reach("end");
}
void go()
{
  if (sx_choice("f32", 0, 1))
    tab<float>();
  else
    tab<double>();
}
#else
// scratch memory: room for what was asked, kept until more is asked for
template<typename T> T *get(long n)
{
  if constexpr (sizeof(T) == 4)
    return qugar_get_scratch_f32(n);
  else
    return qugar_get_scratch_f64(n);
}
template<typename T> void scratch()
{
  T *last = nullptr;
  long cap = 0;
  for (int i = 0; i < NREG; ++i) {
    long n = sx_choice(name("n", i), -1, 9);
    T *p = get<T>(n);
    if (n < 0) {
      sx_assert(p == nullptr, "impossible requests give no memory");
      continue;
    }
    for (long k = 0; k < n; ++k) p[k] = (T)(k + 1);
    for (long k = 0; k < n; ++k) sx_assert(p[k] == (T)(k + 1), "the memory can be used");
    if (n <= cap && cap > 0) sx_assert(p == last, "the same memory is used while it is large enough");
    if (n > cap) cap = n;
    last = p;
    if (sx_choice(name("other", i), 0, 1)) {
      if constexpr (sizeof(T) == 4) {
        double *q = qugar_get_scratch_f64(4);
        for (int k = 0; k < 4; ++k) q[k] = -1;
      } else {
        float *q = qugar_get_scratch_f32(4);
        for (int k = 0; k < 4; ++k) q[k] = -1;
      }
      for (long k = 0; k < n; ++k) sx_assert(p[k] == (T)(k + 1), "each type has its own memory");
    }
  }
  sx_reach("end");
}
void go()
{
  if (sx_choice("f32", 0, 1))
    scratch<float>();
  else
    scratch<double>();
}
#endif
}// namespace
extern "C" void sx_main()
{
  go();
}
