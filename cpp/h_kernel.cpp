// Kernels generated for custom quadratures, on every status, number of points and value of the data.
#include "sx.hpp"
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
struct AnyFunction
{
  template<class T> constexpr AnyFunction(T *) {}
};
struct ufcx_integral
{
  int enabled_coefficients;
  AnyFunction tabulate_tensor_float64;
};
#include "kernel.h"
#ifndef NPTS
#define NPTS 2
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
namespace {
char nm[80];
const char *name(const char *s, int a, int b = -1, int c = -1, int d = -1)
{
  int n = 0;
  for (; s[n]; ++n) nm[n] = s[n];
  for (int v : { a, b, c, d }) {
    if (v < 0) continue;
    if (nm[n - 1] >= '0' && nm[n - 1] <= '9') nm[n++] = '_';
    if (v >= 1000) nm[n++] = (char)('0' + v / 1000 % 10);
    if (v >= 100) nm[n++] = (char)('0' + v / 100 % 10);
    if (v >= 10) nm[n++] = (char)('0' + v / 10 % 10);
    nm[n++] = (char)('0' + v % 10);
  }
  nm[n] = 0;
  return nm;
}
Real real(const char *s) { return (Real)sx_real(s); }
Scalar scalar(const char *s, int i)
{
#if COMPLEX
  const Real a = real(name(s, i, 0));
  const Real b = real(name(s, i, 1));
  Scalar z;
  Real p[2] = { a, b };
  std::memcpy(&z, p, sizeof z);
  return z;
#else
  return real(name(s, i));
#endif
}
void same(const Scalar &a, const Scalar &b, const char *msg)
{
  const Real *p = (const Real *)&a, *q = (const Real *)&b;
  for (int i = 0; i < (COMPLEX ? 2 : 1); ++i) {
    if (F32 && !sx_symbolic())
      sx_assert(std::fabs((double)p[i] - (double)q[i]) <= 1e-3 * (1 + std::fabs((double)p[i]) + std::fabs((double)q[i])), msg);
    else
      sx_assert_eq((double)p[i], (double)q[i], msg);
  }
}

// ---- what the kernel receives
Scalar w[NCOEF + 8 + NQ * (1 + NPTS * (TDIM * 2 + TDIM - 1 + 1 + TDIM)) + 4];
Scalar cst[NCONST + 1], A[NA], E[NA];
Real geo[2 * NGEO];
int n_[NQ];
Real *pts_[NQ][3], *wgt_[NQ], *nrm_[NQ];

// ---- the elements
const int MAXTAB = 400;
Real *vals[NQ][3][NEL];
int nders(int nd, int dim)
{
  int r = 1;
  for (int i = 1; i <= dim; ++i) r = r * (nd + i) / i;
  return r;
}
// value of a basis function (or derivative) at a point
Real V(int q, int src, int el, int d, int iq, int dof, int comp)
{
  const int nd = elements[el][6], vs = elements[el][7];
  Real *&t = vals[q][src][el];
  if (!t) {
    const int n = n_[q] * nders(2, elements[el][8]) * nd * vs;
    t = (Real *)std::malloc(sizeof(Real) * (n ? n : 1));
    for (int i = 0; i < n; ++i) t[i] = real(name("phi", q, src, el, i));
  }
  return t[((d * n_[q] + iq) * nd + dof) * vs + comp];
}
Real wgt(int q, int iq) { return wgt_[q][iq]; }
Real nrm(int q, int iq, int c) { return nrm_[q][TDIM * iq + c]; }
int npts(int q) { return n_[q]; }
Real sqr(Real x) { return x * x; }
template<class F> Scalar sum_coef(const Scalar *p, int n, F f)
{
  Scalar s = 0;
  for (int i = 0; i < n; ++i) s += p[i] * f(i);
  return s;
}
template<class F> Real sum_jac(const Real *p, int n, F f)
{
  Real s = 0;
  for (int i = 0; i < n; ++i) s += p[3 * i] * f(i);
  return s;
}
long scratch_size = -1;
Real *scratch = nullptr;
int registered = 0, failing = -1, events = 0, custom = 0;
bool fault() { return FAULTS && events++ == failing; }
}// namespace

extern "C" {
int reg(int f, int c, int d, int l, int p, int x)
{
  sx_assert(custom, "elements are registered for entities with custom quadratures only");
  if (fault()) return -1;
  for (int e = 0; e < NEL; ++e) {
    const int *k = elements[e];
    if (k[0] == f && k[1] == c && k[2] == d && k[3] == l && k[4] == p && k[5] == x) return e + 5;
  }
  sx_assert(false, "the element registered is one of the integral's");
  return -1;
}
int tab(int h, int nd, const Real *pts, int n, int gdim, Real *out, long size)
{
  if (fault()) return -2;
  sx_assert(h >= 5 && h < 5 + NEL, "handle returned by the registration");
  const int e = h - 5;
  int q = -1, src = -1;
  for (int i = 0; i < NQ; ++i)
    for (int s = 0; s < 3; ++s)
      if (n_[i] > 0 && pts_[i][s] && pts == pts_[i][s]) {
        q = i;
        src = s;
      }
  if (n == 0) return 0;
  sx_assert(q >= 0, "the points are those of one of the quadratures");
  sx_assert(n == n_[q], "the number of points is that of the quadrature");
  sx_assert(gdim == elements[e][8] && (src == 2 ? gdim == TDIM - 1 : gdim == TDIM), "the points have the dimension of the element's cell");
  sx_assert(nd >= 0 && nd <= 2, "order of the derivatives");
  const long need = (long)nders(nd, gdim) * n * elements[e][6] * elements[e][7];
  sx_assert(size == need, "the size of the block is that of the table");
  sx_assert(out >= scratch && out + need <= scratch + scratch_size, "the block lies within the scratch memory");
  const int per = elements[e][6] * elements[e][7];
  for (int d = 0; d < nders(nd, gdim); ++d)
    for (int i = 0; i < n * per; ++i) out[d * n * per + i] = V(q, src, e, d, i / per, i % per / elements[e][7], i % elements[e][7]);
  return 0;
}
Real *scr(long n)
{
  sx_assert(n >= 0, "size of the scratch memory");
  // one block for every request, moved (and released) when it grows
  if (n > scratch_size) {
    Real *const t = (Real *)std::malloc(sizeof(Real) * (n ? n : 1));
    if (scratch) std::free(scratch);
    scratch = t;
    scratch_size = n;
  }
  return scratch;
}
#if F32
int qugar_register_element_f32(int f, int c, int d, int l, int p, int x) { return reg(f, c, d, l, p, x); }
int qugar_tabulate_f32(int h, int nd, const Real *p, int n, int g, Real *o, long s) { return tab(h, nd, p, n, g, o, s); }
Real *qugar_get_scratch_f32(long n) { return scr(n); }
#else
int qugar_register_element_f64(int f, int c, int d, int l, int p, int x) { return reg(f, c, d, l, p, x); }
int qugar_tabulate_f64(int h, int nd, const Real *p, int n, int g, Real *o, long s) { return tab(h, nd, p, n, g, o, s); }
Real *qugar_get_scratch_f64(long n) { return scr(n); }
#endif

void sx_main(void)
{
  for (int i = 0; i < NCOEF; ++i) w[i] = scalar("w", i);
  for (int i = 0; i < NCONST; ++i) cst[i] = scalar("c", i);
  for (int i = 0; i < NGEO; ++i) geo[i] = real(name("x", i));
  for (int i = 0; i < NA; ++i) A[i] = 0, E[i] = 0;
  A[0] = E[0] = scalar("A", 0);
  int ent[2] = { 0, 0 };
  std::uint8_t perm[2] = { 0, 0 };
  const int status = sx_choice("status", -1, 1);
  const int gap = sx_choice("gap", 0, 1);
  // the offset is an integer as long as a pointer stored where the coefficients end
  const int start = NCOEF + (F32 && !COMPLEX ? 2 : 1) + gap;
  std::ptrdiff_t off = 0;
  if (status > 0) off = (std::ptrdiff_t)start * (COMPLEX ? 2 : 1);
  if (status < 0) off = -1;
  std::memcpy(&w[NCOEF], &off, sizeof off);
  if (INTERIOR || EXTERIOR) {
    ent[0] = sx_choice("entity0", 0, status > 0 ? 1 : NFACETS - 1);
    if (INTERIOR) {
      ent[1] = sx_choice("entity1", 0, status > 0 ? 1 : NFACETS - 1);
      perm[0] = (std::uint8_t)sx_choice("perm0", 0, status > 0 ? 1 : NPERMS - 1);
      perm[1] = (std::uint8_t)sx_choice("perm1", 0, status > 0 ? 1 : NPERMS - 1);
    }
  }
  if (status == 0) {
    KERNEL(A, w, cst, geo, ent, perm, nullptr);
    for (int i = 0; i < NA; ++i) same(A[i], E[i], "nothing is added for entities without quadrature");
    sx_assert(scratch_size < 0, "nothing is requested for entities without quadrature");
    sx_reach("empty");
    return;
  }
  if (status < 0) {
    plain_kernel(E, w, cst, geo, ent, perm, nullptr);
    KERNEL(A, w, cst, geo, ent, perm, nullptr);
    for (int i = 0; i < NA; ++i) same(A[i], E[i], "full entities get the contributions of the standard quadrature");
    sx_reach("full");
    return;
  }
  custom = 1;
  Real *p = (Real *)w + off;
  for (int k = 0; k < NDATA; ++k) {
    const int q = data_order[k];
    n_[q] = sx_choice(name("n", q), 0, NPTS);
    *p++ = (Real)n_[q];
    pts_[q][0] = p;
    p += TDIM * n_[q];
    if (INTERIOR) {
      pts_[q][1] = p;
      p += TDIM * n_[q];
    }
    if (MIXED) {
      pts_[q][2] = p;
      p += (TDIM - 1) * n_[q];
    }
    wgt_[q] = p;
    for (int i = 0; i < n_[q]; ++i) *p++ = real(name("wgt", q, i));
    if (unfitted[q]) {
      nrm_[q] = p;
      for (int i = 0; i < TDIM * n_[q]; ++i) *p++ = real(name("nrm", q, i));
    }
  }
  sx_assert((char *)p <= (char *)w + sizeof w, "harness: the data fit");
#if FAULTS
  failing = sx_choice("fault", 0, 3);
#endif
  KERNEL(A, w, cst, geo, ent, perm, nullptr);
#if FAULTS
  if (events > failing) {
    for (int i = 0; i < NA; ++i) same(A[i], E[i], "nothing is added when a table cannot be computed");
    sx_reach("fault");
    return;
  }
#endif
  {
    const Scalar *c = cst;
    const Real *coordinate_dofs = geo;
    const int *entity_local_index = ent;
    (void)entity_local_index;
    (void)c;
    (void)coordinate_dofs;
    REFERENCE
  }
  for (int i = 0; i < NA; ++i) same(A[i], E[i], "the contributions are those of the custom quadratures");
  sx_reach("custom");
}
}
