// Stand-in for algoim/uvector.hpp: the third-party dependency is absent from this
// sandbox.  Only the public interface that QUGaR uses, written from algoim's
// documented behaviour (a small fixed-size vector with elementwise operators).
#ifndef ALGOIM_UVECTOR_HPP
#define ALGOIM_UVECTOR_HPP
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <type_traits>
#include <utility>

namespace algoim {
using real = double;

template<typename T, int N> struct uvector
{
  T data_[N > 0 ? N : 1];

  uvector() : data_{} {}
  template<typename U>
    requires std::is_convertible_v<U, T>
  uvector(const U &value)
  {
    for (int i = 0; i < N; ++i) data_[i] = T(value);
  }
  template<typename U0, typename U1, typename... U>
    requires(sizeof...(U) + 2 == N && std::is_convertible_v<U0, T> && std::is_convertible_v<U1, T>
             && (std::is_convertible_v<U, T> && ...))
  uvector(const U0 &first, const U1 &second, const U &...rest) : data_{ T(first), T(second), T(rest)... }
  {}
  template<typename U>
    requires(!std::is_same_v<U, T> && std::is_convertible_v<U, T>)
  uvector(const uvector<U, N> &other)
  {
    for (int i = 0; i < N; ++i) data_[i] = T(other(i));
  }
  uvector(const uvector &) = default;
  uvector &operator=(const uvector &) = default;

  const T &operator()(int i) const { assert(0 <= i && i < N); return data_[i]; }
  T &operator()(int i) { assert(0 <= i && i < N); return data_[i]; }
  const T *data() const { return data_; }
  T *data() { return data_; }

#define ALGOIM_OPA(op)                                         \
  template<typename U> uvector &operator op(const uvector<U, N> &o) \
  {                                                            \
    for (int i = 0; i < N; ++i) data_[i] op o(i);              \
    return *this;                                              \
  }                                                            \
  template<typename U>                                         \
    requires std::is_convertible_v<U, T>                       \
  uvector &operator op(const U &s)                             \
  {                                                            \
    for (int i = 0; i < N; ++i) data_[i] op s;                 \
    return *this;                                              \
  }
  ALGOIM_OPA(+=)
  ALGOIM_OPA(-=)
  ALGOIM_OPA(*=)
  ALGOIM_OPA(/=)
#undef ALGOIM_OPA
};

namespace detail_uv {
  template<typename S> struct is_uvector : std::false_type {};
  template<typename T, int N> struct is_uvector<uvector<T, N>> : std::true_type {};
  template<typename S> concept scalar = !is_uvector<std::remove_cvref_t<S>>::value;
}

#define ALGOIM_OPB(op)                                                                                 \
  template<typename A, typename B, int N> auto operator op(const uvector<A, N> &a, const uvector<B, N> &b) \
    ->uvector<std::decay_t<decltype(std::declval<A>() op std::declval<B>())>, N>                       \
  {                                                                                                    \
    uvector<std::decay_t<decltype(std::declval<A>() op std::declval<B>())>, N> r;                      \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b(i);                                                   \
    return r;                                                                                          \
  }                                                                                                    \
  template<typename A, detail_uv::scalar B, int N> auto operator op(const uvector<A, N> &a, const B &b)    \
    ->uvector<std::decay_t<decltype(std::declval<A>() op std::declval<B>())>, N>                       \
  {                                                                                                    \
    uvector<std::decay_t<decltype(std::declval<A>() op std::declval<B>())>, N> r;                      \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b;                                                      \
    return r;                                                                                          \
  }                                                                                                    \
  template<detail_uv::scalar A, typename B, int N> auto operator op(const A &a, const uvector<B, N> &b)    \
    ->uvector<std::decay_t<decltype(std::declval<A>() op std::declval<B>())>, N>                       \
  {                                                                                                    \
    uvector<std::decay_t<decltype(std::declval<A>() op std::declval<B>())>, N> r;                      \
    for (int i = 0; i < N; ++i) r(i) = a op b(i);                                                      \
    return r;                                                                                          \
  }
ALGOIM_OPB(+)
ALGOIM_OPB(-)
ALGOIM_OPB(*)
ALGOIM_OPB(/)
ALGOIM_OPB(==)
ALGOIM_OPB(!=)
ALGOIM_OPB(<)
ALGOIM_OPB(<=)
ALGOIM_OPB(>)
ALGOIM_OPB(>=)
ALGOIM_OPB(&&)
ALGOIM_OPB(||)
#undef ALGOIM_OPB

template<typename T, int N> uvector<T, N> operator-(const uvector<T, N> &a)
{
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = -a(i);
  return r;
}

template<typename A, typename B, int N> auto dot(const uvector<A, N> &a, const uvector<B, N> &b)
{
  auto r = a(0) * b(0);
  for (int i = 1; i < N; ++i) r = r + a(i) * b(i);
  return r;
}
template<typename T, int N> T sqrnorm(const uvector<T, N> &a)
{
  T r = a(0) * a(0);
  for (int i = 1; i < N; ++i) r = r + a(i) * a(i);
  return r;
}
template<typename T, int N> T norm(const uvector<T, N> &a)
{
  using std::sqrt;
  return sqrt(sqrnorm(a));
}
template<typename T, int N> T prod(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) r = r * a(i);
  return r;
}
template<typename T, int N> T sum(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) r = r + a(i);
  return r;
}
template<typename T, int N> T max(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) if (a(i) > r) r = a(i);
  return r;
}
template<typename T, int N> T min(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) if (a(i) < r) r = a(i);
  return r;
}
template<typename T, int N> int argmax(const uvector<T, N> &a)
{
  int r = 0;
  for (int i = 1; i < N; ++i) if (a(i) > a(r)) r = i;
  return r;
}
template<typename T, int N> int argmin(const uvector<T, N> &a)
{
  int r = 0;
  for (int i = 1; i < N; ++i) if (a(i) < a(r)) r = i;
  return r;
}
template<typename T, int N> bool all(const uvector<T, N> &a)
{
  for (int i = 0; i < N; ++i) if (!a(i)) return false;
  return true;
}
template<typename T, int N> bool any(const uvector<T, N> &a)
{
  for (int i = 0; i < N; ++i) if (a(i)) return true;
  return false;
}
template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &a)
{
  using std::abs;
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = abs(a(i));
  return r;
}
template<typename T, int N> uvector<T, N> set_component(const uvector<T, N> &u, int index, const T &value)
{
  uvector<T, N> r(u);
  r(index) = value;
  return r;
}
template<typename T, int N> uvector<T, N> inc_component(const uvector<T, N> &u, int index, const T &value)
{
  uvector<T, N> r(u);
  r(index) += value;
  return r;
}
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &u, int index)
{
  assert(0 <= index && index < N);
  uvector<T, N - 1> r;
  for (int i = 0; i < N - 1; ++i) r(i) = u(i < index ? i : i + 1);
  return r;
}
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &u, int index, const T &value)
{
  assert(0 <= index && index <= N);
  uvector<T, N + 1> r;
  for (int i = 0; i < N + 1; ++i) r(i) = i < index ? u(i) : i == index ? value : u(i - 1);
  return r;
}
}// namespace algoim
#endif
