// Stand-in for basix: elements that remember how they were created and tabulate values that
// identify the element, the entry and the point.  Creation is counted and may fail.
#pragma once
#include <array>
#include <cstddef>
#include <span>
#include <stdexcept>
#include <utility>
#include <vector>
namespace basix {
namespace element {
enum class family : int { custom = 0, P = 1, RT = 2, N1E = 3 };
enum class lagrange_variant : int { unset = 0, equispaced = 1, gll_warped = 2 };
enum class dpc_variant : int { unset = 0, simplex_equispaced = 1 };
}// namespace element
namespace cell {
enum class type : int { point = 0, interval = 1, triangle = 2, tetrahedron = 3, quadrilateral = 4, hexahedron = 5 };
}
inline int g_created[2] = { 0, 0 };
inline int tdim_of(int c)
{
  return c == 1 ? 1 : c == 2 || c == 4 ? 2 : 3;
}
template<typename T> class FiniteElement
{
public:
  std::array<int, 6> key{};
  std::size_t degree() const { return static_cast<std::size_t>(key[2]); }
  std::size_t dim() const { return degree() + 1; }
  std::size_t value_size() const { return key[0] == 2 ? 2 : 1; }
  std::array<std::size_t, 4> tabulate_shape(std::size_t nd, std::size_t n) const
  {
    std::size_t c = 1;
    int d = tdim_of(key[1]);
    for (int i = 1; i <= d; ++i) c = c * (nd + static_cast<std::size_t>(i)) / static_cast<std::size_t>(i);
    return { c, n, dim(), value_size() };
  }
  static double tag(const std::array<int, 6> &k) { return ((((k[0] * 7.0 + k[1]) * 7 + k[2]) * 7 + k[3]) * 7 + k[4]) * 7 + k[5]; }
  void tabulate(int nd, std::span<const T> x, std::array<std::size_t, 2> shape, std::span<T> basis) const
  {
    if (nd < 0) throw std::runtime_error("negative number of derivatives");
    if (shape[1] != static_cast<std::size_t>(tdim_of(key[1]))) throw std::runtime_error("wrong dimension of the points");
    if (x.size() != shape[0] * shape[1]) throw std::runtime_error("wrong number of coordinates");
    auto s = tabulate_shape(static_cast<std::size_t>(nd), shape[0]);
    if (basis.size() != s[0] * s[1] * s[2] * s[3]) throw std::runtime_error("wrong size of the table");
    std::size_t k = 0;
    for (std::size_t a = 0; a < s[0]; ++a)
      for (std::size_t p = 0; p < s[1]; ++p)
        for (std::size_t b = 0; b < s[2] * s[3]; ++b, ++k) basis[k] = static_cast<T>(1000.0 * tag(key) + static_cast<double>(k)) + x[p * shape[1] + (b % shape[1])];
  }
  std::pair<std::vector<T>, std::array<std::size_t, 4>> tabulate(int nd, std::span<const T> x, std::array<std::size_t, 2> shape) const
  {
    auto s = tabulate_shape(static_cast<std::size_t>(nd), shape[0]);
    std::vector<T> v(s[0] * s[1] * s[2] * s[3]);
    tabulate(nd, x, shape, std::span<T>(v));
    return { v, s };
  }
};
template<typename T>
FiniteElement<T> create_element(element::family f, cell::type c, int degree, element::lagrange_variant lv, element::dpc_variant dv, bool disc, std::vector<int> = {})
{
  ++g_created[sizeof(T) == 4];
  if (degree < 0) throw std::runtime_error("negative degree");
  if (degree > 40) throw degree;
  FiniteElement<T> e;
  e.key = { static_cast<int>(f), static_cast<int>(c), degree, static_cast<int>(lv), static_cast<int>(dv), disc ? 1 : 0 };
  return e;
}
}// namespace basix
