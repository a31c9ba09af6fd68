// Stand-in for algoim/quadrature_multipoly.hpp: see quadrature_general.hpp.
#ifndef ALGOIM_QUADRATURE_MULTIPOLY_HPP
#define ALGOIM_QUADRATURE_MULTIPOLY_HPP
#include <algoim/quadrature_general.hpp>
#include <algoim/xarray.hpp>
namespace algoim {
enum QuadStrategy { AlwaysGL, AlwaysTS, AutoMixed };
//! Nodes over both parts of the unit box (with their weights), or over the zero level set.
template<int N> struct PolyOracle
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    uvector<real, N> wn;
  };
  virtual ~PolyOracle() = default;
  virtual void quad(const xarray<real, N> &poly, bool surface, int p, std::vector<Node> &nodes) = 0;
};
template<int N> inline PolyOracle<N> *&polyOracle()
{
  static PolyOracle<N> *o = nullptr;
  return o;
}
template<int N> struct ImplicitPolyQuadrature
{
  std::vector<real> data;
  uvector<int, N> ext;
  ImplicitPolyQuadrature(const xarray<real, N> &p) : data(p.data(), p.data() + p.size()), ext(p.ext()) {}
  template<typename F> void integrate(QuadStrategy, int p, const F &f)
  {
    std::vector<typename PolyOracle<N>::Node> nodes;
    polyOracle<N>()->quad(xarray<real, N>(data.data(), ext), false, p, nodes);
    for (const auto &n : nodes) f(n.x, n.w);
  }
  template<typename F> void integrate_surf(QuadStrategy, int p, const F &f)
  {
    std::vector<typename PolyOracle<N>::Node> nodes;
    polyOracle<N>()->quad(xarray<real, N>(data.data(), ext), true, p, nodes);
    for (const auto &n : nodes) f(n.x, n.w, n.wn);
  }
};
}// namespace algoim
#endif
