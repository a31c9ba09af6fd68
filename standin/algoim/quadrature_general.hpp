// Stand-in for algoim/quadrature_general.hpp: the quadratures of implicitly defined
// regions are supplied by an oracle, so that checks can consider every possible result.
#ifndef ALGOIM_QUADRATURE_GENERAL_HPP
#define ALGOIM_QUADRATURE_GENERAL_HPP
#include <algoim/hyperrectangle.hpp>
#include <algoim/interval.hpp>
#include <algoim/uvector.hpp>
#include <array>
#include <vector>
namespace algoim {
template<int N> struct QuadratureRule
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    Node(const uvector<real, N> &x_, real w_) : x(x_), w(w_) {}
  };
  std::vector<Node> nodes;
  void evalIntegrand(const uvector<real, N> &x, real w) { nodes.push_back(Node(x, w)); }
  real sumWeights() const
  {
    real s = 0.0;
    for (const auto &n : nodes) s += n.w;
    return s;
  }
};
//! What the real library would compute: nodes in the negative part of the box (dir == -1), of its facet
//! (0 <= dir < N), or in the zero level set within the box (dir == N).
template<int N> struct GeneralOracle
{
  virtual ~GeneralOracle() = default;
  virtual void quad(const HyperRectangle<real, N> &box, int dir, int side, int p, QuadratureRule<N> &rule) = 0;
};
template<int N> inline GeneralOracle<N> *&generalOracle()
{
  static GeneralOracle<N> *o = nullptr;
  return o;
}
template<int N, typename F>
QuadratureRule<N> quadGen(const F &, const HyperRectangle<real, N> &box, int dir, int side, int p)
{
  QuadratureRule<N> rule;
  generalOracle<N>()->quad(box, dir, side, p, rule);
  return rule;
}
//! Restriction to a side of the box in some directions, and sign of the function there.
template<int N> struct PsiCode
{
  uvector<int, N> side_;
  int sign_;
  PsiCode() : side_(0), sign_(0) {}
  PsiCode(const uvector<int, N> &s, int sgn) : side_(s), sign_(sgn) {}
  PsiCode(const PsiCode &other, int dir, int s, int sgn) : side_(other.side_), sign_(sgn) { side_(dir) = s; }
  int side(int dir) const { return side_(dir); }
  int sign() const { return sign_; }
};
//! Roots of the function along a direction, from a point (whose coordinate in that direction is not used), within an interval.
template<int N> struct RootOracle
{
  virtual ~RootOracle() = default;
  virtual void roots(const uvector<real, N> &x, int dir, real x0, real x1, std::vector<real> &r) = 0;
};
template<int N> inline RootOracle<N> *&rootOracle()
{
  static RootOracle<N> *o = nullptr;
  return o;
}
namespace detail {
  template<typename F, int N>
  void rootFind(const F &, const uvector<real, N> &x, int dir, real x0, real x1, std::vector<real> &roots, bool)
  {
    rootOracle<N>()->roots(x, dir, x0, x1, roots);
  }
  //! Signs required below and above the height function of a function which must have a sign (or be zero, if S).
  template<bool S> void determineSigns(bool positive_above, int sign, int &bottom, int &top)
  {
    if (S) {
      bottom = positive_above ? -1 : 1;
      top = -bottom;
    } else if (sign == 1) {
      bottom = positive_above ? 0 : 1;
      top = positive_above ? 1 : 0;
    } else if (sign == -1) {
      bottom = positive_above ? -1 : 0;
      top = positive_above ? 0 : -1;
    } else {
      bottom = top = 0;
    }
  }
}// namespace detail
template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  ImplicitIntegral(const Phi &,
    F &f,
    const uvector<bool, N> &free,
    const std::array<PsiCode<N>, (1u << (N - 1))> &psi,
    int psiCount,
    const HyperRectangle<real, N> &box,
    int p)
  {
    assert(psiCount == 1);
    assert(psi[0].sign() == -1);// the negative part
    static_cast<void>(psiCount);
    int nfree = 0, dir = S ? N : -1;
    for (int d = 0; d < N; ++d) {
      if (free(d))
        ++nfree;
      else
        dir = d;
    }
    assert(nfree == M);
    static_cast<void>(nfree);
    QuadratureRule<N> rule;
    generalOracle<N>()->quad(box, dir, M == N ? 0 : psi[0].side(dir), p, rule);
    for (const auto &n : rule.nodes) f.evalIntegrand(n.x, n.w);
  }
};
}// namespace algoim
#endif
