// Stand-in for algoim/hyperrectangle.hpp.
#ifndef ALGOIM_HYPERRECTANGLE_HPP
#define ALGOIM_HYPERRECTANGLE_HPP
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> struct HyperRectangle
{
  uvector<uvector<T, N>, 2> range;
  HyperRectangle(const uvector<T, N> &min, const uvector<T, N> &max)
  {
    range.data_[0] = min;
    range.data_[1] = max;
  }
  const uvector<T, N> &side(int s) const { return range(s); }
  uvector<T, N> &side(int s) { return range(s); }
  const uvector<T, N> &min() const { return range(0); }
  const uvector<T, N> &max() const { return range(1); }
  const T &min(int i) const { return range(0)(i); }
  const T &max(int i) const { return range(1)(i); }
  T &min(int i) { return range(0)(i); }
  T &max(int i) { return range(1)(i); }
  uvector<T, N> extent() const { return range(1) - range(0); }
  T extent(int i) const { return range(1)(i) - range(0)(i); }
  T midpoint(int i) const { return (range(0)(i) + range(1)(i)) * 0.5; }
  uvector<T, N> midpoint() const { return (range(0) + range(1)) * 0.5; }
};
}// namespace algoim
#endif
