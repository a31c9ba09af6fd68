// Stand-in for algoim/xarray.hpp: a non-owning row-major view (last axis fastest).
#ifndef ALGOIM_XARRAY_HPP
#define ALGOIM_XARRAY_HPP
#include "uvector.hpp"
#include <cassert>
namespace algoim {
template<typename T, int N> class xarray
{
  T *data_;
  uvector<int, N> ext_;

public:
  xarray(T *data, const uvector<int, N> &ext) : data_(data), ext_(ext) {}
  xarray(const xarray &) = default;
  xarray &operator=(const xarray &x)
  {
    // as in algoim: assignment copies the elements, not the view
    assert(size() == x.size());
    for (int i = 0; i < size(); ++i) data_[i] = x.data_[i];
    return *this;
  }
  const T *data() const { return data_; }
  T *data() { return data_; }
  const T &operator[](int i) const { return data_[i]; }
  T &operator[](int i) { return data_[i]; }
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int d) const { return ext_(d); }
  int size() const
  {
    int s = 1;
    for (int d = 0; d < N; ++d) s *= ext_(d);
    return s;
  }
  int furl(const uvector<int, N> &i) const
  {
    int f = i(0);
    for (int d = 1; d < N; ++d) f = f * ext_(d) + i(d);
    return f;
  }
  const T &m(const uvector<int, N> &i) const { return data_[furl(i)]; }
  T &m(const uvector<int, N> &i) { return data_[furl(i)]; }
};
}
#endif
