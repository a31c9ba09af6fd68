// Stand-in for algoim/booluarray.hpp: masks without subdivisions.
#ifndef ALGOIM_BOOLUARRAY_HPP
#define ALGOIM_BOOLUARRAY_HPP
namespace algoim {
template<int N, int E> struct booluarray
{
  bool on;
  booluarray() : on(false) {}
  explicit booluarray(bool v) : on(v) {}
};
}// namespace algoim
#endif
