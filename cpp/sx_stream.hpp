// Files recorded in memory: text character by character, numbers as such (they may be symbolic).
// To be included before the sources that write them.
#ifndef SX_STREAM_HPP
#define SX_STREAM_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <vector>
extern "C" void sx_unknown_stream_operation();// not defined: nothing is said of what uses it
namespace sxs {
struct Item
{
  int kind;// 0 character, 1 integer, 2 real
  char c;
  std::int64_t i;
  double r;
  long precision;
};
struct Contents
{
  std::string name;
  std::vector<Item> items;
  int open = 0, closed = 0;
};
inline std::vector<Contents *> &files()
{
  static std::vector<Contents *> f;
  return f;
}
inline Contents *file(const char *name)
{
  Contents *r = nullptr;
  for (auto *f : files())
    if (f->name == name) r = f;
  return r;
}
class Stream
{
public:
  Stream() = default;
  template<class N> explicit Stream(const N &name) { open(name); }
  template<class N, class M> Stream(const N &name, M) { open(name); }
  Stream(const Stream &) = delete;
  Stream(Stream &&o) : f(o.f), prec(o.prec), fix(o.fix) { o.f = nullptr; }
  ~Stream() { close(); }
  void open(const char *name)
  {
    f = new Contents;
    f->name = name;
    f->open = 1;
    files().push_back(f);
  }
  void open(const std::string &name) { open(name.c_str()); }
  template<class N, class M> void open(const N &name, M) { open(name); }
  void close()
  {
    if (f) f->closed = 1;
    f = nullptr;
  }
  bool is_open() const { return f != nullptr; }
  explicit operator bool() const { return f != nullptr; }
  bool operator!() const { return f == nullptr; }
  bool good() const { return f != nullptr; }
  bool fail() const { return f == nullptr; }
  bool bad() const { return false; }
  Stream &flush() { return *this; }
  long precision() const { return prec; }
  long precision(long p)
  {
    const long o = prec;
    prec = p;
    return o;
  }
  template<class T> void exceptions(T) {}
  Stream &put(char c)
  {
    add(Item{ 0, c, 0, 0.0, 0 });
    return *this;
  }
  Stream &write(const char *s, long n)
  {
    for (long i = 0; i < n; ++i) put(s[i]);
    return *this;
  }
  template<class T> Stream &operator<<(const T &v)
  {
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, char>)
      put(v);
    else if constexpr (std::is_same_v<D, bool>)
      put(v ? '1' : '0');
    else if constexpr (std::is_integral_v<D>)
      add(Item{ 1, 0, static_cast<std::int64_t>(v), 0.0, 0 });
    else if constexpr (std::is_same_v<D, double>)
      add(Item{ 2, 0, 0, v, fix ? -1 : prec });
    else if constexpr (std::is_same_v<D, decltype(std::setprecision(1))>)
      prec = v._M_n;
    else if constexpr (std::is_convertible_v<const T &, std::string_view>) {
      const std::string_view s(v);
      write(s.data(), static_cast<long>(s.size()));
    } else
      sx_unknown_stream_operation();
    return *this;
  }
  Stream &operator<<(std::ostream &(*m)(std::ostream &))
  {
    if (m == static_cast<std::ostream &(*)(std::ostream &)>(std::endl))
      put('\n');
    else if (m != static_cast<std::ostream &(*)(std::ostream &)>(std::flush))
      sx_unknown_stream_operation();
    return *this;
  }
  Stream &operator<<(std::ios_base &(*m)(std::ios_base &))
  {
    if (m == std::fixed)
      fix = true;
    else if (m == std::scientific || m == std::defaultfloat)
      fix = false;// one digit more, or the same
    else
      sx_unknown_stream_operation();
    return *this;
  }

private:
  void add(const Item &i)
  {
    if (f) f->items.push_back(i);
  }
  Contents *f = nullptr;
  long prec = 6;
  bool fix = false;
};
}// namespace sxs
namespace std {
using sx_ofstream = ::sxs::Stream;
}
#define ofstream sx_ofstream
#define ostream sx_ofstream
#endif
