// Native implementation of the harness API, used to replay solver models against the real code.
// Exit codes: 0 the run finished, 3 an assumption does not hold for these inputs, 10 an assertion failed.
#include "sx.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
static std::map<std::string, std::string> model;
static std::map<std::string, int> counts;
static unsigned long long rng = 0;
static double pert = 0;
static double rnd()
{
  rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
  return (double)((rng >> 33) & 0xfffff) / 1048576.0;
}
static std::string uniq(const char *n)
{
  int k = counts[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static const std::string *get(const char *n)
{
  auto it = model.find(uniq(n));
  return it == model.end() ? nullptr : &it->second;
}
extern "C" {
double sx_real(const char *name)
{
  const std::string *s = get(name);
  double v = 0;
  if (s) {
    // "decimal|rational"
    std::string t = *s;
    auto p = t.find('|');
    bool done = false;
    if (p != std::string::npos) {
      std::string r = t.substr(p + 1);
      // (- x) and (/ a b) forms are left to the decimal text
      auto sl = r.find('/');
      if (r.find('(') == std::string::npos && r.size() < 600) {
        if (sl == std::string::npos)
          v = (double)strtold(r.c_str(), nullptr);
        else
          v = (double)(strtold(r.substr(0, sl).c_str(), nullptr) / strtold(r.substr(sl + 1).c_str(), nullptr));
        done = std::isfinite(v);
      }
      if (!done) v = strtod(t.substr(0, p).c_str(), nullptr);
    } else
      v = strtod(t.c_str(), nullptr);
  }
  if (pert > 0) v = pert * 1.7 * (rnd() - 0.45) + (pert < 1 ? v : v * (rnd() < 0.5));
  if (getenv("SX_VERBOSE")) fprintf(stderr, "real %s = %.17g\n", name, v);
  return v;
}
static std::int64_t geti(const char *n)
{
  const std::string *s = get(n);
  std::int64_t v = s ? strtoll(s->c_str(), nullptr, 10) : 0;
  if (getenv("SX_VERBOSE")) fprintf(stderr, "int %s = %lld\n", n, (long long)v);
  return v;
}
std::int64_t sx_i64(const char *n) { return geti(n); }
std::int32_t sx_i32(const char *n) { return (std::int32_t)geti(n); }
std::uint8_t sx_u8(const char *n) { return (std::uint8_t)geti(n); }
int sx_choice(const char *n, int lo, int hi)
{
  int v = (int)geti(n);
  return v < lo ? lo : v > hi ? hi : v;
}
void sx_assume(bool c)
{
  if (!c) {
    fflush(stdout);
    _Exit(3);
  }
}
void sx_assert(bool c, const char *msg)
{
  if (!c) {
    printf("ASSERTION FAILED: %s\n", msg);
    fflush(stdout);
    _Exit(10);
  }
}
static double tolOf(double a, double b) { return 1.0e-7 * (1.0 + std::fabs(a) + std::fabs(b)); }
void sx_assert_eq(double a, double b, const char *msg)
{
  if (!(std::fabs(a - b) <= tolOf(a, b))) {
    printf("ASSERTION FAILED: %s (%.17g vs %.17g)\n", msg, a, b);
    fflush(stdout);
    _Exit(10);
  }
}
void sx_assert_le(double a, double b, const char *msg)
{
  if (!(a <= b + tolOf(a, b))) {
    printf("ASSERTION FAILED: %s (%.17g > %.17g)\n", msg, a, b);
    fflush(stdout);
    _Exit(10);
  }
}
void sx_reach(const char *name) { printf("REACHED: %s\n", name); }
int sx_symbolic(void) { return 0; }
void sx_allow_div0(int) {}
double sx_diff(double, double) { return 0; }
double sx_fma(double a, double b, double c) { return std::fma(a, b, c); }
int sx_same(double a, double b) { return std::fabs(a - b) <= tolOf(a, b) ? 1 : 0; }
void sx_cut(void)
{
  fflush(stdout);
  _Exit(0);
}
}
int main(int argc, char **argv)
{
  if (argc > 1) {
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
      auto p = line.find('=');
      if (p != std::string::npos) model[line.substr(0, p)] = line.substr(p + 1);
    }
  }
  if (argc > 2) {
    rng = strtoull(argv[2], nullptr, 10) * 7919 + 17;
    for (int i = 0; i < 5; ++i) rnd();
  }
  if (argc > 3) pert = atof(argv[3]);
  sx_main();
  printf("FINISHED\n");
  fflush(stdout);
  _Exit(0);
}
