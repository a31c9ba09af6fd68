// Harness API.  Under sxe these calls are intercepted; natively (replay) they are
// implemented by sx_native.cpp, which reads the model's values.
#pragma once
#include <cstdint>
extern "C" {
double sx_real(const char *name);
std::int64_t sx_i64(const char *name);
std::int32_t sx_i32(const char *name);
std::uint8_t sx_u8(const char *name);
int sx_choice(const char *name, int lo, int hi);
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_assert_eq(double a, double b, const char *msg);
void sx_assert_le(double a, double b, const char *msg);
void sx_reach(const char *name);
int sx_symbolic(void);
void sx_allow_div0(int on);
double sx_diff(double f, double x);
//! Nonzero if the two values are provably equal on the path (natively: equal up to rounding).
int sx_same(double a, double b);
double sx_fma(double a, double b, double c);//!< a*b+c of constants, in double precision
void sx_cut(void);
void sx_main(void);
}
