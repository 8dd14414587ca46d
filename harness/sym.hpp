// Interface between a harness and whoever runs it: the symbolic executor (engine/symx) or the native replayer
// (native/native.cpp).  A harness is ordinary C++ that calls the repository's real code.
#pragma once
#include <vector>
#include <string>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <utility>
extern "C" {
float sym_f32(const char* name, double lo, double hi);
double sym_f64(const char* name, double lo, double hi);
float sym_f32_any(const char* name);
double sym_f64_any(const char* name);
int sym_i32(const char* name, int lo, int hi);
long sym_i64(const char* name, long lo, long hi);
unsigned char sym_u8(const char* name, int lo, int hi);
int sym_pick(const char* name, int lo, int hi);      // exhaustive case split
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_check_eq_f32(float a, float b, const char* msg);
void sym_check_eq_f64(double a, double b, const char* msg);
float sym_grad_f32(float y, float x, const char* name);   // d y / d x of the executed path, x must be an input
double sym_grad_f64(double y, double x, const char* name);
void sym_observe(const char* name, double v);
void sym_cover(const char* name);
bool sym_is_symbolic();
bool sym_native();
void sym_precise();           // from here on: double inputs only, and rounding a double to float is an error of the code under test
[[noreturn]] void sym_fail(const char* msg);
}
template <class T> struct SymT;
template <> struct SymT<float> { static float mk(const char* n, double lo, double hi) { return sym_f32(n, lo, hi); } static float any(const char* n) { return sym_f32_any(n); } static void eq(float a, float b, const char* m) { sym_check_eq_f32(a, b, m); } static float grad(float y, float x, const char* n) { return sym_grad_f32(y, x, n); } };
template <> struct SymT<double> { static double mk(const char* n, double lo, double hi) { return sym_f64(n, lo, hi); } static double any(const char* n) { return sym_f64_any(n); } static void eq(double a, double b, const char* m) { sym_check_eq_f64(a, b, m); } static double grad(double y, double x, const char* n) { return sym_grad_f64(y, x, n); } };
inline void check_eq(float a, float b, const char* m) { sym_check_eq_f32(a, b, m); }
inline void check_eq(double a, double b, const char* m) { sym_check_eq_f64(a, b, m); }
// true when f() is rejected with an exception (of any standard type)
template <class F> bool rejected(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
#define ENTRY(n) extern "C" void n()
// Harness switch for the random-number stubs in prelude.hpp.
extern int rng_symbolic;       // 0: deterministic values derived from the real generator's state, 1: arbitrary values
extern int rng_draws;
extern double rng_log[8192];    // the first 8192 uniform draws
extern int rng_normals, rng_uniforms;
extern double rng_uniform_log[8192];  // the same, indexed by uniform draws only
extern double rng_normal_log[8192];   // the first 8192 standard normal draws
