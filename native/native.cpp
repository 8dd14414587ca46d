// Native side of the harness interface: runs one harness entry against the real compiled code on the concrete values
// of a solver model.  Exit 0: property held on these values; 7: an assertion of the harness failed; 9: the values do not
// satisfy the harness's assumptions (or are incomplete); anything else: crash / sanitizer report.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
#include <new>
#include "../harness/sym.hpp"
int rng_symbolic = 0, rng_draws = 0, rng_normals = 0, rng_uniforms = 0; double rng_log[8192], rng_normal_log[8192], rng_uniform_log[8192];
struct Val { std::string ty, v; };
static bool failed = false;
static std::map<std::string, Val> model; static std::map<std::string, int> cnt; static bool ieee = false; static double tol = 1e-3; static bool precise = false; static FILE* obs = nullptr; static int nobs = 0;
static std::string key(const char* n) { std::string s(n); return s + "#" + std::to_string(cnt[s]++); }
static const Val* look(const char* n) { auto it = model.find(key(n)); if (it == model.end()) { fprintf(stderr, "MISSING-INPUT %s\n", n); fflush(nullptr); _exit(failed ? 7 : 9); } return &it->second; }
template <class U, class F> static F bits(const std::string& s) { U u = (U)strtoull(s.c_str(), nullptr, 16); F f; memcpy(&f, &u, sizeof f); return f; }
extern "C" {
float sym_f32(const char* n, double lo, double hi) { float f = bits<uint32_t, float>(look(n)->v); if (f < lo) f = lo; if (f > hi) f = hi; return f; }
double sym_f64(const char* n, double lo, double hi) { double f = bits<uint64_t, double>(look(n)->v); if (precise) { double g = f * (1 + 2e-8), h = f * (1 - 2e-8); f = g >= lo && g <= hi ? g : h; /* not representable in single precision */ } if (f < lo) f = lo; if (f > hi) f = hi; return f; }
float sym_f32_any(const char* n) { return bits<uint32_t, float>(look(n)->v); }
double sym_f64_any(const char* n) { return bits<uint64_t, double>(look(n)->v); }
int sym_i32(const char* n, int, int) { return (int)strtoll(look(n)->v.c_str(), nullptr, 10); }
long sym_i64(const char* n, long, long) { return strtoll(look(n)->v.c_str(), nullptr, 10); }
unsigned char sym_u8(const char* n, int, int) { return (unsigned char)strtoull(look(n)->v.c_str(), nullptr, 10); }
int sym_pick(const char* n, int, int) { return (int)strtoll(look(n)->v.c_str(), nullptr, 10); }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "ASSUMPTION-FALSE\n"); fflush(nullptr); _exit(failed ? 7 : 9); } }
static void bad(const char* m) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); failed = true; }
void sym_assert(bool c, const char* m) { if (!c) { bad(m); fflush(nullptr); _exit(7); } }
static void observe(double v) { if (obs && nobs++ < 64) fprintf(obs, "%.17g\n", v); }
void sym_check_eq_f64(double a, double b, const char* m) { observe(a); bool ok; if (ieee) ok = (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); else ok = std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); if (!ok) { char buf[400]; snprintf(buf, sizeof buf, "%s: got %.9g, expected %.9g", m, a, b); bad(buf); } }
void sym_check_eq_f32(float a, float b, const char* m) { sym_check_eq_f64(a, b, m); }
double sym_grad_f64(double, double, const char* n) { if (precise) { fprintf(stderr, "gradients cannot be replayed precisely\n"); fflush(nullptr); _exit(failed ? 7 : 9); } auto it = model.find(key((std::string("grad:") + n).c_str())); if (it == model.end()) { std::string s(n); static std::map<std::string, int> c2; it = model.find(s + "#" + std::to_string(c2[s]++)); } if (it == model.end()) { fprintf(stderr, "MISSING-GRADIENT %s\n", n); fflush(nullptr); _exit(failed ? 7 : 9); } return bits<uint64_t, double>(it->second.v); }
float sym_grad_f32(float, float, const char* n) { return (float)sym_grad_f64(0, 0, n); }
void sym_observe(const char*, double v) { observe(v); }
void sym_cover(const char*) {}
bool sym_is_symbolic() { return false; }
bool sym_native() { return true; }
void sym_precise() { precise = true; tol = 1e-10; }
void sym_fail(const char* m) { bad(m); fflush(nullptr); _exit(7); }
}
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: replay ENTRY real|fp MODEL [OBS]\n"); return 2; }
  ieee = !strcmp(argv[2], "fp"); std::ifstream in(argv[3]); std::string line; if (!in) { fprintf(stderr, "cannot read the model\n"); return 2; }
  while (std::getline(in, line)) { std::istringstream is(line); std::string n, t, v; size_t p = line.find('#'); if (p == std::string::npos) continue; size_t q = line.find(' ', p); n = line.substr(0, q); std::istringstream r(line.substr(q)); r >> t >> v; model[t == "g" ? "grad:" + n : n] = Val{t, v}; }
  if (argc > 4) obs = fopen(argv[4], "w"); if (const char* t = getenv("SYM_TOL")) tol = atof(t);
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  try { f(); } catch (const std::exception& e) { std::string m = std::string("exception escapes the harness: ") + e.what(); bad(m.c_str()); fflush(nullptr); _exit(7); }
  if (obs) fclose(obs); fflush(nullptr); _exit(failed ? 7 : 0);
}
