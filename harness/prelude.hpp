// Force-included before everything: the standard headers the repository relies on transitively (the repository's own
// build passes the same list) and the stubs for the two random distributions the repository draws from.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "sym.hpp"
inline double rng_small(std::mt19937& g) { return (double)((int)(g() >> 26) - 32) / 16.0; }  // [-2, 1.9375], dyadic
namespace std {
template <> inline float generate_canonical<float, 24, std::mt19937>(std::mt19937& g) { float v; if (rng_symbolic) { v = sym_f32("canonical", 0, 1); sym_assume(v < 1); } else v = (float)((double)(g() >> 26) / 64.0); if (rng_draws < 8192) rng_log[rng_draws] = v; ++rng_draws; if (rng_uniforms < 8192) rng_uniform_log[rng_uniforms] = v; ++rng_uniforms; return v; }
template <> inline double generate_canonical<double, 53, std::mt19937>(std::mt19937& g) { double v; if (rng_symbolic) { v = sym_f64("canonical", 0, 1); sym_assume(v < 1); } else v = (double)(g() >> 26) / 64.0; if (rng_draws < 8192) rng_log[rng_draws] = v; ++rng_draws; if (rng_uniforms < 8192) rng_uniform_log[rng_uniforms] = v; ++rng_uniforms; return v; }
// Like libstdc++'s polar method, a distribution object produces its values in pairs and keeps the second for its next call.
template <> template <> inline float normal_distribution<float>::operator()<std::mt19937>(std::mt19937& g, const param_type& p) { ++rng_draws; float z; if (_M_saved_available) { _M_saved_available = false; z = _M_saved; } else { z = rng_symbolic ? sym_f32("normal", -8, 8) : (float)rng_small(g); _M_saved = rng_symbolic ? sym_f32("normal", -8, 8) : (float)rng_small(g); _M_saved_available = true; } if (rng_normals < 8192) rng_normal_log[rng_normals] = z; ++rng_normals; return z * p.stddev() + p.mean(); }
template <> template <> inline double normal_distribution<double>::operator()<std::mt19937>(std::mt19937& g, const param_type& p) { ++rng_draws; double z; if (_M_saved_available) { _M_saved_available = false; z = _M_saved; } else { z = rng_symbolic ? sym_f64("normal", -8, 8) : rng_small(g); _M_saved = rng_symbolic ? sym_f64("normal", -8, 8) : rng_small(g); _M_saved_available = true; } if (rng_normals < 8192) rng_normal_log[rng_normals] = z; ++rng_normals; return z * p.stddev() + p.mean(); }
}
