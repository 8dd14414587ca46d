// Linked into the bitcode: harness globals and models of the few libstdc++ functions that live in the shared library.
#include "prelude.hpp"
#include <unordered_map>
#include <map>
#include <list>
int rng_symbolic = 0, rng_draws = 0, rng_normals = 0, rng_uniforms = 0; double rng_log[8192], rng_normal_log[8192], rng_uniform_log[8192];
// Bucket-count policy of std::unordered_map (implementation is in libstdc++.so): grows to at least twice the buckets.
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  std::size_t b = n < 13 ? 13 : (n | 1); _M_next_resize = b; return b; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize || n_bkt <= 1) { std::size_t want = n_elt + n_ins; if (want < 2 * n_bkt) want = 2 * n_bkt; return {true, _M_next_bkt(want)}; }
  return {false, 0}; }
} }
// std::random_device: another value on every call; it reaches only generators, whose distributions are stubbed (seed comparisons see that two calls differ).
namespace std { void random_device::_M_init(const std::string&) {} void random_device::_M_fini() {} random_device::result_type random_device::_M_getval() { static unsigned n = 0; return 20240607u + 0x9e3779b9u * n++; } double random_device::_M_getentropy() const noexcept { return 32.0; } }
