// @bounds ranks 1..4, dimensions up to 4 (listed shapes) and all rank-1..3 shapes over {1,2,3}/{1,2}; the sliced dimension and index are arbitrary 32-bit integers; elements symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements), up to 33x33 / 2x515 elements; slices between writes; beyond that, tensors of up to 8200 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
#include "repo.hpp"
static void check(const Dims& d) {
  auto a = symTensor<float>(d, "a"); auto v = values(a); int r = (int)d.size(), dim = sym_i32("dim", INT32_MIN, INT32_MAX), ix = sym_i32("ix", INT32_MIN, INT32_MAX); bool ok = dim >= 0 && dim < r; int k = -1;
  if (ok) { for (int i = 0; i < r; ++i) if (dim == i) { k = i; break; } ok = ix >= 0 && ix < d[k]; } int j = -1; if (ok) for (int i = 0; i < d[k]; ++i) if (ix == i) { j = i; break; }
  if (!ok) { sym_assert(rejected([&] { a.slice(dim, ix); }), "a slice outside the tensor is rejected"); checkTensor(a, d, v, "operand unchanged"); return; }
  Tensor<float> s = a.slice(k, j); Dims rd = d; rd.erase(rd.begin() + k); Dims full = rd; if (rd.empty()) rd.push_back(1); int n = prodOf(rd); std::vector<float> e(n);
  for (int f = 0; f < n; ++f) { auto p = full.empty() ? std::vector<int>{} : unflatten(f, full); p.insert(p.begin() + k, j); e[f] = v[flatten(p, d)]; }
  checkDims(s, rd, "a slice drops the sliced dimension"); checkTensor(s, rd, e, "slice element"); checkTensor(a, d, v, "operand unchanged"); s[0] = 7; checkTensor(a, d, v, "a slice is a copy");
}
ENTRY(qr_small) { int r = sym_pick("rank", 1, 2); check(pickDims(r, 1, 3)); }
ENTRY(qr_3) { check(pickDims(3, 1, 2)); }
ENTRY(qr_wide) { static const Dims S[] = {{2, 3, 4}, {4, 1, 3}, {2, 3, 2, 2}, {3, 2, 1, 2}, {9}, {5, 7}}; check(S[sym_pick("shape", 0, 5)]); }
ENTRY(qr_double) { auto a = symTensor<double>({2, 3}, "a"); auto s = a.slice(1, 2); checkTensor(s, {2}, {a[2], a[5]}, "slice (double)"); }
// slicing twice commutes
ENTRY(qr_twice) { auto a = symTensor<float>({2, 3, 2}, "a"); int i = sym_pick("i", 0, 1), k = sym_pick("k", 0, 1); auto x = a.slice(0, i).slice(1, k), y = a.slice(2, k).slice(0, i); checkTensor(x, {3}, values(y), "slicing two dimensions commutes"); }
ENTRY(tr_4) { check(pickDims(4, 1, 2)); }
ENTRY(tr_3) { check(pickDims(3, 1, 4)); }
ENTRY(qr_catalogue) { check(pickShape()); }
ENTRY(qr_long) { static const Dims S[] = {{33, 33}, {2, 515}, {515, 2}, {3, 65, 5}}; const Dims& d = S[sym_pick("shape", 0, 3)]; auto a = symTensor<float>(d, "a"); auto v = values(a); int k = sym_pick("dim", 0, (int)d.size() - 1); for (int j : {0, d[k] / 2, d[k] - 1}) { Tensor<float> s = a.slice(k, j); Dims rd = d; rd.erase(rd.begin() + k); int n = prodOf(rd); std::vector<float> e(n); for (int f = 0; f < n; ++f) { auto p = unflatten(f, rd); p.insert(p.begin() + k, j); e[f] = v[flatten(p, d)]; } checkTensor(s, rd, e, "slice of a large tensor"); } checkTensor(a, d, v, "operand unchanged"); }
// slicing interleaved with writes and reshapes: always the current contents and shape
ENTRY(qr_history) { auto a = symTensor<float>({2, 3}, "a"); auto v = values(a); checkTensor(a.slice(0, 1), {3}, {v[3], v[4], v[5]}, "row"); float x = sym_f32("x", -4, 4); a[4] = x; v[4] = x; checkTensor(a.slice(0, 1), {3}, {v[3], x, v[5]}, "row after a write"); a.reshape({3, 2}); checkTensor(a.slice(0, 1), {2}, {v[2], v[3]}, "row after a reshape"); checkTensor(a.slice(1, 0), {3}, {v[0], v[2], x}, "column after a reshape"); a.reshape({6}); checkTensor(a.slice(0, 4), {1}, {x}, "element after a reshape"); auto b = symTensor<float>({4, 1}, "b"); a = b; checkTensor(a.slice(0, 3), {1}, {b[3]}, "slice after assignment"); sym_assert(rejected([&] { a.slice(1, 1); }), "outside after assignment"); checkTensor(a.slice(1, 0), {4}, values(b), "column after assignment"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{66, 65}, {2, 4100}}; const Dims& d = S[sym_pick("shape", 0, 1)]; auto a = symTensor<float>(d, "a"); auto v = values(a); int k = sym_pick("dim", 0, (int)d.size() - 1); for (int j : {0, d[k] / 2, d[k] - 1}) { Tensor<float> s = a.slice(k, j); Dims rd = d; rd.erase(rd.begin() + k); int n = prodOf(rd); std::vector<float> e(n); for (int f = 0; f < n; ++f) { auto p = unflatten(f, rd); p.insert(p.begin() + k, j); e[f] = v[flatten(p, d)]; } checkTensor(s, rd, e, "slice of a large tensor"); } checkTensor(a, d, v, "operand unchanged"); }
