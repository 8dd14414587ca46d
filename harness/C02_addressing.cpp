// @bounds ranks 1..4, dimensions 1..4 (ranks 1-3) / 1..2 (rank 4); indices are arbitrary 32-bit integers; element values symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements) with every index, and writes through every index; reshapes between 13 pairs of shapes that share part of their dimensions
// @outside unchecked operator[] beyond the element count (documented as unchecked)
#include "repo.hpp"

static void addressing(int r, const Dims& d) {
  auto t = symTensor<float>(d, "v"); std::vector<float> v = values(t); Dims ix(r); bool in = true; for (int i = 0; i < r; ++i) ix[i] = sym_i32("ix", INT32_MIN, INT32_MAX);
  for (int i = 0; i < r; ++i) if (ix[i] < 0 || ix[i] >= d[i]) { in = false; break; }
  const Tensor<float>& ct = t;
  if (!in) { sym_assert(rejected([&] { ct.at(ix); }), "an out-of-range index is rejected (const at)"); sym_assert(rejected([&] { t.at(ix); }), "an out-of-range index is rejected (at)"); sym_assert(rejected([&] { computeFlatIndex(t.getShape(), ix); }), "an out-of-range index is rejected (computeFlatIndex)"); return; }
  size_t flat = 0; for (int i = 0; i < r; ++i) flat = flat * d[i] + (size_t)ix[i];
  sym_assert(computeFlatIndex(t.getShape(), ix) == flat, "row-major flat index"); check_eq(ct.at(ix), v[flat], "at reads the addressed element"); check_eq(ct[flat], v[flat], "operator[] reads the addressed element");
  float w = sym_f32("w", -4, 4); t.at(ix) = w; for (size_t i = 0; i < v.size(); ++i) check_eq(t[i], i == flat ? w : v[i], "writing through at changes exactly one element");
}
ENTRY(qr_at_small) { int r = sym_pick("rank", 1, 2); addressing(r, pickDims(r, 1, 4)); }
ENTRY(qr_at_3) { addressing(3, pickDims(3, 1, 2)); }
ENTRY(qr_at_wide) { int k = sym_pick("shape", 0, 3); Dims s[] = {{2, 3, 4}, {4, 1, 3}, {2, 3, 2, 2}, {17}}; addressing((int)s[k].size(), s[k]); }
ENTRY(tr_at_4) { addressing(4, pickDims(4, 1, 2)); }
// flat index arithmetic for arbitrary dimensions
ENTRY(qr_flat_symbolic) {
  int r = sym_pick("rank", 1, 3); Dims d(r), ix(r); for (int i = 0; i < r; ++i) { d[i] = sym_i32("d", 1, 20000); ix[i] = sym_i32("ix", -2, 20001); } Shape s{std::vector<int>(d)}; bool in = true; for (int i = 0; i < r; ++i) if (ix[i] < 0 || ix[i] >= d[i]) { in = false; break; }
  bool rej = false; size_t f = 0; try { f = computeFlatIndex(s, ix); } catch (const std::exception&) { rej = true; }
  sym_assert(rej == !in, "computeFlatIndex rejects exactly the out-of-range indices"); if (in) { size_t e = (size_t)ix[r - 1], st = 1; for (int i = r - 1; i > 0; --i) { st *= (size_t)d[i]; e = (size_t)ix[i - 1] * st + e; } sym_assert(f == e, "flat index formula"); }
}
ENTRY(qr_wrong_rank) { int r = sym_pick("rank", 1, 3), k = sym_pick("given", 0, 4); sym_assume(k != r); Dims d(r, 2); Tensor<float> t{Shape(d)}; Dims ix(k, 0); sym_assert(rejected([&] { t.at(ix); }), "an index list of the wrong length is rejected"); const Tensor<float>& c = t; sym_assert(rejected([&] { c.at(ix); }), "an index list of the wrong length is rejected (const)"); }
// addressing after a reshape uses the new strides
ENTRY(qr_at_after_reshape) { auto t = symTensor<float>({2, 6}, "v"); auto v = values(t); t.reshape(Dims{3, 4}); int i = sym_i32("i", -1, 3), j = sym_i32("j", -1, 4); bool in = i >= 0 && i < 3 && j >= 0 && j < 4; bool rej = false; try { float x = t.at({i, j}); check_eq(x, v[i * 4 + j], "element after reshape"); } catch (const std::exception&) { rej = true; } sym_assert(rej == !in, "bounds after reshape"); }
// every element of every catalogue shape: tensor, const tensor, raw data, iteration and flat indexing agree
ENTRY(qr_catalogue) { const Dims& d = pickShape(); auto t = symTensor<float>(d, "v"); auto v = values(t); const Tensor<float>& c = t; size_t k = 0; for (auto x : c.getData()) { check_eq(x, v[k], "iteration order"); ++k; } sym_assert(k == v.size(), "iteration covers every element"); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); sym_assert(computeFlatIndex(t.getShape(), ix) == f, "flat index"); check_eq(c.at(ix), v[f], "at"); check_eq(c[f], v[f], "flat indexing"); check_eq(t.getData().at(ix), v[f], "data at"); } }
// just outside each dimension, everything else anywhere inside
ENTRY(qr_edges) { const Dims& d = pickShape(65, 2, 6); auto t = symTensor<float>(d, "v"); auto v = values(t); int r = (int)d.size(), k = sym_pick("dim", 0, 5), side = sym_pick("side", 0, 2); if (k >= r) return; Dims ix(r, 0); ix[k] = side == 0 ? -1 : side == 1 ? d[k] : d[k] + 1; const Tensor<float>& c = t; sym_assert(rejected([&] { c.at(ix); }) && rejected([&] { t.at(ix); }), "an index just outside one dimension is rejected"); for (int i = 0; i < r; ++i) if (i != k) ix[i] = d[i] - 1; sym_assert(rejected([&] { c.at(ix); }) && rejected([&] { t.at(ix); }), "an index just outside one dimension is rejected"); checkTensor(t, d, v, "nothing changed"); }
// writes through at, one after the other, reach every slot once; also after reshape, copy and assignment
ENTRY(qr_write_all) { const Dims& d = pickShape(36); Tensor<float> t{Shape({1})}; int how = sym_pick("how", 0, 2); int n = prodOf(d); if (how == 0) t = Tensor<float>(Shape(d)); else if (how == 1) { Tensor<float> s{Shape({n})}; s.reshape(d); t = s; } else { Tensor<float> s{Shape(d)}; Tensor<float> u(std::move(s)); t = std::move(u); } std::vector<float> w(n); for (int f = n - 1; f >= 0; --f) { w[f] = sym_f32("w", -4, 4); t.at(unflatten(f, d)) = w[f]; } checkTensor(t, d, w, "each write reaches its own slot"); }
ENTRY(qr_double_at) { const Dims& d = pickShape(20); auto t = symTensor<double>(d, "v"); auto v = values(t); for (size_t f = 0; f < v.size(); ++f) check_eq(t.at(unflatten((int)f, d)), v[f], "at (double)"); }
// every index after a reshape between shapes that share parts of their dimensions, also back and forth
ENTRY(qr_reshape_pairs) { static const Dims P[][2] = {{{2, 3, 2}, {3, 2, 2}}, {{3, 2, 2}, {2, 3, 2}}, {{2, 6}, {4, 3}}, {{2, 3, 4}, {2, 4, 3}}, {{4, 3}, {3, 4}}, {{2, 2, 3, 2}, {3, 2, 2, 2}}, {{6, 1, 2}, {3, 2, 2}}, {{1, 4, 2}, {4, 1, 2}}, {{2, 1, 4}, {1, 2, 4}}, {{12}, {2, 3, 2}}, {{2, 3, 2}, {12}}, {{2, 3, 2}, {2, 6}}, {{2, 2, 2, 1, 3}, {2, 2, 1, 2, 3}}};
  int k = sym_pick("pair", 0, 12); Dims d = P[k][1]; auto t = symTensor<float>(P[k][0], "v"); auto v = values(t); int how = sym_pick("how", 0, 2); if (how == 0) t.reshape(d); else if (how == 1) t.reshape(Shape(d)); else { t.reshape(d); t.reshape(P[k][0]); d = P[k][0]; }
  int n = prodOf(d); for (int f = 0; f < n; ++f) check_eq(t.at(unflatten(f, d)), v[f], "the element at each index after a reshape"); float w = sym_f32("w", -4, 4); int f = sym_pick("at", 0, n - 1); t.at(unflatten(f, d)) = w; v[f] = w; for (int i = 0; i < n; ++i) check_eq(t[i], v[i], "a write after a reshape reaches its own slot only"); }
