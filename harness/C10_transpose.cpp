// @bounds ranks 1..4, dimensions 1..3 (rank 3: 1..2..3, rank 4: 1..2) plus listed wider shapes; every pair of axes, axis arguments arbitrary 64-bit values; elements symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements), every reshape between catalogue shapes of up to 13 elements, up to 33x33 / 64x16 / 2x515; transposes between writes; beyond that, up to 66x65 / 2x2100 (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
#include "repo.hpp"
typedef AdvancedTensorOperations<float> A;
static void check(const Dims& d) {
  auto a = symTensor<float>(d, "a"); auto v = values(a); int r = (int)d.size(); size_t x = (size_t)sym_i64("x", INT64_MIN, INT64_MAX), y = (size_t)sym_i64("y", INT64_MIN, INT64_MAX); int p = -1, q = -1; for (int i = 0; i < r; ++i) if (x == (size_t)i) { p = i; break; } if (p >= 0) for (int i = 0; i < r; ++i) if (y == (size_t)i) { q = i; break; }
  if (p < 0 || q < 0) { sym_assert(rejected([&] { A::transpose(a, x, y); }), "an axis beyond the rank is rejected"); return; }
  Tensor<float> t = A::transpose(a, p, q); Dims td = d; std::swap(td[p], td[q]); std::vector<float> e(v.size()); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); e[flatten(ix, td)] = v[f]; }
  checkDims(t, td, "transpose swaps the two dimensions"); checkTensor(t, td, e, "transposed element"); checkTensor(a, d, v, "operand unchanged"); checkTensor(A::transpose(t, p, q), d, v, "transposing twice restores the tensor");
}
ENTRY(qr_small) { int r = sym_pick("rank", 1, 2); check(pickDims(r, 1, 3)); }
ENTRY(qr_3) { check(pickDims(3, 1, 2)); }
ENTRY(qr_wide) { static const Dims S[] = {{2, 3, 4}, {4, 1, 3}, {3, 2, 1, 2}, {2, 3, 2, 2}, {9, 5}, {1, 17}, {2, 2, 1, 2, 2}}; check(S[sym_pick("shape", 0, 6)]); }
static void reshapeTo(const Dims& d, const Dims& e) { auto a = symTensor<float>(d, "a"); auto v = values(a); bool ok = true; int n = 1; for (int x : e) { if (x <= 0) ok = false; n *= x; } ok = ok && n == prodOf(d) && !e.empty(); bool rej = false; try { Tensor<float> t = A::reshape(a, Shape(e)); if (ok) checkTensor(t, e, v, "reshape keeps the element order"); } catch (const std::exception&) { rej = true; } sym_assert(rej == !ok, "reshape succeeds exactly when the element count is preserved"); checkTensor(a, d, v, "the functional reshape leaves its operand alone"); bool rej2 = rejected([&] { a.reshape(e); }); sym_assert(rej2 == !ok, "in-place reshape succeeds exactly when the element count is preserved"); checkTensor(a, ok ? e : d, v, "in-place reshape keeps the elements; a rejected one changes nothing"); }
ENTRY(qr_reshape) { static const Dims S[] = {{6}, {2, 3}, {1, 6}, {3, 1, 2}, {2, 2}}; const Dims& d = S[sym_pick("from", 0, 4)]; int r = sym_pick("rank", 1, 3); Dims e(r); for (int i = 0; i < r; ++i) e[i] = sym_pick("to", -1, i ? 3 : 6); reshapeTo(d, e); }
ENTRY(qr_reshape_forms) { auto a = symTensor<float>({2, 6}, "a"); auto v = values(a); a.reshape({3, 4}); checkTensor(a, {3, 4}, v, "list form"); a.reshape(Shape({12})); checkTensor(a, {12}, v, "shape form"); a.reshape(std::vector<int>{2, 2, 3}); checkTensor(a, {2, 2, 3}, v, "vector form"); auto b = A::transpose(a, 0, 2); b.reshape({12}); auto ix = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 2; ++k) check_eq(b[ix++], v[k * 6 + j * 3 + i], "transpose materialises the new order"); }
ENTRY(qr_double) { auto a = symTensor<double>({2, 3}, "a"); auto t = AdvancedTensorOperations<double>::transpose(a, 0, 1); checkTensor(t, {3, 2}, {a[0], a[3], a[1], a[4], a[2], a[5]}, "transpose (double)"); }
ENTRY(tr_3) { check(pickDims(3, 1, 3)); }
ENTRY(tr_4) { check(pickDims(4, 1, 2)); }
ENTRY(qr_catalogue) { const Dims& d = pickShape(); int r = (int)d.size(), p = sym_pick("p", 0, r - 1), q = sym_pick("q", 0, r - 1); auto a = symTensor<float>(d, "a"); auto v = values(a); Tensor<float> t = A::transpose(a, p, q); Dims td = d; std::swap(td[p], td[q]); std::vector<float> e(v.size()); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); e[flatten(ix, td)] = v[f]; } checkTensor(t, td, e, "transposed element"); checkTensor(a, d, v, "operand unchanged"); checkTensor(A::transpose(t, q, p), d, v, "transposing twice restores the tensor"); t[0] = 9; checkTensor(a, d, v, "a transpose is a copy"); }
ENTRY(qr_reshape_pairs) { const Dims& d = pickShape(13); const Dims& e = pickShape(13); reshapeTo(d, e); }
ENTRY(qr_long) { static const Dims S[] = {{33, 33}, {2, 515}, {64, 16}, {65, 17}, {3, 33, 5}, {8, 8, 8}}; const Dims& d = S[sym_pick("shape", 0, 5)]; auto a = symTensor<float>(d, "a"); auto v = values(a); int r = (int)d.size(), p = sym_pick("p", 0, r - 2), q = sym_pick("q", p + 1, r - 1); Tensor<float> t = A::transpose(a, p, q); Dims td = d; std::swap(td[p], td[q]); std::vector<float> e(v.size()); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); e[flatten(ix, td)] = v[f]; } checkTensor(t, td, e, "transposed element of a large tensor"); }
// repeated transposes of changing tensors, and cycles of three swaps
ENTRY(qr_history) { auto a = symTensor<float>({2, 3, 2}, "a"); auto t1 = A::transpose(a, 0, 1); auto v1 = values(t1); a[5] = 9; auto t2 = A::transpose(a, 0, 1); check_eq(t2[(2 * 2 + 0) * 2 + 1], 9.f, "a second transpose sees the current contents"); checkTensor(t1, {3, 2, 2}, v1, "an earlier transpose is a value"); auto b = symTensor<float>({3, 2, 2}, "b"); checkTensor(A::transpose(A::transpose(b, 0, 1), 0, 1), {3, 2, 2}, values(b), "another shape"); auto x = A::transpose(A::transpose(A::transpose(b, 0, 1), 1, 2), 0, 1), y = A::transpose(b, 0, 2); checkTensor(x, {2, 2, 3}, values(y), "three swaps compose"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{66, 65}, {2, 2100}}; const Dims& d = S[sym_pick("shape", 0, 1)]; auto a = symTensor<float>(d, "a"); auto v = values(a); int r = (int)d.size(), p = sym_pick("p", 0, r - 2), q = sym_pick("q", p + 1, r - 1); Tensor<float> t = A::transpose(a, p, q); Dims td = d; std::swap(td[p], td[q]); std::vector<float> e(v.size()); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); e[flatten(ix, td)] = v[f]; } checkTensor(t, td, e, "transposed element of a large tensor"); }
// arbitrary IEEE values move unchanged
ENTRY(qf_ieee) { auto a = anyTensor<float>({2, 3}, "a"); auto t = A::transpose(a, 0, 1); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) sym_check_eq_f32(t[j * 2 + i], a[i * 3 + j], "transposed element"); auto r = A::reshape(a, Shape({3, 2})); for (int i = 0; i < 6; ++i) sym_check_eq_f32(r[i], a[i], "reshaped element"); }
ENTRY(qr_extents) { int n = sym_pick("n", 1, 40), m = sym_pick("m", 1, 5), how = sym_pick("how", 0, 2); if (how == 2 && n > 12) return; Dims d = how == 0 ? Dims{n, m} : how == 1 ? Dims{m, n} : Dims{m, 2, n}; auto a = symTensor<float>(d, "a"); auto v = values(a); int p = 0, q = how == 2 ? 2 : 1; Tensor<float> t = A::transpose(a, p, q); Dims td = d; std::swap(td[p], td[q]); std::vector<float> e(v.size()); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); e[flatten(ix, td)] = v[f]; } checkTensor(t, td, e, "transposed element"); }
