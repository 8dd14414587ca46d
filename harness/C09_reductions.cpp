// @bounds ranks 1..4, dimensions 1..3 (rank 3/4: 1..2) plus listed wider shapes up to 130 elements; every subset of axes; the axis argument of the single-axis sum is an arbitrary 64-bit value; elements symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements) (subsets of axes up to 48 elements), up to 33x33 / 1030 elements; variances of up to 72 elements; reductions between writes; beyond that, tensors of up to 66000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); variances of up to 1030 elements with two symbolic ones
// @assume real arithmetic (rounding and summation order are not modelled)
// @outside the shape of mean/variance over no axis or over every axis is taken as {1}; otherwise mean keeps reduced dimensions as 1 and sum removes them
#include "repo.hpp"
typedef AdvancedTensorOperations<float> A;
static bool in(const std::vector<size_t>& ax, size_t i) { for (size_t a : ax) if (a == i) return true; return false; }
// reduce v over the axes; returns reduced values in row-major order of the kept dimensions
static std::vector<float> red(const std::vector<float>& v, const Dims& d, const std::vector<size_t>& ax, Dims& kept) { kept.clear(); for (size_t i = 0; i < d.size(); ++i) if (!in(ax, i)) kept.push_back(d[i]); std::vector<float> r(kept.empty() ? 1 : prodOf(kept), 0.f); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); int o = 0; for (size_t i = 0; i < d.size(); ++i) if (!in(ax, i)) o = o * d[i] + ix[i]; r[o] += v[f]; } return r; }
static std::vector<size_t> pickAxes(int r) { int m = sym_pick("axes", 0, (1 << r) - 1), rev = sym_pick("order", 0, 1); std::vector<size_t> ax; for (int i = 0; i < r; ++i) { int k = rev ? r - 1 - i : i; if (m >> k & 1) ax.push_back(k); } return ax; }
static void checkAxes(const Dims& d, const std::vector<size_t>& ax, bool var) {
  auto a = symTensor<float>(d, "a"); auto v = values(a); Dims kept; auto s = red(v, d, ax, kept); int n = 1; for (size_t i = 0; i < d.size(); ++i) if (in(ax, i)) n *= d[i];
  Dims sd = kept; if (sd.empty()) sd.push_back(1);
  Tensor<float> t = A::sum(a, ax); checkDims(t, sd, "sum removes the summed dimensions"); checkTensor(t, sd, s, "sum over axes");
  bool all = ax.empty() || kept.empty(); Dims md = d; for (size_t i = 0; i < d.size(); ++i) if (in(ax, i)) md[i] = 1; float N = (float)(all ? prodOf(d) : n); std::vector<float> m; if (all) { float q = 0; for (float x : v) q += x; m = {q / N}; md = {1}; } else { m = s; for (auto& x : m) x /= N; }
  Tensor<float> mt = A::mean(a, ax); checkTensor(mt, md, m, "mean over axes"); checkTensor(a, d, v, "operand unchanged");
  if (var && !all) { std::vector<float> q(v.size()); for (size_t f = 0; f < v.size(); ++f) { auto ix = unflatten((int)f, d); int o = 0; for (size_t i = 0; i < d.size(); ++i) if (!in(ax, i)) o = o * d[i] + ix[i]; q[f] = (v[f] - m[o]) * (v[f] - m[o]); } auto e = red(q, d, ax, kept); for (auto& x : e) x /= N; Tensor<float> vt = A::variance(a, mt, ax); checkTensor(vt, md, e, "variance over axes"); checkTensor(a, d, v, "operand unchanged"); checkTensor(mt, md, m, "mean operand unchanged"); }
}
ENTRY(qr_axes_small) { int r = sym_pick("rank", 1, 2); Dims d = pickDims(r, 1, 3); checkAxes(d, pickAxes(r), true); }
ENTRY(qr_axes_3) { Dims d = pickDims(3, 1, 2); checkAxes(d, pickAxes(3), true); }
ENTRY(qr_axes_wide) { static const Dims S[] = {{2, 3, 4}, {3, 1, 2}, {2, 3, 2, 2}, {2, 2, 3, 3}, {4, 5}}; const Dims& d = S[sym_pick("shape", 0, 4)]; checkAxes(d, pickAxes((int)d.size()), false); }
ENTRY(qr_var_wide) { static const Dims S[] = {{2, 3, 2, 2}, {3, 2, 1, 3}, {5, 3}, {2, 3, 4}}; static const std::vector<size_t> X[] = {{0, 2, 3}, {0, 2, 3}, {0}, {1}}; int k = sym_pick("k", 0, 3); checkAxes(S[k], X[k], true); }
ENTRY(qr_var_misuse) { auto a = symTensor<float>({2, 3}, "a"); int x = sym_pick("axis", 0, 1); size_t k = x; auto m = A::mean(a, std::vector<size_t>{k}); auto s = A::variance(a, m, std::vector<size_t>{k, k}), t = A::variance(a, m, std::vector<size_t>{k}); checkTensor(s, t.getShape().getDimensions(), values(t), "a repeated axis counts once in the variance"); auto o = symTensor<float>(x ? Dims{1, 3} : Dims{2, 1}, "o"); sym_assert(rejected([&] { A::variance(a, o, std::vector<size_t>{k}); }), "a mean over other axes is rejected"); Tensor<float> one = symTensor<float>({1}, "one"); sym_assert(rejected([&] { A::variance(a, one, std::vector<size_t>{k}); }), "a mean of another size is rejected"); }
ENTRY(qr_axes_duplicate) { auto a = symTensor<float>({2, 3}, "a"); int x = sym_pick("axis", 0, 1); size_t k = x; auto s = A::sum(a, std::vector<size_t>{k, k}), t = A::sum(a, std::vector<size_t>{k}); checkTensor(s, t.getShape().getDimensions(), values(t), "a repeated axis is summed once"); auto m = A::mean(a, std::vector<size_t>{k, k}), n = A::mean(a, std::vector<size_t>{k}); checkTensor(m, n.getShape().getDimensions(), values(n), "a repeated axis is averaged once"); }
static void oneAxis(const Dims& d) { auto a = symTensor<float>(d, "a"); auto v = values(a); size_t ax = (size_t)sym_i64("axis", INT64_MIN, INT64_MAX); bool ok = ax < d.size(); int k = -1; if (ok) for (size_t i = 0; i < d.size(); ++i) if (ax == i) { k = (int)i; break; } if (!ok) { sym_assert(rejected([&] { A::sum(a, ax); }), "an axis beyond the rank is rejected"); return; } Dims kept; auto s = red(v, d, {(size_t)k}, kept); if (kept.empty()) kept = {1}; checkTensor(A::sum(a, (size_t)k), kept, s, "sum over one axis"); }
ENTRY(qr_one_axis) { int r = sym_pick("rank", 1, 3); oneAxis(r == 3 ? pickDims(3, 1, 2) : pickDims(r, 1, 3)); }
ENTRY(qr_one_axis_wide) { static const Dims S[] = {{2, 3, 4}, {2, 3, 2, 2}, {33}, {9, 4}}; oneAxis(S[sym_pick("shape", 0, 3)]); }
ENTRY(qr_bad_axes) { int r = sym_pick("rank", 1, 2); auto a = symTensor<float>(Dims(r, 2), "a"); long x = sym_i64("axis", INT64_MIN, INT64_MAX); sym_assume((unsigned long)x >= (unsigned long)r); size_t k = (size_t)x; Tensor<float> m{Shape({1})}; sym_assert(rejected([&] { A::sum(a, std::vector<size_t>{0, k}); }), "sum rejects an axis beyond the rank"); sym_assert(rejected([&] { A::mean(a, std::vector<size_t>{0, k}); }), "mean rejects an axis beyond the rank"); sym_assert(rejected([&] { A::variance(a, m, std::vector<size_t>{0, k}); }), "variance rejects an axis beyond the rank"); }
ENTRY(qr_full) { static const Dims S[] = {{1}, {7}, {2, 3}, {2, 2, 2}, {130}}; const Dims& d = S[sym_pick("shape", 0, 4)]; auto a = symTensor<float>(d, "a"); auto v = values(a); float s = 0; for (float x : v) s += x; checkTensor(A::sum(a), {1}, {s}, "sum of all elements"); Tensor<float> m = A::mean(a); checkTensor(m, {1}, {s / (float)v.size()}, "mean of all elements"); if (v.size() <= 8) { float q = 0; for (float x : v) q += (x - s / (float)v.size()) * (x - s / (float)v.size()); checkTensor(A::variance(a, m), {1}, {q / (float)v.size()}, "variance of all elements"); } checkTensor(a, d, v, "operand unchanged"); }
ENTRY(qr_double) { sym_precise(); auto a = symTensor<double>({2, 3}, "a"); auto s = AdvancedTensorOperations<double>::sum(a, 1); checkTensor(s, {2}, {a[0] + a[1] + a[2], a[3] + a[4] + a[5]}, "sum (double)"); }
ENTRY(qr_laws) { auto a = symTensor<float>({2, 3}, "a"), b = symTensor<float>({2, 3}, "b"); float s = sym_f32("s", -4, 4); check_eq(A::sum(a + b * s)[0], A::sum(a)[0] + s * A::sum(b)[0], "sum is linear"); auto x = A::sum(A::sum(a, 0)), y = A::sum(A::sum(a, 1)); check_eq(x[0], y[0], "summing rows or columns first gives the same total"); auto c = a - A::mean(a, std::vector<size_t>{0}); auto z = A::sum(c, 0); for (int i = 0; i < 3; ++i) check_eq(z[i], 0.f, "deviations from the mean sum to zero"); auto m = A::mean(a, std::vector<size_t>{0}), va = A::variance(a, m, std::vector<size_t>{0}); for (int i = 0; i < 3; ++i) sym_assert(va[i] >= 0, "a variance is not negative"); }
ENTRY(tr_axes_4) { Dims d = pickDims(4, 1, 2); checkAxes(d, pickAxes(4), true); }
ENTRY(tr_axes_3) { Dims d = pickDims(3, 1, 3); checkAxes(d, pickAxes(3), false); }
ENTRY(qr_axes_catalogue) { const Dims& d = pickShape(48, 1, 3); checkAxes(d, pickAxes((int)d.size()), prodOf(d) <= 9); }
ENTRY(qr_axes_high) { const Dims& d = pickShape(48, 4, 6); int r = (int)d.size(), m = sym_pick("axes", 0, (1 << r) - 1); std::vector<size_t> ax; for (int i = 0; i < r; ++i) if (m >> i & 1) ax.push_back(i); checkAxes(d, ax, false); }
ENTRY(qr_one_axis_catalogue) { const Dims& d = pickShape(); int k = sym_pick("axis", 0, (int)d.size() - 1); auto a = symTensor<float>(d, "a"); Dims kept; auto s = red(values(a), d, {(size_t)k}, kept); if (kept.empty()) kept = {1}; checkTensor(A::sum(a, (size_t)k), kept, s, "sum over one axis"); }
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 515}, {515, 2}, {129, 5}, {5, 129}, {3, 65, 3}}; const Dims& d = S[sym_pick("shape", 0, 6)]; auto a = symTensor<float>(d, "a"); auto v = values(a); float s = 0; for (float x : v) s += x; checkTensor(A::sum(a), {1}, {s}, "sum of all elements"); check_eq(A::mean(a)[0] * (float)v.size(), s, "mean of all elements"); for (size_t k = 0; k < d.size(); ++k) { Dims kept; auto e = red(v, d, {k}, kept); if (kept.empty()) kept = {1}; checkTensor(A::sum(a, k), kept, e, "sum over one axis"); checkTensor(A::sum(a, std::vector<size_t>{k}), kept, e, "sum over a list of one axis"); if (d.size() > 1) { Tensor<float> m = A::mean(a, std::vector<size_t>{k}); for (size_t i = 0; i < e.size(); ++i) check_eq(m[i] * (float)d[k], e[i], "mean over one axis"); } } }
ENTRY(qr_var_long) { static const Dims S[] = {{33, 2}, {2, 33}, {2, 17, 2}, {9, 2, 2, 2}}; static const std::vector<size_t> X[] = {{0}, {1}, {1}, {0, 2, 3}}; int k = sym_pick("k", 0, 3); checkAxes(S[k], X[k], true); }
// unsorted, repeated and permuted axis lists
ENTRY(qr_axes_order) { static const std::vector<size_t> X[] = {{1, 0}, {2, 0}, {2, 1, 0}, {0, 2, 1}, {1, 1, 0}, {2, 0, 2}, {0, 0, 0}}; std::vector<size_t> x = X[sym_pick("k", 0, 6)]; auto a = symTensor<float>({2, 3, 2}, "a"); std::vector<size_t> y; for (size_t i = 0; i < 3; ++i) if (in(x, i)) y.push_back(i); auto s = A::sum(a, x), t = A::sum(a, y); checkTensor(s, t.getShape().getDimensions(), values(t), "the order and repetition of axes do not matter to sum"); auto m = A::mean(a, x), n = A::mean(a, y); checkTensor(m, n.getShape().getDimensions(), values(n), "the order and repetition of axes do not matter to mean"); if (y.size() < 3) { auto p = A::variance(a, n, x), q = A::variance(a, n, y); checkTensor(p, q.getShape().getDimensions(), values(q), "the order and repetition of axes do not matter to variance"); } }
ENTRY(qr_history) { auto a = symTensor<float>({2, 3}, "a"), b = symTensor<float>({3, 2}, "b"); auto s1 = A::sum(a, 0); auto s2 = A::sum(b, 0); a[0] = 9; auto s3 = A::sum(a, 0); checkTensor(s2, {2}, {b[0] + b[2] + b[4], b[1] + b[3] + b[5]}, "second sum"); check_eq(s3[0], 9.f + a[3], "sum after a write"); a.reshape({3, 2}); checkTensor(A::sum(a, 1), {3}, {a[0] + a[1], a[2] + a[3], a[4] + a[5]}, "sum after a reshape"); check_eq(s1[1], a[1] + a[4], "earlier results are values"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{66000}, {66, 65}, {2, 2100}, {2100, 2}}; const Dims& d = S[sym_pick("shape", 0, 3)]; auto a = symTensor<float>(d, "a"); auto v = values(a); float s = 0; for (float x : v) s += x; checkTensor(A::sum(a), {1}, {s}, "sum of all elements"); check_eq(A::mean(a)[0] * (float)v.size(), s, "mean of all elements"); for (size_t k = 0; k < d.size(); ++k) { Dims kept; auto e = red(v, d, {k}, kept); if (kept.empty()) kept = {1}; checkTensor(A::sum(a, k), kept, e, "sum over one axis"); checkTensor(A::sum(a, std::vector<size_t>{k}), kept, e, "sum over a list of one axis"); if (d.size() > 1) { Tensor<float> m = A::mean(a, std::vector<size_t>{k}); for (size_t i = 0; i < e.size(); ++i) check_eq(m[i] * (float)d[k], e[i], "mean over one axis"); } } }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e5; static const Dims S[] = {{3}, {2, 3}, {4, 2}, {2, 2, 2}}; const Dims& d = S[sym_pick("shape", 0, 3)]; checkAxes(d, pickAxes((int)d.size()), true); auto a = symTensor<float>(d, "a"); auto v = values(a); float s = 0; for (float x : v) s += x; checkTensor(A::sum(a), {1}, {s}, "sum of all elements"); checkTensor(A::mean(a), {1}, {s / (float)v.size()}, "mean of all elements"); }
// the variance is the mean squared deviation from the tensor that is passed as the mean, whatever it holds
ENTRY(qr_variance_any_mean) { static const Dims S[] = {{2, 3}, {3, 2}, {5, 1}, {2, 2, 2}, {4, 3}}; const Dims& d = S[sym_pick("shape", 0, 4)]; int k = sym_pick("axis", 0, (int)d.size() - 1); Dims md = d; md[k] = 1; Dims kept; for (size_t i = 0; i < d.size(); ++i) if ((int)i != k) kept.push_back(d[i]); auto a = symTensor<float>(d, "a"), m = symTensor<float>(md, "m"); auto v = values(a), w = values(m); std::vector<float> q(v.size()); for (size_t f = 0; f < v.size(); ++f) { float e = v[f] - w[bcIndex((int)f, d, md)]; q[f] = e * e; } auto e = red(q, d, {(size_t)k}, kept); for (auto& x : e) x /= (float)d[k]; checkTensor(A::variance(a, m, std::vector<size_t>{(size_t)k}), md, e, "mean squared deviation from the given mean"); checkTensor(m, md, w, "mean operand unchanged"); }
ENTRY(qr_variance_any_scalar) { static const Dims S[] = {{1}, {3}, {2, 3}, {2, 2, 2}}; const Dims& d = S[sym_pick("shape", 0, 3)]; auto a = symTensor<float>(d, "a"); Tensor<float> m = symTensor<float>({1}, "m"); auto v = values(a); float s = 0; for (float x : v) s += (x - m[0]) * (x - m[0]); checkTensor(A::variance(a, m), {1}, {s / (float)v.size()}, "mean squared deviation from the given scalar mean"); }
// every extent of one axis with the others small: tall and wide matrices, and a middle axis
ENTRY(qr_extents) { int n = sym_pick("n", 1, 40), m = sym_pick("m", 1, 8), how = sym_pick("how", 0, 2); if (how == 2 && (m > 4 || n > 20)) return; Dims d = how == 0 ? Dims{n, m} : how == 1 ? Dims{m, n} : Dims{2, n, m}; auto a = symTensor<float>(d, "a"); auto v = values(a); size_t k = how == 0 ? 0 : 1; Dims kept; auto e = red(v, d, {k}, kept); checkTensor(A::sum(a, k), kept, e, "sum over one axis"); checkTensor(A::sum(a, std::vector<size_t>{k}), kept, e, "sum over a list of one axis"); for (auto& x : e) x /= (float)d[k]; Dims md = d; md[k] = 1; checkTensor(A::mean(a, std::vector<size_t>{k}), md, e, "mean over one axis"); }
ENTRY(qr_tall) { static const Dims S[] = {{70, 4}, {65, 8}, {129, 4}, {4, 70}, {8, 65}, {33, 16}, {2, 33, 4}, {33, 4, 2}, {18, 2, 4}}; const Dims& d = S[sym_pick("shape", 0, 8)]; auto a = symTensor<float>(d, "a"); auto v = values(a); for (size_t k = 0; k < d.size(); ++k) { Dims kept; auto e = red(v, d, {k}, kept); checkTensor(A::sum(a, k), kept, e, "sum over one axis"); checkTensor(A::sum(a, std::vector<size_t>{k}), kept, e, "sum over a list of one axis"); } if (d.size() == 3) { Dims kept; auto e = red(v, d, {0, 2}, kept); checkTensor(A::sum(a, std::vector<size_t>{0, 2}), kept, e, "sum over two axes"); } }
// arbitrary IEEE values: infinities and NaN reach the sum
ENTRY(qf_ieee) { int how = sym_pick("how", 0, 3); auto a = anyTensor<float>(how == 1 ? Dims{2, 1} : how == 2 ? Dims{1, 2} : Dims{2}, "a"); float e = a[0] + a[1]; switch (how) { case 0: fpSame(A::sum(a)[0], e, "sum of arbitrary floats"); break; case 1: fpSame(A::sum(a, 0)[0], e, "sum of arbitrary floats"); break; case 2: fpSame(A::sum(a, std::vector<size_t>{1})[0], e, "sum of arbitrary floats"); break; default: { float m = A::mean(a)[0]; sym_assert((e == e) | (m != m), "NaN reaches the mean"); sym_assert((m == m) | (e != e), "the mean of numbers is a number"); } } }
// variances over many elements (a fixed pattern with two symbolic elements)
ENTRY(qr_var_extents) { static const Dims S[] = {{33, 1}, {65, 2}, {1, 100}, {3, 130}, {130, 1}, {258, 2}, {1030, 1}, {2, 9, 9}}; const Dims& d = S[sym_pick("shape", 0, 7)]; int n = prodOf(d); Tensor<float> a{Shape(d)}; for (int i = 0; i < n; ++i) a[i] = (float)(i % 5) * 0.5f - 1; a[1] = sym_f32("a", -4, 4); a[n - 1] = sym_f32("b", -4, 4); auto v = values(a); static const std::vector<size_t> X[] = {{0}, {1}, {1, 2}}; int k = d.size() == 3 ? sym_pick("axes", 0, 2) : sym_pick("axes", 0, 1); const auto& ax = X[k]; Dims kept, md = d; int N = 1; for (size_t i : ax) { md[i] = 1; N *= d[i]; } auto m = red(v, d, ax, kept); for (auto& x : m) x /= (float)N; std::vector<float> q(n); for (int f = 0; f < n; ++f) { auto ix = unflatten(f, d); int o = 0; for (size_t i = 0; i < d.size(); ++i) if (!in(ax, i)) o = o * d[i] + ix[i]; q[f] = (v[f] - m[o]) * (v[f] - m[o]); } auto e = red(q, d, ax, kept); for (auto& x : e) x /= (float)N; auto mt = A::mean(a, ax); checkTensor(mt, md, m, "mean over axes"); checkTensor(A::variance(a, mt, ax), md, e, "variance over axes");
  if (d.size() < 3 && (k == 0 ? d[1] == 1 : d[0] == 1)) { float t = 0, u = 0; for (float x : v) t += x; t /= (float)n; for (float x : v) u += (x - t) * (x - t); auto mm = A::mean(a); check_eq(A::variance(a, mm)[0], u / (float)n, "variance of all elements"); } }
