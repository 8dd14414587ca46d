// @bounds batches 1..3 of 1..3 classes with every ordering symbolic; every catalogue shape of rank 2..6 up to 24 elements and listed shapes up to 68 elements with a fixed ordering and symbolic values; rows of arbitrary finite floats next to each other, bit-precise, for rows whose exact result is known (one class, equal classes); histories of 3 passes; float and double; beyond that, rows up to 260 long, 130 rows (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); an unlikely class with any logit difference in [10, 80] and a dominating last class of 17 to 130, bit-precise
// @assume real arithmetic with the real exponential
// @outside rounding (beyond the bit-precise entries and C23), NaN and infinite inputs
#include "repo.hpp"
static Tensor<float> ordered(const Dims& d, int perm) { Tensor<float> t{Shape(d)}; int n = prodOf(d); for (int i = 0; i < n; ++i) { double b = (perm == 0 ? i : perm == 1 ? n - i : (i * 5 + 2) % 13 - 6) * 0.25; t[i] = sym_f32("x", b - 0.0625, b + 0.0625); } return t; }
static void check(Tensor<float> x, const Dims& d) {
  int n = prodOf(d), B = d[0], F = n / B; auto v = values(x); Softmax<float> S; auto y = S.forward(x); checkDims(y, d, "output shape"); checkTensor(x, d, v, "input unchanged");
  std::vector<float> e(n); for (int b = 0; b < B; ++b) { float s = 0, o = 0; for (int i = 0; i < F; ++i) s += std::exp(v[b * F + i]); for (int i = 0; i < F; ++i) { e[b * F + i] = std::exp(v[b * F + i]) / s; check_eq(y[b * F + i], e[b * F + i], "softmax normalises the exponentials of its own row"); o += y[b * F + i]; } check_eq(o, 1.f, "every row sums to 1"); }
  auto g = symTensor<float>(d, "g"); auto gv = values(g); auto r = S.backward(x, g); checkDims(r, d, "gradient shape"); checkTensor(g, d, gv, "output gradient unchanged");
  for (int b = 0; b < B; ++b) { float s = 0; for (int i = 0; i < F; ++i) s += gv[b * F + i] * e[b * F + i]; for (int i = 0; i < F; ++i) check_eq(r[b * F + i], e[b * F + i] * (gv[b * F + i] - s), "the gradient is the Jacobian of softmax applied to the output gradient"); } }
ENTRY(qr_small) { int b = sym_pick("batch", 1, 2), f = sym_pick("classes", 1, 3); check(symTensor<float>({b, f}, "x"), {b, f}); }
ENTRY(qr_wide) { static const Dims S[] = {{2, 9}, {9, 2}, {3, 4}, {2, 2, 2}, {1, 2, 1, 3}, {5, 1}, {2, 1, 3}, {1, 12}}; const Dims& d = S[sym_pick("shape", 0, 7)]; check(ordered(d, sym_pick("perm", 0, 2)), d); }
ENTRY(qr_derivative) { int f = sym_pick("classes", 1, 3); auto x = symTensor<float>({1, f}, "x"), g = symTensor<float>({1, f}, "g"); Softmax<float> S; auto y = S.forward(x); float s = 0; for (int i = 0; i < f; ++i) s += g[i] * y[i]; auto r = S.backward(x, g); for (int i = 0; i < f; ++i) check_eq(r[i], sym_grad_f32(s, x[i], "dx"), "the gradient is the derivative of the executed forward function"); }
ENTRY(qr_shift) { auto x = symTensor<float>({1, 3}, "x"); float c = sym_f32("c", -4, 4); Tensor<float> z({1, 3}); for (int i = 0; i < 3; ++i) z[i] = x[i] + c; Softmax<float> S; auto a = S.forward(x), b = S.forward(z); for (int i = 0; i < 3; ++i) check_eq(a[i], b[i], "adding a constant to a row does not change its softmax"); sym_assert(a[0] > 0 && a[0] < 1, "probabilities lie strictly between 0 and 1"); }
ENTRY(qr_layer) { ActivationLayer<float> L{Softmax<float>()}; auto x = ordered({2, 3}, 2), g = symTensor<float>({2, 3}, "g"); auto y = L.forward(x); checkTensor(y, {2, 3}, values(Softmax<float>().forward(x)), "the layer applies softmax"); auto r = L.backward(g); checkTensor(r, {2, 3}, values(Softmax<float>().backward(x, g)), "the layer differentiates softmax at the last input"); }
ENTRY(qr_reject) { Softmax<float> S; int k = sym_pick("k", 0, 5); if (k == 0) { auto x = symTensor<float>({3}, "x"); sym_assert(rejected([&] { S.forward(x); }), "a rank-1 input is rejected"); return; } if (k == 1) { auto x = symTensor<float>({3}, "x"), g = symTensor<float>({3}, "g"); sym_assert(rejected([&] { S.backward(x, g); }), "a rank-1 input is rejected"); return; } static const Dims D[] = {{2, 2}, {1, 3}, {3, 3}, {6}}; auto x = ordered({2, 3}, 0), g = symTensor<float>(D[k - 2], "g"); sym_assert(rejected([&] { S.backward(x, g); }), "a gradient that does not match the input is rejected"); }
ENTRY(qr_double) { sym_precise(); auto x = symTensor<double>({2, 2}, "x"), g = symTensor<double>({2, 2}, "g"); Softmax<double> S; auto y = S.forward(x), r = S.backward(x, g); for (int b = 0; b < 2; ++b) { double p = std::exp(x[b * 2]) / (std::exp(x[b * 2]) + std::exp(x[b * 2 + 1])); check_eq(y[b * 2], p, "softmax (double)"); check_eq(y[b * 2 + 1], 1 - p, "softmax (double)"); check_eq(r[b * 2], p * (1 - p) * (g[b * 2] - g[b * 2 + 1]), "softmax gradient (double)"); } }
// rows far apart from each other: the maximum of one row must not reach another (bit-precise)
static float finite(const char* n) { float x = sym_f32_any(n); sym_assume(x - x == 0.f); return x; }
ENTRY(qf_rows_independent) { float a = finite("a"), b = finite("b"); auto y = Softmax<float>().forward(Tensor<float>(Shape({2, 1}), std::vector<float>{a, b})); sym_assert(y[0] == 1.f && y[1] == 1.f, "a row with one class has probability one, whatever the other rows hold"); }
ENTRY(qf_rows_apart) { float a = finite("a"), d = 1.f; auto y = Softmax<float>().forward(Tensor<float>(Shape({2, 2}), std::vector<float>{a, a, d, d})); for (int i = 0; i < 4; ++i) sym_assert(y[i] == 0.5f, "a row of equal values is uniform, whatever the other rows hold"); auto z = Softmax<float>().forward(Tensor<float>(Shape({2, 2}), std::vector<float>{d, d, a, a})); for (int i = 0; i < 4; ++i) sym_assert(z[i] == 0.5f, "a row of equal values is uniform, whatever the other rows hold"); }
ENTRY(qf_back_rows_apart) { float a = finite("a"), g = sym_f32_any("g"); sym_assume(g >= -1e30f && g <= 1e30f); auto r = Softmax<float>().backward(Tensor<float>(Shape({2, 2}), std::vector<float>{1.f, 1.f, a, a}), Tensor<float>(Shape({2, 2}), std::vector<float>{g, g, g, g})); for (int i = 0; i < 4; ++i) sym_assert(r[i] == 0.f, "equal gradients cancel in every row"); }
// more shapes, rank up to 6, longer rows and larger batches
ENTRY(qr_catalogue) { const Dims& d = pickShape(24, 2, 6); check(ordered(d, 2), d); }
ENTRY(qr_long) { static const Dims S[] = {{2, 33}, {33, 2}, {1, 65}, {17, 4}}; const Dims& d = S[sym_pick("shape", 0, 3)]; int n = prodOf(d), B = d[0], F = n / B; auto x = ordered(d, 2); auto v = values(x); Softmax<float> L; auto y = L.forward(x); checkDims(y, d, "output shape"); for (int b = 0; b < B; ++b) { float s = 0; for (int i = 0; i < F; ++i) s += std::exp(v[b * F + i]); for (int i = 0; i < F; i += 5) check_eq(y[b * F + i], std::exp(v[b * F + i]) / s, "softmax normalises the exponentials of its own row"); } }
// successive inputs of different shapes through one object and one layer, training and evaluation mode
ENTRY(qr_history) { ActivationLayer<float> L{Softmax<float>()}; static const Dims D[] = {{2, 3}, {1, 2}, {3, 1}, {2, 2}}; Dims d; for (int s = 0; s < 3; ++s) { if (sym_pick("eval", 0, 1)) L.setTrainingMode(s == 1); d = D[(s + sym_pick("shift", 0, 1)) % 4]; auto x = ordered(d, s), g = symTensor<float>(d, "g"); auto v = values(x); int B = d[0], F = d[1]; auto y = L.forward(x), r = L.backward(g); checkDims(y, d, "output shape"); for (int b = 0; b < B; ++b) { float t = 0, q = 0; for (int i = 0; i < F; ++i) t += std::exp(v[b * F + i]); for (int i = 0; i < F; ++i) { check_eq(y[b * F + i], std::exp(v[b * F + i]) / t, "softmax of this input"); q += g[b * F + i] * std::exp(v[b * F + i]) / t; } for (int i = 0; i < F; ++i) check_eq(r[b * F + i], std::exp(v[b * F + i]) / t * (g[b * F + i] - q), "softmax gradient at this input"); } } }
ENTRY(tr_small) { int b = sym_pick("batch", 1, 3), f = sym_pick("classes", 1, 4); check(symTensor<float>({b, f}, "x"), {b, f}); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{2, 130}, {130, 2}, {1, 260}, {66, 5}}; const Dims& d = S[sym_pick("shape", 0, 3)]; int n = prodOf(d), B = d[0], F = n / B; auto x = ordered(d, 1); auto v = values(x); Softmax<float> L; auto y = L.forward(x); checkDims(y, d, "output shape"); for (int b = 0; b < B; ++b) { float s = 0; for (int i = 0; i < F; ++i) s += std::exp(v[b * F + i]); for (int i = 0; i < F; i += F > 20 ? 57 : 1) check_eq(y[b * F + i], std::exp(v[b * F + i]) / s, "softmax normalises the exponentials of its own row"); } checkTensor(x, d, v, "input unchanged"); }
// logits far apart: an unlikely class keeps its small probability, and the maximum may stand anywhere in a long row
ENTRY(qf_unlikely) { float a = sym_f32_any("a"); sym_assume(a >= -80.f); sym_assume(a <= -10.f); auto y = Softmax<float>().forward(Tensor<float>(Shape({1, 2}), std::vector<float>{0.f, a})); sym_assert(y[1] > 0.f, "the probability of an unlikely class is positive"); sym_assert(y[0] > 0.5f, "the probability of the likely class"); }
ENTRY(qf_last_class) { static const int N[] = {17, 34, 66, 130}; int n = N[sym_pick("classes", 0, 3)], at = n - 1; float a = sym_f32_any("a"); sym_assume(a >= -1e30f); sym_assume(a <= -1.f); Tensor<float> t(Shape({1, n}), 0.f); t.getData().data()[at] = 1000.f; t.getData().data()[1] = a; auto y = Softmax<float>().forward(t); sym_assert(y[at] == 1.f, "the dominating class has probability one"); sym_assert((y[0] == 0.f) & (y[1] == 0.f), "a dominated class has probability zero"); }
