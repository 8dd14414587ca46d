// @bounds batches 1..3 of 1..4 classes, listed shapes up to 130 rows or 65 classes; histories of 3 calls on one loss object; predictions symbolic in [0.001, 0.999] (in [-1, 2] for the clamping entries, any finite float for finiteness), targets symbolic in [0,1] (not only one-hot); beyond that, 5000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); targets in [-40, -0.5] and [0.5, 40]
// @assume real arithmetic with the real logarithm; the clamp bound 1e-7 is part of the specification
// @outside the value of the gradient where the prediction is clamped (only its sign and size are checked)
#include "repo.hpp"
static void check(const Dims& d, double tlo = 0, double thi = 1) {
  int n = prodOf(d), B = d[0]; auto p = symTensor<float>(d, "p", 0.001, 0.999), t = symTensor<float>(d, "t", tlo, thi); auto pv = values(p), tv = values(t); CategoricalCrossEntropyLoss<float> L; float s = 0; for (int i = 0; i < n; ++i) s -= tv[i] * std::log(pv[i]);
  auto l = L.compute(p, t); sym_assert(l.getShape().size() == 1, "the loss is a scalar"); check_eq(l[0], s / (float)B, "the loss is the mean over the batch of -sum t log p");
  auto g = L.gradient(p, t); checkDims(g, d, "the gradient has the prediction's shape"); for (int i = 0; i < n; ++i) { check_eq(g[i], -tv[i] / pv[i] / (float)B, "gradient of the cross entropy"); check_eq(g[i], sym_grad_f32(l[0], p[i], "dp"), "the gradient is the derivative of the loss"); }
  checkTensor(p, d, pv, "prediction unchanged"); checkTensor(t, d, tv, "target unchanged"); }
ENTRY(qr_small) { check({sym_pick("batch", 1, 3), sym_pick("classes", 1, 4)}); }
ENTRY(qr_wide) { static const Dims S[] = {{2, 9}, {7, 3}, {1, 17}, {9, 1}}; check(S[sym_pick("shape", 0, 3)]); }
ENTRY(qr_one_hot) { int B = 2, C = 3; auto p = symTensor<float>({B, C}, "p", 0.001, 0.999); Tensor<float> t({B, C}, 0.f); int a = sym_pick("a", 0, 2), b = sym_pick("b", 0, 2); t[a] = 1; t[3 + b] = 1; CategoricalCrossEntropyLoss<float> L; check_eq(L.compute(p, t)[0], -(std::log(p[a]) + std::log(p[3 + b])) / 2, "only the true classes count"); auto g = L.gradient(p, t); for (int i = 0; i < 6; ++i) check_eq(g[i], i == a || i == 3 + b ? -1 / p[i] / 2 : 0.f, "only the true classes get a gradient"); sym_assert(L.compute(p, t)[0] > 0, "the loss of an uncertain prediction is positive"); }
// predictions outside (0, 1) are clamped to [1e-7, 1 - 1e-7]
ENTRY(qr_clamp) { auto p = symTensor<float>({1, 2}, "p", -1, 2), t = symTensor<float>({1, 2}, "t", 0, 1); CategoricalCrossEntropyLoss<float> L; float lo = 1e-7f, hi = 1.0f - 1e-7f, s = 0; for (int i = 0; i < 2; ++i) { float c = p[i] < lo ? lo : p[i] > hi ? hi : p[i]; s -= t[i] * std::log(c); } check_eq(L.compute(p, t)[0], s, "the loss clamps predictions"); auto g = L.gradient(p, t); for (int i = 0; i < 2; ++i) { sym_assert(g[i] <= 0, "raising the probability of a true class never raises the loss"); sym_assert(g[i] >= -1.01e7f * t[i], "the gradient is bounded"); if (p[i] > lo && p[i] < hi) check_eq(g[i], -t[i] / p[i], "inside the clamp the gradient is -t/p"); } }
ENTRY(qf_finite) { float p = sym_f32_any("p"), t = sym_f32_any("t"); sym_assume(p - p == 0.f); sym_assume(t >= 0.f && t <= 1.f); CategoricalCrossEntropyLoss<float> L; Tensor<float> P(Shape({1, 1}), p), T(Shape({1, 1}), t); float l = L.compute(P, T)[0], g = L.gradient(P, T)[0]; sym_assert(l - l == 0.f, "the loss of any finite prediction is finite"); sym_assert(g - g == 0.f, "the gradient of any finite prediction is finite"); }
ENTRY(qr_repeat) { CategoricalCrossEntropyLoss<float> L, M; auto p = symTensor<float>({2, 2}, "p", 0.01, 0.99), t = symTensor<float>({2, 2}, "t", 0, 1), q = symTensor<float>({1, 3}, "q", 0.01, 0.99), u = symTensor<float>({1, 3}, "u", 0, 1); L.compute(p, t); L.gradient(p, t); check_eq(L.compute(q, u)[0], M.compute(q, u)[0], "the loss does not depend on earlier calls"); checkTensor(L.gradient(q, u), {1, 3}, values(M.gradient(q, u)), "nor does the gradient"); }
ENTRY(qr_reject) { static const Dims P[] = {{2, 3}, {2, 3}, {2, 3}, {3}, {2, 2, 2}, {1, 3}}, Q[] = {{3, 2}, {2, 2}, {6}, {3}, {2, 2, 2}, {3}}; int k = sym_pick("k", 0, 5); auto p = symTensor<float>(P[k], "p", 0.1, 0.9), t = symTensor<float>(Q[k], "t", 0, 1); CategoricalCrossEntropyLoss<float> L; bool grad = sym_pick("grad", 0, 1); sym_assert(rejected([&] { if (grad) L.gradient(p, t); else L.compute(p, t); }), "mismatched or non-matrix arguments are rejected"); }
// with softmax in front, the gradient reaching the logits is (softmax - target)/B for targets that sum to one
ENTRY(qr_with_softmax) { auto x = symTensor<float>({1, 2}, "x", -2, 2); float a = sym_f32("a", 0, 1); Tensor<float> t({1, 2}); t[0] = a; t[1] = 1 - a; Softmax<float> S; auto y = S.forward(x); CategoricalCrossEntropyLoss<float> L; auto g = S.backward(x, L.gradient(y, t)); for (int i = 0; i < 2; ++i) check_eq(g[i], y[i] - t[i], "softmax followed by cross entropy has gradient softmax - target"); }
ENTRY(qr_double) { sym_precise(); auto p = symTensor<double>({2, 2}, "p", 0.01, 0.99), t = symTensor<double>({2, 2}, "t", 0, 1); CategoricalCrossEntropyLoss<double> L; double s = 0; for (int i = 0; i < 4; ++i) s -= t[i] * std::log(p[i]); check_eq(L.compute(p, t)[0], s / 2, "the loss (double)"); auto g = L.gradient(p, t); for (int i = 0; i < 4; ++i) check_eq(g[i], -t[i] / p[i] / 2, "the gradient (double)"); }
ENTRY(qr_larger) { static const Dims S[] = {{33, 2}, {2, 33}, {16, 4}, {1, 65}, {65, 1}, {5, 13}, {130, 1}}; const Dims& d = S[sym_pick("shape", 0, 6)]; int n = prodOf(d), B = d[0]; auto p = symTensor<float>(d, "p", 0.001, 0.999), t = symTensor<float>(d, "t", 0, 1); auto pv = values(p), tv = values(t); CategoricalCrossEntropyLoss<float> L; float s = 0; for (int i = 0; i < n; ++i) s -= tv[i] * std::log(pv[i]); check_eq(L.compute(p, t)[0], s / (float)B, "the loss is the mean over the batch of -sum t log p"); auto g = L.gradient(p, t); std::vector<float> e(n); for (int i = 0; i < n; ++i) e[i] = -tv[i] / pv[i] / (float)B; checkTensor(g, d, e, "gradient of the cross entropy"); checkTensor(p, d, pv, "prediction unchanged"); checkTensor(t, d, tv, "target unchanged"); }
// predictions very close to 0 and 1 (inside the clamp) keep their exact weight
ENTRY(qr_small_p) { bool low = sym_pick("low", 0, 1); int B = sym_pick("batch", 1, 2); auto p = low ? symTensor<float>({B, 2}, "p", 2e-7, 0.01) : symTensor<float>({B, 2}, "p", 0.99, 0.9999), t = symTensor<float>({B, 2}, "t", 0, 1); CategoricalCrossEntropyLoss<float> L; float s = 0; for (int i = 0; i < 2 * B; ++i) s -= t[i] * std::log(p[i]); check_eq(L.compute(p, t)[0], s / (float)B, "the loss near the ends of the interval"); auto g = L.gradient(p, t); for (int i = 0; i < 2 * B; ++i) check_eq(g[i] * p[i], -t[i] / (float)B, "the gradient near the ends of the interval"); }
// a batch with a clamped row: the other rows are as if alone
ENTRY(qr_clamp_rows) { auto p = symTensor<float>({2, 2}, "p", 0.01, 0.99), t = symTensor<float>({2, 2}, "t", 0, 1); int at = sym_pick("at", 0, 3); bool hi = sym_pick("above", 0, 1); p[at] = hi ? sym_f32("q", 1, 3) : sym_f32("q", -3, 0); CategoricalCrossEntropyLoss<float> L; float c = hi ? 1.0f - 1e-7f : 1e-7f, s = 0; for (int i = 0; i < 4; ++i) s -= t[i] * std::log(i == at ? c : p[i]); check_eq(L.compute(p, t)[0], s / 2, "only the prediction outside the interval is clamped"); auto g = L.gradient(p, t); for (int i = 0; i < 4; ++i) if (i != at) check_eq(g[i], -t[i] / p[i] / 2, "a clamped prediction has no influence on the others' gradients"); }
ENTRY(qr_history) { CategoricalCrossEntropyLoss<float> L; static const Dims D[] = {{2, 2}, {1, 3}, {3, 1}, {2, 3}}; for (int k = 0; k < 3; ++k) { const Dims& d = D[sym_pick("shape", 0, 3)]; int n = prodOf(d), B = d[0]; auto p = symTensor<float>(d, "p", 0.01, 0.99), t = symTensor<float>(d, "t", 0, 1); int op = sym_pick("op", 0, 2); if (op == 2) { rejected([&] { L.compute(p, Tensor<float>({5, 2}, 1.f)); }); rejected([&] { L.gradient(p, Tensor<float>({7}, 1.f)); }); continue; } if (op == 0) { float s = 0; for (int i = 0; i < n; ++i) s -= t[i] * std::log(p[i]); check_eq(L.compute(p, t)[0], s / (float)B, "the loss does not depend on earlier calls"); } else { auto g = L.gradient(p, t); checkDims(g, d, "gradient shape"); for (int i = 0; i < n; ++i) check_eq(g[i], -t[i] / p[i] / (float)B, "the gradient does not depend on earlier calls"); } } }
// rows permuted: the loss is the same, the gradient follows
ENTRY(qr_permute) { auto p = symTensor<float>({3, 2}, "p", 0.01, 0.99), t = symTensor<float>({3, 2}, "t", 0, 1); Tensor<float> q({3, 2}), u({3, 2}); int k = sym_pick("k", 1, 2); for (int i = 0; i < 6; ++i) { int f = ((i / 2 + k) % 3) * 2 + i % 2; q[f] = p[i]; u[f] = t[i]; } CategoricalCrossEntropyLoss<float> L; check_eq(L.compute(q, u)[0], L.compute(p, t)[0], "the loss does not depend on the order of the batch"); auto g = L.gradient(p, t), h = L.gradient(q, u); for (int i = 0; i < 6; ++i) check_eq(h[((i / 2 + k) % 3) * 2 + i % 2], g[i], "the gradient follows the order of the batch"); }
ENTRY(tr_small) { check({sym_pick("batch", 1, 5), sym_pick("classes", 1, 6)}); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{600, 3}, {3, 600}, {5000, 1}}; const Dims& d = S[sym_pick("shape", 0, 2)]; int n = prodOf(d), B = d[0]; auto p = symTensor<float>(d, "p", 0.001, 0.999), t = symTensor<float>(d, "t", 0, 1); auto pv = values(p), tv = values(t); CategoricalCrossEntropyLoss<float> L; float s = 0; for (int i = 0; i < n; ++i) s -= tv[i] * std::log(pv[i]); check_eq(L.compute(p, t)[0], s / (float)B, "the loss is the mean over the batch of -sum t log p"); auto g = L.gradient(p, t); std::vector<float> e(n); for (int i = 0; i < n; ++i) e[i] = -tv[i] / pv[i] / (float)B; checkTensor(g, d, e, "gradient of the cross entropy"); checkTensor(p, d, pv, "prediction unchanged"); checkTensor(t, d, tv, "target unchanged"); }
// targets that are no probabilities
ENTRY(qr_any_targets) { static const Dims S[] = {{1, 1}, {1, 3}, {2, 2}, {3, 1}}; const Dims& d = S[sym_pick("shape", 0, 3)]; if (sym_pick("sign", 0, 1)) check(d, 0.5, 40); else check(d, -40, -0.5); }
