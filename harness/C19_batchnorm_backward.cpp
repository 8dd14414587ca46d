// @bounds rank-2 inputs with batch 1..4 and 1..2 features, rank-4 inputs listed up to (2,2,1,2); data, output gradients, gamma, beta and epsilon in [0.001, 1] symbolic; more features and batches, histories and training histories on one layer; epsilon up to 1024
// @assume real arithmetic with the exact square root; gradients are compared with the derivative of the executed forward pass
// @outside larger batches; NaN and infinite inputs
#include "bn.hpp"
static void grad(const Dims& d, bool params, float big = 0) {
  int F = d[1], n = prodOf(d); float eps = big ? big : sym_f32("eps", 0.001, 1); BatchNormalizationLayer<float> L(F, eps); SetParams p; if (params) setParams(L, F, d, p); else { p.gamma.assign(F, 1.f); p.beta.assign(F, 0.f); }
  auto x = symTensor<float>(d, "x"), g = symTensor<float>(d, "g"); auto gv = values(g); auto y = L.forward(x); auto r = L.backward(g); checkDims(r, d, "the input gradient has the input's shape"); checkTensor(g, d, gv, "output gradient unchanged");
  Stats s = batchStats(values(x), d); float N = (float)(n / F);
  std::vector<float> sg(F, 0.f), sgx(F, 0.f); for (int f = 0; f < n; ++f) { int c = featOf(f, d); sg[c] += g[f]; sgx[c] += g[f] * (x[f] - s.mean[c]); }
  for (int f = 0; f < n; ++f) { int c = featOf(f, d); float v = s.var[c] + eps; check_eq(r[f], p.gamma[c] / std::sqrt(v) * (g[f] - sg[c] / N - (x[f] - s.mean[c]) * sgx[c] / (N * v)), "input gradient of batch normalisation"); }
  SetParams q; q.gamma = p.gamma; q.beta = p.beta; L.updateWeights(q); if (q.grads.size() != 2) sym_fail("two parameter gradients"); for (int c = 0; c < F; ++c) { check_eq(q.grads[1][c], sg[c], "beta gradient"); check_eq(q.grads[0][c], sgx[c] / std::sqrt(s.var[c] + eps), "gamma gradient"); } sym_assert(q.grads[0].getShape().size() == (size_t)F && q.grads[1].getShape().size() == (size_t)F, "one gradient per feature");
}
ENTRY(qr_2d) { grad({sym_pick("batch", 1, 4), sym_pick("features", 1, 2)}, sym_pick("params", 0, 1)); }
ENTRY(qr_4d) { static const Dims S[] = {{1, 1, 2, 2}, {2, 2, 1, 2}, {2, 1, 2, 1}, {1, 3, 2, 1}, {1, 1, 3, 1}, {3, 2, 1, 1}}; grad(S[sym_pick("shape", 0, 5)], sym_pick("params", 0, 1)); }
ENTRY(qr_derivative) { int k = sym_pick("shape", 0, 2); static const Dims S[] = {{2, 1}, {3, 1}, {1, 1, 2, 1}}; const Dims& d = S[k]; int n = prodOf(d); float eps = sym_f32("eps", 0.001, 1); BatchNormalizationLayer<float> L(1, eps); SetParams p; setParams(L, 1, d, p); auto x = symTensor<float>(d, "x"), g = symTensor<float>(d, "g"); auto y = L.forward(x); float s = 0; for (int i = 0; i < n; ++i) s += g[i] * y[i]; auto r = L.backward(g); for (int i = 0; i < n; ++i) check_eq(r[i], sym_grad_f32(s, x[i], "dx"), "input gradient is the derivative of the forward pass"); SetParams q; q.gamma = p.gamma; q.beta = p.beta; L.updateWeights(q); check_eq(q.grads[0][0], sym_grad_f32(s, p.gamma[0], "dgamma"), "gamma gradient is the derivative"); check_eq(q.grads[1][0], sym_grad_f32(s, p.beta[0], "dbeta"), "beta gradient is the derivative"); }
ENTRY(qr_repeat) { BatchNormalizationLayer<float> L(1, 0.25f), M(1, 0.25f); auto x = symTensor<float>({2, 1}, "x"), g = symTensor<float>({2, 1}, "g"), z = symTensor<float>({3, 1}, "z"), h = symTensor<float>({3, 1}, "h"); L.forward(x); L.backward(g); L.forward(z); M.forward(z); checkTensor(L.backward(h), {3, 1}, values(M.backward(h)), "backward depends only on the last forward"); checkTensor(L.backward(h), {3, 1}, values(M.backward(h)), "backward can be repeated"); SetParams p, q; p.gamma = q.gamma = {1.f}; p.beta = q.beta = {0.f}; L.updateWeights(p); M.updateWeights(q); check_eq(p.grads[0][0], q.grads[0][0], "gamma gradients do not accumulate"); check_eq(p.grads[1][0], q.grads[1][0], "beta gradients do not accumulate"); }
ENTRY(qr_reject) { BatchNormalizationLayer<float> L(2); int k = sym_pick("k", 0, 5); if (k == 0) { auto g = symTensor<float>({2, 2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "backward before forward is rejected"); return; } if (k == 1) { Probe<float> p; sym_assert(rejected([&] { L.updateWeights(p); }) && p.calls == 0, "updating before backward is rejected"); return; } L.forward(symTensor<float>({2, 2}, "x")); static const Dims S[] = {{3, 2}, {2, 3}, {4}, {1, 2, 2, 1}}; auto g = symTensor<float>(S[k - 2], "g"); sym_assert(rejected([&] { L.backward(g); }), "a gradient of another shape is rejected"); }
ENTRY(tr_2d) { grad({sym_pick("batch", 1, 6), sym_pick("features", 1, 3)}, true); }
ENTRY(qr_more) { static const Dims S[] = {{2, 3}, {2, 5}, {2, 9}, {3, 3}, {5, 1}, {6, 1}, {1, 4, 2, 1}, {1, 1, 1, 5}, {5, 1, 1, 1}, {2, 3, 2, 1}, {1, 2, 2, 2}}; grad(S[sym_pick("shape", 0, 10)], true); }
// every backward belongs to the last training forward, with the parameters of that moment, whatever happened before
struct Hist { BatchNormalizationLayer<float> L; SetParams p; std::vector<float> v; Dims d; bool fresh = false; Hist() : L(1, 0.25f) { p.gamma.assign(1, 1.f); p.beta.assign(1, 0.f); }
  void step(int op) { switch (op) { case 0: case 1: case 2: { d = op == 0 ? Dims{2, 1} : op == 1 ? Dims{3, 1} : Dims{1, 1, 2, 1}; auto x = symTensor<float>(d, "x"); v = values(x); L.forward(x); x[0] = 99; fresh = true; break; }
    case 3: { if (!fresh) break; auto g = symTensor<float>(d, "g"); Stats s = batchStats(v, d); int n = prodOf(d); float sg = 0, sgx = 0, var = s.var[0] + 0.25f; for (int f = 0; f < n; ++f) { sg += g[f]; sgx += g[f] * (v[f] - s.mean[0]); } auto r = L.backward(g); checkDims(r, d, "gradient shape"); for (int f = 0; f < n; ++f) check_eq(r[f], p.gamma[0] / std::sqrt(var) * (g[f] - sg / (float)n - (v[f] - s.mean[0]) * sgx / ((float)n * var)), "input gradient of the last training forward"); SetParams q = p; L.updateWeights(q); check_eq(q.grads[1][0], sg, "beta gradient"); check_eq(q.grads[0][0], sgx / std::sqrt(var), "gamma gradient"); break; }
    case 4: { if (!fresh) break; L.backward(symTensor<float>(d, "h")); p.gamma[0] = sym_f32("gamma", -2, 2); p.beta[0] = sym_f32("beta", -2, 2); L.updateWeights(p); break; }
    case 5: L.setTrainingMode(false); L.forward(symTensor<float>({2, 1}, "e")); L.setTrainingMode(true); fresh = false; break;
    default: if (fresh) sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({5, 1}), 1.f)); }), "a wrong gradient is refused"); } } };
ENTRY(qr_histories) { Hist s; s.step(0); s.step(3); s.step(sym_pick("op", 0, 6)); s.step(sym_pick("op", 0, 6)); s.step(1); s.step(sym_pick("between", 3, 4)); s.step(3); }
ENTRY(qr_training_history) { Hist s; for (int i = 0; i < 2; ++i) { s.step(sym_pick("shape", 0, 2)); s.step(3); s.step(4); s.step(3); } s.step(2); s.step(3); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e3; static const Dims S[] = {{2, 1}, {3, 2}, {1, 1, 2, 1}}; grad(S[sym_pick("shape", 0, 2)], sym_pick("params", 0, 1)); }
// an epsilon that dominates the variance
ENTRY(qr_large_epsilon) { static const Dims S[] = {{2, 1}, {3, 2}, {1, 1, 2, 1}}; const Dims& d = S[sym_pick("shape", 0, 2)]; grad(d, sym_pick("params", 0, 1), sym_pick("large", 0, 1) ? 1024.f : 64.f); }
