// @bounds rank-2 inputs with batch 1..4 and 1..3 features, rank-4 inputs listed up to (2,3,2,2); data, gamma, beta, epsilon in [0.001, 1] and momentum in [0, 1] symbolic; up to 3 training passes before evaluation; up to 9 features / batches of 33; histories of training, evaluation, parameter replacement and refused calls; alternating modes; beyond that, batches of 600, 1122 pixels or 66 features (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); a pass after 99, 255 or 1030 training passes
// @assume real arithmetic with the exact square root; gamma and beta are set through the optimizer interface
// @outside larger batches; NaN and infinite inputs
#include "bn.hpp"
static void checkOut(const Tensor<float>& y, const std::vector<float>& v, const Dims& d, const Stats& s, float eps, const SetParams& p, const char* msg) { checkDims(y, d, "output shape"); for (size_t f = 0; f < v.size(); ++f) { int c = featOf((int)f, d); check_eq(y[f], (v[f] - s.mean[c]) / std::sqrt(s.var[c] + eps) * p.gamma[c] + p.beta[c], msg); } }
static void train(const Dims& d, bool params) { int F = d[1]; float eps = sym_f32("eps", 0.001, 1); BatchNormalizationLayer<float> L(F, eps, 0.9f); SetParams p; p.gamma.assign(F, 1.f); p.beta.assign(F, 0.f); if (params) setParams(L, F, d, p); auto x = symTensor<float>(d, "x"); auto v = values(x); auto y = L.forward(x); checkOut(y, v, d, batchStats(v, d), eps, p, "training output is gamma*(x-mean)/sqrt(var+eps)+beta"); checkTensor(x, d, v, "input unchanged"); }
ENTRY(qr_train_2d) { train({sym_pick("batch", 1, 4), sym_pick("features", 1, 3)}, sym_pick("params", 0, 1)); }
ENTRY(qr_train_4d) { static const Dims S[] = {{1, 1, 2, 2}, {2, 2, 1, 2}, {2, 1, 2, 1}, {1, 3, 2, 1}, {2, 3, 2, 2}, {3, 2, 1, 1}, {4, 4, 1, 1}, {1, 2, 3, 3}}; train(S[sym_pick("shape", 0, 7)], sym_pick("params", 0, 1)); }
// running statistics: after k training passes, evaluation normalises with momentum*running + (1-momentum)*batch
static void eval(const std::vector<Dims>& ds, const Dims& ed) { int F = ed[1]; float eps = sym_f32("eps", 0.001, 1), m = sym_f32("momentum", 0, 1); BatchNormalizationLayer<float> L(F, eps, m); Stats run; run.mean.assign(F, 0.f); run.var.assign(F, 1.f); SetParams p; p.gamma.assign(F, 1.f); p.beta.assign(F, 0.f); for (auto& d : ds) { auto x = symTensor<float>(d, "t"); L.forward(x); Stats s = batchStats(values(x), d); for (int c = 0; c < F; ++c) { run.mean[c] = m * run.mean[c] + (1 - m) * s.mean[c]; run.var[c] = m * run.var[c] + (1 - m) * s.var[c]; } } L.setTrainingMode(false); auto x = symTensor<float>(ed, "x"); auto v = values(x); auto y = L.forward(x); checkOut(y, v, ed, run, eps, p, "evaluation output uses the running statistics"); auto y2 = L.forward(x); checkTensor(y2, ed, values(y), "evaluation does not change the statistics"); checkTensor(x, ed, v, "input unchanged"); L.setTrainingMode(true); auto z = L.forward(x); checkOut(z, v, ed, batchStats(v, ed), eps, p, "switching back to training uses the batch statistics"); }
ENTRY(qr_eval_fresh) { int k = sym_pick("k", 0, 2); static const Dims S[] = {{2, 2}, {1, 3}, {1, 2, 2, 1}}; eval({}, S[k]); }
ENTRY(qr_eval_1) { int k = sym_pick("k", 0, 3); static const Dims S[] = {{2, 2}, {3, 1}, {1, 2, 2, 1}, {4, 2}}, E[] = {{1, 2}, {2, 1}, {1, 2, 1, 2}, {2, 2}}; eval({S[k]}, E[k]); }
ENTRY(qr_eval_2) { int k = sym_pick("k", 0, 2); if (k == 0) eval({{2, 1}, {3, 1}}, {2, 1}); else if (k == 1) eval({{1, 2, 2, 1}, {2, 2}}, {1, 2}); else eval({{2, 1}, {1, 1}, {2, 1}}, {1, 1, 1, 2}); }
// gamma and beta also apply in evaluation mode
ENTRY(qr_eval_params) { float eps = sym_f32("eps", 0.001, 1); BatchNormalizationLayer<float> L(2, eps, 0.5f); SetParams p; setParams(L, 2, {2, 2}, p); L.setTrainingMode(false); Stats run; run.mean.assign(2, 0.f); run.var.assign(2, 0.5f); auto x = symTensor<float>({2, 2}, "x"); auto v = values(x); checkOut(L.forward(x), v, {2, 2}, run, eps, p, "evaluation applies gamma and beta"); }
ENTRY(qr_normalised) { BatchNormalizationLayer<float> L(1, 0.25f); auto x = symTensor<float>({3, 1}, "x"); auto y = L.forward(x); float s = 0, q = 0; for (int i = 0; i < 3; ++i) s += y[i]; check_eq(s, 0.f, "a training output has zero mean"); for (int i = 0; i < 3; ++i) q += y[i] * y[i]; Stats t = batchStats(values(x), {3, 1}); check_eq(q / 3 * (t.var[0] + 0.25f), t.var[0], "a training output has variance var/(var+eps)"); }
ENTRY(qr_defaults) { BatchNormalizationLayer<float> L(1), M(1, 1e-5f, 0.9f); auto x = symTensor<float>({2, 1}, "x"); sym_assume(x[0] > x[1] + 0.5f); auto a = L.forward(x), b = M.forward(x); checkTensor(a, {2, 1}, values(b), "documented defaults (training)"); L.setTrainingMode(false); M.setTrainingMode(false); checkTensor(L.forward(x), {2, 1}, values(M.forward(x)), "documented defaults (evaluation)"); }
ENTRY(qr_reject) { BatchNormalizationLayer<float> L(2); int k = sym_pick("k", 0, 6); static const Dims S[] = {{2}, {4}, {2, 2, 2}, {2, 3}, {2, 1}, {1, 3, 2, 2}, {2, 2, 2, 2, 2}}; if (sym_pick("eval", 0, 1)) L.setTrainingMode(false); auto x = symTensor<float>(S[k], "x"); sym_assert(rejected([&] { L.forward(x); }), "inputs of another rank or feature count are rejected"); }
ENTRY(tr_eval_3) { eval({{2, 2}, {3, 2}, {2, 2}}, {2, 2}); }
ENTRY(tr_train_2d) { train({sym_pick("batch", 1, 6), sym_pick("features", 1, 4)}, true); }
ENTRY(qr_more_features) { static const Dims S[] = {{2, 5}, {2, 9}, {5, 2}, {6, 1}, {9, 1}, {2, 17}, {1, 5, 2, 1}, {2, 4, 1, 1}, {5, 1, 1, 1}, {1, 1, 5, 1}, {1, 1, 1, 6}, {1, 9, 1, 2}}; train(S[sym_pick("shape", 0, 11)], sym_pick("params", 0, 1)); }
// the statistics separately, for larger batches: output differences are proportional to input differences, and the output mean is beta
ENTRY(qr_large_batch) { static const Dims S[] = {{16, 2}, {17, 1}, {33, 2}, {2, 2, 4, 4}, {4, 3, 3, 3}, {65, 1}, {2, 33}, {1, 2, 8, 8}}; const Dims& d = S[sym_pick("shape", 0, 7)]; BatchNormalizationLayer<float> L(d[1], 0.25f); SetParams p; setParams(L, d[1], d, p); auto x = symTensor<float>(d, "x"); auto v = values(x); auto y = L.forward(x); checkDims(y, d, "output shape"); int n = prodOf(d), F = d[1]; std::vector<float> sum(F, 0.f); std::vector<int> first(F, -1); Stats s; s.mean.assign(F, 0.f); for (int f = 0; f < n; ++f) { int c = featOf(f, d); sum[c] += y[f]; s.mean[c] += v[f]; if (first[c] < 0) first[c] = f; } for (int c = 0; c < F; ++c) check_eq(sum[c] * F, p.beta[c] * n, "the mean of a training output is beta"); }
ENTRY(qr_eval_wide) { static const Dims S[] = {{9, 2}, {2, 9}, {17, 3}, {2, 3, 4, 4}, {1, 5, 3, 3}, {33, 1}, {5, 4, 1, 2}}; const Dims& d = S[sym_pick("shape", 0, 6)]; int F = d[1]; float eps = sym_f32("eps", 0.001, 1); BatchNormalizationLayer<float> L(F, eps, 0.5f); SetParams p; setParams(L, F, d, p); Stats run; run.mean.assign(F, 0.f); run.var.assign(F, 0.5f); auto t = symTensor<float>({1, F}, "t"); L.forward(t); for (int c = 0; c < F; ++c) { run.mean[c] = 0.5f * t[c]; run.var[c] = 0.25f; } L.setTrainingMode(false); auto x = symTensor<float>(d, "x"); auto v = values(x); checkOut(L.forward(x), v, d, run, eps, p, "evaluation output uses the running statistics"); checkTensor(x, d, v, "input unchanged"); }
// histories of training and evaluation passes of other batch sizes, mode switches, parameter updates and refused calls
struct BnSteps { float m; BatchNormalizationLayer<float> L; Stats run; SetParams p; std::vector<float> v; Dims xd; bool training = true, grads = false; BnSteps() : m(sym_f32("momentum", 0, 1)), L(2, 0.25f, m) { run.mean.assign(2, 0.f); run.var.assign(2, 1.f); p.gamma.assign(2, 1.f); p.beta.assign(2, 0.f); }
  void step(int op) { switch (op) { case 0: case 1: case 2: { xd = op == 0 ? Dims{2, 2} : op == 1 ? Dims{3, 2} : Dims{1, 2, 2, 1}; auto x = symTensor<float>(xd, "x"); v = values(x); Stats s = batchStats(v, xd); auto y = L.forward(x); checkOut(y, v, xd, training ? s : run, 0.25f, p, training ? "training output" : "evaluation output"); if (training) { for (int c = 0; c < 2; ++c) { run.mean[c] = m * run.mean[c] + (1 - m) * s.mean[c]; run.var[c] = m * run.var[c] + (1 - m) * s.var[c]; } grads = true; } break; }
    case 3: training = true; L.setTrainingMode(true); break;
    case 4: training = false; L.setTrainingMode(false); break;
    case 5: if (grads && training) { L.backward(symTensor<float>(xd, "g")); for (int c = 0; c < 2; ++c) { p.gamma[c] = sym_f32("gamma", -2, 2); p.beta[c] = sym_f32("beta", -2, 2); } L.updateWeights(p); } break;
    default: sym_assert(rejected([&] { L.forward(Tensor<float>(Shape({2, 3}), 1.f)); }), "a wrong feature count is refused"); } } };
ENTRY(qr_histories) { BnSteps s; s.step(0); s.step(sym_pick("op", 0, 6)); s.step(sym_pick("op", 0, 6)); s.step(1); s.step(4); s.step(0); }
ENTRY(qr_alternating) { BnSteps s; int n = sym_pick("passes", 1, 3); for (int i = 0; i < n; ++i) { s.step(4); s.step(i % 3); s.step(3); s.step((i + 1) % 3); } s.step(4); s.step(0); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{130, 2}, {2, 1, 34, 33}, {2, 66}, {600, 3}}; const Dims& d = S[sym_pick("shape", 0, 3)]; BatchNormalizationLayer<float> L(d[1], 0.25f); SetParams p; setParams(L, d[1], d, p); auto x = symTensor<float>(d, "x"); auto v = values(x); auto y = L.forward(x); checkDims(y, d, "output shape"); int n = prodOf(d), F = d[1]; std::vector<float> sum(F, 0.f); std::vector<int> first(F, -1); Stats s; s.mean.assign(F, 0.f); for (int f = 0; f < n; ++f) { int c = featOf(f, d); sum[c] += y[f]; s.mean[c] += v[f]; if (first[c] < 0) first[c] = f; } for (int c = 0; c < F; ++c) check_eq(sum[c] * F, p.beta[c] * n, "the mean of a training output is beta"); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e3; static const Dims S[] = {{2, 1}, {3, 2}, {1, 1, 2, 1}}; int k = sym_pick("shape", 0, 2), how = sym_pick("how", 0, 2); if (how == 2) eval({S[k]}, S[k]); else train(S[k], how); }
// many training passes: the running statistics keep following their recurrence
ENTRY(qr_late) { static const int N[] = {99, 255, 1030}; int n = N[sym_pick("n", 0, 2)]; BatchNormalizationLayer<float> L(1, 0.125f, 0.5f); Tensor<float> c(Shape({2, 1}), 1.f), z(Shape({2, 1}), 0.f); float rm = 0, rv = 1; for (int k = 0; k < n; ++k) { bool one = k < n - 20; L.forward(one ? c : z); rm = 0.5f * rm + (one ? 0.5f : 0.f); rv = 0.5f * rv; } auto x = symTensor<float>({2, 1}, "t"); L.forward(x); float a = x[0], b = x[1], m = (a + b) / 2, v = ((a - m) * (a - m) + (b - m) * (b - m)) / 2; L.setTrainingMode(false); auto q = symTensor<float>({1, 1}, "x"); float mean = 0.5f * m + 0.5f * rm, var = 0.5f * v + 0.5f * rv; for (int pass = 0; pass < 2; ++pass) { auto y = L.forward(q); check_eq(y[0], (q[0] - mean) / std::sqrt(var + 0.125f), "evaluation uses the running statistics however long the training was"); } }
