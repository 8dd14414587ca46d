// @bounds up to 3 updates of 1 or 2 tensors with every option combination; up to 6 updates for selected combinations; 1..9 tensors per call and changing subsets of 3 tensors over 3 calls; every catalogue shape up to 17 elements and listed shapes up to 1089 elements; override on or off in every pattern over 4 calls; learning rate, beta1, beta2, epsilon, L1, L2, decay, override, weights and gradients symbolic; batch size 1..3; regularisers also exactly zero; beyond that, 5000 elements; histories of 60 steps with fixed hyper-parameters (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); symbolic gradients after 99, 255 or 1030 steps; gradients small enough that epsilon matters; 36 steps with beta1 and beta2 near one
// @assume real arithmetic with the exact square root
// @outside more than 60 steps; two tensors that live at the same address one after the other (C30); the parallel update of tensors above 1000 elements (C35)
#include "opt.hpp"
struct R : RefAdam { void operator()(std::vector<float>& w, const std::vector<float>& g, float lr, bool over) { step(w, g, lr, over); } };
static void run(const std::vector<Dims>& ds, int steps, int mask, int batch, int over) {
  AdamOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.beta1 = sym_f32("b1", 0.01, 0.99); o.beta2 = sym_f32("b2", 0.01, 0.99); o.epsilon = sym_f32("eps", 0.001, 1); o.l1Strength = mask & 1 ? sym_f32("l1", 0.01, 1) : 0.f; o.l2Strength = mask & 2 ? sym_f32("l2", 0.01, 1) : 0.f; o.decay = mask & 4 ? sym_f32("decay", 0.01, 1) : 0.f; o.batchSize = batch; AdamOptimizer<float> opt(o);
  std::vector<Tensor<float>> ts; for (auto& d : ds) ts.push_back(symTensor<float>(d, "w", mask & 1 ? 3 : -4, mask & 1 ? 9 : 4)); std::vector<Tensor<float>*> ws; std::vector<std::vector<float>> ref; std::vector<R> rs(ds.size()); for (size_t i = 0; i < ds.size(); ++i) { ws.push_back(&ts[i]); ref.push_back(values(ts[i])); auto& r = rs[i]; r.b1 = o.beta1; r.b2 = o.beta2; r.eps = o.epsilon; r.l1 = o.l1Strength; r.l2 = o.l2Strength; r.decay = o.decay; r.batch = batch; }
  for (int k = 0; k < steps; ++k) stepBoth(opt, ws, ref, rs, (over >> k) & 1, o.learningRate); }
ENTRY(qr_steps) { run({{2}}, sym_pick("steps", 1, 3), 0, 1, 0); }
ENTRY(qr_options) { run({{1}}, 2, sym_pick("mask", 0, 7) & 6, sym_pick("batch", 1, 3), 0); }
ENTRY(qr_l1) { run({{2}}, 1, 1 + 2 * sym_pick("l2", 0, 1), 1, 0); }
ENTRY(qr_l1_sign) { AdamOptions<float> o; o.l1Strength = sym_f32("l1", 0.01, 1); o.learningRate = 0.5f; AdamOptimizer<float> opt(o); auto w = symTensor<float>({2}, "w"); w[1] = 0; auto v = values(w); Tensor<float> g({2}, 0.f); opt.optimize({std::ref(w)}, {std::ref(g)}); check_eq(w[0], v[0] - 0.5f * o.l1Strength * (v[0] > 0 ? 1.f : v[0] < 0 ? -1.f : 0.f), "L1 pulls towards zero"); check_eq(w[1], 0.f, "L1 leaves zero alone"); }
ENTRY(qr_two_tensors) { run({{2, 1}, {3}}, 2, 4, 1, 0); }
ENTRY(qr_override) { run({{1}, {2}}, 2, 6, 2, sym_pick("over", 0, 3)); }
ENTRY(qr_large) { static const Dims S[] = {{3, 3}, {9}, {2, 2, 2}, {1, 2, 2, 1}}; run({S[sym_pick("shape", 0, 3)]}, 2, 0, 1, 0); }
// every tensor counts its own steps, in separate calls and in any order
ENTRY(qr_interleaved) { AdamOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.beta1 = sym_f32("b1", 0.01, 0.99); o.beta2 = sym_f32("b2", 0.01, 0.99); o.epsilon = 0.125f; o.decay = 0.5f; AdamOptimizer<float> opt(o); auto a = symTensor<float>({1}, "a"), b = symTensor<float>({1}, "b"); R r; r.b1 = o.beta1; r.b2 = o.beta2; r.eps = 0.125f; r.l1 = r.l2 = 0; r.decay = 0.5f; r.batch = 1; std::vector<R> ra{r}, rb{r}; std::vector<std::vector<float>> va{values(a)}, vb{values(b)}; for (int k = 0; k < 3; ++k) { if (sym_pick("which", 0, 1)) stepBoth(opt, {&a}, va, ra, false, o.learningRate); else stepBoth(opt, {&b}, vb, rb, false, o.learningRate); } checkTensor(a, {1}, va[0], "updating one tensor leaves the other alone"); checkTensor(b, {1}, vb[0], "updating one tensor leaves the other alone"); }
// the first bias-corrected step has size lr * g / (|g| + eps)
ENTRY(qr_first_step) { AdamOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.beta1 = sym_f32("b1", 0.01, 0.99); o.beta2 = sym_f32("b2", 0.01, 0.99); o.epsilon = 0.125f; AdamOptimizer<float> opt(o); auto w = symTensor<float>({1}, "w"), g = symTensor<float>({1}, "g", 0.5, 4); float before = w[0]; opt.optimize({std::ref(w)}, {std::ref(g)}); check_eq(before - w[0], o.learningRate * g[0] / (g[0] + 0.125f), "the first step is bias corrected"); }
ENTRY(qr_defaults) { AdamOptimizer<float> p; AdamOptions<float> o; o.learningRate = 0.001f; o.beta1 = 0.9f; o.beta2 = 0.999f; o.epsilon = 1e-8f; o.l1Strength = o.l2Strength = o.decay = 0; o.batchSize = 1; AdamOptimizer<float> q(o); auto w = symTensor<float>({2}, "w"), g = symTensor<float>({2}, "g", 0.5, 4); Tensor<float> u(w); for (int k = 0; k < 2; ++k) { p.optimize({std::ref(w)}, {std::ref(g)}); q.optimize({std::ref(u)}, {std::ref(g)}); } checkTensor(w, {2}, values(u), "documented defaults"); }
ENTRY(qr_reject) { AdamOptimizer<float> opt; auto a = symTensor<float>({2}, "a"), b = symTensor<float>({2, 2}, "b"), g = symTensor<float>({2}, "g"), h = symTensor<float>({3}, "h"); auto va = values(a), vb = values(b); int k = sym_pick("k", 0, 3); bool r = rejected([&] { if (k == 0) opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g)}); else if (k == 1) opt.optimize({std::ref(a)}, {std::ref(g), std::ref(h)}); else if (k == 2) opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g), std::ref(h)}); else opt.optimize({std::ref(a)}, {std::ref(h)}); }); sym_assert(r, "a gradient list that does not match the weights is rejected"); checkTensor(a, {2}, va, "a rejected update changes nothing"); checkTensor(b, {2, 2}, vb, "a rejected update changes nothing"); }
ENTRY(qf_finite) { AdamOptimizer<float> opt; float g = sym_f32_any("g"); sym_assume(g >= -1e9f && g <= 1e9f); Tensor<float> w(Shape({1}), 0.f), G(Shape({1}), g); opt.optimize({std::ref(w)}, {std::ref(G)}); sym_assert(w[0] == w[0], "an update with a finite gradient never produces NaN"); }
// long tensors: the middle and both ends, every element with its own symbolic value
// constant hyper-parameters, so that the signs under the square root need no solver
static void longRun(const Dims& d, int steps, float l1, int over) { AdamOptions<float> o; o.learningRate = 0.25f; o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = 0.125f; o.l1Strength = l1; o.l2Strength = 0.0625f; o.decay = 0.5f; o.batchSize = 2; AdamOptimizer<float> opt(o); auto t = symTensor<float>(d, "w", 3, 9); std::vector<std::vector<float>> ref{values(t)}; R r; r.b1 = 0.5f; r.b2 = 0.75f; r.eps = 0.125f; r.l1 = l1; r.l2 = 0.0625f; r.decay = 0.5f; r.batch = 2; std::vector<R> rs{r}; for (int k = 0; k < steps; ++k) stepBoth(opt, {&t}, ref, rs, (over >> k) & 1, 0.25f, 0.5, 4); }
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 129}, {255}, {4, 3, 8, 8}, {999}, {1000}, {1001}}; longRun(S[sym_pick("shape", 0, 7)], 2, 0, 2); }
ENTRY(qr_catalogue) { run({pickShape(17)}, 2, sym_pick("set", 0, 1) * 6, 1, 0); }
ENTRY(qr_long_l1) { static const Dims S[] = {{1030}, {999}, {1001}, {40, 26}}; longRun(S[sym_pick("shape", 0, 3)], 1, 0.125f, 0); }
ENTRY(qr_many_steps) { run({{1}}, sym_pick("steps", 4, 6), 4 * sym_pick("decay", 0, 1), 1, 0b10100); }
ENTRY(qr_many_tensors) { std::vector<Dims> ds; int n = sym_pick("tensors", 3, 9); for (int i = 0; i < n; ++i) ds.push_back(i % 3 == 0 ? Dims{1} : i % 3 == 1 ? Dims{2, 1} : Dims{3}); run(ds, 2, 6, 1, 2); }
ENTRY(qr_subsets) { AdamOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = 0.125f; o.decay = 0.5f; AdamOptimizer<float> opt(o); std::vector<Tensor<float>> ts{symTensor<float>({2}, "a"), symTensor<float>({1, 3}, "b"), symTensor<float>({2, 1}, "c")}; R r; r.b1 = 0.5f; r.b2 = 0.75f; r.eps = 0.125f; r.l1 = r.l2 = 0; r.decay = 0.5f; r.batch = 1; std::vector<R> rs(3, r); std::vector<std::vector<float>> v; for (auto& t : ts) v.push_back(values(t)); for (int k = 0; k < 3; ++k) { int set = sym_pick("subset", 0, 7); bool rev = k == 1; std::vector<Tensor<float>*> ws; std::vector<std::vector<float>> rv; std::vector<R> rr; std::vector<int> id; for (int j = 0; j < 3; ++j) { int i = rev ? 2 - j : j; if (set >> i & 1) { ws.push_back(&ts[i]); rv.push_back(v[i]); rr.push_back(rs[i]); id.push_back(i); } } stepBoth(opt, ws, rv, rr, false, o.learningRate); for (size_t j = 0; j < id.size(); ++j) { v[id[j]] = rv[j]; rs[id[j]] = rr[j]; } } for (int i = 0; i < 3; ++i) checkTensor(ts[i], ts[i].getShape().getDimensions(), v[i], "a tensor outside the list is left alone"); }
ENTRY(qr_override_sequence) { run({{1}}, 4, sym_pick("set", 0, 1) * 6, 1, sym_pick("over", 0, 15)); }
// L1 with weights that change their sign between steps
ENTRY(qr_l1_two) { AdamOptions<float> o; o.learningRate = 0.5f; o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = 0.125f; o.l1Strength = sym_f32("l1", 0.01, 1); o.l2Strength = sym_pick("l2", 0, 1) ? 0.25f : 0.f; AdamOptimizer<float> opt(o); Tensor<float> w({2}); w[0] = sym_f32("w", 0.25, 0.5); w[1] = sym_f32("w", -0.5, -0.25); RefAdam r{0.5f, 0.75f, 0.125f, o.l1Strength, o.l2Strength, 0.f, 1}; auto v = values(w); for (int k = 0; k < 2; ++k) { Tensor<float> g({2}); g[0] = sym_f32("g", 4, 8); g[1] = sym_f32("g", -8, -4); if (k) { g[0] = -g[0]; g[1] = -g[1]; } auto gv = values(g); opt.optimize({std::ref(w)}, {std::ref(g)}); r.step(v, gv, 0.5f, false); checkTensor(w, {2}, v, "L1 follows the sign of the weight at every step"); } }
ENTRY(tr_steps) { run({{2}, {1, 2}}, 3, sym_pick("mask", 0, 3) * 2, sym_pick("batch", 1, 2), sym_pick("over", 0, 7)); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{5000}, {66, 65}}; longRun(S[sym_pick("shape", 0, 1)], 2, 0, 2); }
// long histories with fixed hyper-parameters and fresh symbolic gradients
ENTRY(qr_long_history) { AdamOptions<float> o; o.learningRate = 0.25f; o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = 0.125f; o.decay = 0.5f * sym_pick("decay", 0, 1); o.batchSize = 1; AdamOptimizer<float> opt(o); auto w = symTensor<float>({1}, "w"); R r; r.b1 = 0.5f; r.b2 = 0.75f; r.eps = 0.125f; r.l1 = r.l2 = 0; r.decay = o.decay; r.batch = 1; std::vector<R> rs{r}; std::vector<std::vector<float>> v{values(w)}; for (int k = 0; k < 60; ++k) stepBoth(opt, {&w}, v, rs, k % 7 == 3, 0.25f); }
// an override that is not positive means the configured rate
ENTRY(qr_override_none) { AdamOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.decay = 0.5f; o.epsilon = 0.125f; o.beta1 = 0.5f; o.beta2 = 0.75f; AdamOptimizer<float> p(o), q(o); auto w = symTensor<float>({2}, "w"); Tensor<float> u(w); int at = sym_pick("at", 0, 2); for (int k = 0; k < 3; ++k) { auto g = symTensor<float>({2}, "g"); if (k == at) p.optimize({std::ref(w)}, {std::ref(g)}, sym_f32("override", -1000, 0)); else p.optimize({std::ref(w)}, {std::ref(g)}); q.optimize({std::ref(u)}, {std::ref(g)}); checkTensor(w, {2}, values(u), "an override that is not positive is no override"); } }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e4; run({{1}}, 2, 2 * sym_pick("mask", 0, 3), sym_pick("batch", 1, 2), sym_pick("over", 0, 1)); }
// slowly decaying averages: the bias correction still matters after many steps
ENTRY(qr_slow_averages) { AdamOptions<float> o; o.learningRate = 0.25f; o.beta1 = 0.96875f; o.beta2 = 0.9375f; o.epsilon = 0.125f; o.decay = 0; o.batchSize = 1; AdamOptimizer<float> opt(o); auto w = symTensor<float>({1}, "w"); R r; r.b1 = 0.96875f; r.b2 = 0.9375f; r.eps = 0.125f; r.l1 = r.l2 = 0; r.decay = 0; r.batch = 1; std::vector<R> rs{r}; std::vector<std::vector<float>> v{values(w)}; for (int k = 0; k < 36; ++k) stepBoth(opt, {&w}, v, rs, k % 7 == 3, 0.25f); }
// small gradients and a small epsilon
ENTRY(qr_small_gradients) { AdamOptions<float> o; o.learningRate = sym_f32("lr", 0.5, 1); o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = sym_f32("eps", 0.0000001, 0.00001); AdamOptimizer<float> opt(o); Tensor<float> w(Shape({1}), 0.f); R r; r.b1 = 0.5f; r.b2 = 0.75f; r.eps = o.epsilon; r.l1 = r.l2 = r.decay = 0; r.batch = 1; std::vector<float> v{0}; auto one = [&](float s) { auto g = symTensor<float>({1}, "g", s < 0 ? s : s / 2, s < 0 ? s / 2 : s); opt.optimize({std::ref(w)}, {std::ref(g)}); r(v, values(g), o.learningRate, false); checkValues(w, v, "the update for a small gradient"); }; one(sym_pick("negative", 0, 1) ? -0.0001f : 0.0001f); one(0.001f); }
// an optimizer that has seen many updates before: of other tensors (no influence) or of this one with zero gradients (only the step count advances)
ENTRY(qr_late) { static const int N[] = {99, 255, 1030}; int n = N[sym_pick("n", 0, 2)]; bool other = sym_pick("other", 0, 1); AdamOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = 0.125f; o.decay = sym_pick("decay", 0, 1) * 0.001953125f; AdamOptimizer<float> opt(o); auto w = symTensor<float>({2}, "w"); Tensor<float> u(Shape({2}), 1.f), z(Shape({2}), 0.f); for (int k = 0; k < n; ++k) opt.optimize({std::ref(other ? u : w)}, {std::ref(z)}); R r; r.b1 = 0.5f; r.b2 = 0.75f; r.eps = 0.125f; r.l1 = r.l2 = 0; r.decay = o.decay; r.batch = 1; if (!other) { r.t = n; r.m.assign(2, 0.f); r.v = r.m; } std::vector<R> rs{r}; std::vector<std::vector<float>> v{values(w)}; for (int k = 0; k < 3; ++k) stepBoth(opt, {&w}, v, rs, k == 1, o.learningRate); checkTensor(u, {2}, {1, 1}, "the other tensor"); }
