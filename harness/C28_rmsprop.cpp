// @bounds every hyper-parameter combination over up to 2 updates of 1 or 2 tensors (centered: 1 element); up to 6 updates for selected combinations; 1..9 tensors per call and changing subsets of 3 tensors over 3 calls; every catalogue shape up to 17 elements and listed shapes up to 1089 elements; override on or off in every pattern over 3 calls; learning rate, alpha, epsilon, momentum, weight decay, override, weights and gradients symbolic; centered on and off; hyper-parameters also exactly zero; beyond that, 5000 elements; histories of 40 steps with fixed hyper-parameters (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); symbolic gradients after 99, 255 or 1030 steps; gradients small enough that epsilon matters; options in [1, 3], negative momentum and decay; a first gradient of exactly zero
// @assume real arithmetic with the exact square root
// @outside more than 40 steps (2 when centered); two tensors that live at the same address one after the other (C30)
#include "opt.hpp"
struct R : RefRMS { void operator()(std::vector<float>& w, const std::vector<float>& g, float lr, bool) { step(w, g, lr); } };
static double OLO = 0.01, OHI = 1, WLO = 0.01, WHI = 1; // range of the momentum, and of the weight decay
static void run(const std::vector<Dims>& ds, int steps, int mask, int cen, int over) {
  RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.alpha = sym_f32("alpha", 0.01, 0.99); o.epsilon = sym_f32("eps", 0.01, 1); o.momentum = mask & 1 ? sym_f32("momentum", OLO, OHI) : 0.f; o.weightDecay = mask & 2 ? sym_f32("decay", WLO, WHI) : 0.f; o.centered = cen; RMSPropOptimizer<float> opt(o);
  std::vector<Tensor<float>> ts; for (auto& d : ds) ts.push_back(symTensor<float>(d, "w")); std::vector<Tensor<float>*> ws; std::vector<std::vector<float>> ref; std::vector<R> rs(ds.size()); for (size_t i = 0; i < ds.size(); ++i) { ws.push_back(&ts[i]); ref.push_back(values(ts[i])); rs[i].alpha = o.alpha; rs[i].eps = o.epsilon; rs[i].mom = o.momentum; rs[i].wd = o.weightDecay; rs[i].cen = cen; }
  for (int k = 0; k < steps; ++k) stepBoth(opt, ws, ref, rs, (over >> k) & 1, o.learningRate); }
ENTRY(qr_steps) { run({{2}}, sym_pick("steps", 1, 2), sym_pick("mask", 0, 3), 0, 0); }
ENTRY(qr_centered) { run({{1}}, sym_pick("steps", 1, 2), sym_pick("mask", 0, 3), 1, 0); }
ENTRY(qr_two_tensors) { run({{2, 1}, {3}}, 2, sym_pick("mask", 0, 3), 0, 0); }
ENTRY(qr_override) { run({{1}, {2}}, 2, 3, 0, sym_pick("over", 0, 3)); }
ENTRY(qr_large) { static const Dims S[] = {{3, 3}, {9}, {2, 2, 2}, {1, 2, 2, 1}}; run({S[sym_pick("shape", 0, 3)]}, 2, 3, 0, 0); }
ENTRY(qr_interleaved) { RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.alpha = sym_f32("alpha", 0.01, 0.99); o.momentum = sym_f32("momentum", 0.01, 1); o.epsilon = 0.125f; o.centered = sym_pick("centered", 0, 1); RMSPropOptimizer<float> opt(o); auto a = symTensor<float>({2}, "a"), b = symTensor<float>({2}, "b"); R r; r.alpha = o.alpha; r.eps = 0.125f; r.mom = o.momentum; r.wd = 0; r.cen = o.centered; std::vector<R> ra{r}, rb{r}; std::vector<std::vector<float>> va{values(a)}, vb{values(b)}; for (int k = 0; k < (o.centered ? 2 : 3); ++k) { if (sym_pick("which", 0, 1)) stepBoth(opt, {&a}, va, ra, false, o.learningRate); else stepBoth(opt, {&b}, vb, rb, false, o.learningRate); } checkTensor(a, {2}, va[0], "updating one tensor leaves the other alone"); checkTensor(b, {2}, vb[0], "updating one tensor leaves the other alone"); }
ENTRY(qr_defaults) { RMSPropOptimizer<float> p; RMSPropOptions<float> o; o.learningRate = 0.01f; o.alpha = 0.99f; o.epsilon = 1e-8f; o.momentum = 0; o.centered = false; o.weightDecay = 0; RMSPropOptimizer<float> q(o); auto w = symTensor<float>({2}, "w"), g = symTensor<float>({2}, "g", 0.5, 4); Tensor<float> u(w); for (int k = 0; k < 2; ++k) { p.optimize({std::ref(w)}, {std::ref(g)}); q.optimize({std::ref(u)}, {std::ref(g)}); } checkTensor(w, {2}, values(u), "documented defaults"); }
ENTRY(qr_descent) { RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.alpha = sym_f32("alpha", 0.01, 0.99); o.epsilon = 0.01f; RMSPropOptimizer<float> opt(o); auto w = symTensor<float>({1}, "w"), g = symTensor<float>({1}, "g"); float before = w[0]; sym_assume(g[0] > 0.1f); opt.optimize({std::ref(w)}, {std::ref(g)}); sym_assert(w[0] < before, "a step goes against the gradient"); }
ENTRY(qr_reject) { RMSPropOptimizer<float> opt; auto a = symTensor<float>({2}, "a"), b = symTensor<float>({2, 2}, "b"), g = symTensor<float>({2}, "g"), h = symTensor<float>({3}, "h"); auto va = values(a), vb = values(b); int k = sym_pick("k", 0, 3); bool r = rejected([&] { if (k == 0) opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g)}); else if (k == 1) opt.optimize({std::ref(a)}, {std::ref(g), std::ref(h)}); else if (k == 2) opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g), std::ref(h)}); else opt.optimize({std::ref(a)}, {std::ref(h)}); }); sym_assert(r, "a gradient list that does not match the weights is rejected"); checkTensor(a, {2}, va, "a rejected update changes nothing"); checkTensor(b, {2, 2}, vb, "a rejected update changes nothing"); }
// centered: a constant gradient must never produce a NaN, whatever rounding does to the variance
ENTRY(qf_centered_finite) { RMSPropOptions<float> o; o.centered = true; RMSPropOptimizer<float> opt(o); float g = sym_f32_any("g"); sym_assume(g >= -1e9f && g <= 1e9f); Tensor<float> w(Shape({1}), 0.f), G(Shape({1}), g); opt.optimize({std::ref(w)}, {std::ref(G)}); sym_assert(w[0] == w[0], "a centered update never produces NaN"); }
// a gradient that settles at a constant: the estimated variance cancels to rounding noise of either sign
ENTRY(qf_centered_settled) { static const float G0[] = {1001.11f, 1024.79f}; RMSPropOptions<float> o; o.centered = true; o.alpha = 0.5f; RMSPropOptimizer<float> opt(o); Tensor<float> w(Shape({1}), 0.f), G(Shape({1}), G0[sym_pick("gradient", 0, 1)]); int n = 24;
  for (int i = 0; i < n; ++i) { opt.optimize({std::ref(w)}, {std::ref(G)}); sym_assert(w[0] == w[0], "a centered update never produces NaN"); }
  float g = G[0]; uint32_t bits; std::memcpy(&bits, &g, 4); bits += uint32_t(sym_i32("ulps", 0, 7)); std::memcpy(&g, &bits, 4); G[0] = g; opt.optimize({std::ref(w)}, {std::ref(G)}); sym_assert(w[0] == w[0], "a centered update never produces NaN"); }
// long tensors: the middle and both ends, every element with its own symbolic value
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 129}, {255}, {4, 3, 8, 8}}; run({S[sym_pick("shape", 0, 4)]}, 2, 3, 0, 2); }
ENTRY(qr_catalogue) { run({pickShape(17)}, 2, sym_pick("mask", 0, 3), 0, 0); }
ENTRY(qr_many_steps) { run({{1}, {1, 2}}, sym_pick("steps", 3, 6), sym_pick("momentum", 0, 1), 0, 0b10100); }
ENTRY(qr_many_tensors) { std::vector<Dims> ds; int n = sym_pick("tensors", 3, 9); for (int i = 0; i < n; ++i) ds.push_back(i % 3 == 0 ? Dims{1} : i % 3 == 1 ? Dims{2, 1} : Dims{3}); run(ds, 2, 3, 0, 2); }
ENTRY(qr_subsets) { RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.alpha = sym_f32("alpha", 0.01, 0.99); o.momentum = sym_f32("momentum", 0.01, 1); o.epsilon = 0.125f; RMSPropOptimizer<float> opt(o); std::vector<Tensor<float>> ts{symTensor<float>({2}, "a"), symTensor<float>({1, 3}, "b"), symTensor<float>({2, 1}, "c")}; R r; r.alpha = o.alpha; r.eps = 0.125f; r.mom = o.momentum; r.wd = 0; r.cen = false; std::vector<R> rs(3, r); std::vector<std::vector<float>> v; for (auto& t : ts) v.push_back(values(t)); for (int k = 0; k < 3; ++k) { int set = sym_pick("subset", 0, 7); bool rev = k == 1; std::vector<Tensor<float>*> ws; std::vector<std::vector<float>> rv; std::vector<R> rr; std::vector<int> id; for (int j = 0; j < 3; ++j) { int i = rev ? 2 - j : j; if (set >> i & 1) { ws.push_back(&ts[i]); rv.push_back(v[i]); rr.push_back(rs[i]); id.push_back(i); } } stepBoth(opt, ws, rv, rr, false, o.learningRate); for (size_t j = 0; j < id.size(); ++j) { v[id[j]] = rv[j]; rs[id[j]] = rr[j]; } } for (int i = 0; i < 3; ++i) checkTensor(ts[i], ts[i].getShape().getDimensions(), v[i], "a tensor outside the list is left alone"); }
ENTRY(qr_override_sequence) { run({{1}}, 3, sym_pick("momentum", 0, 1), 0, sym_pick("over", 0, 7)); }
ENTRY(qr_centered_shapes) { static const Dims S[] = {{2}, {2, 2}, {1, 3}}; run({S[sym_pick("shape", 0, 2)]}, 1, 3, 1, sym_pick("over", 0, 1)); }
// gradients of alternating sign and of very different size
ENTRY(qr_signs) { RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.alpha = sym_f32("alpha", 0.01, 0.99); o.epsilon = 0.0001f; o.momentum = sym_pick("momentum", 0, 1) ? 0.5f : 0.f; RMSPropOptimizer<float> opt(o); auto w = symTensor<float>({2}, "w"); RefRMS r{o.alpha, o.epsilon, o.momentum, 0.f, false, {}, {}, {}}; auto v = values(w); for (int k = 0; k < 3; ++k) { Tensor<float> g({2}); g[0] = k % 2 ? sym_f32("g", -100, -10) : sym_f32("g", 10, 100); g[1] = k % 2 ? sym_f32("g", 0.01, 0.1) : sym_f32("g", -0.1, -0.01); auto gv = values(g); opt.optimize({std::ref(w)}, {std::ref(g)}); r.step(v, gv, o.learningRate); checkTensor(w, {2}, v, "updated weight"); } }
ENTRY(tr_steps) { run({{2}, {1, 3}}, 3, sym_pick("mask", 0, 3), 0, sym_pick("over", 0, 7)); }
ENTRY(tr_centered) { run({{2}}, 2, sym_pick("mask", 0, 3), 1, 0); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{5000}, {66, 65}}; run({S[sym_pick("shape", 0, 1)]}, 2, 3, 0, 2); }
// long histories with fixed hyper-parameters and fresh symbolic gradients
ENTRY(qr_long_history) { RMSPropOptions<float> o; o.learningRate = 0.25f; o.alpha = 0.5f; o.epsilon = 0.125f; o.momentum = 0.5f * sym_pick("momentum", 0, 1); o.weightDecay = 0; o.centered = false; RMSPropOptimizer<float> opt(o); auto w = symTensor<float>({1}, "w"); R r; r.alpha = 0.5f; r.eps = 0.125f; r.mom = o.momentum; r.wd = 0; r.cen = o.centered; std::vector<R> rs{r}; std::vector<std::vector<float>> v{values(w)}; for (int k = 0; k < 40; ++k) stepBoth(opt, {&w}, v, rs, k % 7 == 3, 0.25f); }
// an override that is not positive means the configured rate
ENTRY(qr_override_none) { RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = 0.5f; o.epsilon = 0.125f; o.alpha = 0.5f; RMSPropOptimizer<float> p(o), q(o); auto w = symTensor<float>({2}, "w"); Tensor<float> u(w); int at = sym_pick("at", 0, 2); for (int k = 0; k < 3; ++k) { auto g = symTensor<float>({2}, "g"); if (k == at) p.optimize({std::ref(w)}, {std::ref(g)}, sym_f32("override", -1000, 0)); else p.optimize({std::ref(w)}, {std::ref(g)}); q.optimize({std::ref(u)}, {std::ref(g)}); checkTensor(w, {2}, values(u), "an override that is not positive is no override"); } }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e4; run({{1}}, 2, sym_pick("mask", 0, 3), 0, sym_pick("over", 0, 1)); }
ENTRY(qr_magnitudes_centered) { WIDE = 1e3; run({{1}}, 1, sym_pick("mask", 0, 3), 1, 0); }
// small gradients and a small epsilon
ENTRY(qr_small_gradients) { RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.5, 1); o.alpha = 0.5f; o.epsilon = sym_f32("eps", 0.0000001, 0.00001); o.momentum = 0.5f * sym_pick("momentum", 0, 1); RMSPropOptimizer<float> opt(o); Tensor<float> w(Shape({1}), 0.f); R r; r.alpha = 0.5f; r.eps = o.epsilon; r.mom = o.momentum; r.wd = 0; r.cen = false; std::vector<float> v{0}; auto one = [&](float s) { auto g = symTensor<float>({1}, "g", s < 0 ? s : s / 2, s < 0 ? s / 2 : s); opt.optimize({std::ref(w)}, {std::ref(g)}); r(v, values(g), o.learningRate, false); checkValues(w, v, "the update for a small gradient"); }; one(sym_pick("negative", 0, 1) ? -0.0001f : 0.0001f); one(0.001f); }
// an optimizer that has seen many updates before (of other tensors, or with zero gradients) behaves like a young one
ENTRY(qr_late) { static const int N[] = {99, 255, 1030}; int n = N[sym_pick("n", 0, 2)]; bool other = sym_pick("other", 0, 1); RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.alpha = 0.5f; o.epsilon = 0.125f; o.momentum = 0.5f * sym_pick("momentum", 0, 1); RMSPropOptimizer<float> opt(o); auto w = symTensor<float>({2}, "w"); Tensor<float> u(Shape({2}), 1.f), z(Shape({2}), 0.f); for (int k = 0; k < n; ++k) opt.optimize({std::ref(other ? u : w)}, {std::ref(z)}); R r; r.alpha = 0.5f; r.eps = 0.125f; r.mom = o.momentum; r.wd = 0; r.cen = false; std::vector<R> rs{r}; std::vector<std::vector<float>> v{values(w)}; for (int k = 0; k < 3; ++k) stepBoth(opt, {&w}, v, rs, k == 1, o.learningRate); checkTensor(u, {2}, {1, 1}, "the other tensor"); }
// unusual options: negative weight decay, momentum and decay above one
ENTRY(qr_unusual_options) { if (sym_pick("range", 0, 1)) { WLO = -2; WHI = -0.01; } else { OLO = WLO = 1; OHI = WHI = 3; } run({{1}}, 2, sym_pick("mask", 1, 3), sym_pick("centered", 0, 1), 0); }
// a first gradient of exactly zero
ENTRY(qr_zero_gradients) { RMSPropOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.alpha = 0.5f; o.epsilon = 0.125f; o.momentum = 0.5f * sym_pick("momentum", 0, 1); o.weightDecay = 0.25f * sym_pick("decay", 0, 1); o.centered = sym_pick("centered", 0, 1); RMSPropOptimizer<float> opt(o); auto w = symTensor<float>({2}, "w"); R r; r.alpha = 0.5f; r.eps = 0.125f; r.mom = o.momentum; r.wd = o.weightDecay; r.cen = o.centered; auto v = values(w); int zeros = sym_pick("zeros", 1, 3); for (int k = 0; k < 2; ++k) { auto g = symTensor<float>({2}, "g"); if (k == 0 || zeros == 3) for (int i = 0; i < 2; ++i) if (zeros >> i & 1) g[i] = 0; auto gv = values(g); opt.optimize({std::ref(w)}, {std::ref(g)}); r(v, gv, o.learningRate, false); checkTensor(w, {2}, v, "updated weight"); } }
