// @bounds every hyper-parameter combination over up to 3 updates of 1 or 2 tensors; up to 8 updates for selected combinations; 1..9 tensors per call and changing subsets of 3 tensors over 3 calls; every catalogue shape up to 17 elements and listed shapes up to 1089 elements; override on or off in every pattern over 4 calls; learning rate, momentum, dampening, weight decay, override, weights and gradients symbolic; Nesterov on and off; hyper-parameters also exactly zero; beyond that, 5000 elements; histories of 120 steps with fixed hyper-parameters (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); symbolic gradients after 99, 255 or 1030 steps; options in [-2, -0.01] and [1, 3]
// @assume real arithmetic
// @outside more than 120 steps; two tensors that live at the same address one after the other (C30)
#include "opt.hpp"
struct R : RefSGD { void operator()(std::vector<float>& w, const std::vector<float>& g, float lr, bool) { step(w, g, lr); } };
static double OLO = 0.01, OHI = 1, WLO = 0.01, WHI = 1; // range of momentum and dampening, and of the weight decay
static void run(const std::vector<Dims>& ds, int steps, int mask, int nest, int over) {
  SGDOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = mask & 1 ? sym_f32("momentum", OLO, OHI) : 0.f; o.dampening = mask & 2 ? sym_f32("dampening", OLO, OHI) : 0.f; o.weightDecay = mask & 4 ? sym_f32("decay", WLO, WHI) : 0.f; o.nesterov = nest; SGDOptimizer<float> opt(o);
  std::vector<Tensor<float>> ts; for (auto& d : ds) ts.push_back(symTensor<float>(d, "w")); std::vector<Tensor<float>*> ws; std::vector<std::vector<float>> ref; std::vector<R> rs(ds.size()); for (size_t i = 0; i < ds.size(); ++i) { ws.push_back(&ts[i]); ref.push_back(values(ts[i])); rs[i].mom = o.momentum; rs[i].damp = o.dampening; rs[i].wd = o.weightDecay; rs[i].nest = nest; }
  for (int k = 0; k < steps; ++k) stepBoth(opt, ws, ref, rs, (over >> k) & 1, o.learningRate); }
ENTRY(qr_steps) { run({{2}}, sym_pick("steps", 1, 3), sym_pick("mask", 0, 7), sym_pick("nesterov", 0, 1), 0); }
ENTRY(qr_two_tensors) { run({{2, 1}, {3}}, 2, sym_pick("mask", 0, 7), sym_pick("nesterov", 0, 1), 0); }
ENTRY(qr_override) { run({{1}, {2}}, 2, 7, sym_pick("nesterov", 0, 1), sym_pick("over", 0, 3)); }
ENTRY(qr_large) { static const Dims S[] = {{3, 3}, {9}, {2, 2, 2}, {1, 2, 2, 1}}; run({S[sym_pick("shape", 0, 3)]}, 2, 7, sym_pick("nesterov", 0, 1), 0); }
// tensors are updated in separate calls, in any order, without sharing state
ENTRY(qr_interleaved) { SGDOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = sym_f32("momentum", 0.01, 1); SGDOptimizer<float> opt(o); auto a = symTensor<float>({2}, "a"), b = symTensor<float>({2}, "b"); R r; r.mom = o.momentum; r.damp = 0; r.wd = 0; r.nest = false; std::vector<R> ra{r}, rb{r}; std::vector<std::vector<float>> va{values(a)}, vb{values(b)}; for (int k = 0; k < 3; ++k) { if (sym_pick("which", 0, 1)) stepBoth(opt, {&a}, va, ra, false, o.learningRate); else stepBoth(opt, {&b}, vb, rb, false, o.learningRate); } checkTensor(a, {2}, va[0], "updating one tensor leaves the other alone"); checkTensor(b, {2}, vb[0], "updating one tensor leaves the other alone"); }
ENTRY(qr_defaults) { SGDOptimizer<float> p; SGDOptions<float> o; o.learningRate = 0.01f; o.momentum = 0.9f; o.dampening = 0; o.weightDecay = 0; o.nesterov = false; SGDOptimizer<float> q(o); auto w = symTensor<float>({2}, "w"), g = symTensor<float>({2}, "g"); Tensor<float> u(w); for (int k = 0; k < 2; ++k) { p.optimize({std::ref(w)}, {std::ref(g)}); q.optimize({std::ref(u)}, {std::ref(g)}); } checkTensor(w, {2}, values(u), "documented defaults: lr 0.01, momentum 0.9"); }
ENTRY(qr_descent) { SGDOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = 0; SGDOptimizer<float> opt(o); auto w = symTensor<float>({1}, "w"), g = symTensor<float>({1}, "g"); float before = w[0]; sym_assume(g[0] > 0.1f); opt.optimize({std::ref(w)}, {std::ref(g)}); sym_assert(w[0] < before, "a step goes against the gradient"); }
ENTRY(qr_reject) { SGDOptimizer<float> opt; auto a = symTensor<float>({2}, "a"), b = symTensor<float>({2, 2}, "b"), g = symTensor<float>({2}, "g"), h = symTensor<float>({3}, "h"); auto va = values(a), vb = values(b); int k = sym_pick("k", 0, 3); bool r = rejected([&] { if (k == 0) opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g)}); else if (k == 1) opt.optimize({std::ref(a)}, {std::ref(g), std::ref(h)}); else if (k == 2) opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g), std::ref(h)}); else opt.optimize({std::ref(a)}, {std::ref(h)}); }); sym_assert(r, "a gradient list that does not match the weights is rejected"); checkTensor(a, {2}, va, "a rejected update changes nothing"); checkTensor(b, {2, 2}, vb, "a rejected update changes nothing"); }
ENTRY(qr_double) { sym_precise(); SGDOptions<double> o; o.learningRate = sym_f64("lr", 0.01, 1); o.momentum = sym_f64("m", 0.01, 1); SGDOptimizer<double> opt(o); auto w = symTensor<double>({2}, "w"), g = symTensor<double>({2}, "g"); auto v = values(w); opt.optimize({std::ref(w)}, {std::ref(g)}); opt.optimize({std::ref(w)}, {std::ref(g)}); for (int i = 0; i < 2; ++i) check_eq(w[i], v[i] - o.learningRate * (g[i] + g[i] + o.momentum * g[i]), "two steps (double)"); }
// long tensors: the middle and both ends, every element with its own symbolic value
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 129}, {255}, {4, 3, 8, 8}}; run({S[sym_pick("shape", 0, 4)]}, 2, 7, 1, 2); }
ENTRY(qr_catalogue) { run({pickShape(17)}, 2, sym_pick("set", 0, 1) ? 7 : 5, 0, 0); }
// longer histories
ENTRY(qr_many_steps) { run({{1}, {1, 2}}, sym_pick("steps", 4, 8), 1 + 2 * sym_pick("dampened", 0, 1), sym_pick("nesterov", 0, 1), 0b10100); }
ENTRY(qr_many_tensors) { std::vector<Dims> ds; int n = sym_pick("tensors", 3, 9); for (int i = 0; i < n; ++i) ds.push_back(i % 3 == 0 ? Dims{1} : i % 3 == 1 ? Dims{2, 1} : Dims{3}); run(ds, 2, 7, 1, 2); }
// tensors that join and leave the list of updated weights; each keeps its own history
ENTRY(qr_subsets) { SGDOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = sym_f32("momentum", 0.01, 1); o.dampening = sym_f32("dampening", 0.01, 1); SGDOptimizer<float> opt(o); std::vector<Tensor<float>> ts{symTensor<float>({2}, "a"), symTensor<float>({1, 3}, "b"), symTensor<float>({2, 1}, "c")}; R r; r.mom = o.momentum; r.damp = o.dampening; r.wd = 0; r.nest = false; std::vector<R> rs(3, r); std::vector<std::vector<float>> v; for (auto& t : ts) v.push_back(values(t)); for (int k = 0; k < 3; ++k) { int set = sym_pick("subset", 0, 7); bool rev = k == 1; std::vector<Tensor<float>*> ws; std::vector<std::vector<float>> rv; std::vector<R> rr; std::vector<int> id; for (int j = 0; j < 3; ++j) { int i = rev ? 2 - j : j; if (set >> i & 1) { ws.push_back(&ts[i]); rv.push_back(v[i]); rr.push_back(rs[i]); id.push_back(i); } } stepBoth(opt, ws, rv, rr, false, o.learningRate); for (size_t j = 0; j < id.size(); ++j) { v[id[j]] = rv[j]; rs[id[j]] = rr[j]; } } for (int i = 0; i < 3; ++i) checkTensor(ts[i], ts[i].getShape().getDimensions(), v[i], "a tensor outside the list is left alone"); }
// an override is used for its own call only, also when it is larger or smaller than the configured rate
ENTRY(qr_override_sequence) { run({{2}}, 4, sym_pick("mask", 0, 1) * 7, sym_pick("nesterov", 0, 1), sym_pick("over", 0, 15)); }
// the gradient may be the weight itself, and one gradient may serve two weights
ENTRY(qr_shared_gradient) { SGDOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = sym_f32("momentum", 0.01, 1); SGDOptimizer<float> opt(o); auto a = symTensor<float>({2}, "a"), b = symTensor<float>({2}, "b"), g = symTensor<float>({2}, "g"); auto va = values(a), vb = values(b), vg = values(g); for (int k = 0; k < 2; ++k) opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g), std::ref(g)}); for (int i = 0; i < 2; ++i) { check_eq(a[i], va[i] - o.learningRate * vg[i] * (2 + o.momentum), "updated weight"); check_eq(b[i], vb[i] - o.learningRate * vg[i] * (2 + o.momentum), "updated weight"); } checkTensor(g, {2}, vg, "gradients are unchanged"); }
ENTRY(tr_steps) { run({{2}, {1, 3}}, sym_pick("steps", 3, 5), sym_pick("mask", 0, 7), sym_pick("nesterov", 0, 1), sym_pick("over", 0, 7)); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{5000}, {66, 65}}; run({S[sym_pick("shape", 0, 1)]}, 2, 7, 1, 2); }
// long histories with fixed hyper-parameters and fresh symbolic gradients
ENTRY(qr_long_history) { SGDOptions<float> o; o.learningRate = 0.25f; o.momentum = 0.5f; o.dampening = 0.25f; o.weightDecay = sym_pick("decay", 0, 1) * 0.125f; o.nesterov = sym_pick("nesterov", 0, 1); SGDOptimizer<float> opt(o); auto w = symTensor<float>({1}, "w"); R r; r.mom = 0.5f; r.damp = 0.25f; r.wd = o.weightDecay; r.nest = o.nesterov; std::vector<R> rs{r}; std::vector<std::vector<float>> v{values(w)}; for (int k = 0; k < 120; ++k) stepBoth(opt, {&w}, v, rs, k % 7 == 3, 0.25f); }
// an override that is not positive means the configured rate
ENTRY(qr_override_none) { SGDOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = 0.5f; o.weightDecay = 0.25f; SGDOptimizer<float> p(o), q(o); auto w = symTensor<float>({2}, "w"); Tensor<float> u(w); int at = sym_pick("at", 0, 2); for (int k = 0; k < 3; ++k) { auto g = symTensor<float>({2}, "g"); if (k == at) p.optimize({std::ref(w)}, {std::ref(g)}, sym_f32("override", -1000, 0)); else p.optimize({std::ref(w)}, {std::ref(g)}); q.optimize({std::ref(u)}, {std::ref(g)}); checkTensor(w, {2}, values(u), "an override that is not positive is no override"); } }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e4; run({{2}}, 2, sym_pick("mask", 0, 7), sym_pick("nesterov", 0, 1), sym_pick("over", 0, 1)); }
// an optimizer that has seen many updates before (of other tensors, or with zero gradients) behaves like a young one
ENTRY(qr_late) { static const int N[] = {99, 255, 1030}; int n = N[sym_pick("n", 0, 2)]; bool other = sym_pick("other", 0, 1); SGDOptions<float> o; o.learningRate = sym_f32("lr", 0.01, 1); o.momentum = 0.5f; o.dampening = sym_pick("dampening", 0, 1) * 0.5f; o.weightDecay = 0; SGDOptimizer<float> opt(o); auto w = symTensor<float>({2}, "w"); Tensor<float> u(Shape({2}), 1.f), z(Shape({2}), 0.f); for (int k = 0; k < n; ++k) opt.optimize({std::ref(other ? u : w)}, {std::ref(z)}); R r; r.mom = 0.5f; r.damp = o.dampening; r.wd = 0; r.nest = false; std::vector<R> rs{r}; std::vector<std::vector<float>> v{values(w)}; for (int k = 0; k < 3; ++k) stepBoth(opt, {&w}, v, rs, k == 1, o.learningRate); checkTensor(u, {2}, {1, 1}, "the other tensor"); }
// unusual options: negative ones and ones above one
ENTRY(qr_unusual_options) { switch (sym_pick("range", 0, 2)) { case 0: OLO = WLO = -2; OHI = WHI = -0.01; break; case 1: OLO = WLO = 1; OHI = WHI = 3; break; default: OLO = -2; OHI = -0.01; } run({{2}}, 2, sym_pick("mask", 1, 7), sym_pick("nesterov", 0, 1), 0); }
