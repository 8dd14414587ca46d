// @bounds one optimizer of each kind; every history of 5 create/update operations on two slots; histories of up to 3 tensors that follow each other at the same address (object and storage) with 1..8 elements and other shapes, 15 simultaneous tensors (state table growth), two optimizers, copies; weights, gradients and learning rates symbolic; 140 tensors
// @assume real arithmetic; operator new reuses the last freed block of the same glibc size class (the worst case for address-keyed state)
// @outside a tensor that reuses the address of a destroyed tensor of the very same shape (it inherits that state); more than 3 tensors in sequence
// @flags -DNATIVE_LIFO
// @opts .* --lifo
#include "opt.hpp"
struct S1 { typedef SGDOptimizer<float> O; RefSGD r; void operator()(std::vector<float>& w, const std::vector<float>& g, float lr) { r.step(w, g, lr); } static SGDOptions<float> opts(float lr) { SGDOptions<float> o; o.learningRate = lr; o.momentum = 0.5f; o.dampening = 0.25f; o.weightDecay = 0; return o; } S1() { r.mom = 0.5f; r.damp = 0.25f; r.wd = 0; r.nest = false; } };
struct S2 { typedef RMSPropOptimizer<float> O; RefRMS r; void operator()(std::vector<float>& w, const std::vector<float>& g, float lr) { r.step(w, g, lr); } static RMSPropOptions<float> opts(float lr) { RMSPropOptions<float> o; o.learningRate = lr; o.alpha = 0.5f; o.epsilon = 0.5f; o.momentum = 0.5f; o.centered = true; o.weightDecay = 0; return o; } S2() { r.alpha = 0.5f; r.eps = 0.5f; r.mom = 0.5f; r.wd = 0; r.cen = true; } };
struct S3 { typedef AdamOptimizer<float> O; RefAdam r; void operator()(std::vector<float>& w, const std::vector<float>& g, float lr) { r.step(w, g, lr, false); } static AdamOptions<float> opts(float lr) { AdamOptions<float> o; o.learningRate = lr; o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = 0.125f; o.decay = 0.5f; return o; } S3() { r.b1 = 0.5f; r.b2 = 0.75f; r.eps = 0.125f; r.l1 = r.l2 = 0; r.decay = 0.5f; r.batch = 1; } };
template <class S> struct Run { float lr; typename S::O opt; Run() : lr(sym_f32("lr", 0.01, 1)), opt(S::opts(lr)) {} 
  // `steps` updates of one tensor, compared with a fresh reference
  void use(Tensor<float>& w, S& s, int steps) { auto v = values(w); auto d = w.getShape().getDimensions(); for (int k = 0; k < steps; ++k) { auto g = symTensor<float>(d, "g", 0.5, 4); auto gv = values(g); opt.optimize({std::ref(w)}, {std::ref(g)}); s(v, gv, lr); checkTensor(w, d, v, "the update uses this tensor's own state only"); checkTensor(g, d, gv, "gradients are unchanged"); } } };
template <class F> void each(F f) { switch (sym_pick("optimizer", 0, 2)) { case 0: f(S1()); break; case 1: f(S2()); break; default: f(S3()); } }
static const Dims SEQ[][3] = {{{2}, {4}, {1}}, {{5}, {6}, {5, 1}}, {{6}, {2, 3}, {3, 2}}, {{1, 6}, {5}, {6, 1}}, {{8}, {7}, {2, 2, 2}}, {{1}, {2}, {3}}, {{3}, {2}, {1}}, {{4}, {2, 2}, {1, 4}}, {{1, 2}, {1}, {2, 1}}};
// the same tensor object receives contents of another shape
ENTRY(qr_reassigned) { const Dims* q = SEQ[sym_pick("sequence", 0, 8)]; each([&](auto s0) { typedef decltype(s0) S; Run<S> r; Tensor<float> w = symTensor<float>(q[0], "w"); { S s; r.use(w, s, 1); } for (int i = 1; i < 3; ++i) { w = symTensor<float>(q[i], "w"); S s; r.use(w, s, i); } }); }
// tensors destroyed and recreated: object and storage addresses come back
ENTRY(qr_recreated) { const Dims* q = SEQ[sym_pick("sequence", 0, 8)]; each([&](auto s0) { typedef decltype(s0) S; Run<S> r; for (int i = 0; i < 3; ++i) { auto p = std::make_unique<Tensor<float>>(symTensor<float>(q[i], "w")); S s; r.use(*p, s, 2 - i % 2); } }); }
// layers destroyed and recreated (the optimizer of a model outlives a layer)
ENTRY(qr_layers) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; static const int N[][2] = {{2, 1}, {1, 3}, {2, 2}}; for (int i = 0; i < 3; ++i) { FullyConnectedLayer<float> L(N[i][0], N[i][1]); auto W = symTensor<float>({N[i][0], N[i][1]}, "w"), x = symTensor<float>({1, N[i][0]}, "x"), g = symTensor<float>({1, N[i][1]}, "g", 0.5, 4); L.setWeights(W); auto w = values(W); L.forward(x); L.backward(g); L.updateWeights(r.opt); S s; std::vector<float> gw; for (int a = 0; a < N[i][0]; ++a) for (int b = 0; b < N[i][1]; ++b) gw.push_back(x[a] * g[b]); s(w, gw, r.lr); checkTensor(L.getWeights(), {N[i][0], N[i][1]}, w, "a new layer starts with fresh optimizer state"); } }); }
// many tensors: the state survives growth of the table
ENTRY(qr_many) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; std::vector<Tensor<float>> ts; for (int i = 0; i < 15; ++i) ts.push_back(symTensor<float>({1 + i % 2}, "w")); std::vector<S> ss(15); for (int i = 0; i < 15; ++i) r.use(ts[i], ss[i], 1); for (int i = 14; i >= 0; i -= 5) r.use(ts[i], ss[i], 1); }); }
// two optimizers do not share state; a copy of a tensor does not share state
ENTRY(qr_two_optimizers) { each([&](auto s0) { typedef decltype(s0) S; Run<S> a; Run<S> b; auto w = symTensor<float>({2}, "w"); S sa, sb; a.use(w, sa, 1); b.use(w, sb, 1); a.use(w, sa, 1); }); }
ENTRY(qr_copy) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; auto w = symTensor<float>({2}, "w"); S s, t; r.use(w, s, 1); Tensor<float> c(w); auto cv = values(c); r.use(w, s, 1); checkTensor(c, {2}, cv, "a copy is not updated"); auto wv = values(w); r.use(c, t, 1); checkTensor(w, {2}, wv, "updating a copy leaves the original alone"); r.use(w, s, 1); }); }
// tensors may outlive the optimizer and the optimizer its tensors
ENTRY(qr_lifetimes) { each([&](auto s0) { typedef decltype(s0) S; auto w = symTensor<float>({3}, "w"); auto r = std::make_unique<Run<S>>(); { S s; r->use(w, s, 1); } { auto t = symTensor<float>({4}, "t"); S s; r->use(t, s, 1); } auto v = values(w); r.reset(); checkTensor(w, {3}, v, "destroying the optimizer leaves the tensors alone"); Run<S> n; S s; n.use(w, s, 1); }); }
// optimizers that fail keep no state of the refused call
ENTRY(qr_refused) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; auto w = symTensor<float>({2}, "w"), g = symTensor<float>({3}, "g"); S s; r.use(w, s, 1); sym_assert(rejected([&] { r.opt.optimize({std::ref(w)}, {std::ref(g)}); }), "a gradient of another size is rejected"); r.use(w, s, 1); }); }
// tensors come and go in two slots while the optimizer lives on; every new tensor has a size of its own
ENTRY(qr_slots) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; std::unique_ptr<Tensor<float>> t[2]; std::unique_ptr<S> ref[2]; int made = 0; static const Dims D[] = {{4}, {2}, {6}, {1}, {5}, {3}}; for (int k = 0; k < 5; ++k) { int op = sym_pick("op", 0, 3), i = op & 1; if (op < 2) { t[i].reset(); t[i] = std::make_unique<Tensor<float>>(symTensor<float>(D[made++], "w")); ref[i] = std::make_unique<S>(); } else if (t[i]) r.use(*t[i], *ref[i], 1); } }); }
// the same number of elements in another shape at the same address, with a third tensor updated in between
ENTRY(qr_between) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; auto other = symTensor<float>({2}, "o"); S so; r.use(other, so, 1); static const Dims D[][2] = {{{6}, {2, 3}}, {{2, 3}, {3, 2}}, {{4}, {1, 4}}, {{1, 5}, {5}}, {{3}, {4}}}; const Dims* d = D[sym_pick("pair", 0, 4)]; auto p = std::make_unique<Tensor<float>>(symTensor<float>(d[0], "w")); { S s; r.use(*p, s, 2); } p.reset(); if (sym_pick("between", 0, 1)) r.use(other, so, 1); p = std::make_unique<Tensor<float>>(symTensor<float>(d[1], "w")); S s; r.use(*p, s, 2); r.use(other, so, 1); }); }
// state is per tensor even when all tensors are updated in one call, in a changing order
ENTRY(qr_order) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; std::vector<Tensor<float>> t{symTensor<float>({2}, "a"), symTensor<float>({2}, "b"), symTensor<float>({2}, "c")}; std::vector<S> s(3); for (int k = 0; k < 3; ++k) { int p = sym_pick("order", 0, 5); static const int P[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; Refs w, g; std::vector<Tensor<float>> gs; std::vector<std::vector<float>> v; for (int i = 0; i < 3; ++i) gs.push_back(symTensor<float>({2}, "g", 0.5, 4)); for (int i = 0; i < 3; ++i) v.push_back(values(t[i])); for (int j = 0; j < 3; ++j) { w.push_back(t[P[p][j]]); g.push_back(gs[P[p][j]]); } r.opt.optimize(w, g); for (int i = 0; i < 3; ++i) { auto gv = values(gs[i]); s[i](v[i], gv, r.lr); checkTensor(t[i], {2}, v[i], "the state belongs to the tensor, not to its position in the list"); } } }); }
// a model keeps its optimizer over training runs; recompiling drops it
ENTRY(qr_model) { each([&](auto s0) { typedef decltype(s0) S; float lr = sym_f32("lr", 0.01, 1); SmartDNN<float> m; FullyConnectedLayer<float> L(1, 1); L.setWeights(Tensor<float>({1, 1}, 0.f)); L.setBiases(symTensor<float>({1, 1}, "b")); m.addLayer(L); auto& l = *static_cast<FullyConnectedLayer<float>*>(m.getLayer(0)); Tensor<float> x({1, 1}, 0.f); m.compile(MSELoss<float>(), typename S::O(S::opts(lr))); auto s = std::make_unique<S>(); for (int k = 0; k < 3; ++k) { if (sym_pick("recompile", 0, 1)) { m.compile(MSELoss<float>(), typename S::O(S::opts(lr))); s = std::make_unique<S>(); } auto v = values(l.getBiases()); Tensor<float> t({1, 1}); t[0] = v[0] - sym_f32("e", 0.25, 2); std::vector<float> g{2 * (v[0] - t[0])}; m.train({x}, {t}, 1); (*s)(v, g, lr); checkTensor(l.getBiases(), {1, 1}, v, "the optimizer's state lives from compile to compile"); } }); }
// more tensors than any small table holds
ENTRY(qr_crowd) { each([&](auto s0) { typedef decltype(s0) S; Run<S> r; const int N = 140; std::vector<Tensor<float>> ts; for (int i = 0; i < N; ++i) ts.push_back(symTensor<float>({1}, "w")); std::vector<S> ss(N); for (int i = 0; i < N; ++i) r.use(ts[i], ss[i], 1); for (int i = 0; i < N; i += 23) r.use(ts[i], ss[i], 1); r.use(ts[N - 1], ss[N - 1], 1); }); }
// an optimizer copied in the middle of training goes on from the state it was copied with; the two are independent from then on
ENTRY(qr_optimizer_copies) { each([&](auto s0) { typedef decltype(s0) S; Run<S> a; auto w = symTensor<float>({2}, "w"), z = symTensor<float>({3}, "z"); S sw, sz; a.use(w, sw, 1); a.use(z, sz, 1); Run<S> b(a); S tw = sw, tz = sz; int how = sym_pick("how", 0, 2); if (how == 1) { Run<S> c; auto u = symTensor<float>({2}, "u"); S su; c.use(u, su, 1); c = b; b = c; } if (how == 2) { Run<S> c(std::move(b)); b = std::move(c); } for (int k = 0; k < 3; ++k) { if (sym_pick("which", 0, 1)) { b.use(w, tw, 1); b.use(z, tz, 1); } else { a.use(z, sz, 1); a.use(w, sw, 1); } } }); }
