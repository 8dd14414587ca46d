// @bounds models of 1..5 layers over 1..4 samples and 1..4 epochs, after every history of two earlier calls: fully connected stacks with every activation, convolution + pooling + flatten + fully connected, batch normalisation, dropout; MSE and cross entropy; SGD, RMSProp, Adam; inputs, targets and parameters symbolic; up to 130 samples and 110 epochs of a linear model with symbolic initial parameters; a symbolic training step after 1030 samples in one epoch, 255 in two, or 300 epochs of two samples; repeated samples in 6 patterns; up to 10 layers with up to 9 outputs
// @assume real arithmetic with the real exponential and exact square root; the progress text printed per epoch is not part of the property
// @outside larger models and longer histories; rounding; training on an empty data set (rejected with a division by zero exception)
#include "repo.hpp"
typedef SmartDNN<float> Model; typedef std::vector<Tensor<float>> Ts;
struct FC { int i, o; std::vector<float> w, b; };
static FC mkFC(int i, int o, const char* n, double lo = -2, double hi = 2) { FC f{i, o, {}, {}}; for (int k = 0; k < i * o; ++k) f.w.push_back(sym_f32(n, lo, hi)); for (int k = 0; k < o; ++k) f.b.push_back(sym_f32(n, -2, 2)); return f; }
static void addFC(Model& m, const FC& f) { FullyConnectedLayer<float> L(f.i, f.o); L.setWeights(Tensor<float>(Shape({f.i, f.o}), f.w)); L.setBiases(Tensor<float>(Shape({1, f.o}), f.b)); m.addLayer(std::move(L)); }
static FullyConnectedLayer<float>& fc(Model& m, int k) { return *static_cast<FullyConnectedLayer<float>*>(m.getLayer(k)); }
static void checkFC(Model& m, int k, const FC& f, const char* msg) { checkTensor(fc(m, k).getWeights(), {f.i, f.o}, f.w, msg); checkTensor(fc(m, k).getBiases(), {1, f.o}, f.b, msg); }
static SGDOptions<float> sgd(float lr, float mom = 0) { SGDOptions<float> o; o.learningRate = lr; o.momentum = mom; o.dampening = 0; o.weightDecay = 0; o.nesterov = false; return o; }
// reference: one linear layer, MSE, plain SGD on one batch
static void refLinear(FC& f, const std::vector<float>& x, const std::vector<float>& t, int n, float lr) { std::vector<float> y(n * f.o), gw(f.i * f.o, 0.f), gb(f.o, 0.f); for (int s = 0; s < n; ++s) for (int o = 0; o < f.o; ++o) { float a = f.b[o]; for (int i = 0; i < f.i; ++i) a += x[s * f.i + i] * f.w[i * f.o + o]; float g = 2 * (a - t[s * f.o + o]) / (float)(n * f.o); gb[o] += g; for (int i = 0; i < f.i; ++i) gw[i * f.o + o] += x[s * f.i + i] * g; } for (size_t k = 0; k < gw.size(); ++k) f.w[k] -= lr * gw[k]; for (size_t k = 0; k < gb.size(); ++k) f.b[k] -= lr * gb[k]; }
// samples in order, epochs one after the other, each with the parameters the previous one left
ENTRY(qr_linear) { static const int C[][5] = {{1, 1, 1, 1, 1}, {2, 1, 1, 1, 1}, {1, 2, 1, 1, 1}, {2, 2, 2, 1, 1}, {1, 1, 1, 2, 1}, {1, 1, 1, 1, 3}, {1, 1, 1, 2, 2}, {2, 1, 2, 2, 1}, {1, 1, 1, 3, 1}, {1, 1, 1, 2, 0}, {1, 2, 2, 1, 1}, {3, 3, 1, 1, 1}, {1, 1, 3, 1, 1}}; const int* c = C[sym_pick("config", 0, 12)]; int I = c[0], O = c[1], B = c[2], N = c[3], E = c[4]; Model m; FC f = mkFC(I, O, "w"); addFC(m, f); float lr = sym_f32("lr", 0.01, 1); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr))); Ts xs, ts; for (int s = 0; s < N; ++s) { xs.push_back(symTensor<float>({B, I}, "x")); ts.push_back(symTensor<float>({B, O}, "t")); } auto xs0 = xs, ts0 = ts; m.train(xs, ts, E); for (int e = 0; e < E; ++e) for (int s = 0; s < N; ++s) refLinear(f, values(xs0[s]), values(ts0[s]), B, lr); checkFC(m, 0, f, "training is gradient descent sample by sample"); for (int s = 0; s < N; ++s) { checkTensor(xs[s], {B, I}, values(xs0[s]), "inputs are unchanged"); checkTensor(ts[s], {B, O}, values(ts0[s]), "targets are unchanged"); } }
// training in two calls is the same as in one
ENTRY(qr_resume) { FC f = mkFC(1, 1, "w"); float lr = sym_f32("lr", 0.01, 1), mom = sym_f32("mom", 0.01, 0.99); Model a, b; addFC(a, f); addFC(b, f); a.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr, mom))); b.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr, mom))); Ts xs{symTensor<float>({1, 1}, "x")}, ts{symTensor<float>({1, 1}, "t")}; a.train(xs, ts, 2); b.train(xs, ts, 1); b.predict(symTensor<float>({2, 1}, "q")); b.train(xs, ts, 1); checkTensor(fc(b, 0).getWeights(), {1, 1}, values(fc(a, 0).getWeights()), "training can be interrupted by inference"); checkTensor(fc(b, 0).getBiases(), {1, 1}, values(fc(a, 0).getBiases()), "training can be interrupted by inference"); }
// end-to-end: the update is minus the learning rate times the derivative of the loss of the executed model
static void endToEnd(Model& m, const std::vector<int>& fcs, std::vector<FC> fs, const Tensor<float>& x, const Tensor<float>& t, bool cce, int stage = 0) { (void)stage; float lr = 0.5f; auto p = m.predict(x); float loss = cce ? CategoricalCrossEntropyLoss<float>().compute(p, t)[0] : MSELoss<float>().compute(p, t)[0];
  std::vector<FC> e = fs; for (auto& f : e) { for (auto& w : f.w) w = w - lr * sym_grad_f32(loss, w, "dw"); for (auto& w : f.b) w = w - lr * sym_grad_f32(loss, w, "db"); }
  if (cce) m.compile(CategoricalCrossEntropyLoss<float>(), SGDOptimizer<float>(sgd(lr))); else m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr)));
  m.train({x}, {t}, 1); for (size_t k = 0; k < fcs.size(); ++k) checkFC(m, fcs[k], e[k], "one training step moves every parameter against the gradient of the loss"); }
template <class A> void act(bool narrow) { Model m; FC f = mkFC(1, 2, "w", 0.5, 1), g = mkFC(2, 1, "v"); if (narrow) { for (auto& b : f.b) b = sym_f32("b", 0.5, 1); } addFC(m, f); m.addLayer(ActivationLayer<float>(A())); addFC(m, g); auto x = symTensor<float>({1, 1}, "x", 0.5, 1), t = symTensor<float>({1, 1}, "t"); endToEnd(m, {0, 2}, {f, g}, x, t, false); }
ENTRY(qr_relu) { act<ReLU<float>>(true); }
ENTRY(qr_leaky) { act<LeakyReLU<float>>(true); }
ENTRY(qr_tanh) { act<Tanh<float>>(true); }
ENTRY(qr_sigmoid) { act<Sigmoid<float>>(true); }
ENTRY(qr_swish) { act<Swish<float>>(true); }
ENTRY(qr_two_linear) { Model m; FC f = mkFC(2, 2, "w"), g = mkFC(2, 1, "v"), h = mkFC(1, 2, "u"); addFC(m, f); addFC(m, g); addFC(m, h); int b = sym_pick("batch", 1, 2); endToEnd(m, {0, 1, 2}, {f, g, h}, symTensor<float>({b, 2}, "x"), symTensor<float>({b, 2}, "t"), false); }
ENTRY(qr_batchnorm) { Model m; FC f = mkFC(1, 1, "w", 0.5, 1), g = mkFC(1, 1, "v"); addFC(m, f); m.addLayer(BatchNormalizationLayer<float>(1, 0.5f)); addFC(m, g); endToEnd(m, {0, 2}, {f, g}, symTensor<float>({2, 1}, "x"), symTensor<float>({2, 1}, "t"), false); }
ENTRY(qr_softmax_cce) { Model m; FC f{2, 2, {}, {}}; for (int k = 0; k < 4; ++k) f.w.push_back(sym_f32("w", 0.25, 0.5)); for (int k = 0; k < 2; ++k) f.b.push_back(sym_f32("b", k ? -0.25 : 0.75, k ? 0 : 1)); addFC(m, f); m.addLayer(ActivationLayer<float>(Softmax<float>())); auto x = symTensor<float>({1, 2}, "x", 0.25, 0.5), t = symTensor<float>({1, 2}, "t", 0, 1); endToEnd(m, {0}, {f}, x, t, true); }
ENTRY(qr_cnn) { Model m; Conv2DLayer<float> K(1, 1, 2, 2, 1, 0, 1); auto W = symTensor<float>({1, 1, 2, 2}, "k"), B = symTensor<float>({1, 1}, "kb"); K.setWeights(W); K.setBiases(B); FC f = mkFC(4, 1, "w"); m.addLayer(K); m.addLayer(FlattenLayer<float>()); addFC(m, f); auto x = symTensor<float>({1, 1, 3, 3}, "x"), t = symTensor<float>({1, 1}, "t"); float loss = MSELoss<float>().compute(m.predict(x), t)[0]; auto e = values(W), eb = values(B); for (auto& w : e) w = w - 0.5f * sym_grad_f32(loss, w, "dk"); for (auto& w : eb) w = w - 0.5f * sym_grad_f32(loss, w, "dkb"); endToEnd(m, {2}, {f}, x, t, false); auto& L = *static_cast<Conv2DLayer<float>*>(m.getLayer(0)); checkTensor(L.getWeights(), {1, 1, 2, 2}, e, "the kernels move against the gradient of the loss"); checkTensor(L.getBiases(), {1, 1}, eb, "the convolution biases move against the gradient of the loss"); }
ENTRY(qr_pool) { Model m; FC f = mkFC(4, 1, "w"); Conv2DLayer<float> K(1, 1, 1, 1, 1, 0, 1); auto W = symTensor<float>({1, 1, 1, 1}, "k", 1, 2); K.setWeights(W); m.addLayer(K); m.addLayer(MaxPooling2DLayer<float>(2)); m.addLayer(ActivationLayer<float>(ReLU<float>())); m.addLayer(FlattenLayer<float>()); addFC(m, f); Tensor<float> x({1, 1, 4, 4}); for (int i = 0; i < 16; ++i) { double b = ((i * 7) % 16 + 1) * 4; x[i] = sym_f32("x", b, b + 0.5); } auto t = symTensor<float>({1, 1}, "t"); float loss = MSELoss<float>().compute(m.predict(x), t)[0]; float e = W[0] - 0.5f * sym_grad_f32(loss, W[0], "dk"); endToEnd(m, {4}, {f}, x, t, false); check_eq(static_cast<Conv2DLayer<float>*>(m.getLayer(0))->getWeights()[0], e, "the gradient passes pooling to the selected pixels"); }
// dropout: the backward pass uses the mask of the forward pass of the same sample
ENTRY(qr_dropout) { Model m; FC f = mkFC(1, 2, "w", 0.5, 1), g = mkFC(2, 1, "v", 0.5, 1); for (auto& b : f.b) b = sym_f32("b", 0.5, 1); addFC(m, f); m.addLayer(DropoutLayer<float>(0.5f)); addFC(m, g); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(0.5f))); auto x = symTensor<float>({1, 1}, "x", 0.5, 1), t = symTensor<float>({1, 1}, "t"); rng_symbolic = 1; rng_draws = 0; m.train({x}, {t}, 1); sym_assert(rng_draws == 2, "one draw per element"); float mask[2]; for (int i = 0; i < 2; ++i) mask[i] = rng_log[i] >= 0.5 ? 2.f : 0.f; float h[2], y = g.b[0]; for (int i = 0; i < 2; ++i) { h[i] = mask[i] * (x[0] * f.w[i] + f.b[i]); y += h[i] * g.w[i]; } float d = 2 * (y - t[0]); FC ef = f, eg = g; for (int i = 0; i < 2; ++i) { ef.w[i] -= 0.5f * d * g.w[i] * mask[i] * x[0]; ef.b[i] -= 0.5f * d * g.w[i] * mask[i]; eg.w[i] -= 0.5f * d * h[i]; } eg.b[0] -= 0.5f * d; checkFC(m, 0, ef, "dropout drops the gradient of dropped units"); checkFC(m, 2, eg, "dropped units do not train the next layer"); }
// Adam and RMSProp through the model: every layer has its own state
ENTRY(qr_adam) { Model m; FC f = mkFC(1, 1, "w"), g = mkFC(1, 1, "v"); addFC(m, f); addFC(m, g); AdamOptions<float> o; o.learningRate = 0.5f; o.beta1 = 0.5f; o.beta2 = 0.75f; o.epsilon = 0.125f; m.compile(MSELoss<float>(), AdamOptimizer<float>(o)); auto x = symTensor<float>({1, 1}, "x"), t = symTensor<float>({1, 1}, "t"); float h = x[0] * f.w[0] + f.b[0], y = h * g.w[0] + g.b[0], d = 2 * (y - t[0]); float gr[4] = {d * g.w[0] * x[0], d * g.w[0], d * h, d}; float* ps[4] = {&f.w[0], &f.b[0], &g.w[0], &g.b[0]}; m.train({x}, {t}, 1); for (int i = 0; i < 4; ++i) *ps[i] -= 0.5f * gr[i] / (std::sqrt(gr[i] * gr[i]) + 0.125f); checkFC(m, 0, f, "the first Adam step of every parameter"); checkFC(m, 1, g, "the first Adam step of every parameter"); }
ENTRY(qr_rmsprop) { Model m; FC f = mkFC(1, 1, "w"); addFC(m, f); RMSPropOptions<float> o; o.learningRate = 0.5f; o.alpha = 0.75f; o.epsilon = 0.125f; m.compile(MSELoss<float>(), RMSPropOptimizer<float>(o)); auto x = symTensor<float>({1, 1}, "x"), t = symTensor<float>({1, 1}, "t"); float d = 2 * (x[0] * f.w[0] + f.b[0] - t[0]), gw = d * x[0]; m.train({x}, {t}, 1); f.w[0] -= 0.5f * gw / std::sqrt(0.25f * gw * gw + 0.125f); f.b[0] -= 0.5f * d / std::sqrt(0.25f * d * d + 0.125f); checkFC(m, 0, f, "the first RMSProp step of every parameter"); }
// every layer is updated exactly once per sample, backward runs from the last layer to the first
static std::vector<int> g_log;
struct Spy : Layer<float> { int id; Spy(int i) : id(i) {} Tensor<float> forward(const Tensor<float>& x) override { g_log.push_back(100 + id); return x + 1.f; } Tensor<float> backward(const Tensor<float>& g) override { g_log.push_back(200 + id); return g * 2.f; } void updateWeights(Optimizer<float>&) override { g_log.push_back(300 + id); } };
ENTRY(qr_order) { g_log.clear(); int n = sym_pick("layers", 0, 3), N = sym_pick("samples", 1, 2), E = sym_pick("epochs", 0, 2); Model m; for (int i = 0; i < n; ++i) m.addLayer(Spy(i)); m.compile(MSELoss<float>(), SGDOptimizer<float>()); Ts xs, ts; for (int i = 0; i < N; ++i) { xs.push_back(symTensor<float>({1}, "x")); ts.push_back(symTensor<float>({1}, "t")); } m.train(xs, ts, E); sym_assert((int)g_log.size() == 3 * n * N * E, "every layer runs forward, backward and update once per sample"); size_t p = 0; for (int s = 0; s < N * E; ++s) { for (int i = 0; i < n; ++i) sym_assert(g_log[p++] == 100 + i, "forward in order"); for (int i = n; i-- > 0;) sym_assert(g_log[p++] == 200 + i, "backward in reverse order"); std::vector<char> seen(n, 0); for (int i = 0; i < n; ++i) { int k = g_log[p++] - 300; sym_assert(k >= 0 && k < n && !seen[k], "every layer is updated once, after the backward pass"); seen[k] = 1; } } g_log.clear(); }
// the model's own backward/updateWeights
ENTRY(qr_manual) { FC f = mkFC(2, 1, "w"); Model m; addFC(m, f); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(0.5f))); auto x = symTensor<float>({1, 2}, "x"), g = symTensor<float>({1, 1}, "g"); m.predict(x); m.backward(g); checkFC(m, 0, f, "backward alone changes no parameter"); m.updateWeights(); for (int i = 0; i < 2; ++i) f.w[i] -= 0.5f * g[0] * x[i]; f.b[0] -= 0.5f * g[0]; checkFC(m, 0, f, "updateWeights applies the gradients"); }
// a compiled model can be recompiled: the new optimizer starts fresh
ENTRY(qr_recompile) { FC f = mkFC(1, 1, "w"); Model m; addFC(m, f); Ts xs{symTensor<float>({1, 1}, "x")}, ts{symTensor<float>({1, 1}, "t")}; m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(0.25f, 0.5f))); m.train(xs, ts, 1); refLinear(f, values(xs[0]), values(ts[0]), 1, 0.25f); checkFC(m, 0, f, "the first step of momentum is a plain step"); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(0.5f, 0.5f))); m.train(xs, ts, 1); refLinear(f, values(xs[0]), values(ts[0]), 1, 0.5f); checkFC(m, 0, f, "a recompiled model starts with a fresh optimizer"); }
ENTRY(qr_reject) { FC f = mkFC(2, 1, "w"); Model m; addFC(m, f); int k = sym_pick("k", 0, 4); if (k > 1) m.compile(MSELoss<float>(), SGDOptimizer<float>()); Ts a{symTensor<float>({1, 2}, "x")}, b{symTensor<float>({1, 1}, "t")}; bool r = rejected([&] { if (k == 0) m.train(a, b, 1); else if (k == 1) m.updateWeights(); else if (k == 2) m.train(a, {}, 1); else if (k == 3) { b.push_back(b[0]); m.train(a, b, 1); } else m.train({symTensor<float>({1, 3}, "y")}, b, 1); }); sym_assert(r, "training that cannot work is rejected"); checkFC(m, 0, f, "a refused training changes nothing"); }
ENTRY(qr_double) { sym_precise(); SmartDNN<double> m; FullyConnectedLayer<double> L(1, 1); auto W = symTensor<double>({1, 1}, "w"), B = symTensor<double>({1, 1}, "b"), x = symTensor<double>({1, 1}, "x"), t = symTensor<double>({1, 1}, "t"); L.setWeights(W); L.setBiases(B); m.addLayer(L); SGDOptions<double> o; o.learningRate = 0.5; m.compile(MSELoss<double>(), SGDOptimizer<double>(o)); m.train({x}, {t}, 1); double d = 2 * (W[0] * x[0] + B[0] - t[0]); auto& R = *static_cast<FullyConnectedLayer<double>*>(m.getLayer(0)); check_eq(R.getWeights()[0], W[0] - 0.5 * d * x[0], "double precision training"); check_eq(R.getBiases()[0], B[0] - 0.5 * d, "double precision training"); }
// more samples, epochs and features; batches of different size within one data set (a short last batch)
ENTRY(qr_linear_more) { static const int C[][4] = {{1, 1, 4, 1}, {2, 2, 3, 2}, {5, 1, 2, 1}, {1, 5, 2, 1}, {4, 4, 1, 1}, {1, 1, 2, 4}}; const int* c = C[sym_pick("config", 0, 5)]; int I = c[0], O = c[1], N = c[2], E = c[3]; Model m; FC f = mkFC(I, O, "w"); addFC(m, f); float lr = sym_f32("lr", 0.01, 0.5); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr))); Ts xs, ts; for (int s = 0; s < N; ++s) { int B = s == N - 1 ? 1 : 2; xs.push_back(symTensor<float>({B, I}, "x", -1, 1)); ts.push_back(symTensor<float>({B, O}, "t", -1, 1)); } m.train(xs, ts, E); for (int e = 0; e < E; ++e) for (int s = 0; s < N; ++s) refLinear(f, values(xs[s]), values(ts[s]), s == N - 1 ? 1 : 2, lr); checkFC(m, 0, f, "training is gradient descent batch by batch"); }
// the data of the README's example: samples of rank 1
ENTRY(qr_rank1) { int N = sym_pick("samples", 1, 3), O = sym_pick("outputs", 1, 2), I = sym_pick("inputs", 1, 2); Model m; FC f = mkFC(I, O, "w"); addFC(m, f); float lr = sym_f32("lr", 0.01, 1); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr))); Ts xs, ts; for (int s = 0; s < N; ++s) { xs.push_back(symTensor<float>({I}, "x")); ts.push_back(symTensor<float>({O}, "t")); } m.train(xs, ts, 1); for (int s = 0; s < N; ++s) refLinear(f, values(xs[s]), values(ts[s]), 1, lr); checkFC(m, 0, f, "samples of rank 1 are batches of one"); }
// whatever the model did before (inference, refused calls, mode changes), a training step is the same
ENTRY(qr_history) { Model m; FC f = mkFC(1, 2, "w"), g = mkFC(2, 1, "v"); addFC(m, f); addFC(m, g); float lr = 0.5f; m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr))); for (int s = 0; s < 2; ++s) switch (sym_pick("before", 0, 6)) { case 0: break; case 1: m.predict(symTensor<float>({3, 1}, "q")); break; case 2: m.evalMode(); m.predict(symTensor<float>({1, 1}, "q")); m.trainingMode(); break; case 3: rejected([&] { m.predict(Tensor<float>({2, 3}, 1.f)); }); break; case 4: rejected([&] { m.train({Tensor<float>({1, 1}, 1.f)}, {Tensor<float>({3, 3}, 1.f)}, 1); }); break; case 5: m.predict(symTensor<float>({2, 1}, "q")); m.backward(symTensor<float>({2, 1}, "qg")); break; default: m.train({symTensor<float>({1, 1}, "q")}, {symTensor<float>({1, 1}, "q")}, 0); }
  int B = sym_pick("batch", 1, 2); auto x = symTensor<float>({B, 1}, "x"), t = symTensor<float>({B, 1}, "t"); FC ef = f, eg = g; std::vector<float> d(B); float h[2][2]; for (int b = 0; b < B; ++b) { float y = g.b[0]; for (int i = 0; i < 2; ++i) { h[b][i] = x[b] * f.w[i] + f.b[i]; y += h[b][i] * g.w[i]; } d[b] = 2 * (y - t[b]) / (float)B; } for (int b = 0; b < B; ++b) { for (int i = 0; i < 2; ++i) { ef.w[i] -= lr * d[b] * g.w[i] * x[b]; ef.b[i] -= lr * d[b] * g.w[i]; eg.w[i] -= lr * d[b] * h[b][i]; } eg.b[0] -= lr * d[b]; } m.train({x}, {t}, 1); checkFC(m, 0, ef, "a training step does not depend on what the model did before"); checkFC(m, 1, eg, "a training step does not depend on what the model did before"); }
ENTRY(qr_mish) { act<Mish<float>>(true); }
ENTRY(qr_deep) { Model m; std::vector<FC> fs; std::vector<int> at; static const int W[][2] = {{1, 2}, {2, 2}, {2, 3}, {3, 1}}; for (int i = 0; i < 4; ++i) { fs.push_back(mkFC(W[i][0], W[i][1], "w")); addFC(m, fs.back()); at.push_back(i); } endToEnd(m, at, fs, symTensor<float>({1, 1}, "x"), symTensor<float>({1, 1}, "t"), false); }
ENTRY(qr_softmax_batch) { Model m; FC f{1, 2, {}, {}}; f.w = {sym_f32("w", 0.25, 0.5), sym_f32("w", -0.5, -0.25)}; f.b = {sym_f32("b", 0.5, 1), sym_f32("b", -1, -0.5)}; addFC(m, f); m.addLayer(ActivationLayer<float>(Softmax<float>())); m.compile(CategoricalCrossEntropyLoss<float>(), SGDOptimizer<float>(sgd(0.5f))); auto x = symTensor<float>({2, 1}, "x", 0.25, 0.5); Tensor<float> t({2, 2}); for (int i = 0; i < 2; ++i) { t[2 * i] = sym_f32("t", 0, 1); t[2 * i + 1] = 1 - t[2 * i]; } FC e = f; for (int i = 0; i < 2; ++i) { float z0 = std::exp(x[i] * f.w[0] + f.b[0]), z1 = std::exp(x[i] * f.w[1] + f.b[1]), p = z0 / (z0 + z1), g = (p - t[2 * i]) / 2; e.w[0] -= 0.5f * g * x[i]; e.b[0] -= 0.5f * g; e.w[1] += 0.5f * g * x[i]; e.b[1] += 0.5f * g; } m.train({x}, {t}, 1); checkFC(m, 0, e, "softmax with cross entropy descends along softmax minus target"); }
ENTRY(qr_cnn_padded) { Model m; int st = sym_pick("stride", 1, 2); Conv2DLayer<float> K(1, 2, 2, 2, st, 1, 1); auto W = symTensor<float>({2, 1, 2, 2}, "k"); auto B = symTensor<float>({2, 1}, "kb"); bool flatBias = !sameDims(K.getBiases().getShape().getDimensions(), {2, 1}); if (flatBias) B.reshape(K.getBiases().getShape().getDimensions()); K.setWeights(W); K.setBiases(B); int o = st == 1 ? 3 : 2; FC f = mkFC(2 * o * o, 1, "w"); m.addLayer(K); m.addLayer(FlattenLayer<float>()); addFC(m, f); auto x = symTensor<float>({1, 1, 2, 2}, "x"), t = symTensor<float>({1, 1}, "t"); float loss = MSELoss<float>().compute(m.predict(x), t)[0]; auto e = values(W), eb = values(B); for (auto& w : e) w = w - 0.5f * sym_grad_f32(loss, w, "dk"); for (auto& w : eb) w = w - 0.5f * sym_grad_f32(loss, w, "dkb"); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(0.5f))); m.train({x}, {t}, 1); auto& L = *static_cast<Conv2DLayer<float>*>(m.getLayer(0)); checkValues(L.getWeights(), e, "the kernels move against the gradient of the loss"); checkValues(L.getBiases(), eb, "the convolution biases move against the gradient of the loss"); }
// every option of the optimizers through the model, over two samples
ENTRY(qr_momentum) { Model m; FC f = mkFC(1, 1, "w"); addFC(m, f); SGDOptions<float> o = sgd(sym_f32("lr", 0.01, 1), sym_f32("mom", 0.01, 0.99)); o.weightDecay = sym_f32("wd", 0.01, 1); o.nesterov = sym_pick("nesterov", 0, 1); m.compile(MSELoss<float>(), SGDOptimizer<float>(o)); Ts xs, ts; for (int s = 0; s < 2; ++s) { xs.push_back(symTensor<float>({1, 1}, "x")); ts.push_back(symTensor<float>({1, 1}, "t")); } m.train(xs, ts, 1); float p[2] = {f.w[0], f.b[0]}, v[2] = {0, 0}; for (int s = 0; s < 2; ++s) { float d = 2 * (xs[s][0] * p[0] + p[1] - ts[s][0]), g[2] = {d * xs[s][0], d}; for (int k = 0; k < 2; ++k) { float e = g[k] + o.weightDecay * p[k]; v[k] = o.momentum * v[k] + e; p[k] -= o.learningRate * (o.nesterov ? e + o.momentum * v[k] : v[k]); } } check_eq(fc(m, 0).getWeights()[0], p[0], "momentum accumulates over the samples"); check_eq(fc(m, 0).getBiases()[0], p[1], "momentum accumulates over the samples"); }
// long trainings: the parameters stay affine in their initial values, whatever the number of samples and epochs
ENTRY(qr_long_training) { static const int NE[][2] = {{1, 110}, {70, 2}, {130, 1}, {5, 25}}; const int* c = NE[sym_pick("run", 0, 3)]; int N = c[0], E = c[1]; Model m; FC f = mkFC(1, 1, "w"); addFC(m, f); float lr = 0.0625f; m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr))); Ts xs, ts; for (int s = 0; s < N; ++s) { xs.push_back(Tensor<float>({1, 1}, {(float)(s % 4) - 1})); ts.push_back(Tensor<float>({1, 1}, {(float)(s % 3)})); } m.train(xs, ts, E); for (int e = 0; e < E; ++e) for (int s = 0; s < N; ++s) refLinear(f, values(xs[s]), values(ts[s]), 1, lr); checkFC(m, 0, f, "training is gradient descent sample by sample, however long"); }
// losses of every size, from far below to far above one, over several epochs
ENTRY(qr_magnitudes) { int k = sym_pick("magnitude", 0, 5), N = sym_pick("samples", 1, 2); static const float S[] = {1e-5f, 0.0078125f, 1.f, 128.f, 65536.f, 1e8f}; FC f = mkFC(1, 1, "w"); Model m; addFC(m, f); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(0.125f, 0.f))); Ts xs, ts; for (int s = 0; s < N; ++s) { xs.push_back(symTensor<float>({1, 1}, "x", 0.5, 1)); float t = sym_f32("t", 0.5, 1); ts.push_back(Tensor<float>(Shape({1, 1}), t * S[k])); } if (k < 2) { for (auto& w : f.w) w = w * S[k]; for (auto& w : f.b) w = w * S[k]; fc(m, 0).setWeights(Tensor<float>(Shape({1, 1}), f.w)); fc(m, 0).setBiases(Tensor<float>(Shape({1, 1}), f.b)); } m.train(xs, ts, 4); for (int e = 0; e < 4; ++e) for (int s = 0; s < N; ++s) refLinear(f, values(xs[s]), values(ts[s]), 1, 0.125f); checkFC(m, 0, f, "training is gradient descent whatever the size of the loss"); }
// many samples and epochs without a gradient before the samples that have one
ENTRY(qr_late) { static const int NE[][2] = {{1030, 1}, {255, 2}, {2, 300}}; const int* c = NE[sym_pick("run", 0, 2)]; int N = c[0], E = c[1]; Model m; FC f = mkFC(1, 1, "w"); addFC(m, f); float lr = 0.0625f; m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr))); Tensor<float> z({1, 1}, {0.f}), t({1, 1}, {0.f}); t[0] = f.b[0]; Ts xs(N, z), ts(N, t); m.train(xs, ts, E); checkFC(m, 0, f, "perfect predictions leave the parameters as they are"); Ts as, bs; for (int s = 0; s < 2; ++s) { as.push_back(symTensor<float>({1, 1}, "x")); bs.push_back(symTensor<float>({1, 1}, "t")); } m.train(as, bs, 1); for (int s = 0; s < 2; ++s) refLinear(f, values(as[s]), values(bs[s]), 1, lr); checkFC(m, 0, f, "a gradient step after many others"); }
// samples that repeat within an epoch, as inputs, as targets or both
ENTRY(qr_repeats) { static const int P[][4] = {{0, 0, -1, -1}, {0, 1, 0, -1}, {0, 0, 1, -1}, {0, 1, 1, -1}, {0, 1, 0, 1}, {0, 0, 0, 0}}; const int* p = P[sym_pick("pattern", 0, 5)]; int what = sym_pick("what", 0, 2), E = sym_pick("epochs", 1, 2); Model m; FC f = mkFC(1, 1, "w"); addFC(m, f); float lr = 0.25f; m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(lr))); Ts a, b, xs, ts; for (int i = 0; i < 4; ++i) { a.push_back(symTensor<float>({1, 1}, "x", -1, 1)); b.push_back(symTensor<float>({1, 1}, "t", -1, 1)); } int N = 0; for (; N < 4 && p[N] >= 0; ++N) { xs.push_back(what == 1 ? a[N] : a[p[N]]); ts.push_back(what == 0 ? b[N] : b[p[N]]); } m.train(xs, ts, E); for (int e = 0; e < E; ++e) for (int s = 0; s < N; ++s) refLinear(f, values(xs[s]), values(ts[s]), 1, lr); checkFC(m, 0, f, "every sample of every epoch is a step of its own"); }
// depth and width do not change the gradient
ENTRY(qr_stacks) { static const int O[] = {1, 5, 9}; int extra = sym_pick("layers", 0, 7), o = O[sym_pick("outputs", 0, 2)], B = sym_pick("batch", 1, 2); Model m; FC f = mkFC(1, o, "w"); if (extra > 3) m.addLayer(FlattenLayer<float>()); addFC(m, f); for (int i = 0; i < extra; ++i) m.addLayer(FlattenLayer<float>()); m.compile(MSELoss<float>(), SGDOptimizer<float>(sgd(0.5f))); Ts xs{symTensor<float>({B, 1}, "x", -1, 1)}, ts{symTensor<float>({B, o}, "t", -1, 1)}; m.train(xs, ts, 1); refLinear(f, values(xs[0]), values(ts[0]), B, 0.5f); checkFC(m, extra > 3 ? 1 : 0, f, "layers that only reshape do not change the step"); }
