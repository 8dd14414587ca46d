// @bounds every layer type (fully connected, two convolutions, flatten, pooling, batch normalisation, dropout, six activations); histories of up to two earlier steps out of forward, forward and backward, refused forward, refused backward, evaluation pass, update, another instance's pass, each with other batch sizes; repeated passes of the same shape, inputs changed in place, evaluation mode (layers that do not depend on it); up to 40 elements per tensor, all element values symbolic; the parameters updated between passes; up to three passes of one shape in evaluation mode
// @assume real arithmetic with the real exponential
// @outside the running statistics of batch normalisation in evaluation mode (they are the layer's state; C18); backward passes of batch normalisation and dropout in evaluation mode or after a mode change; backward after a refused forward without a new forward; longer histories
#include "repo.hpp"
typedef Tensor<float> T;
enum { FC, CONV, CONV2, FLAT, POOL, POOL2, BN, DROP, RELU, LEAKY, SIG, TANH, SWISH, MISH, SOFT, LAYERS };
static Layer<float>* make(int k) { RandomEngine::setSeed(11); switch (k) { case FC: return new FullyConnectedLayer<float>(2, 2); case CONV: return new Conv2DLayer<float>(1, 2, 2, 2, 1, 0, 1); case CONV2: return new Conv2DLayer<float>(1, 1, 2, 1, 2, 1, 1); case FLAT: return new FlattenLayer<float>(); case POOL: return new MaxPooling2DLayer<float>(2, 1); case POOL2: return new MaxPooling2DLayer<float>(2, 2, 1); case BN: return new BatchNormalizationLayer<float>(2, 0.25f, 0.5f); case DROP: return new DropoutLayer<float>(0.5f);
  case RELU: return new ActivationLayer<float>(ReLU<float>()); case LEAKY: return new ActivationLayer<float>(LeakyReLU<float>(0.25f)); case SIG: return new ActivationLayer<float>(Sigmoid<float>()); case TANH: return new ActivationLayer<float>(Tanh<float>()); case SWISH: return new ActivationLayer<float>(Swish<float>()); case MISH: return new ActivationLayer<float>(Mish<float>()); default: return new ActivationLayer<float>(Softmax<float>()); } }
static Dims shapeFor(int k, int variant) { if (k == CONV || k == CONV2 || k == POOL || k == POOL2) { static const Dims S[] = {{1, 1, 2, 3}, {2, 1, 2, 2}, {1, 1, 3, 3}}; return S[variant]; } if (k == BN) { static const Dims S[] = {{2, 2}, {3, 2}, {1, 2, 2, 1}}; return S[variant]; } if (k == FC) { static const Dims S[] = {{2, 2}, {1, 2}, {2}}; return S[variant]; } static const Dims S[] = {{2, 2}, {1, 3}, {3, 2}}; return S[variant]; }
static T pat(const Dims& d, const char* n, int off = 0) { T t{Shape(d)}; int m = prodOf(d); for (int i = 0; i < m; ++i) { double b = ((i * 7 + off) % 19 - 9) * 0.25 + 0.125; t.getData().data()[i] = sym_f32(n, b - 0.0625, b + 0.0625); } return t; }
static T bad(int k) { return k == FC ? T(Shape{3, 3}, 1.f) : T(Shape{1, 3, 1}, 1.f); }
static void history(Layer<float>& L, int k, int op, int s) { T x = pat(shapeFor(k, 1 + s), "hx", 5); switch (op) { case 0: break; case 1: L.forward(x); break; case 2: { T y = L.forward(x); T g = symTensor<float>(y.getShape().getDimensions(), "hg"); L.backward(g); break; } case 3: rejected([&] { L.forward(bad(k)); }); break; case 4: L.forward(x); rejected([&] { L.backward(T(Shape{7}, 1.f)); }); break; case 5: L.setTrainingMode(false); L.forward(x); L.setTrainingMode(true); break; case 6: { T y = L.forward(x); L.backward(y); Probe<float> p; rejected([&] { L.updateWeights(p); }); break; } default: { std::unique_ptr<Layer<float>> M(make(k)); T y = M->forward(x); M->backward(y); M->forward(pat(shapeFor(k, 2 - s), "ox", 3)); } } }
// the last pass of a layer with a history against the same pass of a fresh layer with the same parameters
static void compare(Layer<float>& L, Layer<float>& F, int k, const Dims& d, bool mutate) { RandomEngine::setSeed(3); T x = pat(d, "x"), x0 = x; std::vector<float> v = values(x); T y = L.forward(x); checkTensor(x, d, v, "forward leaves its input unchanged"); RandomEngine::setSeed(3); T z = F.forward(x0); Dims o = z.getShape().getDimensions(); std::vector<float> vz = values(z); checkTensor(y, o, vz, "the output depends on this input only");
  if (mutate) { float* p = x.getData().data(); for (int i = 0; i < prodOf(d); ++i) p[i] = 77.f; checkTensor(y, o, vz, "the output does not alias the input"); float* q = y.getData().data(); for (size_t i = 0; i < vz.size(); ++i) q[i] = -55.f; }
  T g = symTensor<float>(o, "g"), g0 = g; std::vector<float> vg = values(g); T dx = L.backward(g), dz = F.backward(g0); checkTensor(g, o, vg, "backward leaves its gradient unchanged"); checkDims(dx, dz.getShape().getDimensions(), "gradient shape"); checkTensor(dx, d, values(dz), "the input gradient belongs to the last forward pass"); Probe<float> p, q; bool r1 = rejected([&] { L.updateWeights(p); }), r2 = rejected([&] { F.updateWeights(q); }); sym_assert(r1 == r2 && p.g.size() == q.g.size(), "the same parameters are updated"); for (size_t i = 0; i < p.g.size() && i < q.g.size(); ++i) { checkTensor(p.g[i], q.g[i].getShape().getDimensions(), values(q.g[i]), "the parameter gradients belong to the last passes"); checkTensor(*p.w[i], q.w[i]->getShape().getDimensions(), values(*q.w[i]), "forward and backward do not change the parameters"); }
  if (mutate) { std::vector<float> r = values(dx); g.getData().data()[0] = 3.f; checkTensor(dx, d, r, "the gradient does not alias its argument"); } }
static void run(int k, int ops) { rng_symbolic = 0; std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); for (int s = 0; s < ops; ++s) history(*L, k, sym_pick("step", 0, 7), s % 2); compare(*L, *F, k, shapeFor(k, 0), false); }
ENTRY(qr_fc) { run(FC, 2); }
ENTRY(qr_conv) { run(CONV, 2); }
ENTRY(qr_conv2) { run(CONV2, 2); }
ENTRY(qr_flatten) { run(FLAT, 2); }
ENTRY(qr_pool) { run(POOL, 2); }
ENTRY(qr_pool2) { run(POOL2, 2); }
ENTRY(qr_batchnorm) { run(BN, 2); }
ENTRY(qr_dropout) { run(DROP, 2); }
ENTRY(qr_relu) { run(RELU, 2); }
ENTRY(qr_leaky) { run(LEAKY, 2); }
ENTRY(qr_smooth) { run(sym_pick("layer", SIG, SOFT), 1); }
// inputs, outputs and gradients are separate values
ENTRY(qr_aliasing) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); compare(*L, *F, k, shapeFor(k, 0), true); }
// two backward passes after one forward, and two forwards before one backward
ENTRY(qr_repeat) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); std::unique_ptr<Layer<float>> L(make(k)); Dims d = shapeFor(k, 0); T x = pat(d, "x"); T y = L->forward(x); Dims o = y.getShape().getDimensions(); T g = symTensor<float>(o, "g"), h = symTensor<float>(o, "h"); std::vector<float> a = values(L->backward(g)); std::vector<float> b = values(L->backward(h)); checkTensor(L->backward(g), d, a, "backward is a function of the gradient"); Probe<float> p; rejected([&] { L->updateWeights(p); }); std::unique_ptr<Layer<float>> F(make(k)); if (k == DROP) return; F->forward(x); F->backward(g); Probe<float> q; rejected([&] { F->updateWeights(q); }); for (size_t i = 0; i < p.g.size(); ++i) checkTensor(p.g[i], q.g[i].getShape().getDimensions(), values(q.g[i]), "gradients do not accumulate over backward passes"); }
// two layers of the same type used alternately
ENTRY(qr_interleaved) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); if (k == DROP) return; std::unique_ptr<Layer<float>> L(make(k)), M(make(k)), F(make(k)), G(make(k)); Dims d = shapeFor(k, 0), e = shapeFor(k, 1); T x = pat(d, "x"), z = pat(e, "z", 3); T y = L->forward(x), w = M->forward(z); T g = symTensor<float>(y.getShape().getDimensions(), "g"), h = symTensor<float>(w.getShape().getDimensions(), "h"); T dx = L->backward(g), dz = M->backward(h); checkTensor(y, y.getShape().getDimensions(), values(F->forward(x)), "another layer's pass has no influence"); checkTensor(dx, d, values(F->backward(g)), "another layer's pass has no influence"); checkTensor(w, w.getShape().getDimensions(), values(G->forward(z)), "another layer's pass has no influence"); checkTensor(dz, e, values(G->backward(h)), "another layer's pass has no influence"); }
// evaluation passes leave no trace in batch normalisation, and training passes change its evaluation only through the statistics
ENTRY(qr_bn_eval) { rng_symbolic = 0; BatchNormalizationLayer<float> L(2, 0.25f, 0.5f), F(2, 0.25f, 0.5f); T t = pat({2, 2}, "t", 5); L.forward(t); F.forward(t); L.setTrainingMode(false); F.setTrainingMode(false); int n = sym_pick("passes", 1, 3); for (int i = 0; i < n; ++i) L.forward(pat(shapeFor(BN, sym_pick("shape", 0, 2)), "e", 2)); T x = pat({2, 2}, "x"); checkTensor(L.forward(x), {2, 2}, values(F.forward(x)), "evaluation does not change the statistics"); }
// evaluation mode: forward and backward of the layers whose behaviour does not depend on the mode
ENTRY(qr_eval_backward) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); if (k == BN || k == DROP) return; std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); int before = sym_pick("before", 0, 2); if (before == 1) { T y = L->forward(pat(shapeFor(k, 1), "hx", 5)); L->backward(symTensor<float>(y.getShape().getDimensions(), "hg")); } L->setTrainingMode(false); if (before == 2) L->forward(pat(shapeFor(k, 1), "hx", 5)); compare(*L, *F, k, shapeFor(k, 0), false); L->setTrainingMode(true); std::unique_ptr<Layer<float>> G(make(k)); compare(*L, *G, k, shapeFor(k, 2), false); }
// the layer sees exactly the input of the last forward pass, also when it has the same shape or the same values as before
ENTRY(qr_same_shape) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); Dims d = shapeFor(k, 0); T h = pat(d, "hx", 5); int n = sym_pick("passes", 1, 3); for (int i = 0; i < n; ++i) { T y = L->forward(h); if (sym_pick("backward", 0, 1)) L->backward(symTensor<float>(y.getShape().getDimensions(), "hg")); } compare(*L, *F, k, d, false); }
// one input object that is changed in place between passes
ENTRY(qr_reused_input) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); Dims d = shapeFor(k, 0); T x = pat(d, "hx", 5); T y = L->forward(x); bool back = sym_pick("backward", 0, 1); if (back) L->backward(y); T z = pat(d, "x"); std::vector<float> v = values(z); for (size_t i = 0; i < v.size(); ++i) x.getData().data()[i] = v[i]; RandomEngine::setSeed(3); T a = L->forward(x); RandomEngine::setSeed(3); T b = F->forward(z); checkTensor(a, b.getShape().getDimensions(), values(b), "the output belongs to the current contents of the input"); T g = symTensor<float>(values(b).size() ? b.getShape().getDimensions() : d, "g"); checkTensor(L->backward(g), d, values(F->backward(g)), "and so does the gradient"); }
// larger inputs after smaller ones and the other way round
ENTRY(qr_sizes) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); bool img = k == CONV || k == CONV2 || k == POOL || k == POOL2; Dims big = img ? Dims{2, 1, 5, 4} : Dims{9, 2}, sm = img ? Dims{1, 1, 2, 2} : Dims{2, 2}; bool up = sym_pick("up", 0, 1); T y = L->forward(pat(up ? sm : big, "hx", 5)); if (sym_pick("backward", 0, 1)) L->backward(symTensor<float>(y.getShape().getDimensions(), "hg")); compare(*L, *F, k, up ? big : sm, false); }
ENTRY(tr_smooth) { run(sym_pick("layer", SIG, SOFT), 2); }
ENTRY(tr_history3) { run(sym_pick("layer", FC, LEAKY), 3); }
// parameters changed in place between two passes (by an optimizer or through the references the optimizer gets)
struct Nudge : Optimizer<float> { float by = 0.5f; void optimize(const std::vector<std::reference_wrapper<T>>& w, const std::vector<std::reference_wrapper<T>>&, float = -1.0f) override { for (auto& r : w) { float* p = r.get().getData().data(); for (size_t i = 0; i < r.get().getShape().size(); ++i) p[i] = p[i] * 0.5f + by + 0.125f * (float)i; } } Nudge& reset() { return *this; } };
ENTRY(qr_updated) { rng_symbolic = 0; static const int K[] = {FC, CONV, CONV2, BN}; int k = K[sym_pick("layer", 0, 3)]; std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); Dims d = shapeFor(k, 0); Nudge n; int rounds = sym_pick("rounds", 1, 2); for (int r = 0; r < rounds; ++r) { n.by = 0.5f + r; T y = L->forward(pat(d, "hx", 5 + r)); L->backward(symTensor<float>(y.getShape().getDimensions(), "hg")); L->updateWeights(n); T z = F->forward(pat(d, "fx", 3)); F->backward(z); F->updateWeights(n); } std::unique_ptr<Layer<float>> G; if (k == BN || !sym_pick("fresh", 0, 1)) compare(*L, *F, k, d, false); else { Probe<float> p; { T y = L->forward(pat(d, "px", 1)); L->backward(y); L->updateWeights(p); } G.reset(make(k)); if (k == FC) { auto* g = static_cast<FullyConnectedLayer<float>*>(G.get()); g->setWeights(*p.w[0]); g->setBiases(*p.w[1]); } else { auto* g = static_cast<Conv2DLayer<float>*>(G.get()); g->setWeights(*p.w[0]); g->setBiases(*p.w[1]); } compare(*L, *G, k, d, false); } }
// evaluation mode: several passes of one shape, then a backward pass
ENTRY(qr_eval_same_shape) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS - 1); if (k == BN || k == DROP) return; std::unique_ptr<Layer<float>> L(make(k)), F(make(k)); Dims d = shapeFor(k, sym_pick("variant", 0, 1)); T h = pat(d, "hx", 5); bool late = sym_pick("late", 0, 1); if (late) L->forward(h); L->setTrainingMode(false); int n = sym_pick("passes", 1, 2); for (int i = 0; i < n; ++i) { T y = L->forward(h); if (sym_pick("backward", 0, 1)) L->backward(symTensor<float>(y.getShape().getDimensions(), "hg")); } if (sym_pick("again", 0, 1)) L->setTrainingMode(true); compare(*L, *F, k, d, false); }
