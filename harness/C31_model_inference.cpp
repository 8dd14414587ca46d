// @bounds models of 0..9 layers: affine test layers in any order (up to 4 layers in every mode and list combination, every catalogue shape up to 65 elements, histories of 4 operations), and listed stacks of the library's layers (fully connected, convolution, pooling, flatten, activations, batch normalisation, dropout) up to 16-element images; inputs and parameters symbolic; call sequences up to 4; 140 layers, 1100 inputs; symbolic inputs after 99, 255 or 1030 predictions; lists of 2 to 4 equal inputs
// @assume real arithmetic with the real exponential and exact square root
// @outside larger models; training a model in evaluation mode
#include "repo.hpp"
typedef SmartDNN<float> Model;
static int g_seq = 0;
// y = a x + b; remembers the mode and how often it ran
struct Affine : Layer<float> { float a, b; int fwd = 0, sets = 0; Affine(float a, float b) : a(a), b(b) {} Tensor<float> forward(const Tensor<float>& x) override { ++fwd; return x * a + b; } Tensor<float> backward(const Tensor<float>& g) override { return g * a; } void setTrainingMode(bool m) override { ++sets; Layer<float>::setTrainingMode(m); } bool mode() const { return trainingMode; } };
ENTRY(qr_compose) { int n = sym_pick("layers", 0, 4); Model m; std::vector<float> a, b; for (int i = 0; i < n; ++i) { a.push_back(sym_f32("a", -2, 2)); b.push_back(sym_f32("b", -2, 2)); m.addLayer(Affine(a[i], b[i])); } for (int rep = 0; rep < 2; ++rep) { Dims d = rep ? Dims{3} : Dims{2, 2}; auto x = symTensor<float>(d, "x"); auto v = values(x), e = v; for (int i = 0; i < n; ++i) for (auto& y : e) y = a[i] * y + b[i]; checkTensor(m.predict(x), d, e, "the output is the layers applied in order"); checkTensor(x, d, v, "the input is unchanged"); for (int i = 0; i < n; ++i) sym_assert(((Affine*)m.getLayer(i))->fwd == rep + 1, "every layer runs once per inference"); } }
ENTRY(qr_vector) { Model m; float a = sym_f32("a", -2, 2), b = sym_f32("b", -2, 2); m.addLayer(Affine(a, b)); m.addLayer(Affine(b, 1)); int n = sym_pick("n", 0, 3); std::vector<Tensor<float>> xs; for (int i = 0; i < n; ++i) xs.push_back(symTensor<float>(i == 1 ? Dims{1, 3} : Dims{2}, "x")); auto ys = m.predict(xs); sym_assert((int)ys.size() == n, "one prediction per input"); for (int i = 0; i < n; ++i) { auto e = values(xs[i]); for (auto& y : e) y = (a * y + b) * b + 1; checkTensor(ys[i], i == 1 ? Dims{1, 3} : Dims{2}, e, "predictions are in the order of the inputs"); } }
ENTRY(qr_modes) { int n = sym_pick("layers", 0, 4); Model m; for (int i = 0; i < n; ++i) m.addLayer(Affine(1, 0)); for (int k = 0; k < 3; ++k) { bool tr = sym_pick("train", 0, 1); if (tr) m.trainingMode(); else m.evalMode(); for (int i = 0; i < n; ++i) sym_assert(((Affine*)m.getLayer(i))->mode() == tr, "the mode reaches every layer"); } if (n) { auto x = symTensor<float>({1}, "x"); m.evalMode(); m.predict(x); sym_assert(!((Affine*)m.getLayer(n - 1))->mode(), "inference does not change the mode"); m.trainingMode(); m.predict(x); sym_assert(((Affine*)m.getLayer(0))->mode(), "inference does not change the mode"); } }
ENTRY(qr_access) { int n = sym_pick("layers", 0, 3); Model m; for (int i = 0; i < n; ++i) m.addLayer(Affine((float)i, 0)); unsigned char k = sym_u8("index", 0, 255); bool rej = false; try { auto* p = m.getLayer(k); sym_assert(p != nullptr && ((Affine*)p)->a == (float)k, "getLayer returns the layer that was added at that position"); } catch (const std::exception&) { rej = true; } sym_assert(rej == (k >= n), "access outside the model is rejected"); sym_assert(rejected([&] { m.getLayer((size_t)-1); }), "access outside the model is rejected"); }
// a layer added by value is a copy: later changes of the original do not reach the model
ENTRY(qr_added_copy) { FullyConnectedLayer<float> L(2, 1); auto W = symTensor<float>({2, 1}, "w"), B = symTensor<float>({1, 1}, "b"); L.setWeights(W); L.setBiases(B); Model m; m.addLayer(L); L.setWeights(symTensor<float>({2, 1}, "w2")); auto x = symTensor<float>({1, 2}, "x"); checkTensor(m.predict(x), {1, 1}, {x[0] * W[0] + x[1] * W[1] + B[0]}, "the model keeps its own copy of a layer"); auto* p = dynamic_cast<FullyConnectedLayer<float>*>(m.getLayer(0)); p->setWeights(W * 2.f); checkTensor(m.predict(x), {1, 1}, {2 * (x[0] * W[0] + x[1] * W[1]) + B[0]}, "parameters set through the model are used"); }
// stacks of the library's own layers against the same layers applied by hand
static Tensor<float> shifted(const Dims& d, int k) { Tensor<float> t{Shape(d)}; int n = prodOf(d); for (int i = 0; i < n; ++i) { double b = ((i * 7 + k) % 11 - 5) * 0.5; t[i] = sym_f32("x", b - 0.125, b + 0.125); } return t; }
static void fillFC(FullyConnectedLayer<float>& L, int i, int o) { auto W = symTensor<float>({i, o}, "w", 0.25, 2); for (int k = 1; k < i * o; k += 2) W[k] = -W[k]; L.setWeights(W); L.setBiases(symTensor<float>({1, o}, "b")); }
ENTRY(qr_mlp) { FullyConnectedLayer<float> A(2, 2), C(2, 1); fillFC(A, 2, 2); fillFC(C, 2, 1); Tanh<float> B; Model m; m.addLayer(A); m.addLayer(ActivationLayer<float>(Tanh<float>())); m.addLayer(C); int n = sym_pick("batch", 1, 2); auto x = symTensor<float>({n, 2}, "x"); auto y = C.forward(B.forward(A.forward(x))); for (int rep = 0; rep < 2; ++rep) checkTensor(m.predict(x), {n, 1}, values(y), "a multi-layer perceptron applies its layers in order"); }
ENTRY(qr_cnn) { Conv2DLayer<float> A(1, 2, 2, 2, 1, 0, 1); auto K = symTensor<float>({2, 1, 2, 2}, "k"); A.setWeights(K); FlattenLayer<float> F; FullyConnectedLayer<float> C(8, 1); fillFC(C, 8, 1); Model m; m.addLayer(A); m.addLayer(F); m.addLayer(C); auto x = symTensor<float>({1, 1, 3, 3}, "x"); auto y = C.forward(F.forward(A.forward(x))); checkTensor(m.predict(x), {1, 1}, values(y), "a convolutional model applies its layers in order"); auto x2 = symTensor<float>({2, 1, 3, 3}, "x"); y = C.forward(F.forward(A.forward(x2))); checkTensor(m.predict(x2), {2, 1}, values(y), "another batch size"); checkTensor(m.predict(x), {1, 1}, values(C.forward(F.forward(A.forward(x)))), "earlier inference has no influence"); }
ENTRY(qr_pool) { MaxPooling2DLayer<float> P(2); FlattenLayer<float> F; ReLU<float> R; Model m; m.addLayer(ActivationLayer<float>(ReLU<float>())); m.addLayer(P); m.addLayer(F); auto x = shifted({1, 1, 4, 4}, sym_pick("perm", 0, 2)); auto y = F.forward(P.forward(R.forward(x))); checkTensor(m.predict(x), {1, 4}, values(y), "a pooling model applies its layers in order"); }
ENTRY(qr_softmax) { FullyConnectedLayer<float> A(2, 3); Softmax<float> S; A.setWeights(Tensor<float>({2, 3}, {1, 2, 3, 0, -1, 1})); Model m; m.addLayer(A); m.addLayer(ActivationLayer<float>(Softmax<float>())); auto x = symTensor<float>({1, 2}, "x", 0.5, 1); auto y = m.predict(x); checkTensor(y, {1, 3}, values(S.forward(A.forward(x))), "softmax head"); check_eq(y[0] + y[1] + y[2], 1.f, "a softmax head gives a distribution"); }
// evaluation: pure, deterministic, independent of the random engine
ENTRY(qr_eval_pure) { BatchNormalizationLayer<float> N(2, 0.5f, 0.75f); DropoutLayer<float> D(0.5f); FullyConnectedLayer<float> A(2, 1); fillFC(A, 2, 1); Model m; m.addLayer(N); m.addLayer(D); m.addLayer(A); int warm = sym_pick("trained", 0, 1); if (warm) m.predict(symTensor<float>({2, 2}, "t")); m.evalMode(); int before = rng_draws; auto x = symTensor<float>({2, 2}, "x"); auto v = values(x); auto y = m.predict(x); auto z = m.predict(x); checkTensor(z, {2, 1}, values(y), "repeated evaluation gives the same output"); sym_assert(rng_draws == before, "evaluation draws no random numbers"); checkTensor(x, {2, 2}, v, "input unchanged"); auto q = symTensor<float>({1, 2}, "q"); m.predict(q); checkTensor(m.predict(x), {2, 1}, values(y), "evaluation of other data has no influence"); auto* p = dynamic_cast<FullyConnectedLayer<float>*>(m.getLayer(2)); checkTensor(p->getWeights(), {2, 1}, values(A.getWeights()), "parameters unchanged"); checkTensor(p->getBiases(), {1, 1}, values(A.getBiases()), "parameters unchanged"); auto one = m.predict(Tensor<float>(x.slice(0, 0)).getShape().rank() == 1 ? [&] { Tensor<float> r({1, 2}); r[0] = x[0]; r[1] = x[1]; return r; }() : x); check_eq(one[0], y[0], "the output of a sample does not depend on the rest of its batch"); }
ENTRY(qr_eval_then_train) { DropoutLayer<float> D(0.5f); Model m; m.addLayer(D); auto x = symTensor<float>({2}, "x", 1, 2); m.evalMode(); checkTensor(m.predict(x), {2}, values(x), "dropout is the identity in evaluation"); m.trainingMode(); rng_symbolic = 1; auto y = m.predict(x); for (int i = 0; i < 2; ++i) { bool kept = y[i] > 0; if (kept) check_eq(y[i], 2 * x[i], "dropout is active again in training"); else check_eq(y[i], 0.f, "dropped"); } sym_assert(rng_draws >= 2, "training draws a mask"); m.evalMode(); checkTensor(m.predict(x), {2}, values(x), "and inactive again in evaluation"); }
// outputs are independent values
ENTRY(qr_outputs) { Model m; int n = sym_pick("layers", 0, 2); if (n > 0) m.addLayer(ActivationLayer<float>(Tanh<float>())); if (n > 1) m.addLayer(FlattenLayer<float>()); auto x = symTensor<float>({1, 2}, "x"); auto y = m.predict(x); auto v = values(y); x[0] = 9; x[1] = 7; checkTensor(y, {1, 2}, v, "a prediction does not alias its input"); y[0] = 5; auto w = symTensor<float>({1, 2}, "w"); auto a = values(m.predict(w)); y[1] = 3; checkTensor(m.predict(w), {1, 2}, a, "writing a prediction does not reach the model"); }
// several inputs, all of the same shape, through models that keep the shape
ENTRY(qr_vector_same) { Model m; int layers = sym_pick("layers", 0, 3); std::vector<float> a, b; for (int i = 0; i < layers; ++i) { a.push_back(sym_f32("a", -2, 2)); b.push_back(sym_f32("b", -2, 2)); m.addLayer(Affine(a[i], b[i])); } int n = sym_pick("n", 2, 5); bool twice = sym_pick("twice", 0, 1); std::vector<Tensor<float>> xs; for (int i = 0; i < n; ++i) xs.push_back(twice && i == n - 1 ? xs[0] : symTensor<float>({2, 2}, "x")); std::vector<std::vector<float>> v; for (auto& x : xs) v.push_back(values(x)); if (sym_pick("eval", 0, 1)) m.evalMode(); auto ys = m.predict(xs); sym_assert((int)ys.size() == n, "one prediction per input"); for (int i = 0; i < n; ++i) { auto e = v[i]; for (auto& y : e) for (int k = 0; k < layers; ++k) y = a[k] * y + b[k]; checkTensor(ys[i], {2, 2}, e, "every prediction belongs to its own input"); checkTensor(xs[i], {2, 2}, v[i], "inputs are unchanged"); } }
// predicting a list is predicting its members, with the library's own layers
ENTRY(qr_vector_layers) { FullyConnectedLayer<float> A(2, 2); fillFC(A, 2, 2); Sigmoid<float> S; Model m; m.addLayer(A); m.addLayer(ActivationLayer<float>(Sigmoid<float>())); m.addLayer(DropoutLayer<float>(0.5f)); m.evalMode(); int n = sym_pick("n", 1, 3); std::vector<Tensor<float>> xs; for (int i = 0; i < n; ++i) xs.push_back(symTensor<float>({1 + i % 2, 2}, "x")); auto ys = m.predict(xs); sym_assert((int)ys.size() == n, "one prediction per input"); for (int i = 0; i < n; ++i) checkTensor(ys[i], {1 + i % 2, 2}, values(S.forward(A.forward(xs[i]))), "predicting a list predicts its members"); }
ENTRY(qr_deep) { int n = sym_pick("layers", 5, 9); Model m; std::vector<float> a, b; for (int i = 0; i < n; ++i) { a.push_back(sym_f32("a", 0.5, 1)); b.push_back(sym_f32("b", -1, 1)); m.addLayer(Affine(a[i], b[i])); } const Dims& d = pickShape(8); auto x = symTensor<float>(d, "x"); auto e = values(x); for (int i = 0; i < n; ++i) for (auto& y : e) y = a[i] * y + b[i]; checkTensor(m.predict(x), d, e, "the output is the layers applied in order"); }
ENTRY(qr_catalogue) { Model m; float a = sym_f32("a", -2, 2), b = sym_f32("b", -2, 2); m.addLayer(Affine(a, b)); m.addLayer(ActivationLayer<float>(Tanh<float>())); const Dims& d = pickShape(65); auto x = symTensor<float>(d, "x"); auto e = values(x); for (auto& y : e) y = std::tanh(a * y + b); checkTensor(m.predict(x), d, e, "inputs of every shape pass through all layers"); }
// histories: predictions, mode changes, added layers, replaced parameters
ENTRY(qr_history) { Model m; std::vector<float> a, b; bool train = true; auto add = [&] { a.push_back(sym_f32("a", -2, 2)); b.push_back(sym_f32("b", -2, 2)); m.addLayer(Affine(a.back(), b.back())); }; add(); for (int s = 0; s < 4; ++s) { int op = sym_pick("op", 0, 5); if (op == 0) add(); else if (op == 1 || op == 2) { train = op == 2; if (train) m.trainingMode(); else m.evalMode(); for (size_t i = 0; i < a.size(); ++i) sym_assert(((Affine*)m.getLayer(i))->mode() == train, "the mode reaches every layer, whenever it was added"); } else if (op == 3) { auto* p = (Affine*)m.getLayer(0); p->a = a[0] = sym_f32("a", -2, 2); } else if (op == 4) { Dims d = s % 2 ? Dims{2} : Dims{1, 3}; auto x = symTensor<float>(d, "x"); auto e = values(x); for (size_t i = 0; i < a.size(); ++i) for (auto& y : e) y = a[i] * y + b[i]; checkTensor(m.predict(x), d, e, "inference applies the current layers"); } else { std::vector<Tensor<float>> xs{symTensor<float>({2}, "x"), symTensor<float>({2}, "x")}; auto ys = m.predict(xs); for (int k = 0; k < 2; ++k) { auto e = values(xs[k]); for (size_t i = 0; i < a.size(); ++i) for (auto& y : e) y = a[i] * y + b[i]; checkTensor(ys[k], {2}, e, "inference applies the current layers"); } } } sym_assert(((Affine*)m.getLayer(0))->mode() == train, "the first layer is in the mode last set"); }
// a trained model in evaluation mode: the batch does not matter
ENTRY(qr_eval_batch) { BatchNormalizationLayer<float> N(2, 0.5f, 0.75f); FullyConnectedLayer<float> A(2, 2), C(2, 1); fillFC(A, 2, 2); fillFC(C, 2, 1); Model m; m.addLayer(A); m.addLayer(N); m.addLayer(ActivationLayer<float>(Tanh<float>())); m.addLayer(DropoutLayer<float>(0.5f)); m.addLayer(C); m.evalMode(); int n = sym_pick("batch", 1, 4); auto x = symTensor<float>({n, 2}, "x"); auto y = m.predict(x); for (int i = 0; i < n; ++i) { Tensor<float> one({1, 2}); one[0] = x[2 * i]; one[1] = x[2 * i + 1]; check_eq(m.predict(one)[0], y[i], "the output of a sample does not depend on the rest of its batch"); } }
// many layers, many inputs
ENTRY(qr_huge) { bool wide = sym_pick("wide", 0, 1); int n = wide ? 2 : 140, N = wide ? 1100 : 2; Model m; for (int i = 0; i < n; ++i) m.addLayer(Affine(i % 2 ? 0.5f : 2.f, (float)(i % 5) - 2)); std::vector<Tensor<float>> xs; for (int i = 0; i < N; ++i) xs.push_back(symTensor<float>({2}, "x")); std::vector<std::vector<float>> v; for (auto& x : xs) v.push_back(values(x)); auto ys = m.predict(xs); sym_assert((int)ys.size() == N, "one prediction per input"); for (int i = 0; i < N; ++i) { auto e = v[i]; for (auto& y : e) for (int k = 0; k < n; ++k) y = (k % 2 ? 0.5f : 2.f) * y + ((float)(k % 5) - 2); checkTensor(ys[i], {2}, e, "every prediction belongs to its own input"); } for (int k = 0; k < n; k += 7) sym_assert(m.getLayer(k) != nullptr, "every layer can be reached"); sym_assert(rejected([&] { m.getLayer(n); }), "an index beyond the layers is rejected"); }
// many predictions before
ENTRY(qr_late) { static const int N[] = {99, 255, 1030}; int n = N[sym_pick("n", 0, 2)]; Model m; m.addLayer(Affine(0.5f, 1)); m.addLayer(Affine(2.f, -3)); Tensor<float> c(Shape({2}), 1.f); bool ev = sym_pick("eval", 0, 1); if (ev) m.evalMode(); for (int k = 0; k < n; ++k) m.predict(c); for (int k = 0; k < 3; ++k) { auto x = symTensor<float>({2}, "x"); auto e = values(x); for (auto& y : e) y = 2 * (0.5f * y + 1) - 3; checkTensor(m.predict(x), {2}, e, "a prediction after many others"); } }
// equal inputs in a list are separate predictions: dropout draws a mask for each
ENTRY(qr_vector_equal) { rng_symbolic = 0; bool deep = sym_pick("deep", 0, 1); Model m; if (deep) m.addLayer(Affine(2.f, 1.f)); m.addLayer(DropoutLayer<float>(0.5f)); int n = sym_pick("n", 2, 4); Tensor<float> x = symTensor<float>({1, 8}, "x", 1, 2); std::vector<Tensor<float>> xs; for (int i = 0; i < n; ++i) xs.push_back(x); RandomEngine::setSeed(5); auto ys = m.predict(xs); sym_assert((int)ys.size() == n, "one prediction per input"); RandomEngine::setSeed(5); for (int i = 0; i < n; ++i) checkTensor(ys[i], {1, 8}, values(m.predict(x)), "equal inputs are predicted separately"); }
// running statistics follow every member of a list, also when members are equal
ENTRY(qr_vector_statistics) { Model m, o; m.addLayer(BatchNormalizationLayer<float>(2, 0.5f, 0.75f)); o.addLayer(BatchNormalizationLayer<float>(2, 0.5f, 0.75f)); Tensor<float> x = symTensor<float>({2, 2}, "x"); int n = sym_pick("n", 2, 3); std::vector<Tensor<float>> xs; for (int i = 0; i < n; ++i) xs.push_back(x); m.predict(xs); for (int i = 0; i < n; ++i) o.predict(x); m.evalMode(); o.evalMode(); auto q = symTensor<float>({1, 2}, "q"); checkTensor(m.predict(q), {1, 2}, values(o.predict(q)), "a list trains the statistics like its members one by one"); }
