// @bounds operands of rank 1..3 (layers: 1..4) with dimensions 1..2, every pair of shapes; axes, indices, extents and counts arbitrary integers or lists with negative, zero and maximal values; call orders of up to four calls; element values symbolic
// @assume real arithmetic; memory allocation succeeds
// @outside operator[] with an index outside the storage (unchecked like std::vector's); the accessors a layer marks as test helpers (setWeights with another shape, getWeightGradients before backward); null pointers; activations broadcasting a gradient of another shape; broadcast views of a smaller rank than their tensor; sizes whose allocation fails
#include "repo.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
typedef Tensor<float> T;
typedef AdvancedTensorOperations<float> A;
static Dims anyDims(const char* n, int maxRank, int hi = 2) { int r = sym_pick(n, 1, maxRank); Dims d(r); for (int i = 0; i < r; ++i) d[i] = sym_pick("dim", 1, hi); return d; }
static T pos(const Dims& d, const char* n) { return symTensor<float>(d, n, 0.25, 4); }
// runs f; whether it was accepted is returned.  What the engine checks on the way: no access outside a live buffer, no division by zero, no signed overflow, no termination
template <class F> static bool ok(F&& f) { return !rejected(f); }
ENTRY(qr_binary) { Dims da = anyDims("ra", 3), db = anyDims("rb", 3); T a = pos(da, "a"), b = pos(db, "b"); std::vector<float> va = values(a), vb = values(b); int op = sym_pick("op", 0, 3); bool want = broadcastable(da, db);
  bool got = ok([&] { T r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; Dims d = broadcastDims(da, db); checkDims(r, d, "result shape"); }); sym_assert(got == want, "incompatible operands are refused and compatible ones accepted"); checkTensor(a, da, va, "operands are unchanged"); checkTensor(b, db, vb, "operands are unchanged"); }
ENTRY(qr_inplace) { Dims da = anyDims("ra", 3), db = anyDims("rb", 3); T a = pos(da, "a"), b = pos(db, "b"); std::vector<float> va = values(a), vb = values(b); int op = sym_pick("op", 0, 3); bool got = ok([&] { if (op == 0) a += b; else if (op == 1) a -= b; else if (op == 2) a *= b; else a /= b; }); if (!broadcastable(da, db)) sym_assert(!got, "incompatible operands are refused"); if (!got) checkTensor(a, da, va, "a refused call leaves its operand unchanged"); checkTensor(b, db, vb, "the right operand is unchanged"); }
ENTRY(qr_matmul) { Dims da = anyDims("ra", 3), db = anyDims("rb", 3); T a = symTensor<float>(da, "a"), b = symTensor<float>(db, "b"); std::vector<float> va = values(a), vb = values(b); bool got = ok([&] { T r = A::matmul(a, b); sym_assert(r.getData().size() == (size_t)prodOf(r.getShape().getDimensions()), "storage"); values(r); }); if (da.size() == 2 && db.size() == 2) sym_assert(got == (da[1] == db[0]), "inner dimensions must match"); if (da.size() == 1 && db.size() == 1) sym_assert(got == (da[0] == db[0]), "lengths must match"); if (da.size() == 2 && db.size() == 1) sym_assert(got == (da[1] == db[0]), "inner dimensions must match"); if (da.size() == 2 && db.size() == 3) sym_assert(got == (da[1] == db[1]), "inner dimensions must match"); if (da.size() == 3 && db.size() == 2) sym_assert(got == (da[2] == db[0]), "inner dimensions must match"); if (da.size() == 3 && db.size() == 3 && da[2] != db[1]) sym_assert(!got, "inner dimensions must match"); checkTensor(a, da, va, "operands are unchanged"); checkTensor(b, db, vb, "operands are unchanged"); }
ENTRY(qr_axes) { Dims d = anyDims("rank", 3); T a = symTensor<float>(d, "a"); long ax = sym_i64("axis", -2, 5); bool in = ax >= 0 && ax < (long)d.size(); int op = sym_pick("op", 0, 4); size_t u = (size_t)ax; std::vector<float> v = values(a); bool got = ok([&] { T r = op == 0 ? A::sum(a, u) : op == 1 ? A::sum(a, std::vector<size_t>{u}) : op == 2 ? A::mean(a, std::vector<size_t>{u}) : op == 3 ? A::variance(a, A::mean(a, std::vector<size_t>{u}), std::vector<size_t>{u}) : A::transpose(a, u, 0); values(r); }); sym_assert(got == in, "axes outside the rank are refused"); checkTensor(a, d, v, "the operand is unchanged"); }
ENTRY(qr_axis_lists) { Dims d = anyDims("rank", 2); T a = symTensor<float>(d, "a"); int k = sym_pick("count", 0, 3); std::vector<size_t> ax(k); bool in = true; for (int i = 0; i < k; ++i) { ax[i] = sym_pick("axis", 0, 2); if (ax[i] >= d.size()) in = false; } int op = sym_pick("op", 0, 2); bool got = ok([&] { T r = op == 0 ? A::sum(a, ax) : op == 1 ? A::mean(a, ax) : A::variance(a, A::mean(a, ax), ax); values(r); }); if (!in) sym_assert(!got, "axes outside the rank are refused"); }
ENTRY(qr_variance_mean) { Dims d = anyDims("rank", 2), e = anyDims("mean rank", 2, 3); if (e.size() > d.size()) return; /* a mean of larger rank is no mean of the tensor */ T a = symTensor<float>(d, "a"), m = symTensor<float>(e, "m"); int k = sym_pick("axis", 0, 1); ok([&] { values(A::variance(a, m, std::vector<size_t>{(size_t)k})); }); ok([&] { values(A::variance(a, m)); }); sym_assert(sameDims(a.getShape().getDimensions(), d), "operands are unchanged"); }
ENTRY(qr_at) { Dims d = anyDims("rank", 3); T a = symTensor<float>(d, "a"); int k = sym_pick("count", 0, 4); std::vector<int> ix(k); bool in = k == (int)d.size(); for (int i = 0; i < k; ++i) { ix[i] = sym_i32("index", -2147483647 - 1, 2147483647); if (i < (int)d.size() && (ix[i] < 0 || ix[i] >= d[i])) in = false; } std::vector<float> v = values(a); bool got = ok([&] { float x = a.at(ix); a.at(ix) = x; }); sym_assert(got == in, "indices outside the tensor are refused"); checkTensor(a, d, v, "the tensor is unchanged"); }
ENTRY(qr_slice) { Dims d = anyDims("rank", 3); T a = symTensor<float>(d, "a"); int dim = sym_i32("dim", -2147483647 - 1, 2147483647), ix = sym_i32("index", -2147483647 - 1, 2147483647); bool in = dim >= 0 && dim < (int)d.size(); if (in) in = ix >= 0 && ix < d[dim]; bool got = ok([&] { values(a.slice(dim, ix)); }); sym_assert(got == in, "slices outside the tensor are refused"); }
static const int E[] = {-2147483647 - 1, -1, 0, 1, 2, 4, 2147483647};
ENTRY(qr_reshape) { Dims d = anyDims("rank", 2), e(sym_pick("new rank", 0, 3)); for (auto& x : e) x = E[sym_pick("extent", 0, 6)]; T a = symTensor<float>(d, "a"); std::vector<float> v = values(a); bool in = !e.empty(); unsigned long n = 1; for (int x : e) { if (x <= 0) in = false; else if (n < (1ul << 32)) n *= x; } in = in && n == (unsigned long)prodOf(d); int how = sym_pick("how", 0, 1); bool got = ok([&] { if (how) a.reshape(e); else { T r = A::reshape(a, Shape(e)); checkTensor(r, e, v, "reshaping keeps the elements"); } }); if (!e.empty()) sym_assert(got == in, "reshaping to another element count or to invalid extents is refused"); checkTensor(a, how && got ? e : d, v, "a refused reshape leaves the tensor unchanged"); }
ENTRY(qr_factories) { int n = sym_pick("n", 0, 3) - 1; int k = sym_pick("factory", 0, 4); bool got = ok([&] { T t = k == 0 ? T::ones(n) : k == 1 ? T::zeros(n) : k == 2 ? T::rand(n) : k == 3 ? T::randn(n, -1.f, 1.f) : T::identity(n); values(t); }); sym_assert(got == (n > 0), "sizes must be positive"); }
ENTRY(qr_values) { Dims d = anyDims("rank", 2); int n = sym_pick("values", 0, 5); std::vector<float> v(n); for (auto& x : v) x = sym_f32("v", -4, 4); bool got = ok([&] { T t(Shape(d), v); checkTensor(t, d, v, "the given values"); }); sym_assert(got == (n == prodOf(d)), "the number of values must match the shape"); }
ENTRY(qr_views) { Dims d = anyDims("rank", 2), e = anyDims("target rank", 3); T a = symTensor<float>(d, "a"); bool can = broadcastable(d, e) && e.size() >= d.size() && sameDims(broadcastDims(d, e), e); bool got = ok([&] { BroadcastView<float, CPUDevice> w(a.getData(), Shape(e)); int n = e.size() >= d.size() ? prodOf(e) : 0; for (int i = 0; i < n; ++i) check_eq(w[unflatten(i, e)], raw(a)[bcIndex(i, e, d)], "broadcast element"); }); if (e.size() >= d.size()) sym_assert(got == can, "impossible broadcasts are refused"); }
// ---- layers ----
static Layer<float>* make(int k) { switch (k) { case 0: return new FullyConnectedLayer<float>(2, 2); case 1: return new Conv2DLayer<float>(1, 2, 2, 2, 1, 0, 1); case 2: return new Conv2DLayer<float>(2, 1, 1, 2, 2, 1, 1); case 3: return new FlattenLayer<float>(); case 4: return new MaxPooling2DLayer<float>(2, 1); case 5: return new BatchNormalizationLayer<float>(2, 0.25f, 0.5f); case 6: return new DropoutLayer<float>(0.5f); case 7: return new ActivationLayer<float>(ReLU<float>()); case 8: return new ActivationLayer<float>(Softmax<float>()); case 9: return new ActivationLayer<float>(LeakyReLU<float>(0.5f)); default: return new ActivationLayer<float>(Sigmoid<float>()); } }
enum { LAYERS = 10 };
// a pattern of distinct concrete-order values, so that comparisons inside the layers do not multiply the paths
static T pat(const Dims& d, const char* n) { T t{Shape(d)}; int m = prodOf(d); for (int i = 0; i < m; ++i) { double b = ((i * 7) % 17 - 8) * 0.25 + 0.125; t.getData().data()[i] = sym_f32(n, b - 0.0625, b + 0.0625); } return t; }
static T pat1(const Dims& d) { T t{Shape(d)}; int m = prodOf(d); for (int i = 0; i < m; ++i) t.getData().data()[i] = (float)(((i * 5) % 7) - 3) * 0.5f; return t; }
ENTRY(qr_layer_shapes) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS); std::unique_ptr<Layer<float>> L(make(k)); Dims d = anyDims("rank", 4); T x = k == 7 || k >= 9 ? pat1(d) : pat(d, "x"); std::vector<float> v = values(x); bool f = ok([&] { T y = L->forward(x); values(y); }); checkTensor(x, d, v, "the input is unchanged");
  if (k == 0 && d.size() <= 2) sym_assert(f == (d.back() == 2), "the feature count must match"); if (k == 1) sym_assert(f == (d.size() == 4 && d[1] == 1 && d[2] == 2 && d[3] == 2), "images must match the layer"); if (k == 4) sym_assert(f == (d.size() == 4 && d[2] >= 2 && d[3] >= 2), "images must hold the window"); if (k == 6 || k == 7) sym_assert(f, "any shape"); Probe<float> p; if (!f) ok([&] { L->backward(x); }); }
ENTRY(qr_layer_gradients) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS); std::unique_ptr<Layer<float>> L(make(k)); Dims d; switch (k) { case 0: d = sym_pick("rank", 1, 2) == 1 ? Dims{2} : Dims{2, 2}; break; case 1: d = {1, 1, 3, 2}; break; case 2: d = {2, 2, 1, 1}; break; case 4: d = {1, 2, 2, 3}; break; case 5: d = sym_pick("image", 0, 1) ? Dims{2, 2} : Dims{1, 2, 2, 1}; break; default: d = {2, 2}; }
  T x = k >= 7 ? pat1(d) : pat(d, "x"); T y = L->forward(x); Dims o = y.getShape().getDimensions(); Dims e; int same = sym_pick("same", 0, 1); if (same) e = o; else e = anyDims("gradient rank", 4); T g = symTensor<float>(e, "g"); std::vector<float> v = values(g); bool got = ok([&] { T r = L->backward(g); values(r); if (k < 7 || same) checkDims(r, d, "the input gradient has the input's shape"); }); if (same) sym_assert(got, "a gradient of the output's shape is accepted"); else if (prodOf(e) != prodOf(o) && k != 0 && k < 7) sym_assert(!got, "a gradient of another size is refused"); checkTensor(g, e, v, "the gradient is unchanged"); }
ENTRY(qr_order) { rng_symbolic = 0; int k = sym_pick("layer", 0, LAYERS); std::unique_ptr<Layer<float>> L(make(k)); Dims d = k == 1 || k == 4 ? Dims{1, 1, 2, 2} : k == 2 ? Dims{1, 2, 1, 1} : Dims{2, 2}; Probe<float> p; bool fwd = false, bwd = false; T y = pat1(d); for (int s = 0; s < 4; ++s) { int c = sym_pick("call", 0, 3); if (c == 0) { y = L->forward(pat1(d)); fwd = true; } else if (c == 1) { bool got = ok([&] { L->backward(y); }); if (!fwd) sym_assert(!got, "backward before forward is refused"); bwd = bwd || got; } else if (c == 2) { bool got = ok([&] { L->updateWeights(p); }); if (bwd) sym_assert(got, "updating after a backward pass works"); if (!fwd && (k <= 2 || k == 5)) sym_assert(!got, "updating before any backward pass is refused"); } else { L->setTrainingMode(s % 2); if (k == 5 || k == 6) { fwd = bwd = false; y = pat1(d); return; } } } sym_assert(true, "no undefined behaviour on the way"); }
ENTRY(qr_layer_parameters) { static const int V[] = {-2147483647 - 1, -1, 0, 1, 2}; int k = sym_pick("layer", 0, 3), i = sym_pick("parameter", 0, 6), v = V[sym_pick("value", 0, 4)]; int q[7] = {1, 1, 1, 1, 1, 0, 1}; q[i] = v; bool bad = v <= 0 && !(i == 5 && v == 0); bool got; if (k == 0) { if (i > 1) return; got = ok([&] { FullyConnectedLayer<float> L(q[0], q[1]); }); sym_assert(got == !bad, "layer sizes must be positive"); } else if (k == 1) { got = ok([&] { Conv2DLayer<float> L(q[0], q[1], q[2], q[3], q[4], q[5], q[6]); L.forward(pat1({1, q[0], 2, 2})); }); sym_assert(got == !bad, "convolution parameters must be usable"); } else if (k == 2) { if (i != 2 && i != 4 && i != 5) return; bool can = !bad && !(i == 5 && v >= 1); /* padding must stay below the window */ got = ok([&] { MaxPooling2DLayer<float> L(q[2], q[4], q[5]); L.forward(pat1({1, 1, 2, 2})); }); if (bad) sym_assert(!got, "pooling parameters must be usable"); else if (can) sym_assert(got, "usable pooling parameters"); } else { if (i) return; got = ok([&] { BatchNormalizationLayer<float> L(v); }); sym_assert(got == (v > 0), "the feature count must be positive"); } }
ENTRY(qf_dropout_rate) { float r = sym_f32_any("rate"); bool got = ok([&] { DropoutLayer<float> L(r); }); sym_assert(got == (r >= 0 && r < 1), "rates outside [0, 1) are refused, NaN included"); }
// ---- losses and optimizers ----
ENTRY(qr_losses) { Dims da = anyDims("ra", 3), db = anyDims("rb", 3); int k = sym_pick("loss", 0, 3); T a = symTensor<float>(da, "a", 0.25, 0.75), b = symTensor<float>(db, "b", 0.25, 0.75); std::vector<float> va = values(a), vb = values(b); MSELoss<float> M; CategoricalCrossEntropyLoss<float> C; bool got = ok([&] { T r = k == 0 ? M.compute(a, b) : k == 1 ? M.gradient(a, b) : k == 2 ? C.compute(a, b) : C.gradient(a, b); values(r); }); if (sameDims(da, db) && da.size() == 2) sym_assert(got, "matching shapes are accepted"); if (k >= 2 && !sameDims(da, db)) sym_assert(!got, "other shapes are refused"); if (k < 2 && !broadcastable(da, db)) sym_assert(!got, "incompatible shapes are refused"); checkTensor(a, da, va, "operands are unchanged"); checkTensor(b, db, vb, "operands are unchanged"); }
static Optimizer<float>* opt(int k) { if (k == 0) { SGDOptions<float> o; o.learningRate = 0.5f; return new SGDOptimizer<float>(o); } if (k == 1) { RMSPropOptions<float> o; o.learningRate = 0.5f; return new RMSPropOptimizer<float>(o); } AdamOptions<float> o; o.learningRate = 0.5f; return new AdamOptimizer<float>(o); }
ENTRY(qr_optimizer_shapes) { int k = sym_pick("optimizer", 0, 2); std::unique_ptr<Optimizer<float>> o(opt(k)); Dims d = anyDims("rank", 2), e = anyDims("gradient rank", 3); T w = symTensor<float>(d, "w"), g = symTensor<float>(e, "g", 0.25, 1); std::vector<float> v = values(w), h = values(g); bool got = ok([&] { o->optimize({w}, {g}); }); if (prodOf(d) != prodOf(e)) { sym_assert(!got, "gradients of another size are refused"); } if (sameDims(d, e)) sym_assert(got, "matching gradients are accepted"); if (!got) checkTensor(w, d, v, "a refused update leaves the weight unchanged"); checkTensor(g, e, h, "gradients are unchanged"); }
ENTRY(qr_optimizer_counts) { int k = sym_pick("optimizer", 0, 2), n = sym_pick("weights", 0, 3), m = sym_pick("gradients", 0, 3); std::unique_ptr<Optimizer<float>> o(opt(k)); std::vector<T> w, g; for (int i = 0; i < 3; ++i) { w.push_back(symTensor<float>({2}, "w")); g.push_back(symTensor<float>({2}, "g", 0.25, 1)); } std::vector<std::reference_wrapper<T>> a, b; for (int i = 0; i < n; ++i) a.push_back(w[i]); for (int i = 0; i < m; ++i) b.push_back(g[i]); std::vector<float> v = values(w[0]); bool got = ok([&] { o->optimize(a, b); }); sym_assert(got == (n == m), "every weight needs one gradient"); if (!got) checkTensor(w[0], {2}, v, "a refused update leaves the weights unchanged"); }
// ---- models ----
typedef SmartDNN<float> Model;
ENTRY(qr_model_order) { rng_symbolic = 0; Model m; int layers = sym_pick("layers", 0, 2); if (layers > 0) m.addLayer(FullyConnectedLayer<float>(2, 2)); if (layers > 1) m.addLayer(ActivationLayer<float>(ReLU<float>())); bool comp = false, fwd = false, bwd = false; T x = pat1({2, 2}), t = pat1({2, 2}); for (int s = 0; s < 4; ++s) { int c = sym_pick("call", 0, 4); bool got; if (c == 0) { m.compile(MSELoss<float>(), SGDOptimizer<float>(SGDOptions<float>())); comp = true; } else if (c == 1) { got = ok([&] { m.predict(x); }); sym_assert(got, "prediction works in every state"); fwd = true; } else if (c == 2) { got = ok([&] { m.backward(t); }); if (layers) sym_assert(got == fwd, "backward needs a forward pass"); bwd = bwd || got; } else if (c == 3) { got = ok([&] { m.updateWeights(); }); if (layers) sym_assert(got == (comp && bwd), "updating needs an optimizer and gradients"); else sym_assert(got == comp, "updating needs an optimizer"); } else { got = ok([&] { m.train({x}, {t}, 1); }); sym_assert(got == comp, "training needs compile"); if (got) fwd = bwd = true; } } }
ENTRY(qr_model_data) { rng_symbolic = 0; Model m; m.addLayer(FullyConnectedLayer<float>(2, 2)); m.compile(MSELoss<float>(), SGDOptimizer<float>(SGDOptions<float>())); int n = sym_pick("inputs", 0, 2), k = sym_pick("targets", 0, 2), ep = sym_pick("epochs", 0, 3) - 1; Dims d = anyDims("input rank", 2), e = anyDims("target rank", 2); std::vector<T> xs, ts; for (int i = 0; i < n; ++i) xs.push_back(pat1(d)); for (int i = 0; i < k; ++i) ts.push_back(pat1(e)); bool got = ok([&] { m.train(xs, ts, ep); }); if (n != k) sym_assert(!got, "every input needs a target"); else if (n && ep > 0 && d.back() != 2) sym_assert(!got, "inputs must fit the first layer"); else if (n && ep > 0 && sameDims(d, e)) sym_assert(got, "matching data is accepted"); sym_assert(!rejected([&] { m.predict(pat1({2})); }), "the model stays usable"); }
ENTRY(qr_model_index) { Model m; int n = sym_pick("layers", 0, 2); for (int i = 0; i < n; ++i) m.addLayer(FlattenLayer<float>()); long k = sym_i64("index", -9223372036854775807L - 1, 9223372036854775807L); bool got = ok([&] { sym_assert(m.getLayer((size_t)k) != nullptr, "layer"); }); sym_assert(got == (k >= 0 && k < n), "layer indices outside the model are refused"); }
// larger inner dimensions that do not match, in both directions and at every pairing of ranks
ENTRY(qr_matmul_inner) { static const Dims P[] = {{2, 5}, {2, 3}, {5}, {3}, {4, 2, 3}, {4, 2, 5}, {1, 7}, {2, 8}}, Q[] = {{3, 2}, {5, 2}, {3}, {5}, {4, 5, 2}, {4, 3, 2}, {8, 1}, {4, 7, 1}}; const Dims &da = P[sym_pick("a", 0, 7)], &db = Q[sym_pick("b", 0, 7)]; T a = symTensor<float>(da, "a"), b = symTensor<float>(db, "b"); std::vector<float> va = values(a), vb = values(b); int ka = da.back(), kb = db.size() == 1 ? db[0] : db[db.size() - 2]; bool got = ok([&] { values(A::matmul(a, b)); }); if (ka != kb && !(da.size() == 1 && db.size() > 1)) sym_assert(!got, "inner dimensions must match"); if (da.size() == 1 && db.size() == 2) sym_assert(got == (da[0] == db[0]), "inner dimensions must match"); checkTensor(a, da, va, "operands are unchanged"); checkTensor(b, db, vb, "operands are unchanged"); }
// operands that agree in most of their dimensions, with larger extents
ENTRY(qr_binary_larger) { static const Dims P[] = {{2, 3, 4}, {4}, {3, 1}, {2, 1, 4}, {5}, {3, 4}, {1, 1, 1}, {2, 3, 1, 4}, {6}, {3, 4, 2}}; const Dims &da = P[sym_pick("a", 0, 9)], &db = P[sym_pick("b", 0, 9)]; T a = pos(da, "a"), b = pos(db, "b"); std::vector<float> va = values(a), vb = values(b); bool want = broadcastable(da, db); int op = sym_pick("op", 0, 4); bool got = ok([&] { if (op < 4) { T r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; checkDims(r, broadcastDims(da, db), "result shape"); } else { T c(a); c += b; values(c); } }); if (op < 4) sym_assert(got == want, "incompatible operands are refused and compatible ones accepted"); else if (!want) sym_assert(!got, "incompatible operands are refused"); checkTensor(a, da, va, "operands are unchanged"); checkTensor(b, db, vb, "operands are unchanged"); }
// histories of one tensor: refused operations leave it usable
ENTRY(qr_tensor_history) { T a = symTensor<float>({2, 3}, "a"); Dims d{2, 3}; std::vector<float> v = values(a); for (int s = 0; s < 3; ++s) { int op = sym_pick("op", 0, 7); bool got = true; switch (op) { case 0: got = ok([&] { a.reshape({5, 2}); }); break; case 1: got = ok([&] { a.at({3, 0}); }); break; case 2: got = ok([&] { a += T(Shape{4}, 1.f); }); break; case 3: got = ok([&] { A::matmul(a, T(Shape{7}, 1.f)); }); break; case 4: got = ok([&] { A::sum(a, (size_t)9); }); break; case 5: got = ok([&] { A::transpose(a, 0, 7); }); break; case 6: got = ok([&] { a.slice(7, 0); }); break; default: d = sameDims(d, {2, 3}) ? Dims{3, 2} : Dims{2, 3}; a.reshape(d); } sym_assert(got == (op == 7), "the misuse is refused"); checkTensor(a, d, v, "and leaves the tensor as it was"); } T b = a + a; for (int i = 0; i < 6; ++i) v[i] *= 2; checkTensor(b, d, v, "the tensor stays usable"); }
