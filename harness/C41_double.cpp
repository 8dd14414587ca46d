// @bounds every operation on Tensor<double> with shapes up to rank 4 and 8 elements, the shape catalogue up to 40 elements, vectors up to 1030, matrix products up to 9x9, the 34 convolution configurations of C15, fully connected layers up to 12x4 with batches up to 9,, every activation, layer, loss and optimizer with double parameters, 1-3 training steps, one training step of a two-layer model; element values symbolic in a bounded interval, hyper-parameters symbolic; means, SGD and dropout over element counts that are not powers of two, with float constants in double code rounded
// @assume real arithmetic, except that rounding a double to single precision multiplies it by 1 + d for an unknown d; replayed against the real code with a tolerance of 1e-10
// @outside double rounding itself; random initial weights and dropout masks (drawn in single precision by design); the sample generators
#include "dblact.hpp"
#include "conv.hpp"
typedef Tensor<D> TD; typedef AdvancedTensorOperations<D> A;
typedef std::vector<D> V;
template <class F> static void elementwise(const TD& r, const V& v, F f, const char* m) { for (size_t i = 0; i < v.size(); ++i) check_eq(r[i], f(v[i]), m); }
ENTRY(qr_elementwise) { sym_precise(); auto a = in({2, 2}, "a"), b = in({2, 2}, "b"), c = in({2}, "c"); auto v = values(a), w = values(b), u = values(c); int op = sym_pick("op", 0, 3); auto f = [op](D x, D y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; }; auto ap = [op](const TD& x, const TD& y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; }; auto r = ap(a, b), s = ap(a, c); for (int i = 0; i < 4; ++i) { check_eq(r[i], f(v[i], w[i]), "elementwise arithmetic in double"); check_eq(s[i], f(v[i], u[i % 2]), "broadcast arithmetic in double"); } TD x(a), y(a); if (op == 0) { x += b; y += c; } else if (op == 1) { x -= b; y -= c; } else if (op == 2) { x *= b; y *= c; } else { x /= b; y /= c; } for (int i = 0; i < 4; ++i) { check_eq(x[i], f(v[i], w[i]), "in-place arithmetic in double"); check_eq(y[i], f(v[i], u[i % 2]), "in-place broadcast arithmetic in double"); } }
ENTRY(qr_scalar) { sym_precise(); auto a = in({3}, "a"); auto v = values(a); D s = sym_f64("s", 0.5, 4); TD r[] = {a + s, a - s, a * s, a / s}; TD x(a), y(a), z(a), w(a); x += s; y -= s; z *= s; w /= s; for (int i = 0; i < 3; ++i) { D e[] = {v[i] + s, v[i] - s, v[i] * s, v[i] / s}; for (int k = 0; k < 4; ++k) check_eq(r[k][i], e[k], "scalar arithmetic in double"); check_eq(x[i], e[0], "in-place scalar arithmetic in double"); check_eq(y[i], e[1], "in-place scalar arithmetic in double"); check_eq(z[i], e[2], "in-place scalar arithmetic in double"); check_eq(w[i], e[3], "in-place scalar arithmetic in double"); } TD q(Shape({2}), s); check_eq(q[0], s, "a filled tensor holds the double"); q.getData().fill(s * s); check_eq(q[1], s * s, "fill stores the double"); q.at({1}) = s; check_eq(q.at({1}), s, "at keeps the double"); }
ENTRY(qr_scalar_left) { sym_precise(); auto a = in({3}, "a"); auto v = values(a); D s = sym_f64("s", 0.5, 4); TD r = s - a, q = s / a; for (int i = 0; i < 3; ++i) { check_eq(r[i], s - v[i], "scalar minus tensor in double"); check_eq(q[i], s / v[i], "scalar over tensor in double"); } }
ENTRY(qr_copies) { sym_precise(); V v; for (int i = 0; i < 4; ++i) v.push_back(sym_f64("v", 0.5, 4)); TD a(Shape({2, 2}), v), b(a), c(Shape({1})); c = a; TD d(std::move(b)); a.reshape({4}); for (int i = 0; i < 4; ++i) { check_eq(a[i], v[i], "construction keeps double values"); check_eq(c[i], v[i], "copies keep double values"); check_eq(d[i], v[i], "moves keep double values"); } auto t = A::transpose(c, 0, 1); check_eq(t[1], v[2], "transpose keeps double values"); auto s = c.slice(0, 1); check_eq(s[1], v[3], "slice keeps double values"); TD z{Shape({2})}; SliceView<D> sv(c.getData(), {{0, 2}, {1, 2}}, {1, 1}); check_eq(sv[{1, 0}], v[3], "a slice view reads double values"); BroadcastView<D, CPUDevice> bv(s.getData(), Shape({2, 2})); check_eq(bv[{1, 0}], s[0], "a broadcast view reads double values"); }
ENTRY(qr_reductions) { sym_precise(); auto a = in({2, 2}, "a"); auto v = values(a); check_eq(A::sum(a)[0], v[0] + v[1] + v[2] + v[3], "sum in double"); auto s = A::sum(a, (size_t)0); check_eq(s[1], v[1] + v[3], "sum in double"); s = A::sum(a, std::vector<size_t>{1}); check_eq(s[0], v[0] + v[1], "sum in double"); auto m = A::mean(a, {0}); check_eq(m[0], (v[0] + v[2]) / 2, "mean in double"); auto q = A::variance(a, m, {0}); D d0 = v[0] - m[0], d1 = v[2] - m[0]; check_eq(q[0], (d0 * d0 + d1 * d1) / 2, "variance in double"); }
ENTRY(qr_third) { sym_precise(); auto a = in({3}, "a"); auto v = values(a); check_eq(A::mean(a, {0})[0], (v[0] + v[1] + v[2]) / 3, "mean in double"); auto r = A::reciprocal(a, sym_f64("eps", 0.01, 0.25)); elementwise(r, v, [](D x) { return 1 / x; }, "reciprocal in double"); auto q = a.sqrt(); elementwise(q, v, [](D x) { return std::sqrt(x); }, "square root in double"); auto f = A::apply(a, [](D x) { return x * x; }); elementwise(f, v, [](D x) { return x * x; }, "apply in double"); auto g = A::applyPair(a, r, [](D x, D y) { return x + y; }); for (int i = 0; i < 3; ++i) check_eq(g[i], v[i] + 1 / v[i], "applyPair in double"); a.apply([](D x) { return x * 0.1; }); elementwise(a, v, [](D x) { return x * 0.1; }, "in-place apply in double"); }
ENTRY(qr_reciprocal_tiny) { sym_precise(); auto a = symTensor<D>({1}, "a", 0.0625, 0.125); D e = sym_f64("eps", 0.25, 0.5); check_eq(A::reciprocal(a, e)[0], 1 / e, "the reciprocal of a tiny element is 1/epsilon in double"); }
ENTRY(qr_matmul) { sym_precise(); int k = sym_pick("ranks", 0, 6); if (k == 0) { auto a = in({2, 2}, "a"), b = in({2, 2}, "b"); auto c = A::matmul(a, b); check_eq(c[1], a[0] * b[1] + a[1] * b[3], "matrix product in double"); check_eq(c[2], a[2] * b[0] + a[3] * b[2], "matrix product in double"); } else if (k == 1) { auto a = in({2, 2}, "a"), b = in({2}, "b"); auto c = A::matmul(a, b); check_eq(c[1], a[2] * b[0] + a[3] * b[1], "matrix-vector product in double"); } else if (k == 2) { auto a = in({2}, "a"), b = in({2, 2}, "b"); auto c = A::matmul(a, b); check_eq(c[1], a[0] * b[1] + a[1] * b[3], "vector-matrix product in double"); } else if (k == 3) { auto a = in({2}, "a"), b = in({2}, "b"); auto c = A::matmul(a, b); check_eq(c[0], a[0] * b[0] + a[1] * b[1], "dot product in double"); } else if (k == 5) { auto a = in({1, 2}, "a"), b = in({2, 2, 1}, "b"); auto c = A::matmul(a, b); check_eq(c[1], a[0] * b[2] + a[1] * b[3], "2D by 3D product in double"); } else if (k == 6) { auto a = in({2, 1, 2}, "a"), b = in({2, 1}, "b"); auto c = A::matmul(a, b); check_eq(c[1], a[2] * b[0] + a[3] * b[1], "3D by 2D product in double"); } else { auto a = in({2, 1, 2}, "a"), b = in({2, 2, 1}, "b"); auto c = A::matmul(a, b); check_eq(c[1], a[2] * b[2] + a[3] * b[3], "batched product in double"); } }
ENTRY(qr_softmax) { sym_precise(); auto x = symTensor<D>({1, 2}, "x", -4, 4), g = in({1, 2}, "g"); Softmax<D> S; auto y = S.forward(x), r = S.backward(x, g); D a = std::exp(x[0]), b = std::exp(x[1]), p = a / (a + b), q = b / (a + b), s = g[0] * p + g[1] * q; check_eq(y[0], p, "softmax in double"); check_eq(y[1], q, "softmax in double"); check_eq(r[0], p * (g[0] - s), "softmax gradient in double"); check_eq(r[1], q * (g[1] - s), "softmax gradient in double"); }
ENTRY(qr_fc) { sym_precise(); FullyConnectedLayer<D> L(2, 1); auto W = in({2, 1}, "w"), b = in({1, 1}, "b"), x = in({2, 2}, "x"), g = in({2, 1}, "g"); L.setWeights(W); L.setBiases(b); auto y = L.forward(x); for (int i = 0; i < 2; ++i) check_eq(y[i], x[2 * i] * W[0] + x[2 * i + 1] * W[1] + b[0], "fully connected output in double"); auto r = L.backward(g); for (int i = 0; i < 4; ++i) check_eq(r[i], g[i / 2] * W[i % 2], "fully connected input gradient in double"); Probe<D> p; L.updateWeights(p); sym_assert(p.g.size() == 2, "two gradients"); check_eq(p.g[0][1], x[1] * g[0] + x[3] * g[1], "weight gradient in double"); check_eq(p.g[1][0], g[0] + g[1], "bias gradient in double"); }
ENTRY(qr_conv) { sym_precise(); Conv2DLayer<D> L(1, 1, 1, 2, 1, 0, 1); auto W = in({1, 1, 1, 2}, "w"), b = in({1, 1}, "b"), x = in({1, 1, 1, 3}, "x"), g = in({1, 1, 1, 2}, "g"); L.setWeights(W); L.setBiases(b); auto y = L.forward(x); for (int i = 0; i < 2; ++i) check_eq(y[i], x[i] * W[0] + x[i + 1] * W[1] + b[0], "convolution output in double"); auto r = L.backward(g); check_eq(r[0], g[0] * W[0], "convolution input gradient in double"); check_eq(r[1], g[0] * W[1] + g[1] * W[0], "convolution input gradient in double"); Probe<D> p; L.updateWeights(p); sym_assert(p.g.size() == 2, "two gradients"); check_eq(p.g[0][1], x[1] * g[0] + x[2] * g[1], "kernel gradient in double"); check_eq(p.g[1][0], g[0] + g[1], "bias gradient in double"); }
ENTRY(qr_pool) { sym_precise(); MaxPooling2DLayer<D> L(2, 2); TD x(Shape({1, 1, 2, 2})); for (int i = 0; i < 4; ++i) x[i] = sym_f64("x", i, i + 0.5); auto g = in({1, 1, 1, 1}, "g"); auto y = L.forward(x), r = L.backward(g); check_eq(y[0], x[3], "pooling output in double"); check_eq(r[3], g[0], "pooling gradient in double"); }
ENTRY(qr_flatten) { sym_precise(); FlattenLayer<D> L; auto x = in({1, 1, 2, 2}, "x"); auto y = L.forward(x), r = L.backward(y); for (int i = 0; i < 4; ++i) { check_eq(y[i], x[i], "flatten keeps doubles"); check_eq(r[i], x[i], "flatten keeps doubles"); } }
ENTRY(qr_batchnorm) { sym_precise(); D eps = sym_f64("eps", 0.01, 1), mom = sym_f64("momentum", 0.1, 0.9); BatchNormalizationLayer<D> L(1, eps, mom); auto x = in({2, 1}, "x"); auto y = L.forward(x); D m = (x[0] + x[1]) / 2, v = ((x[0] - m) * (x[0] - m) + (x[1] - m) * (x[1] - m)) / 2; for (int i = 0; i < 2; ++i) check_eq(y[i] * std::sqrt(v + eps), x[i] - m, "batch normalisation in double"); }
ENTRY(qr_batchnorm_backward) { sym_precise(); D eps = sym_f64("eps", 0.01, 1); BatchNormalizationLayer<D> L(1, eps); auto x = in({2, 1}, "x"), g = in({2, 1}, "g"); L.forward(x); L.backward(g); Probe<D> p; L.updateWeights(p); D m = (x[0] + x[1]) / 2, v = ((x[0] - m) * (x[0] - m) + (x[1] - m) * (x[1] - m)) / 2; sym_assert(p.g.size() == 2, "two gradients"); check_eq(p.g[0][0] * std::sqrt(v + eps), g[0] * (x[0] - m) + g[1] * (x[1] - m), "scale gradient in double"); check_eq(p.g[1][0], g[0] + g[1], "shift gradient in double"); }
ENTRY(qr_dropout) { sym_precise(); rng_symbolic = 0; DropoutLayer<D> L(0.3); auto x = in({4}, "x"), g = in({4}, "g"); auto y = L.forward(x), r = L.backward(g); for (int i = 0; i < 4; ++i) { if (y[i] != 0) { check_eq(y[i], x[i] / 0.7, "a kept element is scaled in double"); check_eq(r[i], g[i] / 0.7, "its gradient is scaled in double"); } else check_eq(r[i], 0., "a dropped element has no gradient"); } }
ENTRY(qr_losses) { sym_precise(); auto p = symTensor<D>({1, 2}, "p", 0.1, 0.9), t = symTensor<D>({1, 2}, "t", 0.1, 0.9); MSELoss<D> M; D d0 = p[0] - t[0], d1 = p[1] - t[1]; check_eq(M.compute(p, t)[0], (d0 * d0 + d1 * d1) / 2, "mean squared error in double"); auto g = M.gradient(p, t); check_eq(g[1], d1, "its gradient in double"); CategoricalCrossEntropyLoss<D> C; check_eq(C.compute(p, t)[0], -(t[0] * std::log(p[0]) + t[1] * std::log(p[1])), "cross entropy in double"); auto h = C.gradient(p, t); check_eq(h[0] * p[0], -t[0], "its gradient in double"); }
ENTRY(qr_sgd) { sym_precise(); SGDOptions<D> o; o.learningRate = sym_f64("lr", 0.01, 1); o.momentum = sym_f64("mom", 0.1, 1); o.dampening = sym_f64("damp", 0.1, 0.9); o.weightDecay = sym_f64("wd", 0.1, 1); o.nesterov = sym_pick("nesterov", 0, 1); SGDOptimizer<D> opt(o); auto w = in({1}, "w"); D rw = w[0], rv = 0; for (int k = 0; k < 2; ++k) { auto g = in({1}, "g"); D e = g[0] + o.weightDecay * rw; opt.optimize({std::ref(w)}, {std::ref(g)}); rv = o.momentum * rv + (1 - o.dampening) * e; rw -= o.learningRate * (o.nesterov ? e + o.momentum * rv : rv); check_eq(w[0], rw, "SGD in double"); } }
ENTRY(qr_sgd_plain) { sym_precise(); SGDOptions<D> o; o.learningRate = 0.1; o.momentum = 0; SGDOptimizer<D> opt(o); auto w = in({2}, "w"), g = in({2}, "g"); auto v = values(w); D lr = sym_f64("override", 0.1, 1); opt.optimize({std::ref(w)}, {std::ref(g)}); check_eq(w[0], v[0] - 0.1 * g[0], "SGD in double"); opt.optimize({std::ref(w)}, {std::ref(g)}, lr); check_eq(w[1], v[1] - 0.1 * g[1] - lr * g[1], "SGD with an override in double"); }
ENTRY(qr_rmsprop) { sym_precise(); RMSPropOptions<D> o; o.learningRate = sym_f64("lr", 0.01, 1); o.alpha = sym_f64("alpha", 0.1, 0.9); o.epsilon = sym_f64("eps", 0.01, 1); o.momentum = sym_f64("mom", 0.1, 1); o.weightDecay = sym_f64("wd", 0.1, 1); RMSPropOptimizer<D> opt(o); auto w = in({1}, "w"), g = in({1}, "g"); D w0 = w[0], e = g[0] + o.weightDecay * w0; opt.optimize({std::ref(w)}, {std::ref(g)}); D s = (1 - o.alpha) * e * e; check_eq((w0 - w[0]) * std::sqrt(s + o.epsilon), o.learningRate * e, "RMSProp in double"); }
ENTRY(qr_rmsprop_two) { sym_precise(); RMSPropOptions<D> o; o.learningRate = sym_f64("lr", 0.01, 1); o.alpha = sym_f64("alpha", 0.1, 0.9); o.epsilon = sym_f64("eps", 0.01, 1); RMSPropOptimizer<D> opt(o); auto w = in({1}, "w"), g = in({1}, "g"), h = in({1}, "h"); opt.optimize({std::ref(w)}, {std::ref(g)}); D w1 = w[0]; opt.optimize({std::ref(w)}, {std::ref(h)}); D s = o.alpha * (1 - o.alpha) * g[0] * g[0] + (1 - o.alpha) * h[0] * h[0]; check_eq((w1 - w[0]) * std::sqrt(s + o.epsilon), o.learningRate * h[0], "RMSProp in double"); }
ENTRY(qr_adam) { sym_precise(); AdamOptions<D> o; o.learningRate = sym_f64("lr", 0.01, 1); o.beta1 = sym_f64("b1", 0.1, 0.9); o.beta2 = sym_f64("b2", 0.1, 0.9); o.epsilon = sym_f64("eps", 0.01, 1); AdamOptimizer<D> opt(o); auto w = in({1}, "w"), g = in({1}, "g"); D w0 = w[0]; opt.optimize({std::ref(w)}, {std::ref(g)}); check_eq((w0 - w[0]) * (g[0] + o.epsilon), o.learningRate * g[0], "Adam in double"); }
ENTRY(qr_adam_options) { sym_precise(); AdamOptions<D> o; o.learningRate = sym_f64("lr", 0.1, 1); o.beta1 = sym_f64("b1", 0.1, 0.9); o.beta2 = sym_f64("b2", 0.1, 0.9); o.epsilon = sym_f64("eps", 0.01, 1); o.l2Strength = sym_f64("l2", 0.1, 1); o.decay = sym_f64("decay", 0.1, 1); o.batchSize = 3; AdamOptimizer<D> opt(o); auto w = in({1}, "w"), g = in({1}, "g"); D w0 = w[0]; opt.optimize({std::ref(w)}, {std::ref(g)}); D e = g[0] / 3; check_eq((w0 - w[0]) * (1 + o.decay) * (e + o.epsilon), o.learningRate * (e + o.l2Strength * w0 * (e + o.epsilon)), "Adam with decay, regularisation and batch averaging in double"); }
// larger shapes and longer histories
ENTRY(qr_shapes) { sym_precise(); Dims d = pickShape(40, 1, 6); auto a = in(d, "a"), b = in(d, "b"); V v = values(a), w = values(b); D s = sym_f64("s", 0.5, 4); int n = prodOf(d); auto r1 = a + b, r2 = a - b, r3 = a * b, r4 = a * s, r5 = a / s, r6 = s - a, r7 = A::apply(a, [](D x) { return x * x; }), r8 = A::applyPair(a, b, [](D x, D y) { return x - 2 * y; }); D t = 0; for (D x : v) t += x;
  for (int i = 0; i < n; ++i) { check_eq(r1[i], v[i] + w[i], "sum"); check_eq(r2[i], v[i] - w[i], "difference"); check_eq(r3[i], v[i] * w[i], "product"); check_eq(r4[i], v[i] * s, "scaled"); check_eq(r5[i], v[i] / s, "divided"); check_eq(r6[i], s - v[i], "subtracted from a scalar"); check_eq(r7[i], v[i] * v[i], "map"); check_eq(r8[i], v[i] - 2 * w[i], "pairwise map"); } check_eq(A::sum(a)[0], t, "sum of all"); check_eq(A::mean(a)[0], t / n, "mean of all"); for (int i = 0; i < n; ++i) { check_eq(A::reciprocal(a, 0.25)[i] * v[i], 1., "reciprocal"); if (i > 3) break; } }
ENTRY(qr_shape_axes) { sym_precise(); Dims d = pickShape(24, 2, 4); int r = (int)d.size(), ax = sym_pick("axis", 0, 3); if (ax >= r) return; auto a = in(d, "a"); V v = values(a); Dims e = d; e[ax] = 1; V s(prodOf(e), 0); for (size_t f = 0; f < v.size(); ++f) { Dims ix = unflatten((int)f, d); ix[ax] = 0; s[flatten(ix, e)] += v[f]; } auto x = A::sum(a, (size_t)ax), y = A::sum(a, std::vector<size_t>{(size_t)ax}), z = A::mean(a, std::vector<size_t>{(size_t)ax}); for (size_t i = 0; i < s.size(); ++i) { check_eq(x[i], s[i], "axis sum"); check_eq(y[i], s[i], "axis sum"); check_eq(z[i], s[i] / d[ax], "axis mean"); }
  int q = sym_pick("other", 0, 3); if (q >= r || q == ax) return; auto t = A::transpose(a, ax, q); Dims o = d; std::swap(o[ax], o[q]); for (size_t f = 0; f < v.size(); ++f) { Dims ix = unflatten((int)f, d); std::swap(ix[ax], ix[q]); check_eq(t[flatten(ix, o)], v[f], "transpose"); } }
ENTRY(qr_broadcast) { sym_precise(); static const Dims L[] = {{4, 5}, {2, 3, 4}, {3, 1}, {1, 6}, {2, 1, 3}, {2, 2, 2, 2}}, R[] = {{5}, {3, 1}, {1, 4}, {5, 1}, {1, 4, 1}, {2, 1, 2}}; int k = sym_pick("pair", 0, 5); Dims d = L[k], e = R[k], o = broadcastDims(d, e); auto a = in(d, "a"), b = in(e, "b"); V x = values(a), y = values(b); auto s = a + b, t = a - b, m = a * b, q = a / b; for (int i = 0; i < prodOf(o); ++i) { D u = x[bcIndex(i, o, d)], v = y[bcIndex(i, o, e)]; check_eq(s[i], u + v, "broadcast sum"); check_eq(t[i], u - v, "broadcast difference"); check_eq(m[i], u * v, "broadcast product"); check_eq(q[i] * v, u, "broadcast quotient"); } if (o == d) { auto c = a; c += b; for (int i = 0; i < prodOf(o); ++i) check_eq(c[i], x[i] + y[bcIndex(i, o, e)], "in place"); c = a; c *= b; for (int i = 0; i < prodOf(o); ++i) check_eq(c[i], x[i] * y[bcIndex(i, o, e)], "in place"); } }
ENTRY(qr_long) { sym_precise(); static const int N[] = {33, 257, 1030}; int n = N[sym_pick("n", 0, 2)]; auto a = in({n}, "a"), b = in({n}, "b"); V v = values(a), w = values(b); auto s = a + b, m = a * b, d = a - b; D t = 0; for (int i = 0; i < n; ++i) { t += v[i]; check_eq(s[i], v[i] + w[i], "long sum"); check_eq(m[i], v[i] * w[i], "long product"); check_eq(d[i], v[i] - w[i], "long difference"); } check_eq(A::sum(a)[0], t, "sum of a long vector"); check_eq(A::mean(a)[0], t / n, "mean of a long vector"); if (n < 100) { D p = 0; for (int i = 0; i < n; ++i) p += v[i] * w[i]; check_eq(A::matmul(a, b)[0], p, "dot product of long vectors"); } }
ENTRY(qr_matmul_shapes) { sym_precise(); static const int S[][4] = {{1, 5, 9, 4}, {1, 9, 2, 9}, {1, 2, 33, 2}, {3, 2, 3, 2}, {2, 3, 2, 4}, {1, 17, 1, 3}}; const int* c = S[sym_pick("shape", 0, 5)]; int B = c[0], m = c[1], k = c[2], n = c[3]; Dims da = B > 1 ? Dims{B, m, k} : Dims{m, k}, db = B > 1 ? Dims{B, k, n} : Dims{k, n}; auto a = in(da, "a"), b = in(db, "b"); auto r = A::matmul(a, b); for (int q = 0; q < B; ++q) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { D s = 0; for (int p = 0; p < k; ++p) s += a[(q * m + i) * k + p] * b[(q * k + p) * n + j]; check_eq(r[(q * m + i) * n + j], s, "matrix product in double"); } if (B == 1) { auto x = in({k}, "x"); auto y = A::matmul(a, x); for (int i = 0; i < m; ++i) { D s = 0; for (int p = 0; p < k; ++p) s += a[i * k + p] * x[p]; check_eq(y[i], s, "matrix times vector in double"); } } }
// layers at larger sizes, several passes of one object
ENTRY(qr_fc_large) { sym_precise(); static const int S[][3] = {{4, 3, 3}, {9, 5, 2}, {2, 12, 4}}; const int* c = S[sym_pick("size", 0, 2)]; int B = c[0], I = c[1], O = c[2]; FullyConnectedLayer<D> L(I, O); auto W = in({I, O}, "w"), b = in({1, O}, "b"); L.setWeights(W); L.setBiases(b); for (int round = 0; round < 2; ++round) { if (round) B = B / 2 + 1; auto x = in({B, I}, "x"), g = in({B, O}, "g"); auto y = L.forward(x), r = L.backward(g); Probe<D> p; L.updateWeights(p);
    for (int n = 0; n < B; ++n) for (int o = 0; o < O; ++o) { D s = b[o]; for (int i = 0; i < I; ++i) s += x[n * I + i] * W[i * O + o]; check_eq(y[n * O + o], s, "fully connected output in double"); } for (int n = 0; n < B; ++n) for (int i = 0; i < I; ++i) { D s = 0; for (int o = 0; o < O; ++o) s += g[n * O + o] * W[i * O + o]; check_eq(r[n * I + i], s, "input gradient in double"); }
    for (int o = 0; o < O; ++o) { D s = 0; for (int n = 0; n < B; ++n) s += g[n * O + o]; check_eq(p.g[1][o], s, "bias gradient in double"); for (int i = 0; i < I; ++i) { D q = 0; for (int n = 0; n < B; ++n) q += x[n * I + i] * g[n * O + o]; check_eq(p.g[0][i * O + o], q, "weight gradient in double"); } } } }
ENTRY(qr_conv_shapes) { int k = sym_pick("config", 0, NCONV - 1); const ConvCfg& c = CONV[k]; if (!c.fits()) return; sym_precise(); Conv2DLayer<D> L(c.C, c.O, c.kh, c.kw, c.s, c.p, c.d); auto W = in({c.O, c.C, c.kh, c.kw}, "w"), b = in({c.O, 1}, "b"); L.setWeights(W); L.setBiases(b); Dims xd{c.B, c.C, c.H, c.W}, yd{c.B, c.O, c.oh(), c.ow()}; auto x = in(xd, "x"), g = in(yd, "g"); V y(prodOf(yd)), gx(prodOf(xd)), gw(prodOf({c.O, c.C, c.kh, c.kw})), gb(c.O); convTerms(c, [&](int i, int q, int o, int) { if (i >= 0) { y[o] += x[i] * W[q]; gx[i] += W[q] * g[o]; gw[q] += x[i] * g[o]; } }); for (size_t o = 0; o < y.size(); ++o) { int ch = (int)(o / (c.oh() * c.ow())) % c.O; y[o] += b[ch]; gb[ch] += g[o]; }
  auto r = L.forward(x), d = L.backward(g); Probe<D> p; L.updateWeights(p); for (size_t i = 0; i < y.size(); ++i) check_eq(r[i], y[i], "convolution in double"); for (size_t i = 0; i < gx.size(); ++i) check_eq(d[i], gx[i], "input gradient in double"); for (size_t i = 0; i < gw.size(); ++i) check_eq(p.g[0][i], gw[i], "kernel gradient in double"); for (int i = 0; i < c.O; ++i) check_eq(p.g[1][i], gb[i], "bias gradient in double"); }
ENTRY(qr_batchnorm_shapes) { sym_precise(); static const Dims S[] = {{3, 2}, {2, 2, 2, 1}, {5, 1}, {1, 2, 1, 3}}; Dims d = S[sym_pick("shape", 0, 3)]; int F = d[1], n = prodOf(d), per = n / F; D eps = 0.3, mom = 0.7; BatchNormalizationLayer<D> L(F, eps, mom); V rm(F, 0), rv(F, 1); for (int round = 0; round < 2; ++round) { auto x = in(d, "x"); auto y = L.forward(x); V m(F, 0), v(F, 0); for (int i = 0; i < n; ++i) m[unflatten(i, d)[1]] += x[i]; for (D& q : m) q /= per; for (int i = 0; i < n; ++i) { int f = unflatten(i, d)[1]; v[f] += (x[i] - m[f]) * (x[i] - m[f]); } for (D& q : v) q /= per; for (int i = 0; i < n; ++i) { int f = unflatten(i, d)[1]; check_eq(y[i] * std::sqrt(v[f] + eps), x[i] - m[f], "batch normalisation in double"); } for (int f = 0; f < F; ++f) { rm[f] = mom * rm[f] + (1 - mom) * m[f]; rv[f] = mom * rv[f] + (1 - mom) * v[f]; } }
  L.setTrainingMode(false); auto x = in(d, "x"); auto y = L.forward(x); for (int i = 0; i < n; ++i) { int f = unflatten(i, d)[1]; check_eq(y[i] * std::sqrt(rv[f] + eps), x[i] - rm[f], "evaluation uses the running statistics, kept in double"); } }
ENTRY(qr_pool_shapes) { sym_precise(); static const int C[][6] = {{1, 2, 3, 3, 2, 1}, {2, 1, 4, 4, 2, 2}, {1, 1, 5, 3, 3, 1}, {1, 1, 2, 2, 1, 1}}; const int* c = C[sym_pick("config", 0, 3)]; int k = c[4], s = c[5], oh = (c[2] - k) / s + 1, ow = (c[3] - k) / s + 1, n = c[0] * c[1] * c[2] * c[3]; MaxPooling2DLayer<D> L(k, s); TD x(Shape({c[0], c[1], c[2], c[3]})); for (int i = 0; i < n; ++i) { D b = (i * 7) % 31; x[i] = sym_f64("x", b, b + 0.5); } auto g = in({c[0], c[1], oh, ow}, "g"); auto y = L.forward(x), d = L.backward(g); V gx(n, 0); for (int q = 0; q < c[0] * c[1]; ++q) for (int i = 0; i < oh; ++i) for (int j = 0; j < ow; ++j) { int best = -1; for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) { int at = (q * c[2] + i * s + a) * c[3] + j * s + b; if (best < 0 || (at * 7) % 31 > (best * 7) % 31) best = at; } int o = (q * oh + i) * ow + j; check_eq(y[o], x[best], "pooling in double"); gx[best] += g[o]; } for (int i = 0; i < n; ++i) check_eq(d[i], gx[i], "pooling gradient in double"); }
ENTRY(qr_softmax_rows) { sym_precise(); static const Dims S[] = {{2, 3}, {3, 2}, {1, 4}}; Dims d = S[sym_pick("shape", 0, 2)]; auto x = symTensor<D>(d, "x", -4, 4); Softmax<D> f; auto y = f.forward(x); int c = d.back(), n = prodOf(d); for (int r = 0; r < n / c; ++r) { D s = 0; for (int i = 0; i < c; ++i) s += std::exp(x[r * c + i]); for (int i = 0; i < c; ++i) check_eq(y[r * c + i] * s, std::exp(x[r * c + i]), "softmax in double"); } }
ENTRY(qr_losses_batch) { sym_precise(); int B = sym_pick("batch", 1, 9), n = B * 3; auto p = symTensor<D>({B, 3}, "p", 0.1, 0.9), t = symTensor<D>({B, 3}, "t", 0.1, 0.9); MSELoss<D> M; D s = 0; for (int i = 0; i < n; ++i) s += (p[i] - t[i]) * (p[i] - t[i]); check_eq(M.compute(p, t)[0], s / n, "squared error in double"); auto g = M.gradient(p, t); for (int i = 0; i < n; ++i) check_eq(g[i], 2 * (p[i] - t[i]) / n, "squared error gradient in double"); }
// several steps, several parameters
ENTRY(qr_sgd_steps) { sym_precise(); SGDOptions<D> o; o.learningRate = 0.1; o.momentum = 0.7; o.dampening = 0.3; o.weightDecay = 0.05; o.nesterov = false; SGDOptimizer<D> opt(o); auto a = in({3}, "a"), b = in({2, 2}, "b"); V w[2] = {values(a), values(b)}, vel[2] = {V(3), V(4)}; for (int s = 0; s < 3; ++s) { auto g = in({3}, "g"), h = in({2, 2}, "h"); V gr[2] = {values(g), values(h)}; opt.optimize({std::ref(a), std::ref(b)}, {std::ref(g), std::ref(h)}); for (int q = 0; q < 2; ++q) for (size_t i = 0; i < w[q].size(); ++i) { D e = gr[q][i] + 0.05 * w[q][i]; vel[q][i] = 0.7 * vel[q][i] + 0.7 * e; w[q][i] -= 0.1 * vel[q][i]; check_eq((q ? b : a)[i], w[q][i], "several SGD steps in double"); } } }
ENTRY(qr_model) { sym_precise(); SmartDNN<D> m; FullyConnectedLayer<D> f(2, 2), h(2, 1); auto W = in({2, 2}, "w"), b = in({1, 2}, "b"), U = in({2, 1}, "u"), c = in({1, 1}, "c"); f.setWeights(W); f.setBiases(b); h.setWeights(U); h.setBiases(c); m.addLayer(std::move(f)); m.addLayer(ActivationLayer<D>(ReLU<D>())); m.addLayer(std::move(h)); SGDOptions<D> o; o.learningRate = 0.1; o.momentum = 0; m.compile(MSELoss<D>(), SGDOptimizer<D>(o)); auto x = in({2, 2}, "x"), t = symTensor<D>({2, 1}, "t", -1, 0); V z(4), y(2);
  for (int n = 0; n < 2; ++n) { y[n] = c[0]; for (int j = 0; j < 2; ++j) { z[n * 2 + j] = x[n * 2] * W[j] + x[n * 2 + 1] * W[2 + j] + b[j]; y[n] += z[n * 2 + j] * U[j]; } } auto r = m.predict(x); for (int n = 0; n < 2; ++n) check_eq(r[n], y[n], "prediction in double"); m.train({x}, {t}, 1); D e0 = y[0] - t[0], e1 = y[1] - t[1]; auto* last = static_cast<FullyConnectedLayer<D>*>(m.getLayer(2)); auto* first = static_cast<FullyConnectedLayer<D>*>(m.getLayer(0)); for (int j = 0; j < 2; ++j) { check_eq(last->getWeights()[j], U[j] - 0.1 * (e0 * z[j] + e1 * z[2 + j]), "a training step in double"); check_eq(first->getBiases()[j], b[j] - 0.1 * (e0 + e1) * U[j], "a training step in double"); } check_eq(last->getBiases()[0], c[0] - 0.1 * (e0 + e1), "a training step in double"); }
// fixed options that single precision cannot represent
ENTRY(qr_options) { sym_precise(); auto w = in({1}, "w"), g = in({1}, "g"); D w0 = w[0], x = g[0]; switch (sym_pick("optimizer", 0, 2)) {
  case 0: { SGDOptions<D> o; o.learningRate = 0.1; o.momentum = 0.7; o.dampening = 0.3; o.weightDecay = 0.05; SGDOptimizer<D> p(o); p.optimize({std::ref(w)}, {std::ref(g)}); D e = x + 0.05 * w0, v = 0.7 * e; v = (1 - 0.3) * e; w0 -= 0.1 * v; check_eq(w[0], w0, "SGD options in double"); p.optimize({std::ref(w)}, {std::ref(g)}); e = x + 0.05 * w0; v = 0.7 * v + 0.7 * e; check_eq(w[0], w0 - 0.1 * v, "SGD options in double"); break; }
  case 1: { RMSPropOptions<D> o; o.learningRate = 0.1; o.alpha = 0.7; o.epsilon = 0.3; o.momentum = 0.6; o.weightDecay = 0.05; RMSPropOptimizer<D> p(o); p.optimize({std::ref(w)}, {std::ref(g)}); D e = x + 0.05 * w0, s = (1 - 0.7) * e * e, v = e / std::sqrt(s + 0.3); w0 -= 0.1 * v; check_eq(w[0], w0, "RMSProp options in double"); p.optimize({std::ref(w)}, {std::ref(g)}); e = x + 0.05 * w0; s = 0.7 * s + (1 - 0.7) * e * e; v = 0.6 * v + e / std::sqrt(s + 0.3); check_eq(w[0], w0 - 0.1 * v, "RMSProp options in double"); break; }
  default: { AdamOptions<D> o; o.learningRate = 0.1; o.beta1 = 0.7; o.beta2 = 0.6; o.epsilon = 0.3; o.l1Strength = 0.05; o.l2Strength = 0.15; o.decay = 1; AdamOptimizer<D> p(o); p.optimize({std::ref(w)}, {std::ref(g)}); D lr = 0.1 * 0.5; w0 -= lr * (x / (x + 0.3) + 0.05 + 0.15 * w0); check_eq(w[0], w0, "Adam options in double"); } } }
ENTRY(qr_defaults) { sym_precise(); auto w = in({1}, "w"), g = in({1}, "g"); D w0 = w[0], x = g[0]; switch (sym_pick("optimizer", 0, 2)) {
  case 0: { SGDOptimizer<D> p; p.optimize({std::ref(w)}, {std::ref(g)}); check_eq(w[0], w0 - 0.01 * x, "SGD defaults in double"); p.optimize({std::ref(w)}, {std::ref(g)}); check_eq(w[0], w0 - 0.01 * x - 0.01 * 1.9 * x, "SGD defaults in double"); break; }
  case 1: { RMSPropOptimizer<D> p; p.optimize({std::ref(w)}, {std::ref(g)}); check_eq((w0 - w[0]) * std::sqrt((1 - 0.99) * x * x + 1e-8), 0.01 * x, "RMSProp defaults in double"); break; }
  default: { AdamOptimizer<D> p; p.optimize({std::ref(w)}, {std::ref(g)}); check_eq((w0 - w[0]) * (x + 1e-8), 0.001 * x, "Adam defaults in double"); } } }
// counts whose reciprocal is not a float
ENTRY(qr_counts) { sym_precise(); static const int N[] = {3, 5, 6, 7, 9, 10, 11, 13, 25, 100}; int n = N[sym_pick("n", 0, 9)]; auto a = in({n}, "a"); D s = 0; for (int i = 0; i < n; ++i) s += a[i]; check_eq(A::mean(a)[0], s / n, "the mean in double"); check_eq(A::mean(a, {0})[0], s / n, "the mean along an axis in double"); auto b = in({2, n}, "b"); D t = 0, u = 0; for (int i = 0; i < n; ++i) { t += b[i]; u += b[n + i]; } auto m = A::mean(b, {1}); check_eq(m[0], t / n, "row means in double"); check_eq(m[1], u / n, "row means in double"); check_eq(A::mean(b)[0], (t + u) / (2 * n), "the mean of a matrix in double"); if (n <= 7) { D q = 0; for (int i = 0; i < n; ++i) q += (b[i] - t / n) * (b[i] - t / n); check_eq(A::variance(b, m, {1})[0], q / n, "row variances in double"); D w = 0; for (int i = 0; i < 2 * n; ++i) w += (b[i] - (t + u) / (2 * n)) * (b[i] - (t + u) / (2 * n)); check_eq(A::variance(b, A::mean(b), {0, 1})[0], w / (2 * n), "the variance of a matrix in double"); } }
