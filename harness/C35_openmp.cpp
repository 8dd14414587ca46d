// @bounds the repository compiled with -fopenmp; every parallel region is given 1, 2, 3 or 1100 logical threads (the last: at least as many as it has iterations, so each pair of iterations counts as concurrent); tensors of rank 1..4 with dimensions 1..3 and the shape catalogue (61 shapes of rank 1..6, up to 65 elements), vectors of up to 1030 elements, matrices up to 33x3, convolutions of up to 3 images with rectangular kernels, strides, padding and dilation, up to 49 output cells; Adam with 1001, 1024 and 1030 parameters and up to 2 steps; two training steps of a small network; all element values symbolic, except Adam's (three symbolic, the others fixed)
// @assume OpenMP's own runtime is correct; floating point is exact real arithmetic, so a reduction's order does not matter
// @outside lengths beyond the bounds; explicit barriers and tasks; the private matrix product of slice views, which nothing calls
// @flags -fopenmp -I@VERIF@/harness/fakeomp
// @opts .* --omp-threads 1100
#include "conv.hpp"
#include <omp.h>
typedef Tensor<float> T;
typedef AdvancedTensorOperations<float> A;
static std::vector<float> mm(const std::vector<float>& a, const std::vector<float>& b, int m, int k, int n) { std::vector<float> r(m * n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { float s = 0; for (int p = 0; p < k; ++p) s += a[i * k + p] * b[p * n + j]; r[i * n + j] = s; } return r; }
static void threads() { static const int N[] = {1100, 2, 3, 1}; omp_set_num_threads(N[sym_pick("threads", 0, 3)]); }
ENTRY(qr_apply_pair) { Dims d = pickDims(2, 1, 3); T a = symTensor<float>(d, "a"), b = symTensor<float>(d, "b"); std::vector<float> r = values(a), y = values(b); for (size_t i = 0; i < r.size(); ++i) r[i] = r[i] * y[i] + r[i]; checkTensor(A::applyPair(a, b, [](float x, float z) { return x * z + x; }), d, r, "element i of a pairwise map depends on elements i only"); }
ENTRY(qr_transpose) { int r = sym_pick("rank", 2, 3); Dims d = pickDims(r, 1, 3); int p = sym_pick("p", 0, r - 1), q = sym_pick("q", 0, r - 1); T a = symTensor<float>(d, "a"); Dims e = d; std::swap(e[p], e[q]); std::vector<float> v = values(a), w(v.size()); for (size_t f = 0; f < v.size(); ++f) { std::vector<int> ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); w[flatten(ix, e)] = v[f]; } checkTensor(A::transpose(a, p, q), e, w, "transpose"); }
ENTRY(qr_matvec) { int m = sym_pick("m", 1, 4), n = sym_pick("n", 1, 3); T a = symTensor<float>({m, n}, "a"), x = symTensor<float>({n}, "x"); checkTensor(A::matmul(a, x), {m}, mm(values(a), values(x), m, n, 1), "matrix times vector"); }
ENTRY(qr_matmul) { int m = sym_pick("m", 1, 3), k = sym_pick("k", 1, 3), n = sym_pick("n", 1, 3); T a = symTensor<float>({m, k}, "a"), b = symTensor<float>({k, n}, "b"); checkTensor(A::matmul(a, b), {m, n}, mm(values(a), values(b), m, k, n), "matrix product"); }
ENTRY(qr_dot) { int n = sym_pick("n", 1, 6); T a = symTensor<float>({n}, "a"), b = symTensor<float>({n}, "b"); checkTensor(A::matmul(a, b), {1}, mm(values(a), values(b), 1, n, 1), "dot product"); }
ENTRY(qr_batched) { int b = sym_pick("b", 1, 2), m = sym_pick("m", 1, 2), k = sym_pick("k", 1, 2), n = sym_pick("n", 1, 2); T x = symTensor<float>({b, m, k}, "x"), y = symTensor<float>({b, k, n}, "y"); std::vector<float> vx = values(x), vy = values(y), r; for (int i = 0; i < b; ++i) { std::vector<float> q = mm({vx.begin() + i * m * k, vx.begin() + (i + 1) * m * k}, {vy.begin() + i * k * n, vy.begin() + (i + 1) * k * n}, m, k, n); r.insert(r.end(), q.begin(), q.end()); } checkTensor(A::matmul(x, y), {b, m, n}, r, "batched product"); }
// reductions and element-wise operations: sequential today, checked because a parallel version must stay free of conflicts
ENTRY(qr_reduce) { int m = sym_pick("m", 1, 3), n = sym_pick("n", 1, 3); T a = symTensor<float>({m, n}, "a"); std::vector<float> v = values(a); float s = 0; for (float x : v) s += x; checkTensor(A::sum(a), {1}, {s}, "sum"); checkTensor(A::mean(a), {1}, {s / (float)(m * n)}, "mean"); std::vector<float> c(n, 0.f), q(m, 0.f); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { c[j] += v[i * n + j]; q[i] += v[i * n + j]; } checkValues(A::sum(a, size_t(0)), c, "column sums"); checkValues(A::sum(a, size_t(1)), q, "row sums"); checkValues(A::sum(a, std::vector<size_t>{0}), c, "column sums"); for (float& x : q) x /= (float)n; checkValues(A::mean(a, std::vector<size_t>{1}), q, "row means"); }
ENTRY(qr_elementwise) { Dims d = pickDims(2, 1, 2), e = d; e[0] = 1; T a = symTensor<float>(d, "a"), b = symTensor<float>(e, "b"); std::vector<float> x = values(a), y = values(b), s(x), p(x); for (size_t i = 0; i < x.size(); ++i) { s[i] = x[i] + y[i % d[1]]; p[i] = x[i] * y[i % d[1]]; } checkTensor(a + b, d, s, "broadcast sum"); checkTensor(a * b, d, p, "broadcast product"); T c = a; c += b; checkTensor(c, d, s, "in place"); for (float& z : x) z = 2 * z; checkTensor(a * 2.0f, d, x, "scaled"); checkTensor(A::apply(a, [](float z) { return 2 * z; }), d, x, "map"); }
// the shape catalogue and long vectors
ENTRY(qr_pair_shapes) { threads(); Dims d = pickShape(65, 1, 6); T a = symTensor<float>(d, "a"), b = symTensor<float>(d, "b"); std::vector<float> r = values(a), y = values(b); for (size_t i = 0; i < r.size(); ++i) r[i] = r[i] * y[i] - y[i]; checkTensor(A::applyPair(a, b, [](float x, float z) { return x * z - z; }), d, r, "pairwise map"); }
ENTRY(qr_long) { threads(); static const int N[] = {100, 257, 999, 1030, 4200}; int n = N[sym_pick("n", 0, 4)]; T a = symTensor<float>({n}, "a"), b = symTensor<float>({n}, "b"); std::vector<float> x = values(a), y = values(b), r(x);
  for (int i = 0; i < n; ++i) r[i] = x[i] * y[i]; checkTensor(A::applyPair(a, b, [](float p, float q) { return p * q; }), {n}, r, "pairwise map of a long vector"); checkTensor(a * b, {n}, r, "product of long vectors"); for (int i = 0; i < n; ++i) r[i] = x[i] - y[i]; checkTensor(a - b, {n}, r, "difference of long vectors"); for (int i = 0; i < n; ++i) r[i] = 3 * x[i]; checkTensor(A::apply(a, [](float z) { return 3 * z; }), {n}, r, "map of a long vector"); checkTensor(a * 3.0f, {n}, r, "scaled long vector");
  float s = 0; for (float v : x) s += v; check_eq(raw(A::sum(a))[0], s, "sum of a long vector"); check_eq(raw(A::mean(a))[0], s / (float)n, "mean of a long vector"); }
ENTRY(qr_long_dot) { threads(); int n = sym_pick("n", 0, 2); n = n == 0 ? 17 : n == 1 ? 64 : 100; T a = symTensor<float>({n}, "a"), b = symTensor<float>({n}, "b"); checkTensor(A::matmul(a, b), {1}, mm(values(a), values(b), 1, n, 1), "long dot product"); }
ENTRY(qr_transpose_shapes) { threads(); Dims d = pickShape(65, 2, 5); int r = (int)d.size(), p = sym_pick("p", 0, 4), q = sym_pick("q", 0, 4); if (p >= r || q >= r || p > q) return; T a = symTensor<float>(d, "a"); Dims e = d; std::swap(e[p], e[q]); std::vector<float> v = values(a), w(v.size()); for (size_t f = 0; f < v.size(); ++f) { std::vector<int> ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); w[flatten(ix, e)] = v[f]; } checkTensor(A::transpose(a, p, q), e, w, "transpose"); }
ENTRY(qr_matmul_shapes) { threads(); static const int S[][3] = {{8, 1, 8}, {5, 9, 4}, {17, 3, 2}, {2, 33, 2}, {1, 4, 9}, {9, 4, 1}, {33, 2, 3}, {12, 2, 12}}; const int* c = S[sym_pick("shape", 0, 7)]; int m = c[0], k = c[1], n = c[2]; T a = symTensor<float>({m, k}, "a"), b = symTensor<float>({k, n}, "b"), x = symTensor<float>({k}, "x"); checkTensor(A::matmul(a, b), {m, n}, mm(values(a), values(b), m, k, n), "matrix product"); checkTensor(A::matmul(a, x), {m}, mm(values(a), values(x), m, k, 1), "matrix times vector"); }
ENTRY(qr_batched_shapes) { threads(); static const int S[][5] = {{1, 3, 2, 2, 2}, {2, 2, 2, 1, 2}, {1, 5, 3, 2, 1}, {3, 1, 1, 3, 2}, {2, 3, 2, 2, 1}}; const int* c = S[sym_pick("shape", 0, 4)]; int B = c[0] * c[1], m = c[2], k = c[3], n = c[4]; bool four = sym_pick("rank4", 0, 1); Dims da = four ? Dims{c[0], c[1], m, k} : Dims{B, m, k}, db = four ? Dims{c[0], c[1], k, n} : Dims{B, k, n}, dr = four ? Dims{c[0], c[1], m, n} : Dims{B, m, n}; T x = symTensor<float>(da, "x"), y = symTensor<float>(db, "y"); std::vector<float> vx = values(x), vy = values(y), r; for (int i = 0; i < B; ++i) { std::vector<float> q = mm({vx.begin() + i * m * k, vx.begin() + (i + 1) * m * k}, {vy.begin() + i * k * n, vy.begin() + (i + 1) * k * n}, m, k, n); r.insert(r.end(), q.begin(), q.end()); } checkTensor(A::matmul(x, y), dr, r, "batched product"); }
ENTRY(qr_broadcast_shapes) { threads(); static const Dims L[] = {{4, 5}, {2, 3, 4}, {3, 1}, {1, 6}, {2, 1, 3}, {7, 9}}, R[] = {{5}, {3, 1}, {1, 4}, {5, 1}, {1, 4, 1}, {7, 1}}; int k = sym_pick("pair", 0, 5); Dims d = L[k], e = R[k], o = broadcastDims(d, e); T a = symTensor<float>(d, "a"), b = symTensor<float>(e, "b"); std::vector<float> x = values(a), y = values(b); size_t n = 1; for (int v : o) n *= v; std::vector<float> s(n), m(n); for (size_t i = 0; i < n; ++i) { float u = x[bcIndex((int)i, o, d)], v = y[bcIndex((int)i, o, e)]; s[i] = u - v; m[i] = u * v; } checkTensor(a - b, o, s, "broadcast difference"); checkTensor(a * b, o, m, "broadcast product"); }
ENTRY(qr_reduce_shapes) { threads(); Dims d = pickShape(24, 2, 4); int r = (int)d.size(), ax = sym_pick("axis", 0, 3); if (ax >= r) return; T a = symTensor<float>(d, "a"); std::vector<float> v = values(a); Dims e = d; e[ax] = 1; size_t n = 1; for (int q : e) n *= q; std::vector<float> s(n, 0.f); for (size_t f = 0; f < v.size(); ++f) { std::vector<int> ix = unflatten((int)f, d); ix[ax] = 0; s[flatten(ix, e)] += v[f]; } checkValues(A::sum(a, (size_t)ax), s, "sum over an axis"); checkValues(A::sum(a, std::vector<size_t>{(size_t)ax}), s, "sum over an axis"); for (float& q : s) q /= (float)d[ax]; checkValues(A::mean(a, std::vector<size_t>{(size_t)ax}), s, "mean over an axis"); }
ENTRY(qr_random) { rng_symbolic = 0; RandomEngine::setSeed(5); T a = T::rand({3, 3}); RandomEngine::setSeed(5); T b = T::rand({3, 3}); checkTensor(a, {3, 3}, values(b), "the same seed gives the same tensor"); }
static void conv(int B, int ci, int co, int h, int k, int st, int pad) { rng_symbolic = 0; Conv2DLayer<float> L(ci, co, k, k, st, pad, 1); Probe<float> p; T x = symTensor<float>({B, ci, h, h}, "x"); T y = L.forward(x); int o = (h + 2 * pad - k) / st + 1; checkDims(y, {B, co, o, o}, "output shape"); T g = symTensor<float>({B, co, o, o}, "g"); T dx = L.backward(g); L.updateWeights(p); std::vector<float> w = values(*p.w[0]), bb = values(*p.w[1]), vx = values(x), vg = values(g);
  std::vector<float> ry(B * co * o * o), rdx(vx.size(), 0.f), rdw(w.size(), 0.f), rdb(co, 0.f);
  for (int n = 0; n < B; ++n) for (int c = 0; c < co; ++c) for (int i = 0; i < o; ++i) for (int j = 0; j < o; ++j) { int f = ((n * co + c) * o + i) * o + j; float s = bb[c]; rdb[c] += vg[f]; for (int e = 0; e < ci; ++e) for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) { int y0 = i * st + a - pad, x0 = j * st + b - pad; if (y0 < 0 || x0 < 0 || y0 >= h || x0 >= h) continue; int xi = ((n * ci + e) * h + y0) * h + x0, wi = ((c * ci + e) * k + a) * k + b; s += w[wi] * vx[xi]; rdx[xi] += w[wi] * vg[f]; rdw[wi] += vx[xi] * vg[f]; } ry[f] = s; }
  checkTensor(y, {B, co, o, o}, ry, "convolution"); checkTensor(dx, {B, ci, h, h}, rdx, "input gradient"); checkValues(p.g[0], rdw, "weight gradient"); checkValues(p.g[1], rdb, "bias gradient"); }
ENTRY(qr_conv) { static const int C[][7] = {{2, 2, 2, 3, 2, 1, 0}, {2, 1, 2, 2, 2, 1, 1}, {1, 3, 1, 3, 2, 2, 1}}; const int* c = C[sym_pick("config", 0, 2)]; conv(c[0], c[1], c[2], c[3], c[4], c[5], c[6]); }
// every convolution of the configuration list, forward and backward, twice through the same layer
static void convCfg(const ConvCfg& c) { if (!c.fits()) return; threads(); rng_symbolic = 0; Conv2DLayer<float> L = mkConv(c); std::vector<float> w, b; setupConv(L, c, w, b); Dims xd{c.B, c.C, c.H, c.W}, yd{c.B, c.O, c.oh(), c.ow()}; size_t ny = prodOf(yd), nx = prodOf(xd);
  for (int round = 0; round < 2; ++round) { auto x = symTensor<float>(xd, "x"), g = symTensor<float>(yd, "g"); std::vector<float> vx = values(x), vg = values(g), y(ny), gx(nx), gw(w.size()), gb(c.O); convTerms(c, [&](int i, int k, int o, int) { if (i >= 0) { y[o] += vx[i] * w[k]; gx[i] += w[k] * vg[o]; gw[k] += vx[i] * vg[o]; } }); for (size_t o = 0; o < ny; ++o) { int ch = (int)(o / (c.oh() * c.ow())) % c.O; y[o] += b[ch]; gb[ch] += vg[o]; }
    checkTensor(L.forward(x), yd, y, "convolution"); checkTensor(L.backward(g), xd, gx, "input gradient"); checkValues(L.getWeightGradients(), gw, "weight gradient"); Probe<float> p; L.updateWeights(p); checkValues(p.g[1], gb, "bias gradient"); } }
ENTRY(qr_conv_shapes) { convCfg(CONV[sym_pick("config", 0, NCONV - 1)]); }
ENTRY(qr_conv_big) { int k = sym_pick("config", 0, NCONVBIG - 1); convCfg(CONVBIG[k]); }
ENTRY(qr_conv_square) { ConvCfg c{1, 1, 1, 8, 8, 2, 2, 1, 0, 1}; convCfg(c); }
// optimizers on long parameters: element k of the result is what a parameter holding element k alone becomes
template <class Opt, class O> static void longOpt(const O& o, int n, int steps, int params) { std::vector<T> w, g; for (int q = 0; q < params; ++q) { w.emplace_back(Shape{n}, 0.5f); g.emplace_back(Shape{n}, 0.25f); } static const int at[] = {0, 333, 334, 515, 516, 998}; int na = n > 998 ? 6 : 1; std::vector<T> u, v; Opt opt(o); std::vector<Opt> ones; ones.reserve(params * na); u.reserve(params * na); v.reserve(params * na);
  for (int q = 0; q < params; ++q) { for (int i = 0; i < n; ++i) { w[q].getData().data()[i] = (float)((i + q) % 7 + 1) * 0.25f; } for (int k = 0; k < na; ++k) { w[q].getData().data()[at[k]] = sym_f32("w", 3, 4); u.emplace_back(Shape{1}, raw(w[q])[at[k]]); v.emplace_back(Shape{1}, 0.f); ones.emplace_back(o); } }
  for (int s = 0; s < steps; ++s) { for (int q = 0; q < params; ++q) for (int i = 0; i < n; ++i) g[q].getData().data()[i] = (float)((i + s) % 5 + 1) * 0.125f; std::vector<std::reference_wrapper<T>> ws, gs; for (int q = 0; q < params; ++q) { ws.push_back(std::ref(w[q])); gs.push_back(std::ref(g[q])); } opt.optimize(ws, gs);
    for (int q = 0; q < params; ++q) for (int k = 0; k < na; ++k) { int j = q * na + k; v[j].getData().data()[0] = raw(g[q])[at[k]]; ones[j].optimize({std::ref(u[j])}, {std::ref(v[j])}); check_eq(raw(w[q])[at[k]], raw(u[j])[0], "each element is updated on its own"); } } }
ENTRY(qr_adam_long) { threads(); AdamOptions<float> o; o.learningRate = 0.125f; o.beta1 = 0.5f; o.beta2 = 0.75f; if (sym_pick("regularised", 0, 1)) { o.l1Strength = 0.25f; o.l2Strength = 0.125f; } static const int N[] = {1001, 1024, 1030, 999}; longOpt<AdamOptimizer<float>>(o, N[sym_pick("n", 0, 3)], 2, sym_pick("parameters", 1, 2)); }
ENTRY(qr_sgd_long) { threads(); SGDOptions<float> o; o.learningRate = 0.5f; o.momentum = 0.25f; o.dampening = 0.5f; o.weightDecay = 0.125f; longOpt<SGDOptimizer<float>>(o, 1030, 2, 2); }
ENTRY(qr_rmsprop_long) { threads(); RMSPropOptions<float> o; o.learningRate = 0.5f; o.alpha = 0.5f; o.momentum = 0.25f; o.weightDecay = 0.125f; longOpt<RMSPropOptimizer<float>>(o, 1030, 2, 1); }
ENTRY(qr_adam_large) { int n = 1001; T w(Shape{n}, 0.5f), g(Shape{n}, 0.25f); raw(w); float* pw = w.getData().data(); float* pg = g.getData().data(); for (int i = 0; i < n; ++i) { pw[i] = (float)(i % 7) * 0.25f; pg[i] = (float)(i % 5 + 1) * 0.125f; } int at[3] = {0, 500, 1000}; for (int k : at) { pw[k] = sym_f32("w", -4, 4); } AdamOptions<float> o; o.learningRate = 0.5f; o.beta1 = 0.5f; o.beta2 = 0.75f; AdamOptimizer<float> opt(o); T w0 = w; opt.optimize({w}, {g}); T u(Shape{3}), v(Shape{3}); for (int k = 0; k < 3; ++k) { u.getData().data()[k] = raw(w0)[at[k]]; v.getData().data()[k] = raw(g)[at[k]]; } AdamOptimizer<float> one(o); one.optimize({u}, {v}); for (int k = 0; k < 3; ++k) check_eq(raw(w)[at[k]], raw(u)[k], "each element is updated on its own"); }
ENTRY(qr_layers) { rng_symbolic = 0; int which = sym_pick("layer", 0, 6); T x = symTensor<float>({2, 2, 2, 2}, "x", 0.25, 1), g = symTensor<float>({2, 2, 2, 2}, "g"); std::vector<float> vx = values(x), vg = values(g);
  if (which == 0) { BatchNormalizationLayer<float> L(2); T y = L.forward(x); T d = L.backward(g); Probe<float> p; L.updateWeights(p); std::vector<float> gb(2, 0.f); for (int i = 0; i < 16; ++i) gb[(i / 4) % 2] += vg[i]; checkValues(p.g[1], gb, "shift gradient"); }
  if (which == 1) { MaxPooling2DLayer<float> L(1, 1); checkTensor(L.forward(x), {2, 2, 2, 2}, vx, "pooling"); checkTensor(L.backward(g), {2, 2, 2, 2}, vg, "pooling gradient"); }
  if (which == 2) { FullyConnectedLayer<float> L(4, 2); T a = symTensor<float>({2, 4}, "a"); T y = L.forward(a); T h = symTensor<float>({2, 2}, "h"); T d = L.backward(h); Probe<float> p; L.updateWeights(p); std::vector<float> va = values(a), vh = values(h), dw(8, 0.f); for (int n = 0; n < 2; ++n) for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) dw[i * 2 + j] += va[n * 4 + i] * vh[n * 2 + j]; checkValues(p.g[0], dw, "weight gradient"); std::vector<float> r = mm(va, values(*p.w[0]), 2, 4, 2); for (int i = 0; i < 4; ++i) r[i] += raw(*p.w[1])[i % 2]; checkValues(y, r, "fully connected"); }
  if (which == 3) { ReLU<float> f; checkTensor(f.forward(x), {2, 2, 2, 2}, vx, "relu of positive values"); checkTensor(f.backward(x, g), {2, 2, 2, 2}, vg, "relu gradient"); }
  if (which == 4) { FlattenLayer<float> L; checkTensor(L.forward(x), {2, 8}, vx, "flatten"); }
  if (which == 5) { LeakyReLU<float> f(0.5f); checkTensor(f.backward(x, g), {2, 2, 2, 2}, vg, "leaky gradient of positive values"); }
  if (which == 6) { MSELoss<float> f; float s = 0; for (int i = 0; i < 16; ++i) s += (vx[i] - vg[i]) * (vx[i] - vg[i]); check_eq(raw(f.compute(x, g))[0], s / 16, "squared error"); } }
// the same calculation on one thread and on many: layers, activations, losses and training at larger sizes
static T pat(const Dims& d, const char* n, int off = 0) { T t{Shape(d)}; int m = prodOf(d); for (int i = 0; i < m; ++i) { double b = ((i * 7 + off) % 19 - 9) * 0.25 + 0.125 + i % 3 * 0.03125; t.getData().data()[i] = sym_f32(n, b - 0.0078125, b + 0.0078125); } return t; }
static void add(std::vector<float>& r, const T& t) { for (int d : t.getShape().getDimensions()) r.push_back((float)d); for (float v : values(t)) r.push_back(v); }
template <class F> static void same(F f, const char* what) { rng_symbolic = 0; static const int N[] = {1100, 2, 3, 5}; int n = N[sym_pick("threads", 0, 3)]; omp_set_num_threads(1); RandomEngine::setSeed(11); std::vector<float> a = f(); omp_set_num_threads(n); RandomEngine::setSeed(11); std::vector<float> b = f(); sym_assert(a.size() == b.size(), "same amount of results for every number of threads"); for (size_t i = 0; i < a.size() && i < b.size(); ++i) check_eq(b[i], a[i], what); }
template <class L> static std::vector<float> passes(L& l, const T& x, const T& x2, const char* gn) { std::vector<float> r; for (int s = 0; s < 2; ++s) { T y = l.forward(s ? x2 : x); add(r, y); T g{y.getShape()}; for (int i = 0; i < prodOf(y.getShape().getDimensions()); ++i) g.getData().data()[i] = (float)((i + s) % 11 - 5) * 0.25f; add(r, l.backward(g)); Probe<float> p; l.updateWeights(p); for (auto* q : p.w) add(r, *q); for (auto& q : p.g) add(r, q); } (void)gn; return r; }
ENTRY(qr_same_fc) { T x = pat({6, 7}, "x"), y = pat({3, 7}, "x", 4); same([&] { FullyConnectedLayer<float> l(7, 5); return passes(l, x, y, "g"); }, "fully connected"); }
ENTRY(qr_same_bn) { int k = sym_pick("rank4", 0, 1); T x = k ? pat({2, 3, 2, 2}, "x") : pat({6, 4}, "x"), y = k ? pat({1, 3, 3, 2}, "x", 3) : pat({3, 4}, "x", 3); same([&] { BatchNormalizationLayer<float> l(k ? 3 : 4); std::vector<float> r = passes(l, x, y, "g"); l.setTrainingMode(false); add(r, l.forward(x)); return r; }, "batch normalisation"); }
ENTRY(qr_same_pool) { static const int C[][5] = {{2, 3, 5, 5, 2}, {1, 1, 9, 9, 3}, {3, 2, 4, 6, 2}, {1, 12, 3, 3, 2}}; const int* c = C[sym_pick("config", 0, 3)]; int st = sym_pick("stride", 1, 2), pad = sym_pick("padding", 0, 1); T x = pat({c[0], c[1], c[2], c[3]}, "x"); same([&] { MaxPooling2DLayer<float> l(c[4], st, pad); return passes(l, x, x, "g"); }, "max pooling"); }
ENTRY(qr_same_dropout) { T x = pat({9, 13}, "x"); same([&] { DropoutLayer<float> l(0.5f); return passes(l, x, x, "g"); }, "dropout with a seeded generator"); }
ENTRY(qr_same_flatten) { T x = pat({3, 2, 5, 4}, "x"); same([&] { FlattenLayer<float> l; return passes(l, x, x, "g"); }, "flatten"); }
ENTRY(qr_same_activation) { int k = sym_pick("activation", 0, 6); T x = k == 6 ? pat({6, 4}, "x") : pat({9, 14}, "x"); same([&] { switch (k) { case 0: { ActivationLayer<float> l{ReLU<float>()}; return passes(l, x, x, "g"); } case 1: { ActivationLayer<float> l{LeakyReLU<float>(0.25f)}; return passes(l, x, x, "g"); } case 2: { ActivationLayer<float> l{Sigmoid<float>()}; return passes(l, x, x, "g"); } case 3: { ActivationLayer<float> l{Tanh<float>()}; return passes(l, x, x, "g"); } case 4: { ActivationLayer<float> l{Swish<float>()}; return passes(l, x, x, "g"); } case 5: { ActivationLayer<float> l{Mish<float>()}; return passes(l, x, x, "g"); } default: { ActivationLayer<float> l{Softmax<float>()}; return passes(l, x, x, "g"); } } }, "activation"); }
ENTRY(qr_same_loss) { int k = sym_pick("loss", 0, 1); T p{Shape{25, 5}}, t{Shape{25, 5}}; for (int i = 0; i < 125; ++i) { p.getData().data()[i] = i % 9 ? (float)(i % 7 + 1) * 0.125f : sym_f32("p", 0.25, 0.75); t.getData().data()[i] = k ? (float)(i % 5 == i / 5 % 5) : sym_f32("t", 0, 1); } same([&] { std::vector<float> r; if (k) { CategoricalCrossEntropyLoss<float> l; add(r, l.compute(p, t)); add(r, l.gradient(p, t)); } else { MSELoss<float> l; add(r, l.compute(p, t)); add(r, l.gradient(p, t)); } return r; }, "loss"); }
ENTRY(qr_same_conv) { static const int C[][9] = {{2, 2, 3, 6, 5, 3, 2, 1, 1}, {1, 1, 8, 4, 4, 3, 2, 2, 0}, {4, 3, 1, 3, 3, 2, 1, 1, 1}, {1, 4, 4, 2, 9, 2, 1, 2, 1}}; const int* c = C[sym_pick("config", 0, 3)]; T x = pat({c[0], c[1], c[3], c[4]}, "x"), y = pat({1, c[1], c[3], c[4]}, "x", 2); same([&] { Conv2DLayer<float> l(c[1], c[2], c[5], c[6], c[7], c[8], 1); return passes(l, x, y, "g"); }, "convolution"); }
ENTRY(qr_same_training) { T x = pat({2, 1, 4, 4}, "x"), t = pat({2, 2}, "t"); same([&] { SmartDNN<float> m; m.addLayer(Conv2DLayer<float>(1, 2, 3, 3, 1, 0, 1)); m.addLayer(FlattenLayer<float>()); m.addLayer(FullyConnectedLayer<float>(8, 2)); SGDOptions<float> o; o.learningRate = 0.5f; o.momentum = 0.5f; m.compile(MSELoss<float>(), SGDOptimizer<float>(o)); m.train({x}, {t}, 1); std::vector<float> r; add(r, m.predict(x)); return r; }, "a training step"); }
ENTRY(qr_same_random) { same([&] { std::vector<float> r; add(r, T::rand({33, 4})); add(r, T::randn({33, 4}, 0.f, 1.f)); FullyConnectedLayer<float> l(40, 30); Probe<float> p; T x(Shape{1, 40}, 1.f); l.forward(x); l.backward(T(Shape{1, 30}, 1.f)); l.updateWeights(p); for (auto* q : p.w) add(r, *q); return r; }, "random tensors of a seeded generator"); }
ENTRY(tr_conv) { conv(sym_pick("batch", 1, 2), sym_pick("in", 1, 2), sym_pick("out", 1, 2), sym_pick("size", 2, 3), sym_pick("kernel", 1, 2), sym_pick("stride", 1, 2), sym_pick("padding", 0, 1)); }
ENTRY(tr_matmul) { int m = sym_pick("m", 4, 7), k = sym_pick("k", 1, 3), n = sym_pick("n", 4, 7); T a = symTensor<float>({m, k}, "a"), b = symTensor<float>({k, n}, "b"); checkTensor(A::matmul(a, b), {m, n}, mm(values(a), values(b), m, k, n), "matrix product"); }
ENTRY(tr_transpose) { Dims d = pickDims(4, 1, 2); int p = sym_pick("p", 0, 3), q = sym_pick("q", 0, 3); T a = symTensor<float>(d, "a"); Dims e = d; std::swap(e[p], e[q]); std::vector<float> v = values(a), w(v.size()); for (size_t f = 0; f < v.size(); ++f) { std::vector<int> ix = unflatten((int)f, d); std::swap(ix[p], ix[q]); w[flatten(ix, e)] = v[f]; } checkTensor(A::transpose(a, p, q), e, w, "transpose"); }
