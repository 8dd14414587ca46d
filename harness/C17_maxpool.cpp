// @bounds every (H,W,pool,stride,padding) of a 1x1-channel layer with pool 1..3, stride 1..3, padding < pool, and listed multi-batch/channel configurations up to 9x9, with symbolic data whose ordering is fixed by three permutations; windows of up to 6 fully unordered symbolic elements; constructor arguments symbolic 8-bit; larger configurations up to 17x17, batch 9, 9 channels; 300 mixed configurations (batch, channels 1..3, H,W 1..7, pool 1..4, stride 1..4, padding below the pool size); ties; histories of 3 operations on one layer; beyond that, images up to 40x40, batch or channels 34 (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic; finite inputs
// @outside NaN and infinite inputs; larger images
#include "repo.hpp"
struct PoolCfg { int B, C, H, W, k, s, p; int oh() const { return (H + 2 * p - k) / s + 1; } int ow() const { return (W + 2 * p - k) / s + 1; } bool fits() const { return H + 2 * p >= k && W + 2 * p >= k; } };
// elements base(perm, i) + symbolic offset in [-0.25, 0.25]: distinct values, known order, every value symbolic; mostly negative so that padding with zeros would show
static Tensor<float> ordered(const Dims& d, int perm) { Tensor<float> t{Shape(d)}; int n = prodOf(d); for (int i = 0; i < n; ++i) { int r = perm == 0 ? i : perm == 1 ? n - 1 - i : (i * 7 + 3) % 23 + 23 * (i % 3); t[i] = (float)(r - (perm == 2 ? 60 : n)) + sym_f32("x", -0.25, 0.25) + (perm == 2 ? (float)i * 0.001f : 0.f); } return t; }
template <class F> void windows(const PoolCfg& c, F f) { int oh = c.oh(), ow = c.ow(); for (int b = 0; b < c.B * c.C; ++b) for (int y = 0; y < oh; ++y) for (int x = 0; x < ow; ++x) { std::vector<int> w; for (int u = 0; u < c.k; ++u) for (int v = 0; v < c.k; ++v) { int iy = y * c.s + u - c.p, ix = x * c.s + v - c.p; if (iy >= 0 && iy < c.H && ix >= 0 && ix < c.W) w.push_back((b * c.H + iy) * c.W + ix); } f(w, (b * oh + y) * ow + x); } }
static void check(const PoolCfg& c, int perm, int back) {
  MaxPooling2DLayer<float> L(c.k, c.s, c.p); Dims xd{c.B, c.C, c.H, c.W}; auto x = ordered(xd, perm); auto v = values(x);
  if (!c.fits()) { sym_assert(rejected([&] { L.forward(x); }), "a window larger than the padded input is rejected"); return; }
  Dims yd{c.B, c.C, c.oh(), c.ow()}; std::vector<float> y(prodOf(yd)); std::vector<int> arg(y.size()); windows(c, [&](const std::vector<int>& w, int o) { if (w.empty()) sym_fail("empty window"); int m = w[0]; for (int i : w) if (v[i] > v[m]) m = i; y[o] = v[m]; arg[o] = m; });
  auto r = L.forward(x); checkDims(r, yd, "output shape"); checkTensor(r, yd, y, "each output is the maximum of its window"); checkTensor(x, xd, v, "input unchanged");
  if (back) { auto g = symTensor<float>(yd, "g"); auto gv = values(g); std::vector<float> gx(v.size(), 0.f); for (size_t o = 0; o < y.size(); ++o) gx[arg[o]] += gv[o]; auto d = L.backward(g); checkDims(d, xd, "the input gradient has the input's shape"); checkTensor(d, xd, gx, "the gradient goes to each window's maximum"); checkTensor(g, yd, gv, "output gradient unchanged"); }
}
ENTRY(qr_grid) { PoolCfg c{1, 1, sym_pick("H", 1, 4), sym_pick("W", 2, 5), sym_pick("k", 1, 3), sym_pick("s", 1, 3), 0}; c.p = sym_pick("p", 0, c.k - 1); check(c, sym_pick("perm", 0, 2), 1); }
ENTRY(qr_listed) { static const PoolCfg S[] = {{2, 3, 4, 4, 2, 2, 0}, {3, 2, 5, 3, 2, 1, 1}, {1, 2, 9, 9, 3, 3, 0}, {2, 2, 7, 5, 3, 2, 1}, {1, 1, 6, 6, 5, 1, 2}, {2, 1, 1, 9, 1, 4, 0}, {1, 3, 5, 5, 2, 3, 0}, {2, 2, 3, 3, 3, 1, 2}, {1, 2, 4, 6, 2, 2, 1}}; check(S[sym_pick("cfg", 0, 8)], sym_pick("perm", 0, 2), 1); }
// no ordering assumed: the solver ranges over every ordering, including ties
static void unordered(const PoolCfg& c) { MaxPooling2DLayer<float> L(c.k, c.s, c.p); Dims xd{c.B, c.C, c.H, c.W}, yd{c.B, c.C, c.oh(), c.ow()}; auto x = symTensor<float>(xd, "x", -9, 9); auto v = values(x); auto r = L.forward(x); checkDims(r, yd, "output shape"); windows(c, [&](const std::vector<int>& w, int o) { bool any = false, all = true; for (int i : w) { any = any | (r[o] == v[i]); all = all & (r[o] >= v[i]); } sym_assert(any, "each output is an element of its window"); sym_assert(all, "each output is at least every element of its window"); }); auto g = symTensor<float>(yd, "g"); auto d = L.backward(g); float sg = 0, sd = 0; for (int i = 0; i < prodOf(yd); ++i) sg += g[i]; for (int i = 0; i < prodOf(xd); ++i) sd += d[i]; check_eq(sd, sg, "the gradient is routed without loss"); if (prodOf(yd) == 1) for (int i = 0; i < prodOf(xd); ++i) { if (v[i] < r[0]) check_eq(d[i], 0.f, "elements below the maximum get no gradient"); } }
ENTRY(qr_unordered_1) { unordered({1, 1, 2, 2, 2, 1, 0}); }
ENTRY(qr_unordered_2) { static const PoolCfg S[] = {{1, 1, 2, 3, 2, 1, 0}, {1, 1, 1, 4, 3, 1, 1}, {2, 1, 2, 1, 2, 1, 1}, {1, 1, 3, 1, 2, 2, 1}}; unordered(S[sym_pick("cfg", 0, 3)]); }
ENTRY(qr_ctors) { int k = sym_pick("k", 1, 3), s = sym_pick("s", 1, 3); auto x = ordered({1, 1, 5, 4}, 2), y = MaxPooling2DLayer<float>(k, s, 0).forward(x), z = MaxPooling2DLayer<float>(k, s).forward(x); checkTensor(z, y.getShape().getDimensions(), values(y), "padding defaults to 0"); auto w = MaxPooling2DLayer<float>(k, k, 0).forward(x), u = MaxPooling2DLayer<float>(k).forward(x); checkTensor(u, w.getShape().getDimensions(), values(w), "stride defaults to the pool size"); }
ENTRY(qr_ctor_reject) { int k = sym_i32("k", -128, 127), s = sym_i32("s", -128, 127), p = sym_i32("p", -128, 127); bool bad = k <= 0 || s <= 0 || p < 0 || p >= k; sym_assert(rejected([&] { MaxPooling2DLayer<float> L(k, s, p); }) == bad, "unusable pool sizes, strides and paddings are rejected"); }
ENTRY(qr_reject) { MaxPooling2DLayer<float> L(2, 1, 0); int k = sym_pick("k", 0, 8); if (k == 0) { auto g = symTensor<float>({1, 1, 1, 1}, "g"); sym_assert(rejected([&] { L.backward(g); }), "backward before forward is rejected"); } else if (k < 4) { static const Dims S[] = {{3, 3}, {1, 3, 3}, {1, 1, 3, 3, 1}}; auto x = symTensor<float>(S[k - 1], "x"); sym_assert(rejected([&] { L.forward(x); }), "an input that is not rank 4 is rejected"); } else { static const Dims S[] = {{1, 1, 3, 3}, {1, 1, 2, 1}, {2, 1, 2, 2}, {1, 2, 2, 2}, {4}}; L.forward(ordered({1, 1, 3, 3}, 0)); auto g = symTensor<float>(S[k - 4], "g"); sym_assert(rejected([&] { L.backward(g); }), "a gradient that does not have the output's shape is rejected"); } }
ENTRY(qr_repeat) { MaxPooling2DLayer<float> L(2, 1, 0), M(2, 1, 0); auto x = ordered({1, 1, 3, 3}, 2), z = ordered({2, 1, 2, 3}, 1); auto g = symTensor<float>({1, 1, 2, 2}, "g"), h = symTensor<float>({2, 1, 1, 2}, "h"); L.forward(x); L.backward(g); checkTensor(L.forward(z), {2, 1, 1, 2}, values(M.forward(z)), "forward does not depend on earlier calls"); checkTensor(L.backward(h), {2, 1, 2, 3}, values(M.backward(h)), "backward depends only on the last forward"); checkTensor(L.backward(h), {2, 1, 2, 3}, values(M.backward(h)), "backward can be repeated"); }
ENTRY(tr_grid) { PoolCfg c{sym_pick("B", 1, 2), sym_pick("C", 1, 2), sym_pick("H", 1, 5), sym_pick("W", 1, 5), sym_pick("k", 1, 4), sym_pick("s", 1, 3), 0}; c.p = sym_pick("p", 0, c.k - 1); check(c, sym_pick("perm", 0, 2), 1); }
ENTRY(qr_big) { static const PoolCfg S[] = {{5, 2, 4, 4, 2, 2, 0}, {2, 5, 4, 4, 2, 2, 0}, {9, 1, 2, 2, 2, 1, 0}, {1, 9, 2, 3, 2, 1, 1}, {1, 1, 13, 13, 4, 3, 1}, {1, 1, 16, 5, 2, 2, 0}, {1, 1, 5, 16, 2, 2, 0}, {2, 3, 8, 8, 3, 2, 1}, {1, 2, 17, 3, 3, 5, 1}, {1, 1, 7, 7, 7, 1, 0}, {1, 1, 6, 6, 6, 3, 5}, {2, 2, 9, 5, 5, 4, 2}, {1, 1, 12, 12, 5, 5, 4}, {1, 1, 1, 33, 3, 2, 1}, {1, 1, 33, 1, 4, 7, 2}}; check(S[sym_pick("cfg", 0, 14)], sym_pick("perm", 0, 2), 1); }
ENTRY(qr_sweep) { int which = sym_pick("which", 0, 4), n = sym_pick("n", 1, 9); PoolCfg c{1, 1, 4, 4, 2, 2, 0}; if (which == 0) c.B = n; else if (which == 1) c.C = n; else if (which == 2) c.H = n; else if (which == 3) c.W = n; else c.s = n; check(c, 2, 1); }
// equal elements: the gradient of a window goes to positions holding its maximum, whole, and to one window's elements only
ENTRY(qr_ties) { static const PoolCfg S[] = {{1, 1, 2, 2, 2, 2, 0}, {1, 1, 3, 3, 2, 1, 0}, {2, 1, 2, 3, 2, 1, 1}, {1, 2, 4, 4, 2, 2, 0}, {1, 1, 3, 3, 3, 2, 1}}; PoolCfg c = S[sym_pick("cfg", 0, 4)]; int pat = sym_pick("pattern", 0, 3); Dims xd{c.B, c.C, c.H, c.W}, yd{c.B, c.C, c.oh(), c.ow()}; float a = sym_f32("a", -9, -8), b = sym_f32("b", -7, -6); Tensor<float> x{Shape(xd)}; std::vector<int> cls(prodOf(xd)); for (int i = 0; i < prodOf(xd); ++i) { cls[i] = pat == 0 ? 0 : pat == 1 ? i % 2 : pat == 2 ? (i / c.W) % 2 : (i % 3 == 0); x[i] = cls[i] ? b : a; } MaxPooling2DLayer<float> L(c.k, c.s, c.p); auto y = L.forward(x); std::vector<int> top(prodOf(yd)); windows(c, [&](const std::vector<int>& w, int o) { int m = 0; for (int i : w) m |= cls[i]; top[o] = m; check_eq(y[o], m ? b : a, "maximum among equal elements"); }); for (int o = 0; o < prodOf(yd); ++o) { Tensor<float> g{Shape(yd)}; float s = sym_f32("g", 1, 2); g[o] = s; auto d = L.backward(g); float sum = 0; std::vector<int> inw(prodOf(xd), 0); windows(c, [&](const std::vector<int>& w, int q) { if (q == o) for (int i : w) inw[i] = 1; }); for (int i = 0; i < prodOf(xd); ++i) { sum += d[i]; if (!inw[i] || cls[i] != top[o]) check_eq(d[i], 0.f, "no gradient outside the window's maxima"); } check_eq(sum, s, "the gradient of a window is passed on whole"); } }
struct PoolSteps { PoolCfg c{1, 1, 3, 3, 2, 1, 0}; MaxPooling2DLayer<float> L; std::vector<float> v; bool fwd = false; PoolSteps(int s, int p) : c{1, 1, 3, 3, 2, s, p}, L(2, s, p) {}
  void step(int op) { switch (op) { case 0: case 1: case 2: { c.B = op == 1 ? 2 : 1; c.C = op == 2 ? 2 : 1; c.H = op == 2 ? 2 : 3; c.W = op == 0 ? 3 : op == 1 ? 2 : 4; auto x = ordered({c.B, c.C, c.H, c.W}, op); v = values(x); Dims yd{c.B, c.C, c.oh(), c.ow()}; std::vector<float> y(prodOf(yd)); windows(c, [&](const std::vector<int>& w, int o) { int m = w[0]; for (int i : w) if (v[i] > v[m]) m = i; y[o] = v[m]; }); checkTensor(L.forward(x), yd, y, "output of this input"); x[0] = 99; fwd = true; break; }
    case 3: { if (!fwd) { sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({1, 1, 2, 2}), 1.f)); }), "backward needs a forward pass"); break; } Dims yd{c.B, c.C, c.oh(), c.ow()}; auto g = symTensor<float>(yd, "g"); std::vector<float> gx(v.size(), 0.f); windows(c, [&](const std::vector<int>& w, int o) { int m = w[0]; for (int i : w) if (v[i] > v[m]) m = i; gx[m] += g[o]; }); checkTensor(L.backward(g), {c.B, c.C, c.H, c.W}, gx, "gradient of the last input"); break; }
    case 4: sym_assert(rejected([&] { L.forward(Tensor<float>(Shape({1, 3, 3}), 1.f)); }), "a wrong rank is refused"); fwd ? step(1) : (void)0; break;
    case 5: if (fwd) sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({7, 2, 2, 2}), 1.f)); }), "a wrong gradient is refused"); break;
    case 6: { Probe<float> p; L.updateWeights(p); sym_assert(p.w.empty(), "pooling has no parameters"); break; }
    default: L.setTrainingMode(op == 7); } } };
ENTRY(qr_histories) { PoolSteps s(1, sym_pick("padding", 0, 1)); if (sym_pick("start", 0, 1)) { s.step(0); s.step(3); } for (int i = 0; i < 2; ++i) s.step(sym_pick("op", 0, 8)); s.step(sym_pick("last", 0, 2)); s.step(3); s.step(3); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const PoolCfg S[] = {{1, 1, 40, 40, 2, 2, 0}, {34, 1, 4, 4, 2, 2, 0}, {1, 34, 4, 3, 2, 1, 0}, {1, 1, 66, 3, 3, 2, 1}, {1, 1, 20, 20, 9, 1, 0}, {2, 2, 28, 28, 2, 2, 0}, {1, 1, 20, 20, 11, 9, 5}}; check(S[sym_pick("cfg", 0, 6)], sym_pick("perm", 0, 1), 1); }
// every parameter of the layer varies together
ENTRY(qr_mixed) { uint32_t r = 2654435761u * (1 + sym_pick("n", 0, 299)); auto pick = [&](int lo, int hi) { r = r * 1664525u + 1013904223u; return lo + int((r >> 16) % uint32_t(hi - lo + 1)); }; PoolCfg c{pick(1, 3), pick(1, 3), pick(1, 7), pick(1, 7), pick(1, 4), pick(1, 4), 0}; c.p = pick(0, c.k - 1); check(c, sym_pick("perm", 0, 2), 1); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e5; static const PoolCfg S[] = {{1, 1, 2, 2, 2, 1, 0}, {1, 1, 1, 3, 2, 1, 1}}; unordered(S[sym_pick("cfg", 0, 1)]); }
