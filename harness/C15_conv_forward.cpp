// @bounds 34 listed configurations (batch 1..3, 1..3 input and output channels, inputs up to 9x17, kernels up to 5 wide incl. non-square, stride 1..4, padding 0..2, dilation 1..3) and every (H,W,kernel,stride,padding,dilation) of a 1-channel layer with H,W 1..4, kernel 1..3, stride 1..2, padding 0..1, dilation 1..2; data, weights and biases symbolic; constructor arguments symbolic 8-bit for the rejection entry; 24 larger configurations (up to 17x17 inputs, 16 channels, batch 9, kernels 7 wide, dilation 3); 300 (thorough: 1500) mixed configurations with batch, channels, kernel, stride, dilation 1..3, H,W 1..6 and padding 0..2 varying together; histories of 2 operations (after none or one training pass) and 3 training steps on one layer; beyond that, images up to 34x33, batch 34, 34 input or 66 output channels (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic (rounding and summation order are not modelled)
// @outside larger images and kernels; kernel sizes <= 0 (rejected by Shape)
#include "conv.hpp"
static void check(const ConvCfg& c) {
  auto L = mkConv(c); std::vector<float> w, b; setupConv(L, c, w, b); Dims xd{c.B, c.C, c.H, c.W}; auto x = symTensor<float>(xd, "x"); auto xv = values(x);
  if (!c.fits()) { sym_assert(rejected([&] { L.forward(x); }), "a kernel that does not fit in the padded input is rejected"); return; }
  std::vector<float> y(c.B * c.O * c.oh() * c.ow()); convTerms(c, [&](int i, int k, int o, int) { if (i >= 0) y[o] += xv[i] * w[k]; }); for (size_t o = 0; o < y.size(); ++o) y[o] += b[(o / (c.oh() * c.ow())) % c.O];
  Tensor<float> r = L.forward(x); Dims yd{c.B, c.O, c.oh(), c.ow()}; checkDims(r, yd, "output shape"); checkTensor(r, yd, y, "convolution output"); checkTensor(x, xd, xv, "input unchanged"); checkTensor(L.getWeights(), {c.O, c.C, c.kh, c.kw}, w, "weights unchanged");
}
ENTRY(qr_listed) { check(CONV[sym_pick("cfg", 0, NCONV - 1)]); }
ENTRY(qr_grid) { ConvCfg c{1, 1, 1, sym_pick("H", 1, 4), sym_pick("W", 3, 4), sym_pick("kh", 1, 3), sym_pick("kw", 1, 2), sym_pick("s", 1, 2), sym_pick("p", 0, 1), sym_pick("d", 1, 2)}; check(c); }
ENTRY(qr_square_ctor) { int k = sym_pick("k", 1, 3), s = sym_pick("s", 1, 2), p = sym_pick("p", 0, 1), d = sym_pick("d", 1, 2); ConvCfg c{1, 1, 2, 5, 4, k, k, s, p, d}; if (!c.fits()) return; Conv2DLayer<float> L(1, 2, k, k, s, p, d), M(1, 2, k); std::vector<float> w, b; setupConv(L, c, w, b); auto x = symTensor<float>({1, 1, 5, 4}, "x"); std::vector<float> y(2 * c.oh() * c.ow()); convTerms(c, [&](int i, int q, int o, int) { if (i >= 0) y[o] += x[i] * w[q]; }); for (size_t o = 0; o < y.size(); ++o) y[o] += b[o / (c.oh() * c.ow())]; checkTensor(L.forward(x), {1, 2, c.oh(), c.ow()}, y, "output"); if (s == 1 && p == 0 && d == 1) { M.setWeights(L.getWeights()); M.setBiases(L.getBiases()); checkTensor(M.forward(x), {1, 2, c.oh(), c.ow()}, y, "default stride 1, padding 0, dilation 1"); } }
ENTRY(qr_repeat) { const ConvCfg& c = CONV[5]; auto L = mkConv(c); std::vector<float> w, b; setupConv(L, c, w, b); auto x = symTensor<float>({2, 2, 3, 4}, "x"), z = symTensor<float>({1, 2, 4, 3}, "z"); auto y = values(L.forward(x)); L.forward(z); checkTensor(L.forward(x), {2, 2, 2, 3}, y, "forward does not depend on earlier calls"); }
ENTRY(qr_linear) { ConvCfg c{1, 2, 1, 3, 3, 2, 2, 1, 1, 1}; auto L = mkConv(c); std::vector<float> w, b; setupConv(L, c, w, b); L.setBiases(Tensor<float>(Shape({1, 1}), 0.f)); auto x = symTensor<float>({1, 2, 3, 3}, "x"), z = symTensor<float>({1, 2, 3, 3}, "z"); float s = sym_f32("s", -2, 2); auto y = L.forward(x) + L.forward(z) * s; checkTensor(L.forward(x + z * s), {1, 1, 4, 4}, values(y), "convolution is linear in its input"); }
ENTRY(qr_ctor_reject) { int s = sym_i32("stride", -128, 127), p = sym_i32("padding", -128, 127), d = sym_i32("dilation", -128, 127); bool bad = s <= 0 || p < 0 || d <= 0; sym_assert(rejected([&] { Conv2DLayer<float> L(1, 1, 1, 1, s, p, d); }) == bad, "non-positive stride or dilation and negative padding are rejected"); }
ENTRY(qr_input_reject) { Conv2DLayer<float> L(2, 1, 2); static const Dims S[] = {{2, 3, 3}, {1, 2, 3, 3, 1}, {1, 1, 3, 3}, {1, 3, 3, 3}, {1, 2, 1, 3}, {1, 2, 3, 1}, {18}}; auto x = symTensor<float>(S[sym_pick("k", 0, 6)], "x"); sym_assert(rejected([&] { L.forward(x); }), "an input of the wrong rank, channel count or size is rejected"); }
ENTRY(qr_init) { rng_symbolic = 1; Conv2DLayer<float> L(1, 2, 1, 2, 1, 0, 1); checkDims(L.getWeights(), {2, 1, 1, 2}, "weights are (out, in, kh, kw)"); checkTensor(L.getBiases(), {2, 1}, {0, 0}, "biases start at zero"); sym_assert(rejected([&] { Conv2DLayer<float> M(0, 1, 2); }) && rejected([&] { Conv2DLayer<float> M(1, -1, 2); }) && rejected([&] { Conv2DLayer<float> M(1, 1, 0); }), "layer sizes must be positive"); }
ENTRY(tr_grid) { ConvCfg c{sym_pick("B", 1, 2), sym_pick("C", 1, 2), sym_pick("O", 1, 2), sym_pick("H", 1, 4), sym_pick("W", 1, 4), sym_pick("kh", 1, 3), sym_pick("kw", 1, 3), sym_pick("s", 1, 2), sym_pick("p", 0, 1), sym_pick("d", 1, 2)}; check(c); }
ENTRY(qr_big) { check(CONVBIG[sym_pick("cfg", 0, NCONVBIG - 1)]); }
ENTRY(qr_histories) { convHistories(false); }
ENTRY(qr_training_history) { convTraining(false); }
ENTRY(qr_sweep) { int which = sym_pick("which", 0, 7), n = sym_pick("n", 1, 9); ConvCfg c{1, 1, 1, 4, 4, 2, 2, 1, 0, 1}; if (which == 0) c.B = n; else if (which == 1) c.C = n; else if (which == 2) c.O = n; else if (which == 3) { c.H = n; if (n < 2) return; } else if (which == 4) { c.W = n; if (n < 2) return; } else if (which == 5) c.s = n; else if (which == 6) { if (n > 4) return; c.p = n; } else { c.d = n; } check(c); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { check(CONVHUGE[sym_pick("cfg", 0, NCONVHUGE - 1)]); }
// every parameter of the layer varies together
ENTRY(qr_mixed) { check(convMix(sym_pick("n", 0, 299))); }
ENTRY(tr_mixed) { check(convMix(sym_pick("n", 300, 1499))); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e4; static const ConvCfg S[] = {{1, 1, 1, 1, 1, 1, 1, 1, 0, 1}, {1, 2, 2, 2, 2, 2, 2, 1, 0, 1}, {2, 1, 1, 2, 2, 1, 1, 1, 0, 1}, {1, 1, 1, 3, 3, 2, 2, 2, 1, 1}, {1, 1, 2, 3, 1, 2, 1, 1, 0, 2}}; check(S[sym_pick("cfg", 0, 4)]); }
// arbitrary IEEE values through a 1x1 kernel
ENTRY(qf_ieee) { Conv2DLayer<float> L(1, 1, 1, 1, 1, 0, 1); auto W = anyTensor<float>({1, 1, 1, 1}, "w"), B = anyTensor<float>({1, 1}, "b"), x = anyTensor<float>({1, 1, 1, 1}, "x"); L.setWeights(W); L.setBiases(B); fpSame(L.forward(x)[0], x[0] * W[0] + B[0], "output of arbitrary floats"); }
