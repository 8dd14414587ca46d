// @bounds the configurations of C15; inputs, weights, biases and output gradients symbolic; the larger configurations, histories and training steps of C15; beyond that, images up to 34x33, batch 34, 34 input or 66 output channels (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic (rounding and summation order are not modelled)
// @outside larger images and kernels
#include "conv.hpp"
static void check(const ConvCfg& c) {
  if (!c.fits()) return;
  auto L = mkConv(c); std::vector<float> w, b; setupConv(L, c, w, b); Dims xd{c.B, c.C, c.H, c.W}, yd{c.B, c.O, c.oh(), c.ow()}, wd{c.O, c.C, c.kh, c.kw}; auto x = symTensor<float>(xd, "x"), g = symTensor<float>(yd, "g"); auto xv = values(x), gv = values(g);
  std::vector<float> gx(xv.size()), gw(w.size()), gb(c.O); convTerms(c, [&](int i, int k, int o, int) { if (i >= 0) { gx[i] += w[k] * gv[o]; gw[k] += xv[i] * gv[o]; } }); for (size_t o = 0; o < gv.size(); ++o) gb[(o / (c.oh() * c.ow())) % c.O] += gv[o];
  L.forward(x); Tensor<float> d = L.backward(g); checkDims(d, xd, "the input gradient has the input's shape"); checkTensor(d, xd, gx, "input gradient"); checkTensor(L.getWeightGradients(), wd, gw, "weight gradient"); checkTensor(L.getBiasGradients(), {c.O, 1}, gb, "bias gradient");
  checkTensor(g, yd, gv, "the output gradient is unchanged"); checkTensor(L.getWeights(), wd, w, "backward does not change the weights"); checkTensor(L.getBiases(), {c.O, 1}, b, "backward does not change the biases");
}
ENTRY(qr_listed) { check(CONV[sym_pick("cfg", 0, NCONV - 1)]); }
ENTRY(qr_grid) { ConvCfg c{1, 1, 1, sym_pick("H", 1, 4), sym_pick("W", 3, 4), sym_pick("kh", 1, 3), sym_pick("kw", 1, 2), sym_pick("s", 1, 2), sym_pick("p", 0, 1), sym_pick("d", 1, 2)}; check(c); }
ENTRY(qr_derivative) { static const ConvCfg S[] = {{1, 2, 2, 3, 3, 2, 2, 1, 0, 1}, {2, 1, 1, 3, 3, 2, 2, 2, 1, 1}, {1, 1, 1, 4, 4, 2, 2, 1, 0, 2}}; const ConvCfg& c = S[sym_pick("cfg", 0, 2)]; auto L = mkConv(c); std::vector<float> w, b; setupConv(L, c, w, b); auto x = symTensor<float>({c.B, c.C, c.H, c.W}, "x"), g = symTensor<float>({c.B, c.O, c.oh(), c.ow()}, "g"); auto y = L.forward(x); float s = 0; for (size_t i = 0; i < y.getShape().size(); ++i) s += g[i] * y[i]; auto d = L.backward(g); auto W = L.getWeightGradients(), C = L.getBiasGradients(); for (size_t i = 0; i < d.getShape().size(); ++i) check_eq(d[i], sym_grad_f32(s, x[i], "dx"), "input gradient is the derivative"); for (size_t i = 0; i < w.size(); ++i) check_eq(W[i], sym_grad_f32(s, w[i], "dw"), "weight gradient is the derivative"); for (size_t i = 0; i < b.size(); ++i) check_eq(C[i], sym_grad_f32(s, b[i], "db"), "bias gradient is the derivative"); }
ENTRY(qr_repeat) { ConvCfg c{1, 2, 2, 3, 3, 2, 2, 1, 0, 1}, e{2, 2, 2, 2, 3, 2, 2, 1, 0, 1}; auto L = mkConv(c), M = mkConv(e); std::vector<float> w, b; setupConv(L, c, w, b); M.setWeights(L.getWeights()); M.setBiases(L.getBiases()); auto x = symTensor<float>({1, 2, 3, 3}, "x"), g = symTensor<float>({1, 2, 2, 2}, "g"), x2 = symTensor<float>({2, 2, 2, 3}, "x2"), g2 = symTensor<float>({2, 2, 1, 2}, "g2"); L.forward(x); L.backward(g); L.forward(x2); M.forward(x2); checkTensor(L.backward(g2), {2, 2, 2, 3}, values(M.backward(g2)), "backward depends only on the last forward"); checkTensor(L.getWeightGradients(), {2, 2, 2, 2}, values(M.getWeightGradients()), "weight gradients do not accumulate"); checkTensor(L.getBiasGradients(), {2, 1}, values(M.getBiasGradients()), "bias gradients do not accumulate"); checkTensor(L.backward(g2), {2, 2, 2, 3}, values(M.backward(g2)), "backward can be repeated"); checkTensor(L.getWeightGradients(), {2, 2, 2, 2}, values(M.getWeightGradients()), "weight gradients do not accumulate over repeated backward calls"); }
ENTRY(qr_update) { ConvCfg c{1, 1, 2, 2, 2, 2, 2, 1, 0, 1}; auto L = mkConv(c); std::vector<float> w, b; setupConv(L, c, w, b); Probe<float> p; sym_assert(rejected([&] { L.updateWeights(p); }) && p.calls == 0, "updating before backward is rejected"); auto x = symTensor<float>({1, 1, 2, 2}, "x"), g = symTensor<float>({1, 2, 1, 1}, "g"); L.forward(x); L.backward(g); L.updateWeights(p); sym_assert(p.calls == 1 && p.w.size() == 2 && p.g.size() == 2, "one optimizer call covers both parameters"); int wi = p.w[0]->getShape().rank() == 4 ? 0 : 1; checkTensor(p.g[wi], {2, 1, 2, 2}, values(L.getWeightGradients()), "the weights are paired with their gradient"); checkTensor(p.g[1 - wi], {2, 1}, values(L.getBiasGradients()), "the biases are paired with their gradient"); float s = sym_f32("s", -2, 2); (*p.w[wi])[5] = s; (*p.w[1 - wi])[1] = s; w[5] = s; b[1] = s; auto y = L.forward(x); for (int o = 0; o < 2; ++o) { float e = b[o]; for (int i = 0; i < 4; ++i) e += x[i] * w[o * 4 + i]; check_eq(y[o], e, "the optimizer updates the parameters the layer uses"); } }
ENTRY(qr_reject) { Conv2DLayer<float> L(1, 2, 2); auto g = symTensor<float>({1, 2, 2, 2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "backward before forward is rejected"); L.forward(symTensor<float>({1, 1, 3, 3}, "x")); static const Dims S[] = {{1, 1, 2, 2}, {2, 2, 2, 2}, {1, 2, 3, 2}, {1, 2, 2, 1}, {8}, {2, 2, 2}, {1, 2, 3, 3}}; auto h = symTensor<float>(S[sym_pick("k", 0, 6)], "h"); sym_assert(rejected([&] { L.backward(h); }), "a gradient that does not have the output's shape is rejected"); }
ENTRY(tr_grid) { ConvCfg c{sym_pick("B", 1, 2), sym_pick("C", 1, 2), sym_pick("O", 1, 2), sym_pick("H", 1, 4), sym_pick("W", 1, 4), sym_pick("kh", 1, 3), sym_pick("kw", 1, 3), sym_pick("s", 1, 2), sym_pick("p", 0, 1), sym_pick("d", 1, 2)}; check(c); }
ENTRY(qr_big) { check(CONVBIG[sym_pick("cfg", 0, NCONVBIG - 1)]); }
ENTRY(qr_histories) { convHistories(true); }
ENTRY(qr_training_history) { convTraining(true); }
ENTRY(qr_sweep) { int which = sym_pick("which", 0, 7), n = sym_pick("n", 1, 9); ConvCfg c{1, 1, 1, 4, 4, 2, 2, 1, 0, 1}; if (which == 0) c.B = n; else if (which == 1) c.C = n; else if (which == 2) c.O = n; else if (which == 3) { c.H = n; if (n < 2) return; } else if (which == 4) { c.W = n; if (n < 2) return; } else if (which == 5) c.s = n; else if (which == 6) { if (n > 4) return; c.p = n; } else { c.d = n; } check(c); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { check(CONVHUGE[sym_pick("cfg", 0, NCONVHUGE - 1)]); }
// every parameter of the layer varies together
ENTRY(qr_mixed) { check(convMix(sym_pick("n", 0, 299))); }
ENTRY(tr_mixed) { check(convMix(sym_pick("n", 300, 1499))); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e4; static const ConvCfg S[] = {{1, 1, 1, 1, 1, 1, 1, 1, 0, 1}, {1, 2, 2, 2, 2, 2, 2, 1, 0, 1}, {2, 1, 1, 2, 2, 1, 1, 1, 0, 1}, {1, 1, 1, 3, 3, 2, 2, 2, 1, 1}, {1, 1, 2, 3, 1, 2, 1, 1, 0, 2}}; check(S[sym_pick("cfg", 0, 4)]); }
// arbitrary IEEE values through a 1x1 kernel
ENTRY(qf_ieee) { Conv2DLayer<float> L(1, 1, 1, 1, 1, 0, 1); auto W = anyTensor<float>({1, 1, 1, 1}, "w"), x = anyTensor<float>({1, 1, 1, 1}, "x"), g = anyTensor<float>({1, 1, 1, 1}, "g"); L.setWeights(W); L.forward(x); auto d = L.backward(g); fpSame(d[0], W[0] * g[0], "input gradient"); fpSame(L.getWeightGradients()[0], x[0] * g[0], "weight gradient"); fpSame(L.getBiasGradients()[0], g[0], "bias gradient"); }
