#pragma once
#include "repo.hpp"
struct ConvCfg { int B, C, O, H, W, kh, kw, s, p, d; int oh() const { return (H + 2 * p - d * (kh - 1) - 1) / s + 1; } int ow() const { return (W + 2 * p - d * (kw - 1) - 1) / s + 1; } bool fits() const { return H + 2 * p >= d * (kh - 1) + 1 && W + 2 * p >= d * (kw - 1) + 1; } };
static void setupConv(Conv2DLayer<float>& L, const ConvCfg& c, std::vector<float>& w, std::vector<float>& b) { auto W = symTensor<float>({c.O, c.C, c.kh, c.kw}, "w"), B = symTensor<float>({c.O, 1}, "b"); w = values(W); b = values(B); L.setWeights(W); L.setBiases(B); }
// calls f(input index or -1, weight index, output index, out-channel) for every term of the convolution
template <class F> void convTerms(const ConvCfg& c, F f) { int oh = c.oh(), ow = c.ow(); for (int b = 0; b < c.B; ++b) for (int o = 0; o < c.O; ++o) for (int y = 0; y < oh; ++y) for (int x = 0; x < ow; ++x) for (int i = 0; i < c.C; ++i) for (int u = 0; u < c.kh; ++u) for (int v = 0; v < c.kw; ++v) { int iy = y * c.s + u * c.d - c.p, ix = x * c.s + v * c.d - c.p; int in = (iy < 0 || iy >= c.H || ix < 0 || ix >= c.W) ? -1 : ((b * c.C + i) * c.H + iy) * c.W + ix; f(in, ((o * c.C + i) * c.kh + u) * c.kw + v, ((b * c.O + o) * oh + y) * ow + x, o); } }
static const ConvCfg CONV[] = {   // B C O H W kh kw s p d
  {1, 1, 1, 3, 3, 2, 2, 1, 0, 1}, {2, 1, 1, 3, 3, 2, 2, 1, 0, 1}, {1, 2, 1, 3, 3, 2, 2, 1, 0, 1}, {1, 1, 2, 3, 3, 2, 2, 1, 0, 1}, {1, 2, 3, 3, 3, 2, 2, 1, 0, 1}, {2, 2, 2, 3, 4, 2, 2, 1, 0, 1},
  {1, 1, 1, 4, 4, 2, 2, 2, 0, 1}, {1, 1, 1, 5, 5, 2, 2, 3, 0, 1}, {1, 1, 1, 3, 3, 3, 3, 1, 1, 1}, {1, 2, 2, 3, 3, 3, 3, 1, 1, 1}, {1, 1, 1, 2, 2, 3, 3, 1, 2, 1}, {1, 1, 1, 5, 5, 2, 2, 1, 0, 2}, {1, 1, 2, 5, 5, 3, 3, 1, 0, 2},
  {1, 1, 1, 5, 5, 3, 3, 2, 1, 1}, {1, 1, 1, 5, 5, 2, 2, 2, 1, 2}, {2, 2, 2, 4, 5, 2, 3, 2, 1, 1}, {1, 1, 1, 2, 5, 1, 3, 1, 0, 1}, {1, 1, 1, 5, 2, 3, 1, 1, 0, 1}, {1, 1, 1, 4, 6, 2, 3, 1, 0, 2}, {1, 2, 1, 6, 4, 3, 2, 2, 1, 2},
  {1, 1, 1, 1, 1, 1, 1, 1, 0, 1}, {2, 3, 2, 1, 1, 1, 1, 1, 0, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, 1, 1, 3, 3, 1, 1, 2, 1, 1}, {1, 1, 1, 7, 3, 3, 3, 2, 0, 1}, {1, 1, 1, 3, 7, 3, 3, 2, 0, 1}, {3, 1, 1, 2, 2, 2, 2, 1, 1, 1}, {1, 1, 1, 9, 1, 3, 1, 3, 0, 3}, {1, 1, 1, 1, 17, 1, 5, 4, 2, 1}, {1, 3, 3, 2, 2, 2, 2, 1, 0, 1}, {1, 1, 1, 4, 4, 3, 3, 1, 0, 1}, {1, 1, 1, 4, 4, 2, 2, 2, 1, 1}, {2, 1, 2, 4, 3, 3, 2, 1, 1, 1}, {1, 1, 1, 6, 6, 2, 2, 2, 0, 3}};
static const int NCONV = sizeof(CONV) / sizeof(CONV[0]);
static Conv2DLayer<float> mkConv(const ConvCfg& c) { return Conv2DLayer<float>(c.C, c.O, c.kh, c.kw, c.s, c.p, c.d); }
static const ConvCfg CONVBIG[] = {   // B C O H W kh kw s p d
  {1, 1, 1, 9, 9, 5, 5, 2, 2, 1}, {2, 3, 4, 5, 5, 3, 3, 1, 1, 1}, {5, 1, 2, 3, 3, 2, 2, 1, 0, 1}, {1, 5, 1, 3, 3, 2, 2, 1, 0, 1}, {1, 1, 9, 2, 2, 2, 2, 1, 0, 1}, {9, 2, 1, 2, 2, 1, 1, 1, 0, 1}, {1, 1, 1, 8, 8, 3, 3, 3, 1, 1}, {1, 2, 2, 7, 9, 3, 5, 3, 2, 1}, {1, 1, 1, 11, 11, 3, 3, 2, 2, 3}, {1, 1, 1, 12, 3, 7, 1, 2, 3, 1}, {1, 1, 1, 3, 12, 1, 7, 4, 3, 1}, {2, 2, 3, 4, 4, 4, 4, 1, 0, 1}, {1, 8, 2, 2, 3, 2, 2, 1, 0, 1}, {1, 1, 1, 17, 17, 3, 3, 4, 0, 2}, {2, 1, 1, 6, 5, 2, 3, 5, 1, 1}, {1, 1, 2, 4, 4, 1, 1, 3, 0, 1}, {1, 2, 1, 5, 5, 3, 3, 2, 3, 1}, {1, 1, 1, 3, 3, 3, 3, 1, 4, 1}, {3, 2, 2, 6, 3, 3, 2, 2, 1, 1}, {1, 1, 1, 10, 10, 4, 4, 3, 0, 3}, {4, 3, 2, 3, 3, 3, 3, 1, 0, 1}, {1, 16, 1, 1, 2, 1, 1, 1, 0, 1}, {1, 1, 16, 2, 1, 1, 1, 1, 0, 1}, {17, 1, 1, 1, 2, 1, 2, 1, 0, 1}};
static const ConvCfg CONVHUGE[] = {{1, 1, 1, 28, 28, 3, 3, 1, 1, 1}, {1, 3, 8, 10, 10, 3, 3, 1, 1, 1}, {34, 1, 1, 3, 3, 2, 2, 1, 0, 1}, {1, 1, 2, 34, 33, 5, 5, 2, 2, 1}, {1, 34, 2, 3, 3, 2, 2, 1, 0, 1}, {1, 1, 66, 3, 3, 2, 2, 1, 0, 1}, {1, 1, 1, 12, 12, 9, 9, 1, 0, 1}, {1, 1, 1, 66, 3, 3, 3, 1, 1, 1}, {1, 1, 1, 20, 20, 3, 3, 1, 0, 7}, {1, 1, 1, 30, 30, 3, 3, 11, 0, 1}};
static const int NCONVHUGE = sizeof(CONVHUGE) / sizeof(CONVHUGE[0]);
static const int NCONVBIG = sizeof(CONVBIG) / sizeof(CONVBIG[0]);
// Histories of one convolution layer (1 input channel, 2 output channels, 2x2 kernel), with what it should do kept beside it.
struct ConvSteps { ConvCfg c{1, 1, 2, 3, 3, 2, 2, 1, 0, 1}; Conv2DLayer<float> L; std::vector<float> w, b, x; bool fwd = false, bwd = false, grads; ConvSteps(int s, int p, bool g) : c{1, 1, 2, 3, 3, 2, 2, s, p, 1}, L(1, 2, 2, 2, s, p, 1), grads(g) { setupConv(L, c, w, b); }
  void step(int op) { switch (op) { case 0: case 1: case 2: { c.B = op == 1 ? 2 : 1; c.H = op == 2 ? 2 : 3; c.W = op == 0 ? 3 : op == 1 ? 2 : 4; Dims xd{c.B, 1, c.H, c.W}; auto t = symTensor<float>(xd, "x"); x = values(t); std::vector<float> y(c.B * 2 * c.oh() * c.ow()); convTerms(c, [&](int i, int k, int o, int) { if (i >= 0) y[o] += x[i] * w[k]; }); for (size_t o = 0; o < y.size(); ++o) y[o] += b[(o / (c.oh() * c.ow())) % 2]; auto r = L.forward(t); if (!grads) checkTensor(r, {c.B, 2, c.oh(), c.ow()}, y, "output for the current parameters"); t[0] = 99; fwd = true; break; }
    case 3: { if (!fwd) { sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({1, 2, 2, 2}), 1.f)); }), "backward needs a forward pass"); break; } Dims xd{c.B, 1, c.H, c.W}; auto g = symTensor<float>({c.B, 2, c.oh(), c.ow()}, "g"); auto gv = values(g); std::vector<float> gx(x.size()), gw(w.size()), gb(2); convTerms(c, [&](int i, int k, int o, int) { if (i >= 0) { gx[i] += w[k] * gv[o]; gw[k] += x[i] * gv[o]; } }); for (size_t o = 0; o < gv.size(); ++o) gb[(o / (c.oh() * c.ow())) % 2] += gv[o]; auto d = L.backward(g); if (grads) { checkTensor(d, xd, gx, "input gradient for the current parameters"); checkTensor(L.getWeightGradients(), {2, 1, 2, 2}, gw, "weight gradient of the last input"); checkTensor(L.getBiasGradients(), {2, 1}, gb, "bias gradient"); } bwd = true; break; }
    case 4: { Probe<float> p; bool r = rejected([&] { L.updateWeights(p); }); sym_assert(r == !bwd, "updating needs gradients"); if (r) break; for (auto* t : p.w) for (int i = 0; i < prodOf(t->getShape().getDimensions()); ++i) (*t)[i] += 1; for (auto& e : w) e += 1; for (auto& e : b) e += 1; break; }
    case 5: setupConv(L, c, w, b); break;
    case 6: sym_assert(rejected([&] { L.forward(Tensor<float>(Shape({1, 3, 3, 3}), 1.f)); }), "a wrong channel count is refused"); fwd ? step(1) : (void)0; break;
    case 7: if (fwd) sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({7, 2, 2, 2}), 1.f)); }), "a wrong gradient is refused"); break;
    default: L.setTrainingMode(op == 8); } } };
inline void convHistories(bool grads) { ConvSteps s(1, sym_pick("padding", 0, 1), grads); if (sym_pick("start", 0, 1)) { s.step(0); s.step(3); } for (int i = 0; i < 2; ++i) s.step(sym_pick("op", 0, 9)); s.step(1); s.step(3); s.step(3); }
inline void convTraining(bool grads) { ConvSteps s(sym_pick("stride", 1, 2), 0, grads); for (int i = 0; i < 3; ++i) { s.step(sym_pick("shape", 0, 2)); s.step(3); s.step(4); if (sym_pick("again", 0, 1)) s.step(3); } }
// the n-th of a fixed list of mixed configurations: all parameters vary together
inline ConvCfg convMix(int n) { uint32_t r = 2654435761u * (n + 1); auto pick = [&](int lo, int hi) { r = r * 1664525u + 1013904223u; return lo + int((r >> 16) % uint32_t(hi - lo + 1)); }; for (;;) { ConvCfg c{pick(1, 3), pick(1, 3), pick(1, 3), pick(1, 6), pick(1, 6), pick(1, 3), pick(1, 3), pick(1, 3), pick(0, 2), pick(1, 3)}; if (c.fits()) return c; } }
