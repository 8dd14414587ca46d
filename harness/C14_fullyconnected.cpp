// @bounds input sizes 1..4, output sizes 1..4, batch 1..3 and rank-1 inputs, plus listed larger layers (up to 17 inputs / 9 outputs / batch 9); weights, biases, inputs and output gradients symbolic; every input size, output size and batch 1..34 with the other two at 2; listed layers up to 128 inputs, 64 outputs, batch 65; every history of 3 operations out of forward (three batch sizes), backward, update, parameter replacement, refused calls and mode changes; training histories of 3 steps; beyond that, layers up to 784 inputs, 1100 outputs, batch 600 (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic (rounding and summation order are not modelled)
// @outside inputs of rank above 2
#include "repo.hpp"
static void setup(FullyConnectedLayer<float>& L, int in, int out, std::vector<float>& w, std::vector<float>& b) { auto W = symTensor<float>({in, out}, "w"), B = symTensor<float>({1, out}, "b"); w = values(W); b = values(B); L.setWeights(W); L.setBiases(B); }
static void check(int in, int out, int batch) {   // batch 0: rank-1 input
  FullyConnectedLayer<float> L(in, out); std::vector<float> w, b; setup(L, in, out, w, b); int B = batch ? batch : 1; Dims xd = batch ? Dims{batch, in} : Dims{in}, yd = batch ? Dims{batch, out} : Dims{out};
  auto x = symTensor<float>(xd, "x"); auto xv = values(x); std::vector<float> y(B * out), gx(B * in), gw(in * out), gb(out);
  for (int q = 0; q < B; ++q) for (int j = 0; j < out; ++j) { float s = b[j]; for (int i = 0; i < in; ++i) s += xv[q * in + i] * w[i * out + j]; y[q * out + j] = s; }
  Tensor<float> r = L.forward(x); checkDims(r, yd, "output shape"); checkTensor(r, yd, y, "output is x*W + b"); checkTensor(x, xd, xv, "the input is unchanged");
  auto g = symTensor<float>(yd, "g"); auto gv = values(g);
  for (int q = 0; q < B; ++q) for (int j = 0; j < out; ++j) { float e = gv[q * out + j]; gb[j] += e; for (int i = 0; i < in; ++i) { gw[i * out + j] += xv[q * in + i] * e; gx[q * in + i] += w[i * out + j] * e; } }
  Tensor<float> d = L.backward(g); checkDims(d, xd, "the input gradient has the input's shape"); checkTensor(d, xd, gx, "input gradient"); checkTensor(g, yd, gv, "the output gradient is unchanged");
  checkTensor(L.getWeightGradients(), {in, out}, gw, "weight gradient"); checkTensor(L.getBiasGradients(), {1, out}, gb, "bias gradient"); checkTensor(L.getWeights(), {in, out}, w, "a pass does not change the weights"); checkTensor(L.getBiases(), {1, out}, b, "a pass does not change the biases");
}
ENTRY(qr_small) { int in = sym_pick("in", 1, 3), out = sym_pick("out", 1, 3), b = sym_pick("batch", 0, 3); check(in, out, b); }
ENTRY(qr_wide) { static const int S[][3] = {{4, 2, 5}, {2, 9, 2}, {17, 2, 1}, {7, 5, 0}, {1, 1, 9}, {33, 1, 0}, {5, 4, 3}}; int k = sym_pick("k", 0, 6); check(S[k][0], S[k][1], S[k][2]); }
// the returned gradients are the derivatives of sum(g * forward(x)), computed by differentiating the executed code
ENTRY(qr_derivative) { int b = sym_pick("batch", 0, 2), B = b ? b : 1; FullyConnectedLayer<float> L(2, 3); std::vector<float> w, bi; setup(L, 2, 3, w, bi); Dims xd = b ? Dims{b, 2} : Dims{2}, yd = b ? Dims{b, 3} : Dims{3}; auto x = symTensor<float>(xd, "x"), g = symTensor<float>(yd, "g"); auto y = L.forward(x); float s = 0; for (int i = 0; i < 3 * B; ++i) s += g[i] * y[i]; auto d = L.backward(g); auto W = L.getWeightGradients(), C = L.getBiasGradients(); for (int i = 0; i < 2 * B; ++i) check_eq(d[i], sym_grad_f32(s, x[i], "dx"), "input gradient is the derivative"); for (int i = 0; i < 6; ++i) check_eq(W[i], sym_grad_f32(s, w[i], "dw"), "weight gradient is the derivative"); for (int i = 0; i < 3; ++i) check_eq(C[i], sym_grad_f32(s, bi[i], "db"), "bias gradient is the derivative"); }
// a second pass depends only on its own input: gradients do not accumulate, shapes may change between calls
ENTRY(qr_repeat) { int a = sym_pick("first", 0, 3), b = sym_pick("second", 0, 3); FullyConnectedLayer<float> L(2, 2), M(2, 2); std::vector<float> w, bi; setup(L, 2, 2, w, bi); M.setWeights(L.getWeights()); M.setBiases(L.getBiases()); auto dims = [](int q) { return q ? Dims{q, 2} : Dims{2}; }; auto x = symTensor<float>(dims(a), "x"), g = symTensor<float>(dims(a), "g"); L.forward(x); L.backward(g); auto x2 = symTensor<float>(dims(b), "x2"), g2 = symTensor<float>(dims(b), "g2"); checkTensor(L.forward(x2), dims(b), values(M.forward(x2)), "forward depends only on its input"); checkTensor(L.backward(g2), dims(b), values(M.backward(g2)), "backward depends only on the last forward"); checkTensor(L.getWeightGradients(), {2, 2}, values(M.getWeightGradients()), "weight gradients do not accumulate"); checkTensor(L.getBiasGradients(), {1, 2}, values(M.getBiasGradients()), "bias gradients do not accumulate"); checkTensor(L.backward(g2), dims(b), values(M.backward(g2)), "backward can be repeated"); }
ENTRY(qr_update) { FullyConnectedLayer<float> L(2, 2); std::vector<float> w, b; setup(L, 2, 2, w, b); Probe<float> p; sym_assert(rejected([&] { L.updateWeights(p); }) && p.calls == 0, "updating before backward is rejected"); auto x = symTensor<float>({3, 2}, "x"), g = symTensor<float>({3, 2}, "g"); L.forward(x); L.backward(g); L.updateWeights(p); sym_assert(p.calls == 1 && p.w.size() == 2 && p.g.size() == 2, "one optimizer call covers both parameters"); bool wf = p.w[0]->getShape()[0] == 2; int wi = wf ? 0 : 1; checkTensor(p.g[wi], {2, 2}, values(L.getWeightGradients()), "the weights are paired with their gradient"); checkTensor(p.g[1 - wi], {1, 2}, values(L.getBiasGradients()), "the biases are paired with their gradient"); float s = sym_f32("s", -2, 2); (*p.w[wi])[1] = s; w[1] = s; (*p.w[1 - wi])[0] = s; b[0] = s; auto y = L.forward(x); for (int q = 0; q < 3; ++q) for (int j = 0; j < 2; ++j) check_eq(y[q * 2 + j], x[q * 2] * w[j] + x[q * 2 + 1] * w[2 + j] + b[j], "the optimizer updates the parameters the layer uses"); }
ENTRY(qr_misuse) { int k = sym_pick("k", 0, 5); FullyConnectedLayer<float> L(3, 2); auto ok = symTensor<float>({2, 3}, "x"); switch (k) { case 0: { auto g = symTensor<float>({2, 2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "backward before forward is rejected"); break; } case 1: { auto x = symTensor<float>({2, 4}, "x"); sym_assert(rejected([&] { L.forward(x); }), "a wrong feature count is rejected"); break; } case 2: { auto x = symTensor<float>({2}, "x"); sym_assert(rejected([&] { L.forward(x); }), "a wrong vector length is rejected"); break; } case 3: { L.forward(ok); auto g = symTensor<float>({3, 2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "a gradient of another batch size is rejected"); break; } case 4: { L.forward(ok); auto g = symTensor<float>({2, 3}, "g"); sym_assert(rejected([&] { L.backward(g); }), "a gradient with another output count is rejected"); break; } default: { auto b = symTensor<float>({2}, "b"); sym_assert(rejected([&] { L.setBiases(b); }), "biases must be a row"); } } }
ENTRY(qr_init) { rng_symbolic = 1; FullyConnectedLayer<float> L(2, 3); auto W = L.getWeights(), B = L.getBiases(); checkDims(W, {2, 3}, "weights are (inputs, outputs)"); checkTensor(B, {1, 3}, {0, 0, 0}, "biases start at zero"); sym_assert(rejected([&] { FullyConnectedLayer<float> M(0, 2); }) && rejected([&] { FullyConnectedLayer<float> M(2, -1); }), "layer sizes must be positive"); }
ENTRY(qr_double) { sym_precise(); FullyConnectedLayer<double> L(2, 1); auto W = symTensor<double>({2, 1}, "w"), b = symTensor<double>({1, 1}, "b"), x = symTensor<double>({2, 2}, "x"); L.setWeights(W); L.setBiases(b); auto y = L.forward(x); for (int q = 0; q < 2; ++q) check_eq(y[q], x[q * 2] * W[0] + x[q * 2 + 1] * W[1] + b[0], "output (double)"); }
ENTRY(tr_all) { int in = sym_pick("in", 1, 5), out = sym_pick("out", 1, 5), b = sym_pick("batch", 0, 5); check(in, out, b); }
ENTRY(qr_sizes) { int which = sym_pick("which", 0, 2), n = sym_pick("n", 1, 34); if (which == 0) check(n, 2, 2); else if (which == 1) check(2, n, 2); else check(2, 2, n); }
ENTRY(qr_large) { static const int S[][3] = {{16, 16, 4}, {17, 9, 9}, {64, 3, 2}, {3, 64, 2}, {2, 2, 65}, {33, 5, 0}, {128, 2, 1}, {8, 8, 33}}; int k = sym_pick("k", 0, 7); check(S[k][0], S[k][1], S[k][2]); }
// Histories: any sequence of forward passes (three shapes), backward passes, refused calls, weight updates through an
// optimizer, weight replacements and mode switches; after each step the layer agrees with x*W + b and its gradients for
// the current parameters and the last accepted input.
struct Steps { FullyConnectedLayer<float> L; std::vector<float> w, b, x; Dims xd; bool fwd = false, bwd = false; Steps() : L(2, 2) { setup(L, 2, 2, w, b); }
  void step(int op) { switch (op) { case 0: case 1: case 2: { xd = op == 0 ? Dims{2, 2} : op == 1 ? Dims{1, 2} : Dims{2}; auto t = symTensor<float>(xd, "x"); x = values(t); int B = (int)x.size() / 2; std::vector<float> y(B * 2); for (int q = 0; q < B; ++q) for (int j = 0; j < 2; ++j) y[q * 2 + j] = x[q * 2] * w[j] + x[q * 2 + 1] * w[2 + j] + b[j]; checkTensor(L.forward(t), xd, y, "output for the current parameters"); t[0] = 99; fwd = true; break; }
    case 3: { if (!fwd) { sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({2, 2}), 1.f)); }), "backward needs a forward pass"); break; } auto g = symTensor<float>(xd, "g"); int B = (int)x.size() / 2; std::vector<float> gx(B * 2), gw(4), gb(2); for (int q = 0; q < B; ++q) for (int j = 0; j < 2; ++j) { float e = g[q * 2 + j]; gb[j] += e; for (int i = 0; i < 2; ++i) { gw[i * 2 + j] += x[q * 2 + i] * e; gx[q * 2 + i] += w[i * 2 + j] * e; } } checkTensor(L.backward(g), xd, gx, "input gradient for the current parameters"); checkTensor(L.getWeightGradients(), {2, 2}, gw, "weight gradient of the last input"); checkTensor(L.getBiasGradients(), {1, 2}, gb, "bias gradient"); bwd = true; break; }
    case 4: { Probe<float> p; bool r = rejected([&] { L.updateWeights(p); }); sym_assert(r == !bwd, "updating needs gradients"); if (r) break; for (auto* t : p.w) for (int i = 0; i < prodOf(t->getShape().getDimensions()); ++i) (*t)[i] += 1; for (auto& e : w) e += 1; for (auto& e : b) e += 1; break; }
    case 5: { setup(L, 2, 2, w, b); break; }
    case 6: { sym_assert(rejected([&] { L.forward(Tensor<float>(Shape({2, 3}), 1.f)); }), "a wrong feature count is refused"); fwd = false; auto t = symTensor<float>({3, 2}, "x"); L.forward(t); x = values(t); xd = {3, 2}; fwd = true; break; }
    case 7: if (fwd) sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({7, 2}), 1.f)); }), "a wrong gradient is refused"); break;
    default: L.setTrainingMode(op == 8); } } };
ENTRY(qr_histories) { Steps s; int pre = sym_pick("start", 0, 1); if (pre) { s.step(0); s.step(3); } for (int i = 0; i < 3; ++i) s.step(sym_pick("op", 0, 9)); s.step(1); s.step(3); }
ENTRY(qr_training_history) { Steps s; for (int i = 0; i < 3; ++i) { s.step(sym_pick("shape", 0, 2)); s.step(3); s.step(4); if (sym_pick("again", 0, 1)) s.step(3); } }
ENTRY(tr_histories) { Steps s; for (int i = 0; i < 5; ++i) s.step(sym_pick("op", 0, 7)); s.step(1); s.step(3); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const int S[][3] = {{300, 10, 3}, {10, 300, 3}, {66, 65, 9}, {3, 2, 600}, {784, 10, 2}, {1100, 1, 0}, {1, 1100, 0}}; int k = sym_pick("k", 0, 6); check(S[k][0], S[k][1], S[k][2]); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e4; static const int S[][3] = {{1, 1, 1}, {2, 2, 2}, {3, 1, 2}, {1, 3, 0}, {2, 2, 0}}; int k = sym_pick("k", 0, 4); check(S[k][0], S[k][1], S[k][2]); }
// arbitrary IEEE values through a 1 -> 1 layer
ENTRY(qf_ieee) { FullyConnectedLayer<float> L(1, 1); auto W = anyTensor<float>({1, 1}, "w"), B = anyTensor<float>({1, 1}, "b"), x = anyTensor<float>(sym_pick("rank", 1, 2) == 1 ? Dims{1} : Dims{1, 1}, "x"); L.setWeights(W); L.setBiases(B); auto y = L.forward(x); fpSame(y[0], x[0] * W[0] + B[0], "output of arbitrary floats"); }
ENTRY(qf_ieee_gradient) { FullyConnectedLayer<float> L(1, 1); auto W = anyTensor<float>({1, 1}, "w"), x = anyTensor<float>({1, 1}, "x"), g = anyTensor<float>({1, 1}, "g"); L.setWeights(W); L.forward(x); auto d = L.backward(g); fpSame(d[0], W[0] * g[0], "input gradient"); fpSame(L.getWeightGradients()[0], x[0] * g[0], "weight gradient"); fpSame(L.getBiasGradients()[0], g[0], "bias gradient"); }
ENTRY(qr_mixed) { int n = sym_pick("n", 0, 119); uint32_t r = 2654435761u * (n + 1); auto pick = [&](int lo, int hi) { r = r * 1664525u + 1013904223u; return lo + int((r >> 16) % uint32_t(hi - lo + 1)); }; int in = pick(1, 12), out = pick(1, 9), b = pick(0, 7); check(in, out, b); }
