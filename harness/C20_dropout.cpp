// @bounds up to 4 elements with every draw symbolic (every mask), up to 24 elements with the deterministic draws of the generator stub; rate symbolic in [0, 0.875] or listed; data and gradients symbolic; constructor argument any float; a catalogue of 61 shapes (rank 1..6, up to 65 elements), up to 247 elements with seeded draws; histories on one layer; beyond that, 5000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); rates up to 0.999
// @assume real arithmetic; uniform draws are arbitrary values in [0, 1)
// @outside statistical quality of the generator; draws that hit the rate exactly (except for rate 0)
#include "repo.hpp"
// the mask: exactly one draw decides each element, which is dropped with probability rate; a kept element is scaled by 1/(1-rate)
static void check(const Dims& d, float rate, bool sym) {
  int n = prodOf(d); DropoutLayer<float> L(rate); auto x = symTensor<float>(d, "x", 0.5, 4); auto v = values(x); rng_symbolic = sym; rng_draws = 0; auto y = L.forward(x); int draws = rng_draws; rng_symbolic = 0;
  checkDims(y, d, "output shape"); checkTensor(x, d, v, "input unchanged"); sym_assert(draws == n, "every element is decided by a draw of its own");
  std::vector<int> kept(n); int k = 0; for (int i = 0; i < n; ++i) { kept[i] = y[i] != 0.f; if (kept[i]) { ++k; check_eq(y[i], v[i] * (1 / (1 - rate)), "a kept element is scaled by 1/(1-rate)"); } else check_eq(y[i], 0.f, "a dropped element is zero"); }
  int a = 0, b = 0; for (int i = 0; i < n; ++i) { float u = (float)rng_log[i]; if (sym) sym_assume(u != rate && u != 1 - rate); if (u >= rate) ++a; if (u < 1 - rate) ++b; }
  sym_assert(k == a || k == b, "an element is kept with probability 1-rate");
  auto g = symTensor<float>(d, "g", 0.5, 4); auto gv = values(g); auto r = L.backward(g); checkDims(r, d, "the input gradient has the input's shape"); checkTensor(g, d, gv, "output gradient unchanged"); for (int i = 0; i < n; ++i) check_eq(r[i], kept[i] ? gv[i] * (1 / (1 - rate)) : 0.f, "the gradient passes exactly where the activation passed, with the same scale");
}
ENTRY(qr_masks) { static const Dims S[] = {{1}, {3}, {2, 2}, {1, 2, 1, 2}}; check(S[sym_pick("shape", 0, 3)], sym_f32("rate", 0, 0.875), true); }
ENTRY(qr_rates) { static const float R[] = {0.f, 0.1f, 0.25f, 0.5f, 0.75f, 0.9f}; check({2, 1}, R[sym_pick("rate", 0, 5)], true); }
ENTRY(qr_large) { static const Dims S[] = {{24}, {4, 5}, {2, 3, 2, 2}, {17, 1}}; RandomEngine::setSeed((unsigned)sym_pick("seed", 1, 3)); static const float R[] = {0.f, 0.25f, 0.5f, 0.75f}; check(S[sym_pick("shape", 0, 3)], R[sym_pick("rate", 0, 3)], false); }
ENTRY(qr_zero) { DropoutLayer<float> L(0.f); rng_symbolic = 1; auto x = symTensor<float>({2, 2}, "x"); checkTensor(L.forward(x), {2, 2}, values(x), "rate 0 drops nothing"); }
ENTRY(qr_eval) { float rate = sym_f32("rate", 0, 0.875); DropoutLayer<float> L(rate); int trained = sym_pick("trained", 0, 1); if (trained) L.forward(symTensor<float>({2, 2}, "t")); L.setTrainingMode(false); rng_draws = 0; auto x = symTensor<float>({3, 2}, "x", 0.5, 4), g = symTensor<float>({3, 2}, "g"); checkTensor(L.forward(x), {3, 2}, values(x), "evaluation passes the input through"); sym_assert(rng_draws == 0, "evaluation draws nothing"); checkTensor(L.backward(g), {3, 2}, values(g), "evaluation passes the gradient through"); L.setTrainingMode(true); auto y = L.forward(x); sym_assert(rng_draws == 6, "training mode drops again"); auto r = L.backward(g); for (int i = 0; i < 6; ++i) check_eq(r[i], y[i] == 0.f ? 0.f : g[i] * (1 / (1 - rate)), "the gradient uses the last mask"); }
// a new mask for every training pass, used by the following backward
ENTRY(qr_fresh_mask) { DropoutLayer<float> L(0.5f); rng_symbolic = 1; auto x = symTensor<float>({2}, "x", 0.5, 4), z = symTensor<float>({3}, "z", 0.5, 4), g = symTensor<float>({3}, "g"); L.forward(x); int d0 = rng_draws; auto y = L.forward(z); sym_assert(rng_draws == d0 + 3, "every pass draws a new mask"); auto r = L.backward(g), r2 = L.backward(g); for (int i = 0; i < 3; ++i) { check_eq(r[i], y[i] == 0.f ? 0.f : 2 * g[i], "backward uses the mask of the last forward"); check_eq(r2[i], r[i], "backward can be repeated"); } }
ENTRY(qf_ctor) { float rate = sym_f32_any("rate"); bool ok = rate >= 0.f && rate < 1.f; sym_assert(rejected([&] { DropoutLayer<float> L(rate); }) == !ok, "a rate is accepted exactly when it lies in [0, 1)"); }
ENTRY(qr_reject) { DropoutLayer<float> L(0.5f); int k = sym_pick("k", 0, 3); if (k == 0) { auto g = symTensor<float>({2, 2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "a training backward before any forward is rejected"); return; } L.forward(symTensor<float>({2, 2}, "x")); static const Dims S[] = {{2, 3}, {4}, {1, 2}}; auto g = symTensor<float>(S[k - 1], "g"); sym_assert(rejected([&] { L.backward(g); }), "a gradient of another shape is rejected"); }
ENTRY(qr_double) { double rate = sym_f64("rate", 0, 0.875); DropoutLayer<double> L(rate); rng_symbolic = 1; auto x = symTensor<double>({2}, "x", 0.5, 4), g = symTensor<double>({2}, "g"); auto y = L.forward(x), r = L.backward(g); for (int i = 0; i < 2; ++i) { bool kept = y[i] != 0; check_eq(y[i], kept ? x[i] / (1 - rate) : 0.0, "kept elements are scaled (double)"); check_eq(r[i], kept ? g[i] / (1 - rate) : 0.0, "gradient (double)"); } }
ENTRY(tr_masks) { static const Dims S[] = {{6}, {2, 3}, {1, 2, 1, 3}}; check(S[sym_pick("shape", 0, 2)], sym_f32("rate", 0, 0.9375), true); }
ENTRY(qr_catalogue) { RandomEngine::setSeed(5); static const float R[] = {0.25f, 0.5f}; check(pickShape(), R[sym_pick("rate", 0, 1)], false); }
ENTRY(qr_long) { RandomEngine::setSeed(9); static const Dims S[] = {{130}, {13, 19}, {2, 3, 6, 6}}; check(S[sym_pick("shape", 0, 2)], 0.5f, false); }
struct DropSteps { DropoutLayer<float> L; float scale; std::vector<int> kept; Dims d; bool training = true, mask = false; DropSteps() : L(0.5f), scale(2) {}
  void step(int op) { switch (op) { case 0: case 1: case 2: { Dims e = op == 0 ? Dims{4} : op == 1 ? Dims{2, 2} : Dims{3, 2}; auto x = symTensor<float>(e, "x", 0.5, 4); int n = prodOf(e), before = rng_draws; auto y = L.forward(x); checkDims(y, e, "output shape"); if (training) { d = e; kept.assign(n, 0); sym_assert(rng_draws - before == n, "a new mask for every pass"); int k = 0; for (int i = 0; i < n; ++i) { kept[i] = y[i] != 0; k += kept[i]; check_eq(y[i], kept[i] ? scale * x[i] : 0.f, "dropped or scaled"); } mask = true; } else { sym_assert(rng_draws == before, "evaluation draws nothing"); checkTensor(y, e, values(x), "evaluation is the identity"); } break; }
    case 3: { if (!training) { auto g = symTensor<float>({2, 2}, "g"); checkTensor(L.backward(g), {2, 2}, values(g), "evaluation passes the gradient through"); break; } if (!mask) { sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({2, 2}), 1.f)); }), "no mask yet"); break; } auto g = symTensor<float>(d, "g"); int before = rng_draws; auto r = L.backward(g); sym_assert(rng_draws == before, "backward draws nothing"); checkDims(r, d, "gradient shape"); for (int i = 0; i < prodOf(d); ++i) check_eq(r[i], kept[i] ? scale * g[i] : 0.f, "the gradient uses the mask of the last training pass"); break; }
    case 4: training = false; L.setTrainingMode(false); break;
    case 5: training = true; L.setTrainingMode(true); break;
    case 6: if (training && mask) sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({7, 2}), 1.f)); }), "a wrong gradient is refused"); break;
    default: { Probe<float> p; L.updateWeights(p); sym_assert(p.w.empty(), "dropout has no parameters"); } } } };
ENTRY(qr_histories) { rng_symbolic = 0; RandomEngine::setSeed(17); DropSteps s; for (int i = 0; i < 4; ++i) s.step(sym_pick("op", 0, 7)); s.step(5); s.step(1); s.step(3); s.step(3); }
// two layers draw their own masks; a layer's second mask is drawn anew (it may differ from its first in every position)
ENTRY(qr_independent) { rng_symbolic = 1; DropoutLayer<float> L(0.5f), M(0.5f); auto x = symTensor<float>({2}, "x", 0.5, 4), g = symTensor<float>({2}, "g", 0.5, 4); auto a = L.forward(x), b = M.forward(x); auto da = L.backward(g), db = M.backward(g); for (int i = 0; i < 2; ++i) { sym_assert((a[i] == 0) == (da[i] == 0), "own mask"); sym_assert((b[i] == 0) == (db[i] == 0), "own mask"); } sym_assert(rng_draws == 4, "separate draws"); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { RandomEngine::setSeed(9); static const Dims S[] = {{5000}, {66, 65}}; check(S[sym_pick("shape", 0, 1)], 0.5f, false); }
// rates close to one and close to zero
ENTRY(qr_extreme_rates) { static const float R[] = {0.9375f, 0.96875f, 0.9921875f, 0.9990234375f, 0.03125f, 0.0009765625f}; static const Dims S[] = {{2}, {1, 2}}; check(S[sym_pick("shape", 0, 1)], R[sym_pick("rate", 0, 5)], true); }
ENTRY(qr_any_rate) { check({2}, sym_f32("rate", 0.875, 0.999), true); }
