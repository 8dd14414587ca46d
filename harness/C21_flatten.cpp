// @bounds flatten: ranks 2..5 with dimensions 1..3 and listed larger shapes; shape contract of the other layers: listed inputs; element values symbolic; the catalogue from rank 2, up to 65x3 / 33x33 / 1024 elements; histories of forward and backward passes over 5 shapes; beyond that, up to 2x4100 (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); gradients with the right number of elements in another shape
// @assume real arithmetic
// @outside shapes above the listed sizes
#include "repo.hpp"
static void check(const Dims& d) { FlattenLayer<float> L; auto x = symTensor<float>(d, "x"); auto v = values(x); int n = prodOf(d); Dims fd{d[0], n / d[0]}; auto y = L.forward(x); checkDims(y, fd, "flattened shape is (batch, rest)"); checkTensor(y, fd, v, "flattening keeps the elements in order"); checkTensor(x, d, v, "input unchanged"); auto g = symTensor<float>(fd, "g"); auto r = L.backward(g); checkDims(r, d, "backward restores the input's shape"); checkTensor(r, d, values(g), "backward keeps the elements in order"); checkTensor(g, fd, values(r), "output gradient unchanged"); }
ENTRY(qr_rank2) { check(pickDims(2, 1, 4)); }
ENTRY(qr_rank3) { check(pickDims(3, 1, 3)); }
ENTRY(qr_rank4) { check(pickDims(4, 1, 3)); }
ENTRY(qr_rank5) { check(pickDims(5, 1, 2)); }
ENTRY(qr_wide) { static const Dims S[] = {{2, 3, 5, 4}, {17, 3}, {1, 40}, {6, 1, 7}, {3, 4, 5}, {1, 2, 8, 8}}; check(S[sym_pick("shape", 0, 5)]); }
ENTRY(qr_history) { static const Dims S[] = {{2, 3}, {2, 1, 3}, {1, 2, 3}, {2, 2, 1, 2}, {4, 2}}; const Dims &a = S[sym_pick("first", 0, 4)], &b = S[sym_pick("second", 0, 4)]; FlattenLayer<float> L; L.forward(symTensor<float>(a, "x")); if (sym_pick("back", 0, 1)) L.backward(symTensor<float>({a[0], prodOf(a) / a[0]}, "h")); auto x = symTensor<float>(b, "z"); checkTensor(L.forward(x), {b[0], prodOf(b) / b[0]}, values(x), "forward does not depend on earlier calls"); auto g = symTensor<float>({b[0], prodOf(b) / b[0]}, "g"); checkTensor(L.backward(g), b, values(g), "backward restores the shape of the last input"); checkTensor(L.backward(g), b, values(g), "backward can be repeated"); }
ENTRY(qr_reject) { FlattenLayer<float> L; int k = sym_pick("k", 0, 4); if (k == 0) { auto x = symTensor<float>({4}, "x"); sym_assert(rejected([&] { L.forward(x); }), "a rank-1 input is rejected"); } else if (k == 1) { auto g = symTensor<float>({2, 2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "backward before forward is rejected"); } else { static const Dims S[] = {{2, 3}, {3, 4}, {12}}; L.forward(symTensor<float>({2, 2, 2}, "x")); auto g = symTensor<float>(S[k - 2], "g"); sym_assert(rejected([&] { L.backward(g); }), "a gradient with another element count is rejected"); } }
// every layer: the input gradient has exactly the shape of the input, through a whole stack
template <class L> static void contract(L& l, const Dims& xd, const Dims& yd) { auto x = symTensor<float>(xd, "x", 0, 0.5); for (int i = 0; i < prodOf(xd); ++i) x[i] += (float)i + 1; auto y = l.forward(x); checkDims(y, yd, "output shape"); auto g = symTensor<float>(yd, "g"); auto r = l.backward(g); checkDims(r, xd, "the input gradient has the input's shape"); }
ENTRY(qr_contract) { switch (sym_pick("layer", 0, 9)) { case 0: { FullyConnectedLayer<float> l(3, 2); contract(l, {2, 3}, {2, 2}); break; } case 1: { FullyConnectedLayer<float> l(3, 2); contract(l, {3}, {2}); break; } case 2: { Conv2DLayer<float> l(2, 3, 2); contract(l, {2, 2, 3, 4}, {2, 3, 2, 3}); break; } case 3: { Conv2DLayer<float> l(1, 2, 3, 2, 2, 1, 2); contract(l, {1, 1, 5, 4}, {1, 2, 2, 2}); break; } case 4: { ActivationLayer<float> l{Sigmoid<float>()}; contract(l, {2, 3}, {2, 3}); break; } case 5: { ActivationLayer<float> l{LeakyReLU<float>()}; contract(l, {1, 2, 2, 1}, {1, 2, 2, 1}); break; } case 6: { DropoutLayer<float> l(0.5f); contract(l, {2, 3}, {2, 3}); break; } case 7: { MaxPooling2DLayer<float> l(2); contract(l, {2, 1, 4, 2}, {2, 1, 2, 1}); break; } case 8: { BatchNormalizationLayer<float> l(2); contract(l, {2, 2}, {2, 2}); break; } default: { BatchNormalizationLayer<float> l(2); contract(l, {1, 2, 2, 1}, {1, 2, 2, 1}); } } }
ENTRY(tr_rank4) { check(pickDims(4, 1, 4)); }
ENTRY(qr_catalogue) { check(pickShape(65, 2, 6)); }
ENTRY(qr_long) { static const Dims S[] = {{2, 515}, {33, 33}, {8, 8, 16}, {1, 3, 17, 17}, {515, 2}, {65, 1, 1, 3}}; check(S[sym_pick("shape", 0, 5)]); }
struct FlatSteps { FlattenLayer<float> L; Dims d; bool fwd = false; void step(int op) { static const Dims S[] = {{2, 3}, {3, 2, 2}, {1, 2, 2, 3}, {2, 6}, {6, 2}}; switch (op) { case 5: { if (!fwd) { sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({2, 6}), 1.f)); }), "backward needs a forward pass"); break; } Dims f{d[0], prodOf(d) / d[0]}; auto g = symTensor<float>(f, "g"); checkTensor(L.backward(g), d, values(g), "backward restores the shape of the last input"); break; } case 6: sym_assert(rejected([&] { L.forward(Tensor<float>(Shape({5}), 1.f)); }), "a rank-1 input is refused"); break; case 7: if (fwd) sym_assert(rejected([&] { L.backward(Tensor<float>(Shape({7, 2}), 1.f)); }), "a wrong gradient is refused"); break; case 8: L.setTrainingMode(!sym_pick("mode", 0, 1)); break; default: { d = S[op]; auto x = symTensor<float>(d, "x"); auto v = values(x); checkTensor(L.forward(x), {d[0], prodOf(d) / d[0]}, v, "flattened"); fwd = true; } } } };
ENTRY(qr_histories) { FlatSteps s; for (int i = 0; i < 3; ++i) s.step(sym_pick("op", 0, 8)); s.step(5); s.step(sym_pick("last", 0, 4)); s.step(5); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{66, 65}, {2, 4100}, {130, 2}}; check(S[sym_pick("shape", 0, 2)]); }
// arbitrary IEEE values pass unchanged
ENTRY(qf_ieee) { FlattenLayer<float> L; auto x = anyTensor<float>({2, 1, 2}, "x"), g = anyTensor<float>({2, 2}, "g"); auto y = L.forward(x); auto r = L.backward(g); for (int i = 0; i < 4; ++i) { sym_check_eq_f32(y[i], x[i], "flattened element"); sym_check_eq_f32(r[i], g[i], "gradient element"); } }
ENTRY(qr_extents) { int b = sym_pick("batch", 1, 20), n = sym_pick("n", 1, 9), how = sym_pick("how", 0, 2); check(how == 0 ? Dims{b, n} : how == 1 ? Dims{b, n, 2} : Dims{b, 1, n, 2}); }
// a gradient with the right number of elements in another shape: refused, or the input's shape comes back (elementwise activations broadcast instead)
ENTRY(qr_other_grad_shapes) { static const Dims D[][3] = {{{1, 2, 2}, {1, 4}, {4, 1}}, {{2, 3}, {3, 2}, {1, 6}}, {{2, 2, 1}, {2, 2}, {1, 4}}, {{1, 1, 2, 2}, {1, 4}, {2, 2}}}; int k = sym_pick("shapes", 0, 3); const Dims &d = D[k][0], &g = D[k][sym_pick("gradient", 1, 2)];
  auto go = [&](Layer<float>& l) { auto x = symTensor<float>(d, "x"); try { l.forward(x); } catch (const std::exception&) { return; } auto r = symTensor<float>(g, "g"); try { checkDims(l.backward(r), d, "the gradient has the shape of the input"); } catch (const std::exception&) {} };
  switch (sym_pick("layer", 0, 4)) { case 0: { ActivationLayer<float> l{Softmax<float>()}; go(l); break; } case 1: { FlattenLayer<float> l; go(l); break; } case 2: { DropoutLayer<float> l(0.5f); rng_symbolic = 0; go(l); break; } case 3: { BatchNormalizationLayer<float> l(d[1], 0.25f); go(l); break; } default: { MaxPooling2DLayer<float> l(1, 1); go(l); } } }
