// @bounds small shapes with element values symbolic in [-40,40] and every sign pattern; every catalogue shape (rank 1..6, up to 65 elements) and shapes of up to 1089 elements with a fixed sign pattern and symbolic magnitudes; LeakyReLU slope symbolic in [-2,2]; layer histories of 4 operations (mode changes, forward, backward); float and double; beyond that, 5000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); double activations compared at double precision out to +-12; any slope with any finite negative input, bit-precise
// @assume real arithmetic; exp, log and tanh are the real functions (exp algebra and tanh(x) = (exp(2x)-1)/(exp(2x)+1) are used exactly, other facts through sound bounds)
// @outside rounding (C23), NaN and infinite inputs, the derivative of ReLU and LeakyReLU at exactly 0
#include "repo.hpp"
#include "dblact.hpp"
static const Dims S[] = {{1}, {3}, {2, 2}, {1, 2, 1, 2}};
template <class T, class A, class F> static void check(const A& act, const Dims& d, F f, bool kink, T lo = -40, T hi = 40) {
  int n = prodOf(d); auto x = symTensor<T>(d, "x", lo, hi), g = symTensor<T>(d, "g"); auto v = values(x), gv = values(g); if (kink) for (int i = 0; i < n; ++i) sym_assume(x[i] != 0);
  const Activation<T>& a = act; Tensor<T> y = a.forward(x); checkDims(y, d, "output shape"); for (int i = 0; i < n; ++i) check_eq(y[i], f(v[i]), "each output is the activation of the input at the same position");
  Tensor<T> r = a.backward(x, g); checkDims(r, d, "gradient shape"); for (int i = 0; i < n; ++i) check_eq(r[i], gv[i] * SymT<T>::grad(y[i], x[i], "slope"), "the gradient is the output gradient times the derivative of the forward function");
  checkTensor(x, d, v, "input unchanged"); checkTensor(g, d, gv, "output gradient unchanged"); }
template <class T> static T sg(T x) { return 1 / (1 + std::exp(-x)); }
ENTRY(qr_relu) { check<float>(ReLU<float>(), S[sym_pick("shape", 0, 3)], [](float x) { return x > 0 ? x : 0.f; }, true); }
ENTRY(qr_leaky) { float al = sym_f32("alpha", -2, 2); check<float>(LeakyReLU<float>(al), S[sym_pick("shape", 0, 3)], [al](float x) { return x > 0 ? x : al * x; }, true); }
ENTRY(qr_leaky_default) { check<float>(LeakyReLU<float>(), {2}, [](float x) { return x > 0 ? x : 0.01f * x; }, true); }
ENTRY(qr_sigmoid) { check<float>(Sigmoid<float>(), S[sym_pick("shape", 0, 3)], sg<float>, false); }
ENTRY(qr_tanh) { check<float>(Tanh<float>(), S[sym_pick("shape", 0, 3)], [](float x) { return (std::exp(2 * x) - 1) / (std::exp(2 * x) + 1); }, false); }
ENTRY(qr_swish) { check<float>(Swish<float>(), S[sym_pick("shape", 0, 3)], [](float x) { return x * sg(x); }, false); }
ENTRY(qr_mish) { check<float>(Mish<float>(), S[sym_pick("shape", 0, 3)], [](float x) { return x * std::tanh(std::log(1 + std::exp(x))); }, false); }
ENTRY(qr_double) { switch (sym_pick("act", 0, 5)) { case 0: check<double>(ReLU<double>(), {2}, [](double x) { return x > 0 ? x : 0.; }, true); break; case 1: check<double>(LeakyReLU<double>(0.25), {2}, [](double x) { return x > 0 ? x : 0.25 * x; }, true); break; case 2: check<double>(Sigmoid<double>(), {2}, sg<double>, false); break; case 3: check<double>(Tanh<double>(), {2}, [](double x) { return std::tanh(x); }, false); break; case 4: check<double>(Swish<double>(), {2}, [](double x) { return x * sg(x); }, false); break; default: check<double>(Mish<double>(), {2}, [](double x) { return x * std::tanh(std::log(1 + std::exp(x))); }, false); } }
// every shape of the catalogue and long tensors: signs alternate in a fixed pattern, values symbolic
template <class F, class G> static void shaped(const Activation<float>& a, const Dims& d, F f, G df) { int n = prodOf(d); Tensor<float> x{Shape(d)}; for (int i = 0; i < n; ++i) x.getData().data()[i] = (i * 5 + i / 7) % 3 ? sym_f32("x", 0.125, 8) : sym_f32("x", -8, -0.125); auto g = symTensor<float>(d, "g"); auto v = values(x), gv = values(g), e = v, h = v; for (int i = 0; i < n; ++i) { bool pos = (i * 5 + i / 7) % 3; e[i] = f(v[i], pos); h[i] = gv[i] * df(v[i], pos); } checkTensor(a.forward(x), d, e, "each output is the activation of the input at the same position"); checkTensor(a.backward(x, g), d, h, "the gradient is the output gradient times the derivative at the same position"); checkTensor(x, d, v, "input unchanged"); checkTensor(g, d, gv, "output gradient unchanged"); }
static void shapedAct(int k, const Dims& d) { auto th = [](float x) { return std::tanh(x); }; switch (k) { case 0: shaped(ReLU<float>(), d, [](float x, bool p) { return p ? x : 0.f; }, [](float, bool p) { return p ? 1.f : 0.f; }); break; case 1: shaped(LeakyReLU<float>(0.25f), d, [](float x, bool p) { return p ? x : 0.25f * x; }, [](float, bool p) { return p ? 1.f : 0.25f; }); break; case 2: shaped(Sigmoid<float>(), d, [](float x, bool) { return sg(x); }, [](float x, bool) { return sg(x) * (1 - sg(x)); }); break; case 3: shaped(Tanh<float>(), d, [&](float x, bool) { return th(x); }, [&](float x, bool) { return 1 - th(x) * th(x); }); break; case 4: shaped(Swish<float>(), d, [](float x, bool) { return x * sg(x); }, [](float x, bool) { return sg(x) * (1 + x * (1 - sg(x))); }); break; default: shaped(Mish<float>(), d, [&](float x, bool) { return x * th(std::log(1 + std::exp(x))); }, [&](float x, bool) { float t = th(std::log(1 + std::exp(x))); return t + x * (1 - t * t) * sg(x); }); } }
ENTRY(qr_wide) { static const Dims W[] = {{9}, {2, 2, 2}, {1, 1, 3, 3}, {17, 1}}; const Dims& d = W[sym_pick("shape", 0, 3)]; switch (sym_pick("act", 0, 4)) { case 0: check<float>(ReLU<float>(), d, [](float x) { return x > 0 ? x : 0.f; }, true, 0.125f); break; case 1: check<float>(LeakyReLU<float>(0.5f), d, [](float x) { return x > 0 ? x : 0.5f * x; }, true, -8, -0.125f); break; case 2: shapedAct(2, d); break; case 3: shapedAct(3, d); break; default: shapedAct(4, d); } }
ENTRY(qr_catalogue) { int k = sym_pick("act", 0, 5); shapedAct(k, pickShape(65)); }
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 129}, {255}, {4, 3, 8, 8}, {1, 1024}}; int k = sym_pick("act", 0, 5); shapedAct(k, S[sym_pick("shape", 0, 5)]); }
// range facts a user relies on
ENTRY(qr_ranges) { auto x = symTensor<float>({1}, "x", -8, 8); float s = Sigmoid<float>().forward(x)[0], t = Tanh<float>().forward(x)[0]; sym_assert(s > 0 && s < 1, "sigmoid lies in (0, 1)"); sym_assert(t > -1 && t < 1, "tanh lies in (-1, 1)"); auto z = symTensor<float>({1}, "z", -8, 8); float s2 = Sigmoid<float>().forward(z)[0]; sym_assume(x[0] < z[0]); sym_assert(s < s2, "sigmoid is increasing"); }
// through the layer: the stored input is the last one, backward can be repeated, and the activation object keeps its parameter
ENTRY(qr_layer) { float al = sym_f32("alpha", 0.01, 2); ActivationLayer<float> L{LeakyReLU<float>(al)}; auto x = symTensor<float>({2}, "x"), z = symTensor<float>({2, 2}, "z"), g = symTensor<float>({2, 2}, "g"); for (int i = 0; i < 4; ++i) sym_assume(z[i] != 0); L.forward(x); auto y = L.forward(z); for (int i = 0; i < 4; ++i) check_eq(y[i], z[i] > 0 ? z[i] : al * z[i], "the layer applies its activation"); auto r = L.backward(g), r2 = L.backward(g); for (int i = 0; i < 4; ++i) { check_eq(r[i], z[i] > 0 ? g[i] : al * g[i], "the layer differentiates at the last input"); check_eq(r2[i], r[i], "backward can be repeated"); } }
ENTRY(qr_layer_reject) { int k = sym_pick("k", 0, 2); ActivationLayer<float> L{Sigmoid<float>()}; if (k == 0) { auto g = symTensor<float>({2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "backward before forward is rejected"); return; } L.forward(symTensor<float>({2, 2}, "x")); auto g = k == 1 ? symTensor<float>({3, 2}, "g") : symTensor<float>({2, 3}, "g"); sym_assert(rejected([&] { L.backward(g); }), "a gradient of an incompatible shape is rejected"); }
// histories of a layer: evaluation and training mode, several inputs of different shapes, repeated backward
ENTRY(qr_layer_history) { int k = sym_pick("act", 0, 2); ActivationLayer<float> L = k == 0 ? ActivationLayer<float>(LeakyReLU<float>(0.25f)) : k == 1 ? ActivationLayer<float>(Sigmoid<float>()) : ActivationLayer<float>(Swish<float>()); static const Dims D[] = {{2}, {1, 3}, {2}}; auto f = [&](float x, bool p) { return k == 0 ? (p ? x : 0.25f * x) : k == 1 ? sg(x) : x * sg(x); }; auto df = [&](float x, bool p) { return k == 0 ? (p ? 1.f : 0.25f) : k == 1 ? sg(x) * (1 - sg(x)) : sg(x) + x * sg(x) * (1 - sg(x)); };
  std::vector<float> last; Dims ld; std::vector<char> ps; for (int s = 0; s < 4; ++s) { int op = sym_pick("op", 0, 3); if (op == 0) L.setTrainingMode(false); else if (op == 1) L.setTrainingMode(true); else if (op == 2) { const Dims& d = D[s % 3]; int n = prodOf(d); Tensor<float> x{Shape(d)}; ps.clear(); for (int i = 0; i < n; ++i) { bool p = (i + s) % 2; ps.push_back(p); x.getData().data()[i] = p ? sym_f32("x", 0.125, 8) : sym_f32("x", -8, -0.125); } last = values(x); ld = d; auto y = L.forward(x); for (int i = 0; i < n; ++i) check_eq(y[i], f(last[i], ps[i]), "the layer applies its activation in every mode"); } else if (ld.empty()) { auto g = symTensor<float>({2}, "g"); sym_assert(rejected([&] { L.backward(g); }), "backward before forward is rejected"); } else { auto g = symTensor<float>(ld, "g"); auto r = L.backward(g); checkDims(r, ld, "gradient shape"); for (int i = 0; i < prodOf(ld); ++i) check_eq(r[i], g[i] * df(last[i], ps[i]), "the layer differentiates at the last input, in every mode"); } } }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{5000}, {66, 65}}; int k = sym_pick("act", 0, 5); shapedAct(k, S[sym_pick("shape", 0, 1)]); }
// any slope and any input, bit-precise: the product rounds once
ENTRY(qf_leaky_slopes) { float a = sym_f32_any("alpha"), x = sym_f32_any("x"); sym_assume(x < 0.f); sym_assume((a == a) & (a - a == 0.f) & (x - x == 0.f)); LeakyReLU<float> l(a); Tensor<float> t(Shape({2}), 1.f); t[1] = x; auto y = l.forward(t); fpSame(y[1], a * x, "slope times input below zero"); fpSame(y[0], 1.f, "positive inputs pass"); Tensor<float> g(Shape({2}), 1.f); auto r = l.backward(t, g); fpSame(r[1], a, "the slope is the derivative below zero"); fpSame(r[0], 1.f, "derivative above zero"); }
