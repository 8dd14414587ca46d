#pragma once
// activations of doubles, computed in double (entries shared by C22 and C41)
#include "repo.hpp"
typedef double D;
static Tensor<D> in(const Dims& d, const char* n, D lo = 0.5, D hi = 4) { return symTensor<D>(d, n, lo, hi); }
static D sg(D x) { return 1 / (1 + std::exp(-x)); }
static void act(const Activation<D>& a, D lo, D hi, D (*f)(D), D (*df)(D)) { sym_precise(); auto x = symTensor<D>({2}, "x", lo, hi), g = in({2}, "g"); auto v = values(x); auto y = a.forward(x), r = a.backward(x, g); for (int i = 0; i < 2; ++i) { check_eq(y[i], f(v[i]), "activation in double"); check_eq(r[i], g[i] * df(v[i]), "activation gradient in double"); } }
ENTRY(qr_dbl_sigmoid) { act(Sigmoid<D>(), -4, 4, sg, [](D x) { return sg(x) * (1 - sg(x)); }); }
ENTRY(qr_dbl_tanh) { act(Tanh<D>(), -4, 4, [](D x) { return std::tanh(x); }, [](D x) { return 1 - std::tanh(x) * std::tanh(x); }); }
ENTRY(qr_dbl_relu) { act(ReLU<D>(), 0.5, 4, [](D x) { return x; }, [](D) { return 1.; }); }
ENTRY(qr_dbl_leaky) { act(LeakyReLU<D>(0.3), -4, -0.5, [](D x) { return 0.3 * x; }, [](D) { return 0.3; }); }
ENTRY(qr_dbl_leaky_default) { act(LeakyReLU<D>(), -4, -0.5, [](D x) { return 0.01 * x; }, [](D) { return 0.01; }); }
ENTRY(qr_dbl_swish) { act(Swish<D>(), -4, 4, [](D x) { return x * sg(x); }, [](D x) { D s = sg(x); return s + x * s * (1 - s); }); }
ENTRY(qr_dbl_mish) { act(Mish<D>(), -4, 4, [](D x) { return x * std::tanh(std::log(1 + std::exp(x))); }, [](D x) { D t = std::tanh(std::log(1 + std::exp(x))); return t + x * sg(x) * (1 - t * t); }); }
// the same, farther out, where shortcuts for the tails live
ENTRY(qr_dbl_far_sigmoid) { int lo = sym_pick("range", -12, 11); if (lo >= -4 && lo < 4) return; act(Sigmoid<D>(), lo, lo + 1, sg, [](D x) { return sg(x) * (1 - sg(x)); }); }
ENTRY(qr_dbl_far_tanh) { int lo = sym_pick("range", -12, 11); if (lo >= -4 && lo < 4) return; act(Tanh<D>(), lo, lo + 1, [](D x) { return std::tanh(x); }, [](D x) { return 1 - std::tanh(x) * std::tanh(x); }); }
ENTRY(qr_dbl_far_swish) { int lo = sym_pick("range", -12, 11); if (lo >= -4 && lo < 4) return; act(Swish<D>(), lo, lo + 1, [](D x) { return x * sg(x); }, [](D x) { D s = sg(x); return s + x * s * (1 - s); }); }
ENTRY(qr_dbl_far_mish) { int lo = sym_pick("range", -12, 11); if (lo >= -4 && lo < 4) return; act(Mish<D>(), lo, lo + 1, [](D x) { return x * std::tanh(std::log(1 + std::exp(x))); }, [](D x) { D t = std::tanh(std::log(1 + std::exp(x))); return t + x * sg(x) * (1 - t * t); }); }
