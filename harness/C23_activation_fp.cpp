// @bounds every finite float input (bit-precise IEEE-754 binary32); output gradients with magnitude at most 1e30; softmax over 2 and 3 features
// @assume exp, log and tanh are any functions with the facts that hold for glibc's (range, sign, monotonicity, saturation points, NaN propagation); the rest of the arithmetic is IEEE-754 round-to-nearest
// @outside infinite and NaN inputs; accuracy in ulps; sqrt/pow-based layers
#include "repo.hpp"
static float finite(const char* n) { float x = sym_f32_any(n); sym_assume(x - x == 0.f); return x; }
// the far ends, where exp saturates
static float tail(const char* n) { float x = finite(n); if (sym_pick("positive", 0, 1)) sym_assume(x >= 88.75f); else sym_assume(x <= -104.f); return x; }
static bool fin(float y) { return y - y == 0.f; }
static float fwd(const Activation<float>& a, float x) { return a.forward(Tensor<float>(Shape({1}), x))[0]; }
static float bwd(const Activation<float>& a, float x, float g) { return a.backward(Tensor<float>(Shape({1}), x), Tensor<float>(Shape({1}), g))[0]; }
static float grad() { float g = finite("g"); sym_assume(g <= 1e30f && g >= -1e30f); return g; }
ENTRY(qf_relu) { float x = finite("x"), y = fwd(ReLU<float>(), x); sym_assert(x > 0 ? y == x : y == 0, "ReLU is exactly max(0, x)"); float g = grad(), r = bwd(ReLU<float>(), x, g); sym_assert(x > 0 ? r == g : r == 0, "the ReLU gradient is exactly g or 0"); }
ENTRY(qf_leaky) { float x = finite("x"), y = fwd(LeakyReLU<float>(0.25f), x); sym_assert(x > 0 ? y == x : y == x * 0.25f, "LeakyReLU is exactly x or alpha*x"); float g = grad(), r = bwd(LeakyReLU<float>(0.25f), x, g); sym_assert(x > 0 ? r == g : x < 0 ? r == g * 0.25f : true, "the LeakyReLU gradient is exactly g or alpha*g"); }
ENTRY(qf_sigmoid) { float x = finite("x"), y = fwd(Sigmoid<float>(), x); sym_assert(y >= 0.f && y <= 1.f, "sigmoid stays in [0, 1]"); sym_assert(x >= 0 ? y >= 0.5f : y <= 0.5f, "sigmoid has the sign of x around 1/2"); }
ENTRY(qf_sigmoid_saturates) { float x = finite("x"), y = fwd(Sigmoid<float>(), x); sym_assert(x >= 100.f ? y == 1.f : true, "sigmoid saturates at 1"); sym_assert(x <= -104.f ? y == 0.f : true, "sigmoid saturates at 0"); }
ENTRY(qf_sigmoid_back) { float x = finite("x"), r = bwd(Sigmoid<float>(), x, 1.f); sym_assert(r >= 0 && r <= 1, "the sigmoid gradient lies between 0 and g"); }
ENTRY(qf_sigmoid_back_neg) { float x = finite("x"), r = bwd(Sigmoid<float>(), x, -1e30f); sym_assert(r <= 0 && r >= -1e30f, "the sigmoid gradient lies between 0 and g"); }
ENTRY(tf_sigmoid_back) { float x = finite("x"), g = grad(), r = bwd(Sigmoid<float>(), x, g); sym_assert(fin(r), "the sigmoid gradient is finite"); sym_assert(g >= 0 ? r >= 0 && r <= g : r <= 0 && r >= g, "the sigmoid gradient has the sign of g and is no larger"); }
ENTRY(qf_tanh) { float x = finite("x"), y = fwd(Tanh<float>(), x); sym_assert(y >= -1.f && y <= 1.f, "tanh stays in [-1, 1]"); sym_assert(x >= 0 ? y >= 0 : y <= 0, "tanh has the sign of x"); }
ENTRY(qf_tanh_back) { float x = finite("x"), r = bwd(Tanh<float>(), x, 1.f); sym_assert(r >= 0 && r <= 1, "the tanh gradient lies between 0 and g"); }
ENTRY(qf_tanh_back_neg) { float x = finite("x"), r = bwd(Tanh<float>(), x, -1e30f); sym_assert(r <= 0 && r >= -1e30f, "the tanh gradient lies between 0 and g"); }
ENTRY(tf_tanh_back) { float x = finite("x"), g = grad(), r = bwd(Tanh<float>(), x, g); sym_assert(fin(r), "the tanh gradient is finite"); }
ENTRY(qf_swish) { float x = finite("x"), y = fwd(Swish<float>(), x); sym_assert(fin(y), "swish of a finite value is finite"); sym_assert(x >= 0 ? y >= 0 : y <= 0, "swish has the sign of x"); }
ENTRY(qf_swish_back) { float x = finite("x"), r = bwd(Swish<float>(), x, 1.f); sym_assert(r == r, "the swish gradient is not NaN"); }
ENTRY(qf_mish) { float x = finite("x"), y = fwd(Mish<float>(), x); sym_assert(fin(y), "mish of a finite value is finite"); sym_assert(x >= 0 ? y >= 0 : y <= 0, "mish has the sign of x"); }
ENTRY(qf_mish_back) { float x = finite("x"), r = bwd(Mish<float>(), x, 1.f); sym_assert(r == r, "the mish gradient is not NaN"); }
// softmax never overflows: the largest input is subtracted before exponentiating
static void softmax(int n) { Tensor<float> t(Shape({1, n})); float* p = t.getData().data(); for (int i = 0; i < n; ++i) p[i] = finite("x"); auto y = Softmax<float>().forward(t); bool one = false; for (int i = 0; i < n; ++i) { sym_assert(y[i] >= 0.f && y[i] <= 1.f, "softmax outputs lie in [0, 1]"); one |= y[i] * (float)n >= 0.99f; } sym_assert(one, "some softmax output carries at least an n-th of the mass"); }
ENTRY(qf_softmax_1) { softmax(1); }
ENTRY(qf_softmax_2) { softmax(2); }
ENTRY(qf_softmax_2_order) { float a = finite("a"), b = finite("b"); sym_assume(a <= b); auto y = Softmax<float>().forward(Tensor<float>(Shape({1, 2}), std::vector<float>{a, b})); sym_assert(y[0] <= y[1], "softmax keeps the order"); }
ENTRY(tf_softmax_back) { float a = finite("a"), b = finite("b"); auto r = Softmax<float>().backward(Tensor<float>(Shape({1, 2}), std::vector<float>{a, b}), Tensor<float>(Shape({1, 2}), std::vector<float>{1.f, -1.f})); sym_assert(fin(r[0]) && fin(r[1]), "the softmax gradient is finite"); }
ENTRY(tf_softmax_3) { softmax(3); }
ENTRY(qf_mish_tail) { float x = tail("x"), y = fwd(Mish<float>(), x); sym_assert(fin(y), "mish of a finite value is finite"); }
ENTRY(qf_mish_back_tail) { float x = tail("x"), r = bwd(Mish<float>(), x, 1.f); sym_assert(fin(r), "the mish gradient is finite"); }
ENTRY(qf_swish_tail) { float x = tail("x"), y = fwd(Swish<float>(), x); sym_assert(fin(y), "swish of a finite value is finite"); }
ENTRY(qf_swish_back_tail) { float x = tail("x"), r = bwd(Swish<float>(), x, 1.f); sym_assert(fin(r), "the swish gradient is finite"); }
ENTRY(qf_sigmoid_tail) { float x = tail("x"), y = fwd(Sigmoid<float>(), x), r = bwd(Sigmoid<float>(), x, 1.f); sym_assert(y >= 0.f && y <= 1.f, "sigmoid stays in [0, 1]"); sym_assert(r >= 0.f && r <= 1.f, "the sigmoid gradient lies between 0 and g"); }
ENTRY(qf_tanh_tail) { float x = tail("x"), y = fwd(Tanh<float>(), x), r = bwd(Tanh<float>(), x, 1.f); sym_assert(y >= -1.f && y <= 1.f, "tanh stays in [-1, 1]"); sym_assert(r >= 0.f && r <= 1.f, "the tanh gradient lies between 0 and g"); }
