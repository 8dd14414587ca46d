// @bounds shapes up to 33 elements; the values produced by the underlying standard generator are arbitrary: normal draws in [-8,8] standard deviations, uniform draws in [0,1); min/max symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements) and up to 1089 elements; histories of two seeded sequences with other draws between; beyond that, 5000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume std::normal_distribution / generate_canonical are stubs returning arbitrary values of their documented range; the statistical quality of the generator is not part of the property
// @outside distribution moments
#include "repo.hpp"
static const Dims S[] = {{1}, {5}, {2, 3}, {2, 2, 2}};
ENTRY(qr_rand) { rng_symbolic = 1; const Dims& d = S[sym_pick("shape", 0, 3)]; int how = sym_pick("how", 0, 1); int n = prodOf(d); auto t = how ? Tensor<float>::rand(Shape(d)) : Tensor<float>::rand(n); checkDims(t, how ? d : Dims{n}, "shape of a random tensor"); for (int i = 0; i < n; ++i) sym_assert(t[i] >= 0 && t[i] <= 1, "rand stays in [0, 1]"); sym_assert(rng_draws >= n, "every element is drawn"); }
ENTRY(qr_randn) { rng_symbolic = 1; const Dims& d = S[sym_pick("shape", 0, 2)]; int n = prodOf(d), how = sym_pick("how", 0, 1); float lo = sym_f32("lo", -3, 3), hi = sym_f32("hi", -3, 3); sym_assume(lo <= hi); auto t = how ? Tensor<float>::randn(Shape(d), lo, hi) : Tensor<float>::randn(n, lo, hi); checkDims(t, how ? d : Dims{n}, "shape"); for (int i = 0; i < n; ++i) sym_assert(t[i] >= lo && t[i] <= hi, "randn stays in [min, max]"); sym_assert(rng_draws >= n, "every element is drawn"); }
ENTRY(qr_range) { rng_symbolic = 1; float lo = sym_f32("lo", -9, 9), hi = sym_f32("hi", -9, 9); sym_assume(lo < hi); float x = RandomEngine::getRandRange(lo, hi), y = RandomEngine::getHeRandRange(4, lo, hi), u = RandomEngine::getRand(); sym_assert(x >= lo && x <= hi, "getRandRange stays in range"); sym_assert(y >= lo && y <= hi, "getHeRandRange stays in range"); sym_assert(u >= 0 && u <= 1, "getRand stays in [0, 1]"); }
// the clamp keeps in-range draws: a draw inside [min, max] is returned as it is
ENTRY(qr_clamp_transparent) { rng_symbolic = 1; float n = 2; float y = RandomEngine::getHeRandRange(n, -100, 100), z = RandomEngine::getHeInit(n); sym_assert(y >= -8 && y <= 8 && z >= -8 && z <= 8, "draws have the He standard deviation sqrt(2/n)"); float w = RandomEngine::getXavierInit(1); sym_assert(w >= -8 && w <= 8, "draws have the Xavier standard deviation sqrt(1/n)"); }
// reseeding repeats the sequence
ENTRY(qr_seed) { unsigned s = (unsigned)sym_pick("seed", 0, 3) * 7919u; RandomEngine::setSeed(s); auto a = Tensor<float>::rand(Shape({2, 3})); float x = RandomEngine::getRand(); RandomEngine::setSeed(s); auto b = Tensor<float>::rand(Shape({2, 3})); float y = RandomEngine::getRand(); checkTensor(a, {2, 3}, values(b), "the same seed gives the same tensor"); check_eq(x, y, "the same seed gives the same draw"); bool same = true; for (int i = 1; i < 6; ++i) if (a[i] != a[0]) same = false; sym_assert(!same, "elements are separate draws"); }
ENTRY(qr_layers_init) { rng_symbolic = 1; auto t = Tensor<double>::rand(Shape({2, 2})); for (int i = 0; i < 4; ++i) sym_assert(t[i] >= 0 && t[i] <= 1, "rand stays in [0, 1] (double)"); }
ENTRY(qr_layers_draw) { rng_symbolic = 1; FullyConnectedLayer<float> L(2, 1); auto W = L.getWeights(); checkDims(W, {2, 1}, "fully connected weights"); for (int i = 0; i < 2; ++i) sym_assert(W[i] >= 0 && W[i] <= 1, "fully connected weights start in [0, 1]"); checkTensor(L.getBiases(), {1, 1}, {0}, "biases start at zero"); Conv2DLayer<float> C(1, 2, 1, 1, 1, 0, 1); auto K = C.getWeights(); checkDims(K, {2, 1, 1, 1}, "convolution kernels"); for (int i = 0; i < 2; ++i) sym_assert(K[i] >= 0 && K[i] <= 1, "kernels start in [0, 1]"); checkTensor(C.getBiases(), {2, 1}, {0, 0}, "biases start at zero"); sym_assert(rng_draws >= 4, "every parameter is drawn separately"); }
// Reseeding determines everything drawn afterwards, whatever was drawn before and through whichever function.
static float drawOne(int k) { switch (k) { case 0: return RandomEngine::getRand(); case 1: return RandomEngine::getRandRange(-2.f, 3.f); case 2: return RandomEngine::getHeInit(3.f); case 3: return RandomEngine::getXavierInit(5.f); case 4: return RandomEngine::getHeRandRange(2.f, -9.f, 9.f); case 5: return Tensor<float>::rand(Shape({3})).getData()[2]; case 6: return Tensor<float>::randn(Shape({3}), -9.f, 9.f).getData()[2]; case 7: return Tensor<float>::randn(1, -9.f, 9.f).getData()[0]; case 8: { DropoutLayer<float> d(0.5f); auto y = d.forward(Tensor<float>(Shape({3}), 1.f)); return y[0] + y[1] + y[2]; } default: return FullyConnectedLayer<float>(2, 1).getWeights()[1]; } }
ENTRY(qr_seed_history) { static const unsigned SEEDS[] = {0, 1, 5489, 4294967295u}; unsigned s = SEEDS[sym_pick("seed", 0, 3)]; int first = sym_pick("before", 0, 9), n = sym_pick("times", 0, 2), kind = sym_pick("draw", 0, 9); RandomEngine::setSeed(s); float a = drawOne(kind), b = drawOne((kind + 3) % 10); RandomEngine::setSeed(7); for (int i = 0; i < n; ++i) drawOne(first); RandomEngine::setSeed(s); float c = drawOne(kind), d = drawOne((kind + 3) % 10); check_eq(a, c, "the same seed gives the same first draw"); check_eq(b, d, "the same seed gives the same later draw"); }
ENTRY(qr_seed_distinct) { int kind = sym_pick("draw", 0, 7); if (kind == 5) kind = 9; bool differ = false; RandomEngine::setSeed(1); float a[4]; for (float& x : a) x = drawOne(kind); RandomEngine::setSeed(2); for (float x : a) if (drawOne(kind) != x) differ = true; sym_assert(differ, "different seeds give different sequences"); bool moves = false; for (int i = 1; i < 4; ++i) if (a[i] != a[0]) moves = true; sym_assert(moves, "successive draws differ"); }
ENTRY(qr_shapes) { const Dims& d = pickShape(); int n = prodOf(d); auto t = Tensor<float>::rand(Shape(d)), r = Tensor<float>::randn(Shape(d), -1.f, 1.f); checkDims(t, d, "rand shape"); checkDims(r, d, "randn shape"); for (int i = 0; i < n; ++i) { sym_assert(t[i] >= 0 && t[i] <= 1, "rand stays in [0, 1]"); sym_assert(r[i] >= -1 && r[i] <= 1, "randn stays in [min, max]"); } sym_assert(rng_draws >= 2 * n, "every element is drawn"); }
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 515}}; const Dims& d = S[sym_pick("shape", 0, 2)]; auto t = Tensor<float>::rand(Shape(d)), r = Tensor<float>::randn(Shape(d), -1.f, 1.f); checkDims(t, d, "rand shape"); int n = prodOf(d); float last = t[n - 1]; bool m = false, k = false; for (int i = 0; i < n; ++i) { sym_assert(t[i] >= 0 && t[i] <= 1 && r[i] >= -1 && r[i] <= 1, "bounds"); if (i >= n - 40 && t[i] != last) m = true; if (i >= n - 40 && r[i] != r[n - 1]) k = true; } sym_assert(m && k, "the last elements are drawn too"); sym_assert(rng_draws >= 2 * n, "every element is drawn"); }
// different draws give different values (nothing collapses), and the spread is the documented one
ENTRY(qr_injective) { rng_symbolic = 1; float lo = sym_f32("lo", -9, 9), hi = sym_f32("hi", -9, 9), n = sym_f32("n", 1, 16); sym_assume(lo < hi); float x = RandomEngine::getRandRange(lo, hi), y = RandomEngine::getRandRange(lo, hi); sym_assert(rng_uniforms >= 2, "each call draws"); if (rng_uniforms == 2 && rng_uniform_log[0] != rng_uniform_log[1]) sym_assert(x != y, "different draws give different values"); float h = RandomEngine::getHeInit(n); double z = rng_normal_log[rng_normals - 1]; check_eq(h * h * n, (float)(2 * z * z), "He initialisation has variance 2/n"); sym_assert(rng_normals >= 1, "a normal draw"); float w = RandomEngine::getXavierInit(n); z = rng_normal_log[rng_normals - 1]; check_eq(w * w * n, (float)(z * z), "Xavier initialisation has variance 1/n"); float q = RandomEngine::getHeRandRange(n, -100, 100); z = rng_normal_log[rng_normals - 1]; check_eq(q * q * n, (float)(2 * z * z), "a clamp that does not apply is transparent"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{5000}}; const Dims& d = S[sym_pick("shape", 0, 0)]; auto t = Tensor<float>::rand(Shape(d)), r = Tensor<float>::randn(Shape(d), -1.f, 1.f); checkDims(t, d, "rand shape"); int n = prodOf(d); float last = t[n - 1]; bool m = false, k = false; for (int i = 0; i < n; ++i) { sym_assert(t[i] >= 0 && t[i] <= 1 && r[i] >= -1 && r[i] <= 1, "bounds"); if (i >= n - 40 && t[i] != last) m = true; if (i >= n - 40 && r[i] != r[n - 1]) k = true; } sym_assert(m && k, "the last elements are drawn too"); sym_assert(rng_draws >= 2 * n, "every element is drawn"); }
// a degenerate range holds one value
ENTRY(qr_degenerate) { rng_symbolic = 1; float c = sym_f32("c", -9, 9); check_eq(RandomEngine::getHeRandRange(4.f, c, c), c, "a degenerate range has one value"); auto t = Tensor<float>::randn(Shape({2}), c, c); check_eq(t[0], c, "a degenerate range has one value"); check_eq(t[1], c, "a degenerate range has one value"); }
// a range on one side of zero, touching zero, far from zero
ENTRY(qr_ranges) { rng_symbolic = 1; static const float L[] = {0, -1, 3, -7, 100, -1000, -0.001f}, H[] = {1, 0, 5, -6, 101, 1000, 0.001f}; int k = sym_pick("range", 0, 6); float lo = L[k], hi = H[k]; float y = RandomEngine::getHeRandRange(2.f, lo, hi), x = RandomEngine::getRandRange(lo, hi); auto t = Tensor<float>::randn(Shape({2}), lo, hi); sym_assert(y >= lo && y <= hi, "getHeRandRange stays in range"); sym_assert(x >= lo && x <= hi, "getRandRange stays in range"); for (int i = 0; i < 2; ++i) sym_assert(t[i] >= lo && t[i] <= hi, "randn stays in [min, max]"); }
