// @bounds sample counts -2..5 and listed ones up to 100, batch sizes 1..6 and listed ones up to 65 and (for rejection) every int; every uniform draw in [0,1) and every standard normal draw in [-8,8], noise scale symbolic in [0.01,4] and the default; 1100 samples
// @assume std::uniform_real_distribution and std::normal_distribution return values of their documented ranges (any such value is explored)
// @outside the distribution of the draws; a noise scale of zero or below (the standard library requires a positive deviation); counts so large that memory is exhausted
#include "repo.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
static void sample(float x, float y, int i, float noise) {
  check_eq(x, (float)(100 * rng_uniform_log[i]), "the input is a uniform draw scaled to [0, 100)"); sym_assert(x >= 0 && x <= 100, "inputs lie in [0, 100]");
  check_eq(y, 2 * x + 3 + (float)rng_normal_log[i] * noise, "the target is 2x + 3 plus its own noise draw"); }
static void linear(int n, float noise, bool dflt) { rng_symbolic = 1; auto d = dflt ? generateLinearDataset(n) : generateLinearDataset(n, noise); int m = n > 0 ? n : 0; sym_assert((int)d.first.size() == m && (int)d.second.size() == m, "as many inputs and targets as requested"); for (int i = 0; i < m; ++i) { checkDims(d.first[i], {1}, "one value per input"); checkDims(d.second[i], {1}, "one value per target"); sample(raw(d.first[i])[0], raw(d.second[i])[0], i, noise); } }
ENTRY(qr_linear) { linear(sym_pick("n", -2, 5), sym_f32("noise", 0.01, 4), false); }
ENTRY(qr_linear_default) { linear(sym_pick("n", 1, 3), 1.0f, true); }
static void batched(int n, int b, float noise, bool dflt) { rng_symbolic = 1; auto d = dflt ? generateBatchedLinearDataset(n, b) : generateBatchedLinearDataset(n, b, noise); int m = n > 0 ? n : 0, at = 0; sym_assert(d.first.size() == d.second.size(), "as many target batches as input batches");
  for (size_t k = 0; k < d.first.size(); ++k) { int cur = std::min(b, m - at); sym_assert(cur > 0, "no empty batch"); checkDims(d.first[k], {cur, 1}, "input batches are full except the last"); checkDims(d.second[k], {cur, 1}, "target batches are full except the last"); for (int j = 0; j < cur; ++j, ++at) sample(raw(d.first[k])[j], raw(d.second[k])[j], at, noise); } sym_assert(at == m, "as many samples as requested"); }
ENTRY(qr_batched) { batched(sym_pick("n", -2, 5), sym_pick("batch", 1, 6), sym_f32("noise", 0.01, 4), false); }
ENTRY(qr_batched_default) { batched(sym_pick("n", 1, 3), sym_pick("batch", 1, 2), 1.0f, true); }
ENTRY(qr_batch_rejected) { int b = sym_i32("batch", -2147483647 - 1, 2147483647), n = sym_pick("n", 0, 2); bool rej = rejected([&] { auto d = generateBatchedLinearDataset(n, b); sym_assert((int)d.first.size() == (n == 0 ? 0 : b >= n ? 1 : 2), "number of batches"); }); sym_assert(rej == (b <= 0), "batch sizes must be positive"); }
ENTRY(qr_independent) { rng_symbolic = 1; auto a = generateLinearDataset(2, 1.0f); auto b = generateLinearDataset(2, 1.0f); sample(raw(a.first[1])[0], raw(a.second[1])[0], 1, 1.0f); sample(raw(b.first[0])[0], raw(b.second[0])[0], 2, 1.0f); a.first[0] *= 2.0f; sample(raw(a.first[1])[0], raw(a.second[1])[0], 1, 1.0f); }
ENTRY(qr_linear_long) { static const int N[] = {16, 33, 100}; linear(N[sym_pick("n", 0, 2)], sym_f32("noise", 0.01, 4), false); }
ENTRY(qr_batched_long) { static const int N[] = {6, 7, 8, 12, 16, 33, 64}, B[] = {1, 2, 4, 5, 7, 8, 16, 32, 33, 64, 65}; batched(N[sym_pick("n", 0, 6)], B[sym_pick("batch", 0, 10)], sym_f32("noise", 0.01, 4), false); }
// histories of generator calls: every sample uses draws of its own, and data handed out earlier stay as they are
ENTRY(qr_history) { rng_symbolic = 1; int used = 0; std::vector<Tensor<float>> kept; std::vector<std::vector<float>> v; for (int s = 0; s < 3; ++s) { int op = sym_pick("op", 0, 2); if (op == 0) { auto d = generateLinearDataset(2, 0.5f); for (int i = 0; i < 2; ++i, ++used) { sample(raw(d.first[i])[0], raw(d.second[i])[0], used, 0.5f); kept.push_back(d.first[i]); v.push_back(values(d.first[i])); kept.push_back(d.second[i]); v.push_back(values(d.second[i])); } } else if (op == 1) { auto d = generateBatchedLinearDataset(3, 2, 0.5f); for (int i = 0; i < 3; ++i, ++used) sample(raw(d.first[i / 2])[i % 2], raw(d.second[i / 2])[i % 2], used, 0.5f); kept.push_back(d.first[1]); v.push_back(values(d.first[1])); } else rejected([&] { generateBatchedLinearDataset(3, 0); }); } for (size_t i = 0; i < kept.size(); ++i) checkTensor(kept[i], kept[i].getShape().getDimensions(), v[i], "data handed out earlier stay as they are"); }
ENTRY(tr_linear) { linear(sym_pick("n", 6, 40), sym_f32("noise", 0.01, 4), false); }
ENTRY(tr_batched) { batched(sym_pick("n", 6, 20), sym_pick("batch", 1, 12), sym_f32("noise", 0.01, 4), false); }
// many samples
ENTRY(qr_huge) { if (sym_pick("batched", 0, 1)) batched(1030, 40, 0.5f, false); else linear(1100, 0.5f, false); }
