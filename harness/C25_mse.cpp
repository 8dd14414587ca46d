// @bounds every shape of rank 1 (up to 6 elements) and rank 2 (up to 4x4), every catalogue shape (rank 1..6, up to 65 elements), listed shapes up to 300 elements, rank-1 targets for (n,1) predictions; histories of 3 calls on one loss object; values symbolic; beyond that, 5000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic
// @outside rounding
#include "repo.hpp"
static void check(const Dims& pd, const Dims& td) {
  int n = prodOf(pd); auto p = symTensor<float>(pd, "p"), t = symTensor<float>(td, "t"); auto pv = values(p), tv = values(t); MSELoss<float> L; float s = 0; for (int i = 0; i < n; ++i) s += (pv[i] - tv[i]) * (pv[i] - tv[i]);
  auto l = L.compute(p, t); sym_assert(l.getShape().size() == 1, "the loss is a scalar"); check_eq(l[0], s / (float)n, "the loss is the mean squared difference"); sym_assert(l[0] >= 0, "the loss is not negative");
  auto g = L.gradient(p, t); checkDims(g, pd, "the gradient has the prediction's shape"); for (int i = 0; i < n; ++i) { check_eq(g[i], 2 * (pv[i] - tv[i]) / (float)n, "gradient of the mean squared error"); check_eq(g[i], sym_grad_f32(l[0], p[i], "dp"), "the gradient is the derivative of the loss"); }
  checkTensor(p, pd, pv, "prediction unchanged"); checkTensor(t, td, tv, "target unchanged"); }
ENTRY(qr_rank1) { Dims d = pickDims(1, 1, 6); check(d, d); }
ENTRY(qr_rank2) { Dims d = pickDims(2, 1, 4); check(d, d); }
ENTRY(qr_listed) { static const Dims S[] = {{2, 3, 4}, {1, 2, 2, 3}, {17}, {2, 1, 3}, {8, 3}, {1, 1, 1}}; const Dims& d = S[sym_pick("shape", 0, 5)]; check(d, d); }
ENTRY(qr_rank1_target) { int n = sym_pick("n", 1, 5); int k = sym_pick("k", 0, 1); check(k ? Dims{n, 1, 1} : Dims{n, 1}, {n}); }
ENTRY(qr_zero) { auto p = symTensor<float>({2, 2}, "p"); auto t = symTensor<float>({2, 2}, "t"); MSELoss<float> L; auto a = L.compute(p, p), g = L.gradient(p, p); check_eq(a[0], 0.f, "the loss of a perfect prediction is zero"); checkTensor(g, {2, 2}, {0, 0, 0, 0}, "and so is its gradient"); check_eq(L.compute(p, t)[0], L.compute(t, p)[0], "the loss is symmetric"); sym_assume(p[3] > t[3]); sym_assert(L.compute(p, t)[0] > 0, "a wrong prediction has a positive loss"); }
ENTRY(qr_repeat) { MSELoss<float> L, M; auto p = symTensor<float>({2, 2}, "p"), t = symTensor<float>({2, 2}, "t"), q = symTensor<float>({3}, "q"), u = symTensor<float>({3}, "u"); L.compute(p, t); L.gradient(p, t); check_eq(L.compute(q, u)[0], M.compute(q, u)[0], "the loss does not depend on earlier calls"); checkTensor(L.gradient(q, u), {3}, values(M.gradient(q, u)), "nor does the gradient"); }
ENTRY(qr_reject) { static const Dims P[] = {{2, 3}, {2, 3}, {2, 3}, {2, 3}, {3}, {2, 2}, {2, 2, 2}, {4, 1}, {1, 4}}, Q[] = {{3, 2}, {2, 2}, {6}, {2}, {1, 3}, {1, 2}, {2, 2}, {3}, {4}}; int k = sym_pick("k", 0, 8); auto p = symTensor<float>(P[k], "p"), t = symTensor<float>(Q[k], "t"); MSELoss<float> L; bool grad = sym_pick("grad", 0, 1); sym_assert(rejected([&] { if (grad) L.gradient(p, t); else L.compute(p, t); }), "prediction and target of different shapes are rejected"); }
ENTRY(qr_double) { sym_precise(); auto p = symTensor<double>({3}, "p"), t = symTensor<double>({3}, "t"); MSELoss<double> L; double s = 0; for (int i = 0; i < 3; ++i) s += (p[i] - t[i]) * (p[i] - t[i]); check_eq(L.compute(p, t)[0], s / 3, "the loss (double)"); auto g = L.gradient(p, t); for (int i = 0; i < 3; ++i) check_eq(g[i], 2 * (p[i] - t[i]) / 3, "the gradient (double)"); }
// every catalogue shape, long tensors (explicit gradient)
static void plain(const Dims& d, const Dims& td) { int n = prodOf(d); auto p = symTensor<float>(d, "p"), t = symTensor<float>(td, "t"); auto pv = values(p), tv = values(t); MSELoss<float> L; float s = 0; for (int i = 0; i < n; ++i) s += (pv[i] - tv[i]) * (pv[i] - tv[i]); check_eq(L.compute(p, t)[0], s / (float)n, "the loss is the mean squared difference"); auto g = L.gradient(p, t); std::vector<float> e(n); for (int i = 0; i < n; ++i) e[i] = 2 * (pv[i] - tv[i]) / (float)n; checkTensor(g, d, e, "gradient of the mean squared error"); checkTensor(p, d, pv, "prediction unchanged"); checkTensor(t, td, tv, "target unchanged"); }
ENTRY(qr_catalogue) { const Dims& d = pickShape(65); plain(d, d); }
ENTRY(qr_long) { static const Dims S[] = {{257}, {16, 17}, {2, 129}, {129, 2}, {4, 4, 4, 4}, {300, 1}}; const Dims& d = S[sym_pick("shape", 0, 5)]; plain(d, d); }
ENTRY(qr_long_target) { int n = sym_pick("n", 6, 9); n = n == 9 ? 130 : n; plain({n, 1}, {n}); }
// one loss object over a history of losses and gradients of different shapes
ENTRY(qr_history) { MSELoss<float> L; static const Dims D[] = {{2, 2}, {3}, {4}, {2, 1, 2}, {1, 3}}; for (int k = 0; k < 3; ++k) { const Dims& d = D[sym_pick("shape", 0, 4)]; int n = prodOf(d); auto p = symTensor<float>(d, "p"), t = symTensor<float>(d, "t"); int op = sym_pick("op", 0, 2); if (op == 2) { rejected([&] { L.compute(p, Tensor<float>({5, 2}, 1.f)); }); rejected([&] { L.gradient(p, Tensor<float>({7}, 1.f)); }); continue; } if (op == 0) { float s = 0; for (int i = 0; i < n; ++i) s += (p[i] - t[i]) * (p[i] - t[i]); check_eq(L.compute(p, t)[0], s / (float)n, "the loss does not depend on earlier calls"); } else { auto g = L.gradient(p, t); checkDims(g, d, "gradient shape"); for (int i = 0; i < n; ++i) check_eq(g[i], 2 * (p[i] - t[i]) / (float)n, "the gradient does not depend on earlier calls"); } } }
// the same tensor on both sides, and a target that shares its contents with the prediction
ENTRY(qr_alias) { const Dims& d = pickShape(12); auto p = symTensor<float>(d, "p"); MSELoss<float> L; check_eq(L.compute(p, p)[0], 0.f, "a prediction equals itself"); auto g = L.gradient(p, p); for (int i = 0; i < prodOf(d); ++i) check_eq(g[i], 0.f, "no gradient at the minimum"); g[0] = 5; auto v = values(p); checkTensor(p, d, v, "the gradient does not alias the prediction"); }
ENTRY(tr_rank3) { Dims d = pickDims(3, 1, 4); check(d, d); }
// beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{5000}, {600, 3}, {3, 600}}; const Dims& d = S[sym_pick("shape", 0, 2)]; plain(d, d); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e4; static const Dims S[] = {{1}, {3}, {2, 2}, {2, 1, 2}}; const Dims& d = S[sym_pick("shape", 0, 3)]; check(d, d); }
ENTRY(qr_magnitudes_row) { WIDE = 1e4; check({3, 1}, {3}); }
// arbitrary IEEE values
ENTRY(qf_ieee) { auto p = anyTensor<float>({1}, "p"), t = anyTensor<float>({1}, "t"); MSELoss<float> L; float d = p[0] - t[0]; fpSame(L.compute(p, t)[0], d * d, "loss of arbitrary floats"); fpSame(L.gradient(p, t)[0], 2 * d, "gradient of arbitrary floats"); }
ENTRY(qr_extents) { int n = sym_pick("n", 1, 33), m = sym_pick("m", 1, 4), how = sym_pick("how", 0, 2); if (how == 2) { plain({n, 1}, {n}); return; } Dims d = how ? Dims{m, n} : Dims{n, m}; plain(d, d); }
