// @bounds shapes of ranks 1..4 up to 33 elements; elements symbolic (arbitrary floats in the FP entries); the applied function is affine, quadratic or a branch on a symbolic threshold; identity sizes 1..6; a catalogue of 61 shapes (rank 1..6, up to 65 elements), up to 1089 elements, identity up to 65; beyond that, up to 66000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); identity up to 257; functions with state
// @assume real arithmetic in the qr_ entries; sqrt is the exact square root there
#include "repo.hpp"
typedef AdvancedTensorOperations<float> A; typedef TensorOperations<float, CPUDevice> O;
static const Dims S[] = {{1}, {5}, {2, 3}, {2, 1, 2}, {33}, {2, 2, 1, 3}};
ENTRY(qr_apply) { const Dims& d = S[sym_pick("shape", 0, 5)]; int how = sym_pick("how", 0, 3); auto a = symTensor<float>(d, "a"); auto v = values(a), e = v; float s = sym_f32("s", -2, 2), t = sym_f32("t", -2, 2); auto f = [s, t](float x) { return s * x * x + t; }; for (auto& x : e) x = f(x); if (how == 0) { checkTensor(A::apply(a, f), d, e, "apply maps every element"); checkTensor(a, d, v, "operand unchanged"); } else if (how == 1) { auto& r = a.apply(f); sym_assert(&r == &a, "apply returns the tensor"); checkTensor(a, d, e, "in-place apply maps every element"); } else if (how == 2) { checkTensor(Tensor<float>(O::apply(a.getData(), f)), d, e, "TensorOperations::apply"); checkTensor(a, d, v, "operand unchanged"); } else { O::applyInPlace(a.getData(), f); checkTensor(a, d, e, "TensorOperations::applyInPlace"); } }
ENTRY(qr_apply_once) { auto a = symTensor<float>({2, 3}, "a"); auto v = values(a); int calls = 0; auto r = A::apply(a, [&](float x) { ++calls; return x; }); sym_assert(calls == 6, "the function is called once per element"); checkTensor(r, {2, 3}, v, "identity"); }
ENTRY(qr_applypair) { const Dims& d = S[sym_pick("shape", 0, 5)]; auto a = symTensor<float>(d, "a"), b = symTensor<float>(d, "b"); auto v = values(a), w = values(b), e = v; float s = sym_f32("s", -2, 2); auto f = [s](float x, float y) { return x * s - y; }; for (size_t i = 0; i < e.size(); ++i) e[i] = f(v[i], w[i]); checkTensor(A::applyPair(a, b, f), d, e, "applyPair combines corresponding elements"); checkTensor(a, d, v, "operand unchanged"); checkTensor(b, d, w, "operand unchanged"); }
ENTRY(qr_applypair_shape) { static const Dims p[][2] = {{{2, 3}, {3, 2}}, {{2, 3}, {6}}, {{2, 3}, {1, 3}}, {{4}, {5}}}; int k = sym_pick("pair", 0, 3); auto a = symTensor<float>(p[k][0], "a"), b = symTensor<float>(p[k][1], "b"); sym_assert(rejected([&] { A::applyPair(a, b, [](float x, float y) { return x + y; }); }), "different shapes are rejected"); }
ENTRY(qr_reciprocal) { int n = sym_pick("n", 1, 2); auto a = symTensor<float>({n}, "a", -2, 2); auto v = values(a); float eps = sym_f32("eps", 0.01, 1); auto r = A::reciprocal(a, eps); for (int i = 0; i < n; ++i) { float ax = v[i] < 0 ? -v[i] : v[i]; if (ax > eps) check_eq(r[i] * v[i], 1.f, "reciprocal of an element above epsilon"); else check_eq(r[i] * eps, 1.f, "reciprocal of a tiny element is 1/epsilon"); } checkTensor(a, {n}, v, "operand unchanged"); checkDims(r, {n}, "shape"); }
ENTRY(qr_reciprocal_default) { auto a = symTensor<float>({2}, "a", 0.001, 4); auto r = A::reciprocal(a); for (int i = 0; i < 2; ++i) check_eq(r[i] * a[i], 1.f, "reciprocal"); auto b = symTensor<float>({2}, "b", -4, -0.001); r = A::reciprocal(b); for (int i = 0; i < 2; ++i) check_eq(r[i] * b[i], 1.f, "reciprocal of a negative element"); }
ENTRY(qr_sqrt) { const Dims& d = S[sym_pick("shape", 0, 4)]; auto a = symTensor<float>(d, "a", 0, 9); auto v = values(a); auto r = a.sqrt(); checkDims(r, d, "shape"); for (size_t i = 0; i < v.size(); ++i) check_eq(r[i], std::sqrt(v[i]), "square root of every element"); checkTensor(a, d, v, "operand unchanged"); O::sqrtInPlace(a.getData()); for (size_t i = 0; i < v.size(); ++i) check_eq(a[i], std::sqrt(v[i]), "in-place square root"); }
ENTRY(qr_factories) { const Dims& d = S[sym_pick("shape", 0, 5)]; int n = prodOf(d); checkTensor(Tensor<float>::ones(Shape(d)), d, std::vector<float>(n, 1.f), "ones"); checkTensor(Tensor<float>::zeros(Shape(d)), d, std::vector<float>(n, 0.f), "zeros"); float s = sym_f32("s", -4, 4); checkTensor(Tensor<float>(O::createFill(Shape(d), s)), d, std::vector<float>(n, s), "fill"); checkTensor(Tensor<float>::ones(n), {n}, std::vector<float>(n, 1.f), "ones of a length"); checkTensor(Tensor<float>::zeros(n), {n}, std::vector<float>(n, 0.f), "zeros of a length"); }
ENTRY(qr_identity) { int n = sym_pick("n", -1, 6); bool rej = false; try { auto t = Tensor<float>::identity(n); std::vector<float> e(n * n, 0.f); for (int i = 0; i < n; ++i) e[i * n + i] = 1; checkTensor(t, {n, n}, e, "identity matrix"); } catch (const std::exception&) { rej = true; } sym_assert(rej == (n <= 0), "an identity needs a positive size"); }
// floating-point: specials propagate through elementwise operations exactly as through the scalar operation
ENTRY(qf_apply_any) { auto a = anyTensor<float>({3}, "a"); auto r = A::apply(a, [](float x) { return -x; }); for (int i = 0; i < 3; ++i) sym_assert(r[i] == -a[i] || (a[i] != a[i] && r[i] != r[i]), "apply on arbitrary floats"); }
ENTRY(qf_reciprocal_any) { auto a = anyTensor<float>({1}, "a"); sym_assume(a[0] == a[0]); auto r = A::reciprocal(a, 0.5f); sym_assert(r[0] <= 2.f && r[0] >= -2.f, "reciprocal is bounded by 1/epsilon"); sym_assert(std::fabs(a[0]) > 0.5f || r[0] == 2.f, "an element at most epsilon in magnitude gives exactly 1/epsilon"); }
ENTRY(qr_catalogue) { const Dims& d = pickShape(); auto a = symTensor<float>(d, "a"), b = symTensor<float>(d, "b"); auto v = values(a), w = values(b); auto f = [](float x) { return 3.f * x - 1.f; }; auto g = [](float x, float y) { return x - 2.f * y; }; std::vector<float> e = v, h = v; for (size_t i = 0; i < v.size(); ++i) { e[i] = f(v[i]); h[i] = g(v[i], w[i]); } checkTensor(A::apply(a, f), d, e, "apply maps every element"); checkTensor(A::applyPair(a, b, g), d, h, "applyPair combines corresponding elements"); checkTensor(Tensor<float>(O::apply(a.getData(), f)), d, e, "TensorOperations::apply"); checkTensor(a, d, v, "operand unchanged"); checkTensor(b, d, w, "operand unchanged"); a.apply(f); checkTensor(a, d, e, "in-place apply"); O::applyInPlace(b.getData(), f); for (size_t i = 0; i < w.size(); ++i) check_eq(b[i], f(w[i]), "TensorOperations::applyInPlace"); int n = prodOf(d); checkTensor(Tensor<float>::ones(Shape(d)), d, std::vector<float>(n, 1.f), "ones"); checkTensor(Tensor<float>::zeros(Shape(d)), d, std::vector<float>(n, 0.f), "zeros"); }
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 515}}; const Dims& d = S[sym_pick("shape", 0, 2)]; auto a = symTensor<float>(d, "a"), b = symTensor<float>(d, "b"); auto f = [](float x) { return 3.f * x - 1.f; }; auto g = [](float x, float y) { return x - 2.f * y; }; auto r = A::apply(a, f), p = A::applyPair(a, b, g); checkDims(r, d, "shape"); checkDims(p, d, "shape"); for (int i = 0; i < prodOf(d); ++i) { check_eq(r[i], f(a[i]), "apply maps every element"); check_eq(p[i], g(a[i], b[i]), "applyPair combines corresponding elements"); } int n = prodOf(d); checkTensor(Tensor<float>::ones(n), {n}, std::vector<float>(n, 1.f), "ones"); checkTensor(Tensor<float>::zeros(Shape(d)), d, std::vector<float>(n, 0.f), "zeros"); auto v = values(a); a.apply(f); for (int i = 0; i < n; ++i) check_eq(a[i], f(v[i]), "in-place apply"); }
ENTRY(qr_reciprocal_shapes) { const Dims& d = pickShape(36); auto a = divTensor<float>(d, "a"); auto v = values(a); auto r = A::reciprocal(a); checkDims(r, d, "shape"); for (size_t i = 0; i < v.size(); ++i) check_eq(r[i] * v[i], 1.f, "reciprocal of every element"); checkTensor(a, d, v, "operand unchanged"); float eps = sym_f32("eps", 5, 9); r = A::reciprocal(a, eps); for (size_t i = 0; i < v.size(); ++i) check_eq(r[i] * eps, 1.f, "elements below epsilon give 1/epsilon"); }
ENTRY(qr_sqrt_shapes) { const Dims& d = pickShape(36); auto a = symTensor<float>(d, "a", 0, 9); auto v = values(a); auto r = a.sqrt(); checkDims(r, d, "shape"); for (size_t i = 0; i < v.size(); ++i) { check_eq(r[i] * r[i], v[i], "the square of the root"); sym_assert(r[i] >= 0, "the root is not negative"); } auto b = a; b[0] = 4; check_eq(a[0], v[0], "operand unchanged"); }
ENTRY(qr_identity_large) { static const int N[] = {8, 9, 16, 17, 32, 33}; int n = N[sym_pick("n", 0, 5)]; auto t = Tensor<float>::identity(n); std::vector<float> e(n * n, 0.f); for (int i = 0; i < n; ++i) e[i * n + i] = 1; checkTensor(t, {n, n}, e, "identity matrix"); }
// the function object is taken by value or reference without being shared between calls; the order of pairs is kept
ENTRY(qr_history) { auto a = symTensor<float>({2, 3}, "a"), b = symTensor<float>({3, 2}, "b"), c = symTensor<float>({2, 3}, "c"); float k = sym_f32("k", -2, 2); auto f = [&k](float x) { return x * k; }; auto r = A::apply(a, f); k = k + 1; auto s = A::apply(b, f); for (int i = 0; i < 6; ++i) { check_eq(r[i], a[i] * (k - 1), "first call"); check_eq(s[i], b[i] * k, "second call"); } sym_assert(rejected([&] { A::applyPair(a, b, [](float x, float y) { return x + y; }); }), "different shapes are rejected"); auto p = A::applyPair(a, c, [](float x, float y) { return x - y; }), q = A::applyPair(c, a, [](float x, float y) { return x - y; }), z = A::applyPair(a, a, [](float x, float y) { return x + y; }); for (int i = 0; i < 6; ++i) { check_eq(p[i], a[i] - c[i], "pair order"); check_eq(q[i], c[i] - a[i], "pair order"); check_eq(z[i], 2 * a[i], "a tensor paired with itself"); } std::vector<int> seen; A::apply(a, [&](float x) { seen.push_back(1); return x; }); sym_assert(seen.size() == 6, "the function is called once per element"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{66000}, {65, 64}}; const Dims& d = S[sym_pick("shape", 0, 1)]; auto a = symTensor<float>(d, "a"), b = symTensor<float>(d, "b"); auto f = [](float x) { return 3.f * x - 1.f; }; auto g = [](float x, float y) { return x - 2.f * y; }; auto r = A::apply(a, f), p = A::applyPair(a, b, g); checkDims(r, d, "shape"); checkDims(p, d, "shape"); for (int i = 0; i < prodOf(d); ++i) { check_eq(r[i], f(a[i]), "apply maps every element"); check_eq(p[i], g(a[i], b[i]), "applyPair combines corresponding elements"); } int n = prodOf(d); checkTensor(Tensor<float>::ones(n), {n}, std::vector<float>(n, 1.f), "ones"); checkTensor(Tensor<float>::zeros(Shape(d)), d, std::vector<float>(n, 0.f), "zeros"); auto v = values(a); a.apply(f); for (int i = 0; i < n; ++i) check_eq(a[i], f(v[i]), "in-place apply"); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1e6; auto a = symTensor<float>({3}, "a"), b = symTensor<float>({3}, "b"); auto f = [](float x) { return 3.f * x - 1.f; }; auto v = values(a); auto r = A::apply(a, f), p = A::applyPair(a, b, [](float x, float y) { return x - y; }); for (int i = 0; i < 3; ++i) { check_eq(r[i], f(v[i]), "apply maps every element"); check_eq(p[i], v[i] - b[i], "applyPair combines corresponding elements"); } auto q = divTensor<float>({2}, "q"); auto s = A::reciprocal(q); for (int i = 0; i < 2; ++i) check_eq(s[i] * q[i], 1.f, "reciprocal"); auto z = symTensor<float>({2}, "z", 0, 9); auto t = z.sqrt(); for (int i = 0; i < 2; ++i) check_eq(t[i] * t[i], z[i], "square root"); }
// every float through the square root, as through std::sqrt: also negative values, infinities and NaN
ENTRY(qf_sqrt_any) { auto a = anyTensor<float>({2}, "a"); float x = a[0], y = a[1]; if (sym_pick("inplace", 0, 1)) { O::sqrtInPlace(a.getData()); fpSame(a[0], std::sqrt(x), "in-place square root"); fpSame(a[1], std::sqrt(y), "in-place square root"); } else { auto r = a.sqrt(); fpSame(r[0], std::sqrt(x), "square root"); fpSame(r[1], std::sqrt(y), "square root"); } }
ENTRY(qf_reciprocal_value) { auto a = anyTensor<float>({1}, "a"); sym_assume(std::fabs(a[0]) > 1e-3f); fpSame(A::reciprocal(a)[0], 1.f / a[0], "reciprocal of any float"); }
// a function with state: one call per element in order of the elements or not, also where elements are equal
ENTRY(qr_apply_stateful) { static const Dims S[] = {{2}, {3}, {5}, {2, 2}, {3, 3}, {1, 9}, {2, 9}, {40}}; const Dims& d = S[sym_pick("shape", 0, 7)]; int n = prodOf(d), how = sym_pick("equal", 0, 2); Tensor<float> a{Shape(d)}; float c = sym_f32("c", -2, 2); for (int i = 0; i < n; ++i) a[i] = how == 0 ? c : how == 1 ? (i == 0 || i == n - 1 ? c : (float)i) : (i % 2 ? c : (float)i); auto v = values(a); int calls = 0; std::vector<float> seen; auto f = [&](float x) { seen.push_back(x); ++calls; return x + 8.f * calls; }; bool in = sym_pick("inplace", 0, 1); Tensor<float> r = a; if (in) r.apply(f); else r = A::apply(a, f); sym_assert(calls == n, "the function is called once per element"); checkDims(r, d, "shape"); float s = 0, e = 0; for (int i = 0; i < n; ++i) { s += r[i] - v[i]; e += 8.f * (i + 1); } check_eq(s, e, "every call gives one element"); }
ENTRY(qr_identity_wide) { static const int N[] = {65, 130, 257}; int n = N[sym_pick("n", 0, 2)]; auto t = Tensor<float>::identity(n); checkDims(t, {n, n}, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (t[i * n + j] != (i == j ? 1.f : 0.f)) sym_assert(false, "identity matrix"); sym_assert(true, "identity matrix"); }
