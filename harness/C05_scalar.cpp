// @bounds shapes of ranks 1..4 up to 65 elements; every element and the scalar symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements), 128..1089 elements; beyond that, operands up to 66000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic; divisors non-zero
#include "repo.hpp"
template <class T> void check(const Dims& d) {
  Tensor<T> a = divTensor<T>(d, "a"); std::vector<T> v = values(a), e(v.size()); int k = sym_pick("op", 0, 8); T s = SymT<T>::mk("s", -4, 4), z = SymT<T>::mk("z", 0.25, 4); if (sym_pick("neg", 0, 1)) z = -z; Tensor<T> r = a;
  auto set = [&](auto f) { for (size_t i = 0; i < v.size(); ++i) e[i] = f(v[i]); };
  switch (k) {
    case 0: r = a + s; set([&](T x) { return x + s; }); break;
    case 1: r = a - s; set([&](T x) { return x - s; }); break;
    case 2: r = a * s; set([&](T x) { return x * s; }); break;
    case 3: r = a / z; set([&](T x) { return x / z; }); break;
    case 4: r = s + a; set([&](T x) { return s + x; }); break;
    case 5: r = s - a; set([&](T x) { return s - x; }); break;
    case 6: r = s * a; set([&](T x) { return s * x; }); break;
    case 7: r = s / a; set([&](T x) { return s / x; }); break;
    default: r = -a; set([&](T x) { return -x; });
  }
  checkDims(r, d, "a scalar operation keeps the shape"); checkTensor(r, d, e, "element value of a scalar operation"); checkTensor(a, d, v, "the operand is unchanged");
}
static const Dims S[] = {{1}, {3}, {2, 3}, {2, 1, 3}, {2, 2, 1, 2}, {33}, {5, 13}};
ENTRY(qr_float) { check<float>(S[sym_pick("shape", 0, 6)]); }
ENTRY(qr_double) { sym_precise(); check<double>(S[sym_pick("shape", 0, 2)]); }
ENTRY(qr_ops) { typedef TensorOperations<float, CPUDevice> O; auto a = divTensor<float>({2, 3}, "a"); auto v = values(a); float s = sym_f32("s", 0.5, 2); int k = sym_pick("op", 0, 4); auto r = k == 0 ? O::addScalar(a.getData(), s) : k == 1 ? O::subtractScalar(a.getData(), s) : k == 2 ? O::multiplyScalar(a.getData(), s) : k == 3 ? O::divideScalar(a.getData(), s) : O::inverseDivideScalar(a.getData(), s); for (auto& x : v) x = k == 0 ? x + s : k == 1 ? x - s : k == 2 ? x * s : k == 3 ? x / s : s / x; checkTensor(Tensor<float>(r), {2, 3}, v, "TensorOperations scalar form"); }
ENTRY(qr_laws) { auto a = symTensor<float>({2, 2}, "a"); float s = sym_f32("s", 0.5, 4); auto x = (a + s) - s, y = (a * s) / s, z = s - (s - a), w = -(-a); for (int i = 0; i < 4; ++i) { check_eq(x[i], a[i], "(a+s)-s == a"); check_eq(y[i], a[i], "(a*s)/s == a"); check_eq(z[i], a[i], "s-(s-a) == a"); check_eq(w[i], a[i], "-(-a) == a"); } }
ENTRY(qr_catalogue) { check<float>(pickShape()); }
ENTRY(qr_long) { static const Dims L[] = {{1030}, {33, 33}, {257}, {128}}; check<float>(L[sym_pick("shape", 0, 3)]); }
// scalars with special roles (0, 1, -1, a power of two) still behave like any other
ENTRY(qr_special_scalars) { auto a = divTensor<float>({2, 3}, "a"); auto v = values(a); static const float K[] = {0.f, 1.f, -1.f, 2.f, 0.5f, -0.5f, 3.f, 1e-3f}; float s = K[sym_pick("s", 0, 7)]; auto p = a + s, q = a - s, r = a * s, t = s + a, u = s - a, w = s * a, x = s / a; for (int i = 0; i < 6; ++i) { check_eq(p[i], v[i] + s, "a + s"); check_eq(q[i], v[i] - s, "a - s"); check_eq(r[i], v[i] * s, "a * s"); check_eq(t[i], s + v[i], "s + a"); check_eq(u[i], s - v[i], "s - a"); check_eq(w[i], s * v[i], "s * a"); check_eq(x[i] * v[i], s, "s / a"); } if (s != 0) { auto y = a / s; for (int i = 0; i < 6; ++i) check_eq(y[i] * s, v[i], "a / s"); Tensor<float> z = a; z /= s; checkTensor(z, {2, 3}, values(y), "a /= s"); } Tensor<float> z = a; z += s; checkTensor(z, {2, 3}, values(p), "a += s"); z = a; z -= s; checkTensor(z, {2, 3}, values(q), "a -= s"); z = a; z *= s; checkTensor(z, {2, 3}, values(r), "a *= s"); checkTensor(a, {2, 3}, v, "operand unchanged"); }
ENTRY(qr_inplace_agrees) { const Dims& d = pickShape(40); auto a = divTensor<float>(d, "a"); float s = sym_f32("s", 0.25, 4); int op = sym_pick("op", 0, 3); Tensor<float> b = a, c = op == 0 ? a + s : op == 1 ? a - s : op == 2 ? a * s : a / s; if (op == 0) b += s; else if (op == 1) b -= s; else if (op == 2) b *= s; else b /= s; checkTensor(b, d, values(c), "the in-place form agrees with the out-of-place form"); }
// the scalar may be an element of the tensor itself
ENTRY(qr_element_scalar) { int op = sym_pick("op", 0, 3), k = sym_pick("k", 0, 2); auto a = divTensor<float>({4}, "a"); auto v = values(a); float s = v[k]; if (op == 0) a += a[k]; else if (op == 1) a -= a[k]; else if (op == 2) a *= a[k]; else a /= a[k]; for (int i = 0; i < 4; ++i) check_eq(a[i], op == 0 ? v[i] + s : op == 1 ? v[i] - s : op == 2 ? v[i] * s : v[i] / s, "an element of the tensor as the scalar"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { check<float>({17000}); }
ENTRY(qr_huge_plus) { Dims d{66000}; auto a = symTensor<float>(d, "a"); auto v = values(a); int k = sym_pick("op", 0, 2); float s = sym_f32("s", 0.5, 4); auto r = k == 0 ? a + s : k == 1 ? a * s : s - a; for (auto& x : v) x = k == 0 ? x + s : k == 1 ? x * s : s - x; checkTensor(r, d, v, "element value of a scalar operation"); }
// arbitrary IEEE values (infinities, NaN, subnormals, zeros of either sign); division by a zero scalar is refused
ENTRY(qf_ieee) { auto a = anyTensor<float>({2}, "a"); float s = sym_f32_any("s"); int k = sym_pick("op", 0, 11); if (k == 3 || k == 11) sym_assume(!(s == 0.f)); Tensor<float> r = a; switch (k) { case 0: r = a + s; break; case 1: r = a - s; break; case 2: r = a * s; break; case 3: r = a / s; break; case 4: r = s + a; break; case 5: r = s - a; break; case 6: r = s * a; break; case 7: r = s / a; break; case 8: r += s; break; case 9: r -= s; break; case 10: r *= s; break; default: r /= s; } for (int i = 0; i < 2; ++i) { float x = a[i], e = k == 0 || k == 4 || k == 8 ? x + s : k == 1 || k == 9 ? x - s : k == 2 || k == 6 || k == 10 ? x * s : k == 3 || k == 11 ? x / s : k == 5 ? s - x : s / x; fpSame(r[i], e, "element value of a scalar operation, for every IEEE value"); } }
// extreme scalars and elements on either side
ENTRY(qf_extreme) { static const float E[] = {1e-39f, -1.4e-45f, 3e38f, 1.2e-38f, INFINITY, NAN, -0.f, 1.f}; float s = E[sym_pick("s", 0, 7)], x = E[sym_pick("x", 0, 7)]; Tensor<float> a(Shape({1}), x), q = a, p = a * s, m = a - s, d = s - a, i = s / a; fpSame(p[0], x * s, "a * s"); fpSame(m[0], x - s, "a - s"); fpSame(d[0], s - x, "s - a"); fpSame(i[0], s / x, "s / a"); if (s != 0.f) { auto e = a / s; q /= s; fpSame(e[0], x / s, "a / s"); fpSame(q[0], x / s, "a /= s"); } }
ENTRY(qf_extreme_scalar) { static const float E[] = {1e-39f, -1.4e-45f, 3e38f, INFINITY}; float s = E[sym_pick("s", 0, 3)]; auto a = anyTensor<float>({1}, "a"); auto e = a / s; Tensor<float> q = a; q /= s; fpSame(e[0], a[0] / s, "a / s for an extreme scalar"); fpSame(q[0], a[0] / s, "a /= s for an extreme scalar"); }
