// @bounds shapes up to rank 4 / 33 elements; element values symbolic (arbitrary floats incl. NaN/Inf in the FP entries); value-list lengths 0..8 against element counts 1..6; assignments between every pair of catalogue shapes of up to 9 elements, histories of 3 tensors over 6 shapes, a catalogue of 61 shapes (rank 1..6, up to 65 elements), up to 1089 elements; beyond that, tensors of up to 66000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @outside construction from a raw pointer that does not point at enough elements
#include "repo.hpp"
static const Dims S[] = {{1}, {4}, {2, 3}, {2, 1, 2}, {33}};
ENTRY(qr_construct) { int k = sym_pick("shape", 0, 4); const Dims& d = S[k]; int n = prodOf(d); Tensor<float> z{Shape(d)}; checkTensor(z, d, std::vector<float>(n, 0.f), "a new tensor is zero"); float x = sym_f32("x", -4, 4); Tensor<float> f(Shape(d), x); checkTensor(f, d, std::vector<float>(n, x), "filled tensor"); std::vector<float> v(n); for (auto& e : v) e = sym_f32("v", -4, 4); Tensor<float> t(Shape(d), v); checkTensor(t, d, v, "tensor from a value vector"); Tensor<float> p(Shape(d), (const float*)v.data()); checkTensor(p, d, v, "tensor from an array"); std::vector<float> w = v; Tensor<float> m(Shape(d), std::move(w)); checkTensor(m, d, v, "tensor from a moved vector"); auto old = v; v[0] += 1; checkTensor(t, d, old, "the tensor does not alias its source"); checkTensor(p, d, old, "the tensor does not alias its source array"); }
ENTRY(qr_initlist) { float a = sym_f32("a", -4, 4), b = sym_f32("b", -4, 4), c = sym_f32("c", -4, 4), e = sym_f32("e", -4, 4); Tensor<float> t({2, 2}, {a, b, c, e}); checkTensor(t, {2, 2}, {a, b, c, e}, "value list"); sym_assert(rejected([&] { Tensor<float> u({2, 2}, {a, b, c}); }), "too few values are rejected"); sym_assert(rejected([&] { Tensor<float> u({2, 2}, {a, b, c, e, a}); }), "too many values are rejected"); }
ENTRY(qr_counts) { int n = sym_pick("elements", 1, 6), k = sym_pick("values", 0, 8); std::vector<float> v(k); for (auto& e : v) e = sym_f32("v", -4, 4); auto w = v; bool r1 = rejected([&] { Tensor<float> t(Shape({n}), v); checkTensor(t, {n}, w, "values"); }), r2 = rejected([&] { Tensor<float> t(Shape({n}), std::move(v)); checkTensor(t, {n}, w, "values"); }); sym_assert(r1 == (n != k), "a value vector is accepted exactly when it has one value per element"); sym_assert(r2 == (n != k), "a moved value vector is accepted exactly when it has one value per element"); }
ENTRY(qr_copy) { int k = sym_pick("shape", 0, 4); auto a = symTensor<float>(S[k], "a"); auto v = values(a); Tensor<float> b = a; Tensor<float> c{Shape({2})}; c = a; checkTensor(b, S[k], v, "copy construction"); checkTensor(c, S[k], v, "copy assignment"); sym_assert(raw(a) != raw(b) && raw(a) != raw(c), "copies own their elements"); float x = sym_f32("x", -4, 4); int i = sym_i32("i", 0, (int)v.size() - 1); b[i] = x; c[i] = x; checkTensor(a, S[k], v, "writing to a copy leaves the original alone"); a[i] = x + 1; check_eq(b[i], x, "writing to the original leaves the copy alone"); const Tensor<float>& self = b; b = self; check_eq(b[i], x, "self assignment"); }
ENTRY(qr_move) { int k = sym_pick("shape", 0, 4), how = sym_pick("how", 0, 1); auto a = symTensor<float>(S[k], "a"); auto v = values(a); Tensor<float> b{Shape({3})}; if (how) b = std::move(a); else { Tensor<float> t(std::move(a)); checkTensor(t, S[k], v, "move construction"); b = t; } checkTensor(b, S[k], v, "moved value"); sym_assert(a.getShape().size() == a.getData().size() && a.getData().data() != nullptr, "a moved-from tensor is still a valid tensor"); for (size_t i = 0; i < a.getShape().size(); ++i) a[i] = 1; a = b; checkTensor(a, S[k], v, "a moved-from tensor can be assigned again"); a += b; checkTensor(b, S[k], v, "no sharing after reassignment"); Tensor<float>& s = b; b = std::move(s); checkTensor(b, S[k], v, "self move assignment"); }
ENTRY(qr_moved_from_use) { auto a = symTensor<float>({2, 2}, "a"), c = symTensor<float>({1}, "c"); Tensor<float> b{Shape({1})}; b = std::move(a); Tensor<float> d(std::move(b)); auto n = prodOf(a.getShape().getDimensions()); float t = 0; for (int i = 0; i < n; ++i) t += a[i]; for (int i = 0; i < prodOf(b.getShape().getDimensions()); ++i) t += b[i]; check_eq(t, 0.f, "a moved-from tensor is a zero tensor"); auto e = a + c; check_eq(e[0], c[0], "arithmetic with a moved-from tensor"); }
ENTRY(qf_equality) { int k = sym_pick("case", 0, 2); Dims d = k == 0 ? Dims{3} : k == 1 ? Dims{1, 2} : Dims{1}; auto a = anyTensor<float>(d, "a"), b = anyTensor<float>(d, "b"); bool eq = true; for (int i = 0; i < prodOf(d); ++i) if (!(a[i] == b[i])) { eq = false; break; } sym_assert((a == b) == eq, "equality compares every element"); sym_assert((a != b) == !eq, "inequality is the negation of equality"); }
ENTRY(qr_equality_shape) { auto a = symTensor<float>({2, 3}, "a"); Tensor<float> b = a; sym_assert(a == b && !(a != b), "a copy is equal"); b.reshape(Dims{3, 2}); sym_assert(a != b && !(a == b), "different shapes are unequal"); b.reshape({6}); sym_assert(!(a == b), "different ranks are unequal"); b.reshape(Shape({2, 3})); sym_assert(a == b, "reshaping back restores equality"); Tensor<float> c({2}, std::vector<float>{a[0], a[1]}); sym_assert(!(a == c), "a prefix is unequal"); }
ENTRY(qr_fill_iterate) { auto a = symTensor<float>({2, 3}, "a"); auto v = values(a); size_t n = 0; for (float x : a.getData()) { check_eq(x, v[n], "iteration order"); ++n; } sym_assert(n == 6, "iteration visits every element once"); float s = sym_f32("s", -4, 4); Tensor<float> b = a; a.getData().fill(s); checkTensor(a, {2, 3}, std::vector<float>(6, s), "fill"); checkTensor(b, {2, 3}, v, "fill leaves copies alone"); }
ENTRY(qr_tensordata) { auto a = symTensor<double>({2, 2}, "a"); auto v = values(a); TensorData<double, CPUDevice> d(a.getData()), e{Shape({3})}; e = d; d[0] = 9; Tensor<double> t(e), u(std::move(e)); checkTensor(t, {2, 2}, v, "tensor from its data"); checkTensor(u, {2, 2}, v, "tensor from moved data"); sym_assert(u.getData() == t.getData() && !(u.getData() != t.getData()), "data equality"); }
// every pair of catalogue shapes of up to 12 elements: assignment replaces shape and elements together
ENTRY(qr_assign_pairs) { const Dims& d = pickShape(9); const Dims& e = pickShape(9); int how = sym_pick("how", 0, 1); auto a = symTensor<float>(d, "a"), b = symTensor<float>(e, "b"); auto v = values(a), w = values(b); Tensor<float> keep = b; if (how) b = a; else { Tensor<float> t = a; b = std::move(t); } checkTensor(b, d, v, "assignment takes over shape and elements"); checkTensor(a, d, v, "the source of a copy is unchanged"); checkTensor(keep, e, w, "other copies are unchanged"); sym_assert(b == a, "the assigned tensor equals its source"); b[0] = a[0] + 1; checkTensor(a, d, v, "no sharing after assignment"); b = keep; checkTensor(b, e, w, "assigning back"); }
ENTRY(qr_data_assign_pairs) { const Dims& d = pickShape(6); const Dims& e = pickShape(6); int how = sym_pick("how", 0, 1); auto a = symTensor<float>(d, "a"), b = symTensor<float>(e, "b"); auto v = values(a); TensorData<float, CPUDevice> x(a.getData()), y(b.getData()); if (how) y = x; else { TensorData<float, CPUDevice> t(x); y = std::move(t); } checkTensor(Tensor<float>(y), d, v, "assignment of tensor data takes over shape and elements"); sym_assert(y == x && !(y != x), "equal after assignment"); y[0] = a[0] + 1; checkTensor(Tensor<float>(x), d, v, "no sharing after assignment"); }
ENTRY(qr_catalogue) { const Dims& d = pickShape(); int n = prodOf(d); Tensor<float> z{Shape(d)}; checkTensor(z, d, std::vector<float>(n, 0.f), "a new tensor is zero"); float x = sym_f32("x", -4, 4); Tensor<float> f(Shape(d), x); checkTensor(f, d, std::vector<float>(n, x), "filled tensor"); std::vector<float> v(n); for (auto& e : v) e = sym_f32("v", -4, 4); Tensor<float> t(Shape(d), v), p(Shape(d), (const float*)v.data()); std::vector<float> w = v; Tensor<float> m(Shape(d), std::move(w)); checkTensor(t, d, v, "tensor from a value vector"); checkTensor(p, d, v, "tensor from an array"); checkTensor(m, d, v, "tensor from a moved vector"); sym_assert(t == p && p == m && !(t != m), "tensors of equal values are equal"); Tensor<float> c = t; for (int i : {0, n / 2, n - 1}) { c[i] = v[i] + 1; sym_assert(c != t && !(c == t), "a difference in one element makes tensors unequal"); checkTensor(t, d, v, "the copy is independent"); c[i] = v[i]; sym_assert(c == t, "restoring the element restores equality"); } }
ENTRY(qr_equality_everywhere) { static const Dims S[] = {{65}, {5, 13}, {2, 3, 4, 2}, {130}}; const Dims& d = S[sym_pick("shape", 0, 3)]; auto a = symTensor<float>(d, "a"); Tensor<float> b = a; int n = prodOf(d), i = sym_pick("i", 0, n - 1); float y = sym_f32("y", -4, 4); bool same = y == a[i]; b[i] = y; sym_assert((a == b) == same && (b == a) == same && (a != b) == !same, "equality notices a difference at any position"); }
ENTRY(qr_long) { static const Dims S[] = {{1030}, {33, 33}, {2, 515}}; const Dims& d = S[sym_pick("shape", 0, 2)]; auto a = symTensor<float>(d, "a"); auto v = values(a); Tensor<float> b = a, c{Shape(d)}; c = a; checkTensor(b, d, v, "copy of a long tensor"); checkTensor(c, d, v, "assignment of a long tensor"); a.getData().fill(2.f); checkTensor(b, d, v, "the copy is independent"); checkTensor(a, d, std::vector<float>(v.size(), 2.f), "fill"); }
// a history of assignments over one object
ENTRY(qr_history) { static const Dims S[] = {{2, 3}, {3, 2}, {6}, {1}, {2}, {7}}; auto a = symTensor<float>(S[sym_pick("s", 0, 5)], "a"), b = symTensor<float>(S[sym_pick("s", 0, 5)], "b"), c = symTensor<float>(S[sym_pick("s", 0, 5)], "c"); auto vb = values(b), vc = values(c); Dims db = b.getShape().getDimensions(), dc = c.getShape().getDimensions(); a = b; a = c; checkTensor(a, dc, vc, "the last assignment counts"); b = std::move(a); checkTensor(b, dc, vc, "moved"); a = Tensor<float>(Shape(db), vb); checkTensor(a, db, vb, "assigned after a move"); std::swap(a, b); checkTensor(a, dc, vc, "swapped"); checkTensor(b, db, vb, "swapped"); std::vector<Tensor<float>> list{a, b}; list.push_back(c); list.erase(list.begin()); checkTensor(list[0], db, vb, "values in a container"); checkTensor(list[1], dc, vc, "values in a container"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims S[] = {{66000}, {65, 64}}; const Dims& d = S[sym_pick("shape", 0, 1)]; auto a = symTensor<float>(d, "a"); auto v = values(a); Tensor<float> b = a, c{Shape(d)}; c = a; checkTensor(b, d, v, "copy of a long tensor"); checkTensor(c, d, v, "assignment of a long tensor"); a.getData().fill(2.f); checkTensor(b, d, v, "the copy is independent"); checkTensor(a, d, std::vector<float>(v.size(), 2.f), "fill"); }
