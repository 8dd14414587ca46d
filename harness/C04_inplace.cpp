// @bounds ranks 1..3, dimensions 1..3 for the pairs (rank 3: {1,2}) plus listed wider shapes up to rank 4 / 65 elements; all element values and scalars symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements) against itself and against broadcast partners, operands up to 33x33 / 1030 elements, aliased operands, repeated updates; beyond that, operands up to 66000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic; divisors non-zero (0.25 <= |d| <= 4)
// @outside in-place operations whose result shape would differ from the left operand's (required to be rejected, checked)
#include "repo.hpp"
enum { ADD, SUB, MUL, DIV };
static float ref(int op, float a, float b) { return op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : a / b; }
template <class R> Tensor<float>& real(int op, Tensor<float>& a, const R& b) { switch (op) { case ADD: return a += b; case SUB: return a -= b; case MUL: return a *= b; default: return a /= b; } }
static void check(int op, const Dims& da, const Dims& db) {
  auto a = symTensor<float>(da, "a"), b = op == DIV ? divTensor<float>(db, "b") : symTensor<float>(db, "b"); auto va = values(a), vb = values(b);
  bool ok = broadcastable(da, db) && prodOf(broadcastDims(da, db)) == prodOf(da);
  if (ok && !sameDims(broadcastDims(da, db), da)) return;   // same element count under a longer shape: outside the claim
  if (!ok) { sym_assert(rejected([&] { real(op, a, b); }), "an operand that does not broadcast to the target is rejected"); checkTensor(a, da, va, "a rejected in-place operation leaves the target alone"); return; }
  Tensor<float>& r = real(op, a, b); sym_assert(&r == &a, "compound assignment returns its left operand"); std::vector<float> e(va.size()); for (size_t i = 0; i < e.size(); ++i) e[i] = ref(op, va[i], vb[bcIndex((int)i, da, db)]);
  checkDims(a, da, "the target keeps its shape"); checkTensor(a, da, e, "in-place element value"); checkTensor(b, db, vb, "the right operand is unchanged");
}
static void small(int op) { int ra = sym_pick("ra", 1, 2), rb = sym_pick("rb", 1, 2); Dims a = pickDims(ra, 1, 3), b = pickDims(rb, 1, 3); check(op, a, b); }
ENTRY(qr_add) { small(ADD); }
ENTRY(qr_sub) { small(SUB); }
ENTRY(qr_mul) { small(MUL); }
ENTRY(qr_div) { small(DIV); }
ENTRY(qr_rank3) { int op = sym_pick("op", 0, 3), rb = sym_pick("rb", 1, 3); Dims a = pickDims(3, 1, 2), b = pickDims(rb, 1, 2); check(op, a, b); }
ENTRY(qr_wide) { static const Dims p[][2] = {{{2, 3, 4}, {3, 1}}, {{2, 3, 2, 2}, {1, 3, 1, 1}}, {{2, 1, 3, 2}, {3, 1}}, {{65}, {65}}, {{9, 4}, {4}}, {{4, 9}, {4, 1}}, {{3, 2}, {2, 3}}, {{3}, {2, 3}}, {{2, 2, 3}, {2, 1, 3}}, {{7}, {1}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 9); check(op, p[k][0], p[k][1]); }
ENTRY(qr_scalar) { static const Dims s[] = {{1}, {5}, {2, 3}, {2, 2, 2}, {33}}; int op = sym_pick("op", 0, 3), k = sym_pick("shape", 0, 4); auto a = symTensor<float>(s[k], "a"); auto v = values(a); float x = op == DIV ? (sym_pick("neg", 0, 1) ? -1 : 1) * sym_f32("s", 0.25, 4) : sym_f32("s", -4, 4); auto& r = real(op, a, x); sym_assert(&r == &a, "scalar compound assignment returns its left operand"); for (auto& e : v) e = ref(op, e, x); checkTensor(a, s[k], v, "in-place scalar operation"); }
ENTRY(qr_alias) { int op = sym_pick("op", 0, 3); auto a = divTensor<float>({2, 3}, "a"); auto v = values(a); real(op, a, a); for (auto& e : v) e = ref(op, e, e); checkTensor(a, {2, 3}, v, "a tensor updated with itself"); }
// in-place and non-in-place forms agree, and chains behave like the scalar expression
ENTRY(qr_chain) { auto a = symTensor<float>({2, 2}, "a"), b = divTensor<float>({2}, "b"); auto v = values(a), w = values(b); float s = sym_f32("s", -2, 2); a += b; a *= s; a -= b; a /= b; for (int i = 0; i < 4; ++i) check_eq(a[i], ((v[i] + w[i % 2]) * s - w[i % 2]) / w[i % 2], "chain of in-place operations"); }
ENTRY(qr_agree) { int op = sym_pick("op", 0, 3); auto a = symTensor<float>({2, 3}, "a"), b = divTensor<float>({3}, "b"); auto c = op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : a / b; real(op, a, b); checkTensor(a, {2, 3}, values(c), "x op= y equals x = x op y"); }
// the low-level interface used by the rest of the library
ENTRY(qr_ops) { auto a = symTensor<float>({2, 2}, "a"), b = divTensor<float>({2, 2}, "b"); auto v = values(a), w = values(b); float s = sym_f32("s", 0.5, 2); typedef TensorOperations<float, CPUDevice> O; int k = sym_pick("op", 0, 7); auto& d = a.getData(); switch (k) { case 0: O::addInPlace(d, b.getData()); break; case 1: O::subtractInPlace(d, b.getData()); break; case 2: O::multiplyInPlace(d, b.getData()); break; case 3: O::divideInPlace(d, b.getData()); break; case 4: O::addScalarInPlace(d, s); break; case 5: O::subtractScalarInPlace(d, s); break; case 6: O::multiplyScalarInPlace(d, s); break; default: O::divideScalarInPlace(d, s); } for (int i = 0; i < 4; ++i) v[i] = ref(k % 4, v[i], k < 4 ? w[i] : s); checkTensor(a, {2, 2}, v, "TensorOperations in-place form"); }
ENTRY(tr_all_rank3) { int op = sym_pick("op", 0, 3), rb = sym_pick("rb", 1, 3); Dims a = pickDims(3, 1, 3), b = pickDims(rb, 1, 3); check(op, a, b); }
ENTRY(qr_catalogue) { int op = sym_pick("op", 0, 3); const Dims& d = pickShape(); check(op, d, d); }
ENTRY(qr_catalogue_one) { const Dims& d = pickShape(65, 2, 6); int op = sym_pick("op", 0, 3), k = sym_pick("dim", 0, 5), sw = sym_pick("swap", 0, 1); if (k >= (int)d.size()) return; Dims e = d; e[k] = 1; if (sw) check(op, e, d); else check(op, d, e); }
ENTRY(qr_catalogue_drop) { const Dims& d = pickShape(65, 2, 6); int op = sym_pick("op", 0, 3), k = sym_pick("drop", 1, 5), sw = sym_pick("swap", 0, 1); if (k >= (int)d.size()) return; Dims e(d.begin() + k, d.end()); if (sw) check(op, e, d); else check(op, d, e); }
ENTRY(qr_long) { static const Dims p[][2] = {{{1030}, {1030}}, {{1030}, {1}}, {{33, 33}, {33}}, {{33, 33}, {33, 1}}, {{257}, {257}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 4); check(op, p[k][0], p[k][1]); }
ENTRY(qr_alias_catalogue) { int op = sym_pick("op", 0, 3); const Dims& d = pickShape(40); auto a = divTensor<float>(d, "a"); auto v = values(a); real(op, a, a); for (auto& e : v) e = ref(op, e, e); checkTensor(a, d, v, "a tensor updated with itself"); }
// repeated updates: each starts from the result of the previous one
ENTRY(qr_repeat) { int op = sym_pick("op", 0, 3); auto a = symTensor<float>({2, 3}, "a"), b = divTensor<float>({3}, "b"), c = divTensor<float>({2, 3}, "c"); auto v = values(a); for (int k = 0; k < 3; ++k) { real(op, a, b); for (int i = 0; i < 6; ++i) v[i] = ref(op, v[i], b[i % 3]); real(op, a, c); for (int i = 0; i < 6; ++i) v[i] = ref(op, v[i], c[i]); } checkTensor(a, {2, 3}, v, "six updates in a row"); }
ENTRY(qr_scalar_catalogue) { int op = sym_pick("op", 0, 3); const Dims& d = pickShape(); auto a = symTensor<float>(d, "a"); auto v = values(a); float x = op == DIV ? sym_f32("s", 0.25, 4) : sym_f32("s", -4, 4); real(op, a, x); for (auto& e : v) e = ref(op, e, x); checkTensor(a, d, v, "in-place scalar operation"); }
// very large operands, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { static const Dims p[][2] = {{{66000}, {66000}}, {{65, 64}, {65, 64}}, {{4100}, {1}}, {{66, 65}, {65}}, {{65, 66}, {65, 1}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 4); check(op, p[k][0], p[k][1]); }
ENTRY(qr_huge_scalar) { Dims d{66000}; int op = sym_pick("op", 0, 3); auto a = symTensor<float>(d, "a"); auto v = values(a); float x = op == DIV ? sym_f32("s", 0.25, 4) : sym_f32("s", -4, 4); real(op, a, x); for (auto& e : v) e = ref(op, e, x); checkTensor(a, d, v, "in-place scalar operation"); }
// arbitrary IEEE values (infinities, NaN, subnormals, zeros of either sign)
ENTRY(qf_ieee) { int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 2); Dims db = k == 0 ? Dims{2} : Dims{1}; auto a = anyTensor<float>({2}, "a"), b = k == 2 ? a : anyTensor<float>(db, "b"); auto v = values(a); auto w = values(b); Tensor<float> r = a; Tensor<float>& o = k == 2 ? r : b; if (op == 0) r += o; else if (op == 1) r -= o; else if (op == 2) r *= o; else r /= o; for (int i = 0; i < 2; ++i) { float x = v[i], y = w[k == 1 ? 0 : i]; fpSame(r[i], op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y, "in-place element value, for every IEEE value"); } }
