// @bounds all shape pairs of ranks 1..3 with dimensions in {1,2,3} (rank 3: {1,2}), listed wider shapes (up to rank 5, dimensions 9, 17, 33, 65); every element value symbolic; a catalogue of 61 shapes (rank 1..6, up to 65 elements) against itself and against broadcast partners, operands up to 33x33 / 1030 elements; element magnitudes in [-4,4] (divisors bounded away from 0); beyond that, operands up to 66000 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two); a tensor combined with itself over every IEEE value
// @assume real arithmetic: rounding of the four operations is not modelled; divisors are non-zero (0.25 <= |d| <= 4)
// @outside larger shapes; IEEE special values (covered by C12/C23 where they matter)
#include "repo.hpp"
enum { ADD, SUB, MUL, DIV };
template <class T> T ref(int op, T a, T b) { return op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : a / b; }
template <class T> Tensor<T> real(int op, const Tensor<T>& a, const Tensor<T>& b) { switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; } }
template <class T> void check(int op, const Dims& da, const Dims& db) {
  Tensor<T> a = symTensor<T>(da, "a"), b = op == DIV ? divTensor<T>(db, "b") : symTensor<T>(db, "b"); std::vector<T> va = values(a), vb = values(b);
  if (!broadcastable(da, db)) { sym_assert(rejected([&] { real(op, a, b); }), "incompatible shapes are rejected"); checkTensor(a, da, va, "a rejected operation leaves its operands alone"); return; }
  Dims d = broadcastDims(da, db); Tensor<T> c = real(op, a, b); int n = prodOf(d); std::vector<T> e(n); for (int i = 0; i < n; ++i) e[i] = ref(op, va[bcIndex(i, d, da)], vb[bcIndex(i, d, db)]);
  checkDims(c, d, "the result has the broadcast shape"); checkTensor(c, d, e, "each element combines the two corresponding elements"); checkTensor(a, da, va, "the left operand is unchanged"); checkTensor(b, db, vb, "the right operand is unchanged");
}
static void small(int op) { int ra = sym_pick("ra", 1, 2), rb = sym_pick("rb", 1, 2); Dims a = pickDims(ra, 1, 3), b = pickDims(rb, 1, 3); check<float>(op, a, b); }
ENTRY(qr_add) { small(ADD); }
ENTRY(qr_sub) { small(SUB); }
ENTRY(qr_mul) { small(MUL); }
ENTRY(qr_div) { small(DIV); }
ENTRY(qr_rank3) { int op = sym_pick("op", 0, 3), k = sym_pick("k", 0, 1), rb = sym_pick("rb", 1, 3); Dims a = pickDims(3, 1, 2), b = pickDims(rb, 1, 2); if (k) check<float>(op, b, a); else check<float>(op, a, b); }
ENTRY(qr_wide) {
  static const Dims p[][2] = {{{2, 3, 4}, {3, 1}}, {{4, 1, 3}, {2, 1}}, {{2, 1, 3, 2}, {3, 1, 1}}, {{2, 3, 2, 2}, {1, 3, 1, 1}}, {{1, 2, 1, 2, 2}, {2, 1, 3, 1, 1}}, {{33}, {33}}, {{9, 1}, {1, 17}}, {{65}, {1}}, {{2, 3}, {3, 2}}, {{4}, {3}}, {{2, 2, 3}, {3, 2}}, {{5, 7}, {7}}, {{7, 5}, {7, 1}}, {{3, 3}, {3, 3}}, {{1, 1, 1}, {4}}, {{2, 3, 4}, {2, 1, 4}}};
  int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 15), sw = sym_pick("swap", 0, 1); check<float>(op, p[k][sw], p[k][1 - sw]);
}
ENTRY(qr_double) { sym_precise(); static const Dims p[][2] = {{{2, 3}, {2, 3}}, {{2, 1, 3}, {4, 1}}, {{5}, {2}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 2); check<double>(op, p[k][0], p[k][1]); }
// the same tensor as both operands
ENTRY(qr_alias) { int op = sym_pick("op", 0, 3); auto a = divTensor<float>({2, 3}, "a"); auto v = values(a); auto c = real(op, a, a); for (int i = 0; i < 6; ++i) check_eq(c[i], ref(op, v[i], v[i]), "a tensor combined with itself"); checkTensor(a, {2, 3}, v, "operand unchanged"); }
// mixed expressions agree with the scalar expression, element by element
ENTRY(qr_expression) { auto a = symTensor<float>({2, 3}, "a"), b = divTensor<float>({3}, "b"), c = symTensor<float>({2, 1}, "c"); auto r = (a + b) * c - a / b; for (int i = 0; i < 6; ++i) check_eq(r[i], (a[i] + b[i % 3]) * c[i / 3] - a[i] / b[i % 3], "chained broadcasting expression"); }
ENTRY(tr_all_rank3) { int op = sym_pick("op", 0, 3), rb = sym_pick("rb", 1, 3); Dims a = pickDims(3, 1, 3), b = pickDims(rb, 1, 3); check<float>(op, a, b); }
ENTRY(tr_rank4) { int op = sym_pick("op", 0, 3); Dims a = pickDims(4, 1, 2), b = pickDims(4, 1, 2); check<float>(op, a, b); }
// every catalogue shape against itself and against itself with one dimension replaced by 1, on either side, and with leading dimensions dropped
ENTRY(qr_catalogue) { int op = sym_pick("op", 0, 3); const Dims& d = pickShape(); check<float>(op, d, d); }
ENTRY(qr_catalogue_one) { const Dims& d = pickShape(65, 2, 6); int op = sym_pick("op", 0, 3), k = sym_pick("dim", 0, 5), sw = sym_pick("swap", 0, 1); if (k >= (int)d.size()) return; Dims e = d; e[k] = 1; if (sw) check<float>(op, e, d); else check<float>(op, d, e); }
ENTRY(qr_catalogue_drop) { const Dims& d = pickShape(65, 2, 6); int op = sym_pick("op", 0, 3), k = sym_pick("drop", 1, 5), sw = sym_pick("swap", 0, 1); if (k >= (int)d.size()) return; Dims e(d.begin() + k, d.end()); if (sw) check<float>(op, e, d); else check<float>(op, d, e); }
ENTRY(qr_catalogue_two) { const Dims& d = pickShape(65, 3, 6); int op = sym_pick("op", 0, 3), k = sym_pick("dim", 0, 5), m = sym_pick("dim", 0, 5), both = sym_pick("both", 0, 1); if (k >= (int)d.size() || m >= (int)d.size() || k == m) return; Dims a = d, b = d; b[k] = 1; if (both) a[m] = 1; else b[m] = 1; check<float>(op, a, b); }
// long vectors and matrices: beyond any blocking factor
ENTRY(qr_long) { static const Dims p[][2] = {{{1030}, {1030}}, {{1030}, {1}}, {{33, 33}, {33}}, {{33, 33}, {33, 1}}, {{128}, {128}}, {{257}, {257}}, {{20, 30}, {20, 30}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 6), sw = sym_pick("swap", 0, 1); check<float>(op, p[k][sw], p[k][1 - sw]); }
ENTRY(qr_int_like) { int op = sym_pick("op", 0, 3); static const Dims p[][2] = {{{3, 4}, {2, 4}}, {{2, 3, 4}, {2, 4}}, {{4}, {2, 3}}, {{2, 2}, {3, 2, 3}}, {{2, 3}, {4, 3, 3}}, {{6}, {2, 3}}, {{2, 1, 2}, {3, 2, 2}}, {{1, 2, 1, 3}, {2, 3, 1, 1}}}; int k = sym_pick("pair", 0, 7), sw = sym_pick("swap", 0, 1); check<float>(op, p[k][sw], p[k][1 - sw]); }
// very large operands (beyond any plausible threshold for a separate code path), mostly a fixed pattern with symbolic elements at the ends, in the middle and around powers of two
ENTRY(qr_huge) { static const Dims p[][2] = {{{66000}, {66000}}, {{65, 64}, {65, 64}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 1); check<float>(op, p[k][0], p[k][1]); }
ENTRY(qr_huge_broadcast) { static const Dims p[][2] = {{{4100}, {1}}, {{66, 65}, {65}}, {{65, 66}, {65, 1}}, {{70, 1}, {1, 70}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 3), sw = sym_pick("swap", 0, 1); check<float>(op, p[k][sw], p[k][1 - sw]); }
// arbitrary IEEE values (infinities, NaN, subnormals, zeros of either sign)
ENTRY(qf_ieee) { static const Dims p[][2] = {{{2}, {2}}, {{2, 1}, {1}}, {{1}, {1, 2}}}; int op = sym_pick("op", 0, 3), k = sym_pick("pair", 0, 2); auto a = anyTensor<float>(p[k][0], "a"), b = anyTensor<float>(p[k][1], "b"); auto r = real(op, a, b); Dims d = broadcastDims(p[k][0], p[k][1]); checkDims(r, d, "the result has the broadcast shape"); for (int i = 0; i < prodOf(d); ++i) fpSame(r[i], ref(op, a[bcIndex(i, d, p[k][0])], b[bcIndex(i, d, p[k][1])]), "each element combines the two corresponding elements, for every IEEE value"); }
// a tensor combined with itself, for every IEEE value (0 / 0, infinities, NaN)
ENTRY(qf_self) { int op = sym_pick("op", 0, 3); static const Dims S[] = {{1}, {2}, {1, 2}}; const Dims& d = S[sym_pick("shape", 0, 2)]; auto a = anyTensor<float>(d, "a"); auto r = real(op, a, a); checkDims(r, d, "shape"); for (int i = 0; i < prodOf(d); ++i) fpSame(r[i], ref(op, a[i], a[i]), "a tensor combined with itself, for every IEEE value"); }
