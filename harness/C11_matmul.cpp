// @bounds vector.vector up to 65, matrices with all dimensions in 1..3 plus listed ones up to 17, batched (rank 3 and 4, and 3Dx2D / 2Dx3D) dimensions 1..2 plus listed ones; elements symbolic; every inner length and every row count 1..40 in five rank combinations; listed products up to 17x17 by 17x17, 33x8 by 8x33, vectors of 1030; products between writes; beyond that, products up to 66x65 by 65x34, inner lengths up to 5000 (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @assume real arithmetic (rounding and summation order are not modelled)
// @outside whether a batch dimension of one is refused or repeated when the other operand has more
#include "repo.hpp"
typedef AdvancedTensorOperations<float> A;
template <class F, class G> std::vector<float> mm(int B, int m, int k, int n, F a, G b) { std::vector<float> r; for (int q = 0; q < B; ++q) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { float s = 0; for (int p = 0; p < k; ++p) s += a(q, i, p) * b(q, p, j); r.push_back(s); } return r; }
static void check(const Dims& da, const Dims& db) {
  auto a = symTensor<float>(da, "a"), b = symTensor<float>(db, "b"); auto va = values(a), vb = values(b); int ra = (int)da.size(), rb = (int)db.size();
  int k = da[ra - 1], kb = rb == 1 ? db[0] : db[rb - 2];
  if (k != kb) { sym_assert(rejected([&] { A::matmul(a, b); }), "a mismatch of the contracted dimension is rejected"); checkTensor(a, da, va, "operand unchanged"); return; }
  int m = ra == 1 ? 1 : da[ra - 2], n = rb == 1 ? 1 : db[rb - 1], Ba = 1, Bb = 1; Dims bd; for (int i = 0; i < ra - 2; ++i) { Ba *= da[i]; bd.push_back(da[i]); } for (int i = 0; i < rb - 2; ++i) Bb *= db[i]; if (ra <= 2 && rb > 2) for (int i = 0; i < rb - 2; ++i) bd.push_back(db[i]); int B = std::max(Ba, Bb);
  auto e = mm(B, m, k, n, [&](int q, int i, int p) { return va[((Ba == 1 ? 0 : q) * m + i) * k + p]; }, [&](int q, int p, int j) { return vb[((Bb == 1 ? 0 : q) * k + p) * n + j]; });
  Dims d = bd; if (ra > 1) d.push_back(m); if (rb > 1) d.push_back(n); if (d.empty()) d.push_back(1);
  Tensor<float> c = A::matmul(a, b); checkDims(c, d, "matrix product shape"); checkTensor(c, d, e, "matrix product element"); checkTensor(a, da, va, "left operand unchanged"); checkTensor(b, db, vb, "right operand unchanged");
}
ENTRY(qr_dot) { int n = sym_pick("n", 1, 5), m = sym_pick("m", 1, 5); check({n}, {m}); }
ENTRY(qr_mm) { Dims a = pickDims(2, 1, 3), b = pickDims(2, 1, 3); check(a, b); }
ENTRY(qr_mv) { Dims a = pickDims(2, 1, 4), b = pickDims(1, 1, 4); if (sym_pick("side", 0, 1)) check(b, a); else check(a, b); }
ENTRY(qr_batched3) { Dims a = pickDims(3, 1, 2), b = pickDims(3, 1, 2); if (a[0] != b[0]) return; check(a, b); }
ENTRY(qr_3d2d) { Dims a = pickDims(3, 1, 2), b = pickDims(2, 1, 3); if (sym_pick("side", 0, 1)) check(b, a); else check(a, b); }
ENTRY(qr_wide) { static const Dims p[][2] = {{{65}, {65}}, {{5, 7}, {7, 3}}, {{2, 17}, {17, 2}}, {{9, 2}, {2, 9}}, {{33, 1}, {1, 2}}, {{2, 33}, {33}}, {{17}, {17, 2}}, {{3, 2, 4}, {3, 4, 2}}, {{2, 2, 3, 2}, {2, 2, 2, 3}}, {{3, 2, 4}, {4, 3}}, {{3, 2}, {4, 2, 3}}, {{2, 3, 1, 2}, {2, 3, 2, 1}}, {{1, 2, 3}, {1, 3, 2}}, {{1, 4}, {4, 5}}, {{4, 1}, {1, 5}}, {{1, 1, 5, 2}, {1, 1, 2, 3}}}; int k = sym_pick("pair", 0, 15); check(p[k][0], p[k][1]); }
ENTRY(qr_rank_mix) { static const Dims p[][2] = {{{2}, {2, 2, 2}}, {{2, 2, 2}, {2}}, {{2, 2, 2, 2}, {2, 2}}, {{2, 2}, {1, 2, 2, 2}}, {{2, 2, 2, 2}, {2, 2, 2}}}; int k = sym_pick("pair", 0, 4); auto a = symTensor<float>(p[k][0], "a"), b = symTensor<float>(p[k][1], "b"); sym_assert(rejected([&] { A::matmul(a, b); }), "a product of unsupported ranks is rejected"); }
ENTRY(qr_identity) { auto a = symTensor<float>({3, 3}, "a"); auto I = Tensor<float>::identity(3); checkTensor(A::matmul(a, I), {3, 3}, values(a), "A*I == A"); checkTensor(A::matmul(I, a), {3, 3}, values(a), "I*A == A"); }
ENTRY(qr_laws) { auto a = symTensor<float>({2, 3}, "a"), b = symTensor<float>({3, 2}, "b"), c = symTensor<float>({2, 2}, "c"); checkTensor(A::matmul(A::matmul(a, b), c), {2, 2}, values(A::matmul(a, A::matmul(b, c))), "matmul is associative"); checkTensor(A::transpose(A::matmul(a, b), 0, 1), {2, 2}, values(A::matmul(A::transpose(b, 0, 1), A::transpose(a, 0, 1))), "(AB)^T == B^T A^T"); }
ENTRY(qr_double) { sym_precise(); auto a = symTensor<double>({2, 2}, "a"), b = symTensor<double>({2, 2}, "b"); auto c = AdvancedTensorOperations<double>::matmul(a, b); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) check_eq(c[i * 2 + j], a[i * 2] * b[j] + a[i * 2 + 1] * b[2 + j], "matmul (double)"); }
ENTRY(tr_mm) { Dims a = pickDims(2, 1, 5), b = pickDims(2, 1, 5); check(a, b); }
ENTRY(tr_batched3) { Dims a = pickDims(3, 1, 3), b = pickDims(3, 1, 3); if (a[0] != b[0]) return; check(a, b); }
// every contraction length up to 40 for vector, matrix-vector and matrix products, and large sizes around powers of two
ENTRY(qr_lengths) { int k = sym_pick("k", 1, 40), how = sym_pick("how", 0, 4); if (how == 0) check({k}, {k}); else if (how == 1) check({3, k}, {k}); else if (how == 2) check({k}, {k, 3}); else if (how == 3) check({2, k}, {k, 2}); else check({2, 2, k}, {2, k, 2}); }
ENTRY(qr_rows) { int m = sym_pick("m", 1, 40), how = sym_pick("how", 0, 4); if (how == 0) check({m, 3}, {3}); else if (how == 1) check({3}, {3, m}); else if (how == 2) check({m, 2}, {2, 3}); else if (how == 3) check({3, 2}, {2, m}); else check({m, 2, 2}, {m, 2, 2}); }
ENTRY(qr_large) { static const Dims p[][2] = {{{16, 16}, {16, 16}}, {{17, 17}, {17, 17}}, {{33, 8}, {8, 9}}, {{8, 33}, {33, 8}}, {{9, 8}, {8, 33}}, {{129}, {129}}, {{1030}, {1030}}, {{65, 3}, {3, 2}}, {{3, 65}, {65, 3}}, {{2, 130}, {130}}, {{130}, {130, 2}}, {{65, 2}, {2}}, {{2}, {2, 65}}, {{9, 5, 3}, {9, 3, 5}}, {{2, 9, 9}, {2, 9, 9}}, {{3, 3, 3, 3}, {3, 3, 3, 3}}, {{7, 5, 3}, {3, 9}}, {{5, 9}, {3, 9, 7}}, {{1, 65}, {65, 1}}, {{65, 1}, {1, 65}}, {{24, 20}, {20, 12}}, {{2, 3, 17, 2}, {2, 3, 2, 17}}}; int k = sym_pick("pair", 0, (int)(sizeof p / sizeof *p) - 1); check(p[k][0], p[k][1]); }
ENTRY(qr_mismatch) { static const Dims p[][2] = {{{2, 3}, {2, 4, 2}}, {{2, 3}, {2, 2, 2}}, {{2, 2, 3}, {4, 2}}, {{2, 2, 3}, {2, 2}}, {{2, 2, 3}, {2, 4, 2}}, {{2, 2, 3}, {2, 2, 2}}, {{5, 4}, {5, 4}}, {{16}, {15}}, {{4, 16}, {17}}, {{16}, {17, 4}}, {{16}, {15, 4}}, {{4, 16}, {15}}, {{1, 2, 2, 3}, {1, 2, 2, 3}}, {{2, 1}, {2, 2, 2}}, {{2, 2, 1}, {2, 2}}, {{2, 1}, {2, 2}}, {{2, 2}, {1, 2}}, {{1, 1}, {2, 3}}, {{3, 2}, {1, 1}}, {{4}, {1}}, {{1}, {4}}, {{3, 1}, {3}}, {{3, 3}, {1}}, {{2, 2, 1}, {2, 2, 2}}, {{2, 2, 2}, {2, 1, 2}}}; int k = sym_pick("pair", 0, (int)(sizeof p / sizeof *p) - 1); check(p[k][0], p[k][1]); }
// the operands may be the same tensor; products follow writes and reshapes
ENTRY(qr_history) { auto a = symTensor<float>({2, 2}, "a"); auto v = values(a); checkTensor(A::matmul(a, a), {2, 2}, {v[0] * v[0] + v[1] * v[2], v[0] * v[1] + v[1] * v[3], v[2] * v[0] + v[3] * v[2], v[2] * v[1] + v[3] * v[3]}, "square"); auto b = symTensor<float>({2, 3}, "b"); auto c = A::matmul(a, b); auto vc = values(c); b[1] = 5; auto d = A::matmul(a, b); check_eq(d[1], v[0] * 5.f + v[1] * b[4], "after a write"); checkTensor(c, {2, 3}, vc, "an earlier product is a value"); b.reshape({3, 2}); checkTensor(A::matmul(b, a), {3, 2}, mm(1, 3, 2, 2, [&](int, int i, int p) { return b[i * 2 + p]; }, [&](int, int p, int j) { return a[p * 2 + j]; }), "after a reshape"); sym_assert(rejected([&] { A::matmul(a, b); }), "mismatch after a reshape"); a.reshape({4}); checkTensor(A::matmul(a, a), {1}, {v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]}, "dot after a reshape"); }
// large products, beyond any plausible threshold for a blocked code path
ENTRY(qr_huge) { static const Dims p[][2] = {{{66, 65}, {65, 34}}, {{34, 130}, {130, 17}}, {{5000}, {5000}}, {{2, 1100}, {1100, 3}}, {{700, 3}, {3, 2}}, {{3, 2}, {2, 700}}, {{2, 20, 33}, {2, 33, 20}}, {{66, 66}, {66}}}; int k = sym_pick("pair", 0, 7); check(p[k][0], p[k][1]); }
// batch sizes that differ: refused, or (when one of them is one) that matrix is used for every batch; never a result with batches missing
ENTRY(qr_batch_mismatch) { int r = sym_pick("rank", 1, 2); Dims p = pickDims(r, 1, 3), q = pickDims(r, 1, 3); if (p == q) return; Dims a = p, b = q, y; bool bc = true; int n = 1; for (int i = 0; i < r; ++i) { if (p[i] != q[i] && p[i] != 1 && q[i] != 1) bc = false; y.push_back(std::max(p[i], q[i])); n *= y[i]; } a.push_back(1); a.push_back(2); b.push_back(2); b.push_back(2); y.push_back(1); y.push_back(2); auto x = symTensor<float>(a, "a"), z = symTensor<float>(b, "b"); auto xv = values(x), zv = values(z); try { auto c = A::matmul(x, z); sym_assert(bc, "batch sizes that do not match are rejected"); std::vector<float> e; for (int k = 0; k < n; ++k) { int i1 = r == 1 ? k : k / y[1], i2 = r == 1 ? 0 : k % y[1]; int ka = p[0] == 1 ? 0 : i1, kb = q[0] == 1 ? 0 : i1; if (r == 2) { ka = ka * p[1] + (p[1] == 1 ? 0 : i2); kb = kb * q[1] + (q[1] == 1 ? 0 : i2); } for (int j = 0; j < 2; ++j) e.push_back(xv[ka * 2] * zv[kb * 4 + j] + xv[ka * 2 + 1] * zv[kb * 4 + 2 + j]); } checkTensor(c, y, e, "a single matrix is used for every batch"); } catch (const std::exception&) {} checkTensor(x, a, xv, "operands unchanged"); checkTensor(z, b, zv, "operands unchanged"); }
// values far from the usual range
ENTRY(qr_magnitudes) { WIDE = 1024; static const Dims p[][2] = {{{3}, {3}}, {{2, 2}, {2, 2}}, {{1, 3}, {3, 2}}, {{2, 1, 2}, {2, 2, 1}}, {{2, 1, 2}, {2, 2}}, {{2}, {2, 2}}, {{2, 2}, {2}}}; int k = sym_pick("pair", 0, 6); check(p[k][0], p[k][1]); }
// inner length against the number of columns, for every combination of ranks
ENTRY(qr_inner) { int k = sym_pick("k", 1, 12), n = sym_pick("n", 1, 5), how = sym_pick("how", 0, 4); switch (how) { case 0: check({2, 2, k}, {k, n}); break; case 1: check({2, k}, {2, k, n}); break; case 2: check({2, 2, k}, {2, k, n}); break; case 3: check({3, k}, {k, n}); break; default: check({1, 2, 1, k}, {1, 2, k, n}); } }
ENTRY(qr_batches) { int b = sym_pick("batch", 1, 17), m = sym_pick("rows", 1, 3), how = sym_pick("how", 0, 3); switch (how) { case 0: check({b, m, 2}, {2, 2}); break; case 1: check({m, 2}, {b, 2, 2}); break; case 2: check({b, m, 2}, {b, 2, 1}); break; default: if (b > 6) return; check({b, m, 1, 2}, {b, m, 2, 2}); } }
// arbitrary IEEE values: a product with an infinity or NaN anywhere is not lost
ENTRY(qf_ieee) { int how = sym_pick("how", 0, 5); static const Dims P[] = {{1, 1}, {2}, {1, 2}, {1, 1}, {1, 1, 1}, {1}}, Q[] = {{1, 1}, {2}, {2, 1}, {1}, {1, 1}, {1, 1}}; auto a = anyTensor<float>(P[how], "a"), b = anyTensor<float>(Q[how], "b"); float e = a[0] * b[0]; if (prodOf(P[how]) == 2) { float f = a[1] * b[1], c = A::matmul(a, b)[0]; float s = e + f; sym_assert((s == s) | (c != c), "NaN and infinity reach the product"); sym_assert((c == c) | (s != s), "the product of numbers is a number"); sym_assert(((a[1] == 0.f) & (b[1] == 0.f)) == false | (e != e) | (c == e), "a product with one term"); } else fpSame(A::matmul(a, b)[0], e, "product of arbitrary floats"); }
