// @bounds broadcast views: source ranks 1..3, target ranks 1..3, dimensions 1..3 (rank 3: {1,2}) and listed wider ones; slice views: ranks 1..3, dimensions up to 5, starts/ends/steps symbolic in [-7, 8] for rank 1 and in small ranges for rank 2; elements symbolic; broadcast targets from the catalogue (up to 36 elements) and up to 33x33 / 1030 elements; slices of catalogue shapes; beyond that, views of up to 4290 elements (tensors above 1200 elements hold a fixed pattern with symbolic elements at both ends, in the middle and around powers of two)
// @outside writing through a view built on const data; indices beyond a view's shape (unchecked)
#include "repo.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
static void bview(const Dims& src, const Dims& dst) {
  auto a = symTensor<float>(src, "a"); auto v = values(a); bool ok = broadcastable(src, dst) && src.size() <= dst.size() && sameDims(broadcastDims(src, dst), dst);
  if (!ok) { if (src.size() <= dst.size()) sym_assert(rejected([&] { BroadcastView<float, CPUDevice> w(a.getData(), Shape(dst)); }), "a tensor that does not broadcast to the target is rejected"); return; }
  BroadcastView<float, CPUDevice> w(a.getData(), Shape(dst)); sym_assert(sameDims(w.shape().getDimensions(), dst), "the view has the target shape"); int n = prodOf(dst), i = 0;
  for (auto it = w.begin(); it != w.end(); ++it, ++i) { if (i >= n) { sym_fail("iteration visits each position once"); } check_eq(*it, v[bcIndex(i, dst, src)], "broadcast iteration"); } sym_assert(i == n, "iteration visits every position");
  for (i = 0; i < n; ++i) check_eq(w[unflatten(i, dst)], v[bcIndex(i, dst, src)], "broadcast indexing"); checkTensor(a, src, v, "a view does not modify its source");
}
ENTRY(qr_broadcast_small) { int ra = sym_pick("ra", 1, 2), rb = sym_pick("rb", 1, 2); Dims a = pickDims(ra, 1, 3), b = pickDims(rb, 1, 3); bview(a, b); }
ENTRY(qr_broadcast_3) { int ra = sym_pick("ra", 1, 3); Dims a = pickDims(ra, 1, 2), b = pickDims(3, 1, 2); bview(a, b); }
ENTRY(qr_broadcast_wide) { static const Dims p[][2] = {{{3, 1}, {2, 3, 4}}, {{1, 3, 1, 1}, {2, 3, 2, 2}}, {{1}, {33}}, {{5}, {2, 3, 5}}, {{2, 1, 2}, {2, 3, 2}}, {{1, 1}, {2, 2, 2, 2}}, {{4}, {2, 5}}, {{1, 7}, {5, 7}}, {{2, 1, 1, 3}, {2, 2, 2, 3}}, {{17}, {17}}}; int k = sym_pick("pair", 0, 9); bview(p[k][0], p[k][1]); }
ENTRY(qr_broadcast_end) { auto a = symTensor<float>({1, 2}, "a"); BroadcastView<float, CPUDevice> w(a.getData(), Shape({2, 2})); sym_assert(w.begin() == w.begin() && w.end() == w.end() && w.begin() != w.end(), "iterator comparison"); sym_assert(rejected([&] { (void)*w.end(); }), "dereferencing the end is rejected"); auto e = w.end(); ++e; sym_assert(e == w.end(), "advancing the end stays at the end"); }
static int norm(int s, int n) { if (s < 0) s += n; return s; }
static void sview(const Dims& d, const std::vector<std::pair<int, int>>& sl, const std::vector<int>& st) {
  auto a = symTensor<float>(d, "a"); auto v = values(a); int r = (int)d.size(); Dims start(r), len(r); bool ok = true;
  for (int i = 0; i < r; ++i) { int s = norm(sl[i].first, d[i]), e = norm(sl[i].second, d[i]); if (e > d[i]) e = d[i]; if (s < 0) s = 0; if (s > d[i] - 1) s = d[i] - 1; if (st[i] <= 0 || e <= s) { ok = false; break; } start[i] = s; len[i] = 0; for (int k = s; k < e; k += st[i]) ++len[i]; }
  bool rej = false; try { SliceView<float> w(a.getData(), sl, st); if (!ok) sym_fail("an empty slice or a non-positive step is rejected"); sym_assert(sameDims(w.shape().getDimensions(), len), "the view's shape counts the selected indices"); if (!sameDims(w.shape().getDimensions(), len)) return; int n = prodOf(len), i = 0;
    auto src = [&](int f) { auto ix = unflatten(f, len); for (int q = 0; q < r; ++q) ix[q] = start[q] + ix[q] * st[q]; return flatten(ix, d); };
    for (auto it = w.begin(); it != w.end(); ++it, ++i) { if (i >= n) sym_fail("iteration visits each selected element once"); check_eq(*it, v[src(i)], "slice iteration"); } sym_assert(i == n, "iteration visits every selected element");
    for (i = 0; i < n; ++i) check_eq(w[unflatten(i, len)], v[src(i)], "slice indexing");
    float x = sym_f32("x", -4, 4); int at = n - 1; w.set(unflatten(at, len), x); v[src(at)] = x; checkTensor(a, d, v, "writing through a slice changes exactly the selected element");
  } catch (const std::exception&) { rej = true; } sym_assert(rej == !ok, "a slice is rejected exactly when it is empty or has a non-positive step");
}
ENTRY(qr_slice_1) { int n = sym_pick("n", 1, 5), s = sym_i32("start", -7, 8), e = sym_i32("end", -7, 8), st = sym_i32("step", -1, 4); sview({n}, {{s, e}}, {st}); }
ENTRY(qr_slice_2) { int k = sym_pick("shape", 0, 1); Dims d = k ? Dims{3, 2} : Dims{2, 4}; int s = sym_pick("start", -1, 1), e = sym_pick("end", -1, 4), s2 = sym_pick("start", 0, 1), e2 = sym_pick("end", 1, 3), st = sym_pick("step", 1, 2), st2 = sym_pick("step", 1, 2); sview(d, {{s, e}, {s2, e2}}, {st, st2}); }
ENTRY(qr_slice_3) { int k = sym_pick("k", 0, 3); Dims d{2, 3, 4}; static const std::vector<std::pair<int, int>> sl[] = {{{0, 2}, {0, 3}, {0, 4}}, {{1, 2}, {0, 3}, {1, 4}}, {{0, 2}, {-2, 3}, {0, -1}}, {{0, 1}, {0, 3}, {0, 4}}}; static const Dims st[] = {{1, 1, 1}, {1, 2, 2}, {1, 1, 2}, {1, 2, 3}}; sview(d, sl[k], st[k]); }
ENTRY(qr_slice_rank) { auto a = symTensor<float>({2, 2}, "a"); sym_assert(rejected([&] { SliceView<float> w(a.getData(), {{0, 1}}, {1, 1}); }), "one range per dimension is required"); sym_assert(rejected([&] { SliceView<float> w(a.getData(), {{0, 1}, {0, 1}}, {1}); }), "one step per dimension is required"); sym_assert(rejected([&] { SliceView<float> w(a.getData(), {{0, 1}, {0, 1}, {0, 1}}, {1, 1, 1}); }), "extra ranges are rejected"); }
// every way a catalogue shape can arise from a smaller one by broadcasting
ENTRY(qr_broadcast_catalogue) { const Dims& dst = pickShape(36); int r = (int)dst.size(), m = sym_pick("mask", 0, (1 << r) - 1), drop = sym_pick("drop", 0, r - 1); Dims src; for (int i = drop; i < r; ++i) src.push_back(m >> i & 1 ? 1 : dst[i]); bview(src, dst); }
ENTRY(qr_broadcast_long) { static const Dims p[][2] = {{{1}, {1030}}, {{33}, {33, 33}}, {{33, 1}, {33, 33}}, {{1, 65}, {9, 65}}, {{129}, {129}}}; int k = sym_pick("pair", 0, 4); bview(p[k][0], p[k][1]); }
// two iterators over one view are independent
ENTRY(qr_broadcast_two_iterators) { auto a = symTensor<float>({2, 1}, "a"); BroadcastView<float, CPUDevice> w(a.getData(), Shape({2, 3})); auto it = w.begin(), jt = w.begin(); ++it; ++it; ++it; check_eq(*it, a[1], "first iterator"); check_eq(*jt, a[0], "second iterator"); auto kt = it; ++it; check_eq(*kt, a[1], "copied iterator"); sym_assert(it != kt && kt != jt, "iterators at different positions differ"); ++kt; sym_assert(it == kt, "iterators at the same position are equal"); }
ENTRY(qr_slice_catalogue) { const Dims& d = pickShape(36, 1, 4); int r = (int)d.size(); int s0 = sym_pick("s0", -2, 1), e1 = sym_pick("e1", -1, 9), st = sym_pick("st", 1, 2), k = sym_pick("dim", 0, r - 1); std::vector<std::pair<int, int>> sl(r); std::vector<int> step(r, 1); for (int i = 0; i < r; ++i) sl[i] = {0, d[i]}; sl[k] = {s0, e1}; step[k] = st; sview(d, sl, step); }
ENTRY(qr_slice_two_dims) { static const Dims S[] = {{3, 4}, {4, 3, 2}, {2, 3, 4, 2}, {5, 9}}; const Dims& d = S[sym_pick("shape", 0, 3)]; int r = (int)d.size(); std::vector<std::pair<int, int>> sl(r); std::vector<int> step(r); for (int i = 0; i < r; ++i) { sl[i] = {0, d[i]}; step[i] = 1; } sl[0] = {1, d[0]}; sl[r - 1] = {0, d[r - 1] - sym_pick("cut", 0, 1)}; step[r - 1] = sym_pick("st", 1, 3); if (r > 2) { sl[1] = {-2, 3}; step[1] = sym_pick("st", 1, 2); } sview(d, sl, step); }
// writes to every element through a slice, one after the other
ENTRY(qr_slice_write_all) { static const Dims S[] = {{4, 5}, {2, 3, 4}, {9}}; const Dims& d = S[sym_pick("shape", 0, 2)]; int r = (int)d.size(); auto a = symTensor<float>(d, "a"); auto v = values(a); std::vector<std::pair<int, int>> sl(r); std::vector<int> st(r, 1); Dims len(r); for (int i = 0; i < r; ++i) { sl[i] = {1, d[i]}; len[i] = d[i] - 1; } st[r - 1] = 2; len[r - 1] = (d[r - 1] - 1 + 1) / 2; SliceView<float> w(a.getData(), sl, st); checkDims(a, d, "source"); sym_assert(sameDims(w.shape().getDimensions(), len), "view shape"); for (int i = 0; i < prodOf(len); ++i) { float x = sym_f32("x", -4, 4); auto ix = unflatten(i, len), jx = ix; for (int q = 0; q < r; ++q) jx[q] = 1 + ix[q] * st[q]; w.set(ix, x); v[flatten(jx, d)] = x; check_eq(w[ix], x, "a written element reads back"); } checkTensor(a, d, v, "writing through a slice changes exactly the selected elements"); }
// very large views, beyond any plausible threshold for a separate code path
ENTRY(qr_huge) { switch (sym_pick("case", 0, 4)) { case 0: bview({1}, {4100}); break; case 1: bview({65}, {66, 65}); break; case 2: bview({66, 1}, {66, 65}); break; case 3: sview({4200}, {{1, 4199}}, {1}); break; default: sview({66, 65}, {{1, 65}, {0, 65}}, {1, 2}); } }
