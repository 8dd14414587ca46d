// @bounds dimensions are arbitrary 32-bit integers (symbolic); rank 0..5 for validation, 1..4 for the size/stride/overflow algebra, reshape between ranks 1..3; reshapes and assignments between every pair of 24 listed shapes (up to rank 6); copy/concatenation/broadcast shapes of ranks up to 6
// @outside ranks above 5; text rendering of shapes (toString)
// @assume stream formatting and std::to_string produce some string (their text is not part of the property)
#include "repo.hpp"
static Dims symDims(int rank, const char* name, int lo, int hi) { Dims d(rank); for (int i = 0; i < rank; ++i) d[i] = sym_i32(name, lo, hi); return d; }
// Any dimension <= 0 (or an empty list) is rejected; everything else is accepted with rank/dims/strides as given.
ENTRY(qr_validate) {
  int r = sym_pick("rank", 0, 5); Dims d(r); bool bad = r == 0;
  for (int i = 0; i < r; ++i) d[i] = sym_i32("dim", INT32_MIN, INT32_MAX);
  for (int i = 0; i < r; ++i) { sym_assume(d[i] <= 4096); }
  for (int i = 0; i < r && !bad; ++i) if (d[i] <= 0) bad = true;
  bool rej = false; try { Shape s{std::vector<int>(d)}; sym_assert(s.rank() == (size_t)r, "rank"); } catch (const std::exception&) { rej = true; }
  sym_assert(rej == bad, "a shape is rejected exactly when it is empty or has a non-positive dimension");
}
ENTRY(qr_size_stride) {
  int r = sym_pick("rank", 1, 4); Dims d = symDims(r, "dim", 1, r <= 2 ? INT32_MAX : 30000);
  Shape s{std::vector<int>(d)}; size_t n = 1; for (int i = 0; i < r; ++i) n *= (size_t)d[i];
  sym_assert(s.size() == n, "size is the product of the dimensions");
  sym_assert(s.rank() == (size_t)r && s.getDimensions().size() == (size_t)r && s.getStride().size() == (size_t)r, "rank");
  for (int i = 0; i < r; ++i) { sym_assert(s[i] == d[i] && s.getDimensions()[i] == d[i], "dimensions are kept"); size_t st = 1; for (int k = r - 1; k > i; --k) st *= (size_t)d[k]; sym_assert(s.getStride()[i] == st, "row-major stride"); }
  int i = 0; for (auto it = s.begin(); it != s.end(); ++it) sym_assert(*it == d[i++], "iteration over dimensions"); sym_assert(i == r, "iteration visits every dimension");
}
ENTRY(qr_initlist) {
  int a = sym_i32("dim", 1, 100000), b = sym_i32("dim", 1, 100000), c = sym_i32("dim", 1, 100000);
  Shape s({a, b, c}); sym_assert(s.size() == (size_t)a * (size_t)b * (size_t)c, "size (list form)"); sym_assert(s.getStride()[0] == (size_t)b * (size_t)c && s.getStride()[1] == (size_t)c && s.getStride()[2] == 1, "strides (list form)");
  int x = sym_i32("any", INT32_MIN, INT32_MAX); sym_assert(rejected([&] { Shape t({2, x}); }) == (x <= 0), "list form validates");
}
// Element counts that do not fit in size_t are rejected, never wrapped.
ENTRY(qr_overflow) {
  Dims d = symDims(3, "dim", 1, INT32_MAX); sym_assume(d[0] >= (1 << 20) && d[1] >= (1 << 20)); d.push_back(sym_i32("dim", 1, INT32_MAX));
  size_t n = 1; bool ov = false; for (int i = 0; i < 4 && !ov; ++i) { if (n > SIZE_MAX / (size_t)d[i]) ov = true; else n *= (size_t)d[i]; }
  bool rej = false; size_t got = 0; try { Shape s{std::vector<int>(d)}; got = s.size(); } catch (const std::exception&) { rej = true; }
  sym_assert(rej == ov, "a shape is rejected exactly when its element count overflows"); if (!rej) sym_assert(got == n, "element count of a large shape");
}
ENTRY(qr_reshape) {
  int r1 = sym_pick("r1", 1, 2), r2 = sym_pick("r2", 1, 3); Dims d = symDims(r1, "old", 1, 60), e = symDims(r2, "new", -3, 60);
  Shape s{std::vector<int>(d)}; bool ok = true; size_t n = 1, m = 1; for (int x : d) n *= (size_t)x; for (int x : e) { if (x <= 0) { ok = false; break; } m *= (size_t)x; } if (ok && m != n) ok = false;
  bool rej = rejected([&] { s.reshape(e); }); sym_assert(rej == !ok, "reshape succeeds exactly when the element count is preserved");
  const Dims& now = rej ? d : e; sym_assert(s.rank() == now.size(), "rank after reshape"); size_t st = 1; for (int i = (int)now.size() - 1; i >= 0; --i) { sym_assert(s[i] == now[i], "dimensions after reshape"); sym_assert(s.getStride()[i] == st, "strides after reshape"); st *= (size_t)now[i]; } sym_assert(s.size() == n, "size after reshape");
}
ENTRY(qr_reshape_overflow) {   // 2^64 wraps to 0 / to the old size: must still be rejected
  Dims e = symDims(3, "new", 1, INT32_MAX); Shape s({4}); size_t m = 1; bool ov = false; for (int i = 0; i < 3 && !ov; ++i) { if (m > SIZE_MAX / (size_t)e[i]) ov = true; else m *= (size_t)e[i]; }
  sym_assume(ov); sym_assert(rejected([&] { s.reshape(e); }), "reshape to an overflowing shape is rejected"); sym_assert(s.size() == 4 && s[0] == 4 && s.rank() == 1, "shape unchanged after a rejected reshape");
}
ENTRY(qr_copy_eq) {
  int r1 = sym_pick("r1", 1, 3), r2 = sym_pick("r2", 1, 3); Dims d = symDims(r1, "a", 1, 1000), e = symDims(r2, "b", 1, 1000); Shape a{std::vector<int>(d)}, b{std::vector<int>(e)};
  bool eq = r1 == r2; if (eq) for (int i = 0; i < r1; ++i) if (d[i] != e[i]) { eq = false; break; }
  sym_assert((a == b) == eq && (a != b) == !eq, "shapes are equal exactly when their dimensions are");
  Shape c(a); b = a; for (const Shape* p : {&c, &b}) { sym_assert(*p == a && p->size() == a.size() && p->rank() == a.rank(), "copies keep the size"); for (int i = 0; i < r1; ++i) sym_assert(p->getStride()[i] == a.getStride()[i] && (*p)[i] == d[i], "copies keep dimensions and strides"); }
  Shape m(std::move(c)); Shape t({1}); t = std::move(b); sym_assert(m == a && t == a && m.size() == a.size() && t.size() == a.size() && m.getStride()[0] == a.getStride()[0] && t.getStride()[0] == a.getStride()[0], "moves keep everything");
}
ENTRY(qr_concat) {
  int r1 = sym_pick("r1", 1, 2), r2 = sym_pick("r2", 1, 2); Dims d = symDims(r1, "a", 1, 500), e = symDims(r2, "b", 1, 500); Shape s = ShapeOperations::concat(Shape{std::vector<int>(d)}, Shape{std::vector<int>(e)});
  sym_assert(s.rank() == (size_t)(r1 + r2), "concat rank"); for (int i = 0; i < r1 + r2; ++i) sym_assert(s[i] == (i < r1 ? d[i] : e[i - r1]), "concat dimensions");
}
// Broadcasting of shapes, for arbitrary dimensions.
ENTRY(qr_broadcast_shapes) {
  int r1 = sym_pick("r1", 1, 3), r2 = sym_pick("r2", 1, 3); Dims d = symDims(r1, "a", 1, 100000), e = symDims(r2, "b", 1, 100000); Shape a{std::vector<int>(d)}, b{std::vector<int>(e)};
  int r = r1 > r2 ? r1 : r2; bool ok = true; Dims x(r, 1); for (int i = 0; i < r; ++i) { int p = i < r1 ? d[r1 - 1 - i] : 1, q = i < r2 ? e[r2 - 1 - i] : 1; if (p == q) x[r - 1 - i] = p; else if (p == 1) x[r - 1 - i] = q; else if (q == 1) x[r - 1 - i] = p; else { ok = false; break; } }
  sym_assert(ShapeOperations::areBroadcastable(a, b) == ok, "areBroadcastable"); sym_assert(ShapeOperations::areBroadcastable(b, a) == ok, "areBroadcastable is symmetric");
  bool rej = false; try { Shape s = ShapeOperations::broadcastShapes(a, b); sym_assert(s.rank() == (size_t)r, "broadcast rank"); for (int i = 0; i < r; ++i) sym_assert(s[i] == x[i], "broadcast dimensions"); } catch (const std::exception&) { rej = true; }
  sym_assert(rej == !ok, "broadcastShapes rejects exactly the incompatible pairs");
}
static void reshapeCheck(const Dims& d, const Dims& e) { Shape s{std::vector<int>(d)}; sym_assert(!rejected([&] { s.reshape(e); }), "a reshape to the same element count succeeds"); Shape t{std::vector<int>(e)}; sym_assert(s == t && s.size() == t.size() && s.rank() == e.size(), "dimensions after reshape"); size_t st = 1; for (int i = (int)e.size() - 1; i >= 0; --i) { sym_assert(s[i] == e[i] && s.getStride()[i] == st && t.getStride()[i] == st, "strides after reshape"); st *= (size_t)e[i]; } sym_assert(s.getStride().size() == e.size(), "one stride per dimension"); }
// every reshape between shapes of 12, 24 and 36 elements (ranks 1..4), then back again
ENTRY(qr_reshape_pairs) { static const Dims P[] = {{12}, {1, 12}, {12, 1}, {2, 6}, {6, 2}, {3, 4}, {4, 3}, {2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 3, 4}, {4, 1, 3}, {1, 1, 12}, {2, 1, 6}, {1, 2, 2, 3}, {2, 2, 3, 1}, {3, 1, 2, 2}, {2, 3, 1, 2}, {1, 1, 2, 3, 2}, {2, 1, 3, 1, 2}}; int i = sym_pick("from", 0, 19), j = sym_pick("to", 0, 19); reshapeCheck(P[i], P[j]); Shape s{std::vector<int>(P[i])}; s.reshape(P[j]); s.reshape(Shape{std::vector<int>(P[i])}); Shape t{std::vector<int>(P[i])}; sym_assert(s == t && s.size() == 12, "reshaping back"); for (size_t k = 0; k < P[i].size(); ++k) sym_assert(s.getStride()[k] == t.getStride()[k], "strides after reshaping back"); }
ENTRY(qr_reshape_pairs24) { static const Dims P[] = {{24}, {2, 3, 4}, {4, 3, 2}, {3, 4, 2}, {2, 4, 3}, {4, 2, 3}, {3, 2, 4}, {2, 2, 2, 3}, {2, 2, 3, 2}, {2, 3, 2, 2}, {3, 2, 2, 2}, {6, 4}, {4, 6}, {1, 24}, {8, 3}, {3, 8}, {2, 12}, {12, 2}, {2, 2, 6}, {6, 2, 2}, {2, 6, 2}, {1, 2, 3, 2, 2}}; int i = sym_pick("from", 0, 21), j = sym_pick("to", 0, 21); reshapeCheck(P[i], P[j]); }
// same rank, last (or first) extent kept, everything else symbolic
ENTRY(qr_reshape_same_rank) { int a = sym_i32("a", 1, 40), b = sym_i32("b", 1, 40), c = sym_i32("c", 1, 40), k = sym_pick("kept", 0, 2); Dims d{a, b, c}, e = k == 2 ? Dims{b, a, c} : k == 0 ? Dims{a, c, b} : Dims{c, b, a}; reshapeCheck(d, e); }
// copy and move assignment between every pair of catalogue shapes, including pairs of equal size or rank
ENTRY(qr_assign_pairs) { static const Dims P[] = {{6}, {2, 3}, {3, 2}, {1, 6}, {6, 1}, {1, 2, 3}, {3, 1, 2}, {12}, {2, 6}, {2, 2, 3}, {1}, {1, 1, 1, 1}, {2, 3, 1, 2}}; int i = sym_pick("from", 0, 12), j = sym_pick("to", 0, 12); Shape a{std::vector<int>(P[i])}, b{std::vector<int>(P[j])}, c{std::vector<int>(P[j])}, m{std::vector<int>(P[i])}; b = a; c = std::move(m); for (const Shape* s : {&b, &c}) { sym_assert(*s == a && !(*s != a) && s->size() == a.size() && s->rank() == a.rank() && s->getStride().size() == a.rank(), "assignment takes over everything"); for (size_t k = 0; k < a.rank(); ++k) sym_assert((*s)[k] == P[i][k] && s->getStride()[k] == a.getStride()[k], "assigned dimension and stride"); } sym_assert((a == Shape{std::vector<int>(P[j])}) == (i == j), "shapes of equal size differ when their dimensions do"); Shape& r = b; b = r; sym_assert(b == a && b.size() == a.size(), "self assignment"); }
// broadcasting between ranks up to 5
ENTRY(qr_broadcast_ranks) { int r1 = sym_pick("r1", 1, 5), r2 = sym_pick("r2", 4, 5), sw = sym_pick("swap", 0, 1); Dims d(r1), e(r2); for (int i = 0; i < r1; ++i) d[i] = (i * 7 + r1) % 3 == 0 ? 1 : sym_i32("a", 2, 9); for (int i = 0; i < r2; ++i) { int k = i - (r2 - r1); e[i] = k >= 0 && k < r1 && i % 2 ? d[k] : (i % 3 == 0 ? 1 : sym_i32("b", 1, 9)); } Shape a{std::vector<int>(sw ? e : d)}, b{std::vector<int>(sw ? d : e)}; int r = r1 > r2 ? r1 : r2; bool ok = true; Dims x(r); for (int i = 0; i < r; ++i) { int p = i < r1 ? d[r1 - 1 - i] : 1, q = i < r2 ? e[r2 - 1 - i] : 1; if (p == q || q == 1) x[r - 1 - i] = p; else if (p == 1) x[r - 1 - i] = q; else { ok = false; break; } } sym_assert(ShapeOperations::areBroadcastable(a, b) == ok, "areBroadcastable (rank 4 and 5)"); bool rej = false; try { Shape s = ShapeOperations::broadcastShapes(a, b); sym_assert(s.rank() == (size_t)r, "broadcast rank"); for (int i = 0; i < r; ++i) sym_assert(s[i] == x[i], "broadcast dimension"); } catch (const std::exception&) { rej = true; } sym_assert(rej == !ok, "broadcastShapes rejects exactly the incompatible pairs (rank 4 and 5)"); }
ENTRY(qr_concat_ranks) { int r1 = sym_pick("r1", 1, 4), r2 = sym_pick("r2", 1, 4); Dims d = symDims(r1, "a", 1, 20), e = symDims(r2, "b", 1, 20); Shape s = ShapeOperations::concat(Shape{std::vector<int>(d)}, Shape{std::vector<int>(e)}); sym_assert(s.rank() == (size_t)(r1 + r2), "concat rank"); size_t n = 1; for (int i = r1 + r2 - 1; i >= 0; --i) { int x = i < r1 ? d[i] : e[i - r1]; sym_assert(s[i] == x && s.getStride()[i] == n, "concat dimensions and strides"); n *= (size_t)x; } sym_assert(s.size() == n, "concat size"); }
ENTRY(qr_rank6) { const Dims& d = pickShape(65, 4, 6); Shape s{std::vector<int>(d)}; size_t n = 1; for (int i = (int)d.size() - 1; i >= 0; --i) { sym_assert(s[i] == d[i] && s.getStride()[i] == n, "stride of a high-rank shape"); n *= (size_t)d[i]; } sym_assert(s.size() == n, "size of a high-rank shape"); }
// element counts above 2^32: every wrong count is still told apart, and the right one still accepted
ENTRY(qr_reshape_large) { static const Dims P[] = {{65536, 65536}, {2147483647, 4}, {46341, 46341, 5}, {65537, 65536}, {1000000, 4296}}; int k = sym_pick("prefix", 0, 4), front = sym_pick("front", 0, 1), c = sym_i32("c", 1, 1000), e = sym_i32("e", 1, 1000); Dims d = P[k], f = P[k]; d.push_back(c); f.insert(front ? f.begin() : f.end(), e); Shape s{std::vector<int>(d)}; size_t n = s.size(); bool rej = rejected([&] { s.reshape(f); }); sym_assert(rej == (c != e), "a large reshape succeeds exactly when the element count is preserved"); sym_assert(s.size() == n, "size after a large reshape"); const Dims& now = rej ? d : f; for (size_t i = 0; i < now.size(); ++i) sym_assert(s[i] == now[i], "dimensions after a large reshape"); }
