#include "poly.hpp"
#include "solver.hpp"
// Laurent polynomials over atoms.  Atoms: input variables, INV(P), SQRT(P), EXP(m), LOG(P), opaque functions.
typedef std::vector<std::pair<int, int>> Mono; // (atom, exponent != 0), sorted by atom
struct MonoHash { size_t operator()(const Mono& m) const { u64 h = 1469598103934665603ULL; for (auto& p : m) { h = (h ^ (u64)p.first) * 1099511628211ULL; h = (h ^ (u64)(p.second + 1000)) * 1099511628211ULL; } return h; } };
typedef std::map<Mono, mpq_class> Poly;
struct TooBig {};
u64 gPolyTerms = 0;
std::function<bool(E)> gPositive;
enum AK { A_VAR, A_INV, A_SQRT, A_EXP, A_LOG, A_FUN };
struct Atom { AK k; u32 var; Poly p; int fn; E e; };
static std::vector<Atom> atoms;
static std::map<u32, int> varAtom;
static std::map<std::tuple<int, int, Poly>, int> polyAtom;
static const size_t LIMIT = 60000;
static double polyEnd = 0;

static int atomVar(u32 v) { auto it = varAtom.find(v); if (it != varAtom.end()) return it->second; atoms.push_back({A_VAR, v, {}, 0, nullptr}); return varAtom[v] = atoms.size() - 1; }
static int atomPoly(AK k, const Poly& p, int fn = 0) { auto key = std::make_tuple((int)k, fn, p); auto it = polyAtom.find(key); if (it != polyAtom.end()) return it->second; atoms.push_back({k, 0, p, fn, nullptr}); return polyAtom[key] = atoms.size() - 1; }
static Poly pconst(const mpq_class& q) { Poly p; if (sgn(q)) p[{}] = q; return p; }
static Poly patom(int a, int e = 1) { Poly p; p[{{a, e}}] = 1; return p; }
static void chk(const Poly& p) { if (p.size() > LIMIT) throw TooBig(); static int cnt = 0; if ((++cnt & 255) == 0 && nowS() > polyEnd) throw TooBig(); }
static void addTo(Poly& r, const Mono& m, const mpq_class& c) { auto it = r.find(m); if (it == r.end()) { if (sgn(c)) r.emplace(m, c); } else { it->second += c; if (!sgn(it->second)) r.erase(it); } }
static Poly padd(const Poly& a, const Poly& b, int s = 1) { Poly r = a; for (auto& t : b) addTo(r, t.first, s > 0 ? t.second : mpq_class(-t.second)); chk(r); return r; }
static Mono mmul(const Mono& a, const Mono& b, bool& redo) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; } }
  for (auto& t : r) { if (atoms[t.first].k == A_SQRT && (t.second > 1 || t.second < 0)) redo = true; if (atoms[t.first].k == A_INV && t.second < 0) redo = true; } return r; }
static Poly pmul(const Poly& a, const Poly& b);
static Poly ppow(const Poly& p, int n) { Poly r = pconst(1), b = p; while (n) { if (n & 1) r = pmul(r, b); n >>= 1; if (n) b = pmul(b, b); } return r; }
static Poly pinv(const Poly& p);
static Poly expandMono(const Mono& m) { // fix exponents of SQRT / INV atoms
  Poly r = pconst(1); Mono rest;
  for (auto& t : m) { const Atom at = atoms[t.first];
    if (at.k == A_SQRT && (t.second > 1 || t.second < 0)) { int e = t.second; int h = e >= 0 ? e / 2 : -((1 - e) / 2); int rem = e - 2 * h; Poly f = h >= 0 ? ppow(at.p, h) : ppow(pinv(at.p), -h); r = pmul(r, f); if (rem) rest.push_back({t.first, 1}); }
    else if (at.k == A_INV && t.second < 0) r = pmul(r, ppow(at.p, -t.second)); else rest.push_back(t); }
  Poly q; q[rest] = 1; return pmul(q, r); }
static Poly pmul(const Poly& a, const Poly& b) {
  Poly r; if (a.size() * b.size() > 4000000) throw TooBig(); size_t n = 0;
  std::unordered_map<Mono, mpq_class, MonoHash> acc; bool big = a.size() * b.size() > 64;
  for (auto& x : a) for (auto& y : b) { bool redo = false; Mono m = mmul(x.first, y.first, redo); mpq_class c = x.second * y.second; gPolyTerms++;
    if (redo) { Poly f = expandMono(m); for (auto& t : f) { mpq_class cc = t.second * c; if (big) acc[t.first] += cc; else addTo(r, t.first, cc); } } else if (big) acc[m] += c; else addTo(r, m, c);
    if ((++n & 1023) == 0) { if (nowS() > polyEnd || acc.size() > LIMIT) throw TooBig(); } }
  if (big) for (auto& t : acc) if (sgn(t.second)) r.emplace(t.first, t.second);
  chk(r); return r; }
static Poly pscale(const Poly& p, const mpq_class& c) { Poly r; if (sgn(c)) for (auto& t : p) r[t.first] = t.second * c; return r; }
// p = c * m * q with q primitive (min exponents 0, leading coefficient 1)
static void content(const Poly& p, mpq_class& c, Mono& m, Poly& q, bool onlyVars = false) {
  std::map<int, int> mn; bool first = true; for (auto& t : p) { std::map<int, int> cur; for (auto& x : t.first) cur[x.first] = x.second; if (first) { mn = cur; first = false; } else { for (auto& x : mn) { auto f = cur.find(x.first); int v = f == cur.end() ? 0 : f->second; x.second = std::min(x.second, v); } for (auto& x : cur) if (!mn.count(x.first)) mn[x.first] = std::min(0, x.second); } }
  m.clear(); for (auto& x : mn) if (x.second && !(onlyVars)) { if (atoms[x.first].k == A_SQRT) continue; m.push_back(x); }
  Mono inv; for (auto& x : m) inv.push_back({x.first, -x.second}); q.clear(); for (auto& t : p) { bool redo = false; q[mmul(t.first, inv, redo)] = t.second; }
  c = q.rbegin()->second; for (auto& t : q) t.second /= c; }
static Poly pinv(const Poly& p) {
  if (p.empty()) throw Unsupported("division by zero polynomial"); mpq_class c; Mono m; Poly q; content(p, c, m, q); Poly r = pconst(1 / c); Mono im; for (auto& x : m) im.push_back({x.first, -x.second});
  Poly mm; bool redo = false; mmul(im, {}, redo); if (redo) mm = expandMono(im); else mm[im] = 1; r = pmul(r, mm);
  if (q.size() == 1 && q.begin()->first.empty()) return r;
  if (q.size() == 1) { // single monomial with a SQRT atom
    Mono s; for (auto& x : q.begin()->first) s.push_back({x.first, -x.second}); return pmul(r, expandMono(s)); }
  return pmul(r, patom(atomPoly(A_INV, q))); }
static bool isConstP(const Poly& p, mpq_class& c) { if (p.empty()) { c = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { c = p.begin()->second; return true; } return false; }
static std::unordered_map<E, std::shared_ptr<Poly>> memo;
static E polyToExpr(const Poly& p);
static E atomToExpr(int a) { const Atom at = atoms[a]; switch (at.k) { case A_VAR: return gVars[at.var].e; case A_INV: return eRdiv(rc(1), polyToExpr(at.p)); case A_SQRT: return eRfun(FN_SQRT, polyToExpr(at.p)); case A_EXP: return eRfun(FN_EXP, polyToExpr(at.p)); case A_LOG: return eRfun(FN_LOG, polyToExpr(at.p)); default: return at.e ? at.e : eRfun((Fn)at.fn, polyToExpr(at.p)); } }
static E polyToExpr(const Poly& p) { E s = rc(0); for (auto& t : p) { E x = rc(t.second); for (auto& f : t.first) { E b = atomToExpr(f.first); x = f.second > 0 ? eRmul(x, eRpowi(b, f.second)) : eRdiv(x, eRpowi(b, -f.second)); } s = eRadd(s, x); } return s; }
static Poly pexp(const Poly& p) { // exp of a polynomial: product over monomials
  Poly r = pconst(1); for (auto& t : p) { Poly base; 
    // exp(c * log(Q)) with integer c is Q^c
    if (t.first.size() == 1 && t.first[0].second == 1 && atoms[t.first[0].first].k == A_LOG && t.second.get_den() == 1 && abs(t.second) <= 64) { int n = t.second.get_num().get_si(); Poly q = atoms[t.first[0].first].p; r = pmul(r, n >= 0 ? ppow(q, n) : ppow(pinv(q), -n)); continue; }
    mpz_class num = t.second.get_num(), den = t.second.get_den(); Poly arg; long n = 1; if (abs(num) <= 64) { n = num.get_si(); arg[t.first] = mpq_class(1, den); } else { n = sgn(num); arg[t.first] = abs(t.second); }
    r = pmul(r, patom(atomPoly(A_EXP, arg), (int)n)); }
  return r; }
static Poly psqrt(const Poly& p) {
  mpq_class c; if (isConstP(p, c)) { E e = eRfun(FN_SQRT, rc(c)); if (e->op == O_RCONST) return pconst(*e->q); return patom(atomPoly(A_SQRT, p)); }
  // pull provably positive INV / EXP / even factors out:  sqrt(m q) = sqrt(m) sqrt(q)
  mpq_class k; Mono m; Poly q; content(p, k, m, q); Poly out = pconst(1); Mono keep; 
  for (auto& x : m) { E ae = atomToExpr(x.first); bool pos = atoms[x.first].k == A_EXP || (gPositive && gPositive(ae)); int e = x.second;
    if (!pos) { keep.push_back(x); continue; }
    if (atoms[x.first].k == A_INV) { Poly sq = psqrt(atoms[x.first].p); out = pmul(out, ppow(pinv(sq), e)); continue; }
    int h = e >= 0 ? e / 2 : -((1 - e) / 2); int rem = e - 2 * h; if (h) { Mono mm{{x.first, h}}; Poly t; t[mm] = 1; out = pmul(out, t); }
    if (rem) { if (atoms[x.first].k == A_EXP) { Poly arg = pscale(atoms[x.first].p, mpq_class(1, 2)); out = pmul(out, pexp(arg)); } else out = pmul(out, patom(atomPoly(A_SQRT, patom(x.first)))); } }
  E sk = eRfun(FN_SQRT, rc(abs(k))); if (sk->op == O_RCONST) { out = pscale(out, *sk->q); k = sgn(k); }
  Poly rest; for (auto& t : q) { bool redo = false; Mono mm = mmul(t.first, keep, redo); rest[mm] = t.second * k; }
  mpq_class c2; if (isConstP(rest, c2) && c2 == 1) return out;
  return pmul(out, patom(atomPoly(A_SQRT, rest))); }
static Poly norm1(E e) {
  auto A = [&]() -> const Poly& { return *memo[e->a]; }; auto B = [&]() -> const Poly& { return *memo[e->b]; };
  switch (e->op) {
    case O_RCONST: return pconst(*e->q); case O_VAR: return patom(atomVar(e->imm));
    case O_RADD: return padd(A(), B()); case O_RSUB: return padd(A(), B(), -1); case O_RNEG: return pscale(A(), -1); case O_RMUL: return pmul(A(), B());
    case O_RDIV: { // invert factor by factor
      std::function<Poly(E)> inv = [&](E x) -> Poly { if (x->op == O_RMUL) return pmul(inv(x->a), inv(x->b)); if (x->op == O_RDIV) { return pmul(*memo[x->b], inv(x->a)); } if (x->op == O_RNEG) return pscale(inv(x->a), -1); return pinv(*memo[x]); };
      return pmul(A(), inv(e->b)); }
    case O_RFUN: switch (e->imm) {
      case FN_SQRT: return psqrt(A());
      case FN_EXP: return pexp(A());
      case FN_LOG: { mpq_class c; if (isConstP(A(), c) && c == 1) return pconst(0);
          // log(exp(..)^k * ..): single monomial of EXP atoms
          if (A().size() == 1 && A().begin()->second == 1) { bool all = !A().begin()->first.empty(); Poly r; for (auto& f : A().begin()->first) { if (atoms[f.first].k != A_EXP) { all = false; break; } r = padd(r, pscale(atoms[f.first].p, f.second)); } if (all) return r; }
          return patom(atomPoly(A_LOG, A())); }
      case FN_TANH: { Poly e2 = pexp(pscale(A(), 2)); return pmul(padd(e2, pconst(1), -1), pinv(padd(e2, pconst(1)))); }
      default: { return patom(atomPoly(A_FUN, A(), e->imm)); } }
    case O_RPOW: case O_RSI: case O_RUI: { Poly key; key[{{-1, 1}}] = (int)e->id; int a = atomPoly(A_FUN, key, 1000); atoms[a].e = e; return patom(a); }
    default: throw Unsupported("poly op " + exprStr(e, 1));
  }
}
static const Poly& normE(E root) {
  std::vector<E> st{root};
  while (!st.empty()) { E e = st.back(); if (memo.count(e)) { st.pop_back(); continue; } bool ready = true;
    if (e->op != O_RSI && e->op != O_RUI && e->op != O_RPOW) for (E k : {e->a, e->b}) if (k && !memo.count(k)) { st.push_back(k); ready = false; }
    if (!ready) continue; st.pop_back(); auto p = std::make_shared<Poly>(norm1(e)); memo[e] = p; }
  return *memo[root];
}
Ident polyIdentical(E a, E b) {
  if (a == b) return I_EQUAL;
  polyEnd = std::min(nowS() + 8.0, gDeadline);
  try {
    Poly d = padd(normE(a), normE(b), -1);
    mpq_class scale = 0; 
    for (int guard = 0; guard < 400 && !d.empty(); ++guard) {
      // highest INV / SQRT atom present
      int top = -1; for (auto& t : d) for (auto& f : t.first) if ((atoms[f.first].k == A_INV) || atoms[f.first].k == A_SQRT) top = std::max(top, f.first);
      if (top < 0) break;
      if (atoms[top].k == A_INV) { int mx = 0; for (auto& t : d) for (auto& f : t.first) if (f.first == top) mx = std::max(mx, f.second);
        std::map<int, Poly> byk; for (auto& t : d) { int k = 0; Mono r; for (auto& f : t.first) { if (f.first == top) k = f.second; else r.push_back(f); } byk[k][r] = t.second; }
        Poly q = atoms[top].p; Poly nd; std::vector<Poly> pw{pconst(1)}; for (int i = 1; i <= mx; ++i) pw.push_back(pmul(pw.back(), q)); for (auto& kv : byk) nd = padd(nd, pmul(kv.second, pw[mx - kv.first])); d = nd;
      } else { Poly A, B; for (auto& t : d) { int k = 0; Mono r; for (auto& f : t.first) { if (f.first == top) k = f.second; else r.push_back(f); } if (k) B[r] = t.second; else A[r] = t.second; }
        // A + B s = 0 needs A = B = 0 unless s lies in the field of the rest
        if (A.empty()) { d = B; continue; } if (B.empty()) { d = A; continue; }
        Poly chkp = padd(pmul(A, A), pmul(pmul(B, B), atoms[top].p), -1); (void)chkp;
        if (chkp.empty()) return I_GAVEUP; // equal up to sign
        return I_DIFFERENT; }
    }
    if (d.empty()) return I_EQUAL;
    // residual made only of rounding of constants?
    const Poly& na = normE(a); mpq_class ma = 0, md = 0; for (auto& t : na) ma = std::max(ma, mpq_class(abs(t.second))); for (auto& t : d) md = std::max(md, mpq_class(abs(t.second)));
    bool plain = true; for (auto& t : na) for (auto& f : t.first) if (atoms[f.first].k == A_INV) plain = false;
    if (plain && sgn(ma) > 0 && md / ma < mpq_class(1, 5000000)) return I_EQUAL;
    return I_DIFFERENT;
  } catch (TooBig&) { return I_GAVEUP; }
}
