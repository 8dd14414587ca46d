#include "expr.hpp"
#include <deque>
const char* fnName[FN_COUNT] = {"exp","log","tanh","sqrt","pow","sin","cos","log1p","expm1","floor","ceil","erf","atan","sinh","cosh","log2","exp2","log10","trunc","round","cbrt","rint"};
std::vector<VarInfo> gVars;
std::vector<E> gNodes;
static std::deque<Expr> arena;

struct KeyHash { size_t operator()(E e) const {
  u64 h = e->op * 1000003ULL + e->sort * 7919 + e->width * 31;
  auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
  mix(e->imm); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c);
  if (e->q) { mix(mpz_get_ui(e->q->get_num_mpz_t())); mix(mpz_get_ui(e->q->get_den_mpz_t())); mix(sgn(*e->q) + 1);} return h; } };
struct KeyEq { bool operator()(E x, E y) const {
  return x->op == y->op && x->sort == y->sort && x->width == y->width && x->imm == y->imm && x->a == y->a && x->b == y->b && x->c == y->c &&
    ((!x->q && !y->q) || (x->q && y->q && *x->q == *y->q)); } };
static std::unordered_set<E, KeyHash, KeyEq> table;

E mk(Op op, Sort s, int width, u64 imm, E a, E b, E c, const mpq_class* q) {
  Expr t; t.op = op; t.sort = s; t.width = width; t.imm = imm; t.a = a; t.b = b; t.c = c; t.q = const_cast<mpq_class*>(q);
  auto it = table.find(&t); if (it != table.end()) return *it;
  arena.push_back(t); E e = &arena.back(); e->id = gNodes.size(); if (q) e->q = new mpq_class(*q);
  gNodes.push_back(e); table.insert(e); return e;
}
E mkVar(const std::string& name, Sort s, int width, int kind, int srcType) {
  u32 id = gVars.size(); gVars.push_back({}); VarInfo& v = gVars.back();
  v.name = name; v.sort = s; v.width = width; v.kind = kind; v.srcType = srcType;
  v.e = mk(O_VAR, s, width, id); return v.e;
}
E bvc(u64 v, int w) { return w == 1 ? boolc(v & 1) : mk(O_CONST, S_BV, w, v & maskw(w)); }
E boolc(bool b) { return mk(O_CONST, S_BOOL, 1, b); }
E fpc(u64 bits, Sort s) { return mk(O_CONST, s, s == S_F32 ? 32 : 64, s == S_F32 ? (bits & 0xffffffffu) : bits); }
E rc(const mpq_class& q) { return mk(O_RCONST, S_REAL, 0, 0, nullptr, nullptr, nullptr, &q); }
bool isC(E e) { return e->op == O_CONST; }
mpq_class q_of_double(double d) { return mpq_class(d); }

E eNot(E a) {
  if (isC(a)) return boolc(!a->imm);
  if (a->op == O_NOT) return a->a;
  if (a->op == O_RLT) return mk(O_RLE, S_BOOL, 1, 0, a->b, a->a);
  if (a->op == O_RLE) return mk(O_RLT, S_BOOL, 1, 0, a->b, a->a);
  if (a->op == O_ULT) return mk(O_ULE, S_BOOL, 1, 0, a->b, a->a);
  if (a->op == O_ULE) return mk(O_ULT, S_BOOL, 1, 0, a->b, a->a);
  if (a->op == O_SLT) return mk(O_SLE, S_BOOL, 1, 0, a->b, a->a);
  if (a->op == O_SLE) return mk(O_SLT, S_BOOL, 1, 0, a->b, a->a);
  return mk(O_NOT, S_BOOL, 1, 0, a);
}
E eAnd(E a, E b) {
  if (isC(a)) return a->imm ? b : a; if (isC(b)) return b->imm ? a : b; if (a == b) return a;
  if (eNot(a) == b) return boolc(false);
  if (a->id > b->id) std::swap(a, b); return mk(O_BAND, S_BOOL, 1, 0, a, b);
}
E eOr(E a, E b) {
  if (isC(a)) return a->imm ? a : b; if (isC(b)) return b->imm ? b : a; if (a == b) return a;
  if (eNot(a) == b) return boolc(true);
  if (a->id > b->id) std::swap(a, b); return mk(O_BOR, S_BOOL, 1, 0, a, b);
}
static u64 foldBin(Op op, u64 x, u64 y, int w, bool& ok) {
  ok = true; u64 m = maskw(w); x &= m; y &= m; i64 sxv = sx(x, w), syv = sx(y, w);
  switch (op) {
    case O_ADD: return (x + y) & m; case O_SUB: return (x - y) & m; case O_MUL: return (x * y) & m;
    case O_UDIV: if (!y) { ok = false; return 0; } return x / y;
    case O_UREM: if (!y) { ok = false; return 0; } return x % y;
    case O_SDIV: if (!syv) { ok = false; return 0; } if (syv == -1) return (0 - x) & m; return (u64)(sxv / syv) & m;
    case O_SREM: if (!syv) { ok = false; return 0; } if (syv == -1) return 0; return (u64)(sxv % syv) & m;
    case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
    case O_SHL: return y >= (u64)w ? 0 : (x << y) & m; case O_LSHR: return y >= (u64)w ? 0 : x >> y;
    case O_ASHR: return y >= (u64)w ? (sxv < 0 ? m : 0) : ((u64)(sxv >> y)) & m;
    default: ok = false; return 0;
  }
}
E eBin(Op op, E a, E b) {
  int w = a->width;
  if (a->sort == S_BOOL) {
    switch (op) {
      case O_AND: case O_MUL: return eAnd(a, b); case O_OR: return eOr(a, b);
      case O_XOR: case O_ADD: case O_SUB: return eNot(eCmp(O_EQ, a, b));
      default: throw Unsupported("bool binop");
    }
  }
  if (isC(a) && isC(b)) { bool ok; u64 r = foldBin(op, a->imm, b->imm, w, ok); if (ok) return bvc(r, w); }
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (isC(b)) {
    u64 v = b->imm;
    switch (op) {
      case O_ADD: case O_SUB: if (!v) return a;
        if (op == O_SUB) return eBin(O_ADD, a, bvc(0 - v, w));
        if (a->op == O_ADD && isC(a->b)) return eBin(O_ADD, a->a, bvc(a->b->imm + v, w)); break;
      case O_MUL: if (!v) return b; if (v == 1) return a; if (a->op == O_MUL && isC(a->b)) return eBin(O_MUL, a->a, bvc(a->b->imm * v, w)); break;
      case O_UDIV: case O_SDIV: if (v == 1) return a; break;
      case O_UREM: if (v == 1) return bvc(0, w); break;
      case O_AND: if (!v) return b; if (v == maskw(w)) return a; break;
      case O_OR: if (!v) return a; if (v == maskw(w)) return b; break;
      case O_XOR: if (!v) return a; break;
      case O_SHL: case O_LSHR: case O_ASHR: if (!v) return a;
        if (v > 1 && v < (u64)w - 1 && op == O_SHL) return eConcat(eExtract(a, w - 1 - v, 0), bvc(0, v));
        if (v < (u64)w && op == O_LSHR) return eZext(eExtract(a, w - 1, v), w);
        break;
      default: break;
    }
  }
  if (a == b) { if (op == O_SUB || op == O_XOR) return bvc(0, w); if (op == O_AND || op == O_OR) return a; }
  return mk(op, S_BV, w, 0, a, b);
}
E eCmp(Op op, E a, E b) {
  if (a == b) return boolc(op == O_EQ || op == O_ULE || op == O_SLE);
  int w = a->width;
  if (isC(a) && isC(b)) {
    switch (op) { case O_EQ: return boolc(a->imm == b->imm); case O_ULT: return boolc(a->imm < b->imm); case O_ULE: return boolc(a->imm <= b->imm);
      case O_SLT: return boolc(sx(a->imm, w) < sx(b->imm, w)); case O_SLE: return boolc(sx(a->imm, w) <= sx(b->imm, w)); default: break; }
  }
  if (op == O_EQ) {
    if (a->sort == S_BOOL) { if (isC(a)) return a->imm ? b : eNot(b); if (isC(b)) return b->imm ? a : eNot(a); }
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (a->op == O_ZEXT) { int iw = a->a->width; if (b->imm >> iw) return boolc(false); return eCmp(O_EQ, a->a, bvc(b->imm, iw)); }
      if (a->op == O_ITE && isC(a->b) && isC(a->c)) {
        bool t = a->b->imm == b->imm, f = a->c->imm == b->imm;
        if (t && f) return boolc(true); if (!t && !f) return boolc(false); return t ? a->a : eNot(a->a);
      }
      if (a->op == O_ADD && isC(a->b)) return eCmp(O_EQ, a->a, bvc(b->imm - a->b->imm, w));
    } else if (a->id > b->id) std::swap(a, b);
  } else {
    if (op == O_ULT && isC(b) && b->imm == 0) return boolc(false);
    if (op == O_ULE && isC(a) && a->imm == 0) return boolc(true);
  }
  return mk(op, S_BOOL, 1, 0, a, b);
}
E eIte(E c, E a, E b) {
  if (isC(c)) return c->imm ? a : b; if (a == b) return a;
  if (a->sort == S_BOOL) return eOr(eAnd(c, a), eAnd(eNot(c), b));
  return mk(O_ITE, a->sort, a->width, 0, c, a, b);
}
E eExtract(E a, int hi, int lo) {
  int w = hi - lo + 1;
  if (a->sort == S_BOOL) return a;
  if (w == a->width) return a;
  E r = nullptr;
  if (isC(a)) { u64 v = (a->imm >> lo) & maskw(w); return bvc(v, w); }
  if (a->op == O_EXTRACT) return eExtract(a->a, hi + (int)a->imm, lo + (int)a->imm);
  if (a->op == O_CONCAT) { int lw = a->b->width; if (hi < lw) return eExtract(a->b, hi, lo); if (lo >= lw) return eExtract(a->a, hi - lw, lo - lw);
    if (hi > lw && lw - lo > 1) return eConcat(eExtract(a->a, hi - lw, 0), eExtract(a->b, lw - 1, lo)); }
  if (a->op == O_ZEXT) { int iw = a->a->width; E in = a->a;
    if (lo >= iw) return bvc(0, w);
    if (in->sort != S_BOOL) { if (hi < iw) return eExtract(in, hi, lo); return eZext(eExtract(in, iw - 1, lo), w); }
    if (lo == 0) { if (w == 1) return in; return eZext(in, w); } }
  if (a->op == O_SEXT) { int iw = a->a->width; if (a->a->sort != S_BOOL && hi < iw) return eExtract(a->a, hi, lo); if (lo == 0 && a->a->sort != S_BOOL) return w > iw ? eSext(a->a, w) : eExtract(a->a, w - 1, 0); }
  if (a->op == O_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eExtract(a->b, hi, lo), eExtract(a->c, hi, lo));
  if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR) && w > 1)
    return eBin(a->op, eExtract(a->a, hi, 0), eExtract(a->b, hi, 0));
  if (w == 1) { // boolean from bit
    E sh = lo ? mk(O_LSHR, S_BV, a->width, 0, a, bvc(lo, a->width)) : a;
    return eNot(eCmp(O_EQ, mk(O_AND, S_BV, a->width, 0, sh, bvc(1, a->width)), bvc(0, a->width)));
  }
  r = mk(O_EXTRACT, S_BV, w, lo, a); return r;
}
E eConcat(E hi, E lo) {
  if (hi->sort == S_BOOL || lo->sort == S_BOOL) { throw Unsupported("concat of bool"); }
  int w = hi->width + lo->width;
  if (isC(hi) && isC(lo)) return bvc((hi->imm << lo->width) | lo->imm, w);
  if (isC(hi) && hi->imm == 0) return eZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->imm == lo->imm + lo->width) return eExtract(hi->a, hi->imm + hi->width - 1, lo->imm);
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->imm == lo->a->imm + lo->a->width)
    return eConcat(eExtract(hi->a, hi->imm + hi->width - 1, lo->a->imm), lo->b);
  return mk(O_CONCAT, S_BV, w, 0, hi, lo);
}
E eZext(E a, int w) {
  if (w == a->width) return a; if (isC(a)) return bvc(a->imm, w);
  if (a->op == O_ZEXT) return eZext(a->a, w);
  if (a->sort == S_BOOL) return eIte(a, bvc(1, w), bvc(0, w));
  return mk(O_ZEXT, S_BV, w, 0, a);
}
E eSext(E a, int w) {
  if (w == a->width) return a; if (isC(a)) return bvc((u64)sx(a->imm, a->width), w);
  if (a->sort == S_BOOL) return eIte(a, bvc(~0ULL, w), bvc(0, w));
  if (a->op == O_ZEXT) return eZext(a->a, w);
  return mk(O_SEXT, S_BV, w, 0, a);
}
static float bf(u64 b) { float f; u32 x = b; memcpy(&f, &x, 4); return f; }
static double bd(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static u64 fb(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u64 db(double f) { u64 x; memcpy(&x, &f, 8); return x; }
E eF(Op op, E a, E b) {
  if (isC(a) && (!b || isC(b))) {
    bool f32 = a->sort == S_F32; volatile float x = bf(a->imm), y = b ? bf(b->imm) : 0; volatile double p = bd(a->imm), q = b ? bd(b->imm) : 0;
    auto R = [&](float r, double s) { return fpc(f32 ? fb(r) : db(s), a->sort); };
    switch (op) {
      case O_FADD: return R(x + y, p + q); case O_FSUB: return R(x - y, p - q); case O_FMUL: return R(x * y, p * q); case O_FDIV: return R(x / y, p / q);
      case O_FNEG: return fpc(a->imm ^ (f32 ? 0x80000000ULL : 1ULL << 63), a->sort); case O_FABS: return fpc(a->imm & (f32 ? 0x7fffffffULL : ~(1ULL << 63)), a->sort);
      case O_FSQRT: return R(sqrtf(x), ::sqrt(p));
      case O_FLT: return boolc(f32 ? x < y : p < q); case O_FLE: return boolc(f32 ? x <= y : p <= q); case O_FEQ: return boolc(f32 ? x == y : p == q);
      case O_FISNAN: return boolc(f32 ? x != x : p != p);
      default: break;
    }
  }
  switch (op) {
    case O_FLT: case O_FLE: case O_FEQ: if (op == O_FEQ && a->id > b->id) std::swap(a, b); if (a == b && op == O_FLT) return boolc(false);
      return mk(op, S_BOOL, 1, 0, a, b);
    case O_FISNAN: if (a->op == O_FABS || a->op == O_FNEG) return eF(O_FISNAN, a->a); if (a->op == O_SI2F || a->op == O_UI2F) return boolc(false); return mk(op, S_BOOL, 1, 0, a);
    case O_FNEG: if (a->op == O_FNEG) return a->a; break;
    case O_FABS: if (a->op == O_FNEG || a->op == O_FABS) return eF(O_FABS, a->a); break;
    case O_FADD: case O_FMUL: if (a->id > b->id) std::swap(a, b); break;
    default: break;
  }
  return mk(op, a->sort, a->width, 0, a, b);
}
E eFcvt(E a, Sort to) {
  if (a->sort == to) return a;
  if (isC(a)) { if (to == S_F64) return fpc(db((double)bf(a->imm)), to); return fpc(fb((float)bd(a->imm)), to); }
  if (to == S_F32 && a->op == O_FCVT && a->a->sort == S_F32) return a->a;
  return mk(O_FCVT, to, to == S_F32 ? 32 : 64, 0, a);
}
// ---- reals
E eRadd(E a, E b) {
  if (a->op == O_RCONST && b->op == O_RCONST) return rc(*a->q + *b->q);
  if (a->op == O_RCONST && sgn(*a->q) == 0) return b; if (b->op == O_RCONST && sgn(*b->q) == 0) return a;
  if (a->id > b->id) std::swap(a, b);
  return mk(O_RADD, S_REAL, 0, 0, a, b);
}
E eRneg(E a) { if (a->op == O_RCONST) return rc(-*a->q); if (a->op == O_RNEG) return a->a; return mk(O_RNEG, S_REAL, 0, 0, a); }
E eRsub(E a, E b) {
  if (a->op == O_RCONST && b->op == O_RCONST) return rc(*a->q - *b->q);
  if (a == b) return rc(0); if (b->op == O_RCONST && sgn(*b->q) == 0) return a; if (a->op == O_RCONST && sgn(*a->q) == 0) return eRneg(b);
  return mk(O_RSUB, S_REAL, 0, 0, a, b);
}
E eRmul(E a, E b) {
  if (a->op == O_RCONST && b->op == O_RCONST) return rc(*a->q * *b->q);
  if (b->op == O_RCONST) std::swap(a, b);
  if (a->op == O_RCONST) { if (sgn(*a->q) == 0) return a; if (*a->q == 1) return b; if (*a->q == -1) return eRneg(b); }
  else if (a->id > b->id) std::swap(a, b);
  return mk(O_RMUL, S_REAL, 0, 0, a, b);
}
E eRdiv(E a, E b) {
  if (b->op == O_RCONST && sgn(*b->q) != 0) { if (a->op == O_RCONST) return rc(*a->q / *b->q); if (*b->q == 1) return a; return eRmul(rc(1 / *b->q), a); }
  if (a->op == O_RCONST && sgn(*a->q) == 0 && b->op != O_RCONST) return a;
  return mk(O_RDIV, S_REAL, 0, 0, a, b);
}
E eRcmp(Op op, E a, E b) {
  if (a->op == O_RCONST && b->op == O_RCONST) { int c = cmp(*a->q, *b->q); return boolc(op == O_RLT ? c < 0 : op == O_RLE ? c <= 0 : c == 0); }
  if (a == b) return boolc(op != O_RLT);
  auto pos = [](E x) { return x->op == O_RFUN && x->imm == FN_EXP; };
  if (b->op == O_RCONST && sgn(*b->q) <= 0 && pos(a)) return boolc(false);
  if (a->op == O_RCONST && sgn(*a->q) <= 0 && pos(b)) return boolc(op != O_REQ);
  if (op == O_REQ && a->id > b->id) std::swap(a, b);
  return mk(op, S_BOOL, 1, 0, a, b);
}
static bool perfectSqrt(const mpq_class& q, mpq_class& r) {
  if (sgn(q) < 0) return false; mpz_class n, d;
  if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
  n = sqrt(q.get_num()); d = sqrt(q.get_den()); r = mpq_class(n, d); return true;
}
E eRfun(Fn f, E a) {
  if (a->op == O_RCONST) {
    const mpq_class& q = *a->q; mpq_class r;
    if ((f == FN_EXP || f == FN_EXP2 || f == FN_COS || f == FN_COSH) && sgn(q) == 0) return rc(1);
    if ((f == FN_LOG || f == FN_LOG2 || f == FN_LOG10) && q == 1) return rc(0);
    if (sgn(q) == 0 && (f == FN_TANH || f == FN_SIN || f == FN_LOG1P || f == FN_EXPM1 || f == FN_ERF || f == FN_ATAN || f == FN_SINH || f == FN_CBRT)) return rc(0);
    if (f == FN_SQRT && perfectSqrt(q, r)) return rc(r);
    if (f == FN_FLOOR || f == FN_CEIL || f == FN_TRUNC) { mpz_class z; if (f == FN_FLOOR || (f == FN_TRUNC && sgn(q) >= 0)) mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); else mpz_cdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return rc(z); }
    if (f == FN_ROUND || f == FN_RINT) { mpq_class h = abs(q) + mpq_class(1, 2); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t()); if (f == FN_RINT && h == mpq_class(z) && mpz_odd_p(z.get_mpz_t())) z -= 1; if (sgn(q) < 0) z = -z; return rc(mpq_class(z)); }
  }
  if (f == FN_LOG1P) return eRfun(FN_LOG, eRadd(rc(1), a));
  if (f == FN_EXPM1) return eRsub(eRfun(FN_EXP, a), rc(1));
  if (f == FN_SINH) return eRmul(rc(mpq_class(1, 2)), eRsub(eRfun(FN_EXP, a), eRfun(FN_EXP, eRneg(a))));
  if (f == FN_COSH) return eRmul(rc(mpq_class(1, 2)), eRadd(eRfun(FN_EXP, a), eRfun(FN_EXP, eRneg(a))));
  return mk(O_RFUN, S_REAL, 0, f, a);
}
E eRpowi(E a, long n) {
  if (n == 0) return rc(1);
  if (n < 0) return eRdiv(rc(1), eRpowi(a, -n));
  if (n == 1) return a;
  if (n > 4096) throw Unsupported("pow exponent");
  E h = eRpowi(a, n / 2); E r = eRmul(h, h); return (n & 1) ? eRmul(r, a) : r;
}

const std::vector<u32>& varsOf(E root) {
  static const std::vector<u32> empty;
  if (root->vars) return *root->vars;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back(); if (e->vars) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {e->a, e->b, e->c}) if (k && !k->vars) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    if (e->op == O_VAR) { e->vars = new std::vector<u32>{(u32)e->imm}; continue; }
    const std::vector<u32>* A = e->a ? e->a->vars : &empty;
    if (e->b) { const std::vector<u32>* B = e->b->vars; std::vector<u32> r;
      if (A == B || B->empty()) ; else if (A->empty()) A = B;
      else { std::set_union(A->begin(), A->end(), B->begin(), B->end(), std::back_inserter(r)); if (r.size() == A->size()) ; else if (r.size() == B->size()) A = B; else A = new std::vector<u32>(std::move(r)); } }
    if (e->c) { const std::vector<u32>* B = e->c->vars; std::vector<u32> r; std::set_union(A->begin(), A->end(), B->begin(), B->end(), std::back_inserter(r)); if (r.size() != A->size()) A = new std::vector<u32>(std::move(r)); }
    e->vars = A;
  }
  return *root->vars;
}
static const char* opN[] = {"c","rc","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","=","u<","u<=","s<","s<=","not","&&","||",
 "fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","f<","f<=","f=","isnan","ffrombv","ftobv","fcvt","si2f","ui2f","f2si","f2ui","ffun","ffun2","+","-","*","/","neg","<","<=","==","fun","si2r","ui2r","powi","pow","rbits","r2si"};
std::string exprStr(E e, int d) {
  if (!e) return "null"; if (e->op == O_CONST) return std::to_string(e->imm); if (e->op == O_RCONST) { return std::to_string(e->q->get_d()); }
  if (e->op == O_VAR) return gVars[e->imm].name; if (d == 0) return "...";
  std::string s = std::string("(") + (e->op == O_RFUN || e->op == O_FFUN ? fnName[e->imm] : opN[e->op]);
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1); return s + ")";
}

static long double fnEval(int f, long double x) {
  switch (f) { case FN_EXP: return expl(x); case FN_LOG: return logl(x); case FN_TANH: return tanhl(x); case FN_SQRT: return sqrtl(x); case FN_SIN: return sinl(x); case FN_COS: return cosl(x);
   case FN_LOG1P: return log1pl(x); case FN_EXPM1: return expm1l(x); case FN_FLOOR: return floorl(x); case FN_CEIL: return ceill(x); case FN_ERF: return erfl(x); case FN_ATAN: return atanl(x);
   case FN_SINH: return sinhl(x); case FN_COSH: return coshl(x); case FN_LOG2: return log2l(x); case FN_EXP2: return exp2l(x); case FN_LOG10: return log10l(x); case FN_TRUNC: return truncl(x); case FN_ROUND: return roundl(x); case FN_CBRT: return cbrtl(x); case FN_RINT: return nearbyintl(x); }
  return 0;
}
double hostFn(int f, double x, bool f32) {
  if (f32) { float y = x; switch (f) { case FN_EXP: return expf(y); case FN_LOG: return logf(y); case FN_TANH: return tanhf(y); case FN_SQRT: return sqrtf(y); case FN_SIN: return sinf(y); case FN_COS: return cosf(y); case FN_LOG1P: return log1pf(y); case FN_EXPM1: return expm1f(y); case FN_FLOOR: return floorf(y); case FN_CEIL: return ceilf(y); case FN_ERF: return erff(y); case FN_ATAN: return atanf(y); case FN_SINH: return sinhf(y); case FN_COSH: return coshf(y); case FN_LOG2: return log2f(y); case FN_EXP2: return exp2f(y); case FN_LOG10: return log10f(y); case FN_TRUNC: return truncf(y); case FN_ROUND: return roundf(y); case FN_CBRT: return cbrtf(y); case FN_RINT: return nearbyintf(y);} }
  switch (f) { case FN_EXP: return ::exp(x); case FN_LOG: return ::log(x); case FN_TANH: return ::tanh(x); case FN_SQRT: return ::sqrt(x); case FN_SIN: return ::sin(x); case FN_COS: return ::cos(x); case FN_LOG1P: return ::log1p(x); case FN_EXPM1: return ::expm1(x); case FN_FLOOR: return ::floor(x); case FN_CEIL: return ::ceil(x); case FN_ERF: return ::erf(x); case FN_ATAN: return ::atan(x); case FN_SINH: return ::sinh(x); case FN_COSH: return ::cosh(x); case FN_LOG2: return ::log2(x); case FN_EXP2: return ::exp2(x); case FN_LOG10: return ::log10(x); case FN_TRUNC: return ::trunc(x); case FN_ROUND: return ::round(x); case FN_CBRT: return ::cbrt(x); case FN_RINT: return ::nearbyint(x);}
  return 0;
}
Num Evaluator::eval(E root) {
  auto f = memo.find(root); if (f != memo.end()) return f->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back(); if (memo.count(e)) { st.pop_back(); continue; }
    bool ready = true; for (E k : {e->a, e->b, e->c}) if (k && !memo.count(k)) { st.push_back(k); ready = false; }
    if (!ready) continue; st.pop_back();
    Num r, A, B, C; if (e->a) A = memo[e->a]; if (e->b) B = memo[e->b]; if (e->c) C = memo[e->c];
    int w = e->width;
    auto FV = [&](E k, Num n) -> double { return k->sort == S_F32 ? (double)bf(n.bits) : bd(n.bits); };
    auto FR = [&](double v) { r.bits = e->sort == S_F32 ? fb((float)v) : db(v); };
    switch (e->op) {
      case O_CONST: r.bits = e->imm; break;
      case O_RCONST: { mpf_class x(*e->q, 128); r.r = x.get_d(); mpf_class y = x - mpf_class((double)r.r, 128); r.r += y.get_d(); break; }
      case O_VAR: { auto it = m.find((u32)e->imm); if (it != m.end()) r = it->second; else if (e->sort == S_REAL) { auto& v = gVars[e->imm]; r.r = v.bounded ? (v.lo.get_d() <= 0 && v.hi.get_d() >= 0 ? 0.0L : (long double)(v.lo.get_d() + v.hi.get_d()) / 2) : 0; } break; }
      case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: {
        if (w > 64) { bad = true; break; } bool ok; r.bits = foldBin(e->op, A.bits, B.bits, w, ok); if (!ok) { r.bits = (e->op == O_UDIV) ? maskw(w) : (e->op == O_SDIV) ? (sx(A.bits, w) >= 0 ? maskw(w) : 1) : A.bits; } break; }
      case O_CONCAT: if (w > 64) bad = true; r.bits = (A.bits << e->b->width) | B.bits; break;
      case O_EXTRACT: r.bits = (A.bits >> e->imm) & maskw(w); break;
      case O_ZEXT: r.bits = A.bits; break;
      case O_SEXT: r.bits = (u64)sx(A.bits, e->a->width) & maskw(w); break;
      case O_ITE: r = A.bits ? B : C; break;
      case O_EQ: r.bits = A.bits == B.bits; break; case O_ULT: r.bits = A.bits < B.bits; break; case O_ULE: r.bits = A.bits <= B.bits; break;
      case O_SLT: r.bits = sx(A.bits, e->a->width) < sx(B.bits, e->a->width); break; case O_SLE: r.bits = sx(A.bits, e->a->width) <= sx(B.bits, e->a->width); break;
      case O_NOT: r.bits = !A.bits; break; case O_BAND: r.bits = A.bits && B.bits; break; case O_BOR: r.bits = A.bits || B.bits; break;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FNEG: case O_FABS: case O_FSQRT: case O_FLT: case O_FLE: case O_FEQ: case O_FISNAN:
        { E x = eF(e->op, fpc(A.bits, e->a->sort), e->b ? fpc(B.bits, e->b->sort) : nullptr); r.bits = x->imm; break; }
      case O_FFROMBV: case O_FTOBV: r.bits = A.bits; break;
      case O_FCVT: FR(FV(e->a, A)); break;
      case O_SI2F: if (e->sort == S_F32) r.bits = fb((float)sx(A.bits, e->a->width)); else r.bits = db((double)sx(A.bits, e->a->width)); break;
      case O_UI2F: if (e->sort == S_F32) r.bits = fb((float)A.bits); else r.bits = db((double)A.bits); break;
      case O_F2SI: { double v = FV(e->a, A); if (!(v > -9.3e18 && v < 9.2e18)) v = 0; r.bits = (u64)(i64)v & maskw(w); break; }
      case O_F2UI: { double v = FV(e->a, A); if (!(v > -1 && v < 1.8e19)) v = 0; r.bits = (u64)v & maskw(w); break; }
      case O_FFUN: FR(hostFn(e->imm, FV(e->a, A), e->sort == S_F32)); break;
      case O_FFUN2: { double x = FV(e->a, A), y = FV(e->b, B); FR(e->sort == S_F32 ? (double)powf(x, y) : ::pow(x, y)); break; }
      case O_RADD: r.r = A.r + B.r; break; case O_RSUB: r.r = A.r - B.r; break; case O_RMUL: r.r = A.r * B.r; break; case O_RDIV: r.r = A.r / B.r; break; case O_RNEG: r.r = -A.r; break;
      case O_RLT: r.bits = A.r < B.r; break; case O_RLE: r.bits = A.r <= B.r; break; case O_REQ: r.bits = A.r == B.r; break;
      case O_RFUN: r.r = fnEval(e->imm, A.r); break; case O_RSI: r.r = (long double)sx(A.bits, e->a->width); break; case O_RUI: r.r = (long double)A.bits; break;
      case O_RPOW: r.r = powl(A.r, B.r); break; case O_R2SI: r.bits = (u64)(i64)truncl(A.r) & maskw(w); break;
      case O_RBITS: r.bits = w == 32 ? fb((float)A.r) : db((double)A.r); break;
      default: bad = true;
    }
    memo[e] = r;
  }
  return memo[root];
}
// ---- reverse mode
static std::unordered_map<E, std::unordered_map<E, E>> derivCache;
E derivative(E y, E x) {
  auto it = derivCache.find(y);
  if (it == derivCache.end()) {
    std::unordered_map<E, E> adj; std::vector<E> order; std::unordered_set<E> seen; std::vector<std::pair<E, int>> st{{y, 0}};
    while (!st.empty()) { auto& [e, s] = st.back(); if (s == 0 && seen.count(e)) { st.pop_back(); continue; } seen.insert(e);
      E k = s == 0 ? e->a : s == 1 ? e->b : nullptr; if (s >= 2) { order.push_back(e); st.pop_back(); continue; } s++; if (k && k->sort == S_REAL && !seen.count(k)) st.push_back({k, 0}); }
    adj[y] = rc(1);
    auto acc = [&](E k, E v) { auto f = adj.find(k); if (f == adj.end()) adj[k] = v; else f->second = eRadd(f->second, v); };
    for (size_t i = order.size(); i-- > 0;) {
      E e = order[i]; auto f = adj.find(e); if (f == adj.end()) continue; E g = f->second;
      switch (e->op) {
        case O_RADD: acc(e->a, g); acc(e->b, g); break; case O_RSUB: acc(e->a, g); acc(e->b, eRneg(g)); break; case O_RNEG: acc(e->a, eRneg(g)); break;
        case O_RMUL: acc(e->a, eRmul(g, e->b)); acc(e->b, eRmul(g, e->a)); break;
        case O_RDIV: acc(e->a, eRdiv(g, e->b)); acc(e->b, eRneg(eRmul(g, eRdiv(e, e->b)))); break;
        case O_RFUN: switch (e->imm) {
            case FN_EXP: acc(e->a, eRmul(g, e)); break; case FN_LOG: acc(e->a, eRdiv(g, e->a)); break;
            case FN_TANH: acc(e->a, eRmul(g, eRsub(rc(1), eRmul(e, e)))); break; case FN_SQRT: acc(e->a, eRdiv(g, eRmul(rc(2), e))); break;
            case FN_SIN: acc(e->a, eRmul(g, eRfun(FN_COS, e->a))); break; case FN_COS: acc(e->a, eRneg(eRmul(g, eRfun(FN_SIN, e->a)))); break;
            default: throw Unsupported("derivative of " + std::string(fnName[e->imm])); } break;
        case O_RCONST: case O_VAR: case O_RSI: case O_RUI: break;
        default: throw Unsupported("derivative op");
      }
    }
    it = derivCache.emplace(y, std::move(adj)).first;
  }
  auto f = it->second.find(x); return f == it->second.end() ? rc(0) : f->second;
}
