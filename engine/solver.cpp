#include "solver.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <cstdio>
#include <cstdlib>
#include <sstream>
std::function<int(E, mpq_class&, mpq_class&)> gBounds; SolverStats gStats; double gDeadline = 1e18;
double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::string sortS(E e) { switch (e->sort) { case S_BOOL: return "Bool"; case S_BV: return "(_ BitVec " + std::to_string(e->width) + ")"; case S_F32: return "Float32"; case S_F64: return "Float64"; default: return "Real"; } }
static std::string bvS(u64 v, int w) { std::string s = "#b"; for (int i = w - 1; i >= 0; --i) s += (i < 64 && ((v >> i) & 1)) ? '1' : '0'; return s; }
static std::string ratS(const mpq_class& q) { mpz_class n = q.get_num(), d = q.get_den(); bool neg = sgn(n) < 0; if (neg) n = -n;
  std::string s = d == 1 ? n.get_str() + ".0" : "(/ " + n.get_str() + ".0 " + d.get_str() + ".0)"; return neg ? "(- " + s + ")" : s; }
static std::string toFp(Sort s) { return s == S_F32 ? "(_ to_fp 8 24)" : "(_ to_fp 11 53)"; }
static std::string ref(E e) {
  switch (e->op) {
    case O_CONST: if (e->sort == S_BOOL) return e->imm ? "true" : "false"; if (e->sort == S_BV) return bvS(e->imm, e->width); return "(" + toFp(e->sort) + " " + bvS(e->imm, e->width) + ")";
    case O_RCONST: return ratS(*e->q);
    case O_VAR: return "v" + std::to_string(e->imm);
    default: return "n" + std::to_string(e->id);
  }
}
static std::string body(E e) {
  auto A = [&] { return ref(e->a); }; auto B = [&] { return ref(e->b); }; auto C = [&] { return ref(e->c); };
  auto b2 = [&](const char* o) { return std::string("(") + o + " " + A() + " " + B() + ")"; }; auto u1 = [&](const std::string& o) { return "(" + o + " " + A() + ")"; };
  auto fp2 = [&](const char* o) { return std::string("(") + o + " RNE " + A() + " " + B() + ")"; };
  switch (e->op) {
    case O_ADD: return b2("bvadd"); case O_SUB: return b2("bvsub"); case O_MUL: return b2("bvmul"); case O_UDIV: return b2("bvudiv"); case O_SDIV: return b2("bvsdiv"); case O_UREM: return b2("bvurem"); case O_SREM: return b2("bvsrem");
    case O_AND: return b2("bvand"); case O_OR: return b2("bvor"); case O_XOR: return b2("bvxor"); case O_SHL: return b2("bvshl"); case O_LSHR: return b2("bvlshr"); case O_ASHR: return b2("bvashr");
    case O_CONCAT: return b2("concat"); case O_EXTRACT: return u1("(_ extract " + std::to_string(e->imm + e->width - 1) + " " + std::to_string(e->imm) + ")");
    case O_ZEXT: return u1("(_ zero_extend " + std::to_string(e->width - e->a->width) + ")"); case O_SEXT: return u1("(_ sign_extend " + std::to_string(e->width - e->a->width) + ")");
    case O_ITE: return "(ite " + A() + " " + B() + " " + C() + ")";
    case O_EQ: return b2("="); case O_ULT: return b2("bvult"); case O_ULE: return b2("bvule"); case O_SLT: return b2("bvslt"); case O_SLE: return b2("bvsle");
    case O_NOT: return u1("not"); case O_BAND: return b2("and"); case O_BOR: return b2("or");
    case O_FADD: return fp2("fp.add"); case O_FSUB: return fp2("fp.sub"); case O_FMUL: return fp2("fp.mul"); case O_FDIV: return fp2("fp.div");
    case O_FNEG: return u1("fp.neg"); case O_FABS: return u1("fp.abs"); case O_FSQRT: return u1("fp.sqrt RNE"); case O_FLT: return b2("fp.lt"); case O_FLE: return b2("fp.leq"); case O_FEQ: return b2("fp.eq"); case O_FISNAN: return u1("fp.isNaN");
    case O_FFROMBV: return u1(toFp(e->sort)); case O_FCVT: return u1(toFp(e->sort) + " RNE");
    case O_SI2F: return u1(toFp(e->sort) + " RNE"); case O_UI2F: return u1((e->sort == S_F32 ? std::string("(_ to_fp_unsigned 8 24)") : std::string("(_ to_fp_unsigned 11 53)")) + " RNE");
    case O_F2SI: return u1("(_ fp.to_sbv " + std::to_string(e->width) + ") RTZ"); case O_F2UI: return u1("(_ fp.to_ubv " + std::to_string(e->width) + ") RTZ");
    case O_RADD: return b2("+"); case O_RSUB: return b2("-"); case O_RMUL: return b2("*"); case O_RDIV: return b2("/"); case O_RNEG: return u1("-");
    case O_RLT: return b2("<"); case O_RLE: return b2("<="); case O_REQ: return b2("=");
    case O_RSI: { mpz_class p = mpz_class(1) << e->a->width; return "(- (to_real (bv2nat " + A() + ")) (ite (bvslt " + A() + " " + bvS(0, e->a->width) + ") " + p.get_str() + ".0 0.0))"; }
    case O_RUI: return "(to_real (bv2nat " + A() + "))";
    default: throw Unsupported("smt emission op " + exprStr(e, 2));
  }
}
static bool isFreshOp(E e) { return e->op == O_RFUN || e->op == O_FFUN || e->op == O_FFUN2 || e->op == O_RPOW || e->op == O_FTOBV || e->op == O_RBITS || e->op == O_R2SI; }
static std::string axiom(E e) {
  std::string n = ref(e), x = e->a ? ref(e->a) : "";
  if (e->op == O_FTOBV) return "(= (" + toFp(e->a->sort) + " " + n + ") " + x + ")";
  if (e->op == O_RFUN) switch (e->imm) {
    case FN_EXP: return "(and (> " + n + " 0.0) (>= " + n + " (+ 1.0 " + x + ")) (=> (= " + x + " 0.0) (= " + n + " 1.0)) (=> (< " + x + " 0.0) (< " + n + " 1.0)) (=> (> " + x + " 0.0) (> " + n + " (+ 1.0 " + x + " (* 0.5 " + x + " " + x + ")))))";
    case FN_LOG: return "(=> (> " + x + " 0.0) (and (<= " + n + " (- " + x + " 1.0)) (=> (> " + x + " 1.0) (> " + n + " 0.0)) (=> (< " + x + " 1.0) (< " + n + " 0.0)) (=> (= " + x + " 1.0) (= " + n + " 0.0))))";
    case FN_TANH: return "(and (< (- 1.0) " + n + " 1.0) (=> (> " + x + " 0.0) (< 0.0 " + n + " " + x + ")) (=> (< " + x + " 0.0) (< " + x + " " + n + " 0.0)) (=> (= " + x + " 0.0) (= " + n + " 0.0)))";
    case FN_SQRT: return "(=> (>= " + x + " 0.0) (and (>= " + n + " 0.0) (= (* " + n + " " + n + ") " + x + ")))";
    case FN_SIN: case FN_COS: case FN_ERF: return "(<= (- 1.0) " + n + " 1.0)";
    case FN_COSH: return "(>= " + n + " 1.0)";
    case FN_FLOOR: return "(= " + n + " (to_real (to_int " + x + ")))";
    case FN_CEIL: return "(= " + n + " (- (to_real (to_int (- " + x + ")))))";
    case FN_TRUNC: return "(= " + n + " (ite (>= " + x + " 0.0) (to_real (to_int " + x + ")) (- (to_real (to_int (- " + x + "))))))";
    case FN_ROUND: return "(= " + n + " (ite (>= " + x + " 0.0) (to_real (to_int (+ " + x + " 0.5))) (- (to_real (to_int (+ (- " + x + ") 0.5))))))";
    case FN_RINT: return "(and (<= (- " + n + " 0.5) " + x + " (+ " + n + " 0.5)) (is_int " + n + ") (=> (= (- " + n + " 0.5) " + x + ") (is_int (/ " + n + " 2.0))) (=> (= (+ " + n + " 0.5) " + x + ") (is_int (/ " + n + " 2.0))))";
    default: return "true";
  }
  if (e->op == O_FFUN) {
    std::string s = toFp(e->sort); bool f = e->sort == S_F32;
    auto K = [&](double d) { return ref(fpc(f ? [&]{ float y = d; u32 b; memcpy(&b, &y, 4); return (u64)b; }() : [&]{ u64 b; memcpy(&b, &d, 8); return b; }(), e->sort)); };
    std::string nan = "(= (fp.isNaN " + n + ") (fp.isNaN " + x + "))", z = K(0), one = K(1);
    switch (e->imm) {
      case FN_EXP: { std::string hi = f ? K(88.72) : K(709.7), hi2 = f ? K(88.73) : K(709.79), lo = f ? K(-87.3) : K(-708.3), lo2 = f ? K(-104) : K(-746);
        return "(and " + nan + " (=> (not (fp.isNaN " + x + ")) (and (fp.leq " + z + " " + n + ") (not (fp.isNegative " + n + ")) (=> (fp.leq " + x + " " + z + ") (fp.leq " + n + " " + one + ")) (=> (fp.geq " + x + " " + z + ") (fp.geq " + n + " " + one + ")) (=> (fp.isZero " + x + ") (fp.eq " + n + " " + one + "))"
          " (=> (fp.leq " + x + " " + hi + ") (not (fp.isInfinite " + n + "))) (=> (fp.geq " + x + " " + hi2 + ") (fp.isInfinite " + n + ")) (=> (and (fp.leq " + lo + " " + x + ") (fp.leq " + x + " " + hi + ")) (fp.isNormal " + n + ")) (=> (fp.isInfinite " + n + ") (fp.gt " + x + " " + hi + ")) (=> (fp.leq " + x + " " + lo2 + ") (fp.isZero " + n + ")) (=> (fp.geq " + x + " " + one + ") (or (fp.isInfinite " + n + ") (fp.gt " + n + " " + x + "))))))"; }
      case FN_TANH: return "(and " + nan + " (=> (not (fp.isNaN " + x + ")) (and (fp.leq " + K(-1) + " " + n + ") (fp.leq " + n + " " + one + ") (=> (fp.geq " + x + " " + z + ") (fp.geq " + n + " " + z + ")) (=> (fp.leq " + x + " " + z + ") (fp.leq " + n + " " + z + ")))))";
      case FN_LOG: return "(and (=> (fp.gt " + x + " " + z + ") (not (fp.isNaN " + n + "))) (=> (fp.lt " + x + " " + z + ") (fp.isNaN " + n + ")) (=> (fp.isNaN " + x + ") (fp.isNaN " + n + ")) (=> (fp.isZero " + x + ") (and (fp.isInfinite " + n + ") (fp.isNegative " + n + "))) (=> (and (fp.gt " + x + " " + z + ") (not (fp.isInfinite " + x + "))) (not (fp.isInfinite " + n + "))) (=> (fp.geq " + x + " " + one + ") (fp.geq " + n + " " + z + ")) (=> (and (fp.geq " + x + " " + z + ") (fp.leq " + x + " " + one + ")) (fp.leq " + n + " " + z + ")) (=> (and (fp.isInfinite " + x + ") (fp.isPositive " + x + ")) (and (fp.isInfinite " + n + ") (fp.isPositive " + n + "))))";
      case FN_FLOOR: case FN_CEIL: case FN_TRUNC: case FN_ROUND: case FN_RINT: return std::string("(= ") + n + " (fp.roundToIntegral " + (e->imm == FN_FLOOR ? "RTN " : e->imm == FN_CEIL ? "RTP " : e->imm == FN_TRUNC ? "RTZ " : e->imm == FN_ROUND ? "RNA " : "RNE ") + x + "))";
      default: return "(=> (fp.isNaN " + x + ") (fp.isNaN " + n + "))";
    }
  }
  return "true";
}
static void topo(const std::vector<E>& roots, std::vector<E>& order, std::unordered_set<E>& seen) {
  std::vector<std::pair<E, int>> st;
  for (E r : roots) { if (seen.count(r)) continue; st.push_back({r, 0}); seen.insert(r);
    while (!st.empty()) { E e = st.back().first; int s = st.back().second++; if (s == 3) { order.push_back(e); st.pop_back(); continue; }
      E k = s == 0 ? e->a : s == 1 ? e->b : e->c; if (k && !seen.count(k)) { seen.insert(k); st.push_back({k, 0}); } } }
}
static std::string declOf(E e) {
  if (e->op == O_VAR) { std::string n = ref(e);
    if (e->sort == S_F32 || e->sort == S_F64) return "(declare-fun " + n + "b () (_ BitVec " + std::to_string(e->width) + "))\n(define-fun " + n + " () " + sortS(e) + " (" + toFp(e->sort) + " " + n + "b))\n";
    return "(declare-fun " + n + " () " + sortS(e) + ")\n"; }
  if (e->op == O_CONST || e->op == O_RCONST) return "";
  if (isFreshOp(e)) return "(declare-fun " + ref(e) + " () " + sortS(e) + ")\n";
  return "(define-fun " + ref(e) + " () " + sortS(e) + " " + body(e) + ")\n";
}
static void monoAxioms(const std::vector<E>& fr, std::string& out) { // pairwise monotonicity
  if (fr.size() > 12) return;
  for (size_t i = 0; i < fr.size(); ++i) for (size_t j = i + 1; j < fr.size(); ++j) { E p = fr[i], q = fr[j];
    if (p->op != q->op || p->imm != q->imm || p->sort != q->sort) continue;
    if (p->op == O_RFUN && (p->imm == FN_EXP || p->imm == FN_TANH)) out += "(assert (and (=> (< " + ref(p->a) + " " + ref(q->a) + ") (< " + ref(p) + " " + ref(q) + ")) (=> (> " + ref(p->a) + " " + ref(q->a) + ") (> " + ref(p) + " " + ref(q) + ")) (=> (= " + ref(p->a) + " " + ref(q->a) + ") (= " + ref(p) + " " + ref(q) + "))))\n";
    if (p->op == O_FFUN && (p->imm == FN_EXP || p->imm == FN_TANH || p->imm == FN_LOG)) out += "(assert (and (=> (fp.leq " + ref(p->a) + " " + ref(q->a) + ") (not (fp.gt " + ref(p) + " " + ref(q) + "))) (=> (fp.geq " + ref(p->a) + " " + ref(q->a) + ") (not (fp.lt " + ref(p) + " " + ref(q) + ")))))\n";
  }
}
static std::string scopeAsserts(const std::vector<E>& conj, const std::vector<E>& order, std::vector<u32>& vars) {
  std::string s; std::vector<E> fr;
  for (E e : order) { if (e->op == O_RFUN && gBounds) { mpq_class lo, hi; int k = gBounds(e, lo, hi); if (k & 1) s += "(assert (<= " + ratS(lo) + " " + ref(e) + "))\n"; if (k & 2) s += "(assert (<= " + ref(e) + " " + ratS(hi) + "))\n"; }
    if (isFreshOp(e)) { fr.push_back(e); std::string a = axiom(e); if (a != "true") s += "(assert " + a + ")\n"; }
    if (e->op == O_VAR) { vars.push_back(e->imm); auto& v = gVars[e->imm]; if (v.bounded) s += "(assert (<= " + ratS(v.lo) + " " + ref(e) + " " + ratS(v.hi) + "))\n"; } }
  monoAxioms(fr, s);
  for (E c : conj) s += "(assert " + ref(c) + ")\n";
  return s;
}
std::string smtText(const std::vector<E>& conj, bool) {
  std::vector<E> order; std::unordered_set<E> seen; topo(conj, order, seen); std::string s = "(set-logic ALL)\n"; for (E e : order) s += declOf(e);
  std::vector<u32> vars; s += scopeAsserts(conj, order, vars); s += "(check-sat)\n"; return s;
}
// ---- processes
struct Proc { pid_t pid = -1; int in = -1, out = -1; std::string buf; std::unordered_set<E> defined; size_t defs = 0;
  void start(const std::vector<const char*>& argv) {
    int p[2], q[2]; if (pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC)) throw std::runtime_error("pipe");
    pid = fork(); if (pid == 0) { dup2(p[0], 0); dup2(q[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); std::vector<char*> a; for (auto x : argv) a.push_back((char*)x); a.push_back(nullptr); execvp(a[0], a.data()); _exit(127); }
    close(p[0]); close(q[1]); in = p[1]; out = q[0]; buf.clear(); defined.clear(); defs = 0; }
  void stop() { if (pid > 0) { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); pid = -1; } }
  bool send(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(in, s.data() + o, s.size() - o); if (n <= 0) return false; o += n; } return true; }
  bool line(std::string& l, int ms) { // one s-expression or atom line
    double end = nowS() + ms / 1000.0; int depth = 0; size_t i = 0; std::string acc; bool any = false;
    for (;;) { while (i < buf.size()) { char c = buf[i++]; if (c == '(') { depth++; any = true; } else if (c == ')') depth--; if (c == '\n' && depth == 0 && any) { l = buf.substr(0, i); buf.erase(0, i); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); return true; } if (!isspace((unsigned char)c)) any = true; else if (!any && c == '\n') { buf.erase(0, i); i = 0; } }
      double rem = end - nowS(); if (rem <= 0) return false; pollfd pf{out, POLLIN, 0}; int r = poll(&pf, 1, std::max(1, (int)(rem * 1000))); if (r <= 0) return false; char tmp[65536]; ssize_t n = read(out, tmp, sizeof tmp); if (n <= 0) return false; buf.append(tmp, n); } }
};
static Proc z3;
void smtShutdown() { z3.stop(); }
struct CacheEnt { Res r; Model m; };
static std::map<std::vector<u32>, CacheEnt> cache;

static long double parseReal(const std::string& s, size_t& i) {
  while (i < s.size() && isspace((unsigned char)s[i])) i++;
  if (s[i] == '(') { i++; while (isspace((unsigned char)s[i])) i++; std::string op; while (!isspace((unsigned char)s[i])) op += s[i++];
    long double r = 0; bool first = true; for (;;) { while (isspace((unsigned char)s[i])) i++; if (s[i] == ')') { i++; break; } long double v = parseReal(s, i); if (first) { r = v; first = false; while (isspace((unsigned char)s[i])) i++; if (op == "-" && s[i] == ')') r = -v; } else { if (op == "/") r /= v; else if (op == "-") r -= v; else if (op == "+") r += v; else if (op == "*") r *= v; } } return r; }
  std::string t; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '.' || s[i] == '?' || s[i] == '-' || s[i] == '#')) t += s[i++];
  if (t.empty()) { i++; return 0; }
  while (!t.empty() && t.back() == '?') t.pop_back(); return strtold(t.c_str(), nullptr);
}
static void parseModel(const std::string& s, const std::vector<u32>& vars, Model& m) {
  size_t i = 0; auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) i++; };
  ws(); if (i < s.size() && s[i] == '(') i++;
  for (u32 v : vars) { ws(); if (i >= s.size() || s[i] != '(') return; i++; while (i < s.size() && !isspace((unsigned char)s[i])) i++; ws(); Num n;
    if (gVars[v].sort == S_REAL) { n.r = parseReal(s, i); }
    else { std::string t; while (i < s.size() && s[i] != ')') t += s[i++]; if (t.substr(0, 2) == "#x") n.bits = strtoull(t.c_str() + 2, nullptr, 16); else if (t.substr(0, 2) == "#b") n.bits = strtoull(t.c_str() + 2, nullptr, 2); else if (t == "true") n.bits = 1; }
    ws(); if (i < s.size() && s[i] == ')') i++; m[v] = n; }
}
static Res fileSolve(const std::vector<const char*>& argv, const std::string& text, int ms) {
  Proc p; p.start(argv); if (!p.send(text)) { p.stop(); return R_UNKNOWN; } close(p.in); p.in = -1; std::string l; Res r = R_UNKNOWN; if (p.line(l, ms)) { if (l == "unsat") r = R_UNSAT; else if (l == "sat") r = R_SAT; } p.stop(); return r;
}
Res smtCheck(const std::vector<E>& conj0, Model* model, int timeoutMs, bool portfolio) {
  std::vector<E> conj; for (E c : conj0) { if (isFalse(c)) return R_UNSAT; if (!isTrue(c)) conj.push_back(c); }
  if (conj.empty()) return R_SAT;
  std::vector<u32> key; for (E c : conj) key.push_back(c->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key); if (it != cache.end()) { gStats.cacheHits++; if (it->second.r == R_SAT && model) for (auto& kv : it->second.m) (*model)[kv.first] = kv.second; return it->second.r; }
  double rem = gDeadline - nowS(); if (rem < 0.05) return R_UNKNOWN; timeoutMs = std::min(timeoutMs, (int)(rem * 1000));
  double t0 = nowS(); gStats.queries++;
  std::vector<E> order; std::unordered_set<E> seen; topo(conj, order, seen);
  Res r = R_UNKNOWN; Model mm;
  for (int attempt = 0; attempt < 2; ++attempt) {
    if (z3.pid < 0 || z3.defs > 400000) { z3.stop(); z3.start({"z3-new", "-in", "-smt2"}); z3.send("(set-option :global-declarations true)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-option :produce-models true)\n"); }
    std::string s; for (E e : order) if (!z3.defined.count(e)) { s += declOf(e); z3.defined.insert(e); z3.defs++; }
    std::vector<u32> vars; s += "(push)\n(set-option :timeout " + std::to_string(timeoutMs) + ")\n" + scopeAsserts(conj, order, vars) + "(check-sat)\n";
    std::string l; if (!z3.send(s) || !z3.line(l, timeoutMs + 1500)) { z3.stop(); r = R_UNKNOWN; break; }
    if (l.find("error") != std::string::npos) { if (getenv("SYMX_DEBUG")) fprintf(stderr, "z3: %s\n", l.c_str()); z3.stop(); r = R_UNKNOWN; break; }
    if (l == "sat") { r = R_SAT; if (!vars.empty()) { std::string g = "(get-value ("; for (u32 v : vars) { g += " v" + std::to_string(v); if (gVars[v].sort == S_F32 || gVars[v].sort == S_F64) g += "b"; } g += "))\n"; std::string gl; if (z3.send(g) && z3.line(gl, 5000)) parseModel(gl, vars, mm); else { z3.stop(); break; } } }
    else if (l == "unsat") r = R_UNSAT;
    z3.send("(pop)\n"); break;
  }
  if (r == R_UNKNOWN && portfolio) { gStats.portfolio++; std::string t = smtText(conj, false); std::string tl = "--tlimit=" + std::to_string(timeoutMs);
    Res q = fileSolve({"cvc5", "--lang=smt2", tl.c_str(), "-"}, t, timeoutMs + 500); if (q == R_UNSAT) r = q; }
  gStats.time += nowS() - t0; if (r == R_SAT) gStats.sat++; else if (r == R_UNSAT) gStats.unsat++; else gStats.unknown++;
  if (r != R_UNKNOWN) cache[key] = {r, mm};
  if (r == R_SAT && model) for (auto& kv : mm) (*model)[kv.first] = kv.second;
  if (getenv("SYMX_DEBUG") && nowS() - t0 > 1) fprintf(stderr, "slow query %.1fs res=%d conj=%zu last=%s\n", nowS() - t0, r, conj.size(), exprStr(conj.back(), 8).substr(0, 600).c_str());
  return r;
}
