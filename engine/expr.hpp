// Hash-consed symbolic terms: bit-vectors, Booleans, IEEE floats and reals.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <memory>
#include <stdexcept>
#include <functional>
#include <algorithm>
#include <gmpxx.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Sort : u8 { S_BOOL, S_BV, S_F32, S_F64, S_REAL };

enum Op : u8 {
  O_CONST,   // BOOL/BV/F32/F64 constant, bits in imm
  O_RCONST,  // rational constant
  O_VAR,
  // bit vectors
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // bool
  O_NOT, O_BAND, O_BOR,
  // IEEE
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FSQRT, O_FLT, O_FLE, O_FEQ, O_FISNAN,
  O_FFROMBV, O_FTOBV, O_FCVT, O_SI2F, O_UI2F, O_F2SI, O_F2UI, O_FFUN, // FFUN: imm = function id
  O_FFUN2,
  // reals
  O_RADD, O_RSUB, O_RMUL, O_RDIV, O_RNEG, O_RLT, O_RLE, O_REQ, O_RFUN, O_RSI, O_RUI, O_RPOWI, O_RPOW, O_RBITS,
  O_R2SI,
};

enum Fn : u8 { FN_EXP, FN_LOG, FN_TANH, FN_SQRT, FN_POW, FN_SIN, FN_COS, FN_LOG1P, FN_EXPM1, FN_FLOOR, FN_CEIL,
               FN_ERF, FN_ATAN, FN_SINH, FN_COSH, FN_LOG2, FN_EXP2, FN_LOG10, FN_TRUNC, FN_ROUND, FN_CBRT, FN_RINT, FN_COUNT };
extern const char* fnName[FN_COUNT];

struct Expr {
  Op op; Sort sort; uint16_t width; u32 id;
  u64 imm; Expr *a, *b, *c; mpq_class* q;
  const std::vector<u32>* vars = nullptr; // sorted var ids (lazily computed)
};
typedef Expr* E;

struct VarInfo {
  std::string name; Sort sort; int width; E e;
  bool bounded = false; mpq_class lo, hi; // REAL
  bool ivb = false, ivs = true; i64 ivlo = 0, ivhi = 0; // BV: declared range
  int kind;      // 0 harness input, 1 uninitialised memory / environment, 2 internal
  int srcType;   // 0: i32 1:i64 2:u8 3:f32 4:f64 5: bool
};
extern std::vector<VarInfo> gVars;
extern std::vector<E> gNodes;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

inline u64 maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline i64 sx(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

E mk(Op op, Sort s, int width, u64 imm, E a = nullptr, E b = nullptr, E c = nullptr, const mpq_class* q = nullptr);
E mkVar(const std::string& name, Sort s, int width, int kind, int srcType);
E bvc(u64 v, int w);
E boolc(bool b);
E fpc(u64 bits, Sort s);
E rc(const mpq_class& q);
bool isC(E e);                 // O_CONST
inline bool isTrue(E e) { return e->op == O_CONST && e->sort == S_BOOL && e->imm; }
inline bool isFalse(E e) { return e->op == O_CONST && e->sort == S_BOOL && !e->imm; }

E eNot(E a); E eAnd(E a, E b); E eOr(E a, E b);
E eBin(Op op, E a, E b);       // bit-vector binary, folds
E eCmp(Op op, E a, E b);       // EQ ULT ULE SLT SLE on BV / Bool (EQ)
E eIte(E c, E a, E b);
E eExtract(E a, int hi, int lo); E eConcat(E hi, E lo); E eZext(E a, int w); E eSext(E a, int w);
// IEEE
E eF(Op op, E a, E b = nullptr);
E eFcvt(E a, Sort to);
// reals
E eRadd(E a, E b); E eRsub(E a, E b); E eRmul(E a, E b); E eRdiv(E a, E b); E eRneg(E a);
E eRcmp(Op op, E a, E b);
E eRfun(Fn f, E a);
E eRpowi(E a, long n);
mpq_class q_of_double(double d);

const std::vector<u32>& varsOf(E e);
std::string exprStr(E e, int depth = 6);

// numeric evaluation under an assignment (long double for reals, exact for BV / IEEE)
struct Num { u64 bits = 0; long double r = 0; };
typedef std::unordered_map<u32, Num> Model; // var id -> value
struct Evaluator {
  const Model& m; std::unordered_map<E, Num> memo; bool bad = false;
  explicit Evaluator(const Model& mm) : m(mm) {}
  Num eval(E e);
};
// reverse-mode derivative of y with respect to all variables; cached per y
E derivative(E y, E x);
