// Symbolic executor for LLVM IR (the bitcode of the repository's real code plus a harness).
#include "expr.hpp"
#include "solver.hpp"
#include "poly.hpp"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <iostream>
#include <random>
using namespace llvm;
extern double hostFn(int f, double x, bool f32);

static LLVMContext CTX; static std::unique_ptr<Module> M; static const DataLayout* DL;
static bool PRECISE = false;        // real theory: narrowing a double to float loses precision (set by sym_precise)
static bool REALT = true;           // theory of floating point: reals, or bit-precise IEEE
static u64 IVDEC = 0, INSTR = 0, FORKS = 0, PATHS = 0, KILLED = 0, MAXINSTR = 1000000000ULL; static bool verbose = false;
static int FEAS_MS = 2000, OBL_MS = 10000; static size_t MAXPATHS = 200000;
static bool LIFO_ALLOC = false;

struct RV { u64 c = 0; E e = nullptr; std::shared_ptr<std::vector<RV>> agg; };
static inline RV C(u64 c) { RV r; r.c = c; return r; }
static inline RV X(E e) { RV r; if (e->op == O_CONST) { r.c = e->imm; return r; } r.e = e; return r; }

enum TK : u8 { T_INT, T_PTR, T_F32, T_F64, T_AGG, T_VOID };
struct Ty { TK k = T_VOID; u8 w = 0; Type* t = nullptr; };
static Ty tyOf(Type* t) {
  Ty r; r.t = t;
  if (t->isIntegerTy()) { r.k = T_INT; unsigned w = t->getIntegerBitWidth(); if (w > 64) throw Unsupported("integer wider than 64 bits"); r.w = w; }
  else if (t->isPointerTy()) { r.k = T_PTR; r.w = 64; } else if (t->isFloatTy()) { r.k = T_F32; r.w = 32; } else if (t->isDoubleTy()) { r.k = T_F64; r.w = 64; }
  else if (t->isVoidTy()) r.k = T_VOID; else if (t->isStructTy() || t->isArrayTy() || isa<FixedVectorType>(t)) r.k = T_AGG; else throw Unsupported("type");
  return r;
}
struct Flat { u64 off; Ty ty; };
static unsigned nElems(Type* t) { if (auto s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* elemTy(Type* t, unsigned i) { if (auto s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static u64 elemOff(Type* t, unsigned i) { if (auto s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return DL->getTypeAllocSize(elemTy(t, i)) * i; }

// ---------------------------------------------------------------- term helpers
static E toE(const RV& v, const Ty& t) {
  if (v.e) return v.e;
  switch (t.k) { case T_INT: return bvc(v.c, t.w); case T_PTR: return bvc(v.c, 64);
    case T_F32: case T_F64: { if (!REALT) return fpc(v.c, t.k == T_F32 ? S_F32 : S_F64); double d; if (t.k == T_F32) { float f; u32 b = v.c; memcpy(&f, &b, 4); d = f; } else memcpy(&d, &v.c, 8);
      if (!std::isfinite(d)) throw Unsupported("infinite or NaN constant in real arithmetic"); return rc(mpq_class(d)); }
    default: throw Unsupported("aggregate term"); }
}
static double dOf(u64 c, TK k) { if (k == T_F32) { float f; u32 b = c; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 bOf(double d, TK k) { if (k == T_F32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return b; } u64 b; memcpy(&b, &d, 8); return b; }

// ---------------------------------------------------------------- memory
struct SymByte { E e; u8 off, n; };       // e == UNINIT marks uninitialised
struct Bytes { std::vector<u8> c; std::vector<SymByte> s; };
enum OK_ : u8 { K_HEAP, K_STACK, K_GLOBAL, K_FUNC };
struct Obj { u32 size; u8 kind; bool freed = false; bool readonly = false; bool arrayNew = false; u8 allocFn = 0; u32 birthThread = 0; std::shared_ptr<Bytes> b; std::string* name = nullptr; };
typedef std::shared_ptr<Obj> ObjP;
static E UNINIT;
static const u64 BASE_OFF = 0x1000;
static inline u64 addrOf(u32 id) { return ((u64)id << 32) + BASE_OFF; }
static inline u32 idOf(u64 a) { return (u32)((a + 0x40000000ULL) >> 32); }
static inline i64 offOf(u64 a, u32 id) { return (i64)(a - addrOf(id)); }
struct Chunk { ObjP o[128]; };
struct Memory { std::vector<std::shared_ptr<Chunk>> ch; u32 next = 1;
  Obj* get(u32 id) const { u32 c = id >> 7; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id & 127].get(); }
  ObjP& slot(u32 id) { u32 c = id >> 7; if (c >= ch.size()) ch.resize(c + 1); if (!ch[c]) ch[c] = std::make_shared<Chunk>(); else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]); return ch[c]->o[id & 127]; }
  u32 alloc(u32 size, u8 kind, bool uninit) { u32 id = next++; ObjP o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->b = std::make_shared<Bytes>(); o->b->c.assign(size, 0); if (uninit && size) o->b->s.assign(size, SymByte{UNINIT, 0, 1}); slot(id) = o; return id; }
  Obj* wr(u32 id) { ObjP& p = slot(id); if (p.use_count() > 1) p = std::make_shared<Obj>(*p); if (p->b && p->b.use_count() > 1) p->b = std::make_shared<Bytes>(*p->b); return p.get(); }
};

// ---------------------------------------------------------------- decoded code
struct Opnd { int reg = -1; RV k; GlobalVariable* tls = nullptr; };
struct FuncInfo;
struct DInst { unsigned op; Instruction* I; int dst = -1; Ty ty; Ty oty; std::vector<Opnd> o; std::vector<u32> tgt; u64 aux = 0; std::vector<std::pair<u64, int>> gep; // (scale, operand index)
  Function* callee = nullptr; int intr = -1; std::vector<std::vector<std::pair<u32, Opnd>>> phi; };
struct FuncInfo { Function* F; std::vector<DInst> code; std::vector<u32> bbStart; unsigned nregs = 0; std::vector<int> argReg; bool decoded = false; u64 calls = 0; bool nounwind = false; std::string name; };
static std::unordered_map<Function*, FuncInfo*> finfo;
static std::unordered_map<const GlobalValue*, u32> gvObj; static std::unordered_map<u32, Function*> objFunc;
static std::vector<std::pair<std::string, u64>> dummy;

struct Frame { FuncInfo* f; u32 pc = 0; u32 prevBB = 0, curBB = 0; std::vector<RV> regs; std::vector<u32> allocas; u8 mode = 0; std::vector<RV> va; u64 modeData = 0; };
struct Violation;
struct OmpRegion { u32 nthreads = 1; u32 cur = 0; u64 fn = 0; std::vector<RV> args; bool active = false; u32 lockDepth = 0; u32 region = 0; std::shared_ptr<std::map<u32, std::pair<u64, u64>>> disp; u32 want = 0, nest = 0, guard = 0, base = 0, started = 0; std::vector<std::vector<Frame>> saved; std::map<std::pair<u32, u32>, u32> tls; u32 stamp() const { return region * 4096 + cur + 1; } };
struct AccessRec { u64 lo; u32 len; u32 thr; bool w; bool locked; };
// value ranges (signed and unsigned reading) of bit-vector terms; declared input ranges plus what the path condition adds
typedef __int128 i128;
struct IVal { i128 ul, uh, sl, sh; };
struct State {
  std::vector<Frame> st; Memory mem; std::vector<E> pc; std::unordered_set<E> pcset; Model model; std::vector<u32> inputs; std::map<std::string, int> nameCount;
  u64 excObj = 0, excType = 0; std::vector<std::pair<u64, u64>> caught; std::unordered_map<u64, u64> excTypeOf;
  std::vector<std::pair<E, E>> eqs; u32 nAsserts = 0; std::vector<std::pair<std::string, std::pair<RV, Ty>>> obs; std::vector<std::string> covers; std::map<u32, u32> threadHandles;
  std::map<u64, std::vector<u32>> freeLists; // LIFO allocator mode
  OmpRegion omp; std::vector<AccessRec> acc; u64 steps = 0; std::unordered_map<E, IVal> refine; bool unsure = false; std::vector<std::pair<std::string, E>> grads;
};
typedef std::unique_ptr<State> StateP;
static std::vector<StateP> work;

struct Violation { std::string kind, msg, loc; std::vector<u32> inputs; std::vector<Model> models; std::vector<std::pair<std::string, E>> grads; };
static std::vector<Violation> violations; static std::map<std::string, int> violCount;
static std::map<std::string, u64> inconclusive; // reason -> count
static u64 OBL = 0, OBL_CONST = 0, OBL_SYNT = 0, OBL_POLY = 0, OBL_SMT = 0, OBL_CONFIRMED = 0; static std::map<std::string, u64> covers; static double polyTime = 0;
struct PathEnd {}; struct PathAbort { std::string why; };
static std::mt19937_64 rng(1);

// ---------------------------------------------------------------- constants and globals
static u64 fnAddr(Function* F) { auto it = gvObj.find(F); return it == gvObj.end() ? 0 : addrOf(it->second); }
static RV constRV(Constant* c);
static u64 constInt(Constant* c) { RV r = constRV(c); if (r.e) throw Unsupported("symbolic constant"); return r.c; }
static RV constRV(Constant* c) {
  Type* t = c->getType();
  if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported("wide constant"); return C(ci->getZExtValue()); }
  if (auto cf = dyn_cast<ConstantFP>(c)) { return C(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return C(0);
  if (auto gv = dyn_cast<GlobalValue>(c)) { if (auto ga = dyn_cast<GlobalAlias>(gv)) return constRV(ga->getAliasee()); return C(addrOf(gvObj.at(gv))); }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep"); return C(constInt(cast<Constant>(g->getPointerOperand())) + off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constRV(ce->getOperand(0));
      case Instruction::Sub: return C(constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))); case Instruction::Add: return C(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)));
      case Instruction::Trunc: return C(constInt(ce->getOperand(0)) & maskw(t->getIntegerBitWidth()));
      default: throw Unsupported("constant expression"); } }
  if (t->isStructTy() || t->isArrayTy() || isa<FixedVectorType>(t)) { RV r; r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < nElems(t); ++i) r.agg->push_back(constRV(c->getAggregateElement(i))); return r; }
  if (isa<UndefValue>(c)) { RV r; r.e = UNINIT; return r; }
  if (c->isNullValue()) return C(0);
  throw Unsupported("constant kind");
}
static void writeConst(Bytes& b, u64 off, Constant* c) {
  Type* t = c->getType(); if (isa<UndefValue>(c)) return; if (c->isNullValue()) return;
  if (t->isStructTy() || t->isArrayTy() || isa<FixedVectorType>(t)) { if (auto cds = dyn_cast<ConstantDataSequential>(c)) { StringRef s = cds->getRawDataValues(); memcpy(&b.c[off], s.data(), s.size()); return; } for (unsigned i = 0; i < nElems(t); ++i) writeConst(b, off + elemOff(t, i), c->getAggregateElement(i)); return; }
  if (t->isX86_FP80Ty()) { auto ap = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy(&b.c[off], ap.getRawData(), 10); return; }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { auto ap = cast<ConstantInt>(c)->getValue(); memcpy(&b.c[off], ap.getRawData(), (ap.getBitWidth() + 7) / 8); return; }
  u64 v = constInt(c); memcpy(&b.c[off], &v, DL->getTypeStoreSize(t));
}
static void initGlobals(State& s) {
  for (auto& F : *M) { u32 id = s.mem.alloc(1, K_FUNC, false); gvObj[&F] = id; objFunc[id] = &F; }
  for (auto& G : M->globals()) { u32 sz = G.isDeclaration() ? 4096 : DL->getTypeAllocSize(G.getValueType()); u32 id = s.mem.alloc(sz, K_GLOBAL, false); gvObj[&G] = id; s.mem.wr(id)->name = new std::string(G.getName().str());
    if (G.isDeclaration() && G.getName().starts_with("_ZTI")) { std::string nm = G.getName().substr(4).str(); u32 ni = s.mem.alloc(nm.size() + 1, K_GLOBAL, false); memcpy(&s.mem.wr(ni)->b->c[0], nm.c_str(), nm.size() + 1); u64 pa = addrOf(ni); memcpy(&s.mem.wr(id)->b->c[8], &pa, 8); } }
  for (auto& G : M->globals()) if (!G.isDeclaration()) { Obj* o = s.mem.wr(gvObj[&G]); try { writeConst(*o->b, 0, G.getInitializer()); } catch (Unsupported&) {} o->readonly = G.isConstant(); }
}
// ---------------------------------------------------------------- decoding
static FuncInfo* getF(Function* F) {
  FuncInfo*& fi = finfo[F]; if (fi && fi->decoded) return fi; if (!fi) { fi = new FuncInfo; fi->F = F; fi->name = F->getName().str(); }
  fi->decoded = true; std::unordered_map<Value*, int> reg; std::unordered_map<BasicBlock*, u32> bbIx;
  for (auto& A : F->args()) { reg[&A] = fi->nregs; fi->argReg.push_back(fi->nregs++); }
  u32 k = 0; for (auto& BB : *F) { bbIx[&BB] = k++; for (auto& I : BB) if (!I.getType()->isVoidTy()) reg[&I] = fi->nregs++; }
  auto opnd = [&](Value* v) { Opnd o; auto it = reg.find(v); if (it != reg.end()) o.reg = it->second; else if (auto c = dyn_cast<Constant>(v)) { o.k = constRV(c); if (c->getType()->isPointerTy()) { auto* g = dyn_cast<GlobalVariable>(c->stripInBoundsOffsets()); if (g && g->isThreadLocal()) o.tls = g; } } else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) ; else throw Unsupported("operand"); return o; };
  for (auto& BB : *F) { fi->bbStart.push_back(fi->code.size());
    for (auto& I : BB) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DInst d; d.op = I.getOpcode(); d.I = &I; if (!I.getType()->isVoidTy()) d.dst = reg[&I];
      if (auto ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start) continue; d.intr = id; }
      d.ty = I.getType()->isVoidTy() ? Ty{} : (I.getType()->isX86_FP80Ty() ? Ty{T_AGG, 0, I.getType()} : (I.getType()->isIntegerTy() && I.getType()->getIntegerBitWidth() > 64 ? Ty{T_AGG, 0, I.getType()} : tyOf(I.getType())));
      if (auto p = dyn_cast<PHINode>(&I)) { d.phi.resize(1); for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) d.phi[0].push_back({bbIx[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))}); }
      else if (auto br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) d.o.push_back(opnd(br->getCondition())); for (unsigned i = 0; i < br->getNumSuccessors(); ++i) d.tgt.push_back(bbIx[br->getSuccessor(i)]); }
      else if (auto sw = dyn_cast<SwitchInst>(&I)) { d.o.push_back(opnd(sw->getCondition())); d.oty = tyOf(sw->getCondition()->getType()); d.tgt.push_back(bbIx[sw->getDefaultDest()]); for (auto& c : sw->cases()) { d.tgt.push_back(bbIx[c.getCaseSuccessor()]); d.gep.push_back({c.getCaseValue()->getZExtValue(), 0}); } }
      else if (auto g = dyn_cast<GetElementPtrInst>(&I)) { d.o.push_back(opnd(g->getPointerOperand())); u64 off = 0; for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) { Value* ix = gti.getOperand(); if (auto st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(ix)) off += sc * ci->getSExtValue(); else { d.gep.push_back({sc, (int)d.o.size()}); Opnd o = opnd(ix); o.k.c = ix->getType()->getIntegerBitWidth(); d.o.push_back(o); } } } d.aux = off; }
      else if (auto cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) d.o.push_back(opnd(a.get())); 
        if (cb->isInlineAsm()) { d.callee = nullptr; d.aux = 2; } else { Value* cv = cb->getCalledOperand()->stripPointerCasts(); if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject(); d.callee = dyn_cast<Function>(cv); if (!d.callee) { d.o.push_back(opnd(cb->getCalledOperand())); d.aux = 1; } }
        if (auto inv = dyn_cast<InvokeInst>(&I)) { d.tgt.push_back(bbIx[inv->getNormalDest()]); d.tgt.push_back(bbIx[inv->getUnwindDest()]); } }
      else { for (auto& op : I.operands()) d.o.push_back(opnd(op.get()));
        if (auto si = dyn_cast<StoreInst>(&I)) { Type* t = si->getValueOperand()->getType(); d.oty = tyOf(t); } else if (I.getNumOperands() && !I.getOperand(0)->getType()->isVoidTy() && !I.getOperand(0)->getType()->isX86_FP80Ty() && !(I.getOperand(0)->getType()->isIntegerTy() && I.getOperand(0)->getType()->getIntegerBitWidth() > 64)) d.oty = tyOf(I.getOperand(0)->getType());
        if (auto al = dyn_cast<AllocaInst>(&I)) { d.aux = DL->getTypeAllocSize(al->getAllocatedType()); }
        if (auto ic = dyn_cast<CmpInst>(&I)) d.aux = ic->getPredicate(); 
        if (auto ev = dyn_cast<ExtractValueInst>(&I)) for (unsigned i : ev->indices()) d.tgt.push_back(i); if (auto iv = dyn_cast<InsertValueInst>(&I)) for (unsigned i : iv->indices()) d.tgt.push_back(i); }
      fi->code.push_back(std::move(d)); } }
  return fi;
}
// ---------------------------------------------------------------- path condition
static bool evalB(E c, const Model& m) { Evaluator ev(m); Num n = ev.eval(c); return n.bits != 0 && !ev.bad; }
static std::vector<E> slice(const State& s, const std::vector<E>& roots) {
  std::vector<E> out; std::unordered_set<u32> vs; for (E r : roots) for (u32 v : varsOf(r)) vs.insert(v); std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); ++i) if (!used[i]) { bool hit = false; auto& pv = varsOf(s.pc[i]); for (u32 v : pv) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; out.push_back(s.pc[i]); for (u32 v : pv) if (vs.insert(v).second) ch = true; } } }
  return out; }
static Res feasible(State& s, E c, Model* m) { if (isTrue(c)) return R_SAT; if (isFalse(c)) return R_UNSAT; auto q = slice(s, {c}); q.push_back(c); return smtCheck(q, m, FEAS_MS); }
static IVal ivTop(int w) { i128 m = ((i128)1 << w) - 1; return {0, m, -((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1}; }
static IVal ivNorm(IVal v, int w) { // transfer information between the two readings
  i128 half = (i128)1 << (w - 1), full = (i128)1 << w;
  if (v.sl >= 0) { v.ul = std::max(v.ul, v.sl); v.uh = std::min(v.uh, v.sh); } else if (v.sh < 0) { v.ul = std::max(v.ul, v.sl + full); v.uh = std::min(v.uh, v.sh + full); }
  if (v.uh < half) { v.sl = std::max(v.sl, v.ul); v.sh = std::min(v.sh, v.uh); } else if (v.ul >= half) { v.sl = std::max(v.sl, v.ul - full); v.sh = std::min(v.sh, v.uh - full); }
  return v; }
static IVal ivMeet(IVal a, const IVal& b) { a.ul = std::max(a.ul, b.ul); a.uh = std::min(a.uh, b.uh); a.sl = std::max(a.sl, b.sl); a.sh = std::min(a.sh, b.sh); return a; }
static int ivCmp(Op op, const IVal& a, const IVal& b) { // 1 true, 0 false, -1 unknown
  switch (op) { case O_ULT: if (a.uh < b.ul) return 1; if (a.ul >= b.uh) return 0; return -1; case O_ULE: if (a.uh <= b.ul) return 1; if (a.ul > b.uh) return 0; return -1;
    case O_SLT: if (a.sh < b.sl) return 1; if (a.sl >= b.sh) return 0; return -1; case O_SLE: if (a.sh <= b.sl) return 1; if (a.sl > b.sh) return 0; return -1;
    case O_EQ: if (a.ul == a.uh && b.ul == b.uh && a.ul == b.ul) return 1; if (a.uh < b.ul || b.uh < a.ul || a.sh < b.sl || b.sh < a.sl) return 0; return -1; default: return -1; } }
// ---- interval analysis over the reals: bounds from the variables' declared ranges, outward rounded; independent of the path
struct RIv { double lo, hi; };
static double dnR(double x) { return std::isinf(x) && x > 0 ? 1.7976931348623157e308 : std::nextafter(std::nextafter(x, -HUGE_VAL), -HUGE_VAL); }
static double upR(double x) { return std::isinf(x) && x < 0 ? -1.7976931348623157e308 : std::nextafter(std::nextafter(x, HUGE_VAL), HUGE_VAL); }
static RIv out(double a, double b) { if (std::isnan(a) || std::isnan(b)) return {-HUGE_VAL, HUGE_VAL}; return {dnR(a), upR(b)}; }
static std::unordered_map<E, RIv> rivMemo;
static RIv rivMul(const RIv& a, const RIv& b) { double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; for (double& x : p) if (std::isnan(x)) { return {-HUGE_VAL, HUGE_VAL}; } return out(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); }
static RIv rivCalc(E e) { const RIv top{-HUGE_VAL, HUGE_VAL}; auto A = [&] { return rivMemo.at(e->a); }; auto B = [&] { return rivMemo.at(e->b); };
  switch (e->op) {
    case O_RCONST: return out(e->q->get_d(), e->q->get_d()); case O_VAR: { auto& v = gVars[e->imm]; if (v.sort != S_REAL || !v.bounded) return top; return out(v.lo.get_d(), v.hi.get_d()); }
    case O_RADD: { RIv a = A(), b = B(); return out(a.lo + b.lo, a.hi + b.hi); } case O_RSUB: { if (e->a == e->b) return {0, 0}; RIv a = A(), b = B(); return out(a.lo - b.hi, a.hi - b.lo); } case O_RNEG: { RIv a = A(); return {-a.hi, -a.lo}; }
    case O_RMUL: { RIv a = A(), b = B(); if (e->a == e->b) { double l = std::max(0.0, std::max(a.lo, -a.hi)), h = std::max(std::fabs(a.lo), std::fabs(a.hi)); RIv r = out(l * l, h * h); r.lo = std::max(r.lo, 0.0); return r; } RIv r = rivMul(a, b); if ((a.lo >= 0 && b.lo >= 0) || (a.hi <= 0 && b.hi <= 0)) r.lo = std::max(r.lo, 0.0); if ((a.lo >= 0 && b.hi <= 0) || (a.hi <= 0 && b.lo >= 0)) r.hi = std::min(r.hi, 0.0);
      if (r.lo < 0) { // repeated factors anywhere in the product are squares
        std::vector<E> st{e->a, e->b}, fs; while (!st.empty() && fs.size() + st.size() <= 16) { E f = st.back(); st.pop_back(); if (f->op == O_RMUL) { st.push_back(f->a); st.push_back(f->b); } else fs.push_back(f); }
        if (st.empty()) { std::sort(fs.begin(), fs.end()); RIv q{1, 1}; bool sq = false, neg = false; for (size_t i = 0; i < fs.size(); ++i) { RIv x = rivMemo.at(fs[i]); if (i + 1 < fs.size() && fs[i] == fs[i + 1]) { double l = std::max(0.0, std::max(x.lo, -x.hi)), h = std::max(std::fabs(x.lo), std::fabs(x.hi)); x = out(l * l, h * h); x.lo = std::max(x.lo, 0.0); ++i; sq = true; } if (x.lo < 0) neg = true; q = rivMul(q, x); } if (sq) { if (!neg) q.lo = std::max(q.lo, 0.0); r.lo = std::max(r.lo, q.lo); r.hi = std::min(r.hi, q.hi); } } }
      return r; }
    case O_RDIV: { RIv a = A(), b = B(); if (!(b.lo > 0 || b.hi < 0)) return top; RIv i = out(1 / b.hi, 1 / b.lo); if (b.lo > 0) i.lo = std::max(i.lo, 0.0); else i.hi = std::min(i.hi, 0.0); RIv r = rivMul(a, i); if ((a.lo >= 0 && b.lo > 0) || (a.hi <= 0 && b.hi < 0)) r.lo = std::max(r.lo, 0.0); if ((a.lo >= 0 && b.hi < 0) || (a.hi <= 0 && b.lo > 0)) r.hi = std::min(r.hi, 0.0); return r; }
    case O_RPOWI: return top;
    case O_RUI: { int w = e->a->width; double h = std::ldexp(1.0, w); return {0, h}; } case O_RSI: { int w = e->a->width; double h = std::ldexp(1.0, w - 1); return {-h, h}; }
    case O_ITE: { RIv a = rivMemo.at(e->b), b = rivMemo.at(e->c); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    case O_RFUN: { RIv a = A(); switch (e->imm) { case FN_SQRT: { if (!(a.lo >= 0)) return top; RIv r = out(std::sqrt(a.lo), std::sqrt(a.hi)); r.lo = std::max(r.lo, 0.0); return r; }
        case FN_EXP: { RIv r = out(std::exp(a.lo) * (1 - 1e-12), std::exp(a.hi) * (1 + 1e-12)); r.lo = std::max(r.lo, 0.0); return r; } case FN_TANH: return {std::max(-1.0, std::tanh(a.lo) - 1e-12), std::min(1.0, std::tanh(a.hi) + 1e-12)};
        case FN_LOG: if (!(a.lo > 0)) return top; return {std::log(a.lo) - 1e-9, std::log(a.hi) + 1e-9}; case FN_FLOOR: case FN_CEIL: case FN_TRUNC: case FN_ROUND: case FN_RINT: return out(std::floor(a.lo), std::ceil(a.hi)); default: return top; } }
    default: return top; } }
static RIv riv(E root) { std::vector<E> st{root}; while (!st.empty()) { E e = st.back(); if (rivMemo.count(e)) { st.pop_back(); continue; } bool ready = true; if (e->op != O_RSI && e->op != O_RUI && e->op != O_RPOW && e->op != O_RPOWI && e->op != O_VAR) for (E k : {e->a, e->b, e->c}) if (k && k->sort == S_REAL && !rivMemo.count(k)) { st.push_back(k); ready = false; } if (!ready) continue; st.pop_back(); rivMemo[e] = rivCalc(e); } return rivMemo.at(root); }
static int rivCmp(E c) { if (c->a->sort != S_REAL) return -1; RIv a = riv(c->a), b = riv(c->b); switch (c->op) { case O_RLT: if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; return -1; case O_RLE: if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; return -1; case O_REQ: if (a.hi < b.lo || b.hi < a.lo) return 0; return -1; default: return -1; } }
struct IvCalc { const State& s; std::unordered_map<E, IVal> memo; int budget = 4000;
  explicit IvCalc(const State& st) : s(st) {}
  int truthOf(E c, int d = 0) { if (isTrue(c)) return 1; if (isFalse(c)) return 0; if (s.pcset.count(c)) return 1; if (d > 40) return -1;
    switch (c->op) { case O_NOT: { int t = truthOf(c->a, d + 1); return t < 0 ? t : !t; } case O_BAND: { int p = truthOf(c->a, d + 1), q = truthOf(c->b, d + 1); if (p == 0 || q == 0) return 0; return p == 1 && q == 1 ? 1 : -1; } case O_BOR: { int p = truthOf(c->a, d + 1), q = truthOf(c->b, d + 1); if (p == 1 || q == 1) return 1; return p == 0 && q == 0 ? 0 : -1; }
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: if (c->a->sort != S_BV || c->a->width > 64) return -1; { IVal a = get(c->a), b = get(c->b); return ivCmp(c->op, a, b); } case O_RLT: case O_RLE: case O_REQ: return rivCmp(c); default: return -1; } }
  IVal get(E e) { auto it = memo.find(e); if (it != memo.end()) return it->second; int w = e->width; IVal r = ivTop(w > 64 ? 64 : w);
    if (w <= 64 && --budget > 0) { IVal t = calc(e, r); r = ivMeet(r, t); auto f = s.refine.find(e); if (f != s.refine.end()) r = ivMeet(r, f->second); r = ivNorm(r, w); }
    memo[e] = r; return r; }
  IVal calc(E e, IVal top) { int w = e->width; i128 m = ((i128)1 << w) - 1; IVal r = top;
    switch (e->op) {
      case O_CONST: r.ul = r.uh = (i128)e->imm; r.sl = r.sh = sx(e->imm, w); return r;
      case O_VAR: { auto& v = gVars[e->imm]; if (v.ivb) { if (v.ivs) { r.sl = v.ivlo; r.sh = v.ivhi; } else { r.ul = v.ivlo; r.uh = v.ivhi; } } return ivNorm(r, w); }
      case O_ZEXT: { if (e->a->sort != S_BV) { r.ul = 0; r.uh = 1; return r; } IVal a = get(e->a); r.ul = a.ul; r.uh = a.uh; return r; }
      case O_SEXT: { if (e->a->sort != S_BV) return r; IVal a = get(e->a); r.sl = a.sl; r.sh = a.sh; return r; }
      case O_EXTRACT: { if (e->a->sort != S_BV || e->a->width > 64) return r; IVal a = get(e->a); if (e->imm != 0) return r; if (a.uh <= m) { r.ul = a.ul; r.uh = a.uh; } if (a.sl >= top.sl && a.sh <= top.sh) { r.sl = a.sl; r.sh = a.sh; } return r; }
      case O_ADD: { IVal a = get(e->a), b = get(e->b); if (a.uh + b.uh <= m) { r.ul = a.ul + b.ul; r.uh = a.uh + b.uh; } if (a.sl + b.sl >= top.sl && a.sh + b.sh <= top.sh) { r.sl = a.sl + b.sl; r.sh = a.sh + b.sh; } return r; }
      case O_SUB: { IVal a = get(e->a), b = get(e->b); if (a.ul - b.uh >= 0) { r.ul = a.ul - b.uh; r.uh = a.uh - b.ul; } if (a.sl - b.sh >= top.sl && a.sh - b.sl <= top.sh) { r.sl = a.sl - b.sh; r.sh = a.sh - b.sl; } return r; }
      case O_MUL: { IVal a = get(e->a), b = get(e->b); i128 L = (i128)1 << 62; if (a.uh < L && b.uh < L && a.uh * b.uh <= m) { r.ul = a.ul * b.ul; r.uh = a.uh * b.uh; }
          if (a.sl > -L && b.sl > -L && a.sh < L && b.sh < L) { i128 p[4] = {a.sl * b.sl, a.sl * b.sh, a.sh * b.sl, a.sh * b.sh}; i128 mn = *std::min_element(p, p + 4), mx = *std::max_element(p, p + 4); if (mn >= top.sl && mx <= top.sh) { r.sl = mn; r.sh = mx; } } return r; }
      case O_UDIV: { IVal a = get(e->a), b = get(e->b); if (b.ul > 0) { r.ul = a.ul / b.uh; r.uh = a.uh / b.ul; } return r; }
      case O_UREM: { IVal a = get(e->a), b = get(e->b); if (b.ul > 0) { r.ul = 0; r.uh = std::min(a.uh, b.uh - 1); } return r; }
      case O_SDIV: { IVal a = get(e->a), b = get(e->b); if (a.sl >= 0 && b.sl > 0) { r.sl = a.sl / b.sh; r.sh = a.sh / b.sl; } return r; }
      case O_SREM: { IVal a = get(e->a), b = get(e->b); if (a.sl >= 0 && b.sl > 0) { r.sl = 0; r.sh = std::min(a.sh, b.sh - 1); } return r; }
      case O_SHL: { if (e->b->op != O_CONST || e->b->imm >= (u64)w) return r; IVal a = get(e->a); i128 k = (i128)1 << e->b->imm; if (a.uh < ((i128)1 << 62) && a.uh * k <= m) { r.ul = a.ul * k; r.uh = a.uh * k; } if (a.sl > -((i128)1 << 62) && a.sh < ((i128)1 << 62) && a.sl * k >= top.sl && a.sh * k <= top.sh) { r.sl = a.sl * k; r.sh = a.sh * k; } return r; }
      case O_LSHR: { if (e->b->op != O_CONST || e->b->imm >= (u64)w) return r; IVal a = get(e->a); r.ul = a.ul >> e->b->imm; r.uh = a.uh >> e->b->imm; return r; }
      case O_ASHR: { if (e->b->op != O_CONST || e->b->imm >= (u64)w) return r; IVal a = get(e->a); r.sl = a.sl >> e->b->imm; r.sh = a.sh >> e->b->imm; return r; }
      case O_AND: { IVal a = get(e->a), b = get(e->b); r.ul = 0; r.uh = std::min(a.uh, b.uh); return r; }
      case O_ITE: { int t = truthOf(e->a); if (t == 1) return get(e->b); if (t == 0) return get(e->c); IVal a = get(e->b), b = get(e->c); r.ul = std::min(a.ul, b.ul); r.uh = std::max(a.uh, b.uh); r.sl = std::min(a.sl, b.sl); r.sh = std::max(a.sh, b.sh); return r; }
      default: return r; } }
};
static void ivLearn(State& s, E c, bool pos) {
  if (c->op == O_NOT) { ivLearn(s, c->a, !pos); return; } if (!(c->op == O_EQ || c->op == O_ULT || c->op == O_ULE || c->op == O_SLT || c->op == O_SLE)) return; E a = c->a, b = c->b; if (a->sort != S_BV || a->width > 64) return; Op op = c->op; int w = a->width;
  if (op == O_EQ && !pos) { if (a->op == O_CONST) std::swap(a, b); if (b->op != O_CONST) return; IvCalc k(s); IVal x = k.get(a); i128 cu = (i128)b->imm, cs = sx(b->imm, w); bool ch = false; if (x.ul == cu) { x.ul++; ch = true; } else if (x.uh == cu) { x.uh--; ch = true; } if (x.sl == cs) { x.sl++; ch = true; } else if (x.sh == cs) { x.sh--; ch = true; } if (ch) { auto it = s.refine.find(a); if (it == s.refine.end()) s.refine.emplace(a, x); else it->second = ivMeet(it->second, x); } return; }
  if (!pos) { std::swap(a, b); op = op == O_ULT ? O_ULE : op == O_ULE ? O_ULT : op == O_SLT ? O_SLE : O_SLT; }
  IvCalc k(s); IVal x = k.get(a), y = k.get(b); IVal nx = x, ny = y;
  switch (op) { case O_EQ: nx = ny = ivMeet(x, y); break; case O_ULT: nx.uh = std::min(x.uh, y.uh - 1); ny.ul = std::max(y.ul, x.ul + 1); break; case O_ULE: nx.uh = std::min(x.uh, y.uh); ny.ul = std::max(y.ul, x.ul); break; case O_SLT: nx.sh = std::min(x.sh, y.sh - 1); ny.sl = std::max(y.sl, x.sl + 1); break; default: nx.sh = std::min(x.sh, y.sh); ny.sl = std::max(y.sl, x.sl); }
  std::function<void(E, IVal)> put = [&](E e, IVal v) { if (e->op == O_CONST) return; v = ivNorm(v, e->width); auto it = s.refine.find(e); if (it == s.refine.end()) s.refine.emplace(e, v); else it->second = ivMeet(it->second, v);
    // push through width changes
    if (e->op == O_ZEXT && e->a->sort == S_BV) { IVal t = ivTop(e->a->width); t.ul = std::max(t.ul, v.ul); t.uh = std::min(t.uh, v.uh); put(e->a, t); } else if (e->op == O_SEXT && e->a->sort == S_BV) { IVal t = ivTop(e->a->width); t.sl = std::max(t.sl, v.sl); t.sh = std::min(t.sh, v.sh); put(e->a, t); } };
  (void)w; put(a, nx); put(b, ny); }
static void addPC(State& s, E c) { if (isTrue(c)) return; if (c->op == O_BAND) { addPC(s, c->a); addPC(s, c->b); return; } if (s.pcset.insert(c).second) { s.pc.push_back(c); ivLearn(s, c, true); } }
static StateP cloneS(const State& s) { return std::make_unique<State>(s); }
static bool implied(State& s, E c, bool& val) {
  if (s.pcset.count(c)) { val = true; return true; } if (s.pcset.count(eNot(c))) { val = false; return true; }
  if (c->op == O_RLE && s.pcset.count(mk(O_RLT, S_BOOL, 1, 0, c->a, c->b))) { val = true; return true; }
  if (c->op == O_RLT && s.pcset.count(mk(O_RLT, S_BOOL, 1, 0, c->b, c->a))) { val = false; return true; }
  if (c->sort == S_BOOL && (c->op == O_EQ || c->op == O_ULT || c->op == O_ULE || c->op == O_SLT || c->op == O_SLE || c->op == O_RLT || c->op == O_RLE || c->op == O_REQ || c->op == O_NOT || c->op == O_BAND || c->op == O_BOR)) { IvCalc k(s); int t = k.truthOf(c); if (t >= 0) { IVDEC++; val = t; return true; } }
  return false; }
// decide a symbolic condition on this path; forks when both sides are feasible.
static bool decide(State& s, E c) {
  if (isTrue(c)) return true; if (isFalse(c)) return false; bool v; if (implied(s, c, v)) return v;
  E n = eNot(c); bool mv = evalB(c, s.model); E other = mv ? n : c; Model om = s.model; Res r = feasible(s, other, &om);
  if (r == R_UNSAT) { addPC(s, mv ? c : n); return mv; }
  if (r == R_UNKNOWN) { // keep the side, but without a model of its own
    inconclusive["feasibility query undecided (both sides kept)"] += 0; }
  FORKS++; StateP o = cloneS(s); if (r == R_UNKNOWN) o->unsure = true; addPC(*o, other); o->model = om; work.push_back(std::move(o));
  addPC(s, mv ? c : n); return mv;
}
static std::string locOf(State& s) { for (size_t i = s.st.size(); i-- > 0;) { auto& f = s.st[i]; if (f.pc < f.f->code.size()) { Instruction* I = f.f->code[f.pc].I; if (auto dl = I->getDebugLoc()) { std::string fn = dl->getFilename().str(); if (fn.find("smart_dnn") != std::string::npos && fn.find("/usr/") == std::string::npos) return fn.substr(fn.rfind("smart_dnn")) + ":" + std::to_string(dl->getLine()); } } } 
  for (size_t i = s.st.size(); i-- > 0;) { auto& f = s.st[i]; if (f.pc < f.f->code.size()) if (auto dl = f.f->code[f.pc].I->getDebugLoc()) { std::string fn = dl->getFilename().str(); if (fn.find("/usr/") == std::string::npos) return fn + ":" + std::to_string(dl->getLine()); } } return "?"; }
static void report(State& s, const std::string& kind, const std::string& msg, std::vector<Model> models = {}) {
  std::string loc = locOf(s); std::string key = kind + "|" + msg + "|" + loc; if (verbose) { fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str()); for (size_t i = s.st.size(); i-- > 0 && i + 12 > s.st.size();) { auto& f = s.st[i]; auto dl = f.pc < f.f->code.size() ? f.f->code[f.pc].I->getDebugLoc() : DebugLoc(); fprintf(stderr, "   #%zu %s %s:%u\n", i, demangle(f.f->name).substr(0, 110).c_str(), dl ? dl->getFilename().str().c_str() : "", dl ? dl->getLine() : 0); } }
  if (s.unsure) { // the path was kept without a model: is it feasible at all?
    Model m = s.model; auto q = s.pc; Res r = smtCheck(q, &m, OBL_MS * 2, true); if (r == R_UNSAT) throw PathEnd(); if (r == R_UNKNOWN) { inconclusive["violation on a path of undecided feasibility: " + msg]++; throw PathEnd(); } s.model = m; s.unsure = false; models.clear(); models.push_back(m); }
  int& n = violCount[key]; if (n++ >= 4) return; Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.inputs = s.inputs; v.grads = s.grads; if (models.empty()) models.push_back(s.model); v.models = models; violations.push_back(v); }
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg); throw PathEnd(); }

// ---------------------------------------------------------------- load / store
static void logAccess(State& s, u64 a, u32 n, bool w) { if (!s.omp.active || s.omp.guard) return; u32 id = idOf(a); Obj* o = s.mem.get(id); if (!o) return; if (o->birthThread == s.omp.stamp()) return; s.acc.push_back({a, n, s.omp.cur, w, s.omp.lockDepth > 0}); }
static Obj* checkAccess(State& s, u64 a, u64 n, bool w, u64& off) {
  u32 id = idOf(a); Obj* o = s.mem.get(id); const char* rw = w ? "write" : "read";
  if (a < 0x10000) fail(s, "memory", std::string("null pointer ") + rw);
  if (!o || o->kind == K_FUNC) fail(s, "memory", std::string("invalid pointer ") + rw);
  i64 f = offOf(a, id); if (o->freed) fail(s, "memory", std::string("use after free (") + rw + ")");
  if (f < 0 || (u64)f + n > o->size) fail(s, "memory", std::string("out-of-bounds ") + rw);
  if (w && o->readonly) fail(s, "memory", "write to read-only memory"); off = f; return o; }
static u64 concretizeAddr(State& s, const RV& v, u64 n, bool w) {
  if (!v.e) return v.c; if (v.e == UNINIT) fail(s, "memory", "access through an uninitialised pointer"); E a = v.e; Evaluator ev(s.model); u64 cur = ev.eval(a).bits; u32 id = idOf(cur); Obj* o = s.mem.get(id); u64 dummyOff;
  if (!o || cur < 0x10000) { checkAccess(s, cur, n, w, dummyOff); }
  // out of bounds feasible?
  u64 lo = addrOf(id), hi = lo + (o->size >= n ? o->size - n : 0); E inb = eAnd(eCmp(O_ULE, bvc(lo, 64), a), eCmp(O_ULE, a, bvc(hi, 64)));
  if (o->size < n) checkAccess(s, cur, n, w, dummyOff);
  bool iv; if (!implied(s, inb, iv)) { Model m = s.model; Res r = feasible(s, eNot(inb), &m); if (r == R_SAT) { StateP t = cloneS(s); t->model = m; Evaluator e2(m); u64 bad = e2.eval(a).bits; try { u64 of; checkAccess(*t, bad, n, w, of); report(*t, "memory", "pointer escapes its object"); } catch (PathEnd&) {} } else if (r == R_UNKNOWN) inconclusive["bounds query undecided"]++;
    bool cb = evalB(inb, s.model); if (!cb) { Model m2 = s.model; if (feasible(s, inb, &m2) != R_SAT) throw PathEnd(); s.model = m2; cur = Evaluator(s.model).eval(a).bits; } addPC(s, inb); }
  decide(s, eCmp(O_EQ, a, bvc(cur, 64))); return cur; }
static E byteE(const SymByte& b) { if (b.e->sort == S_BOOL) return eZext(b.e, 8); return eExtract(b.e, b.off * 8 + 7, b.off * 8); }
static RV uninitVar(State& s, u32 id, u64 off, Obj* o) { (void)o; static std::map<std::pair<u32, u64>, E> mp; E& e = mp[{id, off}]; if (!e) e = mkVar("uninit_" + std::to_string(id) + "_" + std::to_string(off), S_BV, 8, 1, 2); (void)s; return X(e); }
static RV freshUndef(const Ty& t) { static int k = 0; Sort so = t.k == T_F32 ? (REALT ? S_REAL : S_F32) : t.k == T_F64 ? (REALT ? S_REAL : S_F64) : t.w == 1 ? S_BV : S_BV; if (t.w == 1) { E v = mkVar("undef" + std::to_string(k++), S_BV, 8, 1, 2); return X(eCmp(O_ULT, v, bvc(128, 8))); } return X(mkVar("undef" + std::to_string(k++), so, so == S_REAL ? 0 : t.w, 1, 2)); }
static RV loadPrim(State& s, u64 a, const Ty& t) {
  u32 n = (t.w + 7) / 8; if (!n) n = 1; u64 off; Obj* o = checkAccess(s, a, n, false, off); if (s.omp.active) logAccess(s, a, n, false); Bytes* b = o->b.get();
  bool sym = false; if (!b->s.empty()) for (u32 i = 0; i < n; ++i) if (b->s[off + i].e) { sym = true; break; }
  u64 c = 0; memcpy(&c, &b->c[off], n);
  if (!sym) { if (t.k == T_INT) c &= maskw(t.w); return C(c); }
  SymByte s0 = b->s[off];
  bool same = s0.e && s0.e != UNINIT; if (same) for (u32 i = 0; i < n; ++i) if (b->s[off + i].e != s0.e || b->s[off + i].off != s0.off + i) { same = false; break; }
  bool flt = t.k == T_F32 || t.k == T_F64;
  if (same && s0.off == 0 && s0.n == n) { E e = s0.e; bool ef = e->sort == S_REAL || e->sort == S_F32 || e->sort == S_F64;
    if (flt && ef) return X(e); if (!flt && ef) return X(e->sort == S_REAL ? mk(O_RBITS, S_BV, t.w, 0, e) : (e->op == O_FFROMBV ? e->a : mk(O_FTOBV, S_BV, t.w, 0, e)));
    if (flt && !ef) { if (e->op == O_RBITS || e->op == O_FTOBV) return X(e->a); if (REALT) throw PathAbort{"integer bits read as a real"}; return X(mk(O_FFROMBV, t.k == T_F32 ? S_F32 : S_F64, t.w, 0, e)); }
    if (e->sort == S_BOOL) { if (t.w == 1) return X(e); return X(eZext(e, t.w)); } if (t.w == 1) return X(eExtract(e, 0, 0)); return X(e->width > t.w ? eExtract(e, t.w - 1, 0) : e); }
  // uninitialised
  bool anyU = false, allU = true; for (u32 i = 0; i < n; ++i) { if (b->s[off + i].e == UNINIT) anyU = true; else allU = false; }
  if (anyU) { u32 id = idOf(a); if (allU) { static std::map<std::tuple<u32, u64, int>, E> mp; E& e = mp[{id, off, (int)t.k * 100 + t.w}]; if (!e) { if (t.w == 1) e = nullptr; else e = mkVar("uninit_" + std::to_string(id) + "_" + std::to_string(off), flt ? (REALT ? S_REAL : (t.k == T_F32 ? S_F32 : S_F64)) : S_BV, flt && REALT ? 0 : t.w, 1, 2); }
      if (e) { Obj* w = s.mem.wr(id); for (u32 i = 0; i < n; ++i) w->b->s[off + i] = SymByte{e, (u8)i, (u8)n}; return X(e); } }
    Obj* w = s.mem.wr(id); for (u32 i = 0; i < n; ++i) if (w->b->s[off + i].e == UNINIT) { RV u = uninitVar(s, id, off + i, o); w->b->s[off + i] = SymByte{u.e, 0, 1}; } return loadPrim(s, a, t); }
  // general: concatenate runs
  E r = nullptr; u32 i = 0; 
  while (i < n) { SymByte q = b->s[off + i]; E part; u32 len = 1; if (!q.e) { part = bvc(b->c[off + i], 8); } else { while (i + len < n && b->s[off + i + len].e == q.e && b->s[off + i + len].off == q.off + len) len++; E e = q.e; if (e->sort == S_REAL || e->sort == S_F32 || e->sort == S_F64) { E bv = e->sort == S_REAL ? mk(O_RBITS, S_BV, q.n * 8, 0, e) : (e->op == O_FFROMBV ? e->a : mk(O_FTOBV, S_BV, q.n * 8, 0, e)); part = eExtract(bv, (q.off + len) * 8 - 1, q.off * 8); } else if (e->sort == S_BOOL) part = byteE(q); else if (e->width < (q.off + len) * 8) part = eExtract(eZext(e, q.n * 8), (q.off + len) * 8 - 1, q.off * 8); else part = eExtract(e, (q.off + len) * 8 - 1, q.off * 8); }
    r = r ? eConcat(part, r) : part; i += len; }
  if (flt) { if (r->op == O_RBITS || r->op == O_FTOBV) return X(r->a); if (r->op == O_CONST) return C(r->imm); if (REALT) throw PathAbort{"mixed bytes read as a real"}; return X(mk(O_FFROMBV, t.k == T_F32 ? S_F32 : S_F64, t.w, 0, r)); }
  if (t.w == 1) return X(eExtract(r, 0, 0)); if (r->width > t.w) r = eExtract(r, t.w - 1, 0); return X(r);
}
static void storePrim(State& s, u64 a, const RV& v, const Ty& t) {
  u32 n = (t.w + 7) / 8; if (!n) n = 1; u64 off; checkAccess(s, a, n, true, off); if (s.omp.active) logAccess(s, a, n, true); Obj* o = s.mem.wr(idOf(a)); Bytes* b = o->b.get();
  if (!v.e) { u64 c = v.c; memcpy(&b->c[off], &c, n); if (!b->s.empty()) for (u32 i = 0; i < n; ++i) b->s[off + i].e = nullptr; return; }
  if (b->s.empty()) b->s.assign(o->size, SymByte{nullptr, 0, 0});
  if (v.e == UNINIT) { for (u32 i = 0; i < n; ++i) b->s[off + i] = SymByte{UNINIT, 0, 1}; return; }
  E e = v.e; if (e->sort == S_BOOL) e = eZext(e, 8); for (u32 i = 0; i < n; ++i) b->s[off + i] = SymByte{e, (u8)i, (u8)n}; }
static RV loadTy(State& s, u64 a, Type* t) { 
  if (t->isX86_FP80Ty() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64)) throw PathAbort{"wide scalar load"};
  Ty ty = tyOf(t); if (ty.k != T_AGG) return loadPrim(s, a, ty); RV r; r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < nElems(t); ++i) r.agg->push_back(loadTy(s, a + elemOff(t, i), elemTy(t, i))); return r; }
static void storeTy(State& s, u64 a, const RV& v, Type* t) { Ty ty = tyOf(t); if (ty.k != T_AGG) { storePrim(s, a, v, ty); return; } for (unsigned i = 0; i < nElems(t); ++i) storeTy(s, a + elemOff(t, i), v.agg ? (*v.agg)[i] : v, elemTy(t, i)); }
static void copyMem(State& s, u64 d, u64 src, u64 n) {
  if (!n) return; u64 so, dof; checkAccess(s, src, n, false, so); checkAccess(s, d, n, true, dof); if (s.omp.active) { logAccess(s, src, n, false); logAccess(s, d, n, true); }
  std::vector<u8> tc; std::vector<SymByte> ts; { Obj* o = s.mem.get(idOf(src)); tc.assign(o->b->c.begin() + so, o->b->c.begin() + so + n); if (!o->b->s.empty()) ts.assign(o->b->s.begin() + so, o->b->s.begin() + so + n); }
  Obj* w = s.mem.wr(idOf(d)); std::copy(tc.begin(), tc.end(), w->b->c.begin() + dof); if (!ts.empty()) { if (w->b->s.empty()) w->b->s.assign(w->size, SymByte{nullptr, 0, 0}); std::copy(ts.begin(), ts.end(), w->b->s.begin() + dof); } else if (!w->b->s.empty()) for (u64 i = 0; i < n; ++i) w->b->s[dof + i].e = nullptr; }
static u64 needC(State& s, const RV& v, int w, const char* what) { // concretise by exhaustive forking
  if (!v.e) return v.c; if (v.e == UNINIT) throw PathAbort{std::string("undefined value used as ") + what}; (void)w; Evaluator ev(s.model); u64 cur = ev.eval(v.e).bits; decide(s, eCmp(O_EQ, v.e, v.e->sort == S_BOOL ? boolc(cur) : bvc(cur, v.e->width))); return cur; }
static u64 lifoClass(u64 n) { return std::max<u64>(32, (n + 8 + 15) & ~15ULL); } // size classes of glibc malloc
static u64 doAlloc(State& s, u64 size, u8 fn, bool uninit = true) {
  if (LIFO_ALLOC && fn <= 2) { auto& fl = s.freeLists[lifoClass(size)]; if (!fl.empty()) { u32 id = fl.back(); fl.pop_back(); Obj* o = s.mem.wr(id); o->freed = false; o->allocFn = fn; o->size = size; o->b = std::make_shared<Bytes>(); o->b->c.assign(size, 0); o->b->s.assign(size, SymByte{UNINIT, 0, 1}); return addrOf(id); } }
  u32 id = s.mem.alloc(size, K_HEAP, uninit); Obj* o = s.mem.wr(id); o->allocFn = fn; if (s.omp.active) o->birthThread = s.omp.stamp(); return addrOf(id); }
static void doFree(State& s, u64 a, u8 fn) { if (!a) return; u32 id = idOf(a); Obj* o = s.mem.get(id); if (!o || o->kind != K_HEAP || offOf(a, id) != 0) fail(s, "memory", "free of a pointer that was not allocated"); if (o->freed) fail(s, "memory", "double free"); if (o->allocFn != fn) fail(s, "memory", "mismatched new/delete"); Obj* w = s.mem.wr(id); w->freed = true; if (LIFO_ALLOC && fn <= 2) s.freeLists[lifoClass(w->size)].push_back(id); w->b = nullptr; }

// ---------------------------------------------------------------- calls / exceptions
static const std::map<std::string, std::string> stdBases = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
static std::string tiName(State& s, u64 a) { Obj* o = s.mem.get(idOf(a)); return o && o->name ? *o->name : ""; }
static bool tiDerives(State& s, u64 a, u64 base) {
  if (a == base) return true; std::string n = tiName(s, a); if (n == tiName(s, base)) return true;
  if (auto* g = M->getNamedGlobal(n)) if (g->hasInitializer()) { Constant* c = g->getInitializer(); for (unsigned i = 2; i < c->getNumOperands(); ++i) { auto* b = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts()); if (b && tiDerives(s, addrOf(gvObj.at(b)), base)) return true; } return false; }
  auto it = stdBases.find(n); if (it == stdBases.end()) return false; if (it->second == tiName(s, base)) return true; if (auto* g = M->getNamedGlobal(it->second)) return tiDerives(s, addrOf(gvObj.at(g)), base);
  // parent not mentioned in the module: follow by name
  std::string cur = it->second, bn = tiName(s, base); for (;;) { if (cur == bn) return true; auto j = stdBases.find(cur); if (j == stdBases.end()) return false; cur = j->second; } }
static RV& reg(State& s, int r) { return s.st.back().regs[r]; }
// thread-local variables: thread 0 uses the global itself, every other logical thread its own copy
static const RV& tlsRV(State& s, const Opnd& o) { u32 me = s.omp.active ? s.omp.cur : 0; if (!me) return o.k; if (o.tls->isDeclaration()) throw PathAbort{"external thread-local variable"}; u32& id = s.omp.tls[{idOf(o.k.c), me}];
  if (!id) { id = s.mem.alloc(DL->getTypeAllocSize(o.tls->getValueType()), K_GLOBAL, false); Obj* b = s.mem.wr(id); b->name = new std::string(o.tls->getName().str()); try { writeConst(*b->b, 0, o.tls->getInitializer()); } catch (Unsupported&) {} }
  static RV ring[16]; static unsigned at = 0; RV& r = ring[at++ % 16]; r = C(addrOf(id) + (o.k.c - addrOf(idOf(o.k.c)))); return r; }
static inline RV val(State& s, const Opnd& o) { return o.reg >= 0 ? s.st.back().regs[o.reg] : o.tls ? tlsRV(s, o) : o.k; }
static void jump(State& s, u32 bb) { Frame& f = s.st.back(); f.prevBB = f.curBB; f.curBB = bb; f.pc = f.f->bbStart[bb];
  // phi nodes evaluated together
  std::vector<std::pair<int, RV>> up; u32 p = f.pc; while (f.f->code[p].op == Instruction::PHI) { DInst& d = f.f->code[p]; for (auto& in : d.phi[0]) if (in.first == f.prevBB) { up.push_back({d.dst, in.second.reg >= 0 ? f.regs[in.second.reg] : in.second.tls ? tlsRV(s, in.second) : in.second.k}); break; } p++; INSTR++; } for (auto& u : up) f.regs[u.first] = u.second; f.pc = p; }
static void popFrame(State& s) { for (u32 id : s.st.back().allocas) { Obj* o = s.mem.wr(id); o->freed = true; o->b = nullptr; } s.st.pop_back(); }
static void advance(State& s, const RV& r, bool has = true) { // after a call completes in the current (caller) frame
  Frame& f = s.st.back(); DInst& d = f.f->code[f.pc]; if (has && d.dst >= 0) f.regs[d.dst] = r; if (d.op == Instruction::Invoke) jump(s, d.tgt[0]); else f.pc++; }
static void ompThreadDone(State& s);
static void unwind(State& s) {
  for (;;) { if (s.st.empty()) { report(s, "exception", "exception escapes the harness"); throw PathEnd(); }
    Frame& f = s.st.back(); DInst& d = f.f->code[f.pc];
    if (d.op == Instruction::Invoke) { u32 ub = d.tgt[1]; u32 p = f.f->bbStart[ub]; while (f.f->code[p].op == Instruction::PHI) p++; DInst& lp = f.f->code[p]; auto* L = cast<LandingPadInst>(lp.I); bool take = L->isCleanup(); u64 sel = 0;
      for (unsigned i = 0; i < L->getNumClauses(); ++i) { if (L->isCatch(i)) { Constant* c = L->getClause(i); if (isa<ConstantPointerNull>(c)) { take = true; sel = 0x7fff0000; break; } u64 ti = constInt(c); if (tiDerives(s, s.excType, ti)) { take = true; sel = idOf(ti); break; } } else { take = true; break; } }
      if (take) { jump(s, ub); Frame& g = s.st.back(); DInst& l2 = g.f->code[g.pc]; RV r; r.agg = std::make_shared<std::vector<RV>>(); r.agg->push_back(C(s.excObj)); r.agg->push_back(C(sel)); g.regs[l2.dst] = r; g.pc++; return; } }
    if (f.f->F->doesNotThrow() && !f.mode) fail(s, "terminate", "exception leaves a noexcept function: " + demangle(f.f->name));
    if (f.mode >= 2) fail(s, "terminate", "exception leaves a parallel region");
    popFrame(s); } }
static void throwStd(State& s, const std::string& ti) { // engine-raised standard exception
  u64 ta = 0; if (auto* g = M->getNamedGlobal(ti)) ta = addrOf(gvObj.at(g)); else { static std::map<std::string, u32> extra; u32 id = s.mem.alloc(16, K_GLOBAL, false); s.mem.wr(id)->name = new std::string(ti); ta = addrOf(id); }
  u64 o = doAlloc(s, 64, 9); s.excObj = o; s.excType = ta; s.excTypeOf[o] = ta; unwind(s); }
static void callF(State& s, Function* F, const std::vector<RV>& args) {
  FuncInfo* fi = getF(F); fi->calls++; if (s.st.size() > 400) fail(s, "stack", "call depth exceeds 400 (runaway recursion)"); Frame f; f.f = fi; f.regs.resize(fi->nregs); for (size_t i = 0; i < fi->argReg.size() && i < args.size(); ++i) f.regs[fi->argReg[i]] = args[i]; s.st.push_back(std::move(f)); s.st.back().pc = 0; s.st.back().curBB = 0;
  // byval arguments are copied
  for (size_t i = 0; i < fi->argReg.size(); ++i) if (F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = F->getParamByValType(i); u64 n = DL->getTypeAllocSize(t); u32 id = s.mem.alloc(n, K_STACK, true); u64 src = s.st.back().regs[fi->argReg[i]].c; copyMem(s, addrOf(id), src, n); s.st.back().allocas.push_back(id); s.st.back().regs[fi->argReg[i]] = C(addrOf(id)); } }
static std::string cstr(State& s, u64 a) { std::string r; for (int i = 0; i < 4096; ++i) { u64 off; Obj* o = checkAccess(s, a + i, 1, false, off); char c = o->b->c[off]; if (!c) break; r += c; } return r; }

// ---------------------------------------------------------------- floating point
static Ty tF32() { Ty t; t.k = T_F32; t.w = 32; return t; } static Ty tF64() { Ty t; t.k = T_F64; t.w = 64; return t; }
// x narrowed to single precision: x * (1 + d) with an unknown relative error d, the same for equal x
static E narrowed(E x) { static std::map<E, E> mp; E& r = mp[x]; if (!r) { E d = mkVar("narrow_" + std::to_string(mp.size()), S_REAL, 0, 1, 2); r = eRmul(x, eRadd(rc(mpq_class(1)), d)); } return r; }
static RV fixU(const RV& v, const Ty& t) { if (v.e == UNINIT) return freshUndef(t); return v; }
static RV fArith(State& s, Op fop, Op rop, const RV& a0, const RV& b0, const Ty& t) {
  RV a = fixU(a0, t), b = fixU(b0, t);
  if (!a.e && !b.e) { double x = dOf(a.c, t.k), y = dOf(b.c, t.k), r; if (t.k == T_F32) { float p = x, q = y, z; switch (fop) { case O_FADD: z = p + q; break; case O_FSUB: z = p - q; break; case O_FMUL: z = p * q; break; default: z = p / q; } r = z; } else switch (fop) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; default: r = x / y; }
    if (!REALT || !std::isfinite(x) || !std::isfinite(y) || (fop == O_FDIV && y == 0) || (PRECISE && t.k == T_F32)) return C(bOf(r, t.k));
    mpq_class p(x), q(y), z; switch (fop) { case O_FADD: z = p + q; break; case O_FSUB: z = p - q; break; case O_FMUL: z = p * q; break; default: z = p / q; } if (std::isfinite(r) && mpq_class(r) == z) return C(bOf(r, t.k)); return X(rc(z)); }
  if (!REALT) return X(eF(fop, toE(a, t), toE(b, t)));
  for (const RV* v : {&a, &b}) if (!v->e && !std::isfinite(dOf(v->c, t.k))) { double d = dOf(v->c, t.k); if (std::isnan(d)) return *v; if (fop == O_FADD) return *v; if (fop == O_FSUB) return v == &a ? *v : C(bOf(-d, t.k)); if (fop == O_FDIV && v == &b) return C(0); throw PathAbort{"infinity in real arithmetic"}; }
  E x = toE(a, t), y = toE(b, t); E r; switch (rop) { case O_RADD: r = eRadd(x, y); break; case O_RSUB: r = eRsub(x, y); break; case O_RMUL: r = eRmul(x, y); break; default:
      if (y->op == O_RCONST && sgn(*y->q) == 0) { if (x->op == O_RCONST && sgn(*x->q) == 0) return C(bOf(NAN, t.k)); if (decide(s, eRcmp(O_REQ, x, rc(0)))) return C(bOf(NAN, t.k)); return C(bOf(decide(s, eRcmp(O_RLT, x, rc(0))) ? -INFINITY : INFINITY, t.k)); } r = eRdiv(x, y); }
  return X(r); }
static RV fNeg(const RV& a0, const Ty& t) { RV a = fixU(a0, t); if (!a.e) return C(a.c ^ (t.k == T_F32 ? 0x80000000ULL : 1ULL << 63)); if (!REALT) return X(eF(O_FNEG, a.e)); return X(eRneg(a.e)); }
static RV fFun(State& s, Fn f, const RV& a0, const Ty& t) {
  RV a = fixU(a0, t); bool f32 = t.k == T_F32;
  if (!a.e) { double x = dOf(a.c, t.k); double r = hostFn(f, x, f32); if (!REALT || !std::isfinite(x) || !std::isfinite(r) || std::isnan(r)) return C(bOf(r, t.k)); E e = eRfun(f, rc(mpq_class(x))); if (e->op == O_RCONST) { mpq_class q(r); if (q == *e->q) return C(bOf(r, t.k)); } return X(e); }
  if (!REALT) { if (f == FN_SQRT) return X(eF(O_FSQRT, a.e)); return X(mk(O_FFUN, a.e->sort, a.e->width, f, a.e)); }
  if (f == FN_LOG && a.e->op != O_RCONST) { if (decide(s, eRcmp(O_RLE, a.e, rc(0)))) return C(bOf(decide(s, eRcmp(O_REQ, a.e, rc(0))) ? -INFINITY : NAN, t.k)); }
  if (f == FN_SQRT && a.e->op != O_RCONST) { if (decide(s, eRcmp(O_RLT, a.e, rc(0)))) return C(bOf(NAN, t.k)); }
  if (a.e->op == O_RCONST && sgn(*a.e->q) < 0 && f == FN_SQRT) return C(bOf(NAN, t.k)); if (a.e->op == O_RCONST && sgn(*a.e->q) <= 0 && f == FN_LOG) return C(bOf(sgn(*a.e->q) ? NAN : -INFINITY, t.k));
  return X(eRfun(f, a.e)); }
static RV fAbs(State& s, const RV& a0, const Ty& t) { RV a = fixU(a0, t); if (!a.e) return C(a.c & (t.k == T_F32 ? 0x7fffffffULL : ~(1ULL << 63))); if (!REALT) return X(eF(O_FABS, a.e)); if (a.e->op == O_RCONST) return X(rc(abs(*a.e->q))); if (decide(s, eRcmp(O_RLT, a.e, rc(0)))) return X(eRneg(a.e)); return a; }
static RV fMod(State& s, const RV& a0, const RV& b0, const Ty& t) { RV a = fixU(a0, t), b = fixU(b0, t); if (!a.e && !b.e) return C(bOf(::fmod(dOf(a.c, t.k), dOf(b.c, t.k)), t.k)); if (!REALT) throw PathAbort{"frem"}; // a - b * trunc(a / b)
  RV q = fArith(s, O_FDIV, O_RDIV, a, b, t); return fArith(s, O_FSUB, O_RSUB, a, fArith(s, O_FMUL, O_RMUL, b, fFun(s, FN_TRUNC, q, t), t), t); }
static RV fPow(State& s, const RV& a0, const RV& b0, const Ty& t) {
  RV a = fixU(a0, t), b = fixU(b0, t); if (!a.e && !b.e) { double x = dOf(a.c, t.k), y = dOf(b.c, t.k); double r = t.k == T_F32 ? (double)powf(x, y) : ::pow(x, y); if (!REALT || !std::isfinite(r) || !std::isfinite(x) || !std::isfinite(y)) return C(bOf(r, t.k)); if (y == std::floor(y) && std::fabs(y) < 4096 && x != 0) { E e = eRpowi(rc(mpq_class(x)), (long)y); if (*e->q == mpq_class(r)) return C(bOf(r, t.k)); return X(e); } }
  if (!REALT) return X(mk(O_FFUN2, toE(a, t)->sort, t.w, FN_POW, toE(a, t), toE(b, t)));
  E y = toE(b, t), x = toE(a, t); if (y->op == O_RCONST) { const mpq_class& q = *y->q; if (q.get_den() == 1 && abs(q.get_num()) < 4096) return X(eRpowi(x, q.get_num().get_si())); if (q == mpq_class(1, 2)) return fFun(s, FN_SQRT, a, t); if (q == mpq_class(-1, 2)) return fArith(s, O_FDIV, O_RDIV, X(rc(1)), fFun(s, FN_SQRT, a, t), t); if (q == mpq_class(3, 2)) return X(eRmul(x, toE(fFun(s, FN_SQRT, a, t), t))); }
  if (x->op == O_RCONST && sgn(*x->q) > 0) return X(eRfun(FN_EXP, eRmul(y, eRfun(FN_LOG, x))));
  return X(eRfun(FN_EXP, eRmul(y, toE(fFun(s, FN_LOG, a, t), t)))); }
static RV fCmp(State& s, unsigned pred, const RV& a0, const RV& b0, const Ty& t) {
  RV a = fixU(a0, t), b = fixU(b0, t); (void)s;
  if (!a.e && !b.e) { double x = dOf(a.c, t.k), y = dOf(b.c, t.k); bool un = std::isnan(x) || std::isnan(y); bool r = false; if (pred & 1) r |= !un && x == y; if (pred & 2) r |= !un && x > y; if (pred & 4) r |= !un && x < y; if (pred & 8) r |= un; return C(r); }
  if (!REALT) { E x = toE(a, t), y = toE(b, t); E r = boolc(false); if ((pred & 7) == 7) { E un = eOr(eF(O_FISNAN, x), eF(O_FISNAN, y)); r = (pred & 8) ? boolc(true) : eNot(un); return X(r); }
    unsigned p = pred & 7; if (p == 3) r = eF(O_FLE, y, x); else if (p == 5) r = eF(O_FLE, x, y); else if (p == 6) r = eOr(eF(O_FLT, x, y), eF(O_FLT, y, x)); else if (p == 1) r = eF(O_FEQ, x, y); else if (p == 2) r = eF(O_FLT, y, x); else if (p == 4) r = eF(O_FLT, x, y); if (pred & 8) r = eOr(r, eOr(eF(O_FISNAN, x), eF(O_FISNAN, y))); return X(r); }
  for (int i = 0; i < 2; ++i) { const RV& v = i ? b : a; if (!v.e && !std::isfinite(dOf(v.c, t.k))) { double d = dOf(v.c, t.k); if (std::isnan(d)) return C((pred & 8) != 0); double x = i ? 0 : d, y = i ? d : 0; bool r = false; if (pred & 1) r |= x == y; if (pred & 2) r |= x > y; if (pred & 4) r |= x < y; return C(r); } }
  E x = toE(a, t), y = toE(b, t); switch (pred & 7) { case 0: return C(0); case 1: return X(eRcmp(O_REQ, x, y)); case 2: return X(eRcmp(O_RLT, y, x)); case 3: return X(eRcmp(O_RLE, y, x)); case 4: return X(eRcmp(O_RLT, x, y)); case 5: return X(eRcmp(O_RLE, x, y)); case 6: return X(eNot(eRcmp(O_REQ, x, y))); default: return C(1); } }
static bool truth(State& s, const RV& v) { if (!v.e) return v.c & 1; if (v.e == UNINIT) return decide(s, freshUndef(Ty{T_INT, 1, nullptr}).e); return decide(s, v.e); }

// ---------------------------------------------------------------- obligations
static bool respects(const State& s, const Model& m) { for (E p : s.pc) if (!evalB(p, m)) return false; return true; }
static long double rndIn(double lo, double hi) { int steps = 64; long double k = (long double)(rng() % (steps + 1)); return lo + (hi - lo) * (k / steps); }
static Model perturb(const State& s, const std::vector<u32>& vars) { Model m = s.model; bool all = rng() & 1; for (u32 v : vars) { auto& vi = gVars[v]; if (vi.sort != S_REAL) continue; if (all || (rng() % 3 == 0)) { double lo = vi.bounded ? vi.lo.get_d() : -4, hi = vi.bounded ? vi.hi.get_d() : 4; m[v].r = rndIn(lo, hi); } } return m; }
static std::vector<u32> connectedVars(const State& s, const std::vector<E>& roots) { std::unordered_set<u32> vs; for (E r : roots) for (u32 v : varsOf(r)) vs.insert(v); for (E p : slice(s, roots)) for (u32 v : varsOf(p)) vs.insert(v); return std::vector<u32>(vs.begin(), vs.end()); }
static long double relDiff(E a, E b, const Model& m, bool& ok) { Evaluator ev(m); long double x = ev.eval(a).r, y = ev.eval(b).r; ok = !ev.bad && std::isfinite(x) && std::isfinite(y); return fabsl(x - y) / (1 + fabsl(x) + fabsl(y)); }
static void markIncon(const std::string& w) { inconclusive[w]++; }
static void obligationEqReal(State& s, E a, E b, const std::string& msg) {
  OBL++; s.eqs.push_back({a, b});
  if (a == b) { OBL_SYNT++; return; }
  // numeric screening decides which direction is worth trying first
  auto vars = connectedVars(s, {a, b}); Model best; long double bd = -1; bool ok;
  auto sample = [&](int n) { for (int i = 0; i < n; ++i) { Model m = i == 0 ? s.model : perturb(s, vars); if (i && !respects(s, m)) continue; long double d = relDiff(a, b, m, ok); if (ok && d > bd) { bd = d; best = m; } } };
  sample(6);
  if (bd < 1e-9L) { double t0 = nowS(); gPositive = [&](E e) { RIv iv = riv(e); if (iv.lo > 0) return true; if (iv.hi <= 0) return false; auto q = slice(s, {e}); q.push_back(eRcmp(O_RLE, e, rc(0))); return smtCheck(q, nullptr, 1000) == R_UNSAT; }; Ident r; try { r = polyIdentical(a, b); } catch (Unsupported& u) { r = I_GAVEUP; } polyTime += nowS() - t0;
    if (r == I_EQUAL) { OBL_POLY++; return; }
    auto q = slice(s, {a, b}); q.push_back(eNot(eRcmp(O_REQ, a, b))); Model m = s.model; Res sr = smtCheck(q, &m, OBL_MS, true);
    if (sr == R_UNSAT) { OBL_SMT++; return; }
    sample(200); if (bd < 1e-7L) { if (sr == R_SAT) { bool o2; long double d = relDiff(a, b, m, o2); if (o2 && d > 1e-5L) { report(s, "assert", msg, {m, best}); return; } } markIncon("equality undecided: " + msg); return; } }
  // candidate counterexample: ask the solver for one with a margin, else keep the numeric witness
  std::vector<Model> ms; 
  for (double mg : {0.25, 0.01}) { auto q = slice(s, {a, b}); E d = eRsub(a, b); q.push_back(eOr(eRcmp(O_RLE, rc(mpq_class(mg)), d), eRcmp(O_RLE, d, rc(mpq_class(-mg))))); Model m = s.model; if (smtCheck(q, &m, 1500) == R_SAT) { bool o2; long double dd = relDiff(a, b, m, o2); if (o2 && dd > 1e-4L) { ms.push_back(m); break; } } }
  sample(100); if (bd > 1e-6L) ms.push_back(best);
  OBL_CONFIRMED++; report(s, "assert", msg, ms);
}
static void obligation(State& s, E cond, const std::string& msg) { // cond must hold
  OBL++; if (isTrue(cond)) { OBL_CONST++; return; } bool v; if (implied(s, cond, v) && v) { OBL_SYNT++; return; }
  E n = eNot(cond); auto q = slice(s, {n}); q.push_back(n); Model m = s.model;
  for (int round = 0; round < 24; ++round) {
    Res r = isFalse(cond) ? R_SAT : smtCheck(q, &m, OBL_MS, true);
    if (r == R_UNSAT) { OBL_SMT++; return; }
    if (r == R_UNKNOWN) { // numeric search before giving up
      auto vars = connectedVars(s, {cond}); for (int i = 0; i < 200; ++i) { Model p = perturb(s, vars); if (respects(s, p) && !evalB(cond, p)) { report(s, "assert", msg, {p}); goto cont; } } markIncon("undecided: " + msg); return; }
    if (isFalse(cond)) { report(s, "assert", msg); throw PathEnd(); }
    // abstracted functions: check the model against the real functions, refine if spurious
    bool hasFun = false; { std::vector<E> st(q); std::unordered_set<E> seen; while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op == O_FFUN || e->op == O_FFUN2 || e->op == O_RFUN || e->op == O_RPOW) hasFun = true; for (E k : {e->a, e->b, e->c}) if (k) st.push_back(k); }
      if (!hasFun) { report(s, "assert", msg, {m}); break; }
      bool real = true; { Evaluator ev(m); for (E e : q) if (!ev.eval(e).bits) real = false; if (ev.bad) real = false; }
      if (real) { report(s, "assert", msg, {m}); break; }
      // refine: pin each function at the argument the model chose
      Evaluator ev(m); bool added = false; for (E e : seen) if ((e->op == O_FFUN || e->op == O_FFUN2) && e->a->sort != S_REAL) { Num av = ev.eval(e->a), rv = ev.eval(e); E c = eCmp(O_EQ, boolc(true), eOr(eNot(eF(O_FEQ, e->a, fpc(av.bits, e->a->sort))), eF(O_FEQ, e, fpc(rv.bits, e->sort)))); if (e->op == O_FFUN2) c = boolc(true); double dv = dOf(rv.bits, e->sort == S_F32 ? T_F32 : T_F64); if (std::isnan(dv)) continue; q.push_back(c); added = true;
          // local monotone step: x <= a => f(x) <= f(a)
          if (e->op == O_FFUN && (e->imm == FN_EXP || e->imm == FN_TANH || e->imm == FN_LOG)) { E ac = fpc(av.bits, e->a->sort), rcst = fpc(rv.bits, e->sort); q.push_back(eOr(eNot(eF(O_FLE, e->a, ac)), eF(O_FLE, e, rcst))); q.push_back(eOr(eNot(eF(O_FLE, ac, e->a)), eF(O_FLE, rcst, e))); } }
      if (!added) { auto vars = connectedVars(s, {cond}); for (int i = 0; i < 300; ++i) { Model p = perturb(s, vars); if (respects(s, p) && !evalB(cond, p)) { report(s, "assert", msg, {p}); goto cont; } } markIncon("only spurious models: " + msg); return; } }
    if (round == 23) { markIncon("refinement limit: " + msg); return; } }
cont:
  { Model m2 = s.model; if (!evalB(cond, s.model)) { if (feasible(s, cond, &m2) != R_SAT) throw PathEnd(); s.model = m2; } addPC(s, cond); }
}
// ---------------------------------------------------------------- harness interface and library models
static std::map<std::string, E> inputVar;
static E inputE(State& s, const std::string& name, Sort so, int w, int srcType, bool bounded, double lo, double hi) {
  int k = s.nameCount[name]++; std::string full = name + "#" + std::to_string(k); std::string key = full + "/" + std::to_string(srcType) + "/" + std::to_string(lo) + "/" + std::to_string(hi); E& e = inputVar[key]; if (!e) { e = mkVar(full, so, w, 0, srcType); if (so == S_BV && bounded) { auto& v = gVars[e->imm]; v.ivb = true; v.ivs = w != 8; v.ivlo = (i64)lo; v.ivhi = hi >= 9.2e18 ? INT64_MAX : (i64)hi; if (lo <= -9.2e18) v.ivlo = INT64_MIN; } if (so == S_REAL) { auto& v = gVars[e->imm]; v.bounded = bounded; v.lo = mpq_class(lo); v.hi = mpq_class(hi); } }
  u32 id = e->imm; s.inputs.push_back(id); Num n; auto& vi = gVars[id]; if (so == S_REAL) { static std::map<u32, long double> init; auto f = init.find(id); if (f == init.end()) f = init.emplace(id, rndIn(lo, hi)).first; n.r = f->second; } (void)vi; s.model[id] = n; return e; }
static bool has(const std::string& n, const char* p) { return n.find(p) != std::string::npos; }
static void ompFork(State& s, DInst& d, const std::vector<RV>& a);
static void ompBarrier(State& s); static u32 OMP_T = 6;

static bool intrinsicCall(State& s, DInst& d, const std::vector<RV>& a) {
  auto ret = [&](const RV& r) { advance(s, r); return true; }; Ty t = d.ty;
  auto fty = [&]() { return t; };
  switch (d.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = needC(s, a[2], 64, "copy length"); u64 dst = concretizeAddr(s, a[0], n ? n : 1, true), src = concretizeAddr(s, a[1], n ? n : 1, false); copyMem(s, dst, src, n); return ret(RV()); }
    case Intrinsic::memset: { u64 n = needC(s, a[2], 64, "memset length"); u64 dst = concretizeAddr(s, a[0], n, true); if (n) { u64 off; checkAccess(s, dst, n, true, off); if (s.omp.active) logAccess(s, dst, n, true); RV v = a[1]; Ty b; b.k = T_INT; b.w = 8; if (v.e) { for (u64 i = 0; i < n; ++i) storePrim(s, dst + i, v, b); } else { Obj* o = s.mem.wr(idOf(dst)); memset(&o->b->c[off], (int)v.c, n); if (!o->b->s.empty()) for (u64 i = 0; i < n; ++i) o->b->s[off + i].e = nullptr; } } return ret(RV()); }
    case Intrinsic::fabs: return ret(fAbs(s, a[0], fty())); case Intrinsic::sqrt: return ret(fFun(s, FN_SQRT, a[0], fty())); case Intrinsic::exp: return ret(fFun(s, FN_EXP, a[0], fty())); case Intrinsic::log: return ret(fFun(s, FN_LOG, a[0], fty())); case Intrinsic::floor: return ret(fFun(s, FN_FLOOR, a[0], fty())); case Intrinsic::ceil: return ret(fFun(s, FN_CEIL, a[0], fty())); case Intrinsic::trunc: return ret(fFun(s, FN_TRUNC, a[0], fty())); case Intrinsic::sin: return ret(fFun(s, FN_SIN, a[0], fty())); case Intrinsic::cos: return ret(fFun(s, FN_COS, a[0], fty())); case Intrinsic::log2: return ret(fFun(s, FN_LOG2, a[0], fty())); case Intrinsic::exp2: return ret(fFun(s, FN_EXP2, a[0], fty())); case Intrinsic::log10: return ret(fFun(s, FN_LOG10, a[0], fty())); case Intrinsic::round: return ret(fFun(s, FN_ROUND, a[0], fty())); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return ret(fFun(s, FN_RINT, a[0], fty()));
    case Intrinsic::pow: return ret(fPow(s, a[0], a[1], fty()));
    case Intrinsic::powi: { RV b = a[1]; if (b.e) throw PathAbort{"powi"}; i64 n = sx(b.c, 32); return ret(fPow(s, a[0], C(bOf((double)n, t.k)), fty())); }
    case Intrinsic::fma: case Intrinsic::fmuladd: return ret(fArith(s, O_FADD, O_RADD, fArith(s, O_FMUL, O_RMUL, a[0], a[1], t), a[2], t));
    case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::maximum: case Intrinsic::minimum: { bool mx = d.intr == Intrinsic::maxnum || d.intr == Intrinsic::maximum; if (!REALT) { if (truth(s, fCmp(s, 8, a[0], a[0], t))) return ret(a[1]); if (truth(s, fCmp(s, 8, a[1], a[1], t))) return ret(a[0]); } bool lt = truth(s, fCmp(s, 4, a[0], a[1], t)); return ret(lt == mx ? a[1] : a[0]); }
    case Intrinsic::copysign: { RV mag = fAbs(s, a[0], t); bool neg; if (!a[1].e) neg = std::signbit(dOf(a[1].c, t.k)); else neg = truth(s, fCmp(s, 4, a[1], C(0), t)); return ret(neg ? fNeg(mag, t) : mag); }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { E x = toE(a[0], t), y = toE(a[1], t); E c = eCmp(d.intr == Intrinsic::umin || d.intr == Intrinsic::umax ? O_ULT : O_SLT, x, y); bool mn = d.intr == Intrinsic::umin || d.intr == Intrinsic::smin; return ret(X(mn ? eIte(c, x, y) : eIte(c, y, x))); }
    case Intrinsic::abs: { E x = toE(a[0], t); return ret(X(eIte(eCmp(O_SLT, x, bvc(0, t.w)), eBin(O_SUB, bvc(0, t.w), x), x))); }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
      Ty et = tyOf(elemTy(t.t, 0)); int w = et.w; E x = toE(fixU(a[0], et), et), y = toE(fixU(a[1], et), et); E r, ov;
      bool sg = d.intr == Intrinsic::smul_with_overflow || d.intr == Intrinsic::sadd_with_overflow || d.intr == Intrinsic::ssub_with_overflow; Op op = (d.intr == Intrinsic::umul_with_overflow || d.intr == Intrinsic::smul_with_overflow) ? O_MUL : (d.intr == Intrinsic::uadd_with_overflow || d.intr == Intrinsic::sadd_with_overflow) ? O_ADD : O_SUB;
      if (isC(x) && isC(y)) { __int128 p = sg ? (__int128)sx(x->imm, w) : (__int128)x->imm, q = sg ? (__int128)sx(y->imm, w) : (__int128)y->imm; __int128 z = op == O_MUL ? p * q : op == O_ADD ? p + q : p - q; u64 lo = (u64)z & maskw(w); __int128 back = sg ? (__int128)sx(lo, w) : (__int128)lo; r = bvc(lo, w); ov = boolc(back != z); }
      else { int W = op == O_MUL ? 2 * w : w + 1; E xx = mk(sg ? O_SEXT : O_ZEXT, S_BV, W, 0, x), yy = mk(sg ? O_SEXT : O_ZEXT, S_BV, W, 0, y); E zz = mk(op, S_BV, W, 0, xx, yy); r = eBin(op, x, y); E lo = mk(O_EXTRACT, S_BV, w, 0, zz); ov = eNot(mk(O_EQ, S_BOOL, 1, 0, zz, mk(sg ? O_SEXT : O_ZEXT, S_BV, W, 0, lo))); if (op == O_MUL && !sg) { // overflow iff y > max / x  (kept in w bits)
            ov = eNot(eOr(eCmp(O_EQ, x, bvc(0, w)), eCmp(O_ULE, y, eBin(O_UDIV, bvc(maskw(w), w), x)))); } }
      RV rr; rr.agg = std::make_shared<std::vector<RV>>(); rr.agg->push_back(X(r)); rr.agg->push_back(X(ov)); return ret(rr); }
    case Intrinsic::threadlocal_address: return ret(a[0]);
    case Intrinsic::eh_typeid_for: return ret(C(idOf(a[0].c)));
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s, "trap", "trap instruction reached");
    case Intrinsic::is_constant: return ret(C(0)); case Intrinsic::objectsize: return ret(C(a[1].c & 1 ? 0 : ~0ull));
    case Intrinsic::stacksave: return ret(C(0)); case Intrinsic::stackrestore: return ret(RV());
    case Intrinsic::expect: return ret(a[0]);
    case Intrinsic::vastart: case Intrinsic::vaend: throw PathAbort{"varargs"};
    case Intrinsic::is_fpclass: { u64 m = a[1].c; Ty ot = d.I->getOperand(0)->getType()->isFloatTy() ? tF32() : tF64(); RV x = fixU(a[0], ot);
      if (!x.e) { double v = dOf(x.c, ot.k); bool sg = std::signbit(v); unsigned cls = std::isnan(v) ? 3 : std::isinf(v) ? (sg ? 4 : 512) : v == 0 ? (sg ? 32 : 64) : (sg ? 8 | 16 : 256 | 128); return ret(C((cls & m) != 0)); }
      if (REALT) { // NaN / inf never; sign classes
        bool fin = (m & 0x1f8) == 0x1f8; if (fin) return ret(C(1)); if (!(m & 0x1f8)) return ret(C(0)); throw PathAbort{"fpclass"}; }
      E e = x.e; E r = boolc(false); E nan = eF(O_FISNAN, e); E inf = eF(O_FEQ, eF(O_FABS, e), fpc(ot.k == T_F32 ? 0x7f800000ULL : 0x7ff0000000000000ULL, e->sort)); if ((m & 3) == 3) r = eOr(r, nan); else if (m & 3) throw PathAbort{"fpclass"}; if ((m & 516) == 516) r = eOr(r, inf); else if (m & 516) throw PathAbort{"fpclass"}; if ((m & 0x1f8) == 0x1f8) r = eOr(r, eNot(eOr(nan, inf))); else if (m & 0x1f8) throw PathAbort{"fpclass"}; return ret(X(r)); }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { u64 v = needC(s, a[0], t.w, "bit count"); u64 r = 0; if (d.intr == Intrinsic::ctpop) r = __builtin_popcountll(v & maskw(t.w)); else if (d.intr == Intrinsic::ctlz) { for (int i = t.w - 1; i >= 0 && !((v >> i) & 1); --i) r++; } else { for (int i = 0; i < t.w && !((v >> i) & 1); ++i) r++; } return ret(C(r)); }
    default: throw PathAbort{"intrinsic " + d.callee->getName().str()};
  }
}
static const std::map<std::string, Fn> mathFns = {{"exp", FN_EXP}, {"log", FN_LOG}, {"tanh", FN_TANH}, {"sqrt", FN_SQRT}, {"sin", FN_SIN}, {"cos", FN_COS}, {"log1p", FN_LOG1P}, {"expm1", FN_EXPM1}, {"floor", FN_FLOOR}, {"ceil", FN_CEIL}, {"erf", FN_ERF}, {"atan", FN_ATAN}, {"sinh", FN_SINH}, {"cosh", FN_COSH}, {"log2", FN_LOG2}, {"exp2", FN_EXP2}, {"log10", FN_LOG10}, {"trunc", FN_TRUNC}, {"round", FN_ROUND}, {"cbrt", FN_CBRT}, {"rint", FN_RINT}, {"nearbyint", FN_RINT}};
enum HK { H_NONE, H_STUB, H_STRSTUB, H_FN };
static std::unordered_map<Function*, int> handlerKind; // 0 unknown, 1 none, 2 named handler, 3 no-op stream/exception stub, 4 string-returning stub
static int kindOf(Function* F) {
  int& k = handlerKind[F]; if (k) return k; std::string n = F->getName().str();
  auto pre = [&](const char* p) { return n.rfind(p, 0) == 0; };
  if (pre("sym_") || pre("__cxa_") || pre("__kmpc") || pre("omp_") || pre("pthread_mutex_") || n == "malloc" || n == "free" || n == "calloc" || n == "realloc" || pre("_Znw") || pre("_Zna") || pre("_Zdl") || pre("_Zda") || n == "memcpy" || n == "memmove" || n == "memset" || n == "memcmp" || n == "bcmp" || n == "strlen" || n == "memchr" || n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__assert_fail" || pre("_ZSt21__glibcxx_assert_fail") || n == "atexit" || n == "fmod" || n == "fmodf" || pre("_ZSt18uncaught_exception") || n == "time" || n == "clock" || pre("_ZNSt6chrono3_V2") || n == "_ZNSt6thread20hardware_concurrencyEv" || n == "getenv" || n == "pow" || n == "powf" || n == "fabs" || n == "fabsf" || n == "fmax" || n == "fmaxf" || n == "fmin" || n == "fminf" || n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "nearbyint" || n == "hypot" || n == "hypotf" || n == "rand" || n == "srand" || n == "atan2f" || n == "ldexp" || n == "ldexpf") return k = 2;
  std::string base = n; if (!base.empty() && base.back() == 'f') { std::string b = base.substr(0, base.size() - 1); if (mathFns.count(b) && F->isDeclaration()) return k = 2; } if (mathFns.count(n) && F->isDeclaration()) return k = 2;
  bool ext = F->isDeclaration(); if (ext && has(n, "__throw_") && pre("_ZSt")) return k = 2; if (n == "__dynamic_cast") return k = 2;
  // stream formatting: no semantic content, stubbed
  if (n.rfind("_ZNSt7__cxx119to_stringE", 0) == 0 || has(n, "basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv") || has(n, "basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv") || has(n, "basic_stringbufIcSt11char_traitsIcESaIcEE3strEv")) return k = 4;
  if (has(n, "basic_ostringstream") || has(n, "basic_stringstream") || has(n, "basic_stringbuf") || pre("_ZNSo") || pre("_ZNKSo") || has(n, "RSt13basic_ostream") || has(n, "_ZNSt13basic_ostream") || has(n, "8ios_base") || pre("_ZStlsI") || pre("_ZSt4endl") || pre("_ZSt5flush") || has(n, "_ZNSt9basic_ios") || has(n, "_ZNKSt9basic_ios") || has(n, "basic_istringstream") || has(n, "_ZNSt6locale") || has(n, "_ZNSt15basic_streambuf") || has(n, "_ZStrsI")) { if (pre("_ZZ") || has(n, "Shape") && !has(n, "basic_ostream")) ; else return k = 3; }
  if (ext && (has(n, "_error") || has(n, "exception") || has(n, "invalid_argument") || has(n, "out_of_range") || has(n, "bad_") || has(n, "overflow") || has(n, "logic"))) return k = 3;
  return k = 1; }
static void emptyString(State& s, u64 p) { Ty P; P.k = T_PTR; P.w = 64; Ty I8; I8.k = T_INT; I8.w = 8; storePrim(s, p, C(p + 16), P); storePrim(s, p + 8, C(0), P); storePrim(s, p + 16, C(0), I8); }
static Ty TyI(int w) { Ty t; t.k = T_INT; t.w = w; return t; }

static std::vector<RV> termValues; // values printed as text tokens
static bool namedCall(State& s, DInst& d, Function* F, const std::vector<RV>& a) {
  std::string n = F->getName().str(); auto ret = [&](const RV& r) { advance(s, r); return true; };
  auto cs = [&](int i) { return cstr(s, a[i].c); };
  auto D = [&](int i) { if (a[i].e) throw PathAbort{"symbolic bound"}; return dOf(a[i].c, T_F64); };
  if (n.rfind("sym_", 0) == 0) {
    if (n == "sym_f32" || n == "sym_f64") { TK k = n == "sym_f32" ? T_F32 : T_F64; double lo = D(1), hi = D(2); if (REALT) return ret(X(inputE(s, cs(0), S_REAL, 0, k == T_F32 ? 3 : 4, true, lo, hi)));
      E e = inputE(s, cs(0), k == T_F32 ? S_F32 : S_F64, k == T_F32 ? 32 : 64, k == T_F32 ? 3 : 4, true, lo, hi); auto kc = [&](double v) { return fpc(bOf(v, k), e->sort); }; 
      // initial model inside the range
      Num nn; double st = (lo <= 1 && hi >= 1) ? 1 : (lo + hi) / 2; nn.bits = bOf(st, k); s.model[e->imm] = nn; if (!(std::isinf(lo) && std::isinf(hi))) { addPC(s, eF(O_FLE, kc(lo), e)); addPC(s, eF(O_FLE, e, kc(hi))); } else addPC(s, eNot(eF(O_FISNAN, e))); return ret(X(e)); }
    if (n == "sym_f32_any" || n == "sym_f64_any") { if (REALT) throw PathAbort{"sym_any needs the FP theory"}; bool f = n == "sym_f32_any"; E e = inputE(s, cs(0), f ? S_F32 : S_F64, f ? 32 : 64, f ? 3 : 4, false, 0, 0); return ret(X(e)); }
    if (n == "sym_i32" || n == "sym_i64" || n == "sym_u8" || n == "sym_pick") { int w = n == "sym_i64" ? 64 : n == "sym_u8" ? 8 : 32; i64 lo = (i64)a[1].c, hi = (i64)a[2].c; if (w == 32) { lo = sx(lo, 32); hi = sx(hi, 32); }
      std::string nm = cs(0); 
      if (n == "sym_pick") { // exhaustive case split over [lo, hi]
        int kk = s.nameCount[nm]; std::string key = nm + "#" + std::to_string(kk); E e = inputE(s, nm, S_BV, 32, 0, true, lo, hi); 
        for (i64 v = hi; v > lo; --v) { StateP o = cloneS(s); addPC(*o, eCmp(O_EQ, e, bvc(v, 32))); o->model[e->imm].bits = (u64)v & maskw(32); advance(*o, C((u64)v & maskw(32))); FORKS++; work.push_back(std::move(o)); }
        addPC(s, eCmp(O_EQ, e, bvc(lo, 32))); s.model[e->imm].bits = (u64)lo & maskw(32); return ret(C((u64)lo & maskw(32))); }
      E e = inputE(s, nm, S_BV, w, w == 32 ? 0 : w == 64 ? 1 : 2, true, (double)lo, (double)hi); if (w == 8) { if (lo > 0) addPC(s, eCmp(O_ULE, bvc(lo, w), e)); if (hi < 255) addPC(s, eCmp(O_ULE, e, bvc(hi, w))); } else { bool fullw = w == 32 ? (lo == INT32_MIN && hi == INT32_MAX) : (lo == INT64_MIN && hi == INT64_MAX); if (!fullw) { addPC(s, eCmp(O_SLE, bvc(lo, w), e)); addPC(s, eCmp(O_SLE, e, bvc(hi, w))); } } s.model[e->imm].bits = (u64)lo & maskw(w); return ret(X(e)); }
    if (n == "sym_assume") { RV c = a[0]; if (!c.e) { if (c.c & 1) return ret(RV()); KILLED++; throw PathEnd(); } E e = c.e->sort == S_BOOL ? c.e : eNot(eCmp(O_EQ, c.e, bvc(0, c.e->width))); if (!evalB(e, s.model)) { Model m = s.model; Res r = feasible(s, e, &m); if (r == R_UNSAT) { KILLED++; throw PathEnd(); } if (r == R_UNKNOWN) { auto vars = connectedVars(s, {e}); bool okk = false; for (int i = 0; i < 300 && !okk; ++i) { Model p = perturb(s, vars); if (evalB(e, p) && respects(s, p)) { m = p; okk = true; } } if (!okk) { markIncon("assumption undecided"); throw PathEnd(); } } s.model = m; } addPC(s, e); return ret(RV()); }
    if (n == "sym_assert") { RV c = a[0]; s.nAsserts++; std::string msg = cs(1); E e = c.e ? (c.e == UNINIT ? freshUndef(TyI(1)).e : (c.e->sort == S_BOOL ? c.e : eNot(eCmp(O_EQ, c.e, bvc(0, c.e->width))))) : boolc(c.c & 1); obligation(s, e, msg); return ret(RV()); }
    if (n == "sym_check_eq_f32" || n == "sym_check_eq_f64") { TK k = n == "sym_check_eq_f32" ? T_F32 : T_F64; Ty t = k == T_F32 ? tF32() : tF64(); s.nAsserts++; std::string msg = cs(2); RV p = fixU(a[0], t), q = fixU(a[1], t); if (s.obs.size() < 64) s.obs.push_back({msg, {p, t}});
      if (!p.e && !q.e) { OBL++; bool same = dOf(p.c, k) == dOf(q.c, k) || (std::isnan(dOf(p.c, k)) && std::isnan(dOf(q.c, k))); if (!REALT) same = same && std::signbit(dOf(p.c, k)) == std::signbit(dOf(q.c, k)); if (same) { OBL_CONST++; return ret(RV()); } report(s, "assert", msg); return ret(RV()); }
      if (REALT) { for (const RV* v : {&p, &q}) if (!v->e && !std::isfinite(dOf(v->c, k))) { OBL++; report(s, "assert", msg + " (non-finite value)"); return ret(RV()); } obligationEqReal(s, toE(p, t), toE(q, t), msg); }
      else { E x = toE(p, t), y = toE(q, t); if (x == y) { OBL++; OBL_SYNT++; s.eqs.push_back({x, y}); } else { E bothNan = eAnd(eF(O_FISNAN, x), eF(O_FISNAN, y)); E c = eOr(bothNan, mk(O_EQ, S_BOOL, 1, 0, x, y)); obligation(s, c, msg); } }
      return ret(RV()); }
    if (n == "sym_grad_f32" || n == "sym_grad_f64") { TK k = n == "sym_grad_f32" ? T_F32 : T_F64; Ty t = k == T_F32 ? tF32() : tF64(); if (!REALT) throw PathAbort{"gradient outside the real theory"}; E y = toE(fixU(a[0], t), t), x = toE(a[1], t); if (x->op != O_VAR) throw PathAbort{"gradient with respect to a non-input"}; E g = derivative(y, x); std::string nm = cs(2); int kk = s.nameCount["grad:" + nm]++; s.grads.push_back({nm + "#" + std::to_string(kk), g}); return ret(X(g)); }
    if (n == "sym_observe") { std::string nm = cs(0); RV p = a[1]; if (s.obs.size() < 64) s.obs.push_back({nm, {p, tF64()}}); return ret(RV()); }
    if (n == "sym_cover") { std::string nm = cs(0); covers[nm]++; return ret(RV()); }
    if (n == "sym_term_id") { static std::map<std::pair<E, u64>, u64> ids; RV v = fixU(a[0], tF64()); u64& id = ids[{v.e, v.e ? 0 : v.c}]; if (!id) { termValues.push_back(v); id = termValues.size(); } return ret(C(id)); }
    if (n == "sym_term_value") { u64 id = needC(s, a[0], 64, "text token"); if (!id || id > termValues.size()) fail(s, "memory", "a number token that was never printed"); return ret(termValues[id - 1]); }
    if (n == "sym_precise") { PRECISE = true; return ret(RV()); }
    if (n == "sym_is_symbolic") return ret(C(1));
    if (n == "sym_native") return ret(C(0));
    if (n == "sym_fail") { fail(s, "assert", cs(0)); }
    throw PathAbort{"unknown harness function " + n}; }
  auto alloc = [&](u8 fn) { u64 sz = needC(s, a[0], 64, "allocation size"); if (sz > (256u << 20)) { throwStd(s, "_ZTISt9bad_alloc"); return true; } return ret(C(doAlloc(s, sz, fn))); };
  if (n.rfind("_Znwm", 0) == 0) return alloc(1); if (n.rfind("_Znam", 0) == 0) return alloc(2); if (n == "malloc") return alloc(3);
  if (n == "calloc") { u64 sz = a[0].c * a[1].c; return ret(C(doAlloc(s, sz, 3, false))); }
  if (n.rfind("_Zdl", 0) == 0) { doFree(s, needC(s, a[0], 64, "pointer"), 1); return ret(RV()); } if (n.rfind("_Zda", 0) == 0) { doFree(s, needC(s, a[0], 64, "pointer"), 2); return ret(RV()); } if (n == "free") { doFree(s, needC(s, a[0], 64, "pointer"), 3); return ret(RV()); }
  if (n == "memcpy" || n == "memmove") { u64 k = needC(s, a[2], 64, "length"); copyMem(s, a[0].c, a[1].c, k); return ret(a[0]); }
  if (n == "memset") { DInst t = d; t.intr = Intrinsic::memset; u64 k = needC(s, a[2], 64, "length"); for (u64 i = 0; i < k; ++i) storePrim(s, a[0].c + i, C(a[1].c & 255), TyI(8)); return ret(a[0]); }
  if (n == "memcmp" || n == "bcmp") { u64 k = needC(s, a[2], 64, "length"); for (u64 i = 0; i < k; ++i) { RV x = loadPrim(s, a[0].c + i, TyI(8)), y = loadPrim(s, a[1].c + i, TyI(8)); E p = toE(x, TyI(8)), q = toE(y, TyI(8)); if (!decide(s, eCmp(O_EQ, p, q))) return ret(C(decide(s, eCmp(O_ULT, p, q)) ? 0xffffffffu : 1)); } return ret(C(0)); }
  if (n == "strlen") { return ret(C(cstr(s, a[0].c).size())); }
  if (n == "memchr") { u64 k = a[2].c; for (u64 i = 0; i < k; ++i) { RV x = loadPrim(s, a[0].c + i, TyI(8)); if (decide(s, eCmp(O_EQ, toE(x, TyI(8)), bvc(a[1].c & 255, 8)))) return ret(C(a[0].c + i)); } return ret(C(0)); }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__cxa_call_terminate") fail(s, "terminate", "the program terminates (std::terminate / abort)");
  if (n == "exit" || n == "_exit") fail(s, "terminate", "exit called");
  if (n == "__assert_fail") fail(s, "assertion", "assert() fails: " + cs(0));
  if (n.rfind("_ZSt21__glibcxx_assert_fail", 0) == 0) fail(s, "memory", "library precondition violated: " + (a.size() > 3 ? cs(3) : std::string()));
  if (n.rfind("_ZSt18uncaught_exception", 0) == 0) return ret(C(0));
  if (n == "atexit" || n == "__cxa_atexit" || n == "__cxa_thread_atexit") return ret(C(0));
  if (n == "__cxa_guard_acquire") { s.omp.guard++; RV g = loadPrim(s, a[0].c, TyI(8)); if (g.c) s.omp.guard--; return ret(C(g.c ? 0 : 1)); } if (n == "__cxa_guard_release") { storePrim(s, a[0].c, C(1), TyI(8)); if (s.omp.guard) s.omp.guard--; return ret(RV()); } if (n == "__cxa_guard_abort") { if (s.omp.guard) s.omp.guard--; return ret(RV()); }
  if (n == "__cxa_allocate_exception") { return ret(C(doAlloc(s, std::max<u64>(a[0].c, 16), 9))); } if (n == "__cxa_free_exception") { return ret(RV()); }
  if (n == "__cxa_throw") { s.excObj = a[0].c; s.excType = a[1].c; s.excTypeOf[a[0].c] = a[1].c; unwind(s); return true; }
  if (n == "__cxa_begin_catch") { s.caught.push_back({a[0].c, s.excTypeOf[a[0].c]}); return ret(a[0]); } if (n == "__cxa_get_exception_ptr") return ret(a[0]);
  if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return ret(RV()); }
  if (n == "__cxa_rethrow") { if (s.caught.empty()) fail(s, "terminate", "rethrow without exception"); auto c = s.caught.back(); s.excObj = c.first; s.excType = c.second; unwind(s); return true; }
  if (n == "__cxa_pure_virtual" || n == "__cxa_deleted_virtual") fail(s, "terminate", "pure virtual call"); if (n == "__cxa_bad_cast") { throwStd(s, "_ZTISt8bad_cast"); return true; } if (n == "__cxa_throw_bad_array_new_length") { throwStd(s, "_ZTISt20bad_array_new_length"); return true; }
  if (n.rfind("_ZSt", 0) == 0 && has(n, "__throw_")) { static const std::vector<std::pair<const char*, const char*>> tw = {{"out_of_range", "_ZTISt12out_of_range"}, {"length_error", "_ZTISt12length_error"}, {"logic_error", "_ZTISt11logic_error"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"domain_error", "_ZTISt12domain_error"}, {"range_error", "_ZTISt11range_error"}, {"overflow_error", "_ZTISt14overflow_error"}, {"underflow_error", "_ZTISt15underflow_error"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_cast", "_ZTISt8bad_cast"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_optional_access", "_ZTISt19bad_optional_access"}}; for (auto& p : tw) if (has(n, p.first)) { throwStd(s, p.second); return true; } throw PathAbort{"external function " + n}; }
  if (n == "__dynamic_cast") { // single inheritance: the object's dynamic type either derives from the target or it does not
    u64 p = needC(s, a[0], 64, "pointer"), dst = a[2].c; if (!p) return ret(C(0)); Ty P; P.k = T_PTR; P.w = 64; u64 vt = needC(s, loadPrim(s, p, P), 64, "virtual table"), top = needC(s, loadPrim(s, vt - 16, P), 64, "offset to top"), ti = needC(s, loadPrim(s, vt - 8, P), 64, "type"); if (top) throw PathAbort{"dynamic_cast from a secondary base"}; return ret(C(tiDerives(s, ti, dst) ? p : 0)); }
  if (n == "pow" || n == "powf") return ret(fPow(s, a[0], a[1], n == "pow" ? tF64() : tF32()));
  if (n == "fmod" || n == "fmodf") return ret(fMod(s, a[0], a[1], d.ty));
  if (n == "fabs" || n == "fabsf") return ret(fAbs(s, a[0], d.ty)); if (n == "fmax" || n == "fmaxf" || n == "fmin" || n == "fminf") { bool mx = n[2] == 'a'; if (!REALT) { if (truth(s, fCmp(s, 8, a[0], a[0], d.ty))) return ret(a[1]); if (truth(s, fCmp(s, 8, a[1], a[1], d.ty))) return ret(a[0]); } bool lt = truth(s, fCmp(s, 4, a[0], a[1], d.ty)); return ret(lt == mx ? a[1] : a[0]); }
  if (n == "hypot" || n == "hypotf") { Ty t = d.ty; return ret(fFun(s, FN_SQRT, fArith(s, O_FADD, O_RADD, fArith(s, O_FMUL, O_RMUL, a[0], a[0], t), fArith(s, O_FMUL, O_RMUL, a[1], a[1], t), t), t)); }
  { std::string b = n; bool f32 = false; auto it = mathFns.find(b); if (it == mathFns.end() && b.back() == 'f') { it = mathFns.find(b.substr(0, b.size() - 1)); f32 = true; } if (it != mathFns.end()) return ret(fFun(s, it->second, a[0], f32 ? tF32() : tF64())); }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush") return ret(C(0));
  if (n == "omp_get_max_threads" || n == "omp_get_num_procs") return ret(C(s.omp.want ? s.omp.want : OMP_T)); if (n == "omp_get_num_threads") return ret(C(s.omp.active && !s.omp.nest ? s.omp.nthreads : 1)); if (n == "omp_get_thread_num") return ret(C(s.omp.active && !s.omp.nest ? s.omp.cur : 0)); if (n == "omp_set_num_threads") { u64 k = needC(s, a[0], 32, "thread count"); s.omp.want = (u32)std::min<u64>(std::max<u64>(k, 1), 4000); return ret(RV()); } if (n == "omp_get_level" || n == "omp_get_active_level") return ret(C(s.omp.active)); if (n == "omp_set_dynamic" || n == "omp_set_nested") return ret(RV()); if (n == "omp_get_wtime") return ret(C(0)); if (n == "omp_in_parallel") return ret(C(s.omp.active));
  if (n == "pthread_mutex_lock" || n == "omp_set_lock" || n == "omp_set_nest_lock") { s.omp.lockDepth++; return ret(C(0)); } if (n == "pthread_mutex_unlock" || n == "omp_unset_lock" || n == "omp_unset_nest_lock") { if (s.omp.lockDepth) s.omp.lockDepth--; return ret(C(0)); } if (n == "pthread_mutex_init" || n == "pthread_mutex_destroy" || n == "omp_init_lock" || n == "omp_destroy_lock") return ret(C(0));
  if (n.rfind("__kmpc", 0) == 0) {
    if (n == "__kmpc_fork_call") { ompFork(s, d, a); return true; } if (n == "__kmpc_global_thread_num") return ret(C(s.omp.active && !s.omp.nest ? s.omp.cur : 0)); if (n == "__kmpc_push_num_threads" || n == "__kmpc_for_static_fini" || n == "__kmpc_serialized_parallel" || n == "__kmpc_end_serialized_parallel" || n == "__kmpc_flush") return ret(RV());
    if (n == "__kmpc_barrier") { ret(RV()); if (s.omp.active && !s.omp.nest) ompBarrier(s); return true; }
    if (n.rfind("__kmpc_for_static_init_", 0) == 0) { // (loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk)
      int w = (n.back() == '8' || n.substr(n.size() - 2) == "8u") ? 64 : 32; Ty t = TyI(w); bool un = n.back() == 'u'; u64 lo = needC(s, loadPrim(s, a[4].c, t), w, "omp"), hi = needC(s, loadPrim(s, a[5].c, t), w, "omp"); i64 l = un ? (i64)lo : sx(lo, w), h = un ? (i64)hi : sx(hi, w); i64 trip = h - l + 1; if (trip < 0) trip = 0; u32 T = s.omp.active && !s.omp.nest ? s.omp.nthreads : 1, me = s.omp.active && !s.omp.nest ? s.omp.cur : 0; i64 small = trip / T, ex = trip % T; i64 mylo = l + (i64)me * small + std::min<i64>(me, ex), cnt = small + ((i64)me < ex ? 1 : 0); storePrim(s, a[4].c, C((u64)mylo & maskw(w)), t); storePrim(s, a[5].c, C((u64)(mylo + cnt - 1) & maskw(w)), t); storePrim(s, a[6].c, C((u64)trip & maskw(w)), t); storePrim(s, a[3].c, C(cnt > 0 && mylo + cnt - 1 == h), TyI(32)); return ret(RV()); }
    if (n == "__kmpc_critical" || n == "__kmpc_critical_with_hint") { s.omp.lockDepth++; return ret(RV()); } if (n == "__kmpc_end_critical") { s.omp.lockDepth--; return ret(RV()); }
    if (n == "__kmpc_reduce_nowait" || n == "__kmpc_reduce") { s.omp.lockDepth++; return ret(C(1)); } if (n == "__kmpc_end_reduce_nowait" || n == "__kmpc_end_reduce") { s.omp.lockDepth--; return ret(RV()); }
    if (n.rfind("__kmpc_dispatch_init_", 0) == 0) { // (loc, gtid, sched, lb, ub, st, chunk): which thread runs an iteration does not matter for the conflict check; with at least as many threads as iterations each has its own
      int w = n.find("_8") != std::string::npos ? 64 : 32; i64 lo = sx(needC(s, a[3], w, "omp"), w), hi = sx(needC(s, a[4], w, "omp"), w), st = sx(needC(s, a[5], w, "omp"), w); u32 T = s.omp.active && !s.omp.nest ? s.omp.nthreads : 1, me = s.omp.active && !s.omp.nest ? s.omp.cur : 0; if (st == 0) throw PathAbort{"OpenMP stride"}; i64 trip = st > 0 ? (hi >= lo ? (hi - lo) / st + 1 : 0) : (lo >= hi ? (lo - hi) / -st + 1 : 0); i64 small = trip / T, ex = trip % T, b = (i64)me * small + std::min<i64>(me, ex), cnt = small + ((i64)me < ex ? 1 : 0);
      s.omp.disp = std::make_shared<std::map<u32, std::pair<u64, u64>>>(); if (cnt > 0) (*s.omp.disp)[me] = {(u64)(lo + b * st), (u64)(lo + (b + cnt - 1) * st)}; return ret(RV()); }
    if (n.rfind("__kmpc_dispatch_next_", 0) == 0) { // (loc, gtid, plast, plower, pupper, pstride)
      int w = n.find("_8") != std::string::npos ? 64 : 32; Ty t = TyI(w); u32 me = s.omp.active && !s.omp.nest ? s.omp.cur : 0; if (!s.omp.disp || !s.omp.disp->count(me)) return ret(C(0)); auto pr = (*s.omp.disp)[me]; s.omp.disp.reset(); storePrim(s, a[2].c, C(1), TyI(32)); storePrim(s, a[3].c, C(pr.first & maskw(w)), t); storePrim(s, a[4].c, C(pr.second & maskw(w)), t); storePrim(s, a[5].c, C(1), t); return ret(C(1)); }
    if (n.rfind("__kmpc_dispatch_fini", 0) == 0 || n == "__kmpc_dispatch_deinit" || n == "__kmpc_end_single" || n == "__kmpc_end_master" || n == "__kmpc_end_masked") return ret(RV()); if (n == "__kmpc_master" || n == "__kmpc_masked" || n == "__kmpc_single") return ret(C(!s.omp.active || s.omp.nest || s.omp.cur == 0));
    throw PathAbort{"OpenMP runtime call " + n}; }
  if (n == "time" || n == "clock" || n == "getenv" || n.rfind("_ZNSt6chrono3_V2", 0) == 0) return ret(C(0)); if (n == "_ZNSt6thread20hardware_concurrencyEv") return ret(C(8));
  throw PathAbort{"external function " + n};
}
static void ompStart(State& s, u32 t) { // run the outlined region as logical thread t
  s.omp.cur = t; u32 g = s.mem.alloc(4, K_STACK, false); Obj* o = s.mem.wr(g); memcpy(&o->b->c[0], &t, 4); o->birthThread = s.omp.stamp(); std::vector<RV> args{C(addrOf(g)), C(addrOf(g))}; for (auto& v : s.omp.args) args.push_back(v); Function* F = objFunc.at(idOf(s.omp.fn)); callF(s, F, args); s.st.back().mode = 2; s.st.back().allocas.push_back(g); }
static void ompFork(State& s, DInst& d, const std::vector<RV>& a) { (void)d; if (s.omp.active) { // nested regions run on a team of one thread, OpenMP's default
    u32 z = 0, g = s.mem.alloc(4, K_STACK, false); Obj* o = s.mem.wr(g); memcpy(&o->b->c[0], &z, 4); o->birthThread = s.omp.stamp(); std::vector<RV> args{C(addrOf(g)), C(addrOf(g))}; args.insert(args.end(), a.begin() + 3, a.end()); s.omp.nest++; callF(s, objFunc.at(idOf(a[2].c)), args); s.st.back().mode = 3; s.st.back().allocas.push_back(g); return; }
  s.omp.active = true; ++s.omp.region; s.omp.nthreads = s.omp.want ? s.omp.want : OMP_T; s.omp.disp.reset(); s.omp.fn = a[2].c; s.omp.args.assign(a.begin() + 3, a.end()); s.omp.lockDepth = 0; s.omp.base = s.st.size(); s.omp.saved.clear(); s.omp.started = 1; s.acc.clear(); ompStart(s, 0); }
static void ompConflicts(State& s) { // accesses since the last barrier
  std::sort(s.acc.begin(), s.acc.end(), [](const AccessRec& x, const AccessRec& y) { return x.lo < y.lo; }); OBL++; bool bad = false;
  // sweep with a per-byte summary
  struct Set1 { u32 t = 0; u8 n = 0; void add(u32 x) { if (!n) { t = x; n = 1; } else if (t != x) n = 2; } bool other(u32 x) const { return n == 2 || (n == 1 && t != x); } }; struct By { Set1 w, r, lw, lr; };
  std::unordered_map<u64, By> by; for (auto& r : s.acc) for (u32 i = 0; i < r.len && !bad; ++i) { By& e = by[r.lo + i]; bad = e.w.other(r.thr) || (r.w && e.r.other(r.thr)) || (!r.locked && (e.lw.other(r.thr) || (r.w && e.lr.other(r.thr)))); (r.locked ? (r.w ? e.lw : e.lr) : (r.w ? e.w : e.r)).add(r.thr); }
  s.acc.clear(); if (bad) { report(s, "race", "two iterations of a parallel region access the same memory and one writes"); } else OBL_CONST++; s.nAsserts++; }
static bool ompResume(State& s, u32 from) { for (u32 t = from; t < s.omp.saved.size(); ++t) if (!s.omp.saved[t].empty()) { for (auto& f : s.omp.saved[t]) s.st.push_back(std::move(f)); s.omp.saved[t].clear(); s.omp.cur = t; return true; } return false; }
static bool ompNext(State& s) { // the current logical thread stopped (at a barrier or for good): let another one run
  if (s.omp.started < s.omp.nthreads) { ompStart(s, s.omp.started++); return true; }
  if (ompResume(s, s.omp.cur + 1)) return true;
  ompConflicts(s); return ompResume(s, 0); }
static void ompBarrier(State& s) { if (s.omp.nthreads < 2) return; u32 me = s.omp.cur; if (s.omp.lockDepth) throw PathAbort{"OpenMP barrier inside a critical section"}; s.omp.saved.resize(s.omp.nthreads); s.omp.saved[me].assign(std::make_move_iterator(s.st.begin() + s.omp.base), std::make_move_iterator(s.st.end())); s.st.resize(s.omp.base, Frame{nullptr}); s.omp.disp.reset(); ompNext(s); }
static void ompThreadDone(State& s) { // called after the region frame of one logical thread returned
  if (ompNext(s)) return;
  s.omp.active = false; s.omp.saved.clear(); advance(s, RV()); }

// ---------------------------------------------------------------- one step
static bool step(State& s);
static void doCall(State& s, DInst& d) {
  std::vector<RV> a; a.reserve(d.o.size()); for (auto& o : d.o) a.push_back(val(s, o)); Function* F = d.callee;
  if (d.aux == 2) { auto* ia = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand()); if (ia->getAsmString().empty()) { advance(s, RV(), false); return; } throw PathAbort{"inline assembly"}; }
  if (d.aux == 1) { RV fp = a.back(); a.pop_back(); u64 p = needC(s, fp, 64, "function pointer"); auto it = objFunc.find(idOf(p)); if (it == objFunc.end() || p < 0x10000 || offOf(p, idOf(p)) != 0) fail(s, "memory", "call through an invalid function pointer"); F = it->second; }
  if (d.intr >= 0 && d.intr != Intrinsic::not_intrinsic) { intrinsicCall(s, d, a); return; }
  int k = kindOf(F); if (k == 2) { namedCall(s, d, F, a); return; }
  if (k == 3) { RV r = (d.ty.k == T_PTR && !a.empty()) ? a[0] : C(0); if (d.ty.k == T_INT && (F->getName().contains("_ZNKSt9basic_ios") || F->getName().contains("good"))) r = C(0); advance(s, r); return; }
  if (k == 4) { u64 p = F->arg_size() && F->getArg(0)->hasStructRetAttr() ? a[0].c : 0; if (p) emptyString(s, p); else throw PathAbort{"string stub"}; advance(s, RV(), false); return; }
  if (F->isDeclaration()) throw PathAbort{"external function " + F->getName().str()};
  callF(s, F, a);
}
static bool step(State& s) {
  Frame& f = s.st.back(); DInst& d = f.f->code[f.pc]; INSTR++; s.steps++;
  auto V = [&](int i) -> const RV& { const Opnd& o = d.o[i]; return o.reg >= 0 ? f.regs[o.reg] : o.tls ? tlsRV(s, o) : o.k; };
  auto set = [&](RV r) { f.regs[d.dst] = std::move(r); f.pc++; };
  auto vecMap2 = [&](auto fn) { Type* et = elemTy(d.ty.t, 0); Ty t = tyOf(et); RV x = V(0), y = V(1); RV r; r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < nElems(d.ty.t); ++i) r.agg->push_back(fn(x.agg ? (*x.agg)[i] : x, y.agg ? (*y.agg)[i] : y, t)); return r; };
  switch (d.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      static const std::map<unsigned, Op> mp = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
      if (d.ty.k == T_AGG) { if (!isa<FixedVectorType>(d.ty.t)) throw PathAbort{"wide integer arithmetic"}; Op op = mp.at(d.op); set(vecMap2([&](const RV& x, const RV& y, const Ty& t) { return X(eBin(op, toE(fixU(x, t), t), toE(fixU(y, t), t))); })); return true; }
      const RV &a = V(0), &b = V(1); int w = d.ty.w;
      if (!a.e && !b.e) { u64 x = a.c, y = b.c, r; switch (d.op) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; case Instruction::Shl: r = y >= (u64)w ? 0 : x << y; break; case Instruction::LShr: r = y >= (u64)w ? 0 : (x & maskw(w)) >> y; break; case Instruction::AShr: r = y >= (u64)w ? (sx(x, w) < 0 ? ~0ULL : 0) : (u64)(sx(x, w) >> y); break;
          default: { x &= maskw(w); y &= maskw(w); if (!y) fail(s, "arithmetic", "integer division by zero"); i64 p = sx(x, w), q = sx(y, w); if (d.op == Instruction::UDiv) r = x / y; else if (d.op == Instruction::URem) r = x % y; else { if (q == -1 && p == sx(1ULL << (w - 1), w)) fail(s, "arithmetic", "signed division overflow"); r = d.op == Instruction::SDiv ? (u64)(p / q) : (u64)(p % q); } } } set(C(r & maskw(w))); return true; }
      E x = toE(fixU(a, d.ty), d.ty), y = toE(fixU(b, d.ty), d.ty); Op op = mp.at(d.op); if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) { if (decide(s, eCmp(O_EQ, y, bvc(0, w)))) fail(s, "arithmetic", "integer division by zero"); if ((op == O_SDIV || op == O_SREM) && !isC(y)) { E ov = eAnd(eCmp(O_EQ, x, bvc(1ULL << (w - 1), w)), eCmp(O_EQ, y, bvc(~0ULL, w))); if (decide(s, ov)) fail(s, "arithmetic", "signed division overflow"); } }
      set(X(eBin(op, x, y))); return true; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Op fo = d.op == Instruction::FAdd ? O_FADD : d.op == Instruction::FSub ? O_FSUB : d.op == Instruction::FMul ? O_FMUL : O_FDIV, ro = d.op == Instruction::FAdd ? O_RADD : d.op == Instruction::FSub ? O_RSUB : d.op == Instruction::FMul ? O_RMUL : O_RDIV;
      if (d.ty.k == T_AGG) { if (!isa<FixedVectorType>(d.ty.t)) throw PathAbort{"long double arithmetic"}; set(vecMap2([&](const RV& x, const RV& y, const Ty& t) { return fArith(s, fo, ro, x, y, t); })); return true; }
      RV r = fArith(s, fo, ro, V(0), V(1), d.ty); s.st.back().regs[d.dst] = r; s.st.back().pc++; return true; }
    case Instruction::FRem: { const RV &a = V(0), &b = V(1); if (a.e || b.e) { set(fMod(s, a, b, d.ty)); return true; } set(C(bOf(::fmod(dOf(a.c, d.ty.k), dOf(b.c, d.ty.k)), d.ty.k))); return true; }
    case Instruction::FNeg: set(fNeg(V(0), d.ty)); return true;
    case Instruction::ICmp: { if (d.oty.k == T_AGG) throw PathAbort{"vector compare"}; const RV &a = V(0), &b = V(1); int w = d.oty.w; unsigned p = d.aux;
      if (!a.e && !b.e) { u64 x = a.c & maskw(w), y = b.c & maskw(w); i64 i = sx(x, w), j = sx(y, w); bool r; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = i > j; break; case CmpInst::ICMP_SGE: r = i >= j; break; case CmpInst::ICMP_SLT: r = i < j; break; default: r = i <= j; } set(C(r)); return true; }
      E x = toE(fixU(a, d.oty), d.oty), y = toE(fixU(b, d.oty), d.oty); E r; switch (p) { case CmpInst::ICMP_EQ: r = eCmp(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = eNot(eCmp(O_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = eCmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = eCmp(O_ULE, y, x); break; case CmpInst::ICMP_ULT: r = eCmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = eCmp(O_ULE, x, y); break; case CmpInst::ICMP_SGT: r = eCmp(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = eCmp(O_SLE, y, x); break; case CmpInst::ICMP_SLT: r = eCmp(O_SLT, x, y); break; default: r = eCmp(O_SLE, x, y); } set(X(r)); return true; }
    case Instruction::FCmp: if (d.oty.k == T_AGG) throw PathAbort{"vector/long double compare"}; set(fCmp(s, d.aux, V(0), V(1), d.oty)); return true;
    case Instruction::Alloca: { u64 n = needC(s, V(0), 64, "alloca count"); u32 id = s.mem.alloc(d.aux * n, K_STACK, true); if (s.omp.active) s.mem.wr(id)->birthThread = s.omp.stamp(); s.st.back().allocas.push_back(id); s.st.back().regs[d.dst] = C(addrOf(id)); s.st.back().pc++; return true; }
    case Instruction::Load: { u64 n = DL->getTypeStoreSize(d.I->getType()); u64 a = concretizeAddr(s, V(0), n, false); bool at = d.I->isAtomic(); if (at) s.omp.lockDepth++; RV r = loadTy(s, a, d.I->getType()); if (at) s.omp.lockDepth--; Frame& g = s.st.back(); g.regs[d.dst] = r; g.pc++; return true; }
    case Instruction::Store: { Type* t = d.I->getOperand(0)->getType(); u64 a = concretizeAddr(s, V(1), DL->getTypeStoreSize(t), true); bool at = d.I->isAtomic(); if (at) s.omp.lockDepth++; storeTy(s, a, V(0), t); if (at) s.omp.lockDepth--; f.pc++; return true; }
    case Instruction::GetElementPtr: { const RV& b = V(0); if (b.agg) throw PathAbort{"vector gep"}; u64 c = d.aux; E e = nullptr; if (b.e) { if (b.e == UNINIT) fail(s, "memory", "arithmetic on an uninitialised pointer"); e = b.e; } else c += b.c; for (auto& g : d.gep) { const RV& ix = d.o[g.second].reg >= 0 ? f.regs[d.o[g.second].reg] : d.o[g.second].k; int w = (int)cast<GetElementPtrInst>(d.I)->getOperand(1)->getType()->getIntegerBitWidth(); w = (int)d.o[g.second].k.c; if (!ix.e) c += g.first * (u64)sx(ix.c, w); else { RV u = fixU(ix, TyI(w)); E t = eSext(u.e, 64); if (g.first != 1) t = eBin(O_MUL, t, bvc(g.first, 64)); e = e ? eBin(O_ADD, e, t) : t; } } if (!e) set(C(c)); else set(X(eBin(O_ADD, e, bvc(c, 64)))); return true; }
    case Instruction::Trunc: { const RV& a = V(0); if (d.oty.k == T_VOID || d.ty.k == T_AGG) throw PathAbort{"wide trunc"}; if (!a.e) set(C(a.c & maskw(d.ty.w))); else set(X(eExtract(fixU(a, d.oty).e, d.ty.w - 1, 0))); return true; }
    case Instruction::ZExt: { if (d.ty.k == T_AGG) throw PathAbort{"wide zext"}; const RV& a = V(0); if (!a.e) set(C(a.c & maskw(d.oty.w))); else set(X(eZext(fixU(a, d.oty).e, d.ty.w))); return true; }
    case Instruction::SExt: { if (d.ty.k == T_AGG) throw PathAbort{"wide sext"}; const RV& a = V(0); if (!a.e) set(C((u64)sx(a.c, d.oty.w) & maskw(d.ty.w))); else set(X(eSext(fixU(a, d.oty).e, d.ty.w))); return true; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: { if (d.op == Instruction::Freeze && V(0).e == UNINIT) { set(freshUndef(d.ty)); return true; } if (d.op == Instruction::PtrToInt && d.ty.w < 64) { const RV& a = V(0); if (a.e) set(X(eExtract(a.e, d.ty.w - 1, 0))); else set(C(a.c & maskw(d.ty.w))); return true; } set(V(0)); return true; }
    case Instruction::BitCast: { if (d.ty.k == d.oty.k) { set(V(0)); return true; } const RV& a = V(0); if (d.ty.k == T_AGG || d.oty.k == T_AGG) { u32 id = s.mem.alloc(16, K_STACK, true); storeTy(s, addrOf(id), a, d.oty.t); RV r = loadTy(s, addrOf(id), d.ty.t); f.regs[d.dst] = r; f.pc++; return true; } if (!a.e) { set(a); return true; } E e = fixU(a, d.oty).e; bool toF = d.ty.k == T_F32 || d.ty.k == T_F64; if (toF) { if (e->op == O_RBITS || e->op == O_FTOBV) set(X(e->a)); else if (REALT) throw PathAbort{"bitcast of integer to real"}; else set(X(mk(O_FFROMBV, d.ty.k == T_F32 ? S_F32 : S_F64, d.ty.w, 0, e))); } else { if (e->sort == S_REAL) set(X(mk(O_RBITS, S_BV, d.ty.w, 0, e))); else set(X(e->op == O_FFROMBV ? e->a : mk(O_FTOBV, S_BV, d.ty.w, 0, e))); } return true; }
    case Instruction::FPExt: case Instruction::FPTrunc: { if (d.ty.k == T_AGG || d.oty.k == T_AGG || d.oty.k == T_VOID) throw PathAbort{"long double conversion"}; const RV& a0 = V(0); RV a = fixU(a0, d.oty); if (!a.e) { double v = dOf(a.c, d.oty.k); double r = d.ty.k == T_F32 ? (double)(float)v : v; if (REALT && PRECISE) { set(C(bOf(r, d.ty.k))); return true; } if (REALT && std::isfinite(v) && r != v) set(X(rc(mpq_class(v)))); else set(C(bOf(v, d.ty.k))); } else if (REALT && PRECISE && d.ty.k == T_F32 && d.oty.k == T_F64) { set(X(narrowed(a.e))); } else if (REALT) set(a); else set(X(eFcvt(a.e, d.ty.k == T_F32 ? S_F32 : S_F64))); return true; }
    case Instruction::SIToFP: case Instruction::UIToFP: { if (d.ty.k == T_AGG) throw PathAbort{"long double conversion"}; RV a = fixU(V(0), d.oty); bool sg = d.op == Instruction::SIToFP; if (!a.e) { mpz_class z; double v; if (sg) { i64 i = sx(a.c, d.oty.w); v = d.ty.k == T_F32 ? (double)(float)i : (double)i; mpz_set_si(z.get_mpz_t(), i); } else { u64 u = a.c & maskw(d.oty.w); v = d.ty.k == T_F32 ? (double)(float)u : (double)u; mpz_set_ui(z.get_mpz_t(), u); } if (REALT && mpq_class(v) != mpq_class(z)) set(X(rc(mpq_class(z)))); else set(C(bOf(v, d.ty.k))); }
      else if (REALT) set(X(mk(sg ? O_RSI : O_RUI, S_REAL, 0, 0, a.e->sort == S_BOOL ? eZext(a.e, 8) : a.e))); else set(X(mk(sg ? O_SI2F : O_UI2F, d.ty.k == T_F32 ? S_F32 : S_F64, d.ty.w, 0, a.e->sort == S_BOOL ? eZext(a.e, 8) : a.e))); return true; }
    case Instruction::FPToSI: case Instruction::FPToUI: { if (d.oty.k == T_VOID) throw PathAbort{"long double conversion"}; RV a = fixU(V(0), d.oty); if (a.e && a.e->op == O_RCONST) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), a.e->q->get_num_mpz_t(), a.e->q->get_den_mpz_t()); set(C((u64)(i64)z.get_si() & maskw(d.ty.w))); return true; } if (!a.e) { double v = dOf(a.c, d.oty.k); u64 r = d.op == Instruction::FPToSI ? (std::fabs(v) < 9.2e18 ? (u64)(i64)v : 1ULL << 63) : (v > -1 && v < 1.8e19 ? (u64)v : 0); set(C(r & maskw(d.ty.w))); } else if (REALT) { if (a.e->op == O_RSI && a.e->a->width <= d.ty.w) { set(X(eSext(a.e->a, d.ty.w))); return true; } // every integer part the value can have is its own path
          long double x = Evaluator(s.model).eval(a.e).r; if (!(fabsl(x) < 1e6L)) throw PathAbort{"real to integer conversion"}; long k = (long)truncl(x); E c = eAnd(k > 0 ? eRcmp(O_RLE, rc(mpq_class(k)), a.e) : eRcmp(O_RLT, rc(mpq_class(k - 1)), a.e), k < 0 ? eRcmp(O_RLE, a.e, rc(mpq_class(k))) : eRcmp(O_RLT, a.e, rc(mpq_class(k + 1)))); if (!decide(s, c)) throw PathAbort{"real to integer conversion"}; set(C((u64)(i64)k & maskw(d.ty.w))); } else set(X(mk(d.op == Instruction::FPToSI ? O_F2SI : O_F2UI, S_BV, d.ty.w, 0, a.e))); return true; }
    case Instruction::Select: { const RV c = V(0); if (d.oty.k == T_AGG) throw PathAbort{"vector select"}; if (c.e && c.e != UNINIT && d.ty.k == T_INT && d.ty.w <= 64 && !V(1).agg && V(1).e != UNINIT && V(2).e != UNINIT) { set(X(eIte(c.e, toE(V(1), d.ty), toE(V(2), d.ty)))); return true; } bool t = truth(s, c); Frame& g = s.st.back(); const Opnd& o = d.o[t ? 1 : 2]; RV r = o.reg >= 0 ? g.regs[o.reg] : o.k; g.regs[d.dst] = r; g.pc++; return true; }
    case Instruction::Br: if (d.o.empty()) { jump(s, d.tgt[0]); return true; } { RV c = V(0); bool t = truth(s, c); jump(s, d.tgt[t ? 0 : 1]); return true; }
    case Instruction::Switch: { RV c = V(0); if (!c.e) { u32 t = d.tgt[0]; for (size_t i = 0; i < d.gep.size(); ++i) if (d.gep[i].first == (c.c & maskw(d.oty.w))) { t = d.tgt[i + 1]; break; } jump(s, t); return true; } for (size_t i = 0; i < d.gep.size(); ++i) if (decide(s, eCmp(O_EQ, c.e, bvc(d.gep[i].first, d.oty.w)))) { jump(s, d.tgt[i + 1]); return true; } jump(s, d.tgt[0]); return true; }
    case Instruction::Ret: { RV r; bool hasR = !d.o.empty(); if (hasR) r = V(0); u8 mode = f.mode; popFrame(s); if (s.st.empty()) return false; if (mode == 2) { ompThreadDone(s); return true; } if (mode == 3) { s.omp.nest--; advance(s, RV()); return true; } if (mode == 1) { return true; } advance(s, r, hasR); return true; }
    case Instruction::Call: case Instruction::Invoke: doCall(s, d); return true;
    case Instruction::Resume: { RV v = V(0); s.excObj = (*v.agg)[0].c; auto it = s.excTypeOf.find(s.excObj); if (it != s.excTypeOf.end()) s.excType = it->second; popFrame(s); unwind(s); return true; }
    case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached");
    case Instruction::ExtractValue: { RV v = V(0); for (u32 i : d.tgt) v = v.agg ? RV((*v.agg)[i]) : v; set(v); return true; }
    case Instruction::InsertValue: { RV v = V(0); std::function<RV(RV, Type*, size_t)> ins = [&](RV x, Type* t, size_t k) -> RV { if (k == d.tgt.size()) return V(1); RV r; r.agg = std::make_shared<std::vector<RV>>(); unsigned n = nElems(t); for (unsigned i = 0; i < n; ++i) r.agg->push_back(x.agg ? (*x.agg)[i] : x); (*r.agg)[d.tgt[k]] = ins((*r.agg)[d.tgt[k]], elemTy(t, d.tgt[k]), k + 1); return r; }; set(ins(v, d.ty.t, 0)); return true; }
    case Instruction::ExtractElement: { RV v = V(0); u64 i = needC(s, V(1), 64, "lane"); set(v.agg ? RV((*v.agg)[i]) : v); return true; }
    case Instruction::InsertElement: { RV v = V(0); u64 i = needC(s, V(2), 64, "lane"); RV r; r.agg = std::make_shared<std::vector<RV>>(); for (unsigned k = 0; k < nElems(d.ty.t); ++k) r.agg->push_back(v.agg ? (*v.agg)[k] : v); (*r.agg)[i] = V(1); set(r); return true; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(d.I); RV a = V(0), b = V(1); int n = nElems(sv->getOperand(0)->getType()); RV r; r.agg = std::make_shared<std::vector<RV>>(); for (int m : sv->getShuffleMask()) { RV u; u.e = UNINIT; if (m < 0) r.agg->push_back(u); else if (m < n) r.agg->push_back(a.agg ? (*a.agg)[m] : a); else r.agg->push_back(b.agg ? (*b.agg)[m - n] : b); } set(r); return true; }
    case Instruction::LandingPad: f.pc++; return true;
    case Instruction::AtomicRMW: { auto* ar = cast<AtomicRMWInst>(d.I); u64 a = needC(s, V(0), 64, "address"); Ty t = d.ty; s.omp.lockDepth++; RV old = loadPrim(s, a, t); s.omp.lockDepth--; RV nv; RV y = V(1); switch (ar->getOperation()) { case AtomicRMWInst::Add: nv = X(eBin(O_ADD, toE(old, t), toE(y, t))); break; case AtomicRMWInst::Sub: nv = X(eBin(O_SUB, toE(old, t), toE(y, t))); break; case AtomicRMWInst::Xchg: nv = y; break; case AtomicRMWInst::FAdd: nv = fArith(s, O_FADD, O_RADD, old, y, t); break; default: throw PathAbort{"atomicrmw"}; } s.omp.lockDepth++; storePrim(s, a, nv, t); s.omp.lockDepth--; Frame& g = s.st.back(); g.regs[d.dst] = old; g.pc++; return true; }
    case Instruction::Fence: f.pc++; return true;
    default: throw PathAbort{std::string("instruction ") + d.I->getOpcodeName()};
  }
}
// ---------------------------------------------------------------- driver
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string valStr(u32 v, const Model& m) { auto& vi = gVars[v]; Num n; auto it = m.find(v); if (it != m.end()) n = it->second; char b[64]; switch (vi.srcType) { case 3: if (vi.sort == S_REAL) { float f = (float)n.r; u32 x; memcpy(&x, &f, 4); snprintf(b, 64, "f32 %08x", x); } else snprintf(b, 64, "f32 %08x", (u32)n.bits); break; case 4: if (vi.sort == S_REAL) { double f = (double)n.r; u64 x; memcpy(&x, &f, 8); snprintf(b, 64, "f64 %016llx", (unsigned long long)x); } else snprintf(b, 64, "f64 %016llx", (unsigned long long)n.bits); break; default: snprintf(b, 64, "i %lld", (long long)sx(n.bits, vi.width)); if (vi.srcType == 2) snprintf(b, 64, "i %llu", (unsigned long long)n.bits); } return b; }
static std::string modelJson(const std::vector<u32>& inputs, const Model& m, const std::vector<std::pair<std::string, E>>& grads) { std::string s = "["; bool first = true; for (u32 v : inputs) { if (!first) s += ","; first = false; s += "\"" + jesc(gVars[v].name) + " " + valStr(v, m) + "\""; } Evaluator ev(m); for (auto& g : grads) { if (!first) s += ","; first = false; double d = (double)ev.eval(g.second).r; u64 x; memcpy(&x, &d, 8); char b[64]; snprintf(b, 64, " g %016llx", (unsigned long long)x); s += "\"" + jesc(g.first) + b + "\""; } return s + "]"; }
static double finalQ = 0; static u64 finalN = 0, finalUnsat = 0; static double FINAL_BUDGET = 10; static int finalMiss = 0;
static void finalQuery(State& s) { // one SMT query for the conjunction of every equality obligation of the path
  if (s.eqs.empty() || finalQ > FINAL_BUDGET || finalMiss >= 3) return; std::vector<E> st; std::unordered_set<E> seen; size_t lim = 6000; E any = nullptr; 
  for (auto& p : s.eqs) { st.push_back(p.first); st.push_back(p.second); while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; for (E k : {e->a, e->b, e->c}) if (k) st.push_back(k); } if (seen.size() > lim) break;
    E ne = mk(O_NOT, S_BOOL, 1, 0, mk(p.first->sort == S_REAL ? O_REQ : O_EQ, S_BOOL, 1, 1, p.first, p.second)); any = any ? mk(O_BOR, S_BOOL, 1, 0, any, ne) : ne; }
  if (!any) return; double t0 = nowS(); finalN++; Res r; try { r = smtCheck({any}, nullptr, 2000); } catch (Unsupported&) { r = R_UNKNOWN; } if (r == R_UNSAT) { finalUnsat++; finalMiss = 0; } else finalMiss++; finalQ += nowS() - t0; }
// every fact asserted about a library function must be true of the host's function: checks the facts at concrete points (symx --selftest)
double hostFn(int f, double x, bool f32);
static int selftest() {
  gDeadline = nowS() + 600; int bad = 0, n = 0; std::vector<double> pts = {0, -0.0, 1.5, 2.5, -1.5, -2.5, -0.7, 1e-45, -1e-45, 1e-38, 1e-30, -1e-30, 1e-8, -1e-8, 0.001, -0.001, 0.3, 0.5, -0.5, 0.999, 1, -1, 1.0000001, 2, -2, 3.7, 8, -8, 9.1, -9.1, 16.6, -16.6, 17.4, 20, -20, 44, -44, 60, -60, 80, -80, 87, -87.2, -87.3, -87.4, 88.71, 88.72, 88.7228, 88.73, 89, -90, 100, -103.9, -104, -110, 120, 200, -200, 700, -708, -708.5, 709.69, 709.75, 709.79, 720, -745, -746, -800, 1e5, -1e5, 3e38, -3e38, 1e300, -1e300, INFINITY, -INFINITY, NAN};
  for (Sort so : {S_F32, S_F64}) for (Fn f : {FN_EXP, FN_LOG, FN_TANH, FN_LOG1P, FN_EXPM1, FN_FLOOR, FN_CEIL, FN_TRUNC, FN_ROUND, FN_RINT}) for (size_t i = 0; i < pts.size(); ++i) for (size_t j = i; j < pts.size(); j += f >= FN_FLOOR ? 1000 : 9) { if (f >= FN_FLOOR && (i % 4 > 1 || std::fabs(pts[i]) > 700)) continue;
    auto bitsOf = [&](double d) { u64 b; if (so == S_F32) { float y = d; u32 c; memcpy(&c, &y, 4); b = c; } else memcpy(&b, &d, 8); return b; }; auto host = [&](double d) { return so == S_F32 ? (double)hostFn(f, (float)d, true) : hostFn(f, d, false); };
    std::vector<E> c; for (double p : {pts[i], pts[j]}) { if (so == S_F32) p = (float)p; E x = mkVar("st", so, so == S_F32 ? 32 : 64, 0, so == S_F32 ? 3 : 4); E y = mk(O_FFUN, so, x->width, f, x); double r = host(p);
      auto eq = [&](E e, double v) { return std::isnan(v) ? eNot(eF(O_FEQ, e, e)) : eF(O_FEQ, e, fpc(bitsOf(v), so)); }; c.push_back(eq(x, p)); c.push_back(eq(y, r)); }
    Res r = smtCheck(c, nullptr, 10000); n++; if (r != R_SAT) { bad++; printf("facts about %s (%s) are wrong or undecided at %g, %g\n", fnName[f], so == S_F32 ? "float" : "double", pts[i], pts[j]); } }
  for (Fn f : {FN_EXP, FN_LOG, FN_TANH, FN_SQRT, FN_SIN, FN_COS, FN_ERF, FN_COSH, FN_FLOOR, FN_CEIL, FN_TRUNC, FN_ROUND, FN_RINT}) for (size_t i = 0; i < pts.size(); ++i) { double p = pts[i]; if (!(std::fabs(p) < 50) || (p != 0 && std::fabs(p) < 1e-3) || ((f == FN_LOG || f == FN_SQRT) && p <= 0)) continue; E x = mkVar("st", S_REAL, 0, 0, 4), y = eRfun(f, x); long double r = hostFn(f, p, false); long double w = 1e-15L * (1 + fabsl(r)); 
    std::vector<E> c = {eRcmp(O_REQ, x, rc(mpq_class(p))), eRcmp(O_RLE, rc(mpq_class((double)(r - w)) - mpq_class(1e-15)), y), eRcmp(O_RLE, y, rc(mpq_class((double)(r + w)) + mpq_class(1e-15)))}; Res q = smtCheck(c, nullptr, 10000); n++; if (q == R_UNSAT) { bad++; printf("real facts about %s are wrong at %g\n", fnName[f], p); } 
    }
  smtShutdown(); printf("%d facts checked, %d wrong\n", n, bad); return bad ? 1 : 0; }
int main(int argc, char** argv) {
  if (argc > 1 && std::string(argv[1]) == "--selftest") return selftest();
  std::string bc, entry, out; double budget = 600; for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--theory") REALT = nx() == "real"; else if (a == "--out") out = nx(); else if (a == "--budget") budget = std::stod(nx()); else if (a == "--seed") rng.seed(std::stoull(nx())); else if (a == "-v") verbose = true; else if (a == "--obl-ms") OBL_MS = std::stoi(nx()); else if (a == "--feas-ms") FEAS_MS = std::stoi(nx()); else if (a == "--lifo") LIFO_ALLOC = true; else if (a == "--omp-threads") OMP_T = std::stoi(nx()); else if (a == "--max-instr") MAXINSTR = std::stoull(nx()); else bc = a; }
  double t0 = nowS(); gDeadline = t0 + budget; UNINIT = mkVar("UNINIT", S_BV, 8, 2, 2);
  SMDiagnostic err; M = parseIRFile(bc, err, CTX); if (!M) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 2; } DL = &M->getDataLayout();
  Function* EF = M->getFunction(entry); if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  gBounds = [](E e, mpq_class& lo, mpq_class& hi) { RIv v = riv(e); int k = 0; if (std::isfinite(v.lo) && std::fabs(v.lo) < 1e15) { lo = mpq_class(v.lo); k |= 1; } if (std::isfinite(v.hi) && std::fabs(v.hi) < 1e15) { hi = mpq_class(v.hi); k |= 2; } return k; };
  StateP init = std::make_unique<State>(); initGlobals(*init);
  // global constructors run first, in order
  std::vector<Function*> ctors; if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); ++i) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(f); }
  int status = 0; std::string firstWitness = "null"; u64 completed = 0, aborted = 0, withAsserts = 0; std::string witnessObs = "[]"; u64 maxSteps = 0; std::vector<std::string> witnesses;
  try { for (auto* f : ctors) { callF(*init, f, {}); while (step(*init)) ; } callF(*init, EF, {}); } catch (PathAbort& p) { fprintf(stderr, "ctor abort %s\n", p.why.c_str()); inconclusive["global constructor: " + p.why]++; status = 3; } catch (PathEnd&) { status = 3; }
  if (!status) work.push_back(std::move(init)); bool budgetHit = false;
  while (!work.empty()) {
    if (nowS() > gDeadline - 0.2 || INSTR > MAXINSTR || completed + aborted > MAXPATHS) { budgetHit = true; inconclusive["budget exhausted with " + std::to_string(work.size()) + " paths pending"]++; break; }
    StateP s = std::move(work.back()); work.pop_back(); PATHS++; size_t nv = violations.size();
    try { u64 k = 0; bool done = false; while (!done) { if (!step(*s)) done = true; if ((++k & 1023) == 0) { if (nowS() > gDeadline - 0.1 || INSTR > MAXINSTR) throw PathAbort{"budget exhausted"}; } }
      completed++; if (s->nAsserts) { withAsserts++; finalQuery(*s); maxSteps = std::max(maxSteps, s->steps);
        if (violations.size() == nv && (witnesses.size() < 3 || (witnesses.size() < 6 && rng() % 7 == 0))) { std::string o = "["; bool first = true; Evaluator ev(s->model); for (auto& ob : s->obs) { double v; const RV& r = ob.second.first; TK k2 = ob.second.second.k; if (!r.e) v = dOf(r.c, k2); else { Num nn = ev.eval(r.e); v = r.e->sort == S_REAL ? (double)nn.r : dOf(nn.bits, k2); } char b[64]; if (std::isnan(v)) snprintf(b, 64, "\"nan\""); else if (std::isinf(v)) snprintf(b, 64, "\"%sinf\"", v < 0 ? "-" : ""); else snprintf(b, 64, "%.17g", v); if (!first) o += ","; first = false; o += b; } o += "]"; witnesses.push_back("{\"model\":" + modelJson(s->inputs, s->model, s->grads) + ",\"obs\":" + o + "}"); } }
    } catch (PathEnd&) { completed++; if (s->nAsserts) withAsserts++; }
    catch (PathAbort& p) { aborted++; inconclusive[p.why]++; if (verbose) { fprintf(stderr, "ABORT %s at %s\n", p.why.c_str(), locOf(*s).c_str()); for (size_t i = s->st.size(); i-- > 0 && i + 8 > s->st.size();) fprintf(stderr, "   %s\n", demangle(s->st[i].f->name).substr(0, 140).c_str()); } }
    catch (Unsupported& u) { aborted++; inconclusive[std::string("unsupported: ") + u.what()]++; if (verbose) fprintf(stderr, "UNSUP %s at %s\n", u.what(), locOf(*s).c_str()); }
  }
  smtShutdown();
  std::ostringstream o; o << "{\"entry\":\"" << entry << "\",\"theory\":\"" << (REALT ? "real" : "ieee") << "\",\"paths\":" << completed << ",\"paths_with_obligations\":" << withAsserts << ",\"aborted\":" << aborted << ",\"assume_killed\":" << KILLED << ",\"forks\":" << FORKS << ",\"instructions\":" << INSTR << ",\"terms\":" << gNodes.size() << ",\"budget_hit\":" << (budgetHit ? "true" : "false");
  o << ",\"obligations\":" << OBL << ",\"by_constant\":" << OBL_CONST << ",\"by_term_identity\":" << OBL_SYNT << ",\"by_polynomial_theory\":" << OBL_POLY << ",\"by_interval_analysis\":" << IVDEC << ",\"by_smt\":" << OBL_SMT << ",\"path_queries\":" << finalN << ",\"path_queries_unsat\":" << finalUnsat;
  o << ",\"smt_queries\":" << gStats.queries << ",\"smt_unsat\":" << gStats.unsat << ",\"smt_sat\":" << gStats.sat << ",\"smt_unknown\":" << gStats.unknown << ",\"smt_cached\":" << gStats.cacheHits << ",\"smt_time_s\":" << gStats.time << ",\"poly_time_s\":" << polyTime << ",\"max_steps\":" << maxSteps << ",\"wall_s\":" << (nowS() - t0);
  o << ",\"covers\":{"; { bool f = true; for (auto& c : covers) { if (!f) o << ","; f = false; o << "\"" << jesc(c.first) << "\":" << c.second; } } o << "}";
  o << ",\"inconclusive\":{"; { bool f = true; for (auto& c : inconclusive) if (c.second) { if (!f) o << ","; f = false; o << "\"" << jesc(c.first) << "\":" << c.second; } } o << "}";
  o << ",\"witnesses\":["; for (size_t i = 0; i < witnesses.size(); ++i) o << (i ? "," : "") << witnesses[i]; o << "]";
  o << ",\"violations\":["; for (size_t i = 0; i < violations.size(); ++i) { auto& v = violations[i]; o << (i ? "," : "") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"models\":["; for (size_t k = 0; k < v.models.size(); ++k) o << (k ? "," : "") << modelJson(v.inputs, v.models[k], v.grads); o << "]}"; } o << "]";
  o << ",\"functions\":["; { bool f = true; std::set<std::string> names; for (auto& p : finfo) if (p.second->calls) { std::string dn = demangle(p.second->name); if (dn.rfind("smart_dnn::", 0) == 0 || dn.find("smart_dnn::") < 60 || dn.rfind("Shape::", 0) == 0 || dn.rfind("RandomEngine::", 0) == 0) { size_t q = dn.find('('); names.insert(dn.substr(0, q == std::string::npos ? dn.size() : q)); } } for (auto& n : names) { if (n.rfind("std::", 0) == 0 || n.rfind("void std::", 0) == 0) continue; o << (f ? "" : ",") << "\"" << jesc(n) << "\""; f = false; } } o << "]}";
  if (out.empty()) std::cout << o.str() << "\n"; else { std::ofstream fo(out); fo << o.str() << "\n"; }
  return status;
}
