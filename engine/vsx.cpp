// vsx: a bounded symbolic executor for LLVM bitcode (LLVM 18) with a Z3 back end.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <set>
#include <deque>
#include <functional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <random>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <algorithm>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64;

static std::string jstr(const std::string& s) {
  std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\"";
}
// ---------------------------------------------------------------- options
struct Opt {
  std::string file, entry, out; unsigned timeout_ms = 20000; double budget = 600; u64 maxinstr = 400000000; u64 maxpaths = 1000000;
  int param = 0; bool concrete = false; u64 seed = 1; std::string values; int jobs = 1; int maxviol = 4; bool trace = false;
} O;

// ---------------------------------------------------------------- values
struct Val { u64 c; Expr* e; };
static inline Val C(u64 c) { return Val{c, nullptr}; }
static inline Val S(Expr* e) { if (e->op == BConst) return C(e->c); if (e->op == FConst) return C(e->c); return Val{0, e}; }
static inline Expr* EX(const Val& v, unsigned w) { return v.e ? v.e : bc(w, v.c); }          // BV view
static inline Expr* FE(const Val& v, unsigned w) { return v.e ? v.e : mkFC(w, v.c); }         // FP view

struct PathEnd { int kind; std::string msg; };  // 0 ok, 1 violation, 2 unsupported/inconclusive, 3 assume-false/infeasible, 4 budget
[[noreturn]] static void endPath(int k, const std::string& m) { throw PathEnd{k, m}; }

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { KStack, KHeap, KGlobal, KConst, KFunc };
enum : uint8_t { UNINIT = 0, CONC = 1, SYMB = 2 };
struct SymByte { Expr* e; uint8_t i; };
struct Obj {
  u64 base; u64 size; Kind kind; uint8_t how = 0; bool freed = false; bool base_image = false; u64 seq = 0;
  std::vector<uint8_t> data, st; std::vector<SymByte> sym;
  const char* name = nullptr;
};
static std::vector<Obj*> objs;            // by id
static std::vector<u64> freeIds; static std::deque<u64> quarantine;
static u64 nextSeq = 0;
static std::vector<Obj*> snapObjs; static std::vector<u64> snapFree; static std::deque<u64> snapQ; static u64 snapSeq;
static u64 newId() {
  if (!freeIds.empty()) { u64 i = freeIds.back(); freeIds.pop_back(); return i; }
  objs.push_back(nullptr); return objs.size() - 1;
}
static std::vector<Obj*> objPool;
static Obj* allocObj(u64 size, Kind k, u64 align) {
  u64 id = newId();
  Obj* o; if (!objPool.empty()) { o = objPool.back(); objPool.pop_back(); } else o = new Obj;
  u64 off = 0x1000; if (align > 0x1000) off = align;
  if (k == KHeap && align <= 16) off = 0x1010;    // malloc guarantees 16 bytes and no more
  o->base = (id << 32) + off; o->size = size; o->kind = k; o->freed = false; o->base_image = false; o->how = 0; o->name = nullptr; o->seq = ++nextSeq;
  o->data.assign(size, 0); o->st.assign(size, UNINIT); o->sym.clear();
  objs[id] = o; return o;
}
static void releaseObj(Obj* o) {            // stack objects: id quarantined
  u64 id = o->base >> 32;
  objs[id] = nullptr;
  if (!o->base_image) objPool.push_back(o);
  quarantine.push_back(id);
  if (quarantine.size() > 4096) { freeIds.push_back(quarantine.front()); quarantine.pop_front(); }
}
static Obj* wr(Obj* o) { // copy on write of base-image objects
  if (!o->base_image) return o;
  Obj* n = new Obj(*o); n->base_image = false; objs[o->base >> 32] = n; return n;
}

// ---------------------------------------------------------------- compiled code
struct Fn; struct TypeInfo_;
enum XOp : uint8_t { XBin, XFBin, XICmp, XFCmp, XLoad, XStore, XGep, XCast, XSelect, XAlloca, XBr, XCondBr, XSwitch, XRet, XCall, XPhi, XExtractV, XInsertV, XExtractE, XInsertE, XShuffle, XUnreachable, XResume, XLandingPad, XFNeg, XRMW, XCmpXchg, XFence, XFreeze, XUnsup };
struct ArgRef { int ref; int n; };
struct GepTerm { int ref; unsigned w; i64 scale; };
struct PhiMove { int dst, src, n; };
struct Edge { int target; std::vector<PhiMove> moves; };
struct Clause { bool filter; u64 ti; std::vector<u64> tis; };
struct Inst {
  XOp op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int n = 0; int dst = -1; int a = 0, b = 0, c = 0; i64 imm = 0;
  std::vector<GepTerm> gep; std::vector<ArgRef> args; std::vector<Edge> edges; std::vector<u64> cases; std::vector<std::pair<unsigned, u64>> lay; // scalar width(bits), byte offset
  std::vector<int> idx; std::vector<Clause> clauses; bool cleanup = false; bool vec = false; bool isfp = false;
  Fn* callee = nullptr; int intr = 0; bool invoke = false; std::vector<int> byval;
  const Instruction* I = nullptr; bool hit = false;
};
struct Fn {
  const Function* F; std::string name; u64 addr; bool compiled = false; bool decl = true; int nslots = 0; std::vector<Inst> code; std::vector<int> blockStart;
  std::vector<Val> consts; std::vector<ArgRef> params; std::vector<int> entryPhis; int handler = -1; bool used = false; std::vector<i64> byvalSize;
};
static LLVMContext LC; static std::unique_ptr<Module> MOD; static const DataLayout* DL;
static std::unordered_map<const Function*, Fn*> fns; static std::unordered_map<u64, Fn*> fnByAddr;
static std::unordered_map<const GlobalVariable*, u64> gaddr; static std::unordered_map<u64, const GlobalVariable*> gByAddr;

static unsigned scalarW(Type* t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static void flat(Type* t, u64 off, std::vector<std::pair<unsigned, u64>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flat(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) flat(at->getElementType(), off + i * s, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); ++i) flat(vt->getElementType(), off + i * s, out); return; }
  out.push_back({scalarW(t), off});
}
static int ncomp(Type* t) { if (t->isVoidTy()) return 0; std::vector<std::pair<unsigned, u64>> v; flat(t, 0, v); return v.size(); }
static int compIndex(Type* t, ArrayRef<unsigned> idx) {
  int k = 0;
  for (unsigned i : idx) {
    if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) k += ncomp(st->getElementType(j)); t = st->getElementType(i); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { k += i * ncomp(at->getElementType()); t = at->getElementType(); }
  }
  return k;
}
static Fn* fnOf(const Function* F);
static u64 globalAddr(const GlobalVariable* g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  u64 sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 64;
  if (!g->hasInitializer() && sz < 64) sz = 64;
  Obj* o = allocObj(sz, g->isConstant() && g->hasInitializer() ? KConst : KGlobal, std::max<u64>(32, g->getAlign().valueOrOne().value()));
  o->name = strdup(g->getName().str().c_str());
  if (!g->hasInitializer()) std::fill(o->st.begin(), o->st.end(), CONC);
  gaddr[g] = o->base; gByAddr[o->base] = g; return o->base;
}
static u64 constGep(const GEPOperator* g, u64 base);
static u64 constScalar(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getLimitedValue(~0ull) & (ci->getBitWidth() > 64 ? ~0ull : maskw(ci->getBitWidth()));
  if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getRawData()[0];
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* f = dyn_cast<Function>(c)) return fnOf(f)->addr;
  if (auto* g = dyn_cast<GlobalVariable>(c)) return globalAddr(g);
  if (auto* al = dyn_cast<GlobalAlias>(c)) return constScalar(al->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: return constGep(cast<GEPOperator>(ce), constScalar(ce->getOperand(0)));
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
    case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(scalarW(ce->getType()));
    case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(scalarW(ce->getType()));
    case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(scalarW(ce->getType()));
    case Instruction::ICmp: { u64 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); return ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; }
    case Instruction::Select: return constScalar(ce->getOperand(0)) ? constScalar(ce->getOperand(1)) : constScalar(ce->getOperand(2));
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw std::runtime_error("const: " + s);
}
static u64 constGep(const GEPOperator* g, u64 base) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) {
    // accumulate by hand for ptrtoint-like indices
    throw std::runtime_error("constant GEP");
  }
  return base + off.getSExtValue();
}
static void flatConst(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (isa<StructType>(t) || isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = ncomp(t); for (int i = 0; i < n; ++i) out.push_back(C(0)); return; }
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) flatConst(c->getAggregateElement(i), out);
    return;
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) {
    APInt v = ci->getValue(); unsigned w = ci->getBitWidth(); Expr* lo = bc(64, v.extractBits(64, 0).getZExtValue()); Expr* hi = bc(w - 64, v.extractBits(w - 64, 64).getZExtValue());
    out.push_back(Val{0, mkConcat(hi, lo)}); return;
  }
  out.push_back(C(constScalar(c)));
}
static void initGlobal(const Constant* c, Obj* o, u64 off) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) { u64 n = DL->getTypeStoreSize(t); for (u64 i = 0; i < n; ++i) o->st[off + i] = CONC; return; }
  if (isa<ConstantAggregateZero>(c)) { u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n; ++i) o->st[off + i] = CONC; return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    u64 s = DL->getTypeStoreSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); ++i) { u64 v = constScalar(cd->getElementAsConstant(i)); for (u64 j = 0; j < s; ++j) { o->data[off + i * s + j] = v >> (8 * j); o->st[off + i * s + j] = CONC; } }
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) initGlobal(c->getAggregateElement(i), o, off + sl->getElementOffset(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) initGlobal(c->getAggregateElement(i), o, off + i * s); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); ++i) initGlobal(c->getAggregateElement(i), o, off + i * s); return; }
  u64 v = constScalar(c), s = DL->getTypeStoreSize(t);
  for (u64 j = 0; j < s; ++j) { o->data[off + j] = j < 8 ? v >> (8 * j) : 0; o->st[off + j] = CONC; }
}

// ---------------------------------------------------------------- handlers for external functions
struct Machine;
typedef std::function<void(const Inst&, std::vector<Val>&, Val*)> Handler;   // args, result components
static std::vector<Handler> handlers; static std::unordered_map<std::string, int> handlerIdx;

static Fn* fnOf(const Function* F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  Fn* f = new Fn; f->F = F; f->name = F->getName().str(); f->decl = F->isDeclaration();
  Obj* o = allocObj(16, KFunc, 16); o->name = strdup(f->name.c_str()); f->addr = o->base;
  auto h = handlerIdx.find(f->name); if (h != handlerIdx.end()) f->handler = h->second;
  fns[F] = f; fnByAddr[f->addr] = f; return f;
}

struct Compiler {
  Fn& f; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bb; std::unordered_map<const Constant*, int> cidx;
  Compiler(Fn& x) : f(x) {}
  int mkslot(const Value* v) { int n = ncomp(v->getType()); int s = f.nslots; f.nslots += n; slot[v] = s; return s; }
  int ref(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cidx.find(c); if (it != cidx.end()) return it->second;
      int k = f.consts.size(); flatConst(c, f.consts); int r = ~k; cidx[c] = r; return r;
    }
    auto it = slot.find(v); if (it == slot.end()) { return ~0; }
    return it->second;
  }
  Edge edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = bb[to];
    for (auto& p : to->phis()) { PhiMove m; m.dst = slot[&p]; m.src = ref(p.getIncomingValueForBlock(from)); m.n = ncomp(p.getType()); e.moves.push_back(m); }
    return e;
  }
  void run();
  void inst(const Instruction& I);
};
void Compiler::run() {
  const Function& F = *f.F;
  f.compiled = true; f.consts.reserve(64);
  f.consts.push_back(C(0));
  for (auto& A : F.args()) { int s = mkslot(&A); f.params.push_back({s, ncomp(A.getType())}); f.byvalSize.push_back(A.hasByValAttr() ? (i64)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue() : 0); }
  for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) mkslot(&I);
  int k = 0; for (auto& B : F) bb[&B] = k++;
  for (auto& B : F) { f.blockStart.push_back(f.code.size()); for (auto& I : B) inst(I); }
}
void Compiler::inst(const Instruction& I) {
  Inst x; x.I = &I; if (!I.getType()->isVoidTy()) x.dst = slot[&I];
  Type* T = I.getType(); x.n = T->isVoidTy() ? 0 : ncomp(T); x.w = scalarW(T->getScalarType());
  if (isa<PHINode>(I)) return;
  auto add = [&]() { f.code.push_back(std::move(x)); };
  if (auto* b = dyn_cast<BinaryOperator>(&I)) {
    x.a = ref(b->getOperand(0)); x.b = ref(b->getOperand(1));
    switch (b->getOpcode()) {
    case Instruction::Add: x.sub = BAdd; break; case Instruction::Sub: x.sub = BSub; break; case Instruction::Mul: x.sub = BMul; break;
    case Instruction::UDiv: x.sub = BUDiv; break; case Instruction::SDiv: x.sub = BSDiv; break; case Instruction::URem: x.sub = BURem; break; case Instruction::SRem: x.sub = BSRem; break;
    case Instruction::Shl: x.sub = BShl; break; case Instruction::LShr: x.sub = BLShr; break; case Instruction::AShr: x.sub = BAShr; break;
    case Instruction::And: x.sub = BAnd; break; case Instruction::Or: x.sub = BOr; break; case Instruction::Xor: x.sub = BXor; break;
    case Instruction::FAdd: x.op = XFBin; x.sub = 'a'; add(); return; case Instruction::FSub: x.op = XFBin; x.sub = 's'; add(); return;
    case Instruction::FMul: x.op = XFBin; x.sub = 'm'; add(); return; case Instruction::FDiv: x.op = XFBin; x.sub = 'd'; add(); return;
    case Instruction::FRem: x.op = XFBin; x.sub = 'r'; add(); return;
    default: x.op = XUnsup; add(); return;
    }
    x.op = XBin; add(); return;
  }
  if (auto* u = dyn_cast<UnaryOperator>(&I)) { x.op = XFNeg; x.a = ref(u->getOperand(0)); add(); return; }
  if (auto* c = dyn_cast<ICmpInst>(&I)) { x.op = XICmp; x.sub = c->getPredicate(); x.a = ref(c->getOperand(0)); x.b = ref(c->getOperand(1)); x.w = scalarW(c->getOperand(0)->getType()->getScalarType()); add(); return; }
  if (auto* c = dyn_cast<FCmpInst>(&I)) { x.op = XFCmp; x.sub = c->getPredicate(); x.a = ref(c->getOperand(0)); x.b = ref(c->getOperand(1)); x.w = scalarW(c->getOperand(0)->getType()->getScalarType()); add(); return; }
  if (auto* l = dyn_cast<LoadInst>(&I)) { x.op = XLoad; x.a = ref(l->getPointerOperand()); flat(T, 0, x.lay); x.isfp = T->getScalarType()->isFloatingPointTy();
    std::vector<std::pair<unsigned, u64>> v; x.imm = DL->getTypeStoreSize(T); // mark fp comps
    std::function<void(Type*)> rec = [&](Type* t) { if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) rec(e); else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); ++i) rec(at->getElementType()); else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); ++i) rec(vt->getElementType()); else x.idx.push_back(t->isFloatingPointTy()); }; rec(T); add(); return; }
  if (auto* s = dyn_cast<StoreInst>(&I)) { x.op = XStore; x.a = ref(s->getPointerOperand()); x.b = ref(s->getValueOperand()); Type* t0 = s->getValueOperand()->getType(); flat(t0, 0, x.lay); x.imm = DL->getTypeStoreSize(t0);
    std::function<void(Type*)> rec = [&](Type* t) { if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) rec(e); else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); ++i) rec(at->getElementType()); else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); ++i) rec(vt->getElementType()); else x.idx.push_back(t->isFloatingPointTy()); }; rec(t0); add(); return; }
  if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
    x.op = XGep; if (T->isVectorTy()) { x.op = XUnsup; add(); return; }
    x.a = ref(g->getPointerOperand());
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
      Value* op = gti.getOperand();
      if (StructType* st = gti.getStructTypeOrNull()) { x.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
      i64 sc = gti.getSequentialElementStride(*DL).getFixedValue();
      if (auto* ci = dyn_cast<ConstantInt>(op)) { x.imm += ci->getSExtValue() * sc; continue; }
      x.gep.push_back({ref(op), scalarW(op->getType()), sc});
    }
    add(); return;
  }
  if (auto* c = dyn_cast<CastInst>(&I)) {
    x.op = XCast; x.sub = c->getOpcode(); x.a = ref(c->getOperand(0)); x.w2 = scalarW(c->getOperand(0)->getType()->getScalarType());
    int n0 = ncomp(c->getOperand(0)->getType());
    if (n0 != x.n) { // vector bitcast
      x.imm = n0; x.vec = true; x.isfp = T->getScalarType()->isFloatingPointTy(); x.c = c->getOperand(0)->getType()->getScalarType()->isFloatingPointTy();
    } else { x.isfp = T->getScalarType()->isFloatingPointTy(); x.c = c->getOperand(0)->getType()->getScalarType()->isFloatingPointTy(); }
    add(); return;
  }
  if (auto* s = dyn_cast<SelectInst>(&I)) { x.op = XSelect; x.a = ref(s->getCondition()); x.b = ref(s->getTrueValue()); x.c = ref(s->getFalseValue()); x.vec = s->getCondition()->getType()->isVectorTy();
    std::vector<std::pair<unsigned, u64>> v; flat(T, 0, x.lay);
    std::function<void(Type*)> rec = [&](Type* t) { if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) rec(e); else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); ++i) rec(at->getElementType()); else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); ++i) rec(vt->getElementType()); else x.idx.push_back(t->isFloatingPointTy()); }; rec(T); add(); return; }
  if (auto* a = dyn_cast<AllocaInst>(&I)) { x.op = XAlloca; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.a = ref(a->getArraySize()); x.b = a->getAlign().value(); x.c = a->isArrayAllocation(); add(); return; }
  if (auto* b = dyn_cast<BranchInst>(&I)) {
    const BasicBlock* P = I.getParent();
    if (b->isUnconditional()) { x.op = XBr; x.edges.push_back(edge(P, b->getSuccessor(0))); }
    else { x.op = XCondBr; x.a = ref(b->getCondition()); x.edges.push_back(edge(P, b->getSuccessor(0))); x.edges.push_back(edge(P, b->getSuccessor(1))); }
    add(); return;
  }
  if (auto* s = dyn_cast<SwitchInst>(&I)) {
    x.op = XSwitch; x.a = ref(s->getCondition()); x.w = scalarW(s->getCondition()->getType()); x.edges.push_back(edge(I.getParent(), s->getDefaultDest()));
    for (auto& c : s->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(I.getParent(), c.getCaseSuccessor())); }
    add(); return;
  }
  if (auto* r = dyn_cast<ReturnInst>(&I)) { x.op = XRet; if (r->getReturnValue()) { x.a = ref(r->getReturnValue()); x.n = ncomp(r->getReturnValue()->getType()); } else x.n = 0; add(); return; }
  if (auto* c = dyn_cast<CallBase>(&I)) {
    x.op = XCall;
    if (isa<DbgInfoIntrinsic>(&I)) return;
    if (c->isInlineAsm()) { // only empty barriers are accepted
      auto* ia = cast<InlineAsm>(c->getCalledOperand()); if (ia->getAsmString().empty() && x.n == 0) return; x.op = XUnsup; add(); return; }
    for (unsigned i = 0; i < c->arg_size(); ++i) { Value* v = c->getArgOperand(i); if (v->getType()->isMetadataTy()) { x.args.push_back({~0, 1}); continue; } x.args.push_back({ref(v), ncomp(v->getType())}); }
    const Value* cv = c->getCalledOperand()->stripPointerCasts();
    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
    if (auto* F = dyn_cast<Function>(cv)) { x.callee = fnOf(F); if (F->isIntrinsic()) x.intr = F->getIntrinsicID(); }
    else x.a = ref(c->getCalledOperand());
    x.isfp = T->getScalarType()->isFloatingPointTy();
    if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.invoke = true; x.edges.push_back(edge(I.getParent(), iv->getNormalDest())); x.edges.push_back(edge(I.getParent(), iv->getUnwindDest())); }
    add(); return;
  }
  if (auto* e = dyn_cast<ExtractValueInst>(&I)) { x.op = XExtractV; x.a = ref(e->getAggregateOperand()); x.imm = compIndex(e->getAggregateOperand()->getType(), e->getIndices()); add(); return; }
  if (auto* e = dyn_cast<InsertValueInst>(&I)) { x.op = XInsertV; x.a = ref(e->getAggregateOperand()); x.b = ref(e->getInsertedValueOperand()); x.imm = compIndex(T, e->getIndices()); x.c = ncomp(e->getInsertedValueOperand()->getType()); add(); return; }
  if (auto* e = dyn_cast<ExtractElementInst>(&I)) { x.op = XExtractE; x.a = ref(e->getVectorOperand()); x.b = ref(e->getIndexOperand()); add(); return; }
  if (auto* e = dyn_cast<InsertElementInst>(&I)) { x.op = XInsertE; x.a = ref(e->getOperand(0)); x.b = ref(e->getOperand(1)); x.c = ref(e->getOperand(2)); add(); return; }
  if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) { x.op = XShuffle; x.a = ref(s->getOperand(0)); x.b = ref(s->getOperand(1)); x.imm = ncomp(s->getOperand(0)->getType()); for (int m : s->getShuffleMask()) x.idx.push_back(m); add(); return; }
  if (isa<UnreachableInst>(&I)) { x.op = XUnreachable; add(); return; }
  if (auto* r = dyn_cast<ResumeInst>(&I)) { x.op = XResume; x.a = ref(r->getOperand(0)); add(); return; }
  if (auto* l = dyn_cast<LandingPadInst>(&I)) {
    x.op = XLandingPad; x.cleanup = l->isCleanup();
    for (unsigned i = 0; i < l->getNumClauses(); ++i) { Clause c; c.filter = l->isFilter(i); Constant* k = l->getClause(i);
      if (c.filter) { if (!isa<ConstantAggregateZero>(k)) for (auto& o : k->operands()) c.tis.push_back(constScalar(cast<Constant>(o))); else { unsigned n = cast<ArrayType>(k->getType())->getNumElements(); c.tis.assign(n, 0); } } else c.ti = constScalar(k);
      x.clauses.push_back(c); }
    add(); return;
  }
  if (auto* r = dyn_cast<AtomicRMWInst>(&I)) { x.op = XRMW; x.sub = r->getOperation(); x.a = ref(r->getPointerOperand()); x.b = ref(r->getValOperand()); x.isfp = T->isFloatingPointTy(); add(); return; }
  if (auto* r = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = XCmpXchg; x.a = ref(r->getPointerOperand()); x.b = ref(r->getCompareOperand()); x.c = ref(r->getNewValOperand()); x.w = scalarW(r->getCompareOperand()->getType()); add(); return; }
  if (isa<FenceInst>(&I)) return;
  if (auto* fz = dyn_cast<FreezeInst>(&I)) { x.op = XFreeze; x.a = ref(fz->getOperand(0)); add(); return; }
  x.op = XUnsup; add();
}

// ---------------------------------------------------------------- exploration state
struct Decision { uint8_t d; u64 v; };
struct Work { std::vector<Decision> pre; Model m; };
struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::map<std::string, i64> inputs; };

struct Frame { Fn* f; int pc; std::vector<Val> s; std::vector<Obj*> allocas; const Inst* call; };
struct Exc { u64 obj; u64 ti; };

struct Machine {
  std::vector<Frame*> stack; std::vector<Frame*> pool;
  std::vector<Work> work; Solver* sol = nullptr; Model model; std::vector<Decision> trail; size_t prefix = 0; std::vector<Decision> pre;
  std::unordered_map<std::string, int> nameCount; std::vector<int> pathVars;
  u64 instrs = 0, paths = 0, pathsOk = 0, assertsHit = 0, assertsConcrete = 0, assertsSym = 0, infeasible = 0, branches = 0;
  u64 exhausted = 0; std::map<std::string, u64> inconcl, covers, assertMsgs; std::vector<Violation> viols; std::set<std::string> violKeys;
  std::vector<double> obs; std::map<std::string, i64> fixedVals; std::mt19937_64 rng;
  u64 leakMark = 0; std::vector<Exc> caught; u64 curExcObj = 0, curExcTi = 0; double deadline; bool initPhase = true; bool expectAbort = false;
  std::unordered_map<Expr*, std::vector<u64>> feas; u64 uninitCount = 0; u64 pathInstr0 = 0;

  // ----- values
  inline Val* cur() { return stack.back()->s.data(); }
  inline Val get(int r, int i = 0) { Frame* f = stack.back(); return r >= 0 ? f->s[r + i] : f->f->consts[~r + i]; }
  inline void set(int d, Val v) { stack.back()->s[d] = v; }
  std::string where() {
    for (int i = (int)stack.size() - 1; i >= 0; --i) {
      Frame* f = stack[i]; const Inst* in = i == (int)stack.size() - 1 ? (f->pc < (int)f->f->code.size() ? &f->f->code[f->pc] : nullptr) : nullptr;
      if (i < (int)stack.size() - 1) in = f->pc > 0 ? &f->f->code[f->pc - 1] : nullptr;
      if (in && in->I) if (DILocation* l = in->I->getDebugLoc()) { return std::string(l->getFilename()) + ":" + std::to_string(l->getLine()); }
    }
    return "?";
  }
  std::vector<std::string> backtrace() {
    std::vector<std::string> r;
    for (int i = (int)stack.size() - 1; i >= 0 && r.size() < 14; --i) {
      Frame* f = stack[i]; int p = i == (int)stack.size() - 1 ? f->pc : f->pc - 1; if (p < 0 || p >= (int)f->f->code.size()) continue;
      const Inst& in = f->f->code[p]; std::string loc;
      if (in.I) for (DILocation* l = in.I->getDebugLoc(); l; l = l->getInlinedAt()) { r.push_back(std::string(l->getFilename()) + ":" + std::to_string(l->getLine())); if (r.size() > 14) break; }
    }
    return r;
  }
  void violation(const std::string& kind, const std::string& msg, const Model& m) {
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : where());
    if (!violKeys.insert(key).second) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = where(); v.stack = backtrace();
    for (int k : pathVars) { const VarInfo& vi = VARS[k]; if (vi.kind == 2) continue; v.inputs[vi.name] = inputValue(k, m); }
    viols.push_back(v);
    if ((int)viols.size() >= O.maxviol) stopAll = true;
  }
  bool stopAll = false;
  // cooperative threads
  struct Fiber { std::vector<Frame*> stack; std::unordered_map<u64, u64> tls; bool live = true; u64 excObj = 0, excTi = 0; std::vector<Exc> caught; };
  std::vector<Fiber> fibers; int curFiber = 0; bool wantSwitch = false; u64 idle = 0;
  void switchTo(int k) { if (k == curFiber) return; Fiber& f = fibers[curFiber]; f.stack.swap(stack); f.excObj = curExcObj; f.excTi = curExcTi; f.caught.swap(caught); curFiber = k; Fiber& g = fibers[k]; stack.swap(g.stack); curExcObj = g.excObj; curExcTi = g.excTi; caught.swap(g.caught); }
  void nextFiber() { int n = fibers.size(); for (int i = 1; i <= n; ++i) { int k = (curFiber + i) % n; if (fibers[k].live) { switchTo(k); return; } } }
  i64 inputValue(int k, const Model& m) { const VarInfo& vi = VARS[k]; u64 raw = (size_t)k < m.v.size() ? m.v[k] : 0; if (vi.kind == 1) return (i64)raw; return vi.lo + (i64)raw; }
  [[noreturn]] void fail(const std::string& kind, const std::string& msg) {
    if (expectAbort && (kind == "abort" || kind == "uncaught-exception")) endPath(0, "expected abort");
    violation(kind, msg, model); endPath(1, msg);
  }
  // ----- path condition
  bool evalB(Expr* e) { return (u64)evalE(e, model).u & 1; }
  void addPC(Expr* e) { if (isC(e)) return; sol->add(e); }
  void setModel(const Model& m) { model = m; evalNewEpoch(); }
  bool prof = getenv("VSX_PROF") != nullptr; std::map<std::string, u64> forks;
  std::string chain() {
    std::string s; int k = 0;
    for (int i = (int)stack.size() - 1; i >= 0 && k < 12; --i) { Frame* f = stack[i]; int pc = i == (int)stack.size() - 1 ? f->pc : f->pc - 1; if (pc < 0 || pc >= (int)f->f->code.size()) continue; const Inst& in = f->f->code[pc]; if (!in.I) continue;
      if (!s.empty()) s += " | "; s += in.I->getOpcodeName();
      for (DILocation* l = in.I->getDebugLoc(); l && k < 12; l = l->getInlinedAt(), ++k) { std::string fn = l->getFilename().str(); size_t p = fn.rfind('/'); s += " " + fn.substr(p == std::string::npos ? 0 : p + 1) + ":" + std::to_string(l->getLine()); } }
    return s; }
  bool branch(Expr* c) {    // returns the side taken on this path
    if (isC(c)) return c->c;
    branches++;
    if (trail.size() < prefix) { bool d = pre[trail.size()].d; trail.push_back({(uint8_t)d, 0}); addPC(d ? c : mkNot(c)); return d; }
    if (O.concrete) { return evalB(c); }
    bool d = evalB(c); bool uf = hasUF(c);
    if (uf) { // the model does not determine uninterpreted parts
      Model m1; Res r = sol->check(d ? c : mkNot(c), &m1, model);
      if (r == UNSAT) { d = !d; Model m2; Res r2 = sol->check(d ? c : mkNot(c), &m2, model); if (r2 == UNSAT) endPath(3, "infeasible"); if (r2 == SAT) setModel(m2); trail.push_back({(uint8_t)d, 0}); addPC(d ? c : mkNot(c)); return d; }
      if (r == SAT) setModel(m1); else inconcl["solver unknown"]++;
    }
    Expr* o = d ? mkNot(c) : c; Model m; Res r = sol->check(o, &m, model);
    if (r == UNKNOWN) inconcl["solver unknown at a branch"]++;
    if (r == SAT) { if (prof) forks[chain()]++; Work w; w.pre = trail; w.pre.push_back({(uint8_t)!d, 0}); w.m = m; work.push_back(std::move(w)); }
    trail.push_back({(uint8_t)d, 0});
    if (r != UNSAT) addPC(d ? c : mkNot(c)); 
    return d;
  }
  // decision with a recorded value; always leaves exactly one trail entry, so replays stay aligned
  bool decide(Expr* c, u64 v) {
    size_t t = trail.size();
    if (isC(c)) { trail.push_back({(uint8_t)c->c, v}); return c->c; }
    bool replay = t < prefix; size_t w0 = work.size();
    bool d = branch(c);
    if (trail.size() == t) trail.push_back({(uint8_t)d, v});   // concrete mode
    trail[t].v = v; if (!replay && work.size() > w0) work.back().pre[t].v = v;
    return d;
  }
  u64 concretize(Expr* e) { // one path per feasible value
    if (isC(e)) return e->c;
    for (;;) {
      size_t t = trail.size(); u64 v = t < prefix ? pre[t].v : evalBV(e, model);
      if (t < prefix) { if (decide(mkEq(e, bc(e->w, v)), v)) return v; continue; }
      Expr* c = mkEq(e, bc(e->w, v));
      if (hasUF(e) && !O.concrete) { Model m; Res r = sol->check(c, &m, model); if (r != SAT) endPath(2, "cannot concretise an uninterpreted value"); setModel(m); }
      if (decide(c, v)) return v;
    }
  }
  bool feasibleSide(Expr* c) { if (isC(c)) return c->c; if (!hasUF(c) && evalB(c)) return true; Model m; Res r = sol->check(c, &m, model); if (r == SAT) setModel(m); return r != UNSAT; }

  // ----- memory access
  Obj* find(u64 a) { u64 id = a >> 32; if (id == 0 || id >= objs.size()) return nullptr; return objs[id]; }
  [[noreturn]] void badAccess(u64 a, u64 n, bool write) {
    Obj* o = find(a); std::ostringstream s; s << (write ? "write" : "read") << " of " << n << " bytes";
    if ((a >> 32) == 0) fail("null-deref", s.str() + " at a null pointer");
    if (!o) fail("use-after-scope", s.str() + " of a dead stack object");
    if (o->freed) fail("use-after-free", s.str() + " in a freed heap block");
    s << " at offset " << (i64)(a - o->base) << " of a " << (o->kind == KStack ? "stack" : o->kind == KHeap ? "heap" : "global") << " object of " << o->size << " bytes";
    if (o->kind == KConst && write) fail("write-const", s.str());
    fail("out-of-bounds", s.str());
  }
  Obj* access(u64 a, u64 n, bool write) {
    Obj* o = find(a);
    if (!o || o->freed || o->kind == KFunc) badAccess(a, n, write);
    u64 off = a - o->base;
    if (off > o->size || n > o->size - off) { if (n == 0) return o; badAccess(a, n, write); }
    if (write) { if (o->kind == KConst && !initPhase) badAccess(a, n, write); if (o->base_image) o = wr(o); }
    return o;
  }
  Expr* byteExpr(Obj* o, u64 i) {
    if (o->st[i] == CONC) return bc(8, o->data[i]);
    if (o->st[i] == SYMB) { SymByte& b = o->sym[i]; return mkExtract(b.e, b.i * 8, 8); }
    // uninitialised: an arbitrary value, fixed from now on
    o = wr(o);
    if (initPhase) { o->st[i] = CONC; return bc(8, 0); }
    Expr* v = freshBV("uninit", 8, 255, 0, 2); if (o->sym.empty()) o->sym.resize(o->size); o->sym[i] = {v, 0}; o->st[i] = SYMB; return v;
  }
  Val loadC(u64 a, unsigned w, bool fp) {   // concrete address
    unsigned n = (w + 7) / 8; Obj* o = access(a, n, false); u64 off = a - o->base;
    bool conc = true; for (unsigned i = 0; i < n; ++i) if (o->st[off + i] != CONC) { conc = false; break; }
    if (conc) {
      if (w <= 64) { u64 v = 0; memcpy(&v, &o->data[off], n); return C(w < 64 ? v & maskw(w) : v); }
    }
    if (o->st[off] == SYMB && o->sym[off].i == 0 && o->sym[off].e->w == 8 * n) {
      Expr* e = o->sym[off].e; bool all = true;
      for (unsigned i = 1; i < n; ++i) if (o->st[off + i] != SYMB || o->sym[off + i].e != e || o->sym[off + i].i != i) { all = false; break; }
      if (all) { if (fp) return S(mkFFromB(e)); return S(w == 8 * n ? e : mkExtract(e, 0, w)); }
    }
    Expr* r = nullptr;
    for (unsigned i = 0; i < n;) { o = find(a); Expr* b; unsigned j = i + 1;
      if (o->st[off + i] == SYMB) { Expr* e = o->sym[off + i].e; unsigned k = o->sym[off + i].i; while (j < n && o->st[off + j] == SYMB && o->sym[off + j].e == e && o->sym[off + j].i == k + (j - i)) ++j; b = mkExtract(e, k * 8, 8 * (j - i)); }
      else b = byteExpr(o, off + i);
      r = r ? mkConcat(b, r) : b; i = j; }
    if (w < 8 * n) r = mkExtract(r, 0, w);
    if (fp) return S(mkFFromB(r));
    return w > 64 ? Val{0, r} : S(r);
  }
  void storeC(u64 a, Val v, unsigned w, bool fp) {
    unsigned n = (w + 7) / 8; Obj* o = access(a, n, true); u64 off = a - o->base;
    if (!v.e) { if (n <= 8) memcpy(&o->data[off], &v.c, n); else { memcpy(&o->data[off], &v.c, 8); memset(&o->data[off + 8], 0, n - 8); } memset(&o->st[off], CONC, n); return; }
    Expr* e = fp ? mkBFromFP(v.e) : v.e;
    if (e->w < 8 * n) e = mkZExt(e, 8 * n);
    if (isC(e)) { storeC(a, C(e->c), w, false); return; }
    if (o->sym.empty()) o->sym.resize(o->size);
    for (unsigned i = 0; i < n; ++i) { o->sym[off + i] = {e, (uint8_t)i}; o->st[off + i] = SYMB; }
  }
  // feasible concrete addresses of a symbolic pointer inside one object
  std::vector<u64>& addrs(Expr* a, u64 n, bool write) {
    auto it = feas.find(a); if (it != feas.end()) return it->second;
    for (;;) {
      bool rep = trail.size() < prefix;
      u64 v = rep ? pre[trail.size()].v : evalBV(a, model);
      Obj* o = find(v);
      if (!o || o->freed || o->kind == KFunc || v < o->base || v - o->base > o->size || n > o->size - (v - o->base)) badAccess(v, n, write);
      Expr* in = mkAnd(mkCmp(PUle, bc(64, o->base), a), mkCmp(PUle, a, bc(64, o->base + o->size - n)));
      if (decide(in, v)) break;
    }
    std::vector<u64> r; std::vector<u64> cand;
    if (!O.concrete && !hasUF(a)) { // few combinations of the variables: a superset of the feasible addresses by evaluation (each use is guarded by address equality)
      const auto& vs = varsOf(a); u64 prod = 1; bool ok = vs.size() <= 4;
      for (int x : vs) { const VarInfo& vi = VARS[x]; u64 sp = vi.kind == 1 ? (u64)(vi.hi - vi.lo) : (u64)vi.hi; if (sp > 1024) { ok = false; break; } prod *= sp + 1; if (prod > 2048) { ok = false; break; } }
      if (ok) {
        std::vector<Expr*> cs; for (Expr* c : sol->pc) { const auto& w = varsOf(c); if (!w.empty() && !hasUF(c) && std::includes(vs.begin(), vs.end(), w.begin(), w.end())) cs.push_back(c); }
        Model m = model; for (int x : vs) if ((size_t)x >= m.v.size()) m.v.resize(x + 1, 0);
        std::set<u64> out; u64 lo = 0, hi = 0; { Obj* o = find(evalBV(a, model)); lo = o->base; hi = o->base + o->size - n; }
        for (u64 k = 0; k < prod; ++k) { u64 t = k; for (int x : vs) { const VarInfo& vi = VARS[x]; u64 sp = (vi.kind == 1 ? (u64)(vi.hi - vi.lo) : (u64)vi.hi) + 1; m.v[x] = (vi.kind == 1 ? (u64)vi.lo : 0) + t % sp; t /= sp; }
          evalNewEpoch(); bool good = true; for (Expr* c : cs) if (!((u64)evalE(c, m).u & 1)) { good = false; break; }
          if (!good) continue; u64 v = evalBV(a, m); if (v >= lo && v <= hi) out.insert(v); }
        evalNewEpoch();
        if (!out.empty() && out.size() <= 64) return feas[a] = std::vector<u64>(out.begin(), out.end());
      } }
    // enumerate feasible values with the solver
    Expr* block = btrue(); Model m = model; u64 v = evalBV(a, model);
    for (int k = 0; k < 64; ++k) {
      r.push_back(v); block = mkAnd(block, mkNot(mkEq(a, bc(64, v))));
      if (O.concrete) break;
      Res s = sol->check(block, &m, model);
      if (s == UNSAT) { std::sort(r.begin(), r.end()); return feas[a] = r; }
      if (s == UNKNOWN) { if (prof) fprintf(stderr, "addrs unknown\n"); r.clear(); break; }
      v = evalUnder(a, m);
    }
    if (O.concrete) return feas[a] = r;
    r.clear(); return feas[a] = r;      // empty: too many, fork instead
  }
  u64 evalUnder(Expr* e, const Model& m) { evalNewEpoch(); u64 v = evalBV(e, m); evalNewEpoch(); return v; }
  Val load(Val p, unsigned w, bool fp) {
    if (!p.e) return loadC(p.c, w, fp);
    auto& A = addrs(p.e, (w + 7) / 8, false);
    if (A.empty()) { u64 v = concretize(p.e); return loadC(v, w, fp); }
    Val r = loadC(A[0], w, fp);
    for (size_t i = 1; i < A.size(); ++i) {
      Val x = loadC(A[i], w, fp); Expr* c = mkEq(p.e, bc(64, A[i]));
      if (!x.e && !r.e && x.c == r.c) continue;
      if (fp) r = S(mkFIte(c, FE(x, w), FE(r, w))); else r = S(mkIte(c, EX(x, w), EX(r, w)));
    }
    return r;
  }
  void store(Val p, Val v, unsigned w, bool fp) {
    if (!p.e) { storeC(p.c, v, w, fp); return; }
    auto A = addrs(p.e, (w + 7) / 8, true);
    if (A.empty()) { u64 a = concretize(p.e); storeC(a, v, w, fp); return; }
    if (A.size() == 1) { storeC(A[0], v, w, fp); return; }
    for (u64 a : A) {
      Val old = loadC(a, w, fp); Expr* c = mkEq(p.e, bc(64, a)); Val nv;
      if (fp) nv = S(mkFIte(c, FE(v, w), FE(old, w))); else nv = S(mkIte(c, EX(v, w), EX(old, w)));
      storeC(a, nv, w, fp);
    }
  }
  u64 cval(Val v, unsigned w = 64) { return v.e ? concretize(v.e) : v.c; }
  std::string cstr(u64 a) { std::string s; if (!a) return s; for (;;) { Val v = loadC(a++, 8, false); char c = v.e ? (char)concretize(v.e) : (char)v.c; if (!c) return s; s += c; if (s.size() > 4000) return s; } }
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    Obj* so = access(s, n, false); Obj* dO = access(d, n, true); so = find(s);
    u64 so_ = s - so->base, do_ = d - dO->base;
    std::vector<uint8_t> td(so->data.begin() + so_, so->data.begin() + so_ + n), ts(so->st.begin() + so_, so->st.begin() + so_ + n);
    std::vector<SymByte> sy; bool anyS = memchr(ts.data(), SYMB, n) != nullptr; if (anyS) sy.assign(so->sym.begin() + so_, so->sym.begin() + so_ + n);
    memcpy(&dO->data[do_], td.data(), n); memcpy(&dO->st[do_], ts.data(), n);
    if (anyS) { if (dO->sym.empty()) dO->sym.resize(dO->size); for (u64 i = 0; i < n; ++i) if (ts[i] == SYMB) dO->sym[do_ + i] = sy[i]; }
  }
  // operand of a division: rewritten over few bits when the path condition keeps it small (bit-blasted 64-bit division is hopeless)
  Expr* small(Expr* e, unsigned w) {
    if (w != 64 || isC(e) || O.concrete || e->umax < (1ull << 31)) return e;
    { long lo, hi; if (signedRange(e, lo, hi) && lo >= 0) for (unsigned k : {12u, 24u, 40u}) if (hi < (1l << k)) return mkZExt(mkExtract(e, 0, k), 64); }
    for (unsigned k : {12u, 24u}) { Model m; if (sol->check(mkNot(mkCmp(PUlt, e, bc(64, 1ull << k))), &m, model) == UNSAT) return mkZExt(mkExtract(e, 0, k), 64); }
    return e; }
  static Val padd(Val p, u64 i) { return !p.e ? C(p.c + i) : i ? S(mkBin(BAdd, p.e, bc(64, i))) : p; }
  void copyMemV(Val d, Val s, u64 n) {
    if ((!d.e && !s.e) || n > 64 || O.concrete) { copyMem(cval(d), cval(s), n); return; }
    std::vector<Val> v; std::vector<unsigned> ns;
    for (u64 i = 0; i < n;) { unsigned k = n - i >= 4 && n % 4 == 0 ? 4 : 1; Val p = padd(s, i);
      if (n - i >= 8) { Val x = load(p, 64, false); if (x.e && x.e->op == BFromFP) { v.push_back(x); ns.push_back(8); i += 8; continue; } }
      v.push_back(load(p, k * 8, false)); ns.push_back(k); i += k; }
    u64 i = 0; for (size_t j = 0; j < v.size(); ++j) { store(padd(d, i), v[j], ns[j] * 8, false); i += ns[j]; }
  }
  void setMem(u64 d, Val v, u64 n) {
    if (!n) return;
    Obj* o = access(d, n, true); u64 off = d - o->base;
    if (!v.e) { memset(&o->data[off], (uint8_t)v.c, n); memset(&o->st[off], CONC, n); return; }
    for (u64 i = 0; i < n; ++i) storeC(d + i, v, 8, false);
  }
  // ----- symbolic inputs
  std::string uniq(const std::string& n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
  u64 inputConc(const std::string& nm, i64 lo, i64 hi) {
    auto it = fixedVals.find(nm); if (it != fixedVals.end()) return it->second;
    u64 span = (u64)hi - (u64)lo; u64 r = span == ~0ull ? rng() : lo + (i64)(rng() % (span + 1)); fixedVals[nm] = (i64)r; return r;
  }
  Expr* freshBV(const std::string& base, unsigned w, u64 max, i64 lo, int kind) {
    std::string nm = uniq(base) + (kind == 2 ? "" : ""); std::string key = nm + "$" + std::to_string(w) + "_" + std::to_string(max) + "_" + std::to_string(lo);
    int s = EP.sym(key); Expr* e = EP.get(BVar, SBV, w, s, 0, {}, 0, max, 0);
    if (!VARS.count(s)) VARS[s] = VarInfo{nm, e, lo, (i64)max, kind, w}, VARS[s].name = nm;
    pathVars.push_back(s);
    if ((size_t)s >= model.v.size()) model.v.resize(s + 1, 0);
    if (O.concrete && kind == 2) { model.v[s] = 0; }
    return e;
  }
  Val symInt(const std::string& n, i64 lo, i64 hi) {
    if (O.concrete) { std::string nm = uniq(n); return C(inputConc(nm, lo, hi)); }
    if (lo == hi) { uniq(n); return C(lo); }
    Expr* v = freshBV(n, 64, (u64)hi - (u64)lo, lo, 0);
    return S(mkBin(BAdd, v, bc(64, (u64)lo)));
  }
  Val symFP(const std::string& n, i64 lo, i64 hi, unsigned w) {
    if (O.concrete) { std::string nm = uniq(n); return C(fbits(w, (double)(i64)inputConc(nm, lo, hi))); }
    if (lo == hi) { uniq(n); return C(fbits(w, (double)lo)); }
    std::string nm = uniq(n); std::string key = nm + "$f_" + std::to_string(lo) + "_" + std::to_string(hi); int s = EP.sym(key);
    Expr* e = EP.get(IVar, SInt, 0, s, 0, {}, 0, 0, std::max(std::fabs((double)lo), std::fabs((double)hi)));
    if (!VARS.count(s)) VARS[s] = VarInfo{nm, e, lo, hi, 1, w};
    pathVars.push_back(s); if ((size_t)s >= model.v.size()) model.v.resize(s + 1, 0);
    if ((i64)model.v[s] < lo || (i64)model.v[s] > hi) model.v[s] = lo > 0 ? lo : hi;
    evalNewEpoch();
    return S(mkFX(w, e, 0));
  }

  // ----- control
  Frame* push(Fn* f, const Inst* call) {
    Frame* fr; if (!pool.empty()) { fr = pool.back(); pool.pop_back(); } else fr = new Frame;
    fr->f = f; fr->pc = 0; fr->s.assign(f->nslots, C(0)); fr->allocas.clear(); fr->call = call; stack.push_back(fr);
    if (stack.size() > 2000) fail("stack-overflow", "call depth exceeds 2000");
    f->used = true; return fr;
  }
  void pop() { Frame* f = stack.back(); for (Obj* o : f->allocas) { Obj* c = objs[o->base >> 32]; if (c) releaseObj(c); } pool.push_back(f); stack.pop_back(); }
  void jump(const Edge& e) {
    Frame* f = stack.back();
    if (e.moves.size() == 1) { auto& m = e.moves[0]; for (int i = 0; i < m.n; ++i) f->s[m.dst + i] = get(m.src, i); }
    else if (!e.moves.empty()) {
      static std::vector<Val> tmp; tmp.clear(); for (auto& m : e.moves) for (int i = 0; i < m.n; ++i) tmp.push_back(get(m.src, i));
      size_t k = 0; for (auto& m : e.moves) for (int i = 0; i < m.n; ++i) f->s[m.dst + i] = tmp[k++];
    }
    f->pc = f->f->blockStart[e.target];
  }
  void enter(Fn* f, const Inst* call, std::vector<Val>& args) {
    if (!f->compiled) { Compiler c(*f); c.run(); }
    Frame* fr = push(f, call); size_t k = 0;
    for (size_t i = 0; i < f->params.size(); ++i) {
      auto& p = f->params[i];
      if (f->byvalSize[i]) { Obj* o = allocObj(f->byvalSize[i], KStack, 16); fr->allocas.push_back(o); copyMem(o->base, cval(args[k]), f->byvalSize[i]); args[k] = C(o->base); }
      for (int j = 0; j < p.n; ++j) { if (k >= args.size()) endPath(2, "call signature mismatch"); fr->s[p.ref + j] = args[k++]; }
    }
  }
  // exceptions
  bool tiMatch(u64 thrown, u64 want);
  std::string tiName(u64 ti);
  void unwind(u64 obj, u64 ti);
  void throwStd(const char* ti, u64 objsize = 16);
  void doThrow(u64 obj, u64 ti) { curExcObj = obj; curExcTi = ti; unwind(obj, ti); }
  bool unwound = false;

  void call(Inst& in, Frame* fr);
  bool intrinsic(Inst& in, std::vector<Val>& a, Val* r);
  void exec();
  void runEntry(Fn* f);
  void finishCall(const Inst& in) { if (in.invoke) jump(in.edges[0]); }
};
static Machine M;

// ---------------------------------------------------------------- RTTI
static std::map<std::string, std::vector<std::string>> stdBases = {
  {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc"}}, {"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt11logic_error", {"_ZTISt9exception"}},
  {"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}}, {"_ZTISt12length_error", {"_ZTISt11logic_error"}}, {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}}, {"_ZTISt12domain_error", {"_ZTISt11logic_error"}},
  {"_ZTISt14overflow_error", {"_ZTISt13runtime_error"}}, {"_ZTISt11range_error", {"_ZTISt13runtime_error"}}, {"_ZTISt15underflow_error", {"_ZTISt13runtime_error"}}, {"_ZTISt8bad_cast", {"_ZTISt9exception"}}};
std::string Machine::tiName(u64 ti) { auto it = gByAddr.find(ti); return it == gByAddr.end() ? "?" : it->second->getName().str(); }
static void tiBases(u64 ti, std::vector<u64>& out, std::vector<std::string>& names) {
  auto it = gByAddr.find(ti); if (it == gByAddr.end()) return;
  const GlobalVariable* g = it->second; names.push_back(g->getName().str()); out.push_back(ti);
  if (g->hasInitializer()) {
    auto* c = dyn_cast<ConstantStruct>(g->getInitializer()); if (!c) return;
    std::string vt; if (auto* gv = dyn_cast<GlobalVariable>(c->getOperand(0)->stripInBoundsConstantOffsets())) vt = gv->getName().str();
    if (vt.find("__si_class_type_info") != std::string::npos) { if (auto* b = dyn_cast<GlobalVariable>(c->getOperand(2)->stripPointerCasts())) tiBases(globalAddr(b), out, names); }
    else if (vt.find("__vmi_class_type_info") != std::string::npos) for (unsigned i = 4; i < c->getNumOperands(); i += 2) if (auto* b = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts())) tiBases(globalAddr(b), out, names);
  } else {
    std::vector<std::string> q{g->getName().str()};
    while (!q.empty()) { std::string s = q.back(); q.pop_back(); auto j = stdBases.find(s); if (j != stdBases.end()) for (auto& b : j->second) { names.push_back(b); q.push_back(b); } }
  }
}
bool Machine::tiMatch(u64 thrown, u64 want) {
  if (!want) return true;
  std::vector<u64> b; std::vector<std::string> n; tiBases(thrown, b, n); std::string w = tiName(want);
  if (std::find(b.begin(), b.end(), want) != b.end()) return true;
  // names collected for external std types (bases may be named without an object)
  std::vector<std::string> q = n; while (!q.empty()) { std::string s = q.back(); q.pop_back(); if (s == w) return true; auto j = stdBases.find(s); if (j != stdBases.end()) for (auto& x : j->second) q.push_back(x); }
  return false;
}
void Machine::unwind(u64 obj, u64 ti) {
  // look for a handler first: without one std::terminate is called
  bool found = false;
  for (int i = (int)stack.size() - 1; i >= 0 && !found; --i) {
    const Inst& ci = stack[i]->f->code[stack[i]->pc - (i == (int)stack.size() - 1 ? 0 : 1)];
    if (!ci.invoke) continue;
    const Inst& lp = stack[i]->f->code[stack[i]->f->blockStart[ci.edges[1].target]];
    for (auto& c : lp.clauses) if (!c.filter && tiMatch(ti, c.ti)) found = true;
  }
  if (!found) fail("uncaught-exception", "uncaught exception of type " + demangle(tiName(ti).substr(0, 4) == "_ZTI" ? "_ZTS" + tiName(ti).substr(4) : tiName(ti)));
  for (;;) {
    Frame* f = stack.back(); const Inst& ci = f->f->code[f->pc];
    if (ci.op == XCall && ci.invoke) {
      const Inst& lp = f->f->code[f->f->blockStart[ci.edges[1].target]];
      u64 sel = 0; bool stop = lp.cleanup;
      for (auto& c : lp.clauses) {
        if (c.filter) { bool ok = false; for (u64 t : c.tis) if (tiMatch(ti, t)) ok = true; if (!ok) fail("abort", "exception specification violated"); continue; }
        if (tiMatch(ti, c.ti)) { sel = c.ti ? (c.ti >> 32) : 0x7fffffff; stop = true; break; }
      }
      if (stop) { jump(ci.edges[1]); Frame* g = stack.back(); const Inst& l2 = g->f->code[g->pc]; g->s[l2.dst] = C(obj); g->s[l2.dst + 1] = C(sel & 0xffffffff); const_cast<Inst&>(l2).hit = true; g->pc++; unwound = true; return; }
    }
    pop(); if (stack.empty()) fail("uncaught-exception", "uncaught exception"); stack.back()->pc--; // at the call again
  }
}
void Machine::throwStd(const char* tin, u64 sz) {
  GlobalVariable* g = MOD->getGlobalVariable(tin, true);
  if (!g) g = new GlobalVariable(*MOD, Type::getInt64Ty(LC), true, GlobalValue::ExternalLinkage, nullptr, tin);
  Obj* o = allocObj(sz, KHeap, 16); std::fill(o->st.begin(), o->st.end(), CONC); o->how = 9;
  doThrow(o->base, globalAddr(g));
}

// ---------------------------------------------------------------- calls
static double fpv(Val v, unsigned w) { return fconst(w, v.c); }
void Machine::call(Inst& in, Frame* fr) {
  static std::vector<Val> av; std::vector<Val> a; a.reserve(8);
  for (auto& r : in.args) for (int j = 0; j < r.n; ++j) a.push_back(get(r.ref, j));
  Fn* f = in.callee;
  if (!f) {
    u64 t = cval(get(in.a)); auto it = fnByAddr.find(t);
    if (it == fnByAddr.end()) fail("bad-call", "call through an invalid function pointer"); f = it->second;
  }
  if (in.intr) {
    Val r[8] = {C(0), C(0), C(0), C(0), C(0), C(0), C(0), C(0)};
    if (!intrinsic(in, a, r)) endPath(2, "unsupported intrinsic " + f->name);
    for (int i = 0; i < in.n && i < 8; ++i) fr->s[in.dst + i] = r[i];
    fr->pc++; finishCall(in); return;
  }
  if (f->handler >= 0) {
    Val r[4] = {C(0), C(0), C(0), C(0)}; unwound = false;
    handlers[f->handler](in, a, r);
    if (unwound) { unwound = false; return; }
    for (int i = 0; i < in.n && i < 4; ++i) fr->s[in.dst + i] = r[i];
    fr->pc++; finishCall(in); return;
  }
  if (f->decl) {
    static const char* ign[] = {"printf", "puts", "putchar", "fprintf", "fwrite", "fputc", "fflush", "setlocale", nullptr};
    for (int i = 0; ign[i]; ++i) if (f->name == ign[i]) { for (int j = 0; j < in.n; ++j) fr->s[in.dst + j] = C(0); fr->pc++; finishCall(in); return; }
    endPath(2, "unmodelled external " + f->name);
  }
  fr->pc++;
  enter(f, &in, a);
}
static Val fuf(const char* nm, unsigned w, std::vector<Expr*> a) { return S(mkFUF(w, std::string(nm) + std::to_string(w), a)); }
bool Machine::intrinsic(Inst& in, std::vector<Val>& a, Val* r) {
  unsigned w = in.w; int n = in.n;
  auto un = [&](double (*f)(double), float (*g)(float), const char* nm) { for (int i = 0; i < n; ++i) { if (!a[i].e) r[i] = C(w == 32 ? fbits(32, g((float)fpv(a[i], 32))) : fbits(64, f(fpv(a[i], 64)))); else r[i] = fuf(nm, w, {a[i].e}); } return true; };
  auto integral = [&](Val v) { return v.e && v.e->op == FX && v.e->aux <= 0; };
  switch (in.intr) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return true;
  case Intrinsic::stacksave: r[0] = C(0); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: { u64 k = cval(a[2]); if (k) copyMemV(a[0], a[1], k); return true; }
  case Intrinsic::memset: { u64 k = cval(a[2]); if (a[0].e && k && k <= 64 && !a[1].e && !O.concrete) { u64 x = a[1].c & 255; x |= x << 8; x |= x << 16; u64 i = 0; while (i < k) { u64 n = k - i >= 4 ? 4 : 1; store(padd(a[0], i), C(x & maskw(n * 8)), n * 8, false); i += n; } return true; } if (k) setMem(cval(a[0]), a[1], k); return true; }
  case Intrinsic::eh_typeid_for: r[0] = C((cval(a[0]) ? (cval(a[0]) >> 32) : 0x7fffffff) & 0xffffffff); return true;
  case Intrinsic::threadlocal_address: { u64 p = cval(a[0]); if (curFiber) { auto it = fibers[curFiber].tls.find(p); if (it != fibers[curFiber].tls.end()) p = it->second; } r[0] = C(p); return true; }
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r[0] = a[0]; return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: r[0] = a[0]; return true;
  case Intrinsic::objectsize: r[0] = C(maskw(w)); return true;
  case Intrinsic::is_constant: r[0] = C(0); return true;
  case Intrinsic::trap: fail("trap", "llvm.trap");
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
    for (int i = 0; i < n; ++i) {
      Val x = a[i], y = a[n + i]; bool sg = in.intr == Intrinsic::smin || in.intr == Intrinsic::smax, mn = in.intr == Intrinsic::umin || in.intr == Intrinsic::smin;
      if (!x.e && !y.e) { bool lt = sg ? sext64(x.c, w) < sext64(y.c, w) : x.c < y.c; r[i] = lt == mn ? x : y; }
      else { Expr* c = mkCmp(sg ? PSlt : PUlt, EX(x, w), EX(y, w)); r[i] = S(mn ? mkIte(c, EX(x, w), EX(y, w)) : mkIte(c, EX(y, w), EX(x, w))); }
    } return true;
  case Intrinsic::abs: for (int i = 0; i < n; ++i) { if (!a[i].e) { i64 v = sext64(a[i].c, w); r[i] = C((u64)(v < 0 ? -v : v) & maskw(w)); } else r[i] = S(mkIte(mkCmp(PSlt, a[i].e, bc(w, 0)), mkBin(BSub, bc(w, 0), a[i].e), a[i].e)); } return true;
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    unsigned W = scalarW(cast<StructType>(in.I->getType())->getElementType(0));
    Op op = (in.intr == Intrinsic::umul_with_overflow || in.intr == Intrinsic::smul_with_overflow) ? BMul : (in.intr == Intrinsic::uadd_with_overflow || in.intr == Intrinsic::sadd_with_overflow) ? BAdd : BSub;
    bool sg = in.intr == Intrinsic::smul_with_overflow || in.intr == Intrinsic::sadd_with_overflow || in.intr == Intrinsic::ssub_with_overflow;
    if (!a[0].e && !a[1].e) {
      __int128 x = sg ? (__int128)sext64(a[0].c, W) : (__int128)a[0].c, y = sg ? (__int128)sext64(a[1].c, W) : (__int128)a[1].c;
      __int128 z = op == BMul ? x * y : op == BAdd ? x + y : x - y; u64 lo = (u64)z & maskw(W); bool ov = sg ? z != (__int128)sext64(lo, W) : (z < 0 || z != (__int128)lo); r[0] = C(lo); r[1] = C(ov); return true;
    }
    Expr *x = EX(a[0], W), *y = EX(a[1], W);
    Expr* lo = mkBin(op, x, y); r[0] = S(lo); Expr* ov;
    if (!sg && op == BMul && (y->umax == 0 || x->umax <= maskw(W) / y->umax)) ov = bfalse();
    else if (!sg && op == BAdd) ov = x->umax <= maskw(W) - y->umax ? bfalse() : mkCmp(PUlt, lo, x);
    else if (!sg && op == BSub) ov = mkCmp(PUlt, x, y);
    else { Expr* X = sg ? mkSExt(x, 2 * W) : mkZExt(x, 2 * W); Expr* Y = sg ? mkSExt(y, 2 * W) : mkZExt(y, 2 * W); Expr* z = mkBin(op, X, Y); ov = mkNot(mkEq(z, sg ? mkSExt(lo, 2 * W) : mkZExt(lo, 2 * W))); }
    r[1] = S(ov); return true;
  }
  case Intrinsic::uadd_sat: { Expr *x = EX(a[0], w), *y = EX(a[1], w), *s = mkBin(BAdd, x, y); r[0] = S(mkIte(mkCmp(PUlt, s, x), bc(w, maskw(w)), s)); return true; }
  case Intrinsic::usub_sat: { Expr *x = EX(a[0], w), *y = EX(a[1], w); r[0] = S(mkIte(mkCmp(PUlt, x, y), bc(w, 0), mkBin(BSub, x, y))); return true; }
  case Intrinsic::ctpop: { u64 v = cval(a[0]); r[0] = C(__builtin_popcountll(v)); return true; }
  case Intrinsic::ctlz: { u64 v = cval(a[0]); r[0] = C(v ? __builtin_clzll(v) - (64 - w) : w); return true; }
  case Intrinsic::cttz: { u64 v = cval(a[0]); r[0] = C(v ? __builtin_ctzll(v) : w); return true; }
  case Intrinsic::bswap: {
    for (int k = 0; k < n; ++k) { if (!a[k].e) { u64 v = a[k].c, o = 0; for (unsigned i = 0; i < w / 8; ++i) o |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i); r[k] = C(o); }
    else { Expr* e = nullptr; for (unsigned i = 0; i < w / 8; ++i) { Expr* b = mkExtract(a[k].e, 8 * i, 8); e = e ? mkConcat(e, b) : b; } r[k] = S(e); } }
    return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    u64 s = cval(a[2]) % w; Expr *hi = EX(a[0], w), *lo = EX(a[1], w); Expr* cc = mkConcat(hi, lo);
    unsigned at = in.intr == Intrinsic::fshl ? w - s : s; if (in.intr == Intrinsic::fshl && s == 0) at = w; r[0] = S(mkExtract(cc, at, w)); return true; }
  case Intrinsic::fabs: for (int i = 0; i < n; ++i) r[i] = S(mkFAbs(FE(a[i], w))); return true;
  case Intrinsic::sqrt: return un(sqrt, sqrtf, "sqrt"); case Intrinsic::sin: return un(sin, sinf, "sin"); case Intrinsic::cos: return un(cos, cosf, "cos"); case Intrinsic::exp: return un(exp, expf, "exp"); case Intrinsic::exp2: return un(exp2, exp2f, "exp2"); case Intrinsic::log: return un(log, logf, "log"); case Intrinsic::log10: return un(log10, log10f, "log10"); case Intrinsic::log2: return un(log2, log2f, "log2");
  case Intrinsic::floor: if (integral(a[0])) { r[0] = a[0]; return true; } return un(floor, floorf, "floor");
  case Intrinsic::ceil: if (integral(a[0])) { r[0] = a[0]; return true; } return un(ceil, ceilf, "ceil");
  case Intrinsic::trunc: if (integral(a[0])) { r[0] = a[0]; return true; } return un(trunc, truncf, "trunc");
  case Intrinsic::rint: case Intrinsic::nearbyint: if (integral(a[0])) { r[0] = a[0]; return true; } return un(rint, rintf, "rint");
  case Intrinsic::round: if (integral(a[0])) { r[0] = a[0]; return true; } return un(round, roundf, "round");
  case Intrinsic::pow: if (!a[0].e && !a[1].e) r[0] = C(w == 32 ? fbits(32, powf(fpv(a[0], 32), fpv(a[1], 32))) : fbits(64, pow(fpv(a[0], 64), fpv(a[1], 64)))); else r[0] = fuf("pow", w, {FE(a[0], w), FE(a[1], w)}); return true;
  case Intrinsic::minnum: case Intrinsic::maxnum: { Expr *x = FE(a[0], w), *y = FE(a[1], w); Expr* c = mkFCmp(4, x, y); r[0] = S(in.intr == Intrinsic::minnum ? mkFIte(c, x, y) : mkFIte(c, y, x)); return true; }
  case Intrinsic::copysign: { if (!a[0].e && !a[1].e) { u64 sb = 1ull << (w - 1); r[0] = C((a[0].c & ~sb & maskw(w)) | (a[1].c & sb)); } else { Expr *x = mkFAbs(FE(a[0], w)), *y = FE(a[1], w); r[0] = S(mkFIte(mkFCmp(4, y, mkFC(w, 0)), mkFNeg(x), x)); } return true; }
  case Intrinsic::fmuladd: case Intrinsic::fma: for (int i = 0; i < n; ++i) r[i] = S(mkFBin("fadd", mkFBin("fmul", FE(a[i], w), FE(a[n + i], w)), FE(a[2 * n + i], w))); return true;
  case Intrinsic::is_fpclass: {
    unsigned mask = cval(a[1]); unsigned fw = scalarW(cast<CallBase>(in.I)->getArgOperand(0)->getType());
    if (!a[0].e) { double v = fpv(a[0], fw); bool res = false; int sb = std::signbit(v);
      if (std::isnan(v)) res = mask & 3; else if (std::isinf(v)) res = mask & (sb ? 4 : 0x200); else if (v == 0) res = mask & (sb ? 0x20 : 0x40); else if (!std::isnormal(fw == 32 ? (float)v : v)) res = mask & (sb ? 0x10 : 0x80); else res = mask & (sb ? 8 : 0x100);
      r[0] = C(res); return true; }
    if ((mask & ~0x207u) == 0) { r[0] = C(0); return true; }          // nan / inf tests of finite symbolic values
    if (mask == 0x1f8) { r[0] = C(1); return true; }
    if (mask == 0x60) { r[0] = S(mkFCmp(1, a[0].e, mkFC(fw, 0))); return true; }
    return false; }
  case Intrinsic::vector_reduce_add: { int k = a.size(); Expr* e = EX(a[0], w); for (int i = 1; i < k; ++i) e = mkBin(BAdd, e, EX(a[i], w)); r[0] = S(e); return true; }
  case Intrinsic::vector_reduce_or: { int k = a.size(); Expr* e = EX(a[0], w); for (int i = 1; i < k; ++i) e = mkBin(BOr, e, EX(a[i], w)); r[0] = S(e); return true; }
  case Intrinsic::vector_reduce_and: { int k = a.size(); Expr* e = EX(a[0], w); for (int i = 1; i < k; ++i) e = mkBin(BAnd, e, EX(a[i], w)); r[0] = S(e); return true; }
  }
  return false;
}

// ---------------------------------------------------------------- interpreter loop
void Machine::exec() {
  for (;;) {
    if (wantSwitch) { wantSwitch = false; nextFiber(); }
    Frame* fr = stack.back(); Inst& in = fr->f->code[fr->pc];
    in.hit = true;
    if ((++instrs & 0xfff) == 0) { if (instrs - pathInstr0 > O.maxinstr) endPath(4, "instruction budget of one path"); if (nowS() > deadline) endPath(4, "time budget"); }
    Val* s = fr->s.data();
    auto G = [&](int r, int i) -> Val { return r >= 0 ? s[r + i] : fr->f->consts[~r + i]; };
    switch (in.op) {
    case XBin: {
      unsigned w = in.w;
      for (int i = 0; i < in.n; ++i) {
        Val a = G(in.a, i), b = G(in.b, i);
        if (!a.e && !b.e) {
          u64 x = a.c, y = b.c, r; i64 p, q;
          switch (in.sub) {
          case BAdd: r = x + y; break; case BSub: r = x - y; break; case BMul: r = x * y; break;
          case BAnd: r = x & y; break; case BOr: r = x | y; break; case BXor: r = x ^ y; break;
          case BShl: r = y >= w ? 0 : x << y; break; case BLShr: r = y >= w ? 0 : x >> y; break;
          case BAShr: p = sext64(x, w); r = p >> (y >= w ? w - 1 : y); break;
          case BUDiv: if (!y) fail("div-by-zero", "unsigned division by zero"); r = x / y; break;
          case BURem: if (!y) fail("div-by-zero", "unsigned remainder by zero"); r = x % y; break;
          case BSDiv: p = sext64(x, w); q = sext64(y, w); if (!q) fail("div-by-zero", "division by zero"); r = q == -1 ? (u64)0 - (u64)p : (u64)(p / q); break;
          default: p = sext64(x, w); q = sext64(y, w); if (!q) fail("div-by-zero", "remainder by zero"); r = q == -1 ? 0 : p % q; break;
          }
          s[in.dst + i] = C(r & maskw(w));
        } else {
          Expr *x = EX(a, w), *y = EX(b, w);
          if (in.sub == BUDiv || in.sub == BURem || in.sub == BSDiv || in.sub == BSRem) {
            Expr* z = mkEq(y, bc(w, 0)); if (branch(z)) fail("div-by-zero", "division by zero");
            x = small(x, w); y = small(y, w);
          }
          s = fr->s.data(); s[in.dst + i] = S(mkBin((Op)in.sub, x, y)); if (w > 64) s[in.dst + i].e = mkBin((Op)in.sub, x, y);
        }
      }
      fr->pc++; break;
    }
    case XFBin: {
      unsigned w = in.w;
      for (int i = 0; i < in.n; ++i) {
        Val a = G(in.a, i), b = G(in.b, i);
        if (!a.e && !b.e) {
          if (w == 32) { float x, y, r; uint32_t u = a.c, v = b.c; memcpy(&x, &u, 4); memcpy(&y, &v, 4); switch (in.sub) { case 'a': r = x + y; break; case 's': r = x - y; break; case 'm': r = x * y; break; case 'd': r = x / y; break; default: r = fmodf(x, y); } memcpy(&u, &r, 4); s[in.dst + i] = C(u); }
          else if (w == 64) { double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); switch (in.sub) { case 'a': r = x + y; break; case 's': r = x - y; break; case 'm': r = x * y; break; case 'd': r = x / y; break; default: r = fmod(x, y); } u64 u; memcpy(&u, &r, 8); s[in.dst + i] = C(u); }
          else endPath(2, "long double arithmetic");
        } else {
          Expr *x = FE(a, w), *y = FE(b, w);
          if (in.sub == 'r') s[in.dst + i] = fuf("fmod", w, {x, y});
          else s[in.dst + i] = S(mkFBin(in.sub == 'a' ? "fadd" : in.sub == 's' ? "fsub" : in.sub == 'm' ? "fmul" : "fdiv", x, y));
        }
      }
      fr->pc++; break;
    }
    case XFNeg: for (int i = 0; i < in.n; ++i) { Val a = G(in.a, i); s[in.dst + i] = a.e ? S(mkFNeg(a.e)) : C(a.c ^ (1ull << (in.w - 1))); } fr->pc++; break;
    case XICmp: {
      unsigned w = in.w;
      for (int i = 0; i < in.n; ++i) {
        Val a = G(in.a, i), b = G(in.b, i);
        if (!a.e && !b.e) {
          bool r; i64 p = sext64(a.c, w), q = sext64(b.c, w);
          switch (in.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; default: r = p <= q; }
          s[in.dst + i] = C(r);
        } else {
          Expr *x = EX(a, w), *y = EX(b, w), *r;
          switch (in.sub) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_UGT: r = mkCmp(PUlt, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(PUle, y, x); break; case CmpInst::ICMP_ULT: r = mkCmp(PUlt, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(PUle, x, y); break; case CmpInst::ICMP_SGT: r = mkCmp(PSlt, y, x); break; case CmpInst::ICMP_SGE: r = mkCmp(PSle, y, x); break; case CmpInst::ICMP_SLT: r = mkCmp(PSlt, x, y); break; default: r = mkCmp(PSle, x, y); }
          s[in.dst + i] = S(r);
        }
      }
      fr->pc++; break;
    }
    case XFCmp: for (int i = 0; i < in.n; ++i) { Val a = G(in.a, i), b = G(in.b, i); s[in.dst + i] = S(mkFCmp(in.sub, FE(a, in.w), FE(b, in.w))); } fr->pc++; break;
    case XLoad: {
      Val p = G(in.a, 0);
      if (in.n == 1) { Val v = load(p, in.lay[0].first, in.idx[0]); fr->s[in.dst] = v; }
      else { for (int i = 0; i < in.n; ++i) { Val v = load(padd(p, in.lay[i].second), in.lay[i].first, in.idx[i]); fr->s[in.dst + i] = v; } }
      fr->pc++; break;
    }
    case XStore: {
      Val p = G(in.a, 0); int n = in.lay.size();
      if (n == 1) store(p, G(in.b, 0), in.lay[0].first, in.idx[0]);
      else { for (int i = 0; i < n; ++i) store(padd(p, in.lay[i].second), G(in.b, i), in.lay[i].first, in.idx[i]); }
      fr->pc++; break;
    }
    case XGep: {
      Val p = G(in.a, 0); u64 c = in.imm; Expr* e = nullptr;
      for (auto& g : in.gep) {
        Val v = G(g.ref, 0);
        if (!v.e) c += (u64)sext64(v.c, g.w) * (u64)g.scale;
        else { Expr* x = mkBin(BMul, g.w < 64 ? mkSExt(v.e, 64) : g.w > 64 ? mkExtract(v.e, 0, 64) : v.e, bc(64, (u64)g.scale)); e = e ? mkBin(BAdd, e, x) : x; }
      }
      if (!p.e && !e) s[in.dst] = C(p.c + c);
      else { Expr* b = EX(p, 64); if (e) b = mkBin(BAdd, b, e); s[in.dst] = S(mkBin(BAdd, b, bc(64, c))); }
      fr->pc++; break;
    }
    case XCast: {
      if (in.vec) { // bitcast between different element counts
        int n0 = in.imm; Expr* all = nullptr;
        for (int i = 0; i < n0; ++i) { Val a = G(in.a, i); Expr* e = in.c ? mkBFromFP(FE(a, in.w2)) : EX(a, in.w2); all = all ? mkConcat(e, all) : e; }
        for (int i = 0; i < in.n; ++i) { Expr* e = mkExtract(all, i * in.w, in.w); s[in.dst + i] = in.isfp ? S(mkFFromB(e)) : S(e); }
        fr->pc++; break;
      }
      unsigned w = in.w, w2 = in.w2;
      for (int i = 0; i < in.n; ++i) {
        Val a = G(in.a, i), r;
        switch (in.sub) {
        case Instruction::Trunc: r = a.e ? (w > 64 ? Val{0, mkExtract(a.e, 0, w)} : S(mkExtract(a.e, 0, w))) : C(a.c & maskw(w)); break;
        case Instruction::ZExt: r = a.e ? Val{0, mkZExt(a.e, w)} : w > 64 ? Val{0, mkConcat(bc(w - 64, 0), bc(64, a.c))} : C(a.c); break;
        case Instruction::SExt: r = a.e ? S(mkSExt(a.e, w)) : w > 64 ? Val{0, mkConcat(bc(w - 64, sext64(a.c, w2) < 0 ? ~0ull : 0), bc(64, (u64)sext64(a.c, w2)))} : C((u64)sext64(a.c, w2) & maskw(w)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: r = a.e ? S(w < w2 ? mkExtract(a.e, 0, w) : mkZExt(a.e, w)) : C(a.c & maskw(w)); break;
        case Instruction::BitCast: if (!a.e || in.isfp == in.c) r = a; else r = in.isfp ? S(mkFFromB(a.e)) : S(mkBFromFP(a.e)); break;
        case Instruction::FPExt: case Instruction::FPTrunc: if (w == 80 || w2 == 80) endPath(2, "long double"); r = S(mkFCast(FE(a, w2), w)); break;
        case Instruction::SIToFP: case Instruction::UIToFP: if (w == 80) endPath(2, "long double"); r = S(mkSIToFP(EX(a, w2), w, in.sub == Instruction::SIToFP)); break;
        case Instruction::FPToSI: case Instruction::FPToUI: if (w2 == 80) endPath(2, "long double"); r = S(mkFPToI(FE(a, w2), w, in.sub == Instruction::FPToSI)); break;
        case Instruction::AddrSpaceCast: r = a; break;
        default: endPath(2, "cast");
        }
        s[in.dst + i] = r;
      }
      fr->pc++; break;
    }
    case XSelect: {
      Val c0 = G(in.a, 0);
      for (int i = 0; i < in.n; ++i) {
        Val c = in.vec ? G(in.a, i) : c0; Val t = G(in.b, i), f = G(in.c, i);
        if (!c.e) { s[in.dst + i] = c.c ? t : f; continue; }
        unsigned w = in.lay[i].first;
        if (in.idx[i]) s[in.dst + i] = S(mkFIte(c.e, FE(t, w), FE(f, w))); else s[in.dst + i] = S(mkIte(c.e, EX(t, w), EX(f, w)));
      }
      fr->pc++; break;
    }
    case XAlloca: { u64 n = in.imm; if (in.c) n *= cval(G(in.a, 0)); Obj* o = allocObj(n, KStack, std::max(in.b, 16)); fr->allocas.push_back(o); fr->s[in.dst] = C(o->base); fr->pc++; break; }
    case XBr: jump(in.edges[0]); break;
    case XCondBr: { Val c = G(in.a, 0); bool d = c.e ? branch(c.e) : (c.c & 1); jump(in.edges[d ? 0 : 1]); break; }
    case XSwitch: {
      Val c = G(in.a, 0); size_t k = 0;
      if (!c.e) { for (size_t i = 0; i < in.cases.size(); ++i) if (in.cases[i] == c.c) { k = i + 1; break; } }
      else { for (size_t i = 0; i < in.cases.size(); ++i) if (branch(mkEq(c.e, bc(in.w, in.cases[i])))) { k = i + 1; break; } }
      jump(in.edges[k]); break;
    }
    case XRet: {
      Val r[16]; int n = in.n; std::vector<Val> big; Val* rp = r; if (n > 16) { big.resize(n); rp = big.data(); }
      for (int i = 0; i < n; ++i) rp[i] = G(in.a, i);
      const Inst* ci = fr->call; pop();
      if (stack.empty()) { if (curFiber == 0) return; fibers[curFiber].live = false; nextFiber(); break; }
      if (ci) { Frame* c = stack.back(); for (int i = 0; i < n && i < ci->n; ++i) c->s[ci->dst + i] = rp[i]; if (ci->invoke) jump(ci->edges[0]); }
      break;
    }
    case XCall: call(in, fr); break;
    case XExtractV: for (int i = 0; i < in.n; ++i) s[in.dst + i] = G(in.a, in.imm + i); fr->pc++; break;
    case XInsertV: { for (int i = 0; i < in.n; ++i) s[in.dst + i] = (i >= in.imm && i < in.imm + in.c) ? G(in.b, i - in.imm) : G(in.a, i); fr->pc++; break; }
    case XExtractE: { u64 k = cval(G(in.b, 0)); fr->s[in.dst] = get(in.a, k); fr->pc++; break; }
    case XInsertE: { u64 k = cval(G(in.c, 0)); for (int i = 0; i < in.n; ++i) fr->s[in.dst + i] = i == (int)k ? get(in.b) : get(in.a, i); fr->pc++; break; }
    case XShuffle: { std::vector<Val> t; for (int m : in.idx) t.push_back(m < 0 ? C(0) : m < in.imm ? G(in.a, m) : G(in.b, m - in.imm)); for (size_t i = 0; i < t.size(); ++i) s[in.dst + i] = t[i]; fr->pc++; break; }
    case XFreeze: for (int i = 0; i < in.n; ++i) s[in.dst + i] = G(in.a, i); fr->pc++; break;
    case XUnreachable: fail("unreachable", "control reaches undefined behaviour");
    case XResume: { u64 obj = curExcObj, ti = curExcTi; pop(); if (stack.empty()) fail("uncaught-exception", "uncaught exception"); stack.back()->pc--; unwind(obj, ti); unwound = false; break; }
    case XLandingPad: endPath(2, "landing pad reached by fallthrough");
    case XRMW: {
      Val p = G(in.a, 0), v = G(in.b, 0); Val old = load(p, in.w, in.isfp), nv; unsigned w = in.w;
      switch (in.sub) {
      case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = S(mkBin(BAdd, EX(old, w), EX(v, w))); break; case AtomicRMWInst::Sub: nv = S(mkBin(BSub, EX(old, w), EX(v, w))); break;
      case AtomicRMWInst::And: nv = S(mkBin(BAnd, EX(old, w), EX(v, w))); break; case AtomicRMWInst::Or: nv = S(mkBin(BOr, EX(old, w), EX(v, w))); break; default: endPath(2, "atomicrmw");
      }
      store(p, nv, w, in.isfp); fr->s[in.dst] = old; fr->pc++; break;
    }
    case XCmpXchg: {
      Val p = G(in.a, 0), c = G(in.b, 0), nv = G(in.c, 0); Val old = load(p, in.w, false); Expr* eq = mkEq(EX(old, in.w), EX(c, in.w));
      bool d = isC(eq) ? eq->c : branch(eq); if (d) store(p, nv, in.w, false); fr->s[in.dst] = old; fr->s[in.dst + 1] = C(d); fr->pc++; break;
    }
    case XUnsup: { std::string t; raw_string_ostream os(t); in.I->print(os); endPath(2, "unsupported instruction" + t); }
    default: endPath(2, "bad opcode");
    }
  }
}

// ---------------------------------------------------------------- external functions
static void H(const char* n, Handler h) { handlerIdx[n] = handlers.size(); handlers.push_back(h); }
static Obj* heap(u64 n, u64 align, int how) { if (n > (1ull << 31)) return nullptr; Obj* o = allocObj(n, KHeap, align); o->how = how; return o; }
static void doFree(u64 p, int how) {
  if (!p) return;
  Obj* o = M.find(p);
  if (!o || o->kind != KHeap) M.fail("bad-free", "free of a pointer that was not allocated on the heap");
  if (o->freed) M.fail("double-free", "heap block freed twice");
  if (o->base != p) M.fail("bad-free", "free of a pointer inside a heap block");
  if (o->how != how) M.fail("alloc-mismatch", "block released with the wrong deallocation function");
  o = wr(o); o->freed = true; std::vector<uint8_t>().swap(o->data); std::vector<uint8_t>().swap(o->st); std::vector<SymByte>().swap(o->sym);
}
#define A64(i) M.cval(a[i])
static void setupHandlers() {
  auto nop = [](const Inst&, std::vector<Val>&, Val*) {};
  auto zero = [](const Inst&, std::vector<Val>&, Val* r) { r[0] = C(0); };
  H("malloc", [](const Inst&, std::vector<Val>& a, Val* r) { Obj* o = heap(A64(0), 16, 1); r[0] = C(o ? o->base : 0); });
  H("calloc", [](const Inst&, std::vector<Val>& a, Val* r) { Obj* o = heap(A64(0) * A64(1), 16, 1); if (o) std::fill(o->st.begin(), o->st.end(), CONC); r[0] = C(o ? o->base : 0); });
  H("realloc", [](const Inst&, std::vector<Val>& a, Val* r) { u64 p = A64(0), n = A64(1); Obj* o = heap(n, 16, 1); if (p) { Obj* q = M.access(p, 0, false); u64 k = std::min(n, q->size); M.copyMem(o->base, p, k); doFree(p, 1); } r[0] = C(o->base); });
  H("free", [](const Inst&, std::vector<Val>& a, Val*) { doFree(A64(0), 1); });
  auto memalign = [](const Inst&, std::vector<Val>& a, Val* r) { Obj* o = heap(A64(1), A64(0), 1); r[0] = C(o ? o->base : 0); };
  H("memalign", memalign); H("aligned_alloc", memalign); H("_mm_malloc", [](const Inst&, std::vector<Val>& a, Val* r) { Obj* o = heap(A64(0), A64(1), 1); r[0] = C(o ? o->base : 0); });
  H("posix_memalign", [](const Inst&, std::vector<Val>& a, Val* r) { u64 al = A64(1); if (al & (al - 1) || al % 8) { r[0] = C(22); return; } Obj* o = heap(A64(2), al, 1); if (!o) { r[0] = C(12); return; } M.storeC(A64(0), C(o->base), 64, false); r[0] = C(0); });
  auto nw = [](int how) { return [how](const Inst&, std::vector<Val>& a, Val* r) { Obj* o = heap(A64(0), 16, how); if (!o) { M.throwStd("_ZTISt9bad_alloc"); return; } r[0] = C(o->base); }; };
  H("_Znwm", nw(2)); H("_Znam", nw(3)); H("_ZnwmRKSt9nothrow_t", nw(2)); H("_ZnamRKSt9nothrow_t", nw(3));
  H("_ZnwmSt11align_val_t", [](const Inst&, std::vector<Val>& a, Val* r) { Obj* o = heap(A64(0), A64(1), 4); if (!o) { M.throwStd("_ZTISt9bad_alloc"); return; } r[0] = C(o->base); });
  H("_ZdlPv", [](const Inst&, std::vector<Val>& a, Val*) { doFree(A64(0), 2); }); H("_ZdlPvm", [](const Inst&, std::vector<Val>& a, Val*) { doFree(A64(0), 2); });
  H("_ZdaPv", [](const Inst&, std::vector<Val>& a, Val*) { doFree(A64(0), 3); }); H("_ZdaPvm", [](const Inst&, std::vector<Val>& a, Val*) { doFree(A64(0), 3); });
  H("_ZdlPvSt11align_val_t", [](const Inst&, std::vector<Val>& a, Val*) { doFree(A64(0), 4); }); H("_ZdlPvmSt11align_val_t", [](const Inst&, std::vector<Val>& a, Val*) { doFree(A64(0), 4); });
  auto mcpy = [](const Inst&, std::vector<Val>& a, Val* r) { u64 n = A64(2); M.copyMem(A64(0), A64(1), n); r[0] = a[0]; };
  H("memcpy", mcpy); H("memmove", mcpy);
  H("memset", [](const Inst&, std::vector<Val>& a, Val* r) { Val v = a[1]; if (v.e) v = S(mkExtract(v.e, 0, 8)); else v.c &= 255; M.setMem(A64(0), v, A64(2)); r[0] = a[0]; });
  auto mcmp = [](const Inst&, std::vector<Val>& a, Val* r) {
    u64 p = A64(0), q = A64(1), n = A64(2);
    for (u64 i = 0; i < n; ++i) { Val x = M.loadC(p + i, 8, false), y = M.loadC(q + i, 8, false);
      if (!x.e && !y.e) { if (x.c != y.c) { r[0] = C(x.c < y.c ? 0xffffffff : 1); return; } continue; }
      Expr *ex = EX(x, 8), *ey = EX(y, 8); if (M.branch(mkEq(ex, ey))) continue; r[0] = C(M.branch(mkCmp(PUlt, ex, ey)) ? 0xffffffff : 1); return; }
    r[0] = C(0); };
  H("memcmp", mcmp); H("bcmp", mcmp);
  H("strlen", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = C(M.cstr(A64(0)).size()); });
  H("strcmp", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = C((uint32_t)strcmp(M.cstr(A64(0)).c_str(), M.cstr(A64(1)).c_str())); });
  H("strncmp", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = C((uint32_t)strncmp(M.cstr(A64(0)).c_str(), M.cstr(A64(1)).c_str(), A64(2))); });
  H("getenv", zero); H("secure_getenv", zero);
  H("abort", [](const Inst&, std::vector<Val>&, Val*) { M.fail("abort", "abort() called"); });
  H("exit", [](const Inst&, std::vector<Val>&, Val*) { M.fail("abort", "exit() called"); });
  H("_exit", [](const Inst&, std::vector<Val>&, Val*) { M.fail("abort", "_exit() called"); });
  H("_ZSt9terminatev", [](const Inst&, std::vector<Val>&, Val*) { M.fail("abort", "std::terminate() called"); });
  H("__assert_fail", [](const Inst&, std::vector<Val>& a, Val*) { std::string e = M.cstr(A64(0)), f = M.cstr(A64(1)); auto k = f.find("/src/"); if (k != std::string::npos) f = f.substr(k + 1); M.fail("abort", "assertion failed in the library: " + e + " (" + f + ":" + std::to_string(A64(2)) + ")"); });
  H("__cxa_pure_virtual", [](const Inst&, std::vector<Val>&, Val*) { M.fail("abort", "pure virtual call"); });
  H("__cxa_atexit", zero); H("atexit", zero); H("__cxa_thread_atexit", zero);
  H("__cxa_guard_acquire", [](const Inst&, std::vector<Val>& a, Val* r) { u64 p = A64(0); Val v = M.loadC(p, 8, false); r[0] = C(!v.e && v.c ? 0 : 1); });
  H("__cxa_guard_release", [](const Inst&, std::vector<Val>& a, Val*) { M.storeC(A64(0), C(1), 8, false); });
  H("__cxa_guard_abort", nop);
  H("__cxa_allocate_exception", [](const Inst&, std::vector<Val>& a, Val* r) { Obj* o = heap(A64(0), 16, 9); r[0] = C(o->base); });
  H("__cxa_free_exception", nop);
  H("__cxa_throw", [](const Inst&, std::vector<Val>& a, Val*) { M.doThrow(A64(0), A64(1)); });
  H("__cxa_begin_catch", [](const Inst&, std::vector<Val>& a, Val* r) { M.caught.push_back({M.curExcObj, M.curExcTi}); r[0] = a[0]; });
  H("__cxa_get_exception_ptr", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = a[0]; });
  H("__cxa_end_catch", [](const Inst&, std::vector<Val>&, Val*) { if (!M.caught.empty()) M.caught.pop_back(); });
  H("__cxa_rethrow", [](const Inst&, std::vector<Val>&, Val*) { if (M.caught.empty()) M.fail("abort", "rethrow without exception"); Exc e = M.caught.back(); M.caught.pop_back(); M.doThrow(e.obj, e.ti); });
  H("_Unwind_Resume", [](const Inst&, std::vector<Val>&, Val*) { M.fail("abort", "_Unwind_Resume"); });
  H("_ZSt17__throw_bad_allocv", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt9bad_alloc"); });
  H("_ZSt28__throw_bad_array_new_lengthv", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt20bad_array_new_length"); });
  H("__cxa_throw_bad_array_new_length", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt20bad_array_new_length"); });
  H("_ZSt20__throw_length_errorPKc", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt12length_error"); });
  H("_ZSt24__throw_out_of_range_fmtPKcz", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt12out_of_range"); });
  H("_ZSt20__throw_out_of_rangePKc", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt12out_of_range"); });
  H("_ZSt19__throw_logic_errorPKc", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt11logic_error"); });
  H("__cxa_bad_cast", [](const Inst&, std::vector<Val>&, Val*) { M.throwStd("_ZTISt8bad_cast"); });
  for (const char* n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12domain_errorC1EPKc", "_ZNSt12domain_errorD1Ev", "_ZNSt12length_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt11range_errorC1EPKc", "_ZNSt14overflow_errorC1EPKc", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) H(n, nop);
  H("__dynamic_cast", [](const Inst&, std::vector<Val>& a, Val* r) {
    u64 p = A64(0), want = A64(2); if (!p) { r[0] = C(0); return; }
    u64 vt = M.cval(M.loadC(p, 64, false)); u64 ti = M.cval(M.loadC(vt - 8, 64, false)); i64 top = (i64)M.cval(M.loadC(vt - 16, 64, false));
    r[0] = C(M.tiMatch(ti, want) ? p + top : 0); });
  for (const char* n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once", "pthread_key_create", "pthread_setspecific", "sched_yield", "usleep", "gettimeofday", "clock_gettime"}) H(n, zero);
  // libm
  auto m1 = [](const char* nm, double (*f)(double), float (*g)(float)) {
    std::string s = nm;
    H(strdup(s.c_str()), [s, f](const Inst&, std::vector<Val>& a, Val* r) { r[0] = a[0].e ? fuf(s.c_str(), 64, {a[0].e}) : C(fbits(64, f(fpv(a[0], 64)))); });
    H(strdup((s + "f").c_str()), [s, g](const Inst&, std::vector<Val>& a, Val* r) { r[0] = a[0].e ? fuf(s.c_str(), 32, {a[0].e}) : C(fbits(32, g((float)fpv(a[0], 32)))); });
  };
#define M1(x) m1(#x, (double (*)(double))x, (float (*)(float))x##f)
  M1(sin); M1(cos); M1(tan); M1(asin); M1(acos); M1(atan); M1(sinh); M1(cosh); M1(tanh); M1(exp); M1(exp2); M1(log); M1(log10); M1(log2); M1(log1p); M1(expm1); M1(sqrt); M1(cbrt); M1(floor); M1(ceil); M1(rint); M1(round); M1(trunc); M1(asinh); M1(acosh); M1(atanh); M1(tgamma); M1(lgamma); M1(erf); M1(nearbyint);
  auto m2 = [](const char* nm, double (*f)(double, double), float (*g)(float, float)) {
    std::string s = nm;
    H(strdup(s.c_str()), [s, f](const Inst&, std::vector<Val>& a, Val* r) { r[0] = a[0].e || a[1].e ? fuf(s.c_str(), 64, {FE(a[0], 64), FE(a[1], 64)}) : C(fbits(64, f(fpv(a[0], 64), fpv(a[1], 64)))); });
    H(strdup((s + "f").c_str()), [s, g](const Inst&, std::vector<Val>& a, Val* r) { r[0] = a[0].e || a[1].e ? fuf(s.c_str(), 32, {FE(a[0], 32), FE(a[1], 32)}) : C(fbits(32, g((float)fpv(a[0], 32), (float)fpv(a[1], 32)))); });
  };
#define M2(x) m2(#x, (double (*)(double, double))x, (float (*)(float, float))x##f)
  M2(pow); M2(atan2); M2(fmod); M2(hypot); M2(copysign); M2(fmin); M2(fmax); M2(remainder); M2(fdim);
  H("ldexp", [](const Inst&, std::vector<Val>& a, Val* r) { int k = (int)M.cval(a[1], 32); if (a[0].e) r[0] = S(mkFBin("fmul", a[0].e, mkFC(64, fbits(64, ldexp(1.0, k))))); else r[0] = C(fbits(64, ldexp(fpv(a[0], 64), k))); });
  H("ldexpf", [](const Inst&, std::vector<Val>& a, Val* r) { int k = (int)M.cval(a[1], 32); if (a[0].e) r[0] = S(mkFBin("fmul", a[0].e, mkFC(32, fbits(32, ldexp(1.0, k))))); else r[0] = C(fbits(32, ldexp(fpv(a[0], 32), k))); });
  // complex multiplication/division helpers (operands finite)
  auto mulc = [](unsigned w) { return [w](const Inst& in, std::vector<Val>& a, Val* r) {
    Expr *p = FE(a[0], w), *q = FE(a[1], w), *x = FE(a[2], w), *y = FE(a[3], w);
    r[0] = S(mkFBin("fsub", mkFBin("fmul", p, x), mkFBin("fmul", q, y))); r[1] = S(mkFBin("fadd", mkFBin("fmul", p, y), mkFBin("fmul", q, x))); }; };
  H("__mulsc3", mulc(32)); H("__muldc3", mulc(64));
  auto divc = [](unsigned w) { return [w](const Inst& in, std::vector<Val>& a, Val* r) {
    if (!a[0].e && !a[1].e && !a[2].e && !a[3].e) {
      if (w == 32) { float _Complex z, u, v; __real__ u = fpv(a[0], 32); __imag__ u = fpv(a[1], 32); __real__ v = fpv(a[2], 32); __imag__ v = fpv(a[3], 32); z = u / v; r[0] = C(fbits(32, __real__ z)); r[1] = C(fbits(32, __imag__ z)); }
      else { double _Complex z, u, v; __real__ u = fpv(a[0], 64); __imag__ u = fpv(a[1], 64); __real__ v = fpv(a[2], 64); __imag__ v = fpv(a[3], 64); z = u / v; r[0] = C(fbits(64, __real__ z)); r[1] = C(fbits(64, __imag__ z)); }
      return; }
    std::vector<Expr*> v{FE(a[0], w), FE(a[1], w), FE(a[2], w), FE(a[3], w)}; r[0] = fuf("cdiv_re", w, v); r[1] = fuf("cdiv_im", w, v); }; };
  H("__divsc3", divc(32)); H("__divdc3", divc(64));
  // harness interface
  H("vsx_int", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = M.symInt(M.cstr(A64(0)), (i64)A64(1), (i64)A64(2)); });
  H("vsx_f64", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = M.symFP(M.cstr(A64(0)), (i64)A64(1), (i64)A64(2), 64); });
  H("vsx_f32", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = M.symFP(M.cstr(A64(0)), (i64)A64(1), (i64)A64(2), 32); });
  H("vsx_assume", [](const Inst&, std::vector<Val>& a, Val*) {
    Expr* c = mkNot(mkEq(EX(a[0], 32), bc(32, 0)));
    if (isC(c)) { if (!c->c) endPath(3, "assumption false"); return; }
    if (O.concrete) { if (!M.evalB(c)) endPath(3, "assumption false"); return; }
    if (M.trail.size() < M.prefix) { M.trail.push_back({1, 0}); M.addPC(c); return; }
    if (hasUF(c) || !M.evalB(c)) { Model m; Res s = M.sol->check(c, &m, M.model); if (s == UNSAT) endPath(3, "assumption false"); if (s == UNKNOWN) { M.inconcl["solver unknown at an assumption"]++; endPath(3, ""); } M.setModel(m); }
    M.trail.push_back({1, 0}); M.addPC(c); });
  H("vsx_assert", [](const Inst&, std::vector<Val>& a, Val*) {
    std::string msg = M.cstr(A64(1)); M.assertsHit++; M.assertMsgs[msg]++;
    Expr* c = mkNot(mkEq(EX(a[0], 32), bc(32, 0)));
    if (isC(c)) { M.assertsConcrete++; if (O.concrete) M.obs.push_back(c->c); if (!c->c) { M.violation("assert", msg, M.model); } return; }
    if (O.concrete) { M.obs.push_back(M.evalB(c)); return; }
    M.assertsSym++;
    if (M.trail.size() < M.prefix) { // already decided when the prefix was explored
      M.trail.push_back({1, 0}); M.addPC(c); return; }
    if (getenv("VSX_QUERY")) fprintf(stderr, "QUERY %s: %s\n", msg.c_str(), estr(c, 14).substr(0, 4000).c_str());
    Model m; Res s;
    if (!hasUF(c) && !M.evalB(c)) { s = SAT; m = M.model; SS.guessed++; } else s = M.sol->check(mkNot(c), &m, M.model);
    if (s == SAT) { if (getenv("VSX_DUMP")) fprintf(stderr, "VIOLATED %s: uf %d %s\n", msg.c_str(), (int)hasUF(c), estr(c, 14).substr(0, 4000).c_str()); M.violation("assert", msg, m);
      if (hasMul(c) || !M.feasibleSide(c)) endPath(1, msg);
    } else if (s == UNKNOWN) M.inconcl["solver unknown at assertion: " + msg]++;
    M.trail.push_back({1, 0}); if (s != UNSAT) M.addPC(c); });
  H("vsx_cover", [](const Inst&, std::vector<Val>& a, Val*) { M.covers[M.cstr(A64(0))]++; });
  H("vsx_pick", [](const Inst&, std::vector<Val>& a, Val* r) { r[0] = C(A64(0)); });
  H("vsx_obs", [](const Inst&, std::vector<Val>& a, Val*) { if (O.concrete) { double v; u64 c = a[0].e ? fbits(64, evalE(a[0].e, M.model).d) : a[0].c; memcpy(&v, &c, 8); M.obs.push_back(v); } });
  H("vsx_uf", [](const Inst&, std::vector<Val>& a, Val* r) { std::string nm = M.cstr(A64(0)); u64 p = A64(1); int n = (int)M.cval(a[2], 32); std::vector<Expr*> v; for (int i = 0; i < n; ++i) { Val x = M.loadC(p + 8 * i, 64, true); v.push_back(FE(x, 64)); } r[0] = S(mkFUF(64, "uf_" + nm, v)); });
  H("vsx_leak_mark", [](const Inst&, std::vector<Val>&, Val*) { M.leakMark = nextSeq; });
  H("vsx_leaks", [](const Inst&, std::vector<Val>&, Val* r) { u64 n = 0; for (Obj* o : objs) if (o && o->kind == KHeap && !o->freed && o->how != 9 && o->seq > M.leakMark) n++; r[0] = C(n); });
  H("vsx_writable", [](const Inst&, std::vector<Val>& a, Val* r) { u64 p = A64(0), n = A64(1); Obj* o = M.find(p); r[0] = C(o && !o->freed && p >= o->base && p - o->base <= o->size && n <= o->size - (p - o->base)); });
  H("vsx_param", [](const Inst&, std::vector<Val>&, Val* r) { r[0] = C((uint32_t)O.param); });
  H("vsx_symbolic", [](const Inst&, std::vector<Val>&, Val* r) { r[0] = C(1); });
  H("vsx_spawn", [](const Inst&, std::vector<Val>& a, Val* r) {
    auto it = fnByAddr.find(A64(0)); if (it == fnByAddr.end()) M.fail("bad-call", "vsx_spawn");
    int k = M.fibers.size(), me = M.curFiber; M.fibers.push_back(Machine::Fiber());
    for (auto& g : MOD->globals()) if (g.isThreadLocal()) { u64 ad = gaddr[&g]; Obj* o = objs[ad >> 32]; Obj* b = (ad >> 32) < snapObjs.size() ? snapObjs[ad >> 32] : o; Obj* n = allocObj(b->size, KGlobal, 32); n->data = b->data; n->st = b->st; M.fibers[k].tls[ad] = n->base; }
    M.switchTo(k); std::vector<Val> av{C(A64(1))}; M.enter(it->second, nullptr, av); M.switchTo(me); r[0] = C(k); });
  H("vsx_yield", [](const Inst&, std::vector<Val>&, Val*) { M.wantSwitch = true; if (++M.idle > 200000) M.fail("deadlock", "no thread makes progress"); });
  H("vsx_self", [](const Inst&, std::vector<Val>&, Val* r) { r[0] = C(M.curFiber); });
  H("vsx_alive", [](const Inst&, std::vector<Val>&, Val* r) { int n = 0; for (size_t i = 0; i < M.fibers.size(); ++i) if ((int)i != M.curFiber && M.fibers[i].live) ++n; r[0] = C(n); });
  H("vsx_expect_abort", [](const Inst&, std::vector<Val>&, Val*) { M.expectAbort = true; });
}

// ---------------------------------------------------------------- driver
static void restoreImage() {
  for (size_t i = 0; i < objs.size(); ++i) { Obj* o = objs[i]; if (o && !o->base_image) { if (o->kind == KFunc) continue; objPool.push_back(o); } }
  objs = snapObjs; freeIds = snapFree; quarantine = snapQ; nextSeq = snapSeq;
}
void Machine::runEntry(Fn* f) {
  while (!stack.empty()) { pool.push_back(stack.back()); stack.pop_back(); }
  for (auto& f : fibers) for (auto* x : f.stack) pool.push_back(x);
  fibers.clear(); fibers.push_back(Fiber()); curFiber = 0; wantSwitch = false; idle = 0;
  std::vector<Val> none; enter(f, nullptr, none); exec();
}
static void writeOut(const std::string& status, bool complete, double wall);
static void profOut() { if (!M.prof) return; std::vector<std::pair<u64, std::string>> v; for (auto& k : M.forks) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; ++i) fprintf(stderr, "%8lu  %s\n", (unsigned long)v[i].first, v[i].second.c_str()); }
static int explore(Fn* entry, double wall0) {
  bool first = true;
  while (!M.work.empty() && !M.stopAll) {
    if (nowS() > M.deadline || M.paths >= O.maxpaths) { M.exhausted = M.work.size(); break; }
    Work w = std::move(M.work.back()); M.work.pop_back();
    // restore code fn objects created lazily stay valid: they are appended to every image
    restoreImage();
    M.sol->reset(); M.trail.clear(); M.pre = w.pre; M.prefix = w.pre.size(); M.setModel(w.m); M.nameCount.clear(); M.pathVars.clear(); M.caught.clear(); M.feas.clear(); M.leakMark = 0; M.expectAbort = false; M.pathInstr0 = M.instrs;
    M.paths++; first = false;
    try { M.runEntry(entry); M.pathsOk++; }
    catch (PathEnd& p) {
      if (p.kind == 0) M.pathsOk++; else if (p.kind == 2) M.inconcl[p.msg]++; else if (p.kind == 3) M.infeasible++; else if (p.kind == 4) { M.inconcl[p.msg]++; M.exhausted++; }
    }
    catch (std::exception& e) { M.inconcl[std::string("engine: ") + e.what()]++; }
  }
  return 0;
}
static void writeOut(const std::string& status, bool complete, double wall) {
  std::ostringstream o; o << "{";
  o << "\"status\":" << jstr(status) << ",\"complete\":" << (complete ? "true" : "false") << ",\"entry\":" << jstr(O.entry) << ",\"param\":" << O.param;
  o << ",\"paths\":" << M.paths << ",\"paths_ok\":" << M.pathsOk << ",\"infeasible\":" << M.infeasible << ",\"instrs\":" << M.instrs << ",\"branches\":" << M.branches << ",\"unexplored\":" << M.exhausted;
  o << ",\"asserts\":" << M.assertsHit << ",\"asserts_folded\":" << M.assertsConcrete << ",\"asserts_solver\":" << M.assertsSym;
  o << ",\"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"unknown\":" << SS.unknown << ",\"solver_s\":" << SS.time << ",\"wall_s\":" << wall;
  auto mp = [&](const char* n, std::map<std::string, u64>& m) { o << ",\"" << n << "\":{"; bool f = true; for (auto& k : m) { if (!f) o << ","; f = false; o << jstr(k.first) << ":" << k.second; } o << "}"; };
  mp("inconclusive", M.inconcl); mp("covers", M.covers); mp("assert_msgs", M.assertMsgs);
  o << ",\"violations\":["; bool f = true;
  for (auto& v : M.viols) { if (!f) o << ","; f = false; o << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"stack\":["; for (size_t i = 0; i < v.stack.size(); ++i) o << (i ? "," : "") << jstr(v.stack[i]); o << "],\"inputs\":{"; bool g = true; for (auto& k : v.inputs) { if (!g) o << ","; g = false; o << jstr(k.first) << ":" << k.second; } o << "}}"; }
  o << "]";
  if (O.concrete) { o << ",\"obs\":["; for (size_t i = 0; i < M.obs.size(); ++i) { char b[64]; double d = M.obs[i]; if (std::isnan(d)) snprintf(b, 64, "\"nan\""); else if (std::isinf(d)) snprintf(b, 64, d > 0 ? "\"inf\"" : "\"-inf\""); else snprintf(b, 64, "%.17g", d); o << (i ? "," : "") << b; } o << "],\"values\":{"; bool g = true; for (auto& k : M.fixedVals) { if (!g) o << ","; g = false; o << jstr(k.first) << ":" << k.second; } o << "}"; }
  // coverage
  std::map<std::string, std::set<unsigned>> lines; std::set<std::string> funcs; u64 nfun = 0, nins = 0, nhit = 0;
  for (auto& kv : fns) { Fn* fn = kv.second; if (!fn->used) continue; nfun++;
    for (auto& in : fn->code) { nins++; if (!in.hit || !in.I) continue; nhit++;
      for (DILocation* l = in.I->getDebugLoc(); l; l = l->getInlinedAt()) { std::string fnm = l->getFilename().str(); if (fnm.find("/src/") == std::string::npos && fnm.find("/verif") == std::string::npos) continue; lines[fnm].insert(l->getLine()); if (auto* sp = l->getScope()->getSubprogram()) if (funcs.size() < 5000) { if (fnm.find("/src/") != std::string::npos) funcs.insert(fnm + "|" + sp->getName().str()); } } } }
  o << ",\"ir_functions\":" << nfun << ",\"ir_instructions\":" << nins << ",\"ir_instructions_executed\":" << nhit << ",\"lines\":{"; f = true;
  for (auto& k : lines) { if (!f) o << ","; f = false; o << jstr(k.first) << ":" << k.second.size(); }
  o << "},\"functions\":["; f = true; for (auto& s : funcs) { if (!f) o << ","; f = false; o << jstr(s); }
  o << "]}\n";
  if (O.out.empty()) std::cout << o.str(); else { std::ofstream f2(O.out); f2 << o.str(); }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string s = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (s == "--entry") O.entry = nx(); else if (s == "--out") O.out = nx(); else if (s == "--timeout") O.timeout_ms = std::stoul(nx()); else if (s == "--budget") O.budget = std::stod(nx());
    else if (s == "--maxinstr") O.maxinstr = std::stoull(nx()); else if (s == "--maxpaths") O.maxpaths = std::stoull(nx()); else if (s == "--param") O.param = std::stoi(nx()); else if (s == "--concrete") O.concrete = true; else if (s == "--seed") O.seed = std::stoull(nx()); else if (s == "--values") O.values = nx(); else if (s == "--maxviol") O.maxviol = std::stoi(nx()); else O.file = s;
  }
  double t0 = nowS(); SMDiagnostic err; setupHandlers();
  objs.push_back(nullptr);
  MOD = parseIRFile(O.file, err, LC); if (!MOD) { std::cerr << "cannot parse " << O.file << ": " << err.getMessage().str() << "\n"; return 3; }
  DL = &MOD->getDataLayout(); M.sol = new Solver(O.timeout_ms); M.deadline = t0 + O.budget; M.rng.seed(O.seed);
  if (!O.values.empty()) { std::ifstream f(O.values); std::string k; i64 v; while (f >> k >> v) M.fixedVals[k] = v; }
  std::string status = "ok";
  try {
    for (auto& g : MOD->globals()) { if (g.getName().starts_with("llvm.")) continue; globalAddr(&g); }
    for (auto& kv : stdBases) if (!MOD->getGlobalVariable(kv.first, true)) new GlobalVariable(*MOD, Type::getInt64Ty(LC), true, GlobalValue::ExternalLinkage, nullptr, kv.first);
    for (auto& kv : stdBases) globalAddr(MOD->getGlobalVariable(kv.first, true));
    for (auto& F : *MOD) fnOf(&F);
    for (auto& g : MOD->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) initGlobal(g.getInitializer(), objs[gaddr[&g] >> 32], 0);
    if (auto* gc = MOD->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, Function*>> v; for (auto& op : ca->operands()) { auto* st = cast<ConstantStruct>(op); if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) M.runEntry(fnOf(p.second));
    }
    M.initPhase = false;
    Function* E = MOD->getFunction(O.entry); if (!E) { std::cerr << "no entry " << O.entry << "\n"; return 3; }
    // compile everything reachable lazily; function objects already exist
    for (auto* o : objs) if (o) o->base_image = true;
    snapObjs = objs; snapFree = freeIds; snapQ = quarantine; snapSeq = nextSeq;
    M.work.push_back(Work{});
    explore(fnOf(E), t0);
  } catch (PathEnd& p) { status = "initialisation: " + p.msg; M.inconcl[status]++; }
  catch (std::exception& e) { status = std::string("engine: ") + e.what(); M.inconcl[status]++; }
  bool complete = M.work.empty() && M.exhausted == 0 && M.inconcl.empty() && !M.stopAll;
  profOut(); writeOut(status, complete, nowS() - t0);
  return 0;
}
