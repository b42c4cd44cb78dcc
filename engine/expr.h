// Expression DAG of the symbolic executor: hash-consed, simplified on construction.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <cassert>
#include <stdexcept>

enum Op : uint8_t {
  // bit-vectors (sort BV, width w)
  BConst, BVar, BAdd, BSub, BMul, BUDiv, BSDiv, BURem, BSRem, BShl, BLShr, BAShr, BAnd, BOr, BXor,
  BConcat, BExtract, BZExt, BSExt, BIte,
  // booleans are BV of width 1
  PEq, PUlt, PUle, PSlt, PSle,
  PIEq, PILt, PILe,          // over Int
  PREq, PRLt, PRLe,          // over FP (as reals)
  BFromFP,                   // bit pattern of an FP term (opaque to the solver)
  BFromInt,                  // int -> bv (wraps)
  BUF,                       // uninterpreted function to BV (aux = symbol)
  // Int sort
  IConst, IVar, IAdd, IMul, IIte, IFromS, IFromU, IDivT /*trunc div by const c*/,
  // FP sort (width 32/64)
  FX,        // exact: a[0] (Int) * 2^-aux, |a[0]| <= bound
  FUF,       // uninterpreted function: aux = symbol, args
  FFromB,    // FP value of a bit pattern
  FConst,    // concrete FP constant (only below FUF/FIte/compare)
  FIte
};
enum Sort : uint8_t { SBV, SInt, SFP };

struct Expr {
  Op op; Sort sort; uint16_t w; int32_t aux; uint32_t id;
  uint64_t c;                 // constant payload
  uint64_t umin, umax;        // BV: unsigned range (w<=64)
  double bound;               // Int/FX: |value| bound (integer magnitude)
  std::vector<Expr*> a;
  uint32_t mark = 0;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
inline unsigned bitlen(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }

struct Key { Op op; uint16_t w; int32_t aux; uint64_t c; const std::vector<Expr*>* a; };
struct ExprPool {
  std::vector<Expr*> all;
  std::unordered_multimap<uint64_t, Expr*> tab;
  std::vector<std::string> syms; std::map<std::string, int> symidx;
  int sym(const std::string& s) { auto it = symidx.find(s); if (it != symidx.end()) return it->second; int k = syms.size(); syms.push_back(s); symidx[s] = k; return k; }
  Expr* get(Op op, Sort so, unsigned w, int aux, uint64_t c, const std::vector<Expr*>& a, uint64_t umin, uint64_t umax, double bound) {
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 1315423911ull + (uint64_t)(uint32_t)aux * 2654435761ull + c * 0xff51afd7ed558ccdull;
    for (auto* x : a) h = (h ^ (x->id + 0x9e3779b9)) * 0xc4ceb9fe1a85ec53ull, h ^= h >> 29;
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) { Expr* e = it->second; if (e->op == op && e->w == w && e->aux == aux && e->c == c && e->a == a) return e; }
    Expr* e = new Expr; e->op = op; e->sort = so; e->w = w; e->aux = aux; e->c = c; e->a = a; e->id = all.size(); e->umin = umin; e->umax = umax; e->bound = bound;
    all.push_back(e); tab.emplace(h, e); return e;
  }
};
extern ExprPool EP;

inline bool isC(Expr* e) { return e->op == BConst; }
inline Expr* bc(unsigned w, uint64_t v) {
  if (w <= 64) { v &= maskw(w); return EP.get(BConst, SBV, w, 0, v, {}, v, v, 0); }
  // wide constants: concat of 64-bit pieces
  throw std::runtime_error("wide const");
}
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkCmp(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkAnd(Expr* a, Expr* b);
Expr* mkOr(Expr* a, Expr* b);
inline Expr* btrue() { return bc(1, 1); }
inline Expr* bfalse() { return bc(1, 0); }
// Int
Expr* ic(int64_t v);
Expr* mkIAdd(Expr* a, Expr* b);
Expr* mkIMul(Expr* a, Expr* b);
Expr* mkINeg(Expr* a);
Expr* mkICmp(Op op, Expr* a, Expr* b);
Expr* mkIFromS(Expr* bv);
bool signedRange(Expr* e, long& lo, long& hi);
Expr* mkIFromU(Expr* bv);
Expr* mkBFromInt(Expr* i, unsigned w);
// FP
double fconst(unsigned w, uint64_t bits);
uint64_t fbits(unsigned w, double v);
Expr* mkFX(unsigned w, Expr* i, int k);          // may return FConst
Expr* mkFC(unsigned w, uint64_t bits);
Expr* mkFUF(unsigned w, const std::string& f, std::vector<Expr*> args);
Expr* mkFFromB(Expr* bv);
Expr* mkBFromFP(Expr* fp);
Expr* asFX(Expr* f);                             // FConst->FX if dyadic small; nullptr if not exact
Expr* mkFIte(Expr* c, Expr* t, Expr* f);
Expr* mkFBin(const char* op, Expr* a, Expr* b);  // fadd fsub fmul fdiv
Expr* mkFNeg(Expr* a);
Expr* mkFAbs(Expr* a);
Expr* mkFCast(Expr* a, unsigned w);              // fpext/fptrunc
Expr* mkFCmp(unsigned pred, Expr* a, Expr* b);   // LLVM FCmp predicate number
Expr* mkSIToFP(Expr* bv, unsigned w, bool sgn);
Expr* mkFPToI(Expr* f, unsigned w, bool sgn);
std::string estr(Expr* e, int depth = 6);

