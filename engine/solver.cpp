#include "solver.h"
#include <cstdio>
#include <algorithm>
#include <atomic>
#include <thread>
std::unordered_map<int, VarInfo> VARS;
SolverStats SS;
double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------ UF detection
static std::unordered_map<Expr*, bool> ufMemo;
bool hasUF(Expr* e) {
  if (e->a.empty()) return false;
  auto it = ufMemo.find(e); if (it != ufMemo.end()) return it->second;
  bool r = e->op == FUF || e->op == BUF || e->op == FFromB || e->op == BFromFP;
  for (auto* x : e->a) if (!r) r = hasUF(x);
  ufMemo[e] = r; return r;
}
// ------------------------------------------------------------ evaluation
static uint32_t epoch = 1;
static std::vector<EvalV> evv; static std::vector<uint32_t> eve;
void evalNewEpoch() { ++epoch; }
static EvalV U(unsigned __int128 v) { return EvalV{false, v, 0}; }
static unsigned __int128 mask128(unsigned w) { return w >= 128 ? ~(unsigned __int128)0 : (((unsigned __int128)1 << w) - 1); }
static EvalV ev1(Expr* e, const Model& m) {
  auto A = [&](int i) { return evalE(e->a[i], m); };
  auto u = [&](int i) { return (uint64_t)A(i).u; };
  unsigned w = e->w;
  auto I = [&](int i) { return (int64_t)A(i).u; };
  switch (e->op) {
  case BConst: return U(e->c);
  case BVar: case IVar: return U((size_t)e->aux < m.v.size() ? m.v[e->aux] : 0);
  case BAdd: return U((A(0).u + A(1).u) & mask128(w));
  case BSub: return U((A(0).u - A(1).u) & mask128(w));
  case BMul: return U((A(0).u * A(1).u) & mask128(w));
  case BUDiv: { auto b = A(1).u; return b ? U(A(0).u / b) : U(mask128(w)); }
  case BURem: { auto b = A(1).u; return b ? U(A(0).u % b) : A(0); }
  case BSDiv: { int64_t b = sext64(u(1), w), a = sext64(u(0), w); if (!b) return U(a < 0 ? 1 : maskw(w)); if (b == -1) return U((uint64_t)(-(uint64_t)a) & maskw(w)); return U((uint64_t)(a / b) & maskw(w)); }
  case BSRem: { int64_t b = sext64(u(1), w), a = sext64(u(0), w); if (!b) return U(u(0)); if (b == -1) return U(0); return U((uint64_t)(a % b) & maskw(w)); }
  case BShl: { auto s = A(1).u; return s >= w ? U(0) : U((A(0).u << (unsigned)s) & mask128(w)); }
  case BLShr: { auto s = A(1).u; return s >= w ? U(0) : U(A(0).u >> (unsigned)s); }
  case BAShr: { int64_t a = sext64(u(0), w); uint64_t s = u(1); return U((uint64_t)(a >> (s >= w ? w - 1 : s)) & maskw(w)); }
  case BAnd: return U(A(0).u & A(1).u); case BOr: return U(A(0).u | A(1).u); case BXor: return U(A(0).u ^ A(1).u);
  case BConcat: return U((A(0).u << e->a[1]->w) | A(1).u);
  case BExtract: return U((A(0).u >> e->aux) & mask128(w));
  case BZExt: return A(0);
  case BSExt: return U(((unsigned __int128)(__int128)sext64(u(0), e->a[0]->w)) & mask128(w));
  case BIte: case IIte: case FIte: return u(0) ? A(1) : A(2);
  case PEq: return U(A(0).u == A(1).u); case PUlt: return U(A(0).u < A(1).u); case PUle: return U(A(0).u <= A(1).u);
  case PSlt: { unsigned k = e->a[0]->w; return U(sext64(u(0), k) < sext64(u(1), k)); }
  case PSle: { unsigned k = e->a[0]->w; return U(sext64(u(0), k) <= sext64(u(1), k)); }
  case PIEq: return U(I(0) == I(1)); case PILt: return U(I(0) < I(1)); case PILe: return U(I(0) <= I(1));
  case PREq: return U(A(0).d == A(1).d); case PRLt: return U(A(0).d < A(1).d); case PRLe: return U(A(0).d <= A(1).d);
  case BFromFP: return U(fbits(w, A(0).d));
  case BFromInt: return U((uint64_t)I(0) & maskw(w));
  case IConst: return U(e->c);
  case IAdd: return U((uint64_t)(I(0) + I(1))); case IMul: return U((uint64_t)(I(0) * I(1)));
  case IFromS: return U((uint64_t)sext64(u(0), e->a[0]->w)); case IFromU: return U(u(0));
  case IDivT: return U((uint64_t)(I(0) / (int64_t)e->c));
  case FX: return EvalV{true, 0, std::ldexp((double)I(0), -e->aux)};
  case FFromB: return EvalV{true, 0, fconst(w, u(0))};
  case FConst: return EvalV{true, 0, fconst(w, e->c)};
  case BUF: case FUF: {
    const std::string& f = EP.syms[e->aux]; double r = 0;
    if (e->op == FUF && e->a.size() == 2 && f[0] == 'f' && (f == "fadd32" || f == "fsub32" || f == "fmul32" || f == "fdiv32")) { float x = A(0).d, y = A(1).d; r = f[1] == 'a' ? x + y : f[1] == 's' ? x - y : f[1] == 'm' ? x * y : x / y; }
    else if (e->op == FUF && (f == "fadd64" || f == "fsub64" || f == "fmul64" || f == "fdiv64")) { double x = A(0).d, y = A(1).d; r = f[1] == 'a' ? x + y : f[1] == 's' ? x - y : f[1] == 'm' ? x * y : x / y; }
    else if (f == "fneg") r = -A(0).d; else if (f == "fabs") r = std::fabs(A(0).d);
    else if (f == "fpext") r = A(0).d; else if (f == "fptrunc") r = (float)A(0).d;
    else if (f == "sitofp") r = (double)sext64(u(0), e->a[0]->w); else if (f == "uitofp") r = (double)u(0);
    else if (f.compare(0, 4, "sqrt") == 0) r = w == 32 ? sqrtf(A(0).d) : sqrt(A(0).d);
    else if (f == "fptosi" || f == "fptoui") { double v = A(0).d; return U((uint64_t)(int64_t)v & maskw(w)); }
    else { uint64_t h = e->aux * 1000003u; for (size_t i = 0; i < e->a.size(); ++i) { EvalV v = A(i); uint64_t b; if (v.isd) memcpy(&b, &v.d, 8); else b = (uint64_t)v.u; h = (h ^ b) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; } if (e->op == BUF) return U(h & maskw(w)); r = (double)(h % 2001) - 1000.0; }
    if (w == 32) r = (float)r;
    return EvalV{true, 0, r};
  }
  }
  return U(0);
}
EvalV evalE(Expr* e, const Model& m) {
  if (e->op == BConst) return U(e->c);
  if (e->id >= eve.size()) { size_t n = EP.all.size() * 2 + 1024; eve.resize(n, 0); evv.resize(n); }
  if (eve[e->id] == epoch) return evv[e->id];
  EvalV v = ev1(e, m);
  if (e->id >= eve.size()) { size_t n = EP.all.size() * 2 + 1024; eve.resize(n, 0); evv.resize(n); }
  evv[e->id] = v; eve[e->id] = epoch; return v;
}
// ------------------------------------------------------------ solver
static void errh(Z3_context c, Z3_error_code e) { throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e)); }
Solver::Solver(unsigned to) : timeout_ms(to) {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
  sReal = Z3_mk_real_sort(ctx); Z3_inc_ref(ctx, (Z3_ast)sReal); sInt = Z3_mk_int_sort(ctx); Z3_inc_ref(ctx, (Z3_ast)sInt);
  s = nullptr; reset();
}
Solver::~Solver() {}
static void setTO(Z3_context ctx, Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
}
void Solver::reset() {
  if (s) Z3_solver_dec_ref(ctx, s);
  s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s); setTO(ctx, s, timeout_ms);
  pc.clear(); ranged.clear(); side.clear(); asserted = 0;
}
Z3_ast Solver::trb(Expr* e) { // boolean AST of a width-1 expression
  // memo holds BV asts; booleans get their own memo through (e|1)
  Z3_ast& m = memo[(Expr*)((uintptr_t)e | 1)];
  if (m) return m;
  Z3_ast r;
  auto A = [&](int i) { return trb(e->a[i]); };
  auto cmpw = [&](bool sg) { unsigned n = e->a[0]->w; if (!sg && n <= 64) { uint64_t mx = std::max(e->a[0]->umax, e->a[1]->umax); n = std::max(1u, bitlen(mx)); } return n; };
  switch (e->op) {
  case BConst: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case BAnd: { Z3_ast x[2] = {A(0), A(1)}; r = Z3_mk_and(ctx, 2, x); break; }
  case BOr: { Z3_ast x[2] = {A(0), A(1)}; r = Z3_mk_or(ctx, 2, x); break; }
  case BXor: if (isC(e->a[1])) r = e->a[1]->c ? Z3_mk_not(ctx, A(0)) : A(0); else r = Z3_mk_xor(ctx, A(0), A(1)); break;
  case BIte: r = Z3_mk_ite(ctx, A(0), A(1), A(2)); break;
  case PEq: if (e->a[0]->w == 1) { r = Z3_mk_iff(ctx, A(0), A(1)); } else { unsigned n = cmpw(false); r = Z3_mk_eq(ctx, trn(e->a[0], n), trn(e->a[1], n)); } break;
  case PUlt: { unsigned n = cmpw(false); r = Z3_mk_bvult(ctx, trn(e->a[0], n), trn(e->a[1], n)); break; }
  case PUle: { unsigned n = cmpw(false); r = Z3_mk_bvule(ctx, trn(e->a[0], n), trn(e->a[1], n)); break; }
  case PSlt: r = Z3_mk_bvslt(ctx, tr(e->a[0]), tr(e->a[1])); break;
  case PSle: r = Z3_mk_bvsle(ctx, tr(e->a[0]), tr(e->a[1])); break;
  case PIEq: r = Z3_mk_eq(ctx, tr(e->a[0]), tr(e->a[1])); break;
  case PILt: r = Z3_mk_lt(ctx, tr(e->a[0]), tr(e->a[1])); break;
  case PILe: r = Z3_mk_le(ctx, tr(e->a[0]), tr(e->a[1])); break;
  case PREq: r = Z3_mk_eq(ctx, trreal(e->a[0]), trreal(e->a[1])); break;
  case PRLt: r = Z3_mk_lt(ctx, trreal(e->a[0]), trreal(e->a[1])); break;
  case PRLe: r = Z3_mk_le(ctx, trreal(e->a[0]), trreal(e->a[1])); break;
  default: r = Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
  }
  keep(r); memo[(Expr*)((uintptr_t)e | 1)] = r; return r;
}
Z3_ast Solver::trn(Expr* e, unsigned n) {
  Z3_ast x = tr(e);
  if (n >= e->w) return x;
  return Z3_mk_extract(ctx, n - 1, 0, x);
}
static Z3_ast numBV(Z3_context c, unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w)); }
Z3_ast Solver::tr(Expr* e) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Z3_ast r = keep(tr1(e)); memo[e] = r; return r;
}
Z3_ast Solver::tr1(Expr* e) {
  unsigned w = e->w;
  auto narrow = [&](auto mk) { // operate on the smallest width holding operands and result
    uint64_t mx = std::max(std::max(e->a[0]->umax, e->a[1]->umax), e->umax);
    unsigned n = w;
    if (w <= 64) { bool fits = true; uint64_t M = maskw(w);
      if (e->op == BAdd) fits = e->a[0]->umax <= M - e->a[1]->umax;
      if (e->op == BMul) fits = e->a[1]->umax == 0 || e->a[0]->umax <= M / e->a[1]->umax;
      if (fits) n = std::max(1u, bitlen(mx)); }
    if (n >= w) return mk(ctx, tr(e->a[0]), tr(e->a[1]));
    return Z3_mk_zero_ext(ctx, w - n, mk(ctx, trn(e->a[0], n), trn(e->a[1], n)));
  };
  switch (e->op) {
  case BConst: return numBV(ctx, w, e->c);
  case BVar: {
    const VarInfo& vi = VARS[e->aux]; unsigned n = std::min<unsigned>(w, std::max(1u, bitlen(e->umax)));
    Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, vi.name.c_str()), Z3_mk_bv_sort(ctx, n));
    keep(v); varAst[e->aux] = v;
    return n < w ? Z3_mk_zero_ext(ctx, w - n, v) : v;
  }
  case IVar: { const VarInfo& vi = VARS[e->aux]; Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, vi.name.c_str()), sInt); keep(v); varAst[e->aux] = v; return v; }
  case BAdd: return narrow(Z3_mk_bvadd); case BMul: return narrow(Z3_mk_bvmul);
  case BSub: return Z3_mk_bvsub(ctx, tr(e->a[0]), tr(e->a[1]));
  case BUDiv: return narrow(Z3_mk_bvudiv); case BURem: return narrow(Z3_mk_bvurem);
  case BSDiv: return Z3_mk_bvsdiv(ctx, tr(e->a[0]), tr(e->a[1]));
  case BSRem: return Z3_mk_bvsrem(ctx, tr(e->a[0]), tr(e->a[1]));
  case BShl: return Z3_mk_bvshl(ctx, tr(e->a[0]), tr(e->a[1]));
  case BLShr: return Z3_mk_bvlshr(ctx, tr(e->a[0]), tr(e->a[1]));
  case BAShr: return Z3_mk_bvashr(ctx, tr(e->a[0]), tr(e->a[1]));
  case BAnd: case BOr: case BXor:
    if (w > 1) return e->op == BAnd ? Z3_mk_bvand(ctx, tr(e->a[0]), tr(e->a[1])) : e->op == BOr ? Z3_mk_bvor(ctx, tr(e->a[0]), tr(e->a[1])) : Z3_mk_bvxor(ctx, tr(e->a[0]), tr(e->a[1]));
    // fallthrough
  case PEq: case PUlt: case PUle: case PSlt: case PSle: case PIEq: case PILt: case PILe: case PREq: case PRLt: case PRLe:
    return Z3_mk_ite(ctx, trb(e), numBV(ctx, 1, 1), numBV(ctx, 1, 0));
  case BConcat: return Z3_mk_concat(ctx, tr(e->a[0]), tr(e->a[1]));
  case BExtract: return Z3_mk_extract(ctx, e->aux + w - 1, e->aux, tr(e->a[0]));
  case BZExt: return Z3_mk_zero_ext(ctx, w - e->a[0]->w, tr(e->a[0]));
  case BSExt: return Z3_mk_sign_ext(ctx, w - e->a[0]->w, tr(e->a[0]));
  case BIte: case IIte: return Z3_mk_ite(ctx, trb(e->a[0]), tr(e->a[1]), tr(e->a[2]));
  case BFromInt: return Z3_mk_int2bv(ctx, w, tr(e->a[0]));
  case IConst: return Z3_mk_int64(ctx, (int64_t)e->c, sInt);
  case IAdd: { Z3_ast x[2] = {tr(e->a[0]), tr(e->a[1])}; return Z3_mk_add(ctx, 2, x); }
  case IMul: { Z3_ast x[2] = {tr(e->a[0]), tr(e->a[1])}; return Z3_mk_mul(ctx, 2, x); }
  case IFromS: return Z3_mk_bv2int(ctx, tr(e->a[0]), true);
  case IFromU: { unsigned n = std::max(1u, bitlen(e->a[0]->umax)); return Z3_mk_bv2int(ctx, trn(e->a[0], n), false); }
  case IDivT: { // truncating division by a positive constant
    Z3_ast x = tr(e->a[0]), d = Z3_mk_int64(ctx, (int64_t)e->c, sInt), z = Z3_mk_int64(ctx, 0, sInt);
    return Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, z), Z3_mk_div(ctx, x, d), Z3_mk_unary_minus(ctx, Z3_mk_div(ctx, Z3_mk_unary_minus(ctx, x), d)));
  }
  case BFromFP: case BUF: {
    std::string nm = e->op == BUF ? EP.syms[e->aux] + std::to_string(w) : "fpbits" + std::to_string(w);
    std::vector<Z3_sort> ss; std::vector<Z3_ast> as;
    for (auto* x : e->a) { Z3_ast y = x->sort == SFP ? trreal(x) : tr(x); as.push_back(y); ss.push_back(Z3_get_sort(ctx, y)); nm += x->sort == SFP ? "r" : "b" + std::to_string(x->w); }
    auto& f = ufs[nm]; if (!f) { f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), ss.size(), ss.data(), Z3_mk_bv_sort(ctx, w)); Z3_inc_ref(ctx, (Z3_ast)f); }
    return Z3_mk_app(ctx, f, as.size(), as.data());
  }
  default: return trreal(e);
  }
}
Z3_ast Solver::trreal(Expr* e) {
  Expr* key = (Expr*)((uintptr_t)e | 2);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  Z3_ast r;
  auto pow2 = [&](int k) { std::string s = "1"; // 2^k as decimal string
    double d = std::ldexp(1.0, k); char b[400]; snprintf(b, sizeof b, "%.0f", d); return std::string(b); };
  switch (e->op) {
  case FX: {
    Z3_ast i = Z3_mk_int2real(ctx, tr(e->a[0]));
    if (e->aux == 0) r = i;
    else if (e->aux > 0) { std::string q = "1/" + pow2(e->aux); Z3_ast x[2] = {i, Z3_mk_numeral(ctx, q.c_str(), sReal)}; r = Z3_mk_mul(ctx, 2, x); }
    else { Z3_ast x[2] = {i, Z3_mk_numeral(ctx, pow2(-e->aux).c_str(), sReal)}; r = Z3_mk_mul(ctx, 2, x); }
    break;
  }
  case FConst: {
    double v = fconst(e->w, e->c);
    if (!std::isfinite(v)) { std::string nm = std::isnan(v) ? "fp_nan" : v > 0 ? "fp_pinf" : "fp_ninf"; r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), sReal); break; }
    if (v == 0) { r = Z3_mk_numeral(ctx, "0", sReal); break; }
    int ex; double m = std::frexp(v, &ex); int64_t mi = (int64_t)std::ldexp(m, 53); ex -= 53;
    while (!(mi & 1)) { mi /= 2; ++ex; }
    std::string s = std::to_string(mi);
    if (ex >= 0) { Z3_ast x[2] = {Z3_mk_numeral(ctx, s.c_str(), sReal), Z3_mk_numeral(ctx, pow2(ex).c_str(), sReal)}; r = Z3_mk_mul(ctx, 2, x); }
    else r = Z3_mk_numeral(ctx, (s + "/" + pow2(-ex)).c_str(), sReal);
    break;
  }
  case FIte: r = Z3_mk_ite(ctx, trb(e->a[0]), trreal(e->a[1]), trreal(e->a[2])); break;
  case FUF: case FFromB: {
    if (e->op == FUF && EP.syms[e->aux] == "fneg") { r = Z3_mk_unary_minus(ctx, trreal(e->a[0])); break; }
    if (e->op == FUF && EP.syms[e->aux] == "fpext") { r = trreal(e->a[0]); break; }
    std::string nm = e->op == FUF ? EP.syms[e->aux] : "frombits" + std::to_string(e->w);
    std::vector<Z3_sort> ss; std::vector<Z3_ast> as;
    for (auto* x : e->a) { Z3_ast y = x->sort == SFP ? trreal(x) : tr(x); as.push_back(y); ss.push_back(Z3_get_sort(ctx, y)); nm += x->sort == SFP ? "_r" : x->sort == SInt ? "_i" : "_b" + std::to_string(x->w); }
    auto& f = ufs[nm]; if (!f) { f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), ss.size(), ss.data(), sReal); Z3_inc_ref(ctx, (Z3_ast)f); }
    r = Z3_mk_app(ctx, f, as.size(), as.data()); break;
  }
  default: throw std::runtime_error("trreal: " + estr(e, 2));
  }
  memo[key] = keep(r); return r;
}
void Solver::collectVars(Expr* e, std::vector<int>& vs, std::unordered_set<Expr*>& seen) {
  if (!seen.insert(e).second) return;
  if (e->op == BVar || e->op == IVar) { vs.push_back(e->aux); return; }
  for (auto* x : e->a) collectVars(x, vs, seen);
}
static std::unordered_map<Expr*, std::vector<int>> varsMemo;
const std::vector<int>& varsOf(Expr* e) {
  auto it = varsMemo.find(e); if (it != varsMemo.end()) return it->second;
  std::vector<int> r;
  if (e->op == BVar || e->op == IVar) r.push_back(e->aux);
  else { for (auto* x : e->a) { const auto& v = varsOf(x); r.insert(r.end(), v.begin(), v.end()); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); }
  return varsMemo[e] = r;
}
static Z3_ast rangeOf(Z3_context ctx, int v, Z3_ast a) {
  const VarInfo& vi = VARS[v];
  if (vi.kind == 1) {
    Z3_ast x[2] = {Z3_mk_ge(ctx, a, Z3_mk_int64(ctx, vi.lo, Z3_get_sort(ctx, a))), Z3_mk_le(ctx, a, Z3_mk_int64(ctx, vi.hi, Z3_get_sort(ctx, a)))};
    return Z3_mk_and(ctx, 2, x);
  }
  unsigned n = Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, a));
  if ((uint64_t)vi.hi == maskw(n)) return nullptr;
  return Z3_mk_bvule(ctx, a, Z3_mk_unsigned_int64(ctx, vi.hi, Z3_get_sort(ctx, a)));
}
void Solver::flushSide(Z3_solver) {}
void Solver::add(Expr* c) {
  pc.push_back(c);
  Z3_ast a = trb(c);
  for (int v : varsOf(c)) if (ranged.insert(v).second) { Z3_ast r = rangeOf(ctx, v, varAst[v]); if (r) Z3_solver_assert(ctx, s, r); }
  Z3_solver_assert(ctx, s, a);
}
void Solver::getModel(Z3_solver t, Model* out, const Model& cur) {
  *out = cur;
  Z3_model m = Z3_solver_get_model(ctx, t); Z3_model_inc_ref(ctx, m);
  for (int v : ranged) {
    Z3_ast val; 
    if (!Z3_model_eval(ctx, m, varAst[v], true, &val)) continue;
    if ((size_t)v >= out->v.size()) out->v.resize(v + 1, 0);
    Z3_string str = Z3_get_numeral_string(ctx, val);
    out->v[v] = str[0] == '-' ? (uint64_t)strtoll(str, 0, 10) : strtoull(str, 0, 10);
  }
  Z3_model_dec_ref(ctx, m);
}
// wide multiplications make the solver slow to find a model: try a few assignments first (a model found this way is as good as the solver's)
static std::unordered_map<Expr*, bool> mulMemo;
bool hasMul(Expr* e) {
  if (e->a.empty()) return false;
  auto it = mulMemo.find(e); if (it != mulMemo.end()) return it->second;
  bool r = e->op == BMul && e->w >= 32; for (auto* x : e->a) if (!r) r = hasMul(x);
  return mulMemo[e] = r;
}
bool Solver::guess(Expr* c, Model* out, const Model& cur) {
  static uint64_t rs = 0x9E3779B97F4A7C15ull; Model m = cur; const auto& vs = varsOf(c);
  for (int k = 0; k < 8; ++k) {
    for (int v : vs) { const VarInfo& vi = VARS[v]; rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; if ((size_t)v >= m.v.size()) m.v.resize(v + 1, 0);
      uint64_t n = (uint64_t)vi.hi - (uint64_t)(vi.kind == 1 ? vi.lo : 0) + 1, x = n ? rs % n : rs; m.v[v] = vi.kind == 1 ? (uint64_t)((int64_t)x + vi.lo) : x; }
    evalNewEpoch(); bool ok = (uint64_t)evalE(c, m).u & 1; for (size_t i = 0; ok && i < pc.size(); ++i) ok = (uint64_t)evalE(pc[i], m).u & 1;
    if (ok) { evalNewEpoch(); if (out) *out = m; return true; }
  }
  evalNewEpoch(); return false;
}
// z3's own timeout is not checked everywhere: a watcher interrupts a query that runs over
static std::atomic<double> deadline{0};
static void watch(Z3_context ctx) { std::thread([ctx] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(200)); double d = deadline.load(); if (d > 0 && nowS() > d) Z3_interrupt(ctx); } }).detach(); }
static Z3_lbool runCheck(Z3_context ctx, Z3_solver s, unsigned ms) {
  static bool on = false; if (!on) { on = true; watch(ctx); }
  Z3_lbool r = Z3_L_UNDEF; deadline = nowS() + ms / 1000.0 + 1;
  try { r = Z3_solver_check(ctx, s); } catch (std::exception&) { r = Z3_L_UNDEF; }
  deadline = 0; return r;
}
Res Solver::check(Expr* c, Model* out, const Model& cur) {
  if (isC(c)) { if (!c->c) return UNSAT; }
  SS.queries++;
  double t0 = nowS();
  if (hasMul(c) && !hasUF(c) && guess(c, out, cur)) { SS.time += nowS() - t0; SS.sat++; return SAT; }
  Z3_ast a = trb(c);
  // new ranged variables of the query are asserted for good: they only restrict inputs to their domain
  for (int v : varsOf(c)) if (ranged.insert(v).second) { Z3_ast r = rangeOf(ctx, v, varAst[v]); if (r) Z3_solver_assert(ctx, s, r); }
  Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, a);
  Z3_lbool r = Z3_L_UNDEF;
  r = runCheck(ctx, s, timeout_ms);
  if (r == Z3_L_TRUE && out) getModel(s, out, cur);
  Z3_solver_pop(ctx, s, 1);
  if (r == Z3_L_UNDEF) {
    // one-shot solver with slicing: only constraints sharing variables with the query
    std::unordered_set<int> vs(varsOf(c).begin(), varsOf(c).end());
    std::vector<Expr*> use; std::vector<bool> in(pc.size(), false); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); ++i) if (!in[i]) { const auto& w = varsOf(pc[i]); bool hit = false; for (int v : w) if (vs.count(v)) { hit = true; break; } if (hit) { in[i] = true; use.push_back(pc[i]); for (int v : w) vs.insert(v); ch = true; } } }
    Z3_solver t = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, t); setTO(ctx, t, timeout_ms * 4);
    for (int v : vs) if (varAst.count(v)) { Z3_ast rr = rangeOf(ctx, v, varAst[v]); if (rr) Z3_solver_assert(ctx, t, rr); }
    for (auto* e : use) Z3_solver_assert(ctx, t, trb(e));
    Z3_solver_assert(ctx, t, a);
    r = runCheck(ctx, t, timeout_ms * 4);
    if (r == Z3_L_TRUE && out) { auto save = ranged; ranged.clear(); for (int v : vs) if (varAst.count(v)) ranged.insert(v); getModel(t, out, cur); ranged = save; }
    Z3_solver_dec_ref(ctx, t);
  }
  SS.time += nowS() - t0;
  if (r == Z3_L_TRUE) { SS.sat++; return SAT; }
  if (r == Z3_L_FALSE) { SS.unsat++; return UNSAT; }
  SS.unknown++; return UNKNOWN;
}
