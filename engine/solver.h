// Z3 back end: translation of expressions, models, incremental checks.
#pragma once
#include "expr.h"
#include <z3.h>
#include <unordered_set>
#include <chrono>

struct VarInfo { std::string name; Expr* e; int64_t lo, hi; int kind; /*0 bv,1 int(fp payload)*/ unsigned w; };
struct Model { std::vector<uint64_t> v; };   // indexed by variable index (EP.sym index of the variable)

extern std::unordered_map<int, VarInfo> VARS;   // sym index -> info

enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, guessed = 0; double time = 0; };
extern SolverStats SS;

bool hasUF(Expr* e);
const std::vector<int>& varsOf(Expr* e);
struct EvalV { bool isd; unsigned __int128 u; double d; };
EvalV evalE(Expr* e, const Model& m);
inline uint64_t evalBV(Expr* e, const Model& m) { return (uint64_t)evalE(e, m).u; }
void evalNewEpoch();

struct Solver {
  Z3_context ctx; Z3_solver s; int asserted = 0;
  unsigned timeout_ms;
  Solver(unsigned to);
  ~Solver();
  void reset();
  void add(Expr* c);                       // assert to the path condition
  bool guess(Expr* c, Model* out, const Model& cur); Res check(Expr* c, Model* out, const Model& cur);   // is PC & c satisfiable
  std::vector<Expr*> pc;
private:
  Z3_sort sReal, sInt;
  std::unordered_map<Expr*, Z3_ast> memo;
  std::vector<Z3_ast> side;                // range constraints to be asserted
  std::unordered_set<int> ranged;
  std::map<std::string, Z3_func_decl> ufs;
  Z3_ast tr(Expr* e); Z3_ast tr1(Expr* e); Z3_ast trb(Expr* e); Z3_ast trn(Expr* e, unsigned n);
  Z3_ast trreal(Expr* e);
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  void flushSide(Z3_solver t);
  void collectVars(Expr* e, std::vector<int>& vs, std::unordered_set<Expr*>& seen);
  void getModel(Z3_solver t, Model* out, const Model& cur);
  std::vector<Z3_ast> allSide;
  std::unordered_map<int, Z3_ast> varAst;
};
double nowS();

bool hasMul(Expr* e);
