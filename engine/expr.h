// Hash-consed bit-vector expression DAG of the fernsym symbolic executor.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <stdexcept>

typedef unsigned __int128 u128;
typedef __int128 s128;

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

enum Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt,
  // IEEE operations on bit patterns (width 32/64). The first group is encoded
  // exactly in bit-vectors, the second as uninterpreted functions which are
  // refined to the FP theory when a query is satisfiable.
  FEq, FLt, FLe, FIsNan, FPExt,
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma, FPTrunc,
  FFloor, FCeil, FTruncI, FRoundA, FRint,
  SIToFP, UIToFP, FPToSI, FPToUI,
  App,    // uninterpreted function (libm), name in `name`
  Tuple
};

struct Expr {
  Op op;
  uint32_t width;      // bits; tuples: 0
  uint32_t id;
  uint32_t nk;
  Expr** k;
  u128 c;              // Const value; Extract: low bit; Var: index
  uint32_t name;       // App: function name index; Var: name index
  bool hard;           // contains an op of the refined group
  bool hasApp;
  std::vector<uint32_t>* vars; // sorted var indices
  bool isConst() const { return op == Const; }
};

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextW(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  v &= maskW(w);
  if ((v >> (w - 1)) & 1) v |= ~maskW(w);
  return (s128)v;
}

extern std::vector<std::string> g_names;          // interned names
uint32_t internName(std::string const& s);
struct VarInfo { std::string name; uint32_t width; bool input; };
extern std::vector<VarInfo> g_vars;
extern uint64_t g_exprCount;

std::string showExpr(Expr* e, int depth);
Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(std::string const& name, unsigned w, bool input);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkNot(Expr* e);
Expr* mkFP(Op op, std::vector<Expr*> const& kids, unsigned width);
Expr* mkApp(std::string const& fn, std::vector<Expr*> const& kids, unsigned width);
Expr* mkTuple(std::vector<Expr*> const& kids);
Expr* mkTrue();
Expr* mkFalse();
inline Expr* mkAnd1(Expr* a, Expr* b) { return mkBin(And, a, b); }
inline Expr* mkOr1(Expr* a, Expr* b) { return mkBin(Or, a, b); }
inline bool isTrue(Expr* e) { return e->op == Const && e->width == 1 && e->c == 1; }
inline bool isFalse(Expr* e) { return e->op == Const && e->width == 1 && e->c == 0; }

// Distinct constant leaves of an ite tree. false: not an ite tree of constants (or too many leaves).
bool constLeaves(Expr* e, std::vector<u128>& out, size_t limit);

// Concrete evaluation.
struct Assignment {
  std::unordered_map<uint32_t, u128> v;
  u128 get(uint32_t i) const { auto it = v.find(i); return it == v.end() ? 0 : it->second; }
};
u128 evalExpr(Expr* e, Assignment const& a, std::unordered_map<Expr*, u128>* memo = nullptr);
// libm functions: evaluated on the host
bool hostApp(std::string const& fn, std::vector<u128> const& args, unsigned width, u128& out);
std::string exprStr(Expr* e, int depth = 6);
std::string u128str(u128 v);
