#include "expr.h"
#include <algorithm>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <sstream>
#include <unordered_set>

std::vector<std::string> g_names;
static std::unordered_map<std::string, uint32_t> g_nameIx;
std::vector<VarInfo> g_vars;
uint64_t g_exprCount = 0;

uint32_t internName(std::string const& s) {
  auto it = g_nameIx.find(s);
  if (it != g_nameIx.end()) return it->second;
  g_names.push_back(s);
  return g_nameIx[s] = g_names.size() - 1;
}

static char* arenaPtr = nullptr; static size_t arenaLeft = 0;
static void* arena(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (n > arenaLeft) { size_t sz = std::max<size_t>(n, 1 << 20); arenaPtr = (char*)malloc(sz); arenaLeft = sz; if (!arenaPtr) throw EngineError("out of memory"); }
  void* p = arenaPtr; arenaPtr += n; arenaLeft -= n; return p;
}

struct KeyHash { size_t operator()(Expr const* e) const {
  uint64_t h = e->op * 1000003ull + e->width; h = h * 1000003ull + (uint64_t)e->c; h = h * 1000003ull + (uint64_t)(e->c >> 64);
  h = h * 1000003ull + e->name;
  for (unsigned i = 0; i < e->nk; i++) h = h * 1000003ull + e->k[i]->id;
  return h ^ (h >> 31); } };
struct KeyEq { bool operator()(Expr const* a, Expr const* b) const {
  if (a->op != b->op || a->width != b->width || a->c != b->c || a->name != b->name || a->nk != b->nk) return false;
  for (unsigned i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
  return true; } };
static std::unordered_set<Expr*, KeyHash, KeyEq> g_table;

static bool isHardOp(Op op) { return op >= FPExt && op <= FPToUI; }

static Expr* intern(Op op, unsigned w, Expr* const* k, unsigned nk, u128 c, uint32_t name) {
  Expr tmp; tmp.op = op; tmp.width = w; tmp.nk = nk; tmp.k = const_cast<Expr**>(k); tmp.c = c; tmp.name = name; tmp.vars = nullptr;
  auto it = g_table.find(&tmp);
  if (it != g_table.end()) return *it;
  Expr* e = new (arena(sizeof(Expr))) Expr(tmp);
  e->k = nk ? (Expr**)arena(sizeof(Expr*) * nk) : nullptr;
  for (unsigned i = 0; i < nk; i++) e->k[i] = k[i];
  e->id = g_exprCount++;
  e->hard = isHardOp(op); e->hasApp = op == App;
  static std::vector<uint32_t>* empty = new std::vector<uint32_t>();
  e->vars = empty;
  if (op == Var) { e->vars = new std::vector<uint32_t>{(uint32_t)c}; }
  for (unsigned i = 0; i < nk; i++) {
    e->hard |= k[i]->hard; e->hasApp |= k[i]->hasApp;
    auto* kv = k[i]->vars;
    if (kv == e->vars || kv->empty()) continue;
    if (e->vars->empty()) { e->vars = kv; continue; }
    if (std::includes(e->vars->begin(), e->vars->end(), kv->begin(), kv->end())) continue;
    if (std::includes(kv->begin(), kv->end(), e->vars->begin(), e->vars->end())) { e->vars = kv; continue; }
    auto* nv = new std::vector<uint32_t>(); std::set_union(e->vars->begin(), e->vars->end(), kv->begin(), kv->end(), std::back_inserter(*nv));
    e->vars = nv;
  }
  g_table.insert(e);
  return e;
}
static Expr* intern1(Op op, unsigned w, std::initializer_list<Expr*> ks, u128 c = 0, uint32_t name = 0) {
  return intern(op, w, ks.begin(), ks.size(), c, name);
}

Expr* mkConst(u128 v, unsigned w) { if (!w) throw EngineError("const width 0"); return intern(Const, w, nullptr, 0, v & maskW(w), 0); }
Expr* mkTrue() { static Expr* t = mkConst(1, 1); return t; }
Expr* mkFalse() { static Expr* t = mkConst(0, 1); return t; }
Expr* mkVar(std::string const& name, unsigned w, bool input) {
  uint32_t n = internName(name);
  static std::unordered_map<uint32_t, uint32_t> byName;
  auto it = byName.find(n);
  uint32_t ix;
  if (it == byName.end()) { ix = g_vars.size(); g_vars.push_back({name, w, input}); byName[n] = ix; }
  else { ix = it->second; if (g_vars[ix].width != w) throw EngineError("variable " + name + " reused with another width"); }
  return intern(Var, w, nullptr, 0, ix, n);
}
Expr* mkTuple(std::vector<Expr*> const& kids) { return intern(Tuple, 0, kids.data(), kids.size(), 0, 0); }
Expr* mkNot(Expr* e) { return mkBin(Xor, e, mkConst(maskW(e->width), e->width)); }

static bool isNotOf(Expr* a, Expr* b) {  // a == ~b
  if (a->op == Xor && a->k[1]->op == Const && a->k[1]->c == maskW(a->width) && a->k[0] == b) return true;
  if (b->op == Xor && b->k[1]->op == Const && b->k[1]->c == maskW(b->width) && b->k[0] == a) return true;
  return false;
}
static bool isNot(Expr* a) { return a->op == Xor && a->k[1]->op == Const && a->k[1]->c == maskW(a->width); }

static bool constTree(Expr* e, int budget) {
  std::vector<u128> v; (void)budget;
  // cheap recursive test with a budget
  struct R { static bool go(Expr* e, int& b) { if (--b < 0) return false; if (e->op == Const) return true; if (e->op != Ite) return false; return go(e->k[1], b) && go(e->k[2], b); } };
  int b = budget; return R::go(e, b);
}
bool constLeaves(Expr* e, std::vector<u128>& out, size_t limit) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == Const) { out.push_back(x->c); if (out.size() > limit) return false; }
    else if (x->op == Ite) { st.push_back(x->k[2]); st.push_back(x->k[1]); }
    else return false;
  }
  return true;
}

static u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskW(w);
  switch (op) {
    case Add: return (a + b) & m; case Sub: return (a - b) & m; case Mul: return (a * b) & m;
    case UDiv: return b == 0 ? m : a / b; case URem: return b == 0 ? a : a % b;
    case SDiv: { s128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case SRem: { s128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case And: return a & b; case Or: return a | b; case Xor: return a ^ b;
    case Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LShr: return b >= w ? 0 : a >> (unsigned)b;
    case AShr: { s128 x = sextW(a, w); return (u128)(b >= w ? (x < 0 ? (s128)-1 : 0) : (x >> (unsigned)b)) & m; }
    case Eq: return a == b; case Ult: return a < b; case Ule: return a <= b;
    case Slt: return sextW(a, w) < sextW(b, w); case Sle: return sextW(a, w) <= sextW(b, w);
    default: throw EngineError("foldBin");
  }
}
static bool isCmp(Op op) { return op >= Eq && op <= Sle; }
static bool commut(Op op) { return op == Add || op == Mul || op == And || op == Or || op == Xor || op == Eq; }
static bool isLowMask(u128 c, unsigned& n) { n = 0; while ((c >> n) & 1) { n++; if (n == 128) return true; } return (c >> n) == 0 && n > 0; }

static void flattenOr(Op op, Expr* e, std::vector<Expr*>& out, int lim) {
  if (e->op == op && (int)out.size() < lim) { flattenOr(op, e->k[0], out, lim); flattenOr(op, e->k[1], out, lim); }
  else out.push_back(e);
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->width;
  if (a->width != b->width) throw EngineError("width mismatch in mkBin op " + std::to_string(op) + " " + std::to_string(a->width) + "/" + std::to_string(b->width));
  unsigned rw = isCmp(op) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->c, b->c, w), rw);
  if (op == Ule) return mkNot(mkBin(Ult, b, a));
  if (op == Sle) return mkNot(mkBin(Slt, b, a));
  if (commut(op)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
  // distribute over ite trees of constants
  if (a->op == Ite && b->isConst() && constTree(a, 64)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (b->op == Ite && a->isConst() && constTree(b, 64)) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  if (a->op == Ite && b->op == Ite && a->k[0] == b->k[0] && (op == Eq || (constTree(a, 32) && constTree(b, 32))))
    return mkIte(a->k[0], mkBin(op, a->k[1], b->k[1]), mkBin(op, a->k[2], b->k[2]));
  bool bc = b->isConst(); u128 B = b->c; u128 m = maskW(w);
  switch (op) {
    case Add:
      if (bc && B == 0) return a;
      if (bc && a->op == Add && a->k[1]->isConst()) return mkBin(Add, a->k[0], mkConst(a->k[1]->c + B, w));
      if (bc && a->op == Sub && a->k[0]->isConst()) return mkBin(Sub, mkConst(a->k[0]->c + B, w), a->k[1]);
      if (a->op == Sub && a->k[1] == b) return a->k[0];
      if (b->op == Sub && b->k[1] == a) return b->k[0];
      if (!bc && a->op == Add && a->k[1]->isConst()) return mkBin(Add, mkBin(Add, a->k[0], b), a->k[1]);
      if (!bc && b->op == Add && b->k[1]->isConst()) return mkBin(Add, mkBin(Add, a, b->k[0]), b->k[1]);
      break;
    case Sub:
      if (a == b) return mkConst(0, w);
      if (bc) return mkBin(Add, a, mkConst(0 - B, w));
      if (a->op == Add && a->k[0] == b) return a->k[1];
      if (a->op == Add && a->k[1] == b) return a->k[0];
      if (a->op == Add && b->op == Add && a->k[0] == b->k[0]) return mkBin(Sub, a->k[1], b->k[1]);
      if (a->op == Add && a->k[1]->isConst()) return mkBin(Add, mkBin(Sub, a->k[0], b), a->k[1]);
      break;
    case Mul:
      if (bc && B == 0) return b;
      if (bc && B == 1) return a;
      break;
    case UDiv:
      if (bc && B == 1) return a;
      if (bc && B && (B & (B - 1)) == 0) { unsigned n = 0; while ((B >> n) != 1) n++; return mkBin(LShr, a, mkConst(n, w)); }
      break;
    case URem:
      if (bc && B && (B & (B - 1)) == 0) return mkBin(And, a, mkConst(B - 1, w));
      break;
    case SDiv: if (bc && B == 1) return a; break;
    case SRem: if (bc && B == 1) return mkConst(0, w); break;
    case And: {
      if (a == b) return a;
      if (bc && B == 0) return b;
      if (bc && B == m) return a;
      if (isNotOf(a, b)) return mkConst(0, w);
      if (w == 1) {
        // absorption
        if (a->op == Or && (a->k[0] == b || a->k[1] == b)) return b;
        if (b->op == Or && (b->k[0] == a || b->k[1] == a)) return a;
        if (a->op == Or) { if (isNotOf(a->k[0], b)) return mkBin(And, a->k[1], b); if (isNotOf(a->k[1], b)) return mkBin(And, a->k[0], b); }
        if (b->op == Or) { if (isNotOf(b->k[0], a)) return mkBin(And, b->k[1], a); if (isNotOf(b->k[1], a)) return mkBin(And, b->k[0], a); }
        if (a->op == And && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == And && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->op == And && (isNotOf(a->k[0], b) || isNotOf(a->k[1], b))) return mkFalse();
        if (b->op == And && (isNotOf(b->k[0], a) || isNotOf(b->k[1], a))) return mkFalse();
      }
      if (bc && a->op == And && a->k[1]->isConst()) return mkBin(And, a->k[0], mkConst(a->k[1]->c & B, w));
      unsigned n;
      if (bc && isLowMask(B, n) && n < w) return mkZExt(mkExtract(a, 0, n), w);
      if (bc && isLowMask((~B) & m, n) && n < w) return mkConcat(mkExtract(a, n, w - n), mkConst(0, n));
      break;
    }
    case Or: {
      if (a == b) return a;
      if (bc && B == 0) return a;
      if (bc && B == m) return b;
      if (isNotOf(a, b)) return mkConst(m, w);
      if (w == 1) {
        if (a->op == And && (a->k[0] == b || a->k[1] == b)) return b;
        if (b->op == And && (b->k[0] == a || b->k[1] == a)) return a;
        if (a->op == And) { if (isNotOf(a->k[0], b)) return mkBin(Or, a->k[1], b); if (isNotOf(a->k[1], b)) return mkBin(Or, a->k[0], b); }
        if (b->op == And) { if (isNotOf(b->k[0], a)) return mkBin(Or, b->k[1], a); if (isNotOf(b->k[1], a)) return mkBin(Or, b->k[0], a); }
        if (a->op == And && b->op == And) {  // (x&y)|(x&~y) = x ; (x&y)|(~x&y) = y
          for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
            if (a->k[i] == b->k[j] && isNotOf(a->k[1 - i], b->k[1 - j])) return a->k[i];
        }
        if (a->op == Or && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == Or && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->op == Or && (isNotOf(a->k[0], b) || isNotOf(a->k[1], b))) return mkTrue();
        if (b->op == Or && (isNotOf(b->k[0], a) || isNotOf(b->k[1], a))) return mkTrue();
      } else {
        for (int sw = 0; sw < 2; sw++) {
          Expr* x = sw ? b : a; Expr* y = sw ? a : b;
          if (x->op == Concat && x->k[1]->isConst() && x->k[1]->c == 0) {
            unsigned kw = x->k[1]->width;
            if (y->op == ZExt && y->k[0]->width <= kw) return mkConcat(x->k[0], mkZExt(y->k[0], kw));
            if (y->isConst() && (y->c >> kw) == 0) return mkConcat(x->k[0], mkConst(y->c, kw));
          }
        }
        if (bc && a->op == Or && a->k[1]->isConst()) return mkBin(Or, a->k[0], mkConst(a->k[1]->c | B, w));
      }
      break;
    }
    case Xor:
      if (a == b) return mkConst(0, w);
      if (bc && B == 0) return a;
      if (isNotOf(a, b)) return mkConst(m, w);
      if (bc && a->op == Xor && a->k[1]->isConst()) return mkBin(Xor, a->k[0], mkConst(a->k[1]->c ^ B, w));
      if (w == 1 && bc && a->op == Ite && a->width == 1) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
      if (w == 1 && bc && a->op == And && (isNot(a->k[0]) && isNot(a->k[1]))) return mkBin(Or, mkNot(a->k[0]), mkNot(a->k[1]));
      if (w == 1 && bc && a->op == Or && (isNot(a->k[0]) && isNot(a->k[1]))) return mkBin(And, mkNot(a->k[0]), mkNot(a->k[1]));
      if (w > 1 && bc && a->op == ZExt && (B >> a->k[0]->width) == 0) return mkZExt(mkBin(Xor, a->k[0], mkConst(B, a->k[0]->width)), w);
      break;
    case Shl:
      if (bc) { if (B == 0) return a; if (B >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - (unsigned)B), mkConst(0, (unsigned)B)); }
      break;
    case LShr:
      if (bc) { if (B == 0) return a; if (B >= w) return mkConst(0, w); return mkZExt(mkExtract(a, (unsigned)B, w - (unsigned)B), w); }
      break;
    case AShr:
      if (bc) { if (B == 0) return a; if (B >= w) B = w - 1; return mkSExt(mkExtract(a, (unsigned)B, w - (unsigned)B), w); }
      break;
    case Eq:
      if (a == b) return mkTrue();
      if (w == 1) { if (bc) return B ? a : mkNot(a); if (isNotOf(a, b)) return mkFalse(); }
      if (bc) {
        if (a->op == ZExt) { unsigned iw = a->k[0]->width; if (B >> iw) return mkFalse(); return mkBin(Eq, a->k[0], mkConst(B, iw)); }
        if (a->op == SExt) { unsigned iw = a->k[0]->width; u128 t = B & maskW(iw); if (((u128)sextW(t, iw) & m) != B) return mkFalse(); return mkBin(Eq, a->k[0], mkConst(t, iw)); }
        if (a->op == Add && a->k[1]->isConst()) return mkBin(Eq, a->k[0], mkConst(B - a->k[1]->c, w));
        if (a->op == Xor && a->k[1]->isConst()) return mkBin(Eq, a->k[0], mkConst(B ^ a->k[1]->c, w));
        if (a->op == Sub && B == 0) return mkBin(Eq, a->k[0], a->k[1]);
        if (a->op == Concat) { unsigned lw = a->k[1]->width; return mkBin(And, mkBin(Eq, a->k[0], mkConst(B >> lw, a->k[0]->width)), mkBin(Eq, a->k[1], mkConst(B & maskW(lw), lw))); }
        if (a->op == Ite) {  // one constant branch
          if (a->k[1]->isConst()) { Expr* r = mkBin(Eq, a->k[2], b); return a->k[1]->c == B ? mkBin(Or, a->k[0], r) : mkBin(And, mkNot(a->k[0]), r); }
          if (a->k[2]->isConst()) { Expr* r = mkBin(Eq, a->k[1], b); return a->k[2]->c == B ? mkBin(Or, mkNot(a->k[0]), r) : mkBin(And, a->k[0], r); }
        }
      } else {
        if (a->op == ZExt && b->op == ZExt && a->k[0]->width == b->k[0]->width) return mkBin(Eq, a->k[0], b->k[0]);
        if (a->op == SExt && b->op == SExt && a->k[0]->width == b->k[0]->width) return mkBin(Eq, a->k[0], b->k[0]);
        if (a->op == Ite) { if (a->k[1] == b) return mkBin(Or, a->k[0], mkBin(Eq, a->k[2], b)); if (a->k[2] == b) return mkBin(Or, mkNot(a->k[0]), mkBin(Eq, a->k[1], b)); }
        if (b->op == Ite) { if (b->k[1] == a) return mkBin(Or, b->k[0], mkBin(Eq, b->k[2], a)); if (b->k[2] == a) return mkBin(Or, mkNot(b->k[0]), mkBin(Eq, b->k[1], a)); }
        if (a->op == Add && b->op == Add && a->k[1]->isConst() && b->k[1]->isConst() ) return mkBin(Eq, mkBin(Add, a->k[0], mkConst(a->k[1]->c - b->k[1]->c, w)), b->k[0]);
        if (a->op == Concat && b->op == Concat && a->k[0]->width == b->k[0]->width) return mkBin(And, mkBin(Eq, a->k[0], b->k[0]), mkBin(Eq, a->k[1], b->k[1]));
      }
      break;
    case Ult:
      if (a == b) return mkFalse();
      if (bc && B == 0) return mkFalse();
      if (bc && B == 1) return mkBin(Eq, a, mkConst(0, w));
      if (a->isConst() && a->c == m) return mkFalse();
      if (bc && B == m) return mkNot(mkBin(Eq, a, b));
      if (a->isConst() && a->c == 0) return mkNot(mkBin(Eq, b, a));
      if (w == 1) return mkBin(And, mkNot(a), b);
      if (a->op == ZExt && bc) { unsigned iw = a->k[0]->width; if (B >> iw) return mkTrue(); return mkBin(Ult, a->k[0], mkConst(B, iw)); }
      if (b->op == ZExt && a->isConst()) { unsigned iw = b->k[0]->width; if (a->c >> iw) return mkFalse(); return mkBin(Ult, mkConst(a->c, iw), b->k[0]); }
      if (a->op == ZExt && b->op == ZExt && a->k[0]->width == b->k[0]->width) return mkBin(Ult, a->k[0], b->k[0]);
      break;
    case Slt:
      if (a == b) return mkFalse();
      if (bc && B == ((u128)1 << (w - 1))) return mkFalse();
      if (a->isConst() && a->c == (m >> 1)) return mkFalse();
      if (w == 1) return mkBin(And, a, mkNot(b));
      if (a->op == ZExt && bc) { return sextW(B, w) < 0 ? mkFalse() : mkBin(Ult, a, b); }
      if (b->op == ZExt && a->isConst()) { return sextW(a->c, w) < 0 ? mkTrue() : mkBin(Ult, a, b); }
      if (a->op == ZExt && b->op == ZExt) return mkBin(Ult, a, b);
      if (a->op == SExt && b->op == SExt && a->k[0]->width == b->k[0]->width) return mkBin(Slt, a->k[0], b->k[0]);
      if (a->op == SExt && bc) { unsigned iw = a->k[0]->width; s128 v = sextW(B, w); s128 lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1; if (v > hi) return mkTrue(); if (v <= lo) return mkFalse(); return mkBin(Slt, a->k[0], mkConst((u128)v, iw)); }
      if (b->op == SExt && a->isConst()) { unsigned iw = b->k[0]->width; s128 v = sextW(a->c, w); s128 lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1; if (v >= hi) return mkFalse(); if (v < lo) return mkTrue(); return mkBin(Slt, mkConst((u128)v, iw), b->k[0]); }
      break;
    default: break;
  }
  if (w == 1 && (op == And || op == Or)) {
    // flattened complement/duplicate detection for short chains
    std::vector<Expr*> fa, fb; flattenOr(op, a, fa, 12); flattenOr(op, b, fb, 12);
    if (fa.size() + fb.size() <= 24) {
      std::vector<Expr*> keep; bool dropped = false;
      for (auto* y : fb) { bool dup = false; for (auto* x : fa) { if (x == y) dup = true; if (isNotOf(x, y)) return mkConst(op == Or, 1); } if (dup) dropped = true; else keep.push_back(y); }
      if (dropped) { Expr* r = a; for (auto* y : keep) r = mkBin(op, r, y); return r; }
    }
  }
  Expr* ks[2] = {a, b};
  return intern(op, rw, ks, 2, 0, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (a->op == Tuple || b->op == Tuple) {
    if (a->nk != b->nk) throw EngineError("tuple mismatch in ite");
    std::vector<Expr*> v; for (unsigned i = 0; i < a->nk; i++) v.push_back(a->k[i] && b->k[i] ? mkIte(c, a->k[i], b->k[i]) : nullptr);
    return mkTuple(v);
  }
  if (a->width != b->width) throw EngineError("ite width mismatch");
  if (isNot(c)) return mkIte(c->k[0], b, a);
  if (a->op == Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (a->width == 1) {
    if (isTrue(a)) return mkBin(Or, c, b);
    if (isFalse(a)) return mkBin(And, mkNot(c), b);
    if (isTrue(b)) return mkBin(Or, mkNot(c), a);
    if (isFalse(b)) return mkBin(And, c, a);
    if (a == c) return mkBin(Or, c, b);
    if (b == c) return mkBin(And, c, a);
  }
  if (a->op == Ite) { if (a->k[2] == b) return mkIte(mkBin(And, c, a->k[0]), a->k[1], b); if (a->k[1] == b) return mkIte(mkBin(And, c, mkNot(a->k[0])), a->k[2], b); }
  if (b->op == Ite) { if (b->k[1] == a) return mkIte(mkBin(Or, c, b->k[0]), a, b->k[2]); if (b->k[2] == a) return mkIte(mkBin(Or, c, mkNot(b->k[0])), a, b->k[1]); }
  if (a->op == ZExt && b->op == ZExt && a->k[0]->width == b->k[0]->width) return mkZExt(mkIte(c, a->k[0], b->k[0]), a->width);
  if (a->op == ZExt && b->isConst() && (b->c >> a->k[0]->width) == 0) return mkZExt(mkIte(c, a->k[0], mkConst(b->c, a->k[0]->width)), a->width);
  if (b->op == ZExt && a->isConst() && (a->c >> b->k[0]->width) == 0) return mkZExt(mkIte(c, mkConst(a->c, b->k[0]->width), b->k[0]), a->width);
  return intern1(Ite, a->width, {c, a, b});
}

Expr* mkZExt(Expr* e, unsigned w) {
  if (e->width == w) return e;
  if (e->width > w) return mkExtract(e, 0, w);
  if (e->isConst()) return mkConst(e->c, w);
  if (e->op == ZExt) return mkZExt(e->k[0], w);
  if (e->op == Ite && constTree(e, 64)) return mkIte(e->k[0], mkZExt(e->k[1], w), mkZExt(e->k[2], w));
  return intern1(ZExt, w, {e});
}
Expr* mkSExt(Expr* e, unsigned w) {
  if (e->width == w) return e;
  if (e->isConst()) return mkConst((u128)sextW(e->c, e->width), w);
  if (e->op == ZExt) return mkZExt(e->k[0], w);
  if (e->op == SExt) return mkSExt(e->k[0], w);
  if (e->op == Ite && constTree(e, 64)) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
  if (e->width == 1) return mkIte(e, mkConst(maskW(w), w), mkConst(0, w));
  return intern1(SExt, w, {e});
}
Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
  if (w == e->width && lo == 0) return e;
  if (lo + w > e->width) throw EngineError("extract range");
  if (e->isConst()) return mkConst(e->c >> lo, w);
  switch (e->op) {
    case Extract: return mkExtract(e->k[0], lo + (unsigned)e->c, w);
    case Concat: {
      unsigned lw = e->k[1]->width;
      if (lo + w <= lw) return mkExtract(e->k[1], lo, w);
      if (lo >= lw) return mkExtract(e->k[0], lo - lw, w);
      return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo));
    }
    case ZExt: {
      unsigned iw = e->k[0]->width;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(e->k[0], lo, w);
      return mkZExt(mkExtract(e->k[0], lo, iw - lo), w);
    }
    case SExt: {
      unsigned iw = e->k[0]->width;
      if (lo + w <= iw) return mkExtract(e->k[0], lo, w);
      if (lo == 0 && w > iw) return mkSExt(e->k[0], w);
      if (lo < iw) return mkSExt(mkExtract(e->k[0], lo, iw - lo), w);
      return mkSExt(mkExtract(e->k[0], iw - 1, 1), w);
    }
    case Ite:
      if (constTree(e, 64) || e->k[1]->op == Const || e->k[2]->op == Const || e->k[1]->op == ZExt || e->k[1]->op == Concat || e->k[2]->op == Concat)
        return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
      break;
    case And: case Or: case Xor:
      return mkBin(e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
    case Add: case Sub: case Mul:
      if (lo == 0) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
      break;
    default: break;
  }
  return intern1(Extract, w, {e}, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->width + lo->width;
  if (w > 4096) throw EngineError("concat too wide");
  if (hi->isConst() && lo->isConst() && w <= 128) return mkConst((hi->c << lo->width) | lo->c, w);
  if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == Extract && lo->op == Extract && hi->k[0] == lo->k[0] && (unsigned)hi->c == (unsigned)lo->c + lo->width) return mkExtract(hi->k[0], (unsigned)lo->c, w);
  if (hi->op == Extract && hi->k[0] == lo && (unsigned)hi->c == lo->width) return mkExtract(lo, 0, w);  // unreachable widths guard below
  if (hi->op == Ite && lo->op == Ite && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  // associate to the right: (a.b).c -> a.(b.c), letting b.c fuse
  if (hi->op == Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->op == Concat && hi->op == Extract && lo->k[0]->op == Extract && hi->k[0] == lo->k[0]->k[0] && (unsigned)hi->c == (unsigned)lo->k[0]->c + lo->k[0]->width)
    return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->c, hi->width + lo->k[0]->width), lo->k[1]);
  if (lo->op == Concat && hi->isConst() && lo->k[0]->isConst() && hi->width + lo->k[0]->width <= 128)
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  return intern1(Concat, w, {hi, lo});
}

// ---------------------------------------------------------------- FP
static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 dbits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fbits(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
template <class T> static T cvt(u128 v);
template <> double cvt<double>(u128 v) { return asD(v); }
template <> float cvt<float>(u128 v) { return asF(v); }
static u128 bitsOf(double d) { return dbits(d); }
static u128 bitsOf(float d) { return fbits(d); }

template <class T> static u128 foldFPT(Op op, u128 const* k, unsigned nk, unsigned w) {
  volatile T a = cvt<T>(k[0]); volatile T b = nk > 1 ? cvt<T>(k[1]) : T(0);
  switch (op) {
    case FEq: return a == b; case FLt: return a < b; case FLe: return a <= b; case FIsNan: return a != a;
    case FAdd: return bitsOf((T)(a + b)); case FSub: return bitsOf((T)(a - b)); case FMul: return bitsOf((T)(a * b)); case FDiv: return bitsOf((T)(a / b));
    case FRem: return bitsOf((T)std::fmod((T)a, (T)b));
    case FSqrt: return bitsOf((T)std::sqrt((T)a));
    case FFma: return bitsOf((T)std::fma((T)a, (T)b, cvt<T>(k[2])));
    case FFloor: return bitsOf((T)std::floor((T)a)); case FCeil: return bitsOf((T)std::ceil((T)a)); case FTruncI: return bitsOf((T)std::trunc((T)a));
    case FRoundA: return bitsOf((T)std::round((T)a)); case FRint: return bitsOf((T)std::nearbyint((T)a));
    case FPExt: return dbits((double)a);
    case FPTrunc: return fbits((float)a);
    case FPToSI: {
      // x86 semantics of cvttsX2si through 64-bit for widths < 64
      T t = std::trunc((T)a); u128 indef;
      if (w <= 32) { indef = (u128)0x80000000u; if (!(t >= (T)-2147483648.0 && t < (T)2147483648.0)) return (w == 32 ? indef : 0) & maskW(w); return (u128)(s128)(int32_t)t & maskW(w); }
      indef = (u128)1 << 63; if (!(t >= (T)-9223372036854775808.0 && t < (T)9223372036854775808.0)) return indef & maskW(w); return (u128)(s128)(int64_t)t & maskW(w);
    }
    case FPToUI: {
      T t = std::trunc((T)a);
      if (!(t > (T)-1 && t < (T)18446744073709551616.0)) return (w == 64 ? (u128)1 << 63 : 0) & maskW(w);
      return (u128)(uint64_t)t & maskW(w);
    }
    default: throw EngineError("foldFP");
  }
}
static u128 foldFP(Op op, u128 const* k, unsigned nk, unsigned kw, unsigned w) {
  if (op == SIToFP || op == UIToFP) {
    if (op == SIToFP) { s128 v = sextW(k[0], kw); return w == 64 ? dbits((double)v) : fbits((float)v); }
    u128 v = k[0] & maskW(kw); return w == 64 ? dbits((double)v) : fbits((float)v);
  }
  if (kw == 64) return foldFPT<double>(op, k, nk, w);
  if (kw == 32) return foldFPT<float>(op, k, nk, w);
  throw EngineError("FP width " + std::to_string(kw));
}
// e is certainly not minus zero (and, unless it is a constant, the canonical result of an operation)
static bool notNegZero(Expr* e, int depth = 0) {
  if (depth > 12) return false;
  if (e->isConst()) return e->c != ((u128)1 << (e->width - 1));
  switch (e->op) {
    case FAdd: return notNegZero(e->k[0], depth + 1) || notNegZero(e->k[1], depth + 1);
    case SIToFP: case UIToFP: return true;
    case FPExt: return notNegZero(e->k[0], depth + 1);
    case Ite: return notNegZero(e->k[1], depth + 1) && notNegZero(e->k[2], depth + 1);
    default: return false;
  }
}
Expr* mkFP(Op op, std::vector<Expr*> const& kin, unsigned w) {
  std::vector<Expr*> k = kin;
  bool allc = true; for (auto* x : k) allc &= x->isConst();
  if (allc) { u128 v[3]; for (size_t i = 0; i < k.size(); i++) v[i] = k[i]->c; return mkConst(foldFP(op, v, k.size(), k[0]->width, w), w); }
  unsigned kw = k[0]->width;
  if (op == FAdd || op == FMul || op == FEq) if (k[0]->isConst() || (!k[1]->isConst() && k[0]->id > k[1]->id)) std::swap(k[0], k[1]);
  // push comparisons through ite trees of constants
  if (k.size() == 1 && k[0]->op == Ite && constTree(k[0], 64)) return mkIte(k[0]->k[0], mkFP(op, {k[0]->k[1]}, w), mkFP(op, {k[0]->k[2]}, w));
  if (k.size() == 2) {
    if (k[0]->op == Ite && k[1]->isConst() && constTree(k[0], 64)) return mkIte(k[0]->k[0], mkFP(op, {k[0]->k[1], k[1]}, w), mkFP(op, {k[0]->k[2], k[1]}, w));
    if (k[1]->op == Ite && k[0]->isConst() && constTree(k[1], 64)) return mkIte(k[1]->k[0], mkFP(op, {k[0], k[1]->k[1]}, w), mkFP(op, {k[0], k[1]->k[2]}, w));
  }
  switch (op) {
    case FAdd: // x + 0 is x, unless x is minus zero; x + -0 is x
      for (int i = 0; i < 2; i++) if (k[i]->isConst() && k[i]->c == ((u128)1 << (kw - 1)) && !k[1 - i]->isConst()) return k[1 - i];
      for (int i = 0; i < 2; i++) if (k[i]->isConst() && k[i]->c == 0 && !k[1 - i]->isConst() && notNegZero(k[1 - i])) return k[1 - i];
      break;
    case FIsNan:
      if (k[0]->op == SIToFP || k[0]->op == UIToFP) return mkFalse();
      if (k[0]->op == FPExt) return mkFP(FIsNan, {k[0]->k[0]}, 1);
      { // clearing or flipping the sign bit keeps NaN-ness
        Expr* x = k[0];
        if (x->op == ZExt && x->k[0]->width == kw - 1 && x->k[0]->op == Extract && x->k[0]->c == 0 && x->k[0]->k[0]->width == kw) return mkFP(FIsNan, {x->k[0]->k[0]}, 1);
        if (x->op == Xor && x->k[1]->isConst() && x->k[1]->c == ((u128)1 << (kw - 1))) return mkFP(FIsNan, {x->k[0]}, 1);
      }
      break;
    case FEq:
      if (k[0] == k[1]) return mkNot(mkFP(FIsNan, {k[0]}, 1));
      if (k[0]->op == FPExt && k[1]->op == FPExt) return mkFP(op, {k[0]->k[0], k[1]->k[0]}, 1);
      break;
    case FLt:
      if (k[0] == k[1]) return mkFalse();
      if (k[0]->op == FPExt && k[1]->op == FPExt) return mkFP(op, {k[0]->k[0], k[1]->k[0]}, 1);
      break;
    case FLe:
      if (k[0] == k[1]) return mkNot(mkFP(FIsNan, {k[0]}, 1));
      if (k[0]->op == FPExt && k[1]->op == FPExt) return mkFP(op, {k[0]->k[0], k[1]->k[0]}, 1);
      break;
    case FPTrunc:
      if (k[0]->op == FPExt) return k[0]->k[0];
      break;
    case SIToFP: case UIToFP: {
      Expr* x = k[0];
      // canonical source: strip extensions that do not change the value
      if (op == SIToFP && x->op == ZExt) return mkFP(UIToFP, {x->k[0]}, w);
      if (op == SIToFP && x->op == SExt) return mkFP(SIToFP, {x->k[0]}, w);
      if (op == UIToFP && x->op == ZExt) return mkFP(UIToFP, {x->k[0]}, w);
      break;
    }
    default: break;
  }
  (void)kw;
  return intern(op, w, k.data(), k.size(), 0, 0);
}
Expr* mkApp(std::string const& fn, std::vector<Expr*> const& k, unsigned w) {
  bool allc = true; for (auto* x : k) allc &= x->isConst();
  if (allc) { std::vector<u128> v; for (auto* x : k) v.push_back(x->c); u128 r; if (hostApp(fn, v, w, r)) return mkConst(r, w); }
  return intern(App, w, k.data(), k.size(), 0, internName(fn));
}

static thread_local int hostErrno;
#define M1(n) { #n, [](double x) -> double { return n(x); } }
#define M2(n) { #n, [](double x, double y) -> double { return n(x, y); } }
#define F1(n) { #n, [](float x) -> float { return n(x); } }
#define F2(n) { #n, [](float x, float y) -> float { return n(x, y); } }
bool hostApp(std::string const& fnIn, std::vector<u128> const& a, unsigned w, u128& out) {
  static std::unordered_map<std::string, double (*)(double)> d1{M1(sin), M1(cos), M1(tan), M1(asin), M1(acos), M1(atan), M1(sinh), M1(cosh), M1(tanh), M1(exp), M1(exp2), M1(expm1), M1(log), M1(log2), M1(log10), M1(log1p), M1(tgamma), M1(lgamma), M1(cbrt), M1(sqrt)};
  static std::unordered_map<std::string, double (*)(double, double)> d2{M2(pow), M2(atan2), M2(fmod), M2(hypot), M2(remainder)};
  static std::unordered_map<std::string, float (*)(float)> f1{F1(sinf), F1(cosf), F1(tanf), F1(asinf), F1(acosf), F1(atanf), F1(sinhf), F1(coshf), F1(tanhf), F1(expf), F1(exp2f), F1(expm1f), F1(logf), F1(log2f), F1(log10f), F1(log1pf), F1(tgammaf), F1(lgammaf), F1(cbrtf), F1(sqrtf)};
  static std::unordered_map<std::string, float (*)(float, float)> f2{F2(powf), F2(atan2f), F2(fmodf), F2(hypotf), F2(remainderf)};
  std::string fn = fnIn; bool wantErr = false;
  if (fn.compare(0, 6, "errno:") == 0) { fn = fn.substr(6); wantErr = true; }
  errno = 0; u128 r;
  if (a.size() == 1 && d1.count(fn)) r = dbits(d1[fn](asD(a[0])));
  else if (a.size() == 2 && d2.count(fn)) r = dbits(d2[fn](asD(a[0]), asD(a[1])));
  else if (a.size() == 1 && f1.count(fn)) r = fbits(f1[fn](asF(a[0])));
  else if (a.size() == 2 && f2.count(fn)) r = fbits(f2[fn](asF(a[0]), asF(a[1])));
  else return false;
  hostErrno = errno;
  out = wantErr ? (u128)(uint32_t)hostErrno & maskW(w) : r & maskW(w);
  return true;
}

u128 evalExpr(Expr* root, Assignment const& as, std::unordered_map<Expr*, u128>* memoIn) {
  std::unordered_map<Expr*, u128> local; auto& memo = memoIn ? *memoIn : local;
  if (root->isConst()) return root->c;
  std::vector<std::pair<Expr*, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, done] = st.back();
    if (e->isConst() || memo.count(e)) { st.pop_back(); continue; }
    auto val = [&](Expr* x) -> u128 { return x->isConst() ? x->c : memo.at(x); };
    if (e->op == Var) { memo[e] = as.get((uint32_t)e->c) & maskW(e->width); st.pop_back(); continue; }
    if (e->op == Ite) {
      if (!e->k[0]->isConst() && !memo.count(e->k[0])) { st.push_back({e->k[0], false}); continue; }
      Expr* t = val(e->k[0]) ? e->k[1] : e->k[2];
      if (!t->isConst() && !memo.count(t)) { st.push_back({t, false}); continue; }
      memo[e] = val(t); st.pop_back(); continue;
    }
    if (!done) { st.back().second = true; for (unsigned i = 0; i < e->nk; i++) if (!e->k[i]->isConst() && !memo.count(e->k[i])) st.push_back({e->k[i], false}); continue; }
    u128 r;
    switch (e->op) {
      case Concat: if (e->width > 128) throw EngineError("eval wide"); r = (val(e->k[0]) << e->k[1]->width) | val(e->k[1]); break;
      case Extract: r = (val(e->k[0]) >> (unsigned)e->c) & maskW(e->width); break;
      case ZExt: r = val(e->k[0]); break;
      case SExt: r = (u128)sextW(val(e->k[0]), e->k[0]->width) & maskW(e->width); break;
      case App: { std::vector<u128> v; for (unsigned i = 0; i < e->nk; i++) v.push_back(val(e->k[i])); if (!hostApp(g_names[e->name], v, e->width, r)) throw EngineError("no host model for " + g_names[e->name]); break; }
      case Tuple: throw EngineError("eval tuple");
      default:
        if (e->op >= Add && e->op <= Sle) r = foldBin(e->op, val(e->k[0]), val(e->k[1]), e->k[0]->width);
        else { u128 v[3]; for (unsigned i = 0; i < e->nk; i++) v[i] = val(e->k[i]); r = foldFP(e->op, v, e->nk, e->k[0]->width, e->width); }
    }
    memo[e] = r; st.pop_back();
  }
  return memo.at(root);
}

std::string u128str(u128 v) { char b[64]; if (v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 64, "%llu", (unsigned long long)v); return b; }
std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","feq","flt","fle","fisnan","fpext","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","fptrunc","ffloor","fceil","ftrunc","fround","frint","sitofp","uitofp","fptosi","fptoui","app","tuple"};
  if (!e) return "null";
  if (e->op == Const) return u128str(e->c) + ":" + std::to_string(e->width);
  if (e->op == Var) return g_names[e->name];
  if (d <= 0) return "...";
  std::string s = std::string("(") + (e->op == App ? g_names[e->name] : n[e->op]);
  if (e->op == Extract) s += "[" + u128str(e->c) + "+" + std::to_string(e->width) + "]";
  for (unsigned i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}

std::string showExpr(Expr* e, int depth) {
  static const char* N[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","feq","flt","fle","fisnan","fpext","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","fptrunc","ffloor","fceil","ftrunci","frounda","frint","sitofp","uitofp","fptosi","fptoui","app","tuple"};
  char b[64];
  if (e->op == Const) { snprintf(b, 64, "%llx", (unsigned long long)e->c); return b; }
  if (e->op == Var) return g_vars[(size_t)e->c].name;
  if (depth <= 0) { snprintf(b, 64, "#%u", e->id); return b; }
  std::string r = std::string("(") + N[e->op]; if (e->op == Extract) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->width); r += b; }
  for (unsigned i = 0; i < e->nk; i++) r += " " + showExpr(e->k[i], depth - 1);
  return r + ")";
}
