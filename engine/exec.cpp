// fernsym: symbolic executor for LLVM-18 bitcode.
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/CFG.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/DebugLoc.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
using namespace llvm;
using std::vector; using std::string; using std::map; using std::set; using std::shared_ptr; using std::make_shared;

// llvm and the expression library share names
namespace X {
enum { dummy };
}

static Module* M; static const DataLayout* DL;
static map<uint64_t, shared_ptr<Obj>> g_globals;
static std::unordered_map<const GlobalValue*, uint64_t> g_addr;
static std::unordered_map<uint64_t, Function*> g_fnAt;
static std::unordered_map<uint64_t, const GlobalVariable*> g_gvAt;
static uint64_t g_next = 0x10000000;
static std::unordered_map<Function*, FnInfo*> g_fn;
static vector<Violation> g_viol; static set<string> g_violKeys;
static map<string, uint64_t> g_reach; static set<string> g_fernFns; static set<string> g_fernLines;
static vector<string> g_incomplete; static map<string, uint64_t> g_stats;
static uint64_t g_steps = 0, g_forks = 0, g_merges = 0, g_paths = 0, g_asserts = 0, g_assertSym = 0, g_states = 0, g_assumeDead = 0, g_mergeFail = 0;
static double g_deadline = 1e18; static std::chrono::steady_clock::time_point g_t0;
static uint64_t g_maxSteps = 400000000ull; static bool g_verbose = false; static size_t g_maxPaths = 2000000;
static uint64_t g_pathStepLimit = 40000000ull;
struct Sample { map<string, std::pair<u128, unsigned>> in; vector<std::pair<string, u128>> obs; };
static vector<Sample> g_samples; static size_t g_maxSamples = 4, g_sampleFails = 0;
static map<string, u128> g_assign; static bool g_useAssign = false;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static void incomplete(string const& s) { for (auto& x : g_incomplete) if (x == s) return; g_incomplete.push_back(s); if (g_verbose) fprintf(stderr, "INCOMPLETE %s\n", s.c_str()); }

static string locOf(const Instruction* I) {
  if (!I) return "";
  string s; if (const DebugLoc& dl = I->getDebugLoc()) { s = (dl->getFilename() + ":" + Twine(dl->getLine())).str(); for (DILocation* d = dl->getInlinedAt(); d; d = d->getInlinedAt()) s += (" < " + d->getFilename() + ":" + Twine(d->getLine())).str(); }
  return s;
}
static string stackOf(State& S) {
  string s; if (S.cur < 0) return s; auto& st = S.th[S.cur].st; int n = 0;
  for (auto it = st.rbegin(); it != st.rend() && n < 14; ++it, ++n) { string d = demangle((*it)->fi->f->getName().str()); if (d.size() > 120) d = d.substr(0, 120) + "..."; s += "\n    " + d + " @ " + locOf((*it)->pc); }
  return s;
}

static FnInfo* fnInfo(Function* f) {
  auto it = g_fn.find(f); if (it != g_fn.end()) return it->second;
  FnInfo* fi = new FnInfo; fi->f = f;
  for (auto& a : f->args()) fi->num[&a] = fi->nregs++;
  for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) fi->num[&i] = fi->nregs++;
  // blocks that can reach a return
  vector<const BasicBlock*> wl; for (auto& b : *f) if (isa<ReturnInst>(b.getTerminator())) { fi->reachRet.insert(&b); wl.push_back(&b); }
  while (!wl.empty()) { auto* b = wl.back(); wl.pop_back(); for (auto* p : predecessors(b)) if (fi->reachRet.insert(p).second) wl.push_back(p); }
  // post-dominators on the subgraph of those blocks; virtual exit = index 0
  vector<const BasicBlock*> order; // reverse post order of the reverse graph
  { set<const BasicBlock*> vis; struct It { const BasicBlock* b; vector<const BasicBlock*> s; size_t i; }; vector<const BasicBlock*> po;
    for (auto& b : *f) if (isa<ReturnInst>(b.getTerminator()) && fi->reachRet.count(&b) && vis.insert(&b).second) {
      vector<It> st; auto mk = [&](const BasicBlock* x) { It it{x, {}, 0}; for (auto* p : predecessors(x)) if (fi->reachRet.count(p)) it.s.push_back(p); return it; };
      st.push_back(mk(&b)); while (!st.empty()) { if (st.back().i < st.back().s.size()) { auto* n = st.back().s[st.back().i++]; if (vis.insert(n).second) st.push_back(mk(n)); } else { po.push_back(st.back().b); st.pop_back(); } } }
    order.assign(po.rbegin(), po.rend()); }
  std::unordered_map<const BasicBlock*, int> ix; for (size_t i = 0; i < order.size(); i++) ix[order[i]] = i + 1;
  vector<int> idom(order.size() + 1, -1); idom[0] = 0;
  auto inter = [&](int a, int b) { while (a != b) { while (a > b) a = idom[a]; while (b > a) b = idom[b]; } return a; };
  bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < order.size(); i++) { const BasicBlock* b = order[i]; int nd = -1;
      auto feed = [&](int p) { if (idom[p] < 0) return; nd = nd < 0 ? p : inter(nd, p); };
      if (isa<ReturnInst>(b->getTerminator())) feed(0);
      for (auto* s : successors(b)) { auto q = ix.find(s); if (q != ix.end()) feed(q->second); }
      if (nd >= 0 && idom[i + 1] != nd) { idom[i + 1] = nd; ch = true; } } }
  for (size_t i = 0; i < order.size(); i++) fi->ipdom[order[i]] = idom[i + 1] <= 0 ? nullptr : order[idom[i + 1] - 1];
  return g_fn[f] = fi;
}

static void cover(FnInfo* fi, const BasicBlock* b) {
  if (!fi->seen.insert(b).second) return;
  for (auto& i : *b) if (const DebugLoc& dl = i.getDebugLoc()) for (DILocation* d = dl.get(); d; d = d->getInlinedAt()) {
    StringRef fn = d->getFilename(); size_t p = fn.find("source/fern/"); if (p == StringRef::npos) continue;
    g_fernLines.insert((fn.substr(p + 7) + ":" + Twine(d->getLine())).str());
    if (auto* sp = d->getScope()->getSubprogram()) { StringRef ln = sp->getLinkageName(); string nm = ln.empty() ? sp->getName().str() : ln.str(); g_fernFns.insert(fn.substr(p + 7).str() + "|" + nm); }
  }
}

// ------------------------------------------------------------------ memory
static unsigned widthOf(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isX86_FP80Ty()) return 80;
  throw EngineError("width of type");
}
static uint64_t allocAddr(uint64_t size) { uint64_t a = (g_next + 15) & ~15ull; g_next = a + std::max<uint64_t>(size, 1) + 32; return a; }
static uint64_t newObj(State& S, uint64_t size, char kind, string name) {
  if (size > (64u << 20)) throw EngineError("allocation too large");
  auto o = make_shared<Obj>(); o->base = allocAddr(size); o->size = size; o->cells.assign(size, Cell{nullptr, 0}); o->kind = kind; o->name = std::move(name);
  uint64_t b = o->base; S.mem[b] = o; return b;
}
static shared_ptr<Obj>* findIn(map<uint64_t, shared_ptr<Obj>>& m, uint64_t a) {
  auto it = m.upper_bound(a); if (it == m.begin()) return nullptr; --it;
  if (a < it->second->base + std::max<uint64_t>(it->second->size, 1)) return &it->second; return nullptr;
}
static Obj* findObj(State& S, uint64_t a) {
  if (auto* p = findIn(S.mem, a)) return p->get();
  if (auto* p = findIn(g_globals, a)) return p->get();
  return nullptr;
}
static Obj* writable(State& S, uint64_t a) {
  auto* p = findIn(S.mem, a);
  if (!p) { auto* g = findIn(g_globals, a); if (!g) return nullptr; S.mem[(*g)->base] = make_shared<Obj>(**g); return S.mem[(*g)->base].get(); }
  if (p->use_count() > 1) *p = make_shared<Obj>(**p);
  return p->get();
}
static Expr* cellByte(Obj* o, uint64_t off) {
  Cell& c = o->cells[off];
  if (!c.e) { c.e = mkVar("uninit_" + std::to_string(o->base) + "_" + std::to_string(off), 8, false); c.ix = 0; }
  return mkExtract(c.e, 8 * c.ix, 8);
}
static Expr* readObj(Obj* o, uint64_t off, unsigned n) {
  Cell& c0 = o->cells[off];
  if (c0.e) {
    bool run = true; for (unsigned i = 1; i < n && run; i++) { Cell& c = o->cells[off + i]; run = c.e == c0.e && c.ix == c0.ix + i; }
    if (run) return mkExtract(c0.e, 8 * c0.ix, 8 * n);
  }
  Expr* r = nullptr;
  for (unsigned i = 0; i < n;) {
    Cell& c = o->cells[off + i]; Expr* part; unsigned k = 1;
    if (c.e) { while (i + k < n && o->cells[off + i + k].e == c.e && o->cells[off + i + k].ix == c.ix + k) k++; part = mkExtract(c.e, 8 * c.ix, 8 * k); }
    else part = cellByte(o, off + i);
    r = r ? mkConcat(part, r) : part; i += k;
  }
  return r;
}
static void writeObj(Obj* o, uint64_t off, Expr* e) { unsigned n = e->width / 8; for (unsigned i = 0; i < n; i++) o->cells[off + i] = Cell{e, i}; }
static Expr* byteWiden(Expr* e) { unsigned w = (e->width + 7) / 8 * 8; return mkZExt(e, w); }

static void raiseIncompleteUnknown(string const& what) { incomplete("solver gave no answer: " + what); }

static void collectInputs(Assignment const& a, map<string, std::pair<u128, unsigned>>& out) {
  for (uint32_t i = 0; i < g_vars.size(); i++) if (g_vars[i].input) out[g_vars[i].name] = {a.get(i) & maskW(g_vars[i].width), g_vars[i].width};
}
static bool pcHolds(State& S, Assignment const& a) {
  try { std::unordered_map<Expr*, u128> memo; for (auto* p : S.pc) if (!evalExpr(p, a, &memo)) return false; return true; } catch (EngineError&) { return false; }
}
// satisfiable in IEEE semantics? returns Unknown if undecided
static Res preciseSat(State& S, Expr* c, Assignment& m, bool& checked) {
  checked = false;
  if (isFalse(c)) return Res::Unsat;
  if (S.model) { try { if (evalExpr(c, *S.model)) { m = *S.model; checked = true; return Res::Sat; } } catch (EngineError&) {} }
  Res r = solve(S.pc, c, S.model.get(), m, true, &checked);
  if (r == Res::Sat && !checked) {
    Expr* all = c; for (auto* p : S.pc) all = mkAnd1(all, p);
    Assignment m2; bool ck = false; Res r2 = solve({}, all, nullptr, m2, true, &ck);
    if (r2 == Res::Unsat) return Res::Unsat;
    if (r2 == Res::Sat) { m = m2; checked = ck; }
  }
  return r;
}
// a model of the path condition by trying extreme and ordinary floating point and integer values
static bool guessModel(State& S, Assignment& m, Expr* also = nullptr, int tries = 40) {
  static const double cand[] = {1, 0, 2, 1e308, -1e308, 1e38, -1e38, 3, 1e154, 1e19, 0.5, 1e-300, INFINITY, NAN, -1, 1.5e308};
  uint64_t x = 88172645463325252ull + g_paths;
  for (int t = 0; t < tries; t++) {
    Assignment r = S.model ? *S.model : Assignment();
    for (uint32_t i = 0; i < g_vars.size(); i++) if (g_vars[i].input && (g_vars[i].width == 64 || g_vars[i].width == 32)) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; double d = t == 0 ? 1 : t < 4 ? (double)(1 + (x >> 20) % 50) : cand[(x >> 20) % (t < 12 ? 5 : 16)]; if (g_vars[i].width == 64) { uint64_t b; memcpy(&b, &d, 8); r.v[i] = b; } else { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); r.v[i] = b; } }
    for (auto* p : S.pc) if (p->op == Var) r.v[(uint32_t)p->c] = 1; else if (p->op == Xor && p->width == 1 && p->k[0]->op == Var && p->k[1]->isConst()) r.v[(uint32_t)p->k[0]->c] = 0; else if (p->op == Eq) for (int k = 0; k < 2; k++) if (p->k[k]->op == Var && p->k[1 - k]->isConst()) r.v[(uint32_t)p->k[k]->c] = p->k[1 - k]->c;
    try { if (also && !evalExpr(also, r)) continue; } catch (EngineError&) { continue; }
    if (pcHolds(S, r)) { m = r; return true; }
  }
  return false;
}
static bool report(State& S, string kind, string msg, Expr* cond, string known = "") {
  string loc; if (S.cur >= 0 && !S.th[S.cur].st.empty()) loc = locOf(S.th[S.cur].st.back()->pc);
  string key = kind + "|" + msg + "|" + known + (kind == "assert" ? "" : loc); 
  if (g_violKeys.count(key)) return true;
  Assignment m; bool ck; Res r;
  static std::map<string, int> unknown;
  if (S.lazyMerge && kind == "assert" && guessModel(S, m, cond, 300)) { r = Res::Sat; ck = true; }
  else if (unknown[key] >= 2) return true;   // reported as incomplete already
  else r = preciseSat(S, cond, m, ck);
  if (r == Res::Unknown) unknown[key]++;
  if (r == Res::Unsat) return false;
  if (r == Res::Unknown) { raiseIncompleteUnknown(kind + ": " + msg); return true; }
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc + (S.cur >= 0 ? stackOf(S) : ""); v.checked = ck; v.sched = S.sched; v.known = known; collectInputs(m, v.inputs);
  g_violKeys.insert(key); g_viol.push_back(v); if (known.empty() && ck) { g_deadline = std::min(g_deadline, now() + 20); g_sopts.hardTimeoutMs = 5000; g_sopts.timeoutMs = 1000; }
  if (g_verbose) { fprintf(stderr, "VIOL %s: %s checked=%d at %s\n", kind.c_str(), msg.c_str(), ck, v.loc.c_str()); for (auto& kv : v.inputs) fprintf(stderr, "   %s = %s\n", kv.first.c_str(), u128str(kv.second.first).c_str()); }
  return true;
}

// add a constraint; keeps the model if it still satisfies
static void assume(State& S, Expr* c) {
  if (isTrue(c)) return;
  S.pc.push_back(c);
  if (S.model) { try { if (!evalExpr(c, *S.model)) S.model.reset(); } catch (EngineError&) { S.model.reset(); } }
}
// feasibility in the over-approximating semantics
static bool feasible(State& S, Expr* c, shared_ptr<Assignment>& m) {
  m.reset();
  if (isTrue(c)) { m = S.model; return true; }
  if (isFalse(c)) return false;
  if (S.model) { try { if (evalExpr(c, *S.model)) { m = S.model; g_sstats.modelHits++; return true; } } catch (EngineError&) {} }
  Assignment a; bool ck; Res r = solve(S.pc, c, S.model.get(), a, false, &ck);
  if (r == Res::Unsat) return false;
  if (r == Res::Sat && ck) m = make_shared<Assignment>(a);
  return true;   // Unknown: explore (over-approximation)
}

// truth of a condition that follows from the literals of the path condition: -1 unknown
static bool isNotE(Expr* e) { return e->width == 1 && e->op == Xor && e->k[1]->isConst() && e->k[1]->c == 1; }
static int decideFacts(State& S, Expr* e, int depth = 0) {
  if (e->isConst()) return e->c != 0;
  auto it = S.facts.find(e); if (it != S.facts.end()) return it->second;
  if (e->width != 1 || depth > 8) return -1;
  if (isNotE(e)) { int r = decideFacts(S, e->k[0], depth + 1); return r < 0 ? r : !r; }
  if (e->op == And || e->op == Or) { int stop = e->op == Or, a = decideFacts(S, e->k[0], depth + 1); if (a == stop) return stop; int b = decideFacts(S, e->k[1], depth + 1); if (b == stop) return stop; return a >= 0 && b >= 0 ? !stop : -1; }
  if (e->op == Ite) { int c = decideFacts(S, e->k[0], depth + 1); if (c >= 0) return decideFacts(S, e->k[c ? 1 : 2], depth + 1); }
  return -1;
}
static void learn(State& S, Expr* e, bool v) {
  if (e->isConst() || !S.facts.emplace(e, v).second) return;
  if (isNotE(e)) learn(S, e->k[0], !v);
  else if (e->width == 1 && (e->op == And || e->op == Or)) { if ((e->op == And) == v) { learn(S, e->k[0], v); learn(S, e->k[1], v); } else S.clauses.push_back(e); }
}
static int decide(State& S, Expr* e) {
  if (!S.lazyMerge) return -1;
  size_t n = S.factPc.size(); if (n > S.pc.size() || !std::equal(S.factPc.begin(), S.factPc.end(), S.pc.begin())) { S.facts.clear(); S.clauses.clear(); S.factPc.clear(); n = 0; }
  if (n < S.pc.size()) {
    for (; n < S.pc.size(); n++) learn(S, S.pc[n], true);
    S.factPc = S.pc;
    for (bool more = true; more;) { more = false;   // unit propagation
      for (size_t i = 0; i < S.clauses.size(); i++) { Expr* c = S.clauses[i]; int stop = c->op == Or, a = decideFacts(S, c->k[0]), b = decideFacts(S, c->k[1]); if (a == stop || b == stop) { S.clauses.erase(S.clauses.begin() + i--); continue; }
        if (a == !stop || b == !stop) { S.clauses.erase(S.clauses.begin() + i--); learn(S, a == !stop ? c->k[1] : c->k[0], stop); more = true; } } }
  }
  return decideFacts(S, e);
}
// negations of each other, up to De Morgan
static bool complementary(Expr* a, Expr* b, int depth = 0) {
  if (a->isConst() && b->isConst()) return a->c != b->c;
  if (isNotE(a) && a->k[0] == b) return true; if (isNotE(b) && b->k[0] == a) return true;
  if (depth > 6 || a->width != 1) return false;
  if ((a->op == And && b->op == Or) || (a->op == Or && b->op == And)) return (complementary(a->k[0], b->k[0], depth + 1) && complementary(a->k[1], b->k[1], depth + 1)) || (complementary(a->k[0], b->k[1], depth + 1) && complementary(a->k[1], b->k[0], depth + 1));
  return false;
}
struct Terminated {};   // thrown to end the current state
struct Retry {};        // instruction must be re-executed (blocked / forked)
static vector<State*>* g_forkOut = nullptr; static bool g_forkMerge = false;

static State* cloneState(State& S) { g_forks++; return new State(S); }

// enumerate feasible values of e
static void enumValues(State& S, Expr* e, vector<u128>& out, size_t limit) {
  vector<u128> leaves;
  if (constLeaves(e, leaves, limit)) { std::sort(leaves.begin(), leaves.end()); leaves.erase(std::unique(leaves.begin(), leaves.end()), leaves.end());
    for (auto v : leaves) { shared_ptr<Assignment> m; if (feasible(S, mkBin(Eq, e, mkConst(v, e->width)), m)) out.push_back(v); } return; }
  Expr* c = mkTrue(); 
  while (true) {
    Assignment a; bool ck = false; u128 v; bool have = false;
    if (S.model) { try { std::unordered_map<Expr*, u128> memo; if (evalExpr(c, *S.model, &memo)) { v = evalExpr(e, *S.model, &memo); have = true; } } catch (EngineError&) {} }
    if (!have) {
      // tie the value to a fresh variable so that the model yields it even with uninterpreted functions
      Expr* probe = mkVar("probe_" + std::to_string(e->width), e->width, false);
      Assignment a2; Res r = solve(S.pc, mkAnd1(c, mkBin(Eq, probe, e)), S.model.get(), a2, false, &ck);
      if (r == Res::Unsat) return;
      if (r == Res::Unknown) throw EngineError("cannot enumerate a symbolic address or size");
      v = a2.get((uint32_t)probe->c);
    }
    out.push_back(v); c = mkAnd1(c, mkNot(mkBin(Eq, e, mkConst(v, e->width))));
    if (out.size() > limit) throw EngineError("too many values for a symbolic address or size: " + exprStr(e, 5));
  }
}

static void raceAccess(State& S, Obj* o, uint64_t off, unsigned n, bool wr, bool atomic, Expr* guard = nullptr) {
  if (S.th.size() < 2 || o->constant || atomic) return;
  if (S.cur >= NT) return;
  if (!guard) guard = mkTrue();
  if (!o->race) o->race = make_shared<Race>(); else if (o->race.use_count() > 1) o->race = make_shared<Race>(*o->race);
  auto& R = *o->race; if (R.rd.empty()) { R.rd.assign(o->size, {}); R.wr.assign(o->size, {}); }
  VC& vc = S.th[S.cur].vc; uint32_t me = vc[S.cur];
  for (unsigned i = 0; i < n; i++) {
    for (unsigned t = 0; t < S.th.size() && t < NT; t++) if ((int)t != S.cur) {
      uint32_t seen = t < vc.size() ? vc[t] : 0;
      Expr* c = mkFalse();
      for (int w = wr ? 0 : 1; w < 2; w++) {
        if ((w ? R.wr : R.rd)[off + i][t] > seen) c = guard;
        if (R.cond.empty()) continue;
        auto it = R.cond.find(((off + i) * NT + t) * 2 + w); if (it == R.cond.end()) continue;
        for (auto& e : it->second) if (e.first > seen) c = mkOr1(c, mkAnd1(guard, e.second));
      }
      if (!isFalse(c)) report(S, "race", "data race on " + o->name + (wr ? " (write)" : " (read)"), c);
    }
    uint64_t key = ((off + i) * NT + S.cur) * 2 + (wr ? 1 : 0);
    if (isTrue(guard)) { (wr ? R.wr : R.rd)[off + i][S.cur] = me; if (!R.cond.empty()) R.cond.erase(key); }
    else if ((wr ? R.wr : R.rd)[off + i][S.cur] != me) {
      auto& v = R.cond[key]; if (!v.empty() && v.back().first == me) v.back().second = mkOr1(v.back().second, guard); else v.push_back({me, guard});
    }
  }
}
static std::shared_ptr<Race> mergeRace(const std::shared_ptr<Race>& a, const std::shared_ptr<Race>& b, Expr* sel, uint64_t size) {
  if (a == b) return a;
  static Race none; const Race& x = a ? *a : none; const Race& y = b ? *b : none; auto r = make_shared<Race>();
  Expr* nsel = mkNot(sel);
  std::array<uint32_t, NT> zero{};
  auto add = [&](uint64_t key, uint32_t clk, Expr* g) { auto& v = r->cond[key]; for (auto& e : v) if (e.first == clk) { e.second = mkOr1(e.second, g); return; } v.push_back({clk, g}); };
  r->rd.resize(size); r->wr.resize(size);
  for (uint64_t i = 0; i < size; i++) for (int w = 0; w < 2; w++) {
    auto& vx = w ? x.wr : x.rd; auto& vy = w ? y.wr : y.rd; auto& cx = i < vx.size() ? vx[i] : zero; auto& cy = i < vy.size() ? vy[i] : zero;
    for (unsigned t = 0; t < NT; t++) { uint32_t p = cx[t], q = cy[t]; (w ? r->wr : r->rd)[i][t] = std::min(p, q); if (p != q) add((i * NT + t) * 2 + w, std::max(p, q), p > q ? sel : nsel); }
  }
  for (auto& kv : x.cond) for (auto& e : kv.second) {
    bool both = false; auto it = y.cond.find(kv.first); if (it != y.cond.end()) for (auto& f : it->second) if (f == e) both = true;
    add(kv.first, e.first, both ? e.second : mkAnd1(sel, e.second)); }
  for (auto& kv : y.cond) for (auto& e : kv.second) {
    bool both = false; auto it = x.cond.find(kv.first); if (it != x.cond.end()) for (auto& f : it->second) if (f == e) both = true;
    if (!both) add(kv.first, e.first, mkAnd1(nsel, e.second)); }
  return r;
}

struct Access { Expr* guard; uint64_t addr; };
static void resolve(State& S, Expr* a, unsigned n, bool wr, vector<Access>& out) {
  auto valid = [&](uint64_t x) { Obj* o = findObj(S, x); return o && x + n <= o->base + o->size && !(wr && o->constant); };
  if (a->isConst()) {
    uint64_t x = (uint64_t)a->c;
    if (!valid(x)) { report(S, "memory", string(wr ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes", mkTrue()); throw Terminated(); }
    out.push_back({mkTrue(), x}); return;
  }
  vector<u128> vals; enumValues(S, a, vals, 1200);
  if (vals.empty()) throw Terminated();
  Expr* bad = mkFalse();
  for (auto v : vals) { Expr* g = vals.size() == 1 ? mkTrue() : mkBin(Eq, a, mkConst(v, 64)); if (valid((uint64_t)v)) out.push_back({g, (uint64_t)v}); else bad = vals.size() == 1 ? mkTrue() : mkOr1(bad, g); }
  if (!isFalse(bad)) { report(S, "memory", string(wr ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes through a computed address", bad); assume(S, mkNot(bad)); if (out.empty()) throw Terminated(); }
}
static Expr* load(State& S, Expr* addr, unsigned n, bool atomic = false) {
  vector<Access> acc; resolve(S, addr, n, false, acc);
  Expr* r = nullptr;
  for (auto it = acc.rbegin(); it != acc.rend(); ++it) {
    Obj* o = findObj(S, it->addr);
    if (S.th.size() > 1 && !o->constant) { o = writable(S, it->addr); raceAccess(S, o, it->addr - o->base, n, false, atomic, it->guard); }
    Expr* v = readObj(o, it->addr - o->base, n);
    r = r ? mkIte(it->guard, v, r) : v;
  }
  return r;
}
static void store(State& S, Expr* addr, Expr* val, bool atomic = false) {
  val = byteWiden(val); unsigned n = val->width / 8;
  vector<Access> acc; resolve(S, addr, n, true, acc);
  for (auto& a : acc) {
    Obj* o = writable(S, a.addr); raceAccess(S, o, a.addr - o->base, n, true, atomic, a.guard);
    Expr* v = val; if (!isTrue(a.guard)) v = mkIte(a.guard, val, readObj(o, a.addr - o->base, n));
    writeObj(o, a.addr - o->base, v);
  }
}
static Expr* loadTyped(State& S, Expr* addr, Type* t, bool atomic = false) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); vector<Expr*> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTyped(S, mkBin(Add, addr, mkConst(sl->getElementOffset(i).getFixedValue(), 64)), st->getElementType(i), atomic)); return mkTuple(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); vector<Expr*> v; for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadTyped(S, mkBin(Add, addr, mkConst(i * es, 64)), at->getElementType(), atomic)); return mkTuple(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = widthOf(vt->getElementType()); vector<Expr*> v;
    if (ew % 8) { unsigned tot = ew * vt->getNumElements(); Expr* x = load(S, addr, (tot + 7) / 8); for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(mkExtract(x, i * ew, ew)); return mkTuple(v); }
    for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(load(S, mkBin(Add, addr, mkConst(i * ew / 8, 64)), ew / 8)); return mkTuple(v); }
  unsigned w = widthOf(t); Expr* x = load(S, addr, (w + 7) / 8, atomic); return mkExtract(x, 0, w);
}
static void storeTyped(State& S, Expr* addr, Expr* v, Type* t, bool atomic = false) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTyped(S, mkBin(Add, addr, mkConst(sl->getElementOffset(i).getFixedValue(), 64)), v->k[i], st->getElementType(i), atomic); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTyped(S, mkBin(Add, addr, mkConst(i * es, 64)), v->k[i], at->getElementType(), atomic); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = widthOf(vt->getElementType());
    if (ew % 8) { Expr* x = v->k[0]; for (unsigned i = 1; i < vt->getNumElements(); i++) x = mkConcat(v->k[i], x); store(S, addr, x); return; }
    for (unsigned i = 0; i < vt->getNumElements(); i++) store(S, mkBin(Add, addr, mkConst(i * ew / 8, 64)), v->k[i], atomic); return; }
  store(S, addr, v, atomic);
}

// ------------------------------------------------------------------ constants
static std::unordered_map<const Constant*, Expr*> g_constCache;
static uint64_t globalAddr(const GlobalValue* g);
static Expr* zeroOf(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { vector<Expr*> v; for (auto* e : st->elements()) v.push_back(zeroOf(e)); return mkTuple(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { vector<Expr*> v(at->getNumElements(), zeroOf(at->getElementType())); return mkTuple(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { vector<Expr*> v(vt->getNumElements(), zeroOf(vt->getElementType())); return mkTuple(v); }
  return mkConst(0, widthOf(t));
}
static u128 apToU(APInt const& a) { u128 r = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0); if (a.getBitWidth() > 64) r |= (u128)a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64; return r; }
static Expr* castOp(unsigned opc, Expr* v, Type* from, Type* to);
static Expr* constExpr(const Constant* c) {
  auto it = g_constCache.find(c); if (it != g_constCache.end()) return it->second;
  Expr* r = nullptr; Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) r = mkConst(apToU(ci->getValue()), ci->getBitWidth());
  else if (auto* cf = dyn_cast<ConstantFP>(c)) r = mkConst(apToU(cf->getValueAPF().bitcastToAPInt()), widthOf(t));
  else if (isa<ConstantPointerNull>(c)) r = mkConst(0, 64);
  else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) r = zeroOf(t);
  else if (auto* ga = dyn_cast<GlobalAlias>(c)) r = constExpr(ga->getAliasee());
  else if (auto* gv = dyn_cast<GlobalValue>(c)) r = mkConst(globalAddr(gv), 64);
  else if (auto* ca = dyn_cast<ConstantAggregate>(c)) { vector<Expr*> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constExpr(ca->getOperand(i))); r = mkTuple(v); }
  else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { vector<Expr*> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constExpr(cd->getElementAsConstant(i))); r = mkTuple(v); }
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      Expr* a = constExpr(cast<Constant>(g->getPointerOperand()));
      for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
        Expr* ix = constExpr(cast<Constant>(gti.getOperand()));
        if (auto* st = gti.getStructTypeOrNull()) a = mkBin(Add, a, mkConst(DL->getStructLayout(st)->getElementOffset((unsigned)ix->c).getFixedValue(), 64));
        else a = mkBin(Add, a, mkBin(Mul, mkSExt(ix, 64), mkConst(DL->getTypeAllocSize(gti.getIndexedType()).getFixedValue(), 64)));
      }
      r = a;
    } else if (ce->isCast()) r = castOp(ce->getOpcode(), constExpr(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
    else if (ce->getOpcode() == Instruction::Sub) r = mkBin(Sub, constExpr(ce->getOperand(0)), constExpr(ce->getOperand(1)));
    else if (ce->getOpcode() == Instruction::Add) r = mkBin(Add, constExpr(ce->getOperand(0)), constExpr(ce->getOperand(1)));
    else if (ce->getOpcode() == Instruction::Mul) r = mkBin(Mul, constExpr(ce->getOperand(0)), constExpr(ce->getOperand(1)));
    else if (ce->getOpcode() == Instruction::Xor) r = mkBin(Xor, constExpr(ce->getOperand(0)), constExpr(ce->getOperand(1)));
    else if (ce->getOpcode() == Instruction::ICmp) {
      Expr* a = constExpr(ce->getOperand(0)); Expr* b = constExpr(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = mkBin(Eq, a, b); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(Eq, a, b)); break; default: throw EngineError("constant icmp"); }
    }
    else throw EngineError(string("constant expression ") + ce->getOpcodeName());
  } else if (isa<ConstantTokenNone>(c)) r = mkConst(0, 1);
  else throw EngineError("unsupported constant");
  return g_constCache[c] = r;
}
static void initBytes(Obj* o, uint64_t off, Expr* v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(o, off + sl->getElementOffset(i).getFixedValue(), v->k[i], st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initBytes(o, off + i * es, v->k[i], at->getElementType()); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = widthOf(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) writeObj(o, off + i * ew / 8, v->k[i]); return; }
  writeObj(o, off, byteWiden(v));
}
static uint64_t globalAddr(const GlobalValue* g) {
  auto it = g_addr.find(g); if (it != g_addr.end()) return it->second;
  if (auto* f = dyn_cast<Function>(g)) { uint64_t a = allocAddr(16); g_addr[g] = a; g_fnAt[a] = const_cast<Function*>(f); return a; }
  if (auto* ga = dyn_cast<GlobalAlias>(g)) { Expr* e = constExpr(ga->getAliasee()); return g_addr[g] = (uint64_t)e->c; }
  auto* gv = cast<GlobalVariable>(g);
  uint64_t size = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()).getFixedValue() : 8;
  bool ext = !gv->hasInitializer(); if (ext) size = std::max<uint64_t>(size, 1024);
  auto o = make_shared<Obj>(); o->base = allocAddr(size); o->size = size; o->cells.assign(size, Cell{nullptr, 0}); o->kind = 'g'; o->name = demangle(gv->getName().str()); o->constant = gv->isConstant() && !ext;
  g_addr[g] = o->base; g_gvAt[o->base] = gv; g_globals[o->base] = o;
  if (ext && gv->getName().starts_with("_ZTI")) { // type_info of the C++ run-time library: its name is known
    string n = gv->getName().substr(4).str(); auto t = make_shared<Obj>(); t->size = n.size() + 1; t->base = allocAddr(t->size); t->cells.assign(t->size, Cell{nullptr, 0}); t->kind = 'g'; t->name = "typeinfo name for " + n; t->constant = true;
    for (uint64_t i = 0; i < t->size; i++) writeObj(t.get(), i, mkConst(i < n.size() ? (uint8_t)n[i] : 0, 8)); g_globals[t->base] = t; writeObj(o.get(), 8, mkConst(t->base, 64));
  }
  if (!ext) { Expr* z = mkConst(0, 8); for (auto& c : o->cells) c = Cell{z, 0}; if (!isa<ConstantAggregateZero>(gv->getInitializer())) initBytes(o.get(), 0, constExpr(gv->getInitializer()), gv->getValueType()); }
  return o->base;
}

// ------------------------------------------------------------------ evaluation
static Frame& top(State& S) { auto& p = S.th[S.cur].st.back(); if (p.use_count() > 1) p = make_shared<Frame>(*p); return *p; }
static const Frame& topc(State& S) { return *S.th[S.cur].st.back(); }
static Expr* tlsAddr(State& S, const GlobalVariable* gv) {
  Thread& T = S.th[S.cur]; auto it = T.tls.find(gv); if (it != T.tls.end()) return mkConst(it->second, 64);
  uint64_t ga = globalAddr(gv); auto g = g_globals[ga]; uint64_t na = newObj(S, g->size, 't', g->name); S.mem[na]->cells = g->cells; S.th[S.cur].tls[gv] = na; return mkConst(na, 64);
}
static Expr* val(State& S, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) {
    if (auto* gv = dyn_cast<GlobalVariable>(v)) if (gv->isThreadLocal()) return tlsAddr(S, gv);
    return constExpr(c);
  }
  const Frame& f = topc(S); auto it = f.fi->num.find(v);
  if (it == f.fi->num.end()) { if (isa<MetadataAsValue>(v)) return mkConst(0, 64); throw EngineError("unknown value"); }
  Expr* e = f.regs[it->second]; if (!e) throw EngineError("register without value");
  return e;
}
static void setReg(State& S, const Value* v, Expr* e) { Frame& f = top(S); f.regs[f.fi->num.at(v)] = e; }

static Expr* castOp(unsigned opc, Expr* v, Type* from, Type* to) {
  if (v->op == Tuple && to->isVectorTy() && opc != Instruction::BitCast) { vector<Expr*> r; for (unsigned i = 0; i < v->nk; i++) r.push_back(castOp(opc, v->k[i], from->getScalarType(), to->getScalarType())); return mkTuple(r); }
  switch (opc) {
    case Instruction::Trunc: return mkExtract(v, 0, widthOf(to));
    case Instruction::ZExt: return mkZExt(v, widthOf(to));
    case Instruction::SExt: return mkSExt(v, widthOf(to));
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w = widthOf(to); return w <= v->width ? mkExtract(v, 0, w) : mkZExt(v, w); }
    case Instruction::BitCast: {
      auto* fv = dyn_cast<FixedVectorType>(from); auto* tv = dyn_cast<FixedVectorType>(to);
      Expr* flat = v; if (fv) { flat = v->k[0]; for (unsigned i = 1; i < v->nk; i++) flat = mkConcat(v->k[i], flat); }
      if (!tv) return flat;
      unsigned ew = widthOf(tv->getElementType()); vector<Expr*> r; for (unsigned i = 0; i < tv->getNumElements(); i++) r.push_back(mkExtract(flat, i * ew, ew)); return mkTuple(r);
    }
    case Instruction::AddrSpaceCast: return v;
    case Instruction::FPExt: if (!(from->isFloatTy() && to->isDoubleTy())) throw EngineError("fpext to long double"); return mkFP(FPExt, {v}, 64);
    case Instruction::FPTrunc: if (!(from->isDoubleTy() && to->isFloatTy())) throw EngineError("fptrunc from long double"); return mkFP(FPTrunc, {v}, 32);
    case Instruction::SIToFP: if (to->isX86_FP80Ty()) throw EngineError("long double"); return mkFP(SIToFP, {v}, widthOf(to));
    case Instruction::UIToFP: if (to->isX86_FP80Ty()) throw EngineError("long double"); return mkFP(UIToFP, {v}, widthOf(to));
    case Instruction::FPToSI: if (from->isX86_FP80Ty()) throw EngineError("long double"); return mkFP(FPToSI, {v}, widthOf(to));
    case Instruction::FPToUI: {
      if (from->isX86_FP80Ty()) throw EngineError("long double");
      unsigned w = widthOf(to); if (w < 32) return mkExtract(mkFP(FPToSI, {v}, 32), 0, w); if (w == 32) return mkExtract(mkFP(FPToSI, {v}, 64), 0, 32);
      return mkFP(FPToUI, {v}, w);
    }
  }
  throw EngineError("cast");
}
static Expr* fcmp(CmpInst::Predicate p, Expr* a, Expr* b) {
  auto nan = [&]() { return mkOr1(mkFP(FIsNan, {a}, 1), mkFP(FIsNan, {b}, 1)); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return mkFP(FEq, {a, b}, 1);
    case CmpInst::FCMP_OGT: return mkFP(FLt, {b, a}, 1); case CmpInst::FCMP_OGE: return mkFP(FLe, {b, a}, 1);
    case CmpInst::FCMP_OLT: return mkFP(FLt, {a, b}, 1); case CmpInst::FCMP_OLE: return mkFP(FLe, {a, b}, 1);
    case CmpInst::FCMP_ONE: return mkAnd1(mkNot(nan()), mkNot(mkFP(FEq, {a, b}, 1)));
    case CmpInst::FCMP_ORD: return mkNot(nan()); case CmpInst::FCMP_UNO: return nan();
    case CmpInst::FCMP_UEQ: return mkOr1(nan(), mkFP(FEq, {a, b}, 1));
    case CmpInst::FCMP_UGT: return mkNot(mkFP(FLe, {a, b}, 1)); case CmpInst::FCMP_UGE: return mkNot(mkFP(FLt, {a, b}, 1));
    case CmpInst::FCMP_ULT: return mkNot(mkFP(FLe, {b, a}, 1)); case CmpInst::FCMP_ULE: return mkNot(mkFP(FLt, {b, a}, 1));
    case CmpInst::FCMP_UNE: return mkNot(mkFP(FEq, {a, b}, 1));
    default: throw EngineError("fcmp");
  }
}
static Expr* icmp(CmpInst::Predicate p, Expr* a, Expr* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkBin(Eq, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(Eq, a, b));
    case CmpInst::ICMP_UGT: return mkBin(Ult, b, a); case CmpInst::ICMP_UGE: return mkNot(mkBin(Ult, a, b));
    case CmpInst::ICMP_ULT: return mkBin(Ult, a, b); case CmpInst::ICMP_ULE: return mkNot(mkBin(Ult, b, a));
    case CmpInst::ICMP_SGT: return mkBin(Slt, b, a); case CmpInst::ICMP_SGE: return mkNot(mkBin(Slt, a, b));
    case CmpInst::ICMP_SLT: return mkBin(Slt, a, b); case CmpInst::ICMP_SLE: return mkNot(mkBin(Slt, b, a));
    default: throw EngineError("icmp");
  }
}

static void enterBlock(State& S, const BasicBlock* from, const BasicBlock* to) {
  Frame& f = top(S); vector<std::pair<unsigned, Expr*>> upd;
  const Instruction* i = &to->front();
  for (; auto* phi = dyn_cast<PHINode>(i); i = i->getNextNode()) upd.push_back({f.fi->num.at(phi), val(S, phi->getIncomingValueForBlock(from))});
  Frame& g = top(S); for (auto& u : upd) g.regs[u.first] = u.second;
  while (isa<DbgInfoIntrinsic>(i)) i = i->getNextNode();
  g.bb = to; g.pc = i; cover(g.fi, to);
}
static void enterBlock(State& S, const BasicBlock* from, const BasicBlock* to);
static void advance(State& S) { Frame& f = top(S); if (auto* inv = dyn_cast<InvokeInst>(f.pc)) { enterBlock(S, inv->getParent(), inv->getNormalDest()); return; } f.pc = f.pc->getNextNode(); }

static void freeObj(State& S, uint64_t b) { S.mem.erase(b); }

static void pushFrame(State& S, Function* fn, vector<Expr*> const& args, const CallBase* cb) {
  if (S.th[S.cur].st.size() > 4000) { report(S, "stack", "unbounded recursion", mkTrue()); throw Terminated(); }
  FnInfo* fi = fnInfo(fn); auto f = make_shared<Frame>(); f->fi = fi; f->regs.assign(fi->nregs, nullptr);
  unsigned i = 0; for (auto& a : fn->args()) {
    Expr* v = i < args.size() ? args[i] : zeroOf(a.getType());
    if (cb && i < cb->arg_size() && cb->isByValArgument(i)) {
      uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t b = newObj(S, sz, 's', "byval argument"); f->allocas.push_back(b);
      if (!v->isConst()) throw EngineError("symbolic byval"); Obj* src = findObj(S, (uint64_t)v->c); Obj* dst = findObj(S, b);
      if (!src) throw EngineError("byval source"); for (uint64_t k = 0; k < sz; k++) { cellByte(src, v->c - src->base + k); dst->cells[k] = src->cells[v->c - src->base + k]; }
      v = mkConst(b, 64);
    }
    f->regs[fi->num.at(&a)] = v; i++; }
  f->bb = &fn->getEntryBlock(); const Instruction* p = &f->bb->front(); while (isa<DbgInfoIntrinsic>(p)) p = p->getNextNode(); f->pc = p;
  S.th[S.cur].st.push_back(f); cover(fi, f->bb);
}

// --------------------------------------------------------------- threads
static void vcJoin(VC& a, VC const& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void acquire(State& S, uint64_t a) { auto it = S.syncVC.find(a); if (it != S.syncVC.end()) vcJoin(S.th[S.cur].vc, it->second); }
static void release(State& S, uint64_t a) { if (S.th.size() < 2) return; vcJoin(S.syncVC[a], S.th[S.cur].vc); S.th[S.cur].vc[S.cur]++; }
static void acquireRange(State& S, uint64_t a, unsigned n) { auto it = S.syncVC.lower_bound(a); for (; it != S.syncVC.end() && it->first < a + n; ++it) vcJoin(S.th[S.cur].vc, it->second); }
static bool acqOrd(AtomicOrdering o) { return isAcquireOrStronger(o); }
static bool relOrd(AtomicOrdering o) { return isReleaseOrStronger(o); }
// reference counts of shared pointers only decide lifetimes: no preemption point there
static bool refcountOp(const Instruction* I) { if (const DebugLoc& dl = I->getDebugLoc()) { StringRef f = dl->getFilename(); return f.ends_with("ext/atomicity.h") || f.ends_with("shared_ptr_base.h"); } return false; }
static bool runnable(State& S, int t) {
  Thread& T = S.th[t];
  switch (T.status) {
    case TS::Run: return true;
    case TS::Mutex: { auto it = S.mutexOwner.find(T.waitAddr); return it == S.mutexOwner.end() || it->second < 0; }
    case TS::Join: return S.th[T.waitAddr].status == TS::Done;
    default: return false;
  }
}
// choose the next thread. Forks in exploration mode.
static void pickNext(State& S, bool curCanRun, vector<State*>* forks) {
  vector<std::pair<int, int>> opts; // (thread, kind) kind 0 run, 1 timeout
  int n = S.th.size();
  if (!S.explore) {
    for (int d = 1; d <= n; d++) { int t = (S.cur + d) % n; if (t == S.cur && !curCanRun) continue; if (runnable(S, t)) { S.cur = t; S.th[t].status = TS::Run; return; } }
    for (int d = 1; d <= n; d++) { int t = (S.cur + d) % n; if ((S.th[t].status == TS::Cond || S.th[t].status == TS::Futex) && S.th[t].timed) { S.th[t].condPhase = 2; S.th[t].status = TS::Run; S.cur = t; S.timeouts++; if (S.timeouts > 2000) { report(S, "livelock", "no progress: threads only time out", mkTrue()); throw Terminated(); } return; } }
  } else {
    for (int t = 0; t < n; t++) { if (t == S.cur && !curCanRun) continue; if (runnable(S, t)) opts.push_back({t, 0}); }
    bool any = !opts.empty();
    for (int t = 0; t < n; t++) if (S.th[t].status == TS::Cond && S.th[t].timed && (!any || (int)S.timeouts < S.timeoutBound)) opts.push_back({t, 1});
    for (int t = 0; t < n; t++) if (S.th[t].status == TS::Futex && S.th[t].timed && (!any || S.futexTimeouts < 1)) opts.push_back({t, 1});
    if (!any && S.timeouts > 60) { report(S, "livelock", "no progress: threads only time out", mkTrue()); throw Terminated(); }
    if (!opts.empty()) {
      auto apply = [&](State& Q, int ix) { auto o = opts[ix]; Q.cur = o.first; if (o.second) { if (Q.th[o.first].status == TS::Futex) Q.futexTimeouts++; else Q.timeouts++; Q.th[o.first].condPhase = 2; } Q.th[o.first].status = TS::Run; };
      if (opts.size() > 1) {
        Expr* v = mkVar("sched_" + std::to_string(S.schedCount), 8, false);
        for (size_t i = 1; i < opts.size(); i++) { State* Q = cloneState(S); Q->schedCount++; Q->sched.push_back(opts[i].first * 2 + opts[i].second); assume(*Q, mkBin(Eq, v, mkConst(i, 8))); Q->model.reset(); apply(*Q, i); forks->push_back(Q); }
        S.schedCount++; S.sched.push_back(opts[0].first * 2 + opts[0].second); assume(S, mkBin(Eq, v, mkConst(0, 8))); apply(S, 0);
      } else { S.sched.push_back(opts[0].first * 2 + opts[0].second); apply(S, 0); }
      return;
    }
  }
  // nothing can run
  int saved = S.cur; (void)saved;
  report(S, "deadlock", "all threads are blocked", mkTrue()); throw Terminated();
}
struct Ctx { State* S; vector<State*>* forks; };
// possible preemption before a synchronisation operation; returns true when the thread was switched (instruction is retried later)
static bool schedPoint(Ctx& c) {
  State& S = *c.S; if (!S.explore || S.th.size() < 2) return false;
  Thread& T = S.th[S.cur]; if (T.schedSkip) { T.schedSkip = false; return false; }
  if ((int)S.preemptions >= S.preemptBound) return false;
  vector<int> opts{S.cur}; for (int t = 0; t < (int)S.th.size(); t++) if (t != S.cur && runnable(S, t)) opts.push_back(t);
  if (opts.size() == 1) return false;
  Expr* v = mkVar("sched_" + std::to_string(S.schedCount), 8, false);
  for (size_t i = 1; i < opts.size(); i++) {
    State* Q = cloneState(S); Q->schedCount++; assume(*Q, mkBin(Eq, v, mkConst(i, 8))); Q->model.reset(); Q->sched.push_back(opts[i] * 2); Q->preemptions++;
    Q->th[S.cur].schedSkip = true; Q->cur = opts[i]; Q->th[opts[i]].status = TS::Run; c.forks->push_back(Q);
  }
  S.schedCount++; S.sched.push_back(S.cur * 2); assume(S, mkBin(Eq, v, mkConst(0, 8)));
  return false;
}

// --------------------------------------------------------------- exceptions
static const GlobalVariable* tiGlobal(uint64_t a) { auto it = g_gvAt.find(a); return it == g_gvAt.end() ? nullptr : it->second; }
static bool tiDerives(uint64_t t, uint64_t c, int64_t& off, int depth = 0) {
  if (t == c) { off = 0; return true; }
  if (depth > 20) return false;
  const GlobalVariable* g = tiGlobal(t); if (!g || !g->hasInitializer()) return false;
  auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  string k; { const Value* b = cs->getOperand(0)->stripInBoundsOffsets(); while (auto* ce = dyn_cast<ConstantExpr>(b)) b = ce->getOperand(0); if (auto* bg = dyn_cast<GlobalValue>(b)) k = bg->getName().str(); }
  if (k.find("__si_class_type_info") != string::npos) { Expr* e = constExpr(cs->getOperand(2)); return tiDerives((uint64_t)e->c, c, off, depth + 1); }
  if (k.find("__vmi_class_type_info") != string::npos) { unsigned n = (unsigned)constExpr(cs->getOperand(3))->c; for (unsigned i = 0; i < n; i++) { Expr* b = constExpr(cs->getOperand(4 + 2 * i)); Expr* fl = constExpr(cs->getOperand(5 + 2 * i)); int64_t o2; if (tiDerives((uint64_t)b->c, c, o2, depth + 1)) { off = o2 + ((int64_t)(uint64_t)fl->c >> 8); return true; } } }
  return false;
}
static map<uint64_t, uint32_t> g_tiIds;
static uint32_t tiId(uint64_t a) { auto it = g_tiIds.find(a); if (it == g_tiIds.end()) it = g_tiIds.emplace(a, g_tiIds.size() + 1).first; return it->second; }
static string tiName(uint64_t a) { auto* g = tiGlobal(a); return g ? demangle(g->getName().str()) : "?"; }

static void popFrame(State& S) { auto& st = S.th[S.cur].st; for (auto a : st.back()->allocas) freeObj(S, a); st.pop_back(); }
static void unwind(State& S, uint64_t exc) {
  uint64_t ti = S.exc.at(exc).tinfo;
  auto& st = S.th[S.cur].st; 
  string where = locOf(st.back()->pc);
  bool first = true;
  while (true) {
    if (!first) popFrame(S);
    first = false;
    if (st.empty()) { // report in a frameless thread
      int c = S.cur; S.cur = -1; report(S, "exception", "uncaught exception " + tiName(ti) + " thrown at " + where, mkTrue()); S.cur = c; throw Terminated(); }
    auto* inv = dyn_cast<InvokeInst>(st.back()->pc);
    if (!inv) continue;
    const LandingPadInst* lp = inv->getLandingPadInst(); bool enter = lp->isCleanup(); uint32_t sel = 0;
    for (unsigned i = 0; i < lp->getNumClauses() && !sel; i++) {
      if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = tiId(0); enter = true; } else { uint64_t ca = (uint64_t)constExpr(c)->c; int64_t off; if (tiDerives(ti, ca, off)) { sel = tiId(ca); enter = true; } } }
      else { // filter: enter when not listed
        Constant* c = lp->getClause(i); bool listed = false; if (auto* arr = dyn_cast<ConstantArray>(c)) for (unsigned k = 0; k < arr->getNumOperands(); k++) { int64_t off; if (tiDerives(ti, (uint64_t)constExpr(arr->getOperand(k))->c, off)) listed = true; }
        if (!listed) { sel = (uint32_t)-1; enter = true; } }
    }
    if (!enter) continue;
    enterBlock(S, inv->getParent(), inv->getUnwindDest());
    // the landingpad is the first non-phi instruction
    setReg(S, lp, mkTuple({mkConst(exc, 64), mkConst(sel, 32)}));
    Frame& f = top(S); f.pc = lp->getNextNode(); while (isa<DbgInfoIntrinsic>(f.pc)) f.pc = f.pc->getNextNode();
    return;
  }
}

// --------------------------------------------------------------- builtins
enum class BR { Done, Void, NoAdvance };   // Done: value in *ret
struct BCall { State& S; const CallBase* cb; vector<Expr*> const& a; Expr* ret; Ctx& ctx; };
typedef std::function<BR(BCall&)> BFn;
static std::unordered_map<string, BFn> g_builtins;

static string cstr(State& S, Expr* p) {
  if (!p->isConst()) throw EngineError("symbolic string literal"); uint64_t a = (uint64_t)p->c; string s;
  for (;; a++) { Obj* o = findObj(S, a); if (!o) throw EngineError("bad string"); Expr* b = cellByte(o, a - o->base); if (!b->isConst()) throw EngineError("symbolic string literal"); if (!b->c) break; s += (char)b->c; }
  return s;
}
// make argument i concrete, forking over its feasible values
static u128 concArg(BCall& b, unsigned i, size_t limit = 64) {
  Expr* e = b.a[i]; if (e->isConst()) return e->c;
  vector<u128> vals; enumValues(b.S, e, vals, limit);
  if (vals.empty()) throw Terminated();
  const Value* op = b.cb->getArgOperand(i);
  for (size_t k = 0; k < vals.size(); k++) {
    State* Q = k + 1 < vals.size() ? cloneState(b.S) : &b.S;
    Expr* eq = mkBin(Eq, e, mkConst(vals[k], e->width)); shared_ptr<Assignment> m; bool f = vals.size() == 1 || feasible(*Q, eq, m);
    (void)f; if (vals.size() > 1) { Q->pc.push_back(eq); Q->model = m; }
    if (isa<Constant>(op)) throw EngineError("symbolic constant operand");
    setReg(*Q, op, mkConst(vals[k], e->width));
    if (Q != &b.S) b.ctx.forks->push_back(Q);
  }
  throw Retry();
}
static void setErrno(State& S, Expr* v) {
  Thread& T = S.th[S.cur]; if (!T.errnoAddr) { T.errnoAddr = newObj(S, 4, 't', "errno"); store(S, mkConst(T.errnoAddr, 64), mkConst(0, 32)); }
  Expr* a = mkConst(T.errnoAddr, 64); Expr* old = load(S, a, 4); store(S, a, mkIte(mkBin(Eq, v, mkConst(0, 32)), old, v));
}
static void copyMem(BCall& b, uint64_t d, uint64_t s, uint64_t n) {
  State& S = b.S; if (!n) return;
  Obj* so = findObj(S, s); Obj* dp = findObj(S, d);
  if (!so || s + n > so->base + so->size) { report(S, "memory", "memcpy reads outside an object", mkTrue()); throw Terminated(); }
  if (!dp || d + n > dp->base + dp->size || dp->constant) { report(S, "memory", "memcpy writes outside an object", mkTrue()); throw Terminated(); }
  if (S.th.size() > 1) { so = writable(S, s); raceAccess(S, so, s - so->base, n, false, false); }
  Obj* o = writable(S, d); raceAccess(S, o, d - o->base, n, true, false); so = findObj(S, s);
  vector<Cell> tmp(n); for (uint64_t i = 0; i < n; i++) { if (!so->cells[s - so->base + i].e) cellByte(so, s - so->base + i); tmp[i] = so->cells[s - so->base + i]; }
  for (uint64_t i = 0; i < n; i++) o->cells[d - o->base + i] = tmp[i];
}
static void doMemcpy(BCall& b) {
  if (!b.a[2]->isConst()) concArg(b, 2, 256);
  if (b.a[2]->c == 0) return;
  // copy through ite pointers: word by word
  if (!b.a[0]->isConst() || !b.a[1]->isConst()) {
    uint64_t n = (uint64_t)b.a[2]->c; vector<Expr*> v; uint64_t i = 0; vector<std::pair<uint64_t, Expr*>> w;
    while (i < n) { unsigned k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1; w.push_back({i, load(b.S, mkBin(Add, b.a[1], mkConst(i, 64)), k)}); i += k; }
    for (auto& x : w) store(b.S, mkBin(Add, b.a[0], mkConst(x.first, 64)), x.second);
    return;
  }
  copyMem(b, (uint64_t)b.a[0]->c, (uint64_t)b.a[1]->c, (uint64_t)b.a[2]->c);
}
static void doMemset(BCall& b) {
  if (!b.a[2]->isConst()) concArg(b, 2, 256);
  uint64_t n = (uint64_t)b.a[2]->c; if (!n) return; Expr* v = mkExtract(b.a[1], 0, 8);
  if (!b.a[0]->isConst()) { for (uint64_t i = 0; i < n; i++) store(b.S, mkBin(Add, b.a[0], mkConst(i, 64)), v); return; }
  uint64_t d = (uint64_t)b.a[0]->c; Obj* dp = findObj(b.S, d);
  if (!dp || d + n > dp->base + dp->size || dp->constant) { report(b.S, "memory", "memset writes outside an object", mkTrue()); throw Terminated(); }
  Obj* o = writable(b.S, d); raceAccess(b.S, o, d - o->base, n, true, false); for (uint64_t i = 0; i < n; i++) o->cells[d - o->base + i] = Cell{v, 0};
}
static void doFree(BCall& b) {
  Expr* p = b.a[0]; if (!p->isConst()) concArg(b, 0);
  uint64_t a = (uint64_t)p->c; if (!a) return;
  auto it = b.S.mem.find(a); if (it == b.S.mem.end() || it->second->kind != 'h') { report(b.S, "memory", "invalid or double free", mkTrue()); throw Terminated(); }
  if (b.S.th.size() > 1) { Obj* o = writable(b.S, a); raceAccess(b.S, o, 0, o->size, true, false); }
  freeObj(b.S, a);
}
static bool recordPath(State& S);

static void initBuiltins() {
  auto& B = g_builtins;
  auto alloc = [](BCall& b) { u128 n = concArg(b, 0); b.ret = mkConst(newObj(b.S, (uint64_t)n, 'h', "heap object"), 64); return BR::Done; };
  B["malloc"] = alloc; B["_Znwm"] = alloc; B["_Znam"] = alloc; B["_ZnwmRKSt9nothrow_t"] = alloc;
  B["_ZnwmSt11align_val_t"] = alloc;
  B["calloc"] = [](BCall& b) { u128 n = concArg(b, 0), m = concArg(b, 1); uint64_t a = newObj(b.S, (uint64_t)(n * m), 'h', "heap object"); for (auto& c : b.S.mem[a]->cells) c = Cell{mkConst(0, 8), 0}; b.ret = mkConst(a, 64); return BR::Done; };
  auto fre = [](BCall& b) { doFree(b); return BR::Void; };
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t"}) B[n] = fre;
  auto mc = [](BCall& b) { doMemcpy(b); b.ret = b.a[0]; return BR::Done; };
  B["memcpy"] = mc; B["memmove"] = mc;
  B["memset"] = [](BCall& b) { doMemset(b); b.ret = b.a[0]; return BR::Done; };
  // ---- harness interface
  B["fs_sym"] = [](BCall& b) {
    unsigned w = (unsigned)concArg(b, 1); string n = cstr(b.S, b.a[0]) + ":" + std::to_string(w); unsigned k = b.S.symCount[n]++; if (k) n += "." + std::to_string(k);
    b.ret = mkZExt(mkVar(n, w, true), 64); return BR::Done; };
  B["fs_assume"] = [](BCall& b) {
    Expr* c = mkExtract(b.a[0], 0, 1); shared_ptr<Assignment> m;
    if (!feasible(b.S, c, m)) { g_assumeDead++; throw Terminated(); }
    if (!isTrue(c)) { b.S.pc.push_back(c); b.S.model = m; } return BR::Void; };
  auto doAssert = [](BCall& b, Expr* ok, string msg, string known, Expr* region) {
    g_asserts++; if (isTrue(ok)) return; g_assertSym++; if (decide(b.S, ok) == 1) return;
    Expr* bad = mkNot(ok);
    if (getenv("FS_DUMP")) fprintf(stderr, "assert %s: %s\n", msg.c_str(), showExpr(ok, atoi(getenv("FS_DUMP"))).substr(0, 6000).c_str());
    if (getenv("FS_DUMP")) for (auto* p : b.S.pc) fprintf(stderr, "  given %s\n", showExpr(p, atoi(getenv("FS_DUMP"))).substr(0, 3000).c_str());
    if (!known.empty()) { report(b.S, "assert", msg, mkAnd1(bad, region), known); bad = mkAnd1(bad, mkNot(region)); }
    report(b.S, "assert", msg, bad);
    shared_ptr<Assignment> m; if (!feasible(b.S, ok, m)) throw Terminated();
    // keep the path condition small: assume only when it may fail
    if (g_violKeys.size()) { b.S.pc.push_back(ok); b.S.model = m; }
  };
  B["fs_assert"] = [doAssert](BCall& b) { doAssert(b, mkExtract(b.a[0], 0, 1), cstr(b.S, b.a[1]), "", mkFalse()); return BR::Void; };
  B["fs_assert_known"] = [doAssert](BCall& b) { doAssert(b, mkExtract(b.a[0], 0, 1), cstr(b.S, b.a[3]), cstr(b.S, b.a[2]), mkExtract(b.a[1], 0, 1)); return BR::Void; };
  B["fs_observe"] = [](BCall& b) { b.S.obs.push_back({cstr(b.S, b.a[0]), b.a[1]}); return BR::Void; };
  B["fs_reach"] = [](BCall& b) { string n = cstr(b.S, b.a[0]); if (!g_reach[n]) { Assignment m; static int tries = 0; if (b.S.lazyMerge && !b.S.model) { if (guessModel(b.S, m)) { g_reach[n]++; return BR::Void; } if (++tries != 20000) return BR::Void; } bool ck; Res r = preciseSat(b.S, mkTrue(), m, ck); if (b.S.model || r == Res::Sat) g_reach[n]++; } else g_reach[n]++; return BR::Void; };
  B["fs_choose"] = [](BCall& b) {  // concrete choice in [0, n): one path each
    string n = cstr(b.S, b.a[0]); u128 cnt = concArg(b, 1); unsigned k = b.S.symCount[n]++; if (k) n += "." + std::to_string(k);
    Expr* v = mkVar(n, 64, true);
    bool first = true; State base(b.S);
    for (u128 i = 0; i < cnt; i++) {
      State* Q = first ? &b.S : cloneState(base); Expr* eq = mkBin(Eq, v, mkConst(i, 64)); 
      Q->pc.push_back(eq); if (Q->model) { Q->model = make_shared<Assignment>(*Q->model); Q->model->v[(uint32_t)v->c] = i; }
      setReg(*Q, b.cb, mkConst(i, 64)); advance(*Q); if (!first) b.ctx.forks->push_back(Q); first = false; }
    g_forkMerge = false;
    return BR::NoAdvance; };
  B["fs_concretize"] = [](BCall& b) { b.ret = mkConst(concArg(b, 0, 4096), 64); return BR::Done; };
  B["fs_require"] = [](BCall& b) {  // fs_assume without asking whether it is possible
    Expr* c = mkExtract(b.a[0], 0, 1); if (isFalse(c)) { g_assumeDead++; throw Terminated(); } if (std::find(b.S.pc.begin(), b.S.pc.end(), c) == b.S.pc.end()) assume(b.S, c); return BR::Void; };
  B["fs_split"] = [](BCall& b) {  // both ways, without asking whether they are possible
    Expr* c = mkExtract(b.a[0], 0, 1); Expr* nc = mkNot(c); int k = c->isConst() ? c->c != 0 : decide(b.S, c); bool yes = k == 1, no = k == 0;
    if (yes || no) { b.ret = mkConst(yes ? 1 : 0, 1); return BR::Done; }
    shared_ptr<Assignment> mt, mf; if (b.S.model) { try { if (evalExpr(c, *b.S.model)) mt = b.S.model; else mf = b.S.model; } catch (EngineError&) {} }
    State* Q = cloneState(b.S); Q->pc.push_back(nc); Q->model = mf; b.S.pc.push_back(c); b.S.model = mt;
    setReg(*Q, b.cb, mkFalse()); advance(*Q); setReg(b.S, b.cb, mkTrue()); advance(b.S); b.ctx.forks->push_back(Q); g_forkMerge = false; return BR::NoAdvance; };
  B["fs_merge"] = [](BCall& b) { b.S.merge = concArg(b, 0) != 0; b.S.lazyMerge = concArg(b, 0) == 2; return BR::Void; };
  B["fs_explore"] = [](BCall& b) { b.S.explore = true; b.S.preemptBound = (int)concArg(b, 0); b.S.timeoutBound = (int)concArg(b, 1); b.S.merge = false; return BR::Void; };
  B["fs_symbolic_engine"] = [](BCall& b) { b.ret = mkConst(1, 32); return BR::Done; };
  B["fs_fail"] = [](BCall& b) { report(b.S, "assert", cstr(b.S, b.a[0]), mkTrue()); throw Terminated(); return BR::Void; };
  B["fs_exit"] = [](BCall& b) { recordPath(b.S); throw Terminated(); return BR::Void; };
  B["fs_live_objects"] = [](BCall& b) { uint64_t n = 0; for (auto& o : b.S.mem) if (o.second->kind == 'h') n++; b.ret = mkConst(n, 64); return BR::Done; };
  B["fs_debug"] = [](BCall& b) { fprintf(stderr, "DEBUG %s = %s\n", cstr(b.S, b.a[0]).c_str(), exprStr(b.a[1], 8).c_str()); return BR::Void; };
  // ---- process
  auto die = [](string what) { return [what](BCall& b) { report(b.S, "abort", what, mkTrue()); throw Terminated(); return BR::Void; }; };
  B["abort"] = die("abort() called"); B["_ZSt9terminatev"] = die("std::terminate called"); B["__clang_call_terminate"] = die("std::terminate called (exception in noexcept code)"); B["exit"] = die("exit() called"); B["_exit"] = die("_exit() called"); B["__cxa_pure_virtual"] = die("pure virtual call"); B["__stack_chk_fail"] = die("stack smashing");
  B["__assert_fail"] = [](BCall& b) { report(b.S, "abort", "assertion failed: " + cstr(b.S, b.a[0]) + " (" + cstr(b.S, b.a[3]) + ")", mkTrue()); throw Terminated(); return BR::Void; };
  B["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](BCall& b) { report(b.S, "abort", "libstdc++ assertion failed: " + cstr(b.S, b.a[3]), mkTrue()); throw Terminated(); return BR::Void; };
  auto nop0 = [](BCall& b) { if (!b.cb->getType()->isVoidTy()) { b.ret = zeroOf(b.cb->getType()); return BR::Done; } return BR::Void; };
  for (auto n : {"__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "puts", "printf", "fflush", "fprintf", "__cxa_thread_atexit", "perror", "putchar", "_ZSt21ios_base_library_initv", "pthread_cond_destroy", "pthread_mutex_destroy", "pthread_mutex_init", "sched_yield_nop", "feclearexcept", "tzset", "setlocale"}) B[n] = nop0;
  B["__errno_location"] = [](BCall& b) { Thread& T = b.S.th[b.S.cur]; if (!T.errnoAddr) { T.errnoAddr = newObj(b.S, 4, 't', "errno"); store(b.S, mkConst(T.errnoAddr, 64), mkConst(0, 32)); } b.ret = mkConst(b.S.th[b.S.cur].errnoAddr, 64); return BR::Done; };
  B["__cxa_guard_acquire"] = [](BCall& b) { Expr* v = load(b.S, b.a[0], 1, true); acquire(b.S, (uint64_t)b.a[0]->c); if (!v->isConst()) throw EngineError("symbolic guard"); b.ret = mkConst(v->c ? 0 : 1, 32); return BR::Done; };
  B["__cxa_guard_release"] = [](BCall& b) { store(b.S, b.a[0], mkConst(1, 8), true); release(b.S, (uint64_t)b.a[0]->c); return BR::Void; };
  B["__cxa_guard_abort"] = nop0;
  // ---- exceptions
  B["__cxa_allocate_exception"] = [](BCall& b) { uint64_t n = (uint64_t)concArg(b, 0); uint64_t a = newObj(b.S, n, 'h', "exception object"); b.ret = mkConst(a, 64); return BR::Done; };
  B["__cxa_free_exception"] = [](BCall& b) { freeObj(b.S, (uint64_t)concArg(b, 0)); return BR::Void; };
  B["__cxa_init_primary_exception"] = [](BCall& b) { b.S.exc[(uint64_t)concArg(b, 0)] = {(uint64_t)concArg(b, 1), (uint64_t)concArg(b, 2), 0, 0}; b.ret = b.a[0]; return BR::Done; };
  B["__cxa_throw"] = [](BCall& b) { uint64_t o = (uint64_t)concArg(b, 0); b.S.exc[o] = {(uint64_t)concArg(b, 1), (uint64_t)concArg(b, 2), 0, 1}; unwind(b.S, o); return BR::NoAdvance; };
  B["_Unwind_Resume"] = [](BCall& b) { uint64_t o = (uint64_t)concArg(b, 0); popFrame(b.S); unwind(b.S, o); return BR::NoAdvance; };
  B["__cxa_begin_catch"] = [](BCall& b) { uint64_t o = (uint64_t)concArg(b, 0); auto& e = b.S.exc.at(o); e.handlers++; b.S.th[b.S.cur].caught.push_back(o); b.ret = b.a[0]; return BR::Done; };
  B["__cxa_get_exception_ptr"] = [](BCall& b) { b.ret = b.a[0]; return BR::Done; };
  B["__cxa_current_exception_type"] = [](BCall& b) { auto& c = b.S.th[b.S.cur].caught; b.ret = mkConst(c.empty() ? 0 : b.S.exc.at(c.back()).tinfo, 64); return BR::Done; };
  auto excRelease = [](BCall& b, uint64_t o) { // drop one reference; destroy at zero. returns true when a destructor frame was pushed
    auto it = b.S.exc.find(o); if (it == b.S.exc.end()) return; if (--it->second.refs > 0) return;
    b.S.exc.erase(it); freeObj(b.S, o); };
  B["__cxa_end_catch"] = [excRelease](BCall& b) { auto& c = b.S.th[b.S.cur].caught; if (c.empty()) throw EngineError("end_catch without catch"); uint64_t o = c.back(); c.pop_back(); auto it = b.S.exc.find(o); if (it != b.S.exc.end()) { it->second.handlers--; if (it->second.handlers == 0) excRelease(b, o); } return BR::Void; };
  B["__cxa_rethrow"] = [](BCall& b) { auto& c = b.S.th[b.S.cur].caught; if (c.empty()) { report(b.S, "abort", "rethrow without exception", mkTrue()); throw Terminated(); } uint64_t o = c.back(); b.S.exc.at(o).refs++; unwind(b.S, o); return BR::NoAdvance; };
  B["__fs_current_exception"] = [](BCall& b) { auto& c = b.S.th[b.S.cur].caught; b.ret = mkConst(c.empty() ? 0 : c.back(), 64); return BR::Done; };
  B["__fs_exception_addref"] = [](BCall& b) { uint64_t o = (uint64_t)concArg(b, 0); if (o) b.S.exc.at(o).refs++; return BR::Void; };
  B["__fs_exception_release"] = [excRelease](BCall& b) { uint64_t o = (uint64_t)concArg(b, 0); if (o) excRelease(b, o); return BR::Void; };
  B["__fs_rethrow"] = [](BCall& b) { uint64_t o = (uint64_t)concArg(b, 0); b.S.exc.at(o).refs++; unwind(b.S, o); return BR::NoAdvance; };
  B["_ZSt18uncaught_exceptionv"] = nop0; B["_ZSt19uncaught_exceptionsv"] = nop0;
  B["__dynamic_cast"] = [](BCall& b) {
    if (!b.a[0]->isConst()) concArg(b, 0);
    if (b.a[0]->c == 0) { b.ret = mkConst(0, 64); return BR::Done; }
    Expr* vp = load(b.S, b.a[0], 8); if (!vp->isConst()) throw EngineError("symbolic vtable pointer");
    Expr* ti = load(b.S, mkConst(vp->c - 8, 64), 8), *ott = load(b.S, mkConst(vp->c - 16, 64), 8);
    int64_t off; u128 full = b.a[0]->c + ott->c; 
    if (tiDerives((uint64_t)ti->c, (uint64_t)b.a[2]->c, off)) b.ret = mkConst(full + (u128)(uint64_t)off, 64); else b.ret = mkConst(0, 64);
    return BR::Done; };
  // ---- threads
  B["__fs_thread_create"] = [](BCall& b) {
    if (schedPoint(b.ctx)) throw Retry();
    State& S = b.S; uint64_t fa = (uint64_t)concArg(b, 0); Expr* arg = b.a[1]; auto it = g_fnAt.find(fa); if (it == g_fnAt.end()) throw EngineError("thread function");
    int me = S.cur, id = S.th.size(); if (id >= NT) throw EngineError("too many threads");
    if (id == 1) { S.th[0].vc.assign(8, 0); S.th[0].vc[0] = 1; }
    Thread T; T.vc = S.th[me].vc; T.vc.resize(8, 0); T.vc[id] = 1; S.th[me].vc[me]++; S.th.push_back(T);
    S.cur = id; pushFrame(S, it->second, {arg}, nullptr); S.cur = me; b.ret = mkConst(id, 64); return BR::Done; };
  B["__fs_thread_join"] = [](BCall& b) {
    State& S = b.S; if (schedPoint(b.ctx)) throw Retry(); int t = (int)concArg(b, 0); if (t < 0 || t >= (int)S.th.size()) { report(S, "abort", "join of an invalid thread", mkTrue()); throw Terminated(); }
    if (S.th[t].status == TS::Done) { vcJoin(S.th[S.cur].vc, S.th[t].vc); return BR::Void; }
    S.th[S.cur].status = TS::Join; S.th[S.cur].waitAddr = t; S.th[S.cur].schedSkip = true; pickNext(S, false, b.ctx.forks); throw Retry(); };
  B["__fs_thread_self"] = [](BCall& b) { b.ret = mkConst(b.S.cur, 64); return BR::Done; };
  B["__fs_yield"] = [](BCall& b) { State& S = b.S; if (S.th.size() > 1 && !S.explore) { advance(S); pickNext(S, true, b.ctx.forks); return BR::NoAdvance; } return BR::Void; };
  auto lock = [](BCall& b) {
    State& S = b.S; uint64_t m = (uint64_t)concArg(b, 0); if (S.th.size() > 1 && schedPoint(b.ctx)) throw Retry();
    auto it = S.mutexOwner.find(m);
    if (it == S.mutexOwner.end() || it->second < 0) { S.mutexOwner[m] = S.cur; if (S.th.size() > 1) acquire(S, m); b.ret = mkConst(0, 32); return BR::Done; }
    if (it->second == S.cur) { report(S, "deadlock", "mutex locked twice by the same thread", mkTrue()); throw Terminated(); }
    S.th[S.cur].status = TS::Mutex; S.th[S.cur].waitAddr = m; S.th[S.cur].schedSkip = true; pickNext(S, false, b.ctx.forks); throw Retry(); };
  B["pthread_mutex_lock"] = lock;
  B["pthread_mutex_trylock"] = [](BCall& b) { State& S = b.S; uint64_t m = (uint64_t)concArg(b, 0); if (schedPoint(b.ctx)) throw Retry(); auto it = S.mutexOwner.find(m); if (it == S.mutexOwner.end() || it->second < 0) { S.mutexOwner[m] = S.cur; if (S.th.size() > 1) acquire(S, m); b.ret = mkConst(0, 32); } else b.ret = mkConst(16, 32); return BR::Done; };
  B["pthread_mutex_unlock"] = [](BCall& b) {
    State& S = b.S; uint64_t m = (uint64_t)concArg(b, 0);
    // who holds a mutex is observable before its release only through a try-lock
    static bool tryLock = [] { auto* f = M->getFunction("pthread_mutex_trylock"); return f && !f->use_empty(); }();
    if (tryLock && S.th.size() > 1 && schedPoint(b.ctx)) throw Retry();
    auto it = S.mutexOwner.find(m);
    if (it == S.mutexOwner.end() || it->second != S.cur) { report(S, "mutex", "unlock of a mutex that is not held", mkTrue()); throw Terminated(); }
    it->second = -1; release(S, m); b.ret = mkConst(0, 32);
    if (!S.explore && S.yieldOnUnlock && S.th.size() > 1) { setReg(S, b.cb, b.ret); if (auto* inv = dyn_cast<InvokeInst>(b.cb)) enterBlock(S, inv->getParent(), inv->getNormalDest()); else advance(S); pickNext(S, true, b.ctx.forks); return BR::NoAdvance; }
    return BR::Done; };
  B["__fs_cond_wait"] = [](BCall& b) {  // (cond, mutex, timed) -> 1 on timeout
    State& S = b.S; uint64_t c = (uint64_t)concArg(b, 0), m = (uint64_t)concArg(b, 1); Thread& T = S.th[S.cur];
    if (T.condPhase == 0) {
      if (schedPoint(b.ctx)) throw Retry();
      auto it = S.mutexOwner.find(m); if (it == S.mutexOwner.end() || it->second != S.cur) { report(S, "mutex", "condition wait without holding the mutex", mkTrue()); throw Terminated(); }
      it->second = -1; release(S, m); Thread& U = S.th[S.cur]; U.status = TS::Cond; U.waitAddr = c; U.waitMutex = m; U.timed = concArg(b, 2) != 0; pickNext(S, false, b.ctx.forks); throw Retry();
    }
    auto it = S.mutexOwner.find(m); if (it->second >= 0) { T.status = TS::Mutex; T.waitAddr = m; pickNext(S, false, b.ctx.forks); throw Retry(); }
    it->second = S.cur; acquire(S, m); b.ret = mkConst(T.condPhase == 2, 32); T.condPhase = 0; return BR::Done; };
  B["__fs_cond_notify"] = [](BCall& b) {
    State& S = b.S; uint64_t c = (uint64_t)concArg(b, 0); bool all = concArg(b, 1) != 0; if (schedPoint(b.ctx)) throw Retry();
    vector<int> w; for (int t = 0; t < (int)S.th.size(); t++) if (S.th[t].status == TS::Cond && S.th[t].waitAddr == c) w.push_back(t);
    auto wake = [](State& Q, int t) { Q.th[t].status = TS::Run; Q.th[t].condPhase = 1; };
    if (all) { for (int t : w) wake(S, t); return BR::Void; }
    if (w.empty()) return BR::Void;
    if (S.explore && w.size() > 1) {
      Expr* v = mkVar("sched_" + std::to_string(S.schedCount), 8, false);
      for (size_t i = 1; i < w.size(); i++) { State* Q = cloneState(S); Q->schedCount++; Q->sched.push_back(1000 + w[i]); assume(*Q, mkBin(Eq, v, mkConst(i, 8))); Q->model.reset(); wake(*Q, w[i]); if (auto* inv = dyn_cast<InvokeInst>(b.cb)) enterBlock(*Q, inv->getParent(), inv->getNormalDest()); else advance(*Q); b.ctx.forks->push_back(Q); }
      S.schedCount++; S.sched.push_back(1000 + w[0]); assume(S, mkBin(Eq, v, mkConst(0, 8)));
    } else if (S.explore) S.sched.push_back(1000 + w[0]);
    wake(S, w[0]); return BR::Void; };
  B["__fs_futex_wait"] = [](BCall& b) {
    State& S = b.S; uint64_t a = (uint64_t)concArg(b, 0); if (S.th[S.cur].condPhase == 2) { S.th[S.cur].condPhase = 0; S.th[S.cur].timed = false; b.ret = mkConst(1, 32); return BR::Done; }
    if (schedPoint(b.ctx)) throw Retry();
    Expr* v = load(S, b.a[0], 4, true); if (!v->isConst() || !b.a[1]->isConst()) throw EngineError("symbolic futex");
    if (v->c != b.a[1]->c) { acquire(S, a); b.ret = mkConst(0, 32); return BR::Done; }
    S.th[S.cur].status = TS::Futex; S.th[S.cur].waitAddr = a; S.th[S.cur].timed = concArg(b, 2) != 0; pickNext(S, false, b.ctx.forks); throw Retry(); };
  B["__fs_futex_wake"] = [](BCall& b) { State& S = b.S; uint64_t a = (uint64_t)concArg(b, 0); if (schedPoint(b.ctx)) throw Retry(); for (auto& T : S.th) if (T.status == TS::Futex && T.waitAddr == a) { T.status = TS::Run; } return BR::Void; };
  B["__fs_sync_acquire"] = [](BCall& b) { if (b.S.th.size() > 1) acquire(b.S, (uint64_t)concArg(b, 0)); return BR::Void; };
  B["__fs_sync_release"] = [](BCall& b) { release(b.S, (uint64_t)concArg(b, 0)); return BR::Void; };
  // ---- libm
  auto un = [&](string n, unsigned w) { B[n] = [n, w](BCall& b) { setErrno(b.S, mkApp("errno:" + n, b.a, 32)); b.ret = mkApp(n, b.a, w); return BR::Done; }; };
  for (string n : {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "tgamma", "lgamma", "cbrt", "pow", "atan2", "hypot", "remainder"}) { un(n, 64); un(n + "f", 32); }
  auto rnd = [&](string n, Op op) { B[n] = [op](BCall& b) { b.ret = mkFP(op, {b.a[0]}, 64); return BR::Done; }; B[n + "f"] = [op](BCall& b) { b.ret = mkFP(op, {b.a[0]}, 32); return BR::Done; }; };
  rnd("floor", FFloor); rnd("ceil", FCeil); rnd("trunc", FTruncI); rnd("round", FRoundA); rnd("rint", FRint); rnd("nearbyint", FRint);
  for (unsigned w : {64u, 32u}) {
    string s = w == 64 ? "" : "f";
    B["sqrt" + s] = [w](BCall& b) { Expr* z = mkConst(0, w); setErrno(b.S, mkIte(mkFP(FLt, {b.a[0], z}, 1), mkConst(EDOM, 32), mkConst(0, 32))); b.ret = mkFP(FSqrt, {b.a[0]}, w); return BR::Done; };
    B["fmod" + s] = [w](BCall& b) { b.ret = mkFP(FRem, {b.a[0], b.a[1]}, w); return BR::Done; };
    B["fabs" + s] = [w](BCall& b) { b.ret = mkZExt(mkExtract(b.a[0], 0, w - 1), w); return BR::Done; };
    B["copysign" + s] = [w](BCall& b) { b.ret = mkConcat(mkExtract(b.a[1], w - 1, 1), mkExtract(b.a[0], 0, w - 1)); return BR::Done; };
    B["modf" + s] = [w](BCall& b) {  // exact: integral part truncated, fraction x - trunc(x) (0 with x's sign for inf and integral x)
      Expr* x = b.a[0]; Expr* t = mkFP(FTruncI, {x}, w); store(b.S, b.a[1], t); Expr* sgn = mkExtract(x, w - 1, 1);
      Expr* absx = mkZExt(mkExtract(x, 0, w - 1), w); u128 inf = w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u;
      Expr* frac = mkFP(FSub, {x, t}, w); Expr* z = mkConcat(sgn, mkConst(0, w - 1));
      b.ret = mkIte(mkBin(Eq, absx, mkConst(inf, w)), z, mkIte(mkFP(FEq, {x, t}, 1), z, frac)); return BR::Done; };
    B["nan" + s] = [w](BCall& b) { b.ret = mkConst(w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u, w); return BR::Done; };
    B["fmin" + s] = [w](BCall& b) { b.ret = mkIte(mkFP(FIsNan, {b.a[0]}, 1), b.a[1], mkIte(mkFP(FIsNan, {b.a[1]}, 1), b.a[0], mkIte(mkFP(FLt, {b.a[0], b.a[1]}, 1), b.a[0], b.a[1]))); return BR::Done; };
    B["fmax" + s] = [w](BCall& b) { b.ret = mkIte(mkFP(FIsNan, {b.a[0]}, 1), b.a[1], mkIte(mkFP(FIsNan, {b.a[1]}, 1), b.a[0], mkIte(mkFP(FLt, {b.a[0], b.a[1]}, 1), b.a[1], b.a[0]))); return BR::Done; };
  }
}

// --------------------------------------------------------------- intrinsics
static BR intrinsic(BCall& b, Intrinsic::ID id) {
  State& S = b.S; auto& a = b.a; unsigned w = b.cb->getType()->isVoidTy() || b.cb->getType()->isAggregateType() || b.cb->getType()->isVectorTy() || b.cb->getType()->isTokenTy() || b.cb->getType()->isMetadataTy() ? 0 : widthOf(b.cb->getType());
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(b); return BR::Void;
    case Intrinsic::memset: doMemset(b); return BR::Void;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return BR::Void;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: b.ret = mkConst(0, 64); return BR::Done;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: b.ret = a[0]; return BR::Done;
    case Intrinsic::umin: b.ret = mkIte(mkBin(Ult, a[0], a[1]), a[0], a[1]); return BR::Done;
    case Intrinsic::umax: b.ret = mkIte(mkBin(Ult, a[0], a[1]), a[1], a[0]); return BR::Done;
    case Intrinsic::smin: b.ret = mkIte(mkBin(Slt, a[0], a[1]), a[0], a[1]); return BR::Done;
    case Intrinsic::smax: b.ret = mkIte(mkBin(Slt, a[0], a[1]), a[1], a[0]); return BR::Done;
    case Intrinsic::abs: b.ret = mkIte(mkBin(Slt, a[0], mkConst(0, w)), mkBin(Sub, mkConst(0, w), a[0]), a[0]); return BR::Done;
    case Intrinsic::ctpop: { Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Add, r, mkZExt(mkExtract(a[0], i, 1), w)); b.ret = r; return BR::Done; }
    case Intrinsic::ctlz: { Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkBin(Eq, mkExtract(a[0], i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); b.ret = r; return BR::Done; }
    case Intrinsic::cttz: { Expr* r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkBin(Eq, mkExtract(a[0], i, 1), mkConst(1, 1)), mkConst(i, w), r); b.ret = r; return BR::Done; }
    case Intrinsic::bswap: { Expr* r = mkExtract(a[0], 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a[0], i, 8)); b.ret = r; return BR::Done; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Expr* cat = mkConcat(a[0], a[1]); Expr* sh = mkZExt(mkBin(URem, a[2], mkConst(w, w)), 2 * w);
      b.ret = id == Intrinsic::fshl ? mkExtract(mkBin(Shl, cat, sh), w, w) : mkExtract(mkBin(LShr, cat, sh), 0, w); return BR::Done; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      unsigned n = a[0]->width; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow; unsigned W = mul ? 2 * n : n + 1; if (W > 128) throw EngineError("overflow intrinsic width");
      Expr* x = sg ? mkSExt(a[0], W) : mkZExt(a[0], W); Expr* y = sg ? mkSExt(a[1], W) : mkZExt(a[1], W);
      Op op = mul ? Mul : (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Add : Sub;
      Expr* r = mkBin(op, x, y); Expr* lo = mkBin(op, a[0], a[1]); Expr* ov = mkNot(mkBin(Eq, r, sg ? mkSExt(lo, W) : mkZExt(lo, W)));
      b.ret = mkTuple({lo, ov}); return BR::Done; }
    case Intrinsic::usub_sat: b.ret = mkIte(mkBin(Ult, a[0], a[1]), mkConst(0, w), mkBin(Sub, a[0], a[1])); return BR::Done;
    case Intrinsic::uadd_sat: { Expr* s = mkBin(Add, a[0], a[1]); b.ret = mkIte(mkBin(Ult, s, a[0]), mkConst(maskW(w), w), s); return BR::Done; }
    case Intrinsic::fabs: b.ret = mkZExt(mkExtract(a[0], 0, w - 1), w); return BR::Done;
    case Intrinsic::copysign: b.ret = mkConcat(mkExtract(a[1], w - 1, 1), mkExtract(a[0], 0, w - 1)); return BR::Done;
    case Intrinsic::sqrt: b.ret = mkFP(FSqrt, {a[0]}, w); return BR::Done;
    case Intrinsic::floor: b.ret = mkFP(FFloor, {a[0]}, w); return BR::Done;
    case Intrinsic::ceil: b.ret = mkFP(FCeil, {a[0]}, w); return BR::Done;
    case Intrinsic::trunc: b.ret = mkFP(FTruncI, {a[0]}, w); return BR::Done;
    case Intrinsic::round: b.ret = mkFP(FRoundA, {a[0]}, w); return BR::Done;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: b.ret = mkFP(FRint, {a[0]}, w); return BR::Done;
    case Intrinsic::fma: b.ret = mkFP(FFma, {a[0], a[1], a[2]}, w); return BR::Done;
    case Intrinsic::fmuladd: b.ret = mkFP(FAdd, {mkFP(FMul, {a[0], a[1]}, w), a[2]}, w); return BR::Done;
    case Intrinsic::minnum: b.ret = mkIte(mkFP(FIsNan, {a[0]}, 1), a[1], mkIte(mkFP(FIsNan, {a[1]}, 1), a[0], mkIte(mkFP(FLt, {a[0], a[1]}, 1), a[0], a[1]))); return BR::Done;
    case Intrinsic::maxnum: b.ret = mkIte(mkFP(FIsNan, {a[0]}, 1), a[1], mkIte(mkFP(FIsNan, {a[1]}, 1), a[0], mkIte(mkFP(FLt, {a[0], a[1]}, 1), a[1], a[0]))); return BR::Done;
    case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: {
      string n = id == Intrinsic::pow ? "pow" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::log2 ? "log2" : id == Intrinsic::log10 ? "log10" : id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : "exp2";
      b.ret = mkApp(n + (w == 32 ? "f" : ""), a, w); return BR::Done; }
    case Intrinsic::is_fpclass: {
      unsigned fw = a[0]->width; unsigned mant = fw == 64 ? 52 : 23; unsigned mask = (unsigned)a[1]->c; Expr* x = a[0];
      Expr* sgn = mkExtract(x, fw - 1, 1); Expr* abs = mkExtract(x, 0, fw - 1); u128 inf = (maskW(fw - 1) >> mant) << mant;
      Expr* isnan = mkBin(Ult, mkConst(inf, fw - 1), abs); Expr* isinf = mkBin(Eq, abs, mkConst(inf, fw - 1)); Expr* zero = mkBin(Eq, abs, mkConst(0, fw - 1));
      Expr* sub = mkAnd1(mkNot(zero), mkBin(Ult, abs, mkConst((u128)1 << mant, fw - 1))); Expr* norm = mkAnd1(mkBin(Ult, abs, mkConst(inf, fw - 1)), mkNot(mkBin(Ult, abs, mkConst((u128)1 << mant, fw - 1))));
      Expr* quiet = mkBin(Eq, mkExtract(x, mant - 1, 1), mkConst(1, 1)); Expr* r = mkFalse(); auto add = [&](unsigned bit, Expr* e) { if (mask & bit) r = mkOr1(r, e); };
      if ((mask & 3) == 3) add(1, mkFP(FIsNan, {x}, 1)); else { add(1, mkAnd1(isnan, mkNot(quiet))); add(2, mkAnd1(isnan, quiet)); }
      add(4, mkAnd1(isinf, sgn)); add(512, mkAnd1(isinf, mkNot(sgn))); add(8, mkAnd1(norm, sgn)); add(256, mkAnd1(norm, mkNot(sgn))); add(16, mkAnd1(sub, sgn)); add(128, mkAnd1(sub, mkNot(sgn))); add(32, mkAnd1(zero, sgn)); add(64, mkAnd1(zero, mkNot(sgn)));
      b.ret = r; return BR::Done; }
    case Intrinsic::eh_typeid_for: b.ret = mkConst(tiId((uint64_t)a[0]->c), 32); return BR::Done;
    case Intrinsic::threadlocal_address: b.ret = a[0]; return BR::Done;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: report(S, "abort", "trap", mkTrue()); throw Terminated();
    case Intrinsic::objectsize: b.ret = mkConst(maskW(w), w); return BR::Done;
    case Intrinsic::is_constant: b.ret = mkFalse(); return BR::Done;
    case Intrinsic::ptrmask: b.ret = mkBin(And, a[0], a[1]); return BR::Done;
    case Intrinsic::get_rounding: b.ret = mkConst(1, 32); return BR::Done;
    default: throw EngineError("intrinsic " + Intrinsic::getBaseName(id).str());
  }
}

static bool recordPath(State& S) {
  g_paths++;
  if (g_samples.size() < g_maxSamples && !S.explore) {
    Assignment m; bool ck = false;
    if (S.model) { m = *S.model; ck = true; } else if (S.lazyMerge && guessModel(S, m)) ck = true; else if (S.lazyMerge) return false; else { Expr* all = mkTrue(); for (auto* p : S.pc) all = mkAnd1(all, p); if (solve({}, all, nullptr, m, true, &ck) != Res::Sat) { if (++g_sampleFails >= 40) g_maxSamples = g_samples.size(); return false; } if (isTrue(all)) ck = true; }
    if (!ck) return false;
    Sample s; collectInputs(m, s.in); try { std::unordered_map<Expr*, u128> memo; for (auto& o : S.obs) s.obs.push_back({o.first, evalExpr(o.second, m, &memo)}); } catch (EngineError&) { return false; }
    g_samples.push_back(s);
    // a second, generic sample of the same path: pseudo-random inputs that satisfy the path condition
    if (S.pc.size() < 40) for (int t = 0; t < 30 && g_samples.size() < g_maxSamples; t++) {
      Assignment r = m; uint64_t x = 88172645463325252ull + t * 7919 + g_paths * 104729;
      for (uint32_t i = 0; i < g_vars.size(); i++) if (g_vars[i].input) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; uint64_t y = x; if (g_vars[i].width > 1 && (y & 3) == 0) y = (y >> 8) & 7; r.v[i] = (u128)y & maskW(g_vars[i].width); }
      if (!pcHolds(S, r)) continue;
      Sample q; collectInputs(r, q.in); bool ok = true; try { std::unordered_map<Expr*, u128> memo; for (auto& o : S.obs) q.obs.push_back({o.first, evalExpr(o.second, r, &memo)}); } catch (EngineError&) { ok = false; }
      if (ok) { g_samples.push_back(q); break; }
    }
  }
  return true;
}

// --------------------------------------------------------------- call
static void doReturn(State& S, Expr* rv, vector<State*>& forks) {
  popFrame(S);
  Thread& T = S.th[S.cur];
  if (T.st.empty()) {
    if (S.cur == 0) { T.status = TS::Done; return; }
    T.status = TS::Done; Ctx c{&S, &forks}; pickNext(S, false, &forks); return;
  }
  const Instruction* cs = T.st.back()->pc;
  if (rv && !cs->getType()->isVoidTy()) setReg(S, cs, rv);
  if (auto* inv = dyn_cast<InvokeInst>(cs)) enterBlock(S, inv->getParent(), inv->getNormalDest()); else advance(S);
}

static void callInst(State& S, const CallBase* cb, vector<State*>& forks) {
  const Value* cv = cb->getCalledOperand()->stripPointerCasts(); Function* fn = nullptr;
  if (auto* f = dyn_cast<Function>(cv)) fn = const_cast<Function*>(f);
  else if (auto* ga = dyn_cast<GlobalAlias>(cv)) fn = dyn_cast<Function>(const_cast<GlobalObject*>(ga->getAliaseeObject()));
  else if (isa<InlineAsm>(cv)) { // only empty barriers
    advance(S); return; }
  if (!fn) {
    Expr* t = val(S, cv);
    if (!t->isConst()) {
      vector<u128> vals; enumValues(S, t, vals, 64); if (vals.empty()) throw Terminated();
      for (size_t k = 0; k < vals.size(); k++) { State* Q = k + 1 < vals.size() ? cloneState(S) : &S; if (vals.size() > 1) { Expr* eq = mkBin(Eq, t, mkConst(vals[k], 64)); shared_ptr<Assignment> m; feasible(*Q, eq, m); Q->pc.push_back(eq); Q->model = m; } setReg(*Q, cv, mkConst(vals[k], 64)); if (Q != &S) forks.push_back(Q); }
      return;
    }
    auto it = g_fnAt.find((uint64_t)t->c);
    if (it == g_fnAt.end()) { report(S, "memory", "call through an invalid function pointer", mkTrue()); throw Terminated(); }
    fn = it->second;
  }
  vector<Expr*> args; for (auto& a : cb->args()) args.push_back(a->getType()->isMetadataTy() ? mkConst(0, 64) : val(S, a));
  Ctx ctx{&S, &forks}; BCall bc{S, cb, args, nullptr, ctx}; BR r;
  if (fn->isIntrinsic()) r = intrinsic(bc, fn->getIntrinsicID());
  else {
    auto it = g_builtins.find(fn->getName().str());
    if (it != g_builtins.end()) r = it->second(bc);
    else if (!fn->isDeclaration()) { pushFrame(S, fn, args, cb); return; }
    else throw EngineError("external function " + demangle(fn->getName().str()) + " [" + fn->getName().str() + "]");
  }
  if (r == BR::NoAdvance) return;
  if (r == BR::Done && !cb->getType()->isVoidTy()) setReg(S, cb, bc.ret);
  if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(S, inv->getParent(), inv->getNormalDest()); else advance(S);
}

static Expr* binInst(State& S, unsigned opc, Expr* a, Expr* b, const Instruction* I) {
  unsigned w = a->width;
  switch (opc) {
    case Instruction::Add: return mkBin(Add, a, b); case Instruction::Sub: return mkBin(Sub, a, b); case Instruction::Mul: return mkBin(Mul, a, b);
    case Instruction::And: return mkBin(And, a, b); case Instruction::Or: return mkBin(Or, a, b); case Instruction::Xor: return mkBin(Xor, a, b);
    case Instruction::Shl: return mkBin(Shl, a, b); case Instruction::LShr: return mkBin(LShr, a, b); case Instruction::AShr: return mkBin(AShr, a, b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Expr* bad = mkBin(Eq, b, mkConst(0, w));
      if ((opc == Instruction::SDiv || opc == Instruction::SRem) && w >= 32) bad = mkOr1(bad, mkAnd1(mkBin(Eq, a, mkConst((u128)1 << (w - 1), w)), mkBin(Eq, b, mkConst(maskW(w), w))));
      if (!isFalse(bad)) { shared_ptr<Assignment> m; if (feasible(S, bad, m)) { if (report(S, "fpe", "integer division traps (division by zero or overflow)", bad)) { shared_ptr<Assignment> m2; if (!feasible(S, mkNot(bad), m2)) throw Terminated(); S.pc.push_back(mkNot(bad)); S.model = m2; } } }
      return mkBin(opc == Instruction::UDiv ? UDiv : opc == Instruction::SDiv ? SDiv : opc == Instruction::URem ? URem : SRem, a, b); }
    case Instruction::FAdd: return mkFP(FAdd, {a, b}, w); case Instruction::FSub: return mkFP(FSub, {a, b}, w); case Instruction::FMul: return mkFP(FMul, {a, b}, w); case Instruction::FDiv: return mkFP(FDiv, {a, b}, w); case Instruction::FRem: return mkFP(FRem, {a, b}, w);
  }
  (void)I; throw EngineError("binary op");
}

// executes one instruction of S. Forked states are appended to forks; joinBB is set for branch forks.
struct StepRes { bool branchFork = false; const BasicBlock* join = nullptr; bool hasJoin = false; int tid = 0; size_t depth = 0; bool finished = false; };
static void step(State& S, vector<State*>& forks, StepRes& R) {
  const Instruction* I = topc(S).pc; g_steps++; S.steps++;
  auto V = [&](unsigned i) { return val(S, I->getOperand(i)); };
  switch (I->getOpcode()) {
    case Instruction::Ret: { Expr* rv = I->getNumOperands() ? V(0) : nullptr; doReturn(S, rv, forks); if (S.th[0].status == TS::Done) { R.finished = true; } return; }
    case Instruction::Br: {
      auto* br = cast<BranchInst>(I);
      if (br->isUnconditional()) { enterBlock(S, br->getParent(), br->getSuccessor(0)); return; }
      Expr* c = V(0);
      if (c->isConst()) { enterBlock(S, br->getParent(), br->getSuccessor(c->c ? 0 : 1)); return; }
      if (br->getSuccessor(0) == br->getSuccessor(1)) { enterBlock(S, br->getParent(), br->getSuccessor(0)); return; }
      shared_ptr<Assignment> mt, mf; bool t, f; Expr* nc = mkNot(c);
      if (S.merge && S.lazyMerge && topc(S).fi->ipdom.count(br->getParent())) {   // both sides are merged again: not worth a query
        int k = decide(S, c); t = k != 0; f = k != 1;
        if (S.model) { try { if (evalExpr(c, *S.model)) mt = S.model; else mf = S.model; } catch (EngineError&) {} }
      } else { t = feasible(S, c, mt); f = feasible(S, nc, mf); }
      if (!t && !f) throw Terminated();
      if (t && f) {
        State* Q = cloneState(S); Q->pc.push_back(nc); Q->model = mf; S.pc.push_back(c); S.model = mt;
        R.branchFork = true; R.tid = S.cur; R.depth = S.th[S.cur].st.size(); FnInfo* fi = topc(S).fi;
        auto it = fi->ipdom.find(br->getParent()); if (it != fi->ipdom.end()) { R.hasJoin = true; R.join = it->second; }
        enterBlock(S, br->getParent(), br->getSuccessor(0)); enterBlock(*Q, br->getParent(), br->getSuccessor(1)); forks.push_back(Q); return;
      }
      // the condition is implied by the path condition (in the over-approximation)
      if (t) { S.model = mt; enterBlock(S, br->getParent(), br->getSuccessor(0)); } else { S.model = mf; enterBlock(S, br->getParent(), br->getSuccessor(1)); }
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); Expr* c = V(0);
      if (c->isConst()) { const BasicBlock* d = sw->getDefaultDest(); for (auto& k : sw->cases()) if (apToU(k.getCaseValue()->getValue()) == c->c) d = k.getCaseSuccessor(); enterBlock(S, sw->getParent(), d); return; }
      map<const BasicBlock*, Expr*> conds; vector<const BasicBlock*> order; Expr* none = mkTrue();
      for (auto& k : sw->cases()) { Expr* e = mkBin(Eq, c, mkConst(apToU(k.getCaseValue()->getValue()), c->width)); auto it = conds.find(k.getCaseSuccessor()); if (it == conds.end()) { conds[k.getCaseSuccessor()] = e; order.push_back(k.getCaseSuccessor()); } else it->second = mkOr1(it->second, e); none = mkAnd1(none, mkNot(e)); }
      auto* dd = sw->getDefaultDest(); if (conds.count(dd)) conds[dd] = mkOr1(conds[dd], none); else { conds[dd] = none; order.push_back(dd); }
      vector<std::pair<const BasicBlock*, shared_ptr<Assignment>>> feas; for (auto* b : order) { shared_ptr<Assignment> m; if (feasible(S, conds[b], m)) feas.push_back({b, m}); }
      if (feas.empty()) throw Terminated();
      if (feas.size() == 1) { S.model = feas[0].second; enterBlock(S, sw->getParent(), feas[0].first); return; }
      R.branchFork = true; R.tid = S.cur; R.depth = S.th[S.cur].st.size(); FnInfo* fi = topc(S).fi; auto it = fi->ipdom.find(sw->getParent()); if (it != fi->ipdom.end()) { R.hasJoin = true; R.join = it->second; }
      for (size_t i = 1; i < feas.size(); i++) { State* Q = cloneState(S); Q->pc.push_back(conds[feas[i].first]); Q->model = feas[i].second; enterBlock(*Q, sw->getParent(), feas[i].first); forks.push_back(Q); }
      S.pc.push_back(conds[feas[0].first]); S.model = feas[0].second; enterBlock(S, sw->getParent(), feas[0].first); return;
    }
    case Instruction::Call: case Instruction::Invoke: callInst(S, cast<CallBase>(I), forks); return;
    case Instruction::Resume: { Expr* v = V(0); uint64_t o = (uint64_t)v->k[0]->c; popFrame(S); unwind(S, o); return; }
    case Instruction::Unreachable: report(S, "abort", "unreachable code reached", mkTrue()); throw Terminated();
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I); Expr* n = V(0); if (!n->isConst()) throw EngineError("symbolic alloca"); uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue() * (uint64_t)n->c;
      uint64_t b = newObj(S, sz, 's', "local " + ai->getName().str() + " of " + demangle(topc(S).fi->f->getName().str()).substr(0, 80)); top(S).allocas.push_back(b); setReg(S, I, mkConst(b, 64)); advance(S); return; }
    case Instruction::Load: { auto* l = cast<LoadInst>(I); Expr* p = V(0); if (l->isAtomic()) { Ctx c{&S, &forks}; if (S.explore && !refcountOp(I)) schedPoint(c); if (S.th.size() > 1 && p->isConst() && acqOrd(l->getOrdering())) acquireRange(S, (uint64_t)p->c, DL->getTypeStoreSize(l->getType()).getFixedValue()); } Expr* v = loadTyped(S, p, l->getType(), l->isAtomic()); setReg(S, I, v); advance(S); return; }
    case Instruction::Store: { auto* s = cast<StoreInst>(I); Expr* v = V(0); Expr* p = V(1); if (s->isAtomic()) { Ctx c{&S, &forks}; if (S.explore) schedPoint(c); } storeTyped(S, p, v, s->getValueOperand()->getType(), s->isAtomic()); if (s->isAtomic() && p->isConst()) { S.syncVC.erase((uint64_t)p->c); if (relOrd(s->getOrdering())) release(S, (uint64_t)p->c); } advance(S); return; }
    case Instruction::Fence: advance(S); return;
    case Instruction::AtomicRMW: {
      auto* x = cast<AtomicRMWInst>(I); Expr* p = V(0); Expr* v = V(1); Ctx c{&S, &forks}; if (S.explore && !refcountOp(I)) schedPoint(c); if (!p->isConst() && S.th.size() > 1) throw EngineError("symbolic atomic address"); if (S.th.size() > 1 && acqOrd(x->getOrdering())) acquire(S, (uint64_t)p->c);
      Expr* o = load(S, p, v->width / 8, true); Expr* n;
      switch (x->getOperation()) { case AtomicRMWInst::Add: n = mkBin(Add, o, v); break; case AtomicRMWInst::Sub: n = mkBin(Sub, o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Or: n = mkBin(Or, o, v); break; case AtomicRMWInst::And: n = mkBin(And, o, v); break; case AtomicRMWInst::Xor: n = mkBin(Xor, o, v); break; default: throw EngineError("atomicrmw"); }
      store(S, p, n, true); if (p->isConst() && relOrd(x->getOrdering())) release(S, (uint64_t)p->c); setReg(S, I, o); advance(S); return; }
    case Instruction::AtomicCmpXchg: {
      Expr* p = V(0); Expr* e = V(1); Expr* n = V(2); Ctx c{&S, &forks}; if (S.explore) schedPoint(c); if (!p->isConst() && S.th.size() > 1) throw EngineError("symbolic atomic address"); if (S.th.size() > 1) acquire(S, (uint64_t)p->c); Expr* o = load(S, p, e->width / 8, true); Expr* eq = mkBin(Eq, o, e);
      store(S, p, mkIte(eq, n, o), true); if (p->isConst()) release(S, (uint64_t)p->c); setReg(S, I, mkTuple({o, eq})); advance(S); return; }
    case Instruction::GetElementPtr: {
      auto* g = cast<GEPOperator>(I); if (g->getType()->isVectorTy()) throw EngineError("vector gep"); Expr* a = V(0);
      for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) { Expr* ix = val(S, gti.getOperand());
        if (auto* st = gti.getStructTypeOrNull()) a = mkBin(Add, a, mkConst(DL->getStructLayout(st)->getElementOffset((unsigned)ix->c).getFixedValue(), 64));
        else a = mkBin(Add, a, mkBin(Mul, mkSExt(ix, 64), mkConst(DL->getTypeAllocSize(gti.getIndexedType()).getFixedValue(), 64))); }
      setReg(S, I, a); advance(S); return; }
    case Instruction::ICmp: case Instruction::FCmp: {
      auto* ci = cast<CmpInst>(I); Expr* a = V(0); Expr* b = V(1); Expr* r;
      if (a->op == Tuple) { vector<Expr*> v; for (unsigned i = 0; i < a->nk; i++) v.push_back(isa<ICmpInst>(ci) ? icmp(ci->getPredicate(), a->k[i], b->k[i]) : fcmp(ci->getPredicate(), a->k[i], b->k[i])); r = mkTuple(v); }
      else { if (isa<FCmpInst>(ci) && a->width == 80) throw EngineError("long double"); r = isa<ICmpInst>(ci) ? icmp(ci->getPredicate(), a, b) : fcmp(ci->getPredicate(), a, b); }
      setReg(S, I, r); advance(S); return; }
    case Instruction::Select: {
      Expr* c = V(0); Expr* a = V(1); Expr* b = V(2);
      if (S.lazyMerge && c->op != Tuple && !c->isConst()) { int k = decide(S, c); if (k >= 0) { setReg(S, I, k ? a : b); advance(S); return; } }
      if (c->op == Tuple) { vector<Expr*> v; for (unsigned i = 0; i < c->nk; i++) v.push_back(mkIte(c->k[i], a->k[i], b->k[i])); setReg(S, I, mkTuple(v)); }
      else setReg(S, I, mkIte(c, a, b)); advance(S); return; }
    case Instruction::ExtractValue: { Expr* v = V(0); for (auto ix : cast<ExtractValueInst>(I)->indices()) v = v->k[ix]; setReg(S, I, v); advance(S); return; }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I); ArrayRef<unsigned> idx = iv->getIndices(); std::function<Expr*(Expr*, unsigned, Expr*)> ins = [&](Expr* agg, unsigned d, Expr* x) -> Expr* { if (d == idx.size()) return x; vector<Expr*> k(agg->k, agg->k + agg->nk); k[idx[d]] = ins(k[idx[d]], d + 1, x); return mkTuple(k); };
      setReg(S, I, ins(V(0), 0, V(1))); advance(S); return; }
    case Instruction::ExtractElement: { Expr* v = V(0); Expr* ix = V(1); if (!ix->isConst()) throw EngineError("symbolic vector index"); setReg(S, I, v->k[(unsigned)ix->c]); advance(S); return; }
    case Instruction::InsertElement: { Expr* v = V(0); Expr* x = V(1); Expr* ix = V(2); if (!ix->isConst()) throw EngineError("symbolic vector index"); vector<Expr*> k(v->k, v->k + v->nk); k[(unsigned)ix->c] = x; setReg(S, I, mkTuple(k)); advance(S); return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Expr* a = V(0); Expr* b = V(1); vector<Expr*> k; for (int m : sv->getShuffleMask()) k.push_back(m < 0 ? (a->k[0]) : m < (int)a->nk ? a->k[m] : b->k[m - a->nk]); setReg(S, I, mkTuple(k)); advance(S); return; }
    case Instruction::Freeze: setReg(S, I, V(0)); advance(S); return;
    case Instruction::FNeg: { Expr* a = V(0); auto neg = [](Expr* x) { return mkConcat(mkNot(mkExtract(x, x->width - 1, 1)), mkExtract(x, 0, x->width - 1)); }; if (a->op == Tuple) { vector<Expr*> v; for (unsigned i = 0; i < a->nk; i++) v.push_back(neg(a->k[i])); setReg(S, I, mkTuple(v)); } else { if (a->width == 80) throw EngineError("long double"); setReg(S, I, neg(a)); } advance(S); return; }
    case Instruction::PHI: throw EngineError("phi executed");
    default: break;
  }
  if (auto* bo = dyn_cast<BinaryOperator>(I)) {
    Expr* a = V(0); Expr* b = V(1); Expr* r;
    if (I->getType()->getScalarType()->isX86_FP80Ty()) throw EngineError("long double arithmetic");
    if (a->op == Tuple) { vector<Expr*> v; for (unsigned i = 0; i < a->nk; i++) v.push_back(binInst(S, bo->getOpcode(), a->k[i], b->k[i], I)); r = mkTuple(v); } else r = binInst(S, bo->getOpcode(), a, b, I);
    setReg(S, I, r); advance(S); return;
  }
  if (auto* ci = dyn_cast<CastInst>(I)) { setReg(S, I, castOp(ci->getOpcode(), V(0), ci->getSrcTy(), ci->getDestTy())); advance(S); return; }
  throw EngineError(string("instruction ") + I->getOpcodeName());
}

// --------------------------------------------------------------- merging
static string mergeKey(State& S) {
  string k = std::to_string(S.cur); char buf[64];
  for (auto& T : S.th) { snprintf(buf, 64, "|%d,%llu,%d", (int)T.status, (unsigned long long)T.waitAddr, T.condPhase); k += buf; for (auto& f : T.st) { snprintf(buf, 64, "/%p", (void*)f->pc); k += buf; } }
  return k;
}
static bool tryMerge(State& A, State& B, uint64_t mark) {   // merge B into A
  if (A.cur != B.cur || A.th.size() != B.th.size() || A.merge != B.merge || A.obs.size() != B.obs.size()) return false;
  if (!(A.exc == B.exc) || A.mutexOwner != B.mutexOwner || A.syncVC != B.syncVC || A.symCount != B.symCount || A.onceState != B.onceState || A.explore || B.explore) return false;
  for (size_t i = 0; i < A.obs.size(); i++) if (A.obs[i].first != B.obs[i].first) return false;
  for (size_t t = 0; t < A.th.size(); t++) {
    Thread& a = A.th[t]; Thread& b = B.th[t]; if (a.status != b.status || a.waitAddr != b.waitAddr || a.condPhase != b.condPhase || a.vc != b.vc || a.caught != b.caught || a.st.size() != b.st.size() || a.errnoAddr != b.errnoAddr || a.tls != b.tls) return false;
    for (size_t f = 0; f < a.st.size(); f++) { if (a.st[f] == b.st[f]) continue; if (a.st[f]->fi != b.st[f]->fi || a.st[f]->pc != b.st[f]->pc || a.st[f]->bb != b.st[f]->bb || a.st[f]->allocas != b.st[f]->allocas) return false; }
  }
  // memory: objects that existed at the fork must be live in both
  { auto ia = A.mem.begin(), ib = B.mem.begin(); auto old = [&](uint64_t b) { return b < mark && !g_globals.count(b); };
    while (ia != A.mem.end() || ib != B.mem.end()) {
      if (ib == B.mem.end() || (ia != A.mem.end() && ia->first < ib->first)) { if (old(ia->first)) return false; ++ia; }
      else if (ia == A.mem.end() || ib->first < ia->first) { if (old(ib->first)) return false; ++ib; }
      else { if (ia->second != ib->second && ia->second->size != ib->second->size) return false; ++ia; ++ib; } } }
  size_t p = 0; while (p < A.pc.size() && p < B.pc.size() && A.pc[p] == B.pc[p]) p++;
  vector<Expr*> sa(A.pc.begin() + p, A.pc.end()), sb(B.pc.begin() + p, B.pc.end());
  Expr* ca = mkTrue(); for (auto* e : sa) ca = mkAnd1(ca, e);
  Expr* cb = mkTrue(); for (auto* e : sb) cb = mkAnd1(cb, e);
  Expr* sel;   // true: A
  if (isTrue(ca) || isTrue(cb)) { if (isTrue(ca) && isTrue(cb)) return false; sel = isTrue(cb) ? ca : mkNot(cb); }
  else sel = sa.size() <= sb.size() ? ca : mkNot(cb);
  auto ite = [&](Expr* x, Expr* y) { return x == y ? x : mkIte(sel, x, y); };
  for (size_t t = 0; t < A.th.size(); t++) for (size_t f = 0; f < A.th[t].st.size(); f++) {
    auto& a = A.th[t].st[f]; auto& b = B.th[t].st[f]; if (a == b) continue;
    auto n = make_shared<Frame>(*a); for (size_t r = 0; r < n->regs.size(); r++) { Expr* x = n->regs[r]; Expr* y = b->regs[r]; if (x == y) continue; if (!x || !y) { n->regs[r] = nullptr; continue; } if ((x->op == Tuple) != (y->op == Tuple) || (x->op == Tuple && x->nk != y->nk) || x->width != y->width) { n->regs[r] = nullptr; continue; } n->regs[r] = ite(x, y); }
    a = n; }
  for (auto& kv : B.mem) {
    auto it = A.mem.find(kv.first);
    if (it == A.mem.end()) {
      auto g = g_globals.find(kv.first); if (g == g_globals.end()) { A.mem[kv.first] = kv.second; continue; }
      it = A.mem.emplace(kv.first, g->second).first;   // global only written by B
    }
    if (it->second == kv.second) continue;
    auto n = make_shared<Obj>(*it->second); Obj* y = kv.second.get();
    if (y->race != n->race) n->race = mergeRace(n->race, y->race, sel, n->size);
    for (uint64_t i = 0; i < n->size;) {
      Cell x = n->cells[i], z = y->cells[i];
      if (x.e == z.e && x.ix == z.ix) { i++; continue; }
      if (!x.e) { n->cells[i] = z; i++; continue; }   // uninitialised in A: any value will do
      if (!z.e) { i++; continue; }
      auto runlen = [&](vector<Cell>& c, uint64_t at) { if (c[at].ix != 0) return 1u; unsigned L = c[at].e->width / 8; if (at + L > n->size || L > 16) return 1u; for (unsigned k = 1; k < L; k++) if (c[at + k].e != c[at].e || c[at + k].ix != k) return 1u; return L; };
      unsigned la = runlen(n->cells, i), lb = runlen(y->cells, i); unsigned L = std::max(la, lb);
      bool okrun = true; for (unsigned k = 0; k < L && okrun; k++) okrun = n->cells[i + k].e && y->cells[i + k].e;
      if (!okrun) L = 1;
      Expr* e = ite(readObj(n.get(), i, L), readObj(y, i, L)); writeObj(n.get(), i, e); i += L;
    }
    it->second = n;
  }
  // globals only written by A: B holds the initial value
  for (auto& kv : A.mem) if (!B.mem.count(kv.first)) { auto g = g_globals.find(kv.first); if (g == g_globals.end()) continue; auto n = make_shared<Obj>(*kv.second); Obj* y = g->second.get(); if (n->race != y->race) n->race = mergeRace(n->race, y->race, sel, n->size); for (uint64_t i = 0; i < n->size; i++) { Cell x = n->cells[i], z = y->cells[i]; if (x.e == z.e && x.ix == z.ix) continue; Expr* e = ite(cellByte(n.get(), i), cellByte(y, i)); n->cells[i] = Cell{e, 0}; } kv.second = n; }
  for (size_t i = 0; i < A.obs.size(); i++) A.obs[i].second = ite(A.obs[i].second, B.obs[i].second);
  // path condition
  vector<Expr*> npc(A.pc.begin(), A.pc.begin() + p), ra, rb;
  for (auto* e : sa) if (std::find(sb.begin(), sb.end(), e) != sb.end()) npc.push_back(e); else ra.push_back(e);
  for (auto* e : sb) if (std::find(sa.begin(), sa.end(), e) == sa.end()) rb.push_back(e);
  Expr* xa = mkTrue(); for (auto* e : ra) xa = mkAnd1(xa, e); Expr* xb = mkTrue(); for (auto* e : rb) xb = mkAnd1(xb, e);
  Expr* o = complementary(xa, xb) ? mkTrue() : mkOr1(xa, xb); if (!isTrue(o)) npc.push_back(o);
  A.pc = npc; if (!A.model) A.model = B.model; A.steps = std::max(A.steps, B.steps);
  A.schedCount = std::max(A.schedCount, B.schedCount); A.timeouts = std::max(A.timeouts, B.timeouts);
  g_merges++; return true;
}
static vector<State*> mergeGroup(vector<State*> in, uint64_t mark) {
  map<string, vector<State*>> g; vector<string> order; for (auto* s : in) { string k = mergeKey(*s); if (!g.count(k)) order.push_back(k); g[k].push_back(s); }
  vector<State*> out;
  for (auto& k : order) { auto& v = g[k];
    vector<State*> acc; for (auto* s : v) { bool done = false; for (auto* a : acc) if (tryMerge(*a, *s, mark)) { delete s; done = true; break; } if (!done) { if (!acc.empty()) g_mergeFail++; acc.push_back(s); } }
    out.insert(out.end(), acc.begin(), acc.end()); }
  return out;
}

struct Join { bool none; int tid; size_t depth; const BasicBlock* bb; };
static bool atJoin(State& S, Join const& J) {
  if (J.none) return false;
  if (J.tid >= (int)S.th.size()) return true;
  auto& st = S.th[J.tid].st; if (st.size() < J.depth) return true;
  if (st.size() > J.depth || !J.bb) return false;
  if (st.back()->bb != J.bb) return false;
  const Instruction* i = &J.bb->front(); while (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) i = i->getNextNode();
  return st.back()->pc == i;
}
static bool g_stop = false;
static vector<State*> run(vector<State*> work, Join J, int nest) {
  vector<State*> out;
  if (nest > 3000) throw EngineError("fork nesting too deep");
  while (!work.empty()) {
    State* S = work.back(); work.pop_back();
    vector<State*> forks; bool dead = false;
    while (true) {
      if (g_stop) { dead = true; break; }
      if (atJoin(*S, J)) { out.push_back(S); S = nullptr; break; }
      StepRes R; g_forkMerge = false;
      try {
        if ((g_steps & 1023) == 0) { if (now() > g_deadline) { incomplete("time limit"); g_stop = true; dead = true; break; } if (g_steps > g_maxSteps) { incomplete("step limit"); g_stop = true; dead = true; break; } }
        if (S->steps > g_pathStepLimit) { report(*S, "nontermination", "path exceeds the step limit", mkTrue()); incomplete("path step limit"); dead = true; break; }
        step(*S, forks, R);
      } catch (Terminated&) { dead = true; }
      catch (Retry&) { }
      catch (EngineError& e) { string m = e.what(); try { m += " at " + locOf(topc(*S).pc) + " in " + demangle(topc(*S).fi->f->getName().str()).substr(0, 200); if (g_verbose) m += stackOf(*S); } catch (...) {} incomplete(m); dead = true; }
      if (R.finished) { recordPath(*S); dead = true; if (g_paths >= g_maxPaths) { incomplete("path limit"); g_stop = true; } }
      if (dead) { break; }
      if (forks.empty()) continue;
      if (R.branchFork && R.hasJoin && S->merge) {
        uint64_t mark = g_next; forks.push_back(S); S = nullptr; 
        for (auto* f : forks) (void)f;
        vector<State*> res = run(forks, Join{false, R.tid, R.depth, R.join}, nest + 1); forks.clear();
        res = mergeGroup(res, mark);
        for (auto* r : res) work.push_back(r);
        break;
      }
      for (auto* f : forks) work.push_back(f); forks.clear();
    }
    if (dead) { delete S; for (auto* f : forks) work.push_back(f); }
  }
  return out;
}

// --------------------------------------------------------------- output
static string jesc(string const& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void writeOut(string const& path, string const& entry) {
  std::ofstream o(path); o << "{\"entry\":\"" << entry << "\",\n\"violations\":[";
  bool f = true; for (auto& v : g_viol) { if (!f) o << ",\n"; f = false; o << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"checked\":" << (v.checked ? "true" : "false") << ",\"known\":\"" << jesc(v.known) << "\",\"sched\":["; for (size_t i = 0; i < v.sched.size(); i++) o << (i ? "," : "") << v.sched[i]; o << "],\"inputs\":{"; bool g = true; for (auto& kv : v.inputs) { if (!g) o << ","; g = false; o << "\"" << jesc(kv.first) << "\":[" << kv.second.second << ",\"" << u128str(kv.second.first) << "\"]"; } o << "}}"; }
  o << "],\n\"incomplete\":["; f = true; for (auto& s : g_incomplete) { if (!f) o << ","; f = false; o << "\"" << jesc(s) << "\""; }
  o << "],\n\"reach\":{"; f = true; for (auto& kv : g_reach) { if (!f) o << ","; f = false; o << "\"" << jesc(kv.first) << "\":" << kv.second; }
  o << "},\n\"samples\":["; f = true; for (auto& s : g_samples) { if (!f) o << ",\n"; f = false; o << "{\"in\":{"; bool g = true; for (auto& kv : s.in) { if (!g) o << ","; g = false; o << "\"" << jesc(kv.first) << "\":[" << kv.second.second << ",\"" << u128str(kv.second.first) << "\"]"; } o << "},\"obs\":["; g = true; for (auto& x : s.obs) { if (!g) o << ","; g = false; o << "[\"" << jesc(x.first) << "\",\"" << u128str(x.second) << "\"]"; } o << "]}"; }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "],\n\"stats\":{\"steps\":" << g_steps << ",\"forks\":" << g_forks << ",\"merges\":" << g_merges << ",\"merge_refused\":" << g_mergeFail << ",\"paths\":" << g_paths << ",\"asserts\":" << g_asserts << ",\"asserts_symbolic\":" << g_assertSym << ",\"assume_dead\":" << g_assumeDead << ",\"exprs\":" << g_exprCount
    << ",\"queries\":" << g_sstats.queries << ",\"z3_calls\":" << g_sstats.z3calls << ",\"cache_hits\":" << g_sstats.cacheHits << ",\"model_hits\":" << g_sstats.modelHits << ",\"fp_precise_calls\":" << g_sstats.preciseCalls << ",\"external_calls\":" << g_sstats.external << ",\"unknown\":" << g_sstats.unknown << ",\"solver_s\":" << g_sstats.time << ",\"wall_s\":" << now() << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"inputs\":" << [] { int n = 0; for (auto& v : g_vars) n += v.input; return n; }() << "},\n\"functions\":[";
  f = true; for (auto& s : g_fernFns) { size_t p = s.find('|'); string d = demangle(s.substr(p + 1)); if (d.size() > 300) d = d.substr(0, 300) + "..."; if (!f) o << ","; f = false; o << "\"" << jesc(s.substr(0, p) + ": " + d) << "\""; }
  o << "],\n\"lines\":["; f = true; for (auto& s : g_fernLines) { if (!f) o << ","; f = false; o << "\"" << jesc(s) << "\""; }
  o << "]}\n";
}

static int realMain(int argc, char** argv) {
  g_t0 = std::chrono::steady_clock::now();
  string file, entry, out; 
  for (int i = 1; i < argc; i++) { string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") g_deadline = atof(argv[++i]); else if (a == "-v") g_verbose = true;
    else if (a == "--solver-ms") g_sopts.timeoutMs = atoi(argv[++i]); else if (a == "--hard-ms") g_sopts.hardTimeoutMs = atoi(argv[++i]); else if (a == "--samples") g_maxSamples = atoi(argv[++i]); else if (a == "--max-steps") g_maxSteps = strtoull(argv[++i], 0, 10); else if (a == "--path-steps") g_pathStepLimit = strtoull(argv[++i], 0, 10); else if (a == "--max-paths") g_maxPaths = strtoull(argv[++i], 0, 10);
    else file = a; }
  LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(file, err, C); if (!mod) { err.print("fernsym", errs()); return 2; }
  // A harness may replace a function that only formats text: it defines "fs_replace.<mangled name>".
  for (auto& f : *mod) if (f.getName().starts_with("fs_replace.")) if (auto* g = mod->getFunction(f.getName().substr(11))) g->replaceAllUsesWith(&f);

  M = mod.get(); DL = &M->getDataLayout(); initBuiltins();
  for (auto& f : *M) globalAddr(&f);
  for (auto& g : M->globals()) globalAddr(&g);
  Function* ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  State* S = new State; S->th.resize(1); S->model = make_shared<Assignment>();
  vector<Function*> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) { vector<std::pair<uint64_t, Function*>> v; for (auto& op : arr->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) ctors.push_back(x.second); }
  // run constructors, then the entry, on one stack: push in reverse with an artificial sequence
  for (auto* f : ctors) {
    pushFrame(*S, f, {}, nullptr);
    try { while (!S->th[0].st.empty()) { vector<State*> fk; StepRes R; step(*S, fk, R); if (!fk.empty()) throw EngineError("fork in global constructor"); } }
    catch (EngineError& e) { incomplete(string("global constructor: ") + e.what() + stackOf(*S)); S->th[0].st.clear(); } catch (Terminated&) { incomplete("global constructor terminated"); S->th[0].st.clear(); } catch (Retry&) {}
    S->th[0].status = TS::Run;
  }
  S->steps = 0;
  pushFrame(*S, ef, {}, nullptr);
  run({S}, Join{true, 0, 0, nullptr}, 0);
  if (!out.empty()) writeOut(out, entry);
  fprintf(stderr, "%s: paths=%llu steps=%llu forks=%llu merges=%llu(refused %llu) asserts=%llu/%llu queries=%llu z3=%llu solver=%.2fs wall=%.2fs viol=%zu incomplete=%zu\n", entry.c_str(), (unsigned long long)g_paths, (unsigned long long)g_steps, (unsigned long long)g_forks, (unsigned long long)g_merges, (unsigned long long)g_mergeFail, (unsigned long long)g_assertSym, (unsigned long long)g_asserts, (unsigned long long)g_sstats.queries, (unsigned long long)g_sstats.z3calls, g_sstats.time, now(), g_viol.size(), g_incomplete.size());
  for (auto& s : g_incomplete) fprintf(stderr, "  incomplete: %s\n", s.c_str());
  for (auto& v : g_viol) fprintf(stderr, "  violation: [%s] %s%s @ %s\n", v.kind.c_str(), v.msg.c_str(), v.known.empty() ? "" : (" (known " + v.known + ")").c_str(), v.loc.c_str());
  fflush(stderr); fflush(stdout);
  _exit(g_viol.empty() ? (g_incomplete.empty() ? 0 : 3) : 1);
}
static int g_argc; static char** g_argv; static int g_rc;
int main(int argc, char** argv) {
  g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ull << 20);
  pthread_t t; if (pthread_create(&t, &at, [](void*) -> void* { try { g_rc = realMain(g_argc, g_argv); } catch (std::exception& e) { fprintf(stderr, "fernsym: %s\n", e.what()); g_rc = 2; } return nullptr; }, nullptr)) return 2;
  pthread_join(t, nullptr); _exit(g_rc);
}
