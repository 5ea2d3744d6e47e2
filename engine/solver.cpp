#include "solver.h"
#include <z3.h>
#include <z3_fpa.h>
#include <chrono>
#include <set>
#include <map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
#include <cstring>

SolverStats g_sstats;
SolverOpts g_sopts;

namespace {
Z3_context ctx = nullptr;
void errh(Z3_context c, Z3_error_code e) { throw EngineError(std::string("z3: ") + Z3_get_error_msg(c, e)); }
void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);   // non-rc context: asts live as long as the context
  Z3_set_error_handler(ctx, errh);
}
Z3_ast bvnum(u128 v, unsigned w) {
  std::vector<char> bits(w); bool* b = new bool[w];
  for (unsigned i = 0; i < w; i++) b[i] = (v >> i) & 1;
  Z3_ast r = Z3_mk_bv_numeral(ctx, w, b); delete[] b; return r;
}
struct Tr {
  bool precise; 
  std::unordered_map<Expr*, Z3_ast> bv, bo;
  std::map<std::string, Z3_func_decl> ufs;
  Tr(bool p) : precise(p) {}
  Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
  Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
  Z3_ast fp(Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, tbv(e), fsort(e->width)); }
  Z3_ast one(unsigned) { return bvnum(1, 1); }
  Z3_ast tb(Expr* e) {  // Bool sort
    auto it = bo.find(e); if (it != bo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
      case Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case And: { Z3_ast a[2] = {tb(e->k[0]), tb(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
      case Or: { Z3_ast a[2] = {tb(e->k[0]), tb(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
      case Xor: if (isTrue(e->k[1])) r = Z3_mk_not(ctx, tb(e->k[0])); else r = Z3_mk_xor(ctx, tb(e->k[0]), tb(e->k[1])); break;
      case Eq: if (e->k[0]->width == 1) r = Z3_mk_iff(ctx, tb(e->k[0]), tb(e->k[1])); else r = Z3_mk_eq(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
      case Ult: r = Z3_mk_bvult(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
      case Slt: r = Z3_mk_bvslt(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
      case Ule: r = Z3_mk_bvule(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
      case Sle: r = Z3_mk_bvsle(ctx, tbv(e->k[0]), tbv(e->k[1])); break;
      case Ite: r = Z3_mk_ite(ctx, tb(e->k[0]), tb(e->k[1]), tb(e->k[2])); break;
      case FEq: case FLt: case FLe: case FIsNan: r = fcmp(e); break;
      default: r = Z3_mk_eq(ctx, tbv(e), bvnum(1, 1));
    }
    return bo[e] = r;
  }
  // exact comparison on bit patterns
  Z3_ast fcmp(Expr* e) {
    unsigned w = e->k[0]->width; unsigned mant = w == 64 ? 52 : 23;
    auto isnan = [&](Z3_ast x) { Z3_ast a = Z3_mk_extract(ctx, w - 2, 0, x); return Z3_mk_bvugt(ctx, a, bvnum((maskW(w - 1) >> mant) << mant, w - 1)); };
    Z3_ast a = tbv(e->k[0]);
    if (e->op == FIsNan) return isnan(a);
    Z3_ast b = tbv(e->k[1]);
    Z3_ast nn[2] = {Z3_mk_not(ctx, isnan(a)), Z3_mk_not(ctx, isnan(b))};
    Z3_ast ok = Z3_mk_and(ctx, 2, nn);
    Z3_ast am = Z3_mk_extract(ctx, w - 2, 0, a), bm = Z3_mk_extract(ctx, w - 2, 0, b);
    Z3_ast bz = Z3_mk_eq(ctx, Z3_mk_bvor(ctx, am, bm), bvnum(0, w - 1));
    Z3_ast sa = Z3_mk_eq(ctx, Z3_mk_extract(ctx, w - 1, w - 1, a), bvnum(1, 1)), sb = Z3_mk_eq(ctx, Z3_mk_extract(ctx, w - 1, w - 1, b), bvnum(1, 1));
    Z3_ast r;
    if (e->op == FEq) { Z3_ast o[2] = {Z3_mk_eq(ctx, a, b), bz}; r = Z3_mk_or(ctx, 2, o); }
    else {
      // a < b  : not both zero and (sa ? (sb ? bm<am : true) : (sb ? false : am<bm))
      Z3_ast lt = Z3_mk_ite(ctx, sa, Z3_mk_ite(ctx, sb, Z3_mk_bvult(ctx, bm, am), Z3_mk_true(ctx)), Z3_mk_ite(ctx, sb, Z3_mk_false(ctx), Z3_mk_bvult(ctx, am, bm)));
      Z3_ast l[2] = {Z3_mk_not(ctx, bz), lt}; r = Z3_mk_and(ctx, 2, l);
      if (e->op == FLe) { Z3_ast o[3] = {r, bz, Z3_mk_eq(ctx, a, b)}; r = Z3_mk_or(ctx, 3, o); }
    }
    Z3_ast f[2] = {ok, r}; return Z3_mk_and(ctx, 2, f);
  }
  Z3_ast uf(std::string const& name, Expr* e) {
    std::vector<Z3_sort> dom; std::vector<Z3_ast> args; std::string full = name;
    for (unsigned i = 0; i < e->nk; i++) { dom.push_back(Z3_mk_bv_sort(ctx, e->k[i]->width)); args.push_back(tbv(e->k[i])); full += "_" + std::to_string(e->k[i]->width); }
    full += "_" + std::to_string(e->width);
    auto it = ufs.find(full); Z3_func_decl d;
    if (it == ufs.end()) { d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, full.c_str()), dom.size(), dom.data(), Z3_mk_bv_sort(ctx, e->width)); ufs[full] = d; }
    else d = it->second;
    return Z3_mk_app(ctx, d, args.size(), args.data());
  }
  Z3_ast tbv(Expr* e) {
    auto it = bv.find(e); if (it != bv.end()) return it->second;
    // iterative pre-translation to bound recursion depth
    std::vector<std::pair<Expr*, bool>> st{{e, false}};
    while (!st.empty()) {
      auto [x, d] = st.back();
      if (bv.count(x)) { st.pop_back(); continue; }
      if (!d) { st.back().second = true; for (unsigned i = 0; i < x->nk; i++) if (!bv.count(x->k[i])) st.push_back({x->k[i], false}); continue; }
      bv[x] = tbv1(x); st.pop_back();
    }
    return bv[e];
  }
  Z3_ast tbv1(Expr* e) {
    unsigned w = e->width; Z3_ast r;
    auto K = [&](int i) { return tbv(e->k[i]); };
    switch (e->op) {
      case Const: return bvnum(e->c, w);
      case Var: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string((uint32_t)e->c)).c_str()), Z3_mk_bv_sort(ctx, w));
      case Eq: case Ult: case Ule: case Slt: case Sle: case FEq: case FLt: case FLe: case FIsNan:
        return Z3_mk_ite(ctx, tb(e), bvnum(1, 1), bvnum(0, 1));
      case Add: return Z3_mk_bvadd(ctx, K(0), K(1)); case Sub: return Z3_mk_bvsub(ctx, K(0), K(1)); case Mul: return Z3_mk_bvmul(ctx, K(0), K(1));
      case UDiv: return Z3_mk_bvudiv(ctx, K(0), K(1)); case SDiv: return Z3_mk_bvsdiv(ctx, K(0), K(1));
      case URem: return Z3_mk_bvurem(ctx, K(0), K(1)); case SRem: return Z3_mk_bvsrem(ctx, K(0), K(1));
      case And: if (w == 1) return Z3_mk_ite(ctx, tb(e), bvnum(1, 1), bvnum(0, 1)); return Z3_mk_bvand(ctx, K(0), K(1));
      case Or: if (w == 1) return Z3_mk_ite(ctx, tb(e), bvnum(1, 1), bvnum(0, 1)); return Z3_mk_bvor(ctx, K(0), K(1));
      case Xor: if (w == 1) return Z3_mk_ite(ctx, tb(e), bvnum(1, 1), bvnum(0, 1)); return Z3_mk_bvxor(ctx, K(0), K(1));
      case Shl: return Z3_mk_bvshl(ctx, K(0), K(1)); case LShr: return Z3_mk_bvlshr(ctx, K(0), K(1)); case AShr: return Z3_mk_bvashr(ctx, K(0), K(1));
      case Ite: return Z3_mk_ite(ctx, tb(e->k[0]), K(1), K(2));
      case Concat: return Z3_mk_concat(ctx, K(0), K(1));
      case Extract: return Z3_mk_extract(ctx, (unsigned)e->c + w - 1, (unsigned)e->c, K(0));
      case ZExt: return Z3_mk_zero_ext(ctx, w - e->k[0]->width, K(0));
      case SExt: return Z3_mk_sign_ext(ctx, w - e->k[0]->width, K(0));
      case App: return uf("app_" + g_names[e->name], e);
      case Tuple: throw EngineError("tuple in query");
      default: break;
    }
    static const char* nm[] = {"fpext","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","fptrunc","ffloor","fceil","ftrunci","frounda","frint","sitofp","uitofp","fptosi","fptoui"};
    if (!precise || e->op == FRem) {
      // widening and exact narrow int conversions stay uninterpreted too
      return uf(nm[e->op - FPExt], e);
    }
    auto bits = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
    switch (e->op) {
      case FPExt: case FPTrunc: return bits(Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->k[0]), fsort(w)));
      case FAdd: return bits(Z3_mk_fpa_add(ctx, rne(), fp(e->k[0]), fp(e->k[1])));
      case FSub: return bits(Z3_mk_fpa_sub(ctx, rne(), fp(e->k[0]), fp(e->k[1])));
      case FMul: return bits(Z3_mk_fpa_mul(ctx, rne(), fp(e->k[0]), fp(e->k[1])));
      case FDiv: return bits(Z3_mk_fpa_div(ctx, rne(), fp(e->k[0]), fp(e->k[1])));
      case FSqrt: return bits(Z3_mk_fpa_sqrt(ctx, rne(), fp(e->k[0])));
      case FFma: return bits(Z3_mk_fpa_fma(ctx, rne(), fp(e->k[0]), fp(e->k[1]), fp(e->k[2])));
      case FFloor: return bits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), fp(e->k[0])));
      case FCeil: return bits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), fp(e->k[0])));
      case FTruncI: return bits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), fp(e->k[0])));
      case FRoundA: return bits(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), fp(e->k[0])));
      case FRint: return bits(Z3_mk_fpa_round_to_integral(ctx, rne(), fp(e->k[0])));
      case SIToFP: return bits(Z3_mk_fpa_to_fp_signed(ctx, rne(), tbv(e->k[0]), fsort(w)));
      case UIToFP: return bits(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), tbv(e->k[0]), fsort(w)));
      case FPToSI: {
        unsigned cw = w <= 32 ? 32 : 64; Z3_ast f = fp(e->k[0]); Z3_sort s = fsort(e->k[0]->width);
        double lim = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
        Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), f);
        Z3_ast in[2] = {Z3_mk_fpa_geq(ctx, t, Z3_mk_fpa_numeral_double(ctx, -lim, s)), Z3_mk_fpa_lt(ctx, t, Z3_mk_fpa_numeral_double(ctx, lim, s))};
        r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), f, cw), bvnum((u128)1 << (cw - 1), cw));
        return w == cw ? r : Z3_mk_extract(ctx, w - 1, 0, r);
      }
      case FPToUI: {
        Z3_ast f = fp(e->k[0]); Z3_sort s = fsort(e->k[0]->width);
        Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), f);
        Z3_ast in[2] = {Z3_mk_fpa_gt(ctx, t, Z3_mk_fpa_numeral_double(ctx, -1.0, s)), Z3_mk_fpa_lt(ctx, t, Z3_mk_fpa_numeral_double(ctx, 18446744073709551616.0, s))};
        r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), f, 64), bvnum((u128)1 << 63, 64));
        return w == 64 ? r : Z3_mk_extract(ctx, w - 1, 0, r);
      }
      default: throw EngineError("untranslated op");
    }
  }
};
Tr* trs[2] = {nullptr, nullptr};

bool parseModelValue(Z3_model m, Expr* var, u128& out) {
  Z3_ast a = trs[0]->tbv(var); Z3_ast v;
  if (!Z3_model_eval(ctx, m, a, true, &v)) return false;
  if (Z3_get_ast_kind(ctx, v) != Z3_NUMERAL_AST) return false;
  std::string s = Z3_get_numeral_string(ctx, v); u128 r = 0; for (char c : s) r = r * 10 + (c - '0'); out = r; return true;
}

// external solver race on an SMT-LIB dump
Res external(std::string const& smt, std::vector<Expr*> const& vars, std::map<uint32_t, u128>& model, unsigned secs) {
  g_sstats.external++;
  char dir[] = "/tmp/fernsymXXXXXX"; if (!mkdtemp(dir)) return Res::Unknown;
  std::string f = std::string(dir) + "/q.smt2";
  { std::ofstream o(f); o << "(set-option :produce-models true)\n(set-logic ALL)\n" << smt << "\n(check-sat)\n"; if (!vars.empty()) { o << "(get-value ("; for (auto* v : vars) o << "v" << (uint32_t)v->c << " "; o << "))\n"; } }
  struct Tool { const char* name; std::string cmd; } tools[] = {
    {"z3-new", "exec z3-new -T:" + std::to_string(secs) + " -memory:6000 " + f + " > " + dir + "/z3new.out 2>/dev/null"},
    {"cvc5", "exec cvc5 --tlimit=" + std::to_string(secs * 1000) + " " + f + " > " + std::string(dir) + "/cvc5.out 2>/dev/null"}};
  pid_t pids[2]; std::string outs[2] = {std::string(dir) + "/z3new.out", std::string(dir) + "/cvc5.out"};
  for (int i = 0; i < 2; i++) { pids[i] = fork(); if (pids[i] == 0) { execl("/bin/sh", "sh", "-c", tools[i].cmd.c_str(), (char*)nullptr); _exit(127); } }
  Res res = Res::Unknown; int left = 2; bool doneP[2] = {false, false};
  while (left > 0 && res == Res::Unknown) {
    int st; pid_t p = -1;
    for (int i = 0; i < 2; i++) if (!doneP[i]) { p = waitpid(pids[i], &st, WNOHANG); if (p == pids[i]) { doneP[i] = true; left--;
        std::ifstream in(outs[i]); std::string line; std::getline(in, line);
        if (line == "unsat") res = Res::Unsat;
        else if (line == "sat") {
          std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
          for (auto* v : vars) { std::string key = "(v" + std::to_string((uint32_t)v->c) + " #"; auto q = rest.find(key); if (q == std::string::npos) continue; q += key.size(); u128 x = 0; char b = rest[q++]; while (q < rest.size() && isxdigit(rest[q])) { char ch = rest[q++]; int d = ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; x = b == 'b' ? x * 2 + d : x * 16 + d; } model[(uint32_t)v->c] = x; }
          res = Res::Sat;
        } } }
    if (res == Res::Unknown) usleep(5000);
  }
  for (int i = 0; i < 2; i++) if (!doneP[i]) { kill(pids[i], SIGKILL); int st; waitpid(pids[i], &st, 0); }
  for (auto& o : outs) unlink(o.c_str()); unlink(f.c_str()); rmdir(dir);
  return res;
}
Expr* varExpr(uint32_t ix) { return mkVar(g_vars[ix].name, g_vars[ix].width, g_vars[ix].input); }

struct CacheEntry { Res r; std::map<uint32_t, u128> m; };
std::map<std::pair<bool, std::vector<uint32_t>>, CacheEntry> qcache;

Res rawSolve(std::vector<Expr*> const& cs, bool precise, std::map<uint32_t, u128>& model) {
  init();
  for (int i = 0; i < 2; i++) if (!trs[i]) trs[i] = new Tr(i == 1);
  std::vector<uint32_t> key; for (auto* c : cs) key.push_back(c->id); std::sort(key.begin(), key.end());
  auto ck = std::make_pair(precise, key);
  auto it = qcache.find(ck); if (it != qcache.end()) { g_sstats.cacheHits++; model = it->second.m; return it->second.r; }
  Tr& T = *trs[precise];
  bool hard = false, app = false; std::set<uint32_t> vs; for (auto* c : cs) { hard |= c->hard; app |= c->hasApp; vs.insert(c->vars->begin(), c->vars->end()); }
  auto t0 = std::chrono::steady_clock::now();
  std::vector<Expr*> vars; for (auto v : vs) vars.push_back(varExpr(v));
  Res r = Res::Unknown;
  auto attempt = [&](Z3_solver s, unsigned ms) {
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (auto* c : cs) Z3_solver_assert(ctx, s, T.tb(c));
    g_sstats.z3calls++; if (precise && hard) g_sstats.preciseCalls++;
    Z3_lbool res = Z3_solver_check(ctx, s);
    if (res == Z3_L_FALSE) r = Res::Unsat;
    else if (res == Z3_L_TRUE) {
      r = Res::Sat; Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      for (auto* v : vars) { u128 x; if (parseModelValue(m, v, x)) model[(uint32_t)v->c] = x; }
      Z3_model_dec_ref(ctx, m);
    }
    if (r == Res::Unknown) { }
    std::string* dump = nullptr; (void)dump;
    Z3_solver_dec_ref(ctx, s);
  };
  bool usePreciseFP = precise && hard;
  // The incremental core is fastest on the many small queries, eager bit
  // blasting on the arithmetic ones.
  bool bv = !usePreciseFP && !app && !hard;
  if (!usePreciseFP) attempt(Z3_mk_simple_solver(ctx), bv ? std::min(g_sopts.timeoutMs, 200u) : g_sopts.timeoutMs);
  if (r == Res::Unknown && bv) attempt(Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")), g_sopts.timeoutMs * 2);
  if (r == Res::Unknown && usePreciseFP) attempt(Z3_mk_solver(ctx), g_sopts.timeoutMs);
  if (r == Res::Unknown) {
    Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
    for (auto* c : cs) Z3_solver_assert(ctx, s, T.tb(c));
    std::string smt = Z3_solver_to_string(ctx, s); Z3_solver_dec_ref(ctx, s);
    model.clear();
    r = external(smt, vars, model, std::max(1u, g_sopts.hardTimeoutMs / 1000));
  }
  g_sstats.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r == Res::Unknown) g_sstats.unknown++;
  qcache[ck] = {r, model};
  return r;
}
void flatten(Expr* e, std::vector<Expr*>& out) {
  if (e->op == And && e->width == 1) { flatten(e->k[0], out); flatten(e->k[1], out); }
  else out.push_back(e);
}
}

Res solve(std::vector<Expr*> const& pc, Expr* c, Assignment const* base, Assignment& model, bool precise, bool* checked) {
  g_sstats.queries++;
  if (checked) *checked = false;
  if (isFalse(c)) return Res::Unsat;
  // slice: conjuncts transitively sharing variables with c
  std::vector<Expr*> conj; for (auto* p : pc) flatten(p, conj);
  std::vector<Expr*> cs; flatten(c, cs);
  std::set<uint32_t> vs; for (auto* x : cs) vs.insert(x->vars->begin(), x->vars->end());
  std::vector<char> used(conj.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < conj.size(); i++) if (!used[i]) { bool hit = false; for (auto v : *conj[i]->vars) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(conj[i]); for (auto v : *conj[i]->vars) vs.insert(v); ch = true; } } }
  std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<Expr*> cs2; for (auto* x : cs) { if (isFalse(x)) return Res::Unsat; if (!isTrue(x)) cs2.push_back(x); }
  auto checkModel = [&](Assignment const& m) {
    try { std::unordered_map<Expr*, u128> memo; if (!evalExpr(c, m, &memo)) return false; for (auto* p : conj) if (!evalExpr(p, m, &memo)) return false; return true; }
    catch (EngineError&) { return false; }
  };
  auto compose = [&](std::map<uint32_t, u128> const& mm) { Assignment m; if (base) m = *base; for (auto& kv : mm) m.v[kv.first] = kv.second; return m; };
  std::map<uint32_t, u128> mm;
  Res r = rawSolve(cs2, false, mm);
  if (r == Res::Unsat) return r;
  if (r == Res::Sat) {
    model = compose(mm);
    if (checkModel(model)) { if (checked) *checked = true; return Res::Sat; }
    bool hard = false, app = false; for (auto* x : cs2) { hard |= x->hard; app |= x->hasApp; }
    if (!hard && !app) {
      // the slice is satisfied but the rest of the path condition has no known model: still satisfiable if the rest is
      // satisfiable (independent variables); report without a checked model
      return Res::Sat;
    }
    if (!precise) return Res::Sat;
    // refine: IEEE semantics
    // seed: a few mutations of the candidate are cheap to try before the FP theory
    std::map<uint32_t, u128> mm2;
    r = rawSolve(cs2, true, mm2);
    if (r == Res::Sat) { model = compose(mm2); if (checked) *checked = checkModel(model); }
    if (r == Res::Unknown) g_sstats.preciseUnknown++;
    return r;
  }
  if (precise) { std::map<uint32_t, u128> mm2; bool hard = false; for (auto* x : cs2) hard |= x->hard; if (hard) { r = rawSolve(cs2, true, mm2); if (r == Res::Sat) { model = compose(mm2); if (checked) *checked = checkModel(model); } } }
  return r;
}
