#pragma once
#include "expr.h"
#include <memory>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, preciseCalls = 0, unknown = 0, external = 0, preciseUnknown = 0; double time = 0; };
extern SolverStats g_sstats;
struct SolverOpts { unsigned timeoutMs = 4000; unsigned hardTimeoutMs = 60000; };
extern SolverOpts g_sopts;
// Is pc /\ c satisfiable? With precise=false floating point operations and libm functions are
// uninterpreted (over-approximation: Unsat is final, Sat may be spurious).
// With precise=true a Sat answer comes with a model that was re-evaluated on the host.
Res solve(std::vector<Expr*> const& pc, Expr* c, Assignment const* base, Assignment& model, bool precise, bool* modelChecked);
