#pragma once
#include "expr.h"
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, bvCalls = 0, intCalls = 0, fpCalls = 0, cvc5Calls = 0, guessed = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
struct SolverCfg { unsigned timeoutMs = 30000; bool verbose = false; std::string dumpDir; };
extern SolverCfg g_scfg;
// Is pc /\ cond satisfiable?  pc is assumed satisfiable with model `base`; on SAT, out := base updated on the slice.
Res solve(const std::vector<E> &pc, E cond, const Model &base, Model &out);
