#pragma once
#include "expr.h"
#include <map>
enum class SR { Sat, Unsat, Unknown };
struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, domHits = 0, intervalHits = 0, guessHits = 0, z3Calls = 0, sat = 0, unsat = 0, unknown = 0, assertQueries = 0, assertUnsat = 0;
  double z3Time = 0, maxQuery = 0;
};
extern SolverStats g_sstats;
void solverReset();                 // after fork(): new context
void solverSetRlimit(uint64_t r);
void solverAbort();                 // from another thread: end the query under way and answer Unknown from now on
extern bool g_useDom;
// Is (conj of pc) && cond satisfiable?  pc is assumed satisfiable by itself.
// On Sat, `out` receives base model updated for the variables in the slice.
// isAssert: the verdict must come from z3 (no byte-domain shortcut for the answer).
SR solveCheck(const std::vector<E>& pc, E cond, const Model& base, ModelP& out, bool isAssert = false);
