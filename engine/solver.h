#pragma once
#include <memory>

#include "expr.h"

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, external = 0, finite = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats gSolverStats;

// Check satisfiability of (sliced path constraints) /\ extra.  On Sat *model is
// updated on the symbols of the slice (it must satisfy pc beforehand).
Res solverCheck(const std::vector<Expr*>& pc, Expr* extra, Model* model,
                unsigned timeoutMs);
void solverInit(unsigned softTimeoutMs, const std::string& scratch, unsigned extTimeoutS);
std::string dumpSmt2(const std::vector<Expr*>& cs);
