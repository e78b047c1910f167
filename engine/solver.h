#ifndef VERIF_SOLVER_H_
#define VERIF_SOLVER_H_
#include <vector>
#include "expr.h"

enum SatResult { SAT, UNSAT, UNKNOWN };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0,
           modelHits = 0, real = 0;
  double seconds = 0, maxSeconds = 0;
};
extern SolverStats gSolver;
extern unsigned gQueryTimeoutMs;

// Is pc /\ q satisfiable?  On SAT, `model` is updated in place to a model of
// pc /\ q, provided it was a model of pc before.
extern unsigned gIncremental;  // queries per incremental solver, 0: off
SatResult checkSat(const std::vector<Expr*>& pc, Expr* q, ModelRef& model);
void initSolver();
#endif
