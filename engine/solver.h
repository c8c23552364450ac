#pragma once
#include "expr.h"
#include <map>
#include <unordered_map>

struct SolverStats
{
    uint64_t queries = 0;     // questions put by the executor
    uint64_t trivial = 0;     // answered by simplification or the path's own model
    uint64_t cached = 0;
    uint64_t solved = 0;      // discharged by Z3
    uint64_t sat = 0, unsat = 0, unknown = 0;
    double seconds = 0;
    double maxSeconds = 0;
};
extern SolverStats gSolver;
extern unsigned gQueryTimeoutMs;

enum class Sat { Yes, No, Unknown };

// Is (cons && extra) satisfiable?  On Yes, `model` (a full assignment satisfying cons on entry) is updated so
// that it satisfies cons && extra.
Sat solverCheck(const std::vector<Ref>& cons, Ref extra, std::vector<uint64_t>& model);
