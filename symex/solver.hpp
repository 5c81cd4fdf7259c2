#pragma once
#include "expr.hpp"
enum Sat { UNSAT, SAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, domainHits = 0, modelHits = 0; double secs = 0, maxSecs = 0; };
extern SolverStats g_sstat;
extern unsigned g_queryTimeoutMs;
// Is conj(cs) satisfiable?  On SAT, fills values for the variables involved.
Sat solve(const std::vector<Expr *> &cs, std::vector<std::pair<uint32_t, u128>> *model, unsigned timeoutMs = 0);
