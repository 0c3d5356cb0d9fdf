#pragma once
#include "expr.h"
#include <vector>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, usec = 0, fpq = 0; };
extern SolverStats g_sstats;
void solverInit(unsigned rlimit);
// Decide the conjunction of cs (plus the ranges of their symbols).  On Sat the
// symbols occurring in cs are overwritten in m.
Res solve(const std::vector<Expr *> &cs, Model &m);
// Confirms with z3 that a comparison the term rewriter decided (a op b == v) is
// so for every value of the symbols.
Res dischargeCmp(Op op, Expr *a, Expr *b, bool v);
std::string toSMT2(const std::vector<Expr *> &cs);
