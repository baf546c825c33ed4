#pragma once
#include "expr.hpp"
enum Res { R_UNSAT=0, R_SAT=1, R_UNKNOWN=2 };
struct SolverStats { u64 queries, sat, unsat, unknown, cachehits, modelhits, small; u64 time_us; };
extern SolverStats *sstats;
extern std::vector<Expr*> pathc;      // path constraints
extern u64 solver_rlimit; extern bool g_inassert;
void addConstraint(Expr*e);            // current model must satisfy e afterwards (caller ensures)
Res solve(Expr*q, Model*out);         // pathc && q ; on SAT out = full model
void setModel(const Model&m);
std::string dumpModel();
