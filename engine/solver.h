#pragma once
#include "expr.h"
enum SatRes { UNSAT=0, SAT=1, UNKNOWN=2 };
// Is  /\cons /\ extra  satisfiable?  cons are sliced by shared variables first.
// On SAT, out = base model updated with the values for the sliced variables.
SatRes solveSliced(const std::vector<Expr*>& cons, Expr* extra, const std::vector<u64>& base, std::vector<u64>& out, bool nocache=false);
extern u64 s_queries, s_sat, s_unsat, s_unknown, s_ns, s_cachehits, s_smallq; extern bool g_assertq;
extern unsigned long g_rlimit;
extern double g_slowlog;
