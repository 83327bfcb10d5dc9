// SMT back end: translation of terms to z3, query cache, statistics.
#pragma once
#include "term.h"
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, arithUnsat = 0, arithSat = 0, arithFix = 0, arithTry = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
// Is the conjunction satisfiable?  On SAT fills in values for the variables of the query.
// `cut`: terms to be treated as free variables (their structure is ignored).
Res solve(const TV &conj, std::unordered_map<uint32_t, APInt> *vals, unsigned timeoutMs,
          const std::unordered_map<Term *, bool> *cut = nullptr);
bool hasArith(Term *t);   // products or quotients of unknowns occur
extern unsigned g_queryTimeout;
extern double g_deadline;
double now();
