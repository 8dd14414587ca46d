// SMT back end: emits SMT-LIB 2 to external solver processes.
#pragma once
#include "expr.hpp"
#include <chrono>
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, portfolio = 0; double time = 0; };
extern SolverStats gStats; extern std::function<int(E, mpq_class&, mpq_class&)> gBounds; // sound bounds of a transcendental term: bit 0 lower, bit 1 upper
extern double gDeadline; // absolute, seconds (steady clock)
double nowS();
// conjunction of the given Boolean terms
Res smtCheck(const std::vector<E>& conj, Model* model, int timeoutMs, bool portfolio = false);
void smtShutdown();
std::string smtText(const std::vector<E>& conj, bool wantModel); // stand-alone script
