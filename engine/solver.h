// zse - SMT back end (z3 C API): constraint slicing, model reuse, query statistics
#pragma once
#include "expr.h"
#include <functional>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
	u64 queries = 0;      // queries that reached z3
	u64 sat = 0, unsat = 0, unknown = 0;
	u64 cacheHits = 0;    // answered from the query cache
	u64 modelHits = 0;    // answered by re-using a previous model
	double time = 0;
	double maxTime = 0;
};

struct Solver {
	SolverStats stats;
	unsigned timeoutMs = 20000;
	Solver();
	// Is  AND(cs) AND q  satisfiable?  cs is known satisfiable (by base).  On Sat, out = base with the symbols of the
	// relevant slice replaced by the satisfying values.
	Res check(std::vector<Expr*> const& cs, Expr* q, Model const& base, Model& out);
private:
	struct Impl;
	Impl* im;
};
