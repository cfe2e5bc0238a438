// Solver stack: finite-domain byte reasoning, constraint slicing, query cache, Z3.
#pragma once
#include "expr.h"
#include <array>
#include <memory>
#include <unordered_set>

namespace kpx {

typedef std::array<uint64_t, 4> Dom;   // 256-bit set

struct PathCond {
  std::vector<Expr *> cons;                                   // conjuncts
  std::vector<std::pair<uint32_t, Dom>> dom;                  // sorted by var
  std::vector<uint32_t> multi;                                // sorted: vars in multi-var conjuncts
  std::shared_ptr<Model> model;                               // satisfies cons
  bool isMulti(uint32_t v) const;
  const Dom *getDom(uint32_t v) const;
  void setModel(uint32_t var, uint64_t val);
};

enum class Tri { False, True, Unknown };
enum class Feas { Infeasible, Feasible, Unknown };

struct SolverStats {
  uint64_t guessed = 0, decided_struct = 0, decided_dom = 0, z3_queries = 0, z3_sat = 0, z3_unsat = 0, z3_unknown = 0,
           cache_hits = 0, crosschecked = 0, crosscheck_bad = 0;
  double z3_time = 0, z3_max = 0;
};
extern SolverStats gStats;
extern bool gCrossCheck;
extern unsigned gZ3TimeoutMs;
extern double gDeadline;   // absolute seconds
double nowSec();

// is cond satisfiable together with pc?  On Feasible, *out (if non-null) is a model of pc && cond.
Feas feasible(const PathCond &pc, Expr *cond, std::shared_ptr<Model> *out);
void addConstraint(PathCond &pc, Expr *cond);   // caller guarantees pc.model satisfies or replaces it
void solverInit();
bool inDomainTable(Expr *cond, Dom &d);  // truth set if cond depends on one <=8 bit variable
}
