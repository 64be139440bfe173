#ifndef VFX_SOLVER_H_
#define VFX_SOLVER_H_
#include "expr.h"
#include <z3.h>
#include <map>
namespace vfx {
enum class Sat { Yes, No, Unknown };
struct SolverStats {
  u64 queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0;
  double time = 0, maxTime = 0;
};
class Solver {
 public:
  explicit Solver(unsigned timeoutMs);
  // Is pc /\ cond satisfiable?  base satisfies pc.  On Yes, out = base updated
  // so that it satisfies pc /\ cond.
  Sat check(const std::vector<const Expr*>& pc, const Expr* cond, const Assign& base, Assign& out);
  SolverStats stats;
  std::string dumpDir;
 private:
  Z3_ast toBool(const Expr* e);
  Z3_ast toBV(const Expr* e);
  Z3_ast toFP(const Expr* e);
  Z3_ast build(const Expr* e, bool asBool);
  Z3_context ctx_;
  Z3_solver inc_ = nullptr;
  std::unordered_map<const Expr*, Z3_ast> bv_, bool_, ind_;
  struct Entry { Sat r; std::vector<std::pair<unsigned, u64>> m; };
  std::unordered_map<std::string, Entry> cache_;
  unsigned timeoutMs_;
  Z3_ast indicator(const Expr* e);
  unsigned incCount_ = 0;
};
}  // namespace vfx
#endif
