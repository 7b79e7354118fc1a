// SMT back end: bit-vector / floating-point queries over the expression DAG through the z3 C API.
#pragma once
#include <map>
#include <memory>
#include "expr.h"

namespace cse {
enum Res { SAT, UNSAT, UNKNOWN };
// persistent (shared) list of path constraints
struct PCNode {
  std::shared_ptr<PCNode> prev;
  Ex c;
  size_t depth;
  ~PCNode();
};
using PC = std::shared_ptr<PCNode>;
inline PC pcPush(const PC& p, const Ex& c) { auto n = std::make_shared<PCNode>(); n->prev = p; n->c = c; n->depth = p ? p->depth + 1 : 1; return n; }

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, domainDecided = 0, modelHits = 0, syntactic = 0, abstractRefuted = 0, refinements = 0, relaxed = 0, relaxedRefuted = 0;
  double seconds = 0, maxSeconds = 0;
};
extern SolverStats SS;
extern unsigned gQueryTimeoutMs;
extern bool gRelax;
// is pc && extra satisfiable?  base: a model of pc.  On SAT `out` is a model of pc && extra.
Res checkSat(const PC& pc, const Ex& extra, const Model& base, Model& out);
// replace a model that uses abstracted operation values by an exact one (UNSAT: pc && extra has no exact model)
Res exactify(const PC& pc, const Ex& extra, Model& m);
}  // namespace cse
