// Reference model of a solver: the list of its constraints and what each one asks for.
#ifndef SIM_MODEL_HH
#define SIM_MODEL_HH
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/solver/by-substitution.hh>
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include <functional>
#include <memory>

#include "h/world.hh"

namespace sim {
typedef solver::BySubstitution BS;
typedef solver::HierarchicalIterative HI;

// right hand side as a function of time: base function seen through successive intervals
struct TimeDesc {
  std::shared_ptr<TimeFn> fn;
  DifferentiableFunctionPtr_t given;  // what the constraint was given
  std::vector<std::pair<double, bool> > chain;  // start, reversed; in order of extraction
  double param(double s) const {
    for (size_t i = chain.size(); i-- > 0;) s = chain[i].second ? chain[i].first - s : chain[i].first + s;
    return s;
  }
};
struct Entry {
  int item = -1;          // index in the world
  ImplicitPtr_t c;        // object inside the solver
  size_t prio = 0;
  bool expl = false;      // handled explicitly
  vector_t rhs;           // element of the output space of the (implicit) function
  bool hasTime = false;
  TimeDesc time;
};
struct Model {
  const World* w = nullptr;
  bool bs = true;
  std::vector<Entry> entries;
  double thr = 1e-4, ineq = 0;
  long maxIter = 20;
  bool lastOpt = false, lbl = false;
  int sat = 0;            // 0 none, 1 bounds
  std::vector<char> freeV;  // per velocity variable
  bool userFree = false;

  enum AddResult { Added, Refused, Throws };
  AddResult predictAdd(int item, bool& asExplicit) const;
  void doAdd(int item, const ImplicitPtr_t& c, size_t prio, bool asExplicit);
  void resetImplicitRhs();
  size_t stacks() const;
  bool optional(const Entry& e) const { return lastOpt && !e.expl && e.prio + 1 == stacks(); }
  const Item& it(const Entry& e) const { return w->items[(size_t)e.item]; }
  bool anyExplicit() const { for (auto& e : entries) if (e.expl) return true; return false; }
  // residual of one constraint at q before comparison: f(q) - rhs, masked
  vector_t raw(const Entry& e, const Configuration_t& q) const;
  // after comparison
  vector_t error(const Entry& e, const Configuration_t& q) const;
  // largest squared norm over the non optional (or explicit only / implicit only) constraints; NaN counts as infinite
  double maxError2(const Configuration_t& q, bool implicit = true, bool expl = true) const;
  double cost(const Configuration_t& q) const;  // squared error of the last level
  // solves the explicit constraints; throws FunctionNotDefinedForThisValue
  Configuration_t explicitSolve(const Configuration_t& q) const;
  std::vector<char> outQ() const, outV() const;
  std::vector<char> freeMask() const;  // per velocity variable
  // where a function is known not to be defined
  bool undefinedAt(const Configuration_t& q, bool& isNan) const;
  long implicitDim() const, explicitDim() const;
  long reducedDim() const;
  // entries in the order of the stacked vectors: by level, then explicit ones
  std::vector<int> stackedOrder() const;
  vector_t stackedRhs() const;
  // derivative of the active rows of the implicit constraints with respect to the free
  // velocities, explicit outputs following; by finite differences
  matrix_t reducedJacobian(const Configuration_t& q, bool nonOptionalOnly) const;
};
vector_t rhsOfConfig(const World& w, const Entry& e, const Configuration_t& q);
vector_t clampToBounds(const World& w, const Configuration_t& q);
inline const SimFn* simFnOf(const Item& it) {
  if (!it.e) return nullptr;
  DifferentiableFunctionPtr_t f(it.e->explicitFunction());
  if (DifferentiableFunctionSetPtr_t st = HPP_DYNAMIC_PTR_CAST(DifferentiableFunctionSet, f))
    for (auto& g : st->functions()) {  // the one that may be undefined, if any
      f = g;
      const SimFn* s = dynamic_cast<const SimFn*>(g.get());
      if (s && s->s.badCoord >= 0) break;
    }
  return dynamic_cast<const SimFn*>(f.get());
}

struct Slot {
  std::shared_ptr<BS> b;
  std::shared_ptr<HI> h;
  Model m;
  bool tainted = false;  // its constraint objects were changed behind its back
  Configuration_t lastQ;
  bool hasLast = false;
  explicit operator bool() const { return b || h; }
  HI& base() const { return b ? static_cast<HI&>(*b) : *h; }
};
template <class F>
auto with(const Slot& s, F f) -> decltype(f(*s.b)) { if (s.b) return f(*s.b); return f(*s.h); }

// answers of a solver, with names
struct Answers {
  std::vector<std::pair<std::string, double> > v;
  void add(const std::string& n, double x) { v.push_back({n, x}); }
  void add(const std::string& n, const vector_t& x) { for (long i = 0; i < x.size(); ++i) v.push_back({n, x[i]}); }
};
// empty when equal within tol, otherwise the first difference
std::string diffAnswers(const Answers& a, const Answers& b, double tol);
enum { A_STRUCT = 1, A_RHS = 2, A_SAT = 4, A_SOLVE = 8, A_KERNEL = 16, A_TIME = 32, A_ALL = 63 };
Answers answers(const Slot& s, u64 seed, int what = A_ALL);

HI::Status solveSlot(const Slot& s, Configuration_t& q, int ls, bool optimize);
std::shared_ptr<solver::saturation::Base> makeSaturation(const World& w, int kind);
void applyOptions(const Slot& s);
// a solver built from nothing out of the model, constraints added in the given order
Slot buildFresh(const Model& m, const std::vector<int>& order, bool setRhs);
std::vector<int> identityOrder(size_t n);
}  // namespace sim
#endif
