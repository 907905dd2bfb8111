#include "h/model.hh"

#include <algorithm>
#include <cmath>
#include <hpp/constraints/solver/impl/by-substitution.hh>
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include <queue>

namespace sim {
namespace ls = solver::lineSearch;

static vector_t segs(const Configuration_t& q, const segments_t& s) {
  long n = 0;
  for (auto& x : s) n += x.second;
  vector_t r(n);
  n = 0;
  for (auto& x : s) { r.segment(n, x.second) = q.segment(x.first, x.second); n += x.second; }
  return r;
}

size_t Model::stacks() const {
  size_t n = 0;
  for (auto& e : entries) if (!e.expl) n = std::max(n, e.prio + 1);
  return n;
}
std::vector<char> Model::outQ() const {
  std::vector<char> o((size_t)w->space.nq, 0);
  for (auto& e : entries) if (e.expl) for (auto& s : it(e).outConf) for (long i = 0; i < s.second; ++i) o[(size_t)(s.first + i)] = 1;
  return o;
}
std::vector<char> Model::outV() const {
  std::vector<char> o((size_t)w->space.nv, 0);
  for (auto& e : entries) if (e.expl) for (auto& s : it(e).outVel) for (long i = 0; i < s.second; ++i) o[(size_t)(s.first + i)] = 1;
  return o;
}
std::vector<char> Model::freeMask() const {
  if (userFree) return freeV;
  std::vector<char> f((size_t)w->space.nv, 1), o(outV());
  if (bs) for (size_t i = 0; i < f.size(); ++i) if (o[i]) f[i] = 0;
  return f;
}

Model::AddResult Model::predictAdd(int item, bool& asExplicit) const {
  const Item& n = w->items[(size_t)item];
  asExplicit = false;
  if (bs) {
    for (auto& e : entries) if (it(e).cid == n.cid) return Refused;
    if (n.e) {
      if (n.malformed) return Throws;
      bool ok = true;
      for (auto c : n.comp) if (c != Equality && c != EqualToZero) ok = false;
      std::vector<char> out(outQ());
      for (auto& s : n.outConf) for (long i = 0; i < s.second; ++i) if (out[(size_t)(s.first + i)]) ok = false;
      if (ok) {
        // does an input depend on one of the new outputs?
        std::vector<char> seen((size_t)w->space.nq, 0);
        std::queue<long> todo;
        auto push = [&](const segments_t& ss) { for (auto& s : ss) for (long i = 0; i < s.second; ++i) todo.push(s.first + i); };
        push(n.inConf);
        while (!todo.empty() && ok) {
          long i = todo.front();
          todo.pop();
          if (seen[(size_t)i]) continue;
          seen[(size_t)i] = 1;
          for (auto& s : n.outConf) if (i >= s.first && i < s.first + s.second) ok = false;
          for (auto& e : entries)
            if (e.expl)
              for (auto& s : it(e).outConf) if (i >= s.first && i < s.first + s.second) push(it(e).inConf);
        }
      }
      if (ok) { asExplicit = true; return Added; }
    }
  }
  for (auto& e : entries) if (!e.expl && it(e).fid == n.fid) return Throws;
  return Added;
}
void Model::resetImplicitRhs() {
  for (auto& e : entries) if (!e.expl) e.rhs = e.c->function().outputSpace()->neutral().vector();
}
void Model::doAdd(int item, const ImplicitPtr_t& c, size_t prio, bool asExplicit) {
  Entry e;
  e.item = item;
  e.c = c;
  e.prio = asExplicit ? 0 : prio;
  e.expl = asExplicit;
  e.rhs = c->function().outputSpace()->neutral().vector();
  entries.push_back(e);
  if (asExplicit) userFree = false;
  resetImplicitRhs();
}

static LiegroupElement explicitValue(const Item& it, const Configuration_t& q) {
  vector_t qin(segs(q, it.inConf));
  Quiet quiet;
  LiegroupElement e(it.e->explicitFunction()->outputSpace());
  it.e->explicitFunction()->value(e, qin);
  return e;
}
static vector_t implicitValue(const Item& it, const ImplicitPtr_t& c, const Configuration_t& q) {
  if (simFnOf(it)) {
    LiegroupElement f(explicitValue(it, q));
    return minusEl(f.space(), segs(q, it.outConf), f.vector());
  }
  return evalFn(c->function(), q);
}
vector_t Model::raw(const Entry& e, const Configuration_t& q) const {
  const Item& n = it(e);
  vector_t f(implicitValue(n, e.c, q)), r;
  LiegroupSpacePtr_t sp(e.c->function().outputSpace());
  if (simFnOf(n) || sp->isVectorSpace()) r = f - e.rhs;
  else r = minusEl(sp, f, e.rhs);
  for (long i = 0; i < r.size(); ++i) if (!n.mask[(size_t)i]) r[i] = 0;
  return r;
}
vector_t Model::error(const Entry& e, const Configuration_t& q) const {
  vector_t r(raw(e, q));
  const Item& n = it(e);
  for (long i = 0; i < r.size(); ++i) {
    ComparisonType c = n.comp[(size_t)i];
    if (c == Superior) { if (!std::isnan(r[i])) r[i] = r[i] < ineq ? r[i] - ineq : 0; }
    else if (c == Inferior) { if (!std::isnan(r[i])) r[i] = r[i] > -ineq ? r[i] + ineq : 0; }
    if (!n.mask[(size_t)i]) r[i] = 0;
  }
  return r;
}
double Model::maxError2(const Configuration_t& q, bool imp, bool exp) const {
  double m = 0;
  for (auto& e : entries) {
    if (optional(e)) continue;
    if (e.expl ? !exp : !imp) continue;
    double n = error(e, q).squaredNorm();
    if (std::isnan(n)) return HUGE_VAL;
    m = std::max(m, n);
  }
  return m;
}
double Model::cost(const Configuration_t& q) const {
  double c = 0;
  for (auto& e : entries) if (!e.expl && e.prio + 1 == stacks()) c += error(e, q).squaredNorm();
  return c;
}
Configuration_t Model::explicitSolve(const Configuration_t& q0) const {
  Configuration_t q(q0);
  std::vector<char> done(entries.size(), 0);
  size_t left = 0;
  for (auto& e : entries) if (e.expl) ++left;
  while (left) {
    bool any = false;
    for (size_t k = 0; k < entries.size(); ++k) {
      const Entry& e = entries[k];
      if (!e.expl || done[k]) continue;
      bool ready = true;
      for (size_t j = 0; j < entries.size() && ready; ++j) {
        if (j == k || !entries[j].expl || done[j]) continue;
        for (auto& a : it(e).inConf)
          for (auto& b : it(entries[j]).outConf)
            if (a.first < b.first + b.second && b.first < a.first + a.second) ready = false;
      }
      if (!ready) continue;
      const Item& n = it(e);
      LiegroupElement f(n.e->explicitFunction()->outputSpace());
      if (simFnOf(n)) {
        f = explicitValue(n, q);
        f += e.rhs;
      } else {
        Quiet quiet;
        LiegroupElement r(e.rhs, e.c->function().outputSpace());
        n.e->outputValue(f, segs(q, n.inConf), r);
      }
      long o = 0;
      for (auto& s : n.outConf) { q.segment(s.first, s.second) = f.vector().segment(o, s.second); o += s.second; }
      done[k] = 1;
      --left;
      any = true;
    }
    if (!any) fail("model", "the reference model contains a cycle of explicit constraints");
  }
  return q;
}
bool Model::undefinedAt(const Configuration_t& q, bool& isNan) const {
  isNan = false;
  bool undef = false;
  for (auto& e : entries) {
    const Item& n = it(e);
    if (!n.hasBad) continue;
    if (const SimFn* f = simFnOf(n)) {
      if (f->bad(segs(q, n.inConf))) undef = true;
    } else if (const SimFn* g = dynamic_cast<const SimFn*>(&e.c->function())) {
      if (g->bad(q)) isNan = true;
    }
  }
  return undef;
}
long Model::implicitDim() const {
  long n = 0;
  for (auto& e : entries) if (!e.expl) n += e.c->function().outputDerivativeSize();
  return n;
}
long Model::explicitDim() const {
  long n = 0;
  for (auto& e : entries) if (e.expl) n += e.c->function().outputDerivativeSize();
  return n;
}
long Model::reducedDim() const {
  // velocity variables that move when a free one moves
  std::vector<char> fr(freeMask()), moves(fr);
  if (bs) {
    std::vector<char> out(outV());
    // inputs of the explicit system: variables that are not outputs
    std::vector<char> dep((size_t)w->space.nv, 0);
    bool change = true;
    while (change) {
      change = false;
      for (auto& e : entries) {
        if (!e.expl) continue;
        bool d = false;
        for (auto& s : it(e).inVel)
          for (long i = 0; i < s.second; ++i) { size_t k = (size_t)(s.first + i); if (!out[k] || dep[k]) d = true; }
        if (d)
          for (auto& s : it(e).outVel)
            for (long i = 0; i < s.second; ++i) if (!dep[(size_t)(s.first + i)]) { dep[(size_t)(s.first + i)] = 1; change = true; }
      }
    }
    for (size_t i = 0; i < moves.size(); ++i) moves[i] = moves[i] || dep[i];
  }
  long n = 0;
  for (auto& e : entries) {
    if (e.expl) continue;
    bool act = false;
    const ArrayXb& a = e.c->function().activeDerivativeParameters();
    for (long i = 0; i < a.size(); ++i) act = act || (a[i] && moves[(size_t)i]);
    if (act) for (bool m : it(e).mask) n += m;
  }
  return n;
}
std::vector<int> Model::stackedOrder() const {
  std::vector<int> o;
  for (size_t p = 0; p < stacks(); ++p)
    for (size_t k = 0; k < entries.size(); ++k) if (!entries[k].expl && entries[k].prio == p) o.push_back((int)k);
  for (size_t k = 0; k < entries.size(); ++k) if (entries[k].expl) o.push_back((int)k);
  return o;
}
vector_t Model::stackedRhs() const {
  long n = 0;
  for (auto& e : entries) n += e.rhs.size();
  vector_t r(n);
  n = 0;
  for (int k : stackedOrder()) { r.segment(n, entries[(size_t)k].rhs.size()) = entries[(size_t)k].rhs; n += entries[(size_t)k].rhs.size(); }
  return r;
}
matrix_t Model::reducedJacobian(const Configuration_t& q, bool nonOptionalOnly) const {
  std::vector<char> fr(freeMask());
  std::vector<long> cols;
  for (size_t i = 0; i < fr.size(); ++i) if (fr[i]) cols.push_back((long)i);
  auto value = [&](const Configuration_t& x) {
    std::vector<double> v;
    for (auto& e : entries) {
      if (e.expl || (nonOptionalOnly && optional(e))) continue;
      vector_t r(raw(e, x));
      for (long i = 0; i < r.size(); ++i) if (it(e).mask[(size_t)i]) v.push_back(r[i]);
    }
    return vector_t(Eigen::Map<vector_t>(v.data(), (long)v.size()));
  };
  Configuration_t q0(explicitSolve(q));
  vector_t v0(value(q0));
  matrix_t J(v0.size(), (long)cols.size());
  const double h = 1e-6;
  for (size_t k = 0; k < cols.size(); ++k) {
    vector_t d(vector_t::Zero(w->space.nv));
    d[cols[k]] = h;
    vector_t p(value(explicitSolve(integrateConf(w->space, q0, d))));
    d[cols[k]] = -h;
    vector_t m(value(explicitSolve(integrateConf(w->space, q0, d))));
    J.col((long)k) = (p - m) / (2 * h);
  }
  return J;
}
vector_t rhsOfConfig(const World& w, const Entry& e, const Configuration_t& q) {
  const Item& n = w.items[(size_t)e.item];
  vector_t f(implicitValue(n, e.c, q));
  LiegroupSpacePtr_t sp(e.c->function().outputSpace());
  vector_t l(sp->isVectorSpace() ? f : minusEl(sp, f, sp->neutral().vector()));
  for (long i = 0; i < l.size(); ++i) if (n.comp[(size_t)i] != Equality) l[i] = 0;
  return sp->isVectorSpace() ? l : vector_t(sp->exp(l).vector());
}
vector_t clampToBounds(const World& w, const Configuration_t& q) {
  vector_t r(q);
  for (long i = 0; i < r.size(); ++i) r[i] = std::min(std::max(r[i], w.lb[i]), w.ub[i]);
  return r;
}

// ---------------------------------------------------------------- driving a solver
HI::Status solveSlot(const Slot& s, Configuration_t& q, int l, bool optimize) {
  if (s.b) switch (l) {
      case 0: return s.b->solve(q, optimize, ls::Constant());
      case 1: return s.b->solve(q, optimize, ls::Backtracking());
      case 2: return s.b->solve(q, optimize, ls::FixedSequence());
      default: return s.b->solve(q, optimize, ls::ErrorNormBased());
    }
  switch (l) {
    case 0: return s.h->solve(q, ls::Constant());
    case 1: return s.h->solve(q, ls::Backtracking());
    case 2: return s.h->solve(q, ls::FixedSequence());
    default: return s.h->solve(q, ls::ErrorNormBased());
  }
}
std::shared_ptr<solver::saturation::Base> makeSaturation(const World& w, int kind) {
  if (kind == 0) return std::shared_ptr<solver::saturation::Base>(new solver::saturation::Base());
  if (kind == 2) return std::shared_ptr<solver::saturation::Base>(new solver::saturation::Device(w.robot));
  Eigen::VectorXi m(w.space.nq);
  for (auto& b : w.space.blocks)
    for (long j = 0; j < b.nq; ++j) m[b.iq + j] = (int)(b.iv + std::min(j, b.nv - 1));
  return std::shared_ptr<solver::saturation::Base>(new solver::saturation::Bounds(w.lb, w.ub, m));
}
void applyOptions(const Slot& s) {
  const Model& m = s.m;
  with(s, [&](auto& x) {
    x.errorThreshold(m.thr);
    x.inequalityThreshold(m.ineq);
    x.maxIterations(m.maxIter);
    x.lastIsOptional(m.lastOpt);
    x.solveLevelByLevel(m.lbl);
    x.saturation(makeSaturation(*m.w, m.sat));
    return 0;
  });
}
std::vector<int> identityOrder(size_t n) {
  std::vector<int> o(n);
  for (size_t i = 0; i < n; ++i) o[i] = (int)i;
  return o;
}
static segments_t segmentsOf(const std::vector<char>& f) {
  segments_t s;
  for (size_t i = 0; i < f.size();) {
    if (!f[i]) { ++i; continue; }
    size_t j = i;
    while (j < f.size() && f[j]) ++j;
    s.push_back(segment_t((long)i, (long)(j - i)));
    i = j;
  }
  return s;
}
Slot buildFresh(const Model& m, const std::vector<int>& order, bool setRhs) {
  Slot f;
  f.m.w = m.w;
  f.m.bs = m.bs;
  if (m.bs) f.b.reset(new BS(m.w->space.sp));
  else f.h.reset(new HI(m.w->space.sp));
  for (int k : order) {
    const Entry& e = m.entries[(size_t)k];
    ImplicitPtr_t c(m.it(e).c->copy());
    bool asExplicit;
    Model::AddResult r = f.m.predictAdd(e.item, asExplicit);
    if (r == Model::Refused) fail("model", "the reference model holds a constraint twice");
    if (r == Model::Throws) continue;
    with(f, [&](auto& x) { x.add(c, e.prio); return 0; });
    f.m.doAdd(e.item, c, e.prio, asExplicit);
    if (e.hasTime) {
      f.m.entries.back().hasTime = true;
      f.m.entries.back().time = e.time;
      c->rightHandSideFunction(e.c->rightHandSideFunction());
    }
  }
  if (m.userFree) {
    f.m.userFree = true;
    f.m.freeV = m.freeV;
    f.base().freeVariables(segmentsOf(m.freeV));
  }
  f.m.thr = m.thr; f.m.ineq = m.ineq; f.m.maxIter = m.maxIter; f.m.lastOpt = m.lastOpt; f.m.lbl = m.lbl; f.m.sat = m.sat;
  applyOptions(f);
  if (setRhs)
    for (size_t i = 0; i < order.size() && i < f.m.entries.size(); ++i) {
      Entry& e = f.m.entries[i];
      const Entry* src = nullptr;
      for (auto& x : m.entries) if (x.item == e.item && m.it(x).cid == f.m.it(e).cid) src = &x;
      if (!src) continue;
      e.rhs = src->rhs;
      if (e.c->parameterSize() != 0)
        with(f, [&](auto& x) { return x.rightHandSide(e.c, e.rhs); });
    }
  return f;
}

std::string diffAnswers(const Answers& a, const Answers& b, double tol) {
  for (size_t i = 0; i < a.v.size() && i < b.v.size(); ++i) {
    if (a.v[i].first != b.v[i].first) return "\"" + a.v[i].first + "\" against \"" + b.v[i].first + "\"";
    double x = a.v[i].second, y = b.v[i].second;
    if (x == y || (std::isnan(x) && std::isnan(y))) continue;
    if (std::abs(x - y) <= tol * (1 + std::abs(x))) continue;
    char buf[400];
    snprintf(buf, sizeof buf, "%s: %.12g against %.12g", a.v[i].first.c_str(), x, y);
    return buf;
  }
  if (a.v.size() != b.v.size()) return "number of answers: " + std::to_string(a.v.size()) + " against " + std::to_string(b.v.size());
  return "";
}

// codes of exceptions
template <class F>
static int guarded(F f) {
  try { f(); return 0; }
  catch (const FunctionNotDefinedForThisValue&) { return 1; }
  catch (const std::logic_error&) { return 2; }
}
Answers answers(const Slot& s, u64 seed, int what) {
  Answers A;
  const World& w = *s.m.w;
  HI& hi = s.base();
  Rng r(mix(seed ^ 0xf1a9));
  std::vector<ImplicitPtr_t> cs(hi.constraints().begin(), hi.constraints().end());
  if (what & A_STRUCT) {
    A.add("dimension", (double)hi.dimension());
    A.add("reduced dimension", (double)hi.reducedDimension());
    A.add("number of levels", (double)hi.numberStacks());
    A.add("number of constraints", (double)cs.size());
    for (size_t i = 0; i < cs.size(); ++i) {
      A.add("size of constraint " + std::to_string(i), (double)cs[i]->function().outputSize());
      A.add("parameter size of constraint " + std::to_string(i), (double)cs[i]->parameterSize());
      for (auto c : cs[i]->comparisonType()) A.add("comparison type of constraint " + std::to_string(i), (double)c);
      for (auto c : cs[i]->activeRows()) { A.add("active rows of constraint " + std::to_string(i), (double)c.first); A.add("active rows", (double)c.second); }
    }
    for (size_t p = 0; p < hi.numberStacks(); ++p) {
      A.add("constraints of level " + std::to_string(p), (double)hi.constraints(p).constraints().size());
    }
    for (auto& seg : hi.freeVariables().indices()) { A.add("free variables", (double)seg.first); A.add("free variables", (double)seg.second); }
    A.add("maximum iterations", (double)hi.maxIterations());
    A.add("inequality threshold", hi.inequalityThreshold());
    with(s, [&](auto& x) { A.add("error threshold", x.errorThreshold()); return 0; });
    A.add("last is optional", hi.lastIsOptional());
    A.add("level by level", hi.solveLevelByLevel());
    ArrayXb ap(hi.activeParameters()), ad(hi.activeDerivativeParameters());
    for (long i = 0; i < ap.size(); ++i) A.add("active parameters", ap[i]);
    for (long i = 0; i < ad.size(); ++i) A.add("active derivative parameters", ad[i]);
    for (size_t i = 0; i < w.items.size(); ++i) A.add("contains item " + std::to_string(i), hi.contains(w.items[i].c));
    if (s.b) {
      A.add("error size", (double)s.b->errorSize());
      A.add("number of free variables", (double)s.b->numberFreeVariables());
      A.add("explicit error threshold", s.b->explicitConstraintSet().errorThreshold());
      for (auto& seg : s.b->implicitDof()) { A.add("implicit dof", (double)seg.first); A.add("implicit dof", (double)seg.second); }
      for (auto& seg : s.b->explicitConstraintSet().outArgs().indices()) { A.add("explicit outputs", (double)seg.first); A.add("explicit outputs", (double)seg.second); }
      for (auto& seg : s.b->explicitConstraintSet().inArgs().indices()) { A.add("explicit inputs", (double)seg.first); A.add("explicit inputs", (double)seg.second); }
    }
  }
  if (what & A_RHS) {
    with(s, [&](auto& x) {
      A.add("size of the right hand side", (double)x.rightHandSideSize());
      A.add("right hand side", x.rightHandSide());
      for (size_t i = 0; i < cs.size(); ++i) {
        vector_t v(vector_t::Zero(cs[i]->function().outputSize()));
        A.add("constraint found", x.getRightHandSide(cs[i], v));
        A.add("right hand side of constraint " + std::to_string(i), v);
      }
      return 0;
    });
  }
  std::vector<Configuration_t> probes;
  probes.push_back(w.qStar);
  probes.push_back(perturb(w.space, w.qStar, r, 0.05));
  probes.push_back(perturb(w.space, w.qStar, r, 0.8));
  if (what & A_SAT)
    for (size_t p = 0; p < probes.size(); ++p) {
      std::string n = " at probe " + std::to_string(p);
      const Configuration_t& q = probes[p];
      with(s, [&](auto& x) {
        bool sat = false;
        int e = guarded([&] { sat = x.isSatisfied(q); });
        A.add("exception of isSatisfied" + n, e);
        A.add("satisfied" + n, sat);
        if (!e) {
          vector_t err(vector_t::Zero(x.dimension()));
          x.residualError(err);
          A.add("residual error" + n, err);
          A.add("squared error" + n, x.residualError());
        }
        e = guarded([&] { x.template computeValue<true>(q); });
        A.add("exception of computeValue" + n, e);
        if (!e) {
          HI& hi = s.base();
          long rows = 0;
          for (size_t l = 0; l < hi.numberStacks(); ++l) rows += (long)hi.constraints(l).function().outputSize();
          vector_t v(vector_t::Constant(rows, 7)), jac;
          hi.getValue(v);
          A.add("values" + n, v);
          matrix_t J(matrix_t::Constant(hi.reducedDimension(), Eigen::BlockIndex::cardinal(hi.freeVariables().indices()), 7));
          hi.getReducedJacobian(J);
          A.add("reduced Jacobian" + n, vector_t(Eigen::Map<vector_t>(J.data(), J.size())));
        }
        double t = s.m.thr * 10;
        e = guarded([&] { sat = x.isSatisfied(q, t); });
        if (!e) A.add("satisfied within another threshold" + n, sat);
        for (size_t i = 0; i < cs.size(); ++i) {
          vector_t err(vector_t::Zero(cs[i]->function().outputDerivativeSize()));
          bool found = false, ok = false;
          e = guarded([&] { ok = x.isConstraintSatisfied(cs[i], q, err, found); });
          A.add("exception of isConstraintSatisfied" + n, e);
          if (e) continue;
          A.add("constraint " + std::to_string(i) + " found" + n, found);
          A.add("constraint " + std::to_string(i) + " satisfied" + n, ok);
          A.add("error of constraint " + std::to_string(i) + n, err);
        }
        return 0;
      });
      if (s.b) {
        vector_t err(vector_t::Zero(s.b->dimension() + s.b->explicitConstraintSet().errorSize()));
        bool sat = false;
        int e = guarded([&] { sat = s.b->isSatisfied(q, vectorOut_t(err)); });
        A.add("exception of isSatisfied with error" + n, e);
        if (!e) { A.add("satisfied (with error)" + n, sat); A.add("error" + n, err); }
      }
    }
  if (what & A_SOLVE)
    for (int p = 1; p < 3; ++p) {
      Configuration_t q(clampToBounds(w, probes[(size_t)p]));
      int l = (int)r.below(4);
      bool opt = r.chance(.3);
      int st = -1;
      int e = guarded([&] { st = solveSlot(s, q, l, opt); });
      std::string n = " of solve " + std::to_string(p) + " (line search " + std::to_string(l) + (opt ? ", optimising)" : ")");
      A.add("exception" + n, e);
      A.add("status" + n, st);
      A.add("result" + n, q);
    }
  if ((what & A_KERNEL) && s.b) {
    Configuration_t q(perturb(w.space, w.qStar, r, 0.1));
    vector_t v(randomVelocity(w.space.nv, r, 1)), res(vector_t::Zero(w.space.nv));
    int e = guarded([&] { s.b->explicitConstraintSet().solve(q); s.b->projectVectorOnKernel(q, v, res); });
    A.add("exception of projectVectorOnKernel", e);
    if (!e) A.add("projected velocity", res);
    Configuration_t to(perturb(w.space, q, r, 0.1)), out(to);
    e = guarded([&] { s.b->projectOnKernel(q, to, out); });
    if (!e) A.add("projected configuration", out);
    Configuration_t one(q);
    ls::Constant c;
    bool ok = false;
    if (hi.numberStacks() && hi.reducedDimension()) {
      e = guarded([&] { ok = s.b->oneStep(one, c); });
      A.add("exception of one step", e);
      A.add("one step ends satisfied", ok);
      A.add("result of one step", one);
    }
  }
  if (trace)
    for (auto& x : A.v) logv(x.first.c_str(), &x.second, 1);
  return A;
}
}  // namespace sim
