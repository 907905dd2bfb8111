// Sets of explicit constraints: chains, cycles, order of additions, undefined functions (C11).
#include <algorithm>
#include <cmath>
#include <hpp/constraints/explicit-constraint-set.hh>

#include "common/robot.hh"
#include "h/model.hh"
#include "h/robot.hh"

#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include <hpp/constraints/solver/impl/by-substitution.hh>

namespace sim {
namespace {
template <class L> HI::Status solveWith(const BS& b, Configuration_t& q) { L l; return b.solve(q, false, l); }
struct Expl {
  const Plan& plan;
  World w;
  static const int NS = 3;
  struct S {
    std::shared_ptr<ExplicitConstraintSet> set;
    std::shared_ptr<BS> bs;
    Model m;              // accepted constraints, in order
    std::vector<int> refused;
  } s[NS];
  explicit Expl(const Plan& p) : plan(p) {
    WorldOpts o;
    o.badRegions = p.knob("bad", 1);
    o.inequalities = p.knob("ineq", 1);
    o.masks = false;
    o.lie = p.knob("lie", 1);
    o.twins = p.knob("twins", 1);
    o.malformed = p.knob("malformed", 0);
    o.smooth = p.knob("smooth", 0);
    o.consistent = p.knob("consistent", 0);
    o.explicitBias = .75;
    o.severalOutputs = p.knob("several", 0);
    o.contacts = p.knob("contacts", 0);
    long n = std::max<long>(1, p.knob("n_items", 6));
    w = p.knob("world_kind") ? makeRobotWorld((u64)p.knob("world"), n, o, true) : makeSynthetic((u64)p.knob("world"), n, o);
  }
  S* get(long a) {
    for (int k = 0; k < NS; ++k) { S& x = s[(a + k) % NS]; if (x.set) return &x; }
    return nullptr;
  }
  enum Out { OK, FAULT, UNDEF, LOGIC };
  u64 lies = 0, firedN = 0;
  template <class F>
  Out call(const Op& op, F f) {
    ctl.cap = 20000;
    armFault(op);
    Out r = OK;
    try { f(); }
    catch (const Violation&) { disarmFault(); throw; }
    catch (const FunctionNotDefinedForThisValue&) { r = UNDEF; }
    catch (const EvalFault&) { r = FAULT; }
    catch (const std::bad_alloc&) { r = FAULT; }
    catch (const std::logic_error&) { r = LOGIC; }
    firedN = ctl.firedCount;
    lies = ctl.lies;
    ctl.cap = 0;
    disarmFault();
    sigAdd((u64)r * 7 + (firedN ? 3 : 0));
    return r;
  }
  static double dist(const vector_t& a, const vector_t& b) { return a.size() ? (a - b).cwiseAbs().maxCoeff() : 0; }
  template <class B>
  std::vector<char> setOf(const B& idx, long n) {
    std::vector<char> r((size_t)n, 0);
    for (auto& g : idx) for (long i = 0; i < g.second; ++i) {
      SIM_CHECK(g.first + i >= 0 && g.first + i < n, "indices", "index %ld is out of range", (long)(g.first + i));
      SIM_CHECK(!r[(size_t)(g.first + i)], "indices", "index %ld appears twice", (long)(g.first + i));
      r[(size_t)(g.first + i)] = 1;
    }
    return r;
  }
  // everything that is advertised, against the accepted constraints
  void checkStructure(const ExplicitConstraintSet& e, const Model& m, const char* where) {
    ++res->nontrivial;
    const long nq = w.space.nq, nv = w.space.nv;
    std::vector<char> oq(m.outQ()), ov(m.outV()), iq((size_t)nq, 0), iv((size_t)nv, 0);
    long es = 0;
    for (auto& x : m.entries) {
      const Item& n = m.it(x);
      for (auto& g : n.inConf) for (long i = 0; i < g.second; ++i) iq[(size_t)(g.first + i)] = 1;
      for (auto& g : n.inVel) for (long i = 0; i < g.second; ++i) iv[(size_t)(g.first + i)] = 1;
      es += x.c->function().outputDerivativeSize();
    }
    std::vector<char> nq_(oq), nv_(ov);
    for (auto& c : nq_) c = !c;
    for (auto& c : nv_) c = !c;
    for (long i = 0; i < nq; ++i) if (oq[(size_t)i]) iq[(size_t)i] = 0;
    for (long i = 0; i < nv; ++i) if (ov[(size_t)i]) iv[(size_t)i] = 0;
    struct { const char* n; std::vector<char> got, want; } t[] = {
        {"outArgs", setOf(e.outArgs().indices(), nq), oq}, {"outDers", setOf(e.outDers().indices(), nv), ov},
        {"notOutArgs", setOf(e.notOutArgs().indices(), nq), nq_}, {"notOutDers", setOf(e.notOutDers().indices(), nv), nv_},
        {"inArgs", setOf(e.inArgs().indices(), nq), iq}, {"inDers", setOf(e.inDers().indices(), nv), iv},
        {"activeParameters", setOf(e.activeParameters().indices(), nq), iq},
        {"activeDerivativeParameters", setOf(e.activeDerivativeParameters().indices(), nv), iv}};
    for (auto& x : t)
      for (size_t i = 0; i < x.want.size(); ++i)
        SIM_CHECK(x.got[i] == x.want[i], "advertised", "%s: variable %zu is %sin %s", where, i, x.got[i] ? "" : "not ", x.n);
    SIM_CHECK(e.errorSize() == es, "advertised", "%s: error size %ld, should be %ld", where, (long)e.errorSize(), es);
    long rs = 0;
    for (auto& x : m.entries) rs += x.rhs.size();
    SIM_CHECK(e.rightHandSideSize() == rs, "advertised", "%s: right hand side size %ld, should be %ld", where, (long)e.rightHandSideSize(), rs);
    // which function computes which variable, and what it depends on in the end
    std::vector<int> by((size_t)nv, -1);
    for (size_t k = 0; k < m.entries.size(); ++k)
      for (auto& g : m.it(m.entries[k]).outVel) for (long i = 0; i < g.second; ++i) by[(size_t)(g.first + i)] = (int)k;
    for (long i = 0; i < nv; ++i)
      SIM_CHECK(e.derFunction()[i] == by[(size_t)i], "advertised", "%s: velocity variable %ld is computed by constraint %d, should be %d", where, i, e.derFunction()[i], by[(size_t)i]);
    if (m.entries.empty()) return;
    std::vector<std::vector<char> > dep(m.entries.size(), std::vector<char>((size_t)nv, 0));
    bool more = true;
    while (more) {
      more = false;
      for (size_t k = 0; k < m.entries.size(); ++k)
        for (auto& g : m.it(m.entries[k]).inVel)
          for (long i = 0; i < g.second; ++i) {
            size_t v = (size_t)(g.first + i);
            if (by[v] < 0) { if (!dep[k][v]) { dep[k][v] = 1; more = true; } }
            else for (size_t u = 0; u < (size_t)nv; ++u) if (dep[(size_t)by[v]][u] && !dep[k][u]) { dep[k][u] = 1; more = true; }
          }
    }
    const Eigen::MatrixXi& D(e.inOutDependencies());
    SIM_CHECK(D.rows() == (long)m.entries.size() && D.cols() == nv, "dependencies", "%s: dependency matrix is %ld x %ld", where, (long)D.rows(), (long)D.cols());
    for (size_t k = 0; k < m.entries.size(); ++k)
      for (long v = 0; v < nv; ++v)
        SIM_CHECK((D((long)k, v) > 0) == (bool)dep[k][(size_t)v], "dependencies", "%s: \"%s\" is reported %s on velocity variable %ld", where, m.it(m.entries[k]).label.c_str(), D((long)k, v) > 0 ? "to depend" : "not to depend", v);
    Eigen::MatrixXi F(e.inOutDofDependencies());
    std::vector<long> rows, cols;
    for (long v = 0; v < nv; ++v) { if (ov[(size_t)v]) rows.push_back(v); if (iv[(size_t)v]) cols.push_back(v); }
    if (!cols.empty()) {
      SIM_CHECK(F.rows() == (long)rows.size() && F.cols() == (long)cols.size(), "dependencies", "%s: dof dependency matrix is %ld x %ld", where, (long)F.rows(), (long)F.cols());
      for (size_t a = 0; a < rows.size(); ++a)
        for (size_t b = 0; b < cols.size(); ++b)
          SIM_CHECK((F((long)a, (long)b) > 0) == (bool)dep[(size_t)by[(size_t)rows[a]]][(size_t)cols[b]], "dependencies", "%s: velocity variable %ld is reported %s on %ld", where, rows[a], F((long)a, (long)b) > 0 ? "to depend" : "not to depend", cols[b]);
    }
    for (auto& x : m.entries) {
      vector_t r(vector_t::Zero(x.rhs.size()));
      SIM_CHECK(e.getRightHandSide(HPP_DYNAMIC_PTR_CAST(Explicit, x.c), r), "advertised", "%s: right hand side of \"%s\" not found", where, m.it(x).label.c_str());
      SIM_CHECK(dist(r, x.rhs) <= 1e-7, "right-hand-side", "%s: right hand side of \"%s\" is %s, should be %s", where, m.it(x).label.c_str(), vecStr(r).c_str(), vecStr(x.rhs).c_str());
    }
    for (size_t i = 0; i < w.items.size(); ++i) {
      if (!w.items[i].e) continue;
      bool has = false;
      for (auto& x : m.entries) if (m.it(x).fid == w.items[i].fid) has = true;
      SIM_CHECK(e.contains(w.items[i].e) == has, "contains", "%s: contains(\"%s\") answers %d", where, w.items[i].label.c_str(), !has);
    }
  }
  void opNew(const Op& op) {
    S& x = s[op.a % NS];
    x = S();
    x.set.reset(new ExplicitConstraintSet(w.space.sp));
    x.set->errorThreshold(1e-4);
    x.m.w = &w;
    x.m.bs = true;
    x.m.freeV.assign((size_t)w.space.nv, 1);
    x.m.thr = 1e-4;
    x.bs.reset(new BS(w.space.sp));
    x.bs->errorThreshold(1e-4);
    x.bs->maxIterations(15);
  }
  void opAdd(const Op& op) {
    S* x = get(op.a);
    if (!x) return;
    std::vector<int> ex;
    for (size_t i = 0; i < w.items.size(); ++i) if (w.items[i].e) ex.push_back((int)i);
    if (ex.empty()) return;
    int item = ex[(size_t)op.b % ex.size()];
    const Item& it = w.items[(size_t)item];
    bool asE;
    Model::AddResult pr = x->m.predictAdd(item, asE);
    // equal constraints compute the same outputs
    long before = (long)x->m.entries.size(), got = -7;
    ExplicitPtr_t c(HPP_DYNAMIC_PTR_CAST(Explicit, it.e->copy()));
    Out o = call(op, [&] { got = x->set->add(c); });
    logf("add \"%s\" -> %d %ld (expected %d %d)", it.label.c_str(), o, got, (int)pr, asE);
    sigAdd((u64)(got >= 0) * 3 + (u64)o);
    if (it.malformed) {
      SIM_CHECK(o == LOGIC, "accepted", "a constraint whose input and output overlap is not refused");
    } else if (pr == Model::Added && asE) {
      SIM_CHECK(o == OK && got == before, "refused", "\"%s\" makes no cycle and computes no output that is computed already, but add answers %ld (%d)", it.label.c_str(), got, o);
      x->m.doAdd(item, c, 0, true);
      SIM_PROBE("explicit constraint accepted");
    } else {
      SIM_CHECK(o == OK && got == -1, "accepted", "\"%s\" should be refused, but add answers %ld (%d)", it.label.c_str(), got, o);
      x->refused.push_back(item);
      SIM_PROBE("explicit constraint refused");
    }
    checkStructure(*x->set, x->m, "add");
    if (it.malformed) return;
    // the solver makes the same decision
    std::vector<char> outs(setOf(x->bs->explicitConstraintSet().outDers().indices(), w.space.nv));
    bool twin = false, ret = false;
    for (auto& e : x->bs->constraints()) if (*e == *it.c) twin = true;
    bool threw = false;
    try { ret = x->bs->add(it.e->copy(), 0); } catch (const std::logic_error&) { threw = true; }
    std::vector<char> outs2(setOf(x->bs->explicitConstraintSet().outDers().indices(), w.space.nv)), want(x->m.outV());
    for (size_t i = 0; i < want.size(); ++i)
      SIM_CHECK(outs2[i] == want[i], "solver", "after adding \"%s\" to a solver, velocity variable %zu is %sa variable computed by its explicit constraints", it.label.c_str(), i, outs2[i] ? "" : "not ");
    if (!twin && !threw) SIM_CHECK(ret, "solver", "a solver does not hold \"%s\"", it.label.c_str());
    if (!threw) SIM_CHECK(x->bs->contains(it.e), "solver", "a solver does not contain \"%s\"", it.label.c_str());
  }
  Configuration_t start(long how, Rng& r) { return how % 4 == 0 ? w.qStar : perturb(w.space, w.qStar, r, how % 4 == 1 ? .1 : (how % 4 == 2 ? .5 : 1.)); }
  void compareSolution(const Model& m, const Configuration_t& q0, const Configuration_t& q, const char* where) {
    std::vector<char> oq(m.outQ());
    for (long i = 0; i < q.size(); ++i)
      if (!oq[(size_t)i]) SIM_CHECK(q[i] == q0[i], "moved", "%s: variable %ld is no output and went from %.12g to %.12g", where, i, q0[i], q[i]);
    Configuration_t want(m.explicitSolve(q0));
    for (long i = 0; i < q.size(); ++i)
      SIM_CHECK(std::abs(q[i] - want[i]) <= 1e-9 * (1 + want.cwiseAbs().maxCoeff()), "output", "%s: variable %ld is %.12g, should be %.12g", where, i, q[i], want[i]);
  }
  void opSolve(const Op& op) {
    S* x = get(op.a);
    if (!x) return;
    Rng r(op.s);
    Configuration_t q0(start(op.b, r)), q(q0);
    Out o = call(op, [&] { x->set->solve(q); });
    logf("solve -> %d", o);
    logv("q", q.data(), q.size());
    ++res->steps;
    std::vector<char> oq(x->m.outQ());
    for (long i = 0; i < q.size(); ++i)
      if (!oq[(size_t)i]) SIM_CHECK(q[i] == q0[i], "moved", "solve: variable %ld is no output and went from %.12g to %.12g", i, q0[i], q[i]);
    bool undef = false;
    Configuration_t want;
    try { want = x->m.explicitSolve(q0); } catch (const FunctionNotDefinedForThisValue&) { undef = true; }
    if (lies) return;
    if (undef) {
      SIM_PROBE("a function was undefined");
      SIM_CHECK(o != OK, "undefined", "solve answers although a function is not defined there");
      if (!firedN) SIM_CHECK(o == UNDEF, "undefined", "solve ends with %d where a function is not defined", o);
      return;
    }
    if (!firedN) SIM_CHECK(o == OK, "undefined", "solve ends with %d though every function is defined there", o);
    if (o != OK) { SIM_PROBE("solve of explicit constraints aborted"); return; }
    compareSolution(x->m, q0, q, "solve");
    ++res->nontrivial;
    Configuration_t q2(q);
    x->set->solve(q2);
    SIM_CHECK(dist(q, q2) <= 1e-9 * (1 + q.cwiseAbs().maxCoeff()), "twice", "solving twice moves the configuration by %.6g", dist(q, q2));
    // the shapes of a contact are those that are closest to each other, others than asked for may be
    bool other = false;
    for (auto& e : x->m.entries) if (x->m.it(e).radius > 0) {
      double M = x->m.it(e).radius;
      vector_t v(x->m.raw(e, q));
      for (int k = 5; k < 7; ++k) if (std::floor(v[k] / (2 * M) + .5) != std::floor(e.rhs[k] / (2 * M) + .5)) other = true;
      if (!other) SIM_PROBE("explicit contact");
    }
    if (!other && q.cwiseAbs().maxCoeff() < 1e3 && x->m.entries.size()) {
      bool sat = x->set->isSatisfied(q);
      SIM_CHECK(sat, "not-satisfied", "the solution does not satisfy the constraints");
      SIM_PROBE("explicit constraints solved");
    }
  }
  void opSat(const Op& op) {
    S* x = get(op.a);
    if (!x) return;
    Rng r(op.s);
    Configuration_t q(start(op.b, r));
    bool nan;
    if (op.c % 2) { try { q = x->m.explicitSolve(q); } catch (const FunctionNotDefinedForThisValue&) { return; } }
    if (op.c % 4 == 1 && q.size()) q = perturb(w.space, q, r, 1e-4);
    bool un = x->m.undefinedAt(q, nan);
    vector_t er(vector_t::Zero(x->set->errorSize()));
    bool sat = false;
    Out o = call(op, [&] { sat = x->set->isSatisfied(q, vectorOut_t(er)); });
    if (lies || o != OK) return;
    if (un) { SIM_CHECK(!sat, "undefined", "isSatisfied answers yes where a function is not defined"); return; }
    double m2 = 0;
    long row = 0;
    for (auto& e : x->m.entries) {
      vector_t want(x->m.error(e, q));
      for (long i = 0; i < want.size(); ++i)
        SIM_CHECK(std::abs(want[i] - er[row + i]) <= 1e-8 * (1 + std::abs(want[i])), "residual", "error of row %ld of \"%s\" is %.9g, should be %.9g", i, x->m.it(e).label.c_str(), er[row + i], want[i]);
      row += want.size();
      m2 = std::max(m2, want.squaredNorm());
      vector_t one(vector_t::Zero(want.size()));
      bool found = false, ok = x->set->isConstraintSatisfied(e.c, q, one, found);
      SIM_CHECK(found && dist(one, want) <= 1e-8 * (1 + want.norm()), "residual", "error of \"%s\" alone is %s, should be %s", x->m.it(e).label.c_str(), vecStr(one).c_str(), vecStr(want).c_str());
      if (std::abs(want.norm() - 1e-4) > 1e-9) SIM_CHECK(ok == (want.norm() < 1e-4), "verdict", "\"%s\" is reported %s at an error of %.9g", x->m.it(e).label.c_str(), ok ? "satisfied" : "not satisfied", want.norm());
    }
    ++res->nontrivial;
    if (std::abs(std::sqrt(m2) - 1e-4) > 1e-9) SIM_CHECK(sat == (m2 < 1e-8), "verdict", "isSatisfied answers %d at an error of %.9g", sat, std::sqrt(m2));
  }
  void opJac(const Op& op) {
    S* x = get(op.a);
    if (!x || x->m.entries.empty()) return;
    Rng r(op.s);
    const long nv = w.space.nv;
    Configuration_t q(start(op.b, r));
    bool nan;
    if (x->m.undefinedAt(q, nan)) return;
    try { q = x->m.explicitSolve(q); } catch (const FunctionNotDefinedForThisValue&) { return; }
    if (x->m.undefinedAt(q, nan)) return;
    matrix_t J(matrix_t::Constant(nv, nv, 7.));
    Out o = call(op, [&] { x->set->solve(q); x->set->jacobian(J, q); });
    if (o != OK || lies) { SIM_PROBE("Jacobian of explicit constraints aborted"); return; }
    if (!(q.cwiseAbs().maxCoeff() < 50)) return;
    std::vector<char> ov(x->m.outV()), iv(setOf(x->set->inDers().indices(), nv));
    for (long i = 0; i < nv; ++i)
      for (long j = 0; j < nv; ++j) {
        if (ov[(size_t)j]) SIM_CHECK(J(i, j) == 0, "jacobian", "Jacobian(%ld, %ld) is %.9g, column of an output", i, j, J(i, j));
        if (!ov[(size_t)i] && !ov[(size_t)j]) SIM_CHECK(J(i, j) == (i == j), "jacobian", "Jacobian(%ld, %ld) is %.9g for variables that are not computed", i, j, J(i, j));
      }
    // outputs against finite differences, where they are exact enough
    std::vector<char> skip((size_t)nv, 0);
    bool lieOut = false;
    for (auto& e : x->m.entries) {
      const Item& n = x->m.it(e);
      vector_t raw(x->m.raw(e, q));
      LiegroupSpacePtr_t os(n.e->explicitFunction()->outputSpace());
      if (!os->isVectorSpace() && os->nq() != 7) lieOut = true;
      if (!n.smooth) for (auto& g : n.outVel) for (long i = 0; i < g.second; ++i) skip[(size_t)(g.first + i)] = 1;
      (void)raw;
    }
    const double h = lieOut ? 3e-4 : 1e-6;  // small rotations are not accurate
    for (long j = 0; j < nv; ++j) {
      if (ov[(size_t)j]) continue;
      vector_t d(vector_t::Zero(nv));
      Configuration_t qp, qm;
      try {
        d[j] = h;
        qp = x->m.explicitSolve(integrateConf(w.space, q, d));
        d[j] = -h;
        qm = x->m.explicitSolve(integrateConf(w.space, q, d));
      } catch (const FunctionNotDefinedForThisValue&) { return; }
      vector_t a(diffConf(w.space, q, qp)), b(diffConf(w.space, q, qm));
      for (long i = 0; i < nv; ++i) {
        if (!ov[(size_t)i]) continue;
        double fd = (a[i] - b[i]) / (2 * h);
        SIM_CHECK(skip[(size_t)i] || std::abs(fd - J(i, j)) <= 2e-4 * (1 + std::abs(fd) + J.cwiseAbs().maxCoeff()), "jacobian", "Jacobian(%ld, %ld) is %.9g, finite differences give %.9g", i, j, J(i, j), fd);
      }
    }
    ++res->nontrivial;
    SIM_PROBE("Jacobian of explicit constraints checked");
  }
  void opRhs(const Op& op) {
    S* x = get(op.a);
    if (!x || x->m.entries.empty()) return;
    Rng r(op.s);
    Entry& e = x->m.entries[(size_t)op.b % x->m.entries.size()];
    const Item& it = x->m.it(e);
    ExplicitPtr_t c(HPP_DYNAMIC_PTR_CAST(Explicit, e.c));
    if (op.c % 3 == 0) {
      vector_t rhs(randomRhs(it, r, .4));
      SIM_CHECK(x->set->rightHandSide(c, rhs), "right-hand-side", "right hand side of \"%s\" cannot be set", it.label.c_str());
      e.rhs = rhs;
    } else if (op.c % 3 == 1) {
      Configuration_t q(start(op.b, r));
      bool nan;
      if (x->m.undefinedAt(q, nan)) return;
      Out o = call(op, [&] { SIM_CHECK(x->set->rightHandSideFromInput(c, q), "right-hand-side", "\"%s\" not found", it.label.c_str()); });
      if (o == OK && !lies) e.rhs = rhsOfConfig(w, e, q);
      else if (lies) {
        vector_t v(vector_t::Zero(e.rhs.size()));
        x->set->getRightHandSide(c, v);
        if (!v.allFinite() || v.cwiseAbs().maxCoeff() > 1e4) { *x = S(); return; }
        e.rhs = v;
      }
    } else {
      vector_t all(x->set->rightHandSide());
      std::vector<vector_t> next;
      long row = 0;
      for (auto& y : x->m.entries) {
        vector_t v(r.chance(.5) ? randomRhs(x->m.it(y), r, .3) : y.rhs);
        all.segment(row, v.size()) = v;
        next.push_back(v);
        row += v.size();
      }
      x->set->rightHandSide(vectorIn_t(all));
      for (size_t k = 0; k < next.size(); ++k) x->m.entries[k].rhs = next[k];
    }
    checkStructure(*x->set, x->m, "right hand side");
  }
  void opCopy(const Op& op) {
    S* x = get(op.a);
    if (!x) return;
    S& y = s[(op.b + 1) % NS];
    if (&y == x) return;
    S z;
    z.set.reset(new ExplicitConstraintSet(*x->set));
    z.m = x->m;
    z.refused = x->refused;
    z.bs.reset(new BS(*x->bs));
    y = z;
    checkStructure(*y.set, y.m, "copy");
  }
  // the same constraints, in another order
  void opOrder(const Op& op) {
    S* x = get(op.a);
    if (!x || x->m.entries.size() < 2) return;
    Rng r(op.s);
    std::vector<int> ord;
    for (size_t i = 0; i < x->m.entries.size(); ++i) ord.push_back((int)i);
    for (size_t i = ord.size(); i-- > 1;) std::swap(ord[i], ord[r.below(i + 1)]);
    ExplicitConstraintSet e(w.space.sp);
    e.errorThreshold(1e-4);
    Model m(x->m);
    m.entries.clear();
    for (int k : ord) {
      Entry& en = x->m.entries[(size_t)k];
      ExplicitPtr_t c(HPP_DYNAMIC_PTR_CAST(Explicit, en.c->copy()));
      long got = e.add(c);
      SIM_CHECK(got == (long)m.entries.size(), "order", "\"%s\" is refused when constraints are added in another order", x->m.it(en).label.c_str());
      m.doAdd(en.item, c, 0, true);
      m.entries.back().rhs = en.rhs;
      e.rightHandSide(c, en.rhs);
    }
    checkStructure(e, m, "another order");
    Configuration_t q0(start(op.b, r)), a(q0), b(q0);
    bool ua = false, ub = false;
    try { x->set->solve(a); } catch (const FunctionNotDefinedForThisValue&) { ua = true; }
    try { e.solve(b); } catch (const FunctionNotDefinedForThisValue&) { ub = true; }
    SIM_CHECK(ua == ub, "order", "the set is %sdefined, in another order of additions it is %sdefined", ua ? "un" : "", ub ? "un" : "");
    if (!ua) SIM_CHECK(dist(a, b) <= 1e-9 * (1 + a.cwiseAbs().maxCoeff()), "order", "the solution depends on the order of additions: %.6g", dist(a, b));
    ++res->nontrivial;
    SIM_PROBE("another order of additions");
  }
  // a solver that holds these constraints, the refused ones as implicit ones
  void opSolver(const Op& op) {
    S* x = get(op.a);
    if (!x) return;
    Rng r(op.s);
    Configuration_t q0(start(op.b, r)), q(q0);
    HI::Status st = HI::INFEASIBLE;
    for (auto& e : x->m.entries) x->bs->rightHandSide(e.c, e.rhs);
    Out o = call(op, [&] { st = op.c % 2 ? solveWith<solver::lineSearch::Constant>(*x->bs, q) : solveWith<solver::lineSearch::Backtracking>(*x->bs, q); });
    logf("solver -> %d %d", o, (int)st);
    logv("q", q.data(), q.size());
    if (o != OK || lies || !q.allFinite() || q.cwiseAbs().maxCoeff() > 1e4) return;
    Configuration_t want;
    try { want = x->m.explicitSolve(q); } catch (const FunctionNotDefinedForThisValue&) {
      SIM_CHECK(st != HI::SUCCESS, "undefined", "a solver reports success where an explicit function is not defined");
      return;
    }
    if (firedN) return;
    ++res->nontrivial;
    for (long i = 0; i < q.size(); ++i)
      SIM_CHECK(std::abs(q[i] - want[i]) <= 1e-9 * (1 + want.cwiseAbs().maxCoeff()), "solver-output", "after a solve (status %d) variable %ld is %.12g, should be %.12g", (int)st, i, q[i], want[i]);
    SIM_PROBE("outputs after a solve of a solver");
  }
  void run() {
    for (auto& op : plan.ops) {
      logf("op %s %ld %ld %ld %ld %s", op.kind.c_str(), op.a, op.b, op.c, op.d, op.fault.c_str());
      ++res->ops;
      u64 h = 0;
      for (char c : op.kind) h = h * 31 + (u64)c;
      sigAdd(h);
      const std::string& k = op.kind;
      if (k == "new") opNew(op);
      else if (k == "add") opAdd(op);
      else if (k == "solve") opSolve(op);
      else if (k == "sat") opSat(op);
      else if (k == "jac") opJac(op);
      else if (k == "rhs") opRhs(op);
      else if (k == "copy") opCopy(op);
      else if (k == "order") opOrder(op);
      else if (k == "solver") opSolver(op);
      else if (k == "move") {
        if (w.robot) {
          Rng r(op.s);
          w.robot->currentConfiguration(perturb(w.space, w.qStar, r, 1.));
          w.robot->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
          fired(F_ROBOT_MOVED);
        }
      } else fail("plan", "unknown operation %s", k.c_str());
      u64 n = 0;
      for (auto& x : s) n = n * 131 + (x.set ? 1 + x.m.entries.size() * 8 + x.refused.size() : 0);
      sigAdd(n);
      for (auto& x : s) if (x.set && op.fault != "-") checkStructure(*x.set, x.m, "after a failure");
    }
  }
};
void generateExpl(Plan& p) {
  Rng r(mix(p.seed * 0x9e3779b9ULL + 11));
  p.knobs["world"] = (long)r.below(1000000000);
  p.knobs["world_kind"] = r.chance(.25) ? 1 : 0;
  p.knobs["n_items"] = r.range(3, 14);
  p.knobs["mem_layout"] = (long)r.below(1000);
  p.knobs["mem_fill"] = (long)r.below(6);
  p.knobs["bad"] = r.chance(.6);
  p.knobs["ineq"] = r.chance(.5);
  p.knobs["lie"] = r.chance(.6);
  p.knobs["twins"] = r.chance(.5);
  p.knobs["malformed"] = r.chance(.3);
  p.knobs["consistent"] = r.chance(.3);
  p.knobs["smooth"] = r.chance(.3);
  p.knobs["several"] = r.chance(.5);
  p.knobs["contacts"] = r.chance(.5);
  long items = p.knobs["n_items"];
  auto op = [&](const std::string& k) {
    Op o;
    o.kind = k;
    o.a = (long)r.below(Expl::NS);
    o.s = r.next() >> 1;
    o.b = (long)r.below((u64)items);
    o.c = (long)r.below(12);
    static const std::map<std::string, double> faulty = {{"solve", .35}, {"sat", .3}, {"jac", .25}, {"rhs", .15}, {"solver", .25}};
    auto f = faulty.find(k);
    if (f != faulty.end() && r.chance(f->second)) {
      static const std::vector<Fault> kinds = {F_THROW, F_THROW, F_UNDEFINED, F_UNDEFINED, F_BADALLOC_CB, F_ADVERSARIAL};
      o.fault = faultNames[r.pick(kinds)];
      o.at = r.range(1, 6);
    }
    return o;
  };
  Op n0(op("new"));
  n0.a = 0;
  p.ops.push_back(n0);
  if (r.chance(.4)) { n0.a = 1; p.ops.push_back(n0); }
  static const char* kinds[] = {"add", "add", "add", "add", "add", "solve", "solve", "solve", "sat", "jac", "rhs", "rhs", "copy", "order", "solver", "move"};
  long n = r.range(8, 34);
  for (long i = 0; i < 3; ++i) p.ops.push_back(op("add"));
  for (long i = 0; i < n; ++i) p.ops.push_back(op(kinds[r.below(16)]));
}
void executeExpl(const Plan& p) {
  if (p.knob("mem_layout")) fired(F_MEM_LAYOUT);
  if (p.knob("mem_fill")) fired(F_MEM_GARBAGE);
  Expl e(p);
  e.run();
}
Registrar regC11("C11", generateExpl, executeExpl);
}  // namespace
}  // namespace sim
