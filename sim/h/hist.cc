// Histories of operations on solvers, with failing constraint evaluations, judged against the
// reference model.  Decides C01 C02 C03 C04 C05 C06 C12 C15 C16.
#include <algorithm>
#include <cmath>
#include "common/robot.hh"
#include "h/model.hh"

#include <hpp/constraints/solver/impl/by-substitution.hh>
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include <sstream>

namespace sim {
namespace {
namespace ls = solver::lineSearch;
typedef std::map<std::string, double> Weights;

struct Hist {
  const Plan& plan;
  std::string prop;
  World w;
  static const int NS = 4;
  Slot slot[NS];
  // C06: answers of each slot when it was last touched
  Answers ref[NS];
  bool hasRef[NS];
  double lastTime = 0;
  bool is(const char* p) const { return prop == p; }

  explicit Hist(const Plan& p) : plan(p), prop(p.prop) {
    WorldOpts o;
    o.consistent = p.knob("consistent");
    o.badRegions = p.knob("bad", 1);
    o.inequalities = p.knob("ineq", 1);
    o.masks = p.knob("masks", 1);
    o.lie = p.knob("lie", 1);
    o.twins = p.knob("twins", 1);
    o.malformed = p.knob("malformed", 0);
    o.smooth = p.knob("smooth", 0);
    o.severalOutputs = p.knob("several", 0);
    long n = std::max<long>(1, p.knob("n_items", 6));
    long kind = p.knob("world_kind", 0);
    if (kind == 0) w = makeSynthetic((u64)p.knob("world"), n, o);
    else w = makeRobotWorld((u64)p.knob("world"), n, o, true);
    for (int i = 0; i < NS; ++i) hasRef[i] = false;
  }
  Slot* get(long a) {
    for (int k = 0; k < NS; ++k) { Slot& s = slot[(a + k) % NS]; if (s) return &s; }
    return nullptr;
  }
  int indexOf(const Slot* s) const { return (int)(s - slot); }
  int freeIndex(long a) const {
    for (int k = 0; k < NS; ++k) if (!slot[(a + k) % NS]) return (int)((a + k) % NS);
    return (int)(a % NS);
  }
  Entry* entry(Slot& s, long b) { return s.m.entries.empty() ? nullptr : &s.m.entries[(size_t)b % s.m.entries.size()]; }

  // ------------------------------------------------------------ calls that may fail
  enum Out { OK, FAULT, UNDEF, LOGIC };
  u64 lies = 0;
  template <class F>
  Out call(const Op& op, const Slot& s, F f, bool naturalUndef = true) {
    ctl.cap = (u64)((s.m.maxIter + 4) * 16) * (s.m.entries.size() * 2 + 2) + 64;
    armFault(op);
    Out r = OK;
    std::string what;
    try { f(); }
    catch (const Violation&) { disarmFault(); throw; }
    catch (const FunctionNotDefinedForThisValue&) { r = UNDEF; }
    catch (const EvalFault&) { r = FAULT; }
    catch (const std::bad_alloc&) { r = FAULT; }
    catch (const std::logic_error& e) { r = LOGIC; what = e.what(); }
    u64 fc = ctl.firedCount;
    lies = ctl.lies;
    ctl.cap = 0;
    disarmFault();
    if (r == LOGIC) fail("unexpected-exception", "operation %s threw: %s", op.kind.c_str(), what.c_str());
    if (r == FAULT && fc == 0) fail("unexpected-exception", "operation %s failed without a fault", op.kind.c_str());
    if (r == UNDEF && fc == 0) {
      bool bad = false;
      for (auto& e : s.m.entries) bad = bad || s.m.it(e).hasBad;
      if (!bad || !naturalUndef) fail("unexpected-exception", "operation %s: undefined without reason", op.kind.c_str());
    }
    sigAdd((u64)r * 7 + (fc ? 3 : 0));
    return r;
  }

  // ------------------------------------------------------------ starts
  Configuration_t start(Slot& s, long how, Rng& r) {
    Configuration_t q;
    switch (how % 7) {
      case 0: q = w.qStar; break;
      case 1: q = perturb(w.space, w.qStar, r, .02); break;
      case 2: q = perturb(w.space, w.qStar, r, .25); break;
      case 3: q = perturb(w.space, w.qStar, r, 1.2); break;
      case 4: q = s.hasLast ? s.lastQ : w.qStar; break;
      case 5: q = s.hasLast ? perturb(w.space, s.lastQ, r, s.m.thr * r.uni(.05, 3)) : w.qStar; break;
      default: {
        q = perturb(w.space, w.qStar, r, 1.);
        for (long i = 0; i < q.size(); ++i) {
          if ((std::isfinite(w.lb[i]) || std::isfinite(w.ub[i])) && r.chance(.4)) {
            double x = r.chance(.5) ? w.lb[i] : w.ub[i];
            if (std::isfinite(x)) q[i] = x;
          }
        }
      }
    }
    return clampToBounds(w, q);
  }

  // ------------------------------------------------------------ oracles
  // verdict of the model at q: 1 satisfied, 0 not, -1 too close to the threshold to tell
  static int verdict(double e2, double thr) {
    if (!std::isfinite(e2)) return 0;
    double e = std::sqrt(e2), m = 1e-6 * thr + 1e-11;
    if (std::abs(e - thr) <= m) return -1;
    return e < thr;
  }
  void checkSatisfaction(Slot& s, const Configuration_t& q, const char* where) {
    Model& m = s.m;
    bool nan;
    if (m.undefinedAt(q, nan)) return;
    double imp2 = m.maxError2(q, true, false), exp2 = m.maxError2(q, false, true);
    double e2 = std::max(imp2, exp2);
    int v = verdict(e2, m.thr);
    bool got = with(s, [&](auto& x) { return x.isSatisfied(q); });
    ++res->nontrivial;
    SIM_CHECK(v < 0 || got == (v == 1), "wrong-verdict", "%s: isSatisfied answers %d at an error of %.9g for a threshold of %.9g", where, got, std::sqrt(e2), m.thr);
    int vi = verdict(imp2, m.thr);
    double r2 = s.base().residualError();
    (void)vi;
    if (std::isfinite(imp2)) SIM_CHECK(std::abs(r2 - imp2) <= 1e-7 * (imp2 + m.thr * m.thr) + 1e-18 + 1e-10 * std::sqrt(imp2), "wrong-residual", "%s: residual error %.12g, should be %.12g", where, r2, imp2);
    else SIM_CHECK(!(r2 < m.thr * m.thr), "wrong-residual", "%s: residual error %.9g where a constraint is not a number", where, r2);
    vector_t err(vector_t::Zero(m.implicitDim()));
    s.base().residualError(err);
    long row = 0;
    for (int k : m.stackedOrder()) {
      Entry& e = m.entries[(size_t)k];
      if (e.expl) break;
      vector_t x(m.error(e, q));
      for (long i = 0; i < x.size(); ++i)
        SIM_CHECK(std::isnan(x[i]) || std::abs(x[i] - err[row + i]) <= 1e-8 * (1 + std::abs(x[i])), "wrong-residual", "%s: residual of row %ld of \"%s\" is %.9g, should be %.9g", where, i, m.it(e).label.c_str(), err[row + i], x[i]);
      row += x.size();
    }
    for (auto& e : m.entries) {
      vector_t x(m.error(e, q)), er(vector_t::Zero(x.size()));
      bool found = false, ok = with(s, [&](auto& z) { return z.isConstraintSatisfied(e.c, q, er, found); });
      SIM_CHECK(found, "constraint-not-found", "%s: constraint \"%s\" of the solver is not found", where, m.it(e).label.c_str());
      int ve = verdict(std::isnan(x.squaredNorm()) ? HUGE_VAL : x.squaredNorm(), m.thr);
      SIM_CHECK(ve < 0 || ok == (ve == 1), "wrong-verdict", "%s: constraint \"%s\" reported %s at an error of %.9g for a threshold of %.9g", where, m.it(e).label.c_str(), ok ? "satisfied" : "not satisfied", x.norm(), m.thr);
      for (long i = 0; i < x.size(); ++i)
        SIM_CHECK(std::isnan(x[i]) || std::abs(x[i] - er[i]) <= 1e-8 * (1 + std::abs(x[i])), "wrong-residual", "%s: error of row %ld of \"%s\" is %.9g, should be %.9g", where, i, m.it(e).label.c_str(), er[i], x[i]);
    }
    // a constraint it does not have
    for (size_t i = 0; i < w.items.size(); ++i) {
      bool has = false;
      for (auto& e : m.entries) if (m.it(e).fid == w.items[i].fid) has = true;
      if (has) continue;
      vector_t er(vector_t::Zero(w.items[i].c->function().outputDerivativeSize()));
      bool found = true;
      with(s, [&](auto& z) { return z.isConstraintSatisfied(w.items[i].c, q, er, found); });
      SIM_CHECK(!found, "constraint-not-found", "%s: a constraint that was never added is found", where);
      break;
    }
    if (s.b) {
      vector_t all(vector_t::Zero(m.implicitDim() + m.explicitDim()));
      bool ok = s.b->isSatisfied(q, vectorOut_t(all));
      SIM_CHECK(v < 0 || ok == (v == 1), "wrong-verdict", "%s: isSatisfied with error answers %d at an error of %.9g", where, ok, std::sqrt(e2));
      row = 0;
      for (int k : m.stackedOrder()) {
        Entry& e = m.entries[(size_t)k];
        vector_t x(m.error(e, q));
        for (long i = 0; i < x.size(); ++i)
          SIM_CHECK(std::isnan(x[i]) || std::abs(x[i] - all[row + i]) <= 1e-8 * (1 + std::abs(x[i])), "wrong-residual", "%s: error of row %ld of \"%s\" is %.9g, should be %.9g", where, i, m.it(e).label.c_str(), all[row + i], x[i]);
        row += x.size();
      }
    }
    double t = std::isfinite(e2) && e2 > 0 ? std::sqrt(e2) * 1.01 : m.thr * 3;
    int vt = verdict(e2, t);
    got = with(s, [&](auto& x) { return x.isSatisfied(q, t); });
    SIM_CHECK(vt < 0 || got == (vt == 1), "wrong-verdict", "%s: isSatisfied with threshold %.9g answers %d at an error of %.9g", where, t, got, std::sqrt(e2));
    t *= .97;
    vt = verdict(e2, t);
    got = with(s, [&](auto& x) { return x.isSatisfied(q, t); });
    SIM_CHECK(vt < 0 || got == (vt == 1), "wrong-verdict", "%s: isSatisfied with threshold %.9g answers %d at an error of %.9g", where, t, got, std::sqrt(e2));
  }
  void checkNormalised(const Configuration_t& q) {
    for (auto& b : w.space.blocks) {
      long a = 0, n = 0;
      if (b.type == B_SO2) { n = 2; } else if (b.type == B_SO3) n = 4;
      else if (b.type == B_SE2) { a = 2; n = 2; } else if (b.type == B_SE3 || b.type == B_R3xSO3) { a = 3; n = 4; }
      if (!n) continue;
      double x = q.segment(b.iq + a, n).norm();
      SIM_CHECK(std::abs(x - 1) < 1e-5, "not-normalised", "rotation part at %ld has norm %.9g", b.iq + a, x);
    }
  }
  void checkFrame(Slot& s, const Configuration_t& q0, const Configuration_t& q1) {
    Model& m = s.m;
    std::vector<char> fr(m.freeMask()), out(m.outV());
    ++res->nontrivial;
    for (auto& b : w.space.blocks) {
      bool any = false;
      for (long j = 0; j < b.nv; ++j) any = any || fr[(size_t)(b.iv + j)] || out[(size_t)(b.iv + j)];
      if (b.type == B_RN) {
        for (long j = 0; j < b.nq; ++j) {
          if (fr[(size_t)(b.iv + j)] || out[(size_t)(b.iv + j)]) continue;
          SIM_CHECK(q0[b.iq + j] == q1[b.iq + j], "moved", "variable %ld is neither free nor an output and went from %.12g to %.12g", b.iq + j, q0[b.iq + j], q1[b.iq + j]);
        }
      } else if (!any)
        for (long j = 0; j < b.nq; ++j)
          SIM_CHECK(std::abs(q0[b.iq + j] - q1[b.iq + j]) <= 1e-9, "moved", "variable %ld is neither free nor an output and went from %.12g to %.12g", b.iq + j, q0[b.iq + j], q1[b.iq + j]);
    }
    if (m.sat) {
      std::vector<char> oq(m.outQ());
      for (long i = 0; i < q1.size(); ++i)
        if (!oq[(size_t)i])
          SIM_CHECK(q1[i] >= w.lb[i] - 1e-12 && q1[i] <= w.ub[i] + 1e-12, "out-of-bounds", "variable %ld is %.12g, outside [%.12g, %.12g]", i, q1[i], w.lb[i], w.ub[i]);
    }
    checkNormalised(q1);
  }
  void checkRhs(Slot& s, const char* where) {
    Model& m = s.m;
    long n = 0;
    for (auto& e : m.entries) n += e.rhs.size();
    ++res->nontrivial;
    with(s, [&](auto& x) {
      SIM_CHECK(x.rightHandSideSize() == n, "rhs-size", "%s: right hand side of size %ld, should be %ld", where, (long)x.rightHandSideSize(), n);
      vector_t all(x.rightHandSide()), should(m.stackedRhs());
      SIM_CHECK(all.size() == n, "rhs-size", "%s: stacked right hand side of size %ld, should be %ld", where, (long)all.size(), n);
      for (auto& e : m.entries) {
        vector_t r(vector_t::Zero(e.rhs.size()));
        bool found = x.getRightHandSide(e.c, r);
        SIM_CHECK(found, "rhs-missing", "%s: right hand side of \"%s\" not found", where, m.it(e).label.c_str());
        SIM_CHECK((r - e.rhs).cwiseAbs().maxCoeff() <= 1e-7, "rhs-changed", "%s: right hand side of \"%s\" is %s, should be %s", where, m.it(e).label.c_str(), vecStr(r).c_str(), vecStr(e.rhs).c_str());
      }
      if (n) SIM_CHECK((all - should).cwiseAbs().maxCoeff() <= 1e-7, "rhs-stacked", "%s: stacked right hand side is %s, should be %s", where, vecStr(all).c_str(), vecStr(should).c_str());
      return 0;
    });
  }
  void checkMembers(Slot& s, const char* where) {
    Model& m = s.m;
    HI& h = s.base();
    ++res->nontrivial;
    std::vector<ImplicitPtr_t> cs(h.constraints().begin(), h.constraints().end());
    SIM_CHECK(cs.size() == m.entries.size(), "members", "%s: %zu constraints, should be %zu", where, cs.size(), m.entries.size());
    for (size_t i = 0; i < cs.size(); ++i)
      SIM_CHECK(cs[i] == m.entries[i].c, "members", "%s: constraint %zu is not the one that was added", where, i);
    SIM_CHECK(h.numberStacks() == m.stacks(), "levels", "%s: %zu levels, should be %zu", where, h.numberStacks(), m.stacks());
    for (size_t p = 0; p < m.stacks(); ++p) {
      const ImplicitConstraintSet::Implicits_t& at(h.constraints(p).constraints());
      size_t k = 0;
      for (auto& e : m.entries) {
        if (e.expl || e.prio != p) continue;
        SIM_CHECK(k < at.size() && at[k] == e.c, "levels", "%s: level %zu does not hold \"%s\" at rank %zu", where, p, m.it(e).label.c_str(), k);
        ++k;
      }
      SIM_CHECK(at.size() == k, "levels", "%s: level %zu holds %zu constraints, should be %zu", where, p, at.size(), k);
    }
    for (size_t i = 0; i < w.items.size(); ++i) {
      bool has = false;
      for (auto& e : m.entries) if (m.it(e).cid == w.items[i].cid) has = true;
      SIM_CHECK(h.contains(w.items[i].c) == has, "contains", "%s: contains(\"%s\") answers %d", where, w.items[i].label.c_str(), !has);
    }
    SIM_CHECK(h.dimension() == m.implicitDim(), "dimension", "%s: dimension %ld, should be %ld", where, (long)h.dimension(), m.implicitDim());
    SIM_CHECK(h.reducedDimension() == m.reducedDim(), "reduced-dimension", "%s: reduced dimension %ld, should be %ld", where, (long)h.reducedDimension(), m.reducedDim());
    ArrayXb ad(h.activeDerivativeParameters()), ap(h.activeParameters());
    ArrayXb wd(ArrayXb::Constant(w.space.nv, false)), wp(ArrayXb::Constant(w.space.nq, false));
    for (auto& e : m.entries) {
      if (e.expl) continue;
      wd = wd || e.c->function().activeDerivativeParameters();
      wp = wp || e.c->function().activeParameters();
    }
    for (long i = 0; i < wd.size(); ++i) SIM_CHECK(wd[i] == ad[i], "activity", "%s: velocity variable %ld reported %sactive", where, i, ad[i] ? "" : "in");
    for (long i = 0; i < wp.size(); ++i) SIM_CHECK(wp[i] == ap[i], "activity", "%s: configuration variable %ld reported %sactive", where, i, ap[i] ? "" : "in");
    if (s.b) {
      SIM_CHECK(s.b->errorSize() == m.implicitDim() + m.explicitDim(), "dimension", "%s: error size %ld, should be %ld", where, (long)s.b->errorSize(), m.implicitDim() + m.explicitDim());
      std::vector<char> out(m.outV());
      long nf = 0;
      for (char c : out) nf += !c;
      SIM_CHECK(s.b->numberFreeVariables() == nf, "free-variables", "%s: %ld free variables, should be %ld", where, (long)s.b->numberFreeVariables(), nf);
      ArrayXb got(ArrayXb::Constant(w.space.nv, false));
      for (auto& g : s.b->explicitConstraintSet().outDers().indices()) for (long i = 0; i < g.second; ++i) got[g.first + i] = true;
      for (long i = 0; i < w.space.nv; ++i) SIM_CHECK(got[i] == (bool)out[(size_t)i], "free-variables", "%s: variable %ld %s an output", where, i, got[i] ? "is" : "is not");
    }
    std::vector<char> fr(m.freeMask());
    ArrayXb gf(ArrayXb::Constant(w.space.nv, false));
    for (auto& g : h.freeVariables().indices()) for (long i = 0; i < g.second; ++i) gf[g.first + i] = true;
    for (long i = 0; i < w.space.nv; ++i) SIM_CHECK(gf[i] == (bool)fr[(size_t)i], "free-variables", "%s: variable %ld %s free", where, i, gf[i] ? "is" : "is not");
    // submanifold queries between solvers
    for (int k = 0; k < NS; ++k) {
      if (!slot[k]) continue;
      bool sub = true;
      for (auto& e : slot[k].m.entries) {
        bool has = false;
        for (auto& f : m.entries) if (m.it(f).fid == slot[k].m.it(e).fid) has = true;
        sub = sub && has;
      }
      bool got2 = h.definesSubmanifoldOf(slot[k].base());
      SIM_CHECK(got2 == sub, "submanifold", "%s: definesSubmanifoldOf answers %d", where, got2);
    }
  }

  // ------------------------------------------------------------ operations
  void opNew(const Op& op) {
    Rng r(op.s);
    Slot s;
    int k = (int)(op.a % NS);
    s.m.w = &w;
    s.m.bs = op.b != 1;
    if (s.m.bs) s.b.reset(new BS(w.space.sp));
    else s.h.reset(new HI(w.space.sp));
    setOptions(s.m, r, true);
    s.m.freeV.assign((size_t)w.space.nv, 1);
    applyOptions(s);
    slot[k] = s;
    hasRef[k] = false;
  }
  void setOptions(Model& m, Rng& r, bool all) {
    long which = all ? -1 : (long)r.below(6);
    double lo = is("C03") ? -3.5 : -6.5;
    if (all || which == 0) m.thr = std::pow(10., r.uni(lo, -2));
    if (all || which == 1) m.ineq = r.chance(.5) ? 0 : r.uni(0, .05);
    if (all || which == 2) m.maxIter = is("C03") ? (r.chance(.7) ? 200 : r.range(0, 8)) : r.range(0, 30);
    if (all || which == 3) m.lastOpt = r.chance(.25);
    if (all || which == 4) m.lbl = r.chance(.2);
    if (all || which == 5) { m.sat = r.chance(is("C02") ? .85 : .5); if (m.sat && r.chance(.5) && w.robot) m.sat = 2; }
  }
  void touched(Slot& s) { hasRef[indexOf(&s)] = false; }
  void opAdd(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    int item = (int)(op.b % (long)w.items.size());
    const Item& it = w.items[(size_t)item];
    size_t prio = (size_t)(op.c % 3);
    bool asExplicit;
    Model::AddResult p = s->m.predictAdd(item, asExplicit);
    ImplicitPtr_t c(it.c->copy());
    bool ret = false, thrown = false;
    Answers before;
    bool cmp = p != Model::Added && (is("C04") || is("C12") || is("C06"));
    if (cmp) before = answers(*s, plan.seed, A_STRUCT | A_RHS | A_SAT);
    try { ret = with(*s, [&](auto& x) { return x.add(c, prio); }); }
    catch (const std::logic_error& e) { thrown = true; }
    logf("add %d prio %zu -> %d%s", item, prio, ret, thrown ? " (refused)" : "");
    sigAdd(mix((u64)p * 3 + asExplicit));
    if (is("C12")) {
      ++res->nontrivial;
      SIM_CHECK(!(p == Model::Throws) || thrown, "add-accepted", "a constraint that cannot be added (\"%s\") was accepted", it.label.c_str());
      SIM_CHECK(p == Model::Throws || !thrown, "add-refused", "a constraint that can be added (\"%s\") was refused by an exception", it.label.c_str());
      if (!thrown) SIM_CHECK(ret == (p == Model::Added), "add-answer", "adding \"%s\" answers %d", it.label.c_str(), ret);
    }
    if (p == Model::Added) {
      if (thrown || !ret) fail("add-refused", "adding \"%s\" was refused", it.label.c_str());
      s->m.doAdd(item, c, prio, asExplicit);
      if (asExplicit) SIM_PROBE("added as explicit");
      else if (it.e && s->b) SIM_PROBE("explicit treated as implicit");
    } else if (!thrown && ret) fail("add-accepted", "adding \"%s\" again was accepted", it.label.c_str());
    if (cmp) {
      std::string d = diffAnswers(before, answers(*s, plan.seed, A_STRUCT | A_RHS | A_SAT), 0);
      SIM_CHECK(d.empty(), "refused-add-changed", "the refused addition of \"%s\" changed an answer: %s", it.label.c_str(), d.c_str());
      SIM_PROBE("refused addition checked");
    }
    if (p == Model::Added) touched(*s);
  }
  void opMerge(const Op& op) {
    Slot* a = get(op.a);
    Slot* b = get(op.b);
    if (!a || !b || a == b) return;
    // what is to happen
    Model m2(a->m);
    bool throws = false;
    size_t added = 0;
    for (auto& e : b->m.entries) {
      bool has = false;
      for (auto& f : m2.entries) if (m2.it(f).cid == b->m.it(e).cid) has = true;
      if (has) continue;
      bool asExplicit;
      Model::AddResult p = m2.predictAdd(e.item, asExplicit);
      if (p == Model::Throws) { throws = true; break; }
      m2.doAdd(e.item, e.c, e.expl ? 0 : e.prio, asExplicit);
      m2.entries.back().hasTime = e.hasTime;
      m2.entries.back().time = e.time;
      ++added;
    }
    bool thrown = false;
    try { a->base().merge(b->base()); }
    catch (const std::logic_error&) { thrown = true; }
    logf("merge -> %d", thrown);
    if (throws) SIM_PROBE("merge stopped half way");
    SIM_CHECK(thrown == throws, "merge", "merge %s", thrown ? "failed" : "accepted a constraint that cannot be added");
    a->m = m2;
    if (added) touched(*a);
  }
  void opRhs(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Entry* e = entry(*s, op.b);
    if (!e) return;
    Rng r(op.s);
    const Item& it = s->m.it(*e);
    LiegroupSpacePtr_t sp(e->c->function().outputSpace());
    vector_t v(vector_t::Zero(sp->nv()));
    bool any = false;
    double amp = std::pow(10., r.uni(-3, -.3));
    for (long i = 0; i < v.size(); ++i) if (it.comp[(size_t)i] == Equality) { v[i] = r.uni(-amp, amp); any = true; }
    if (r.chance(.1)) v.setZero();
    if (!any) v.setZero();
    vector_t rhs(sp->exp(v).vector());
    if (!sp->isVectorSpace())
      for (int i = 0; i < 20; ++i) {  // a value that goes through log and exp unchanged, if possible
        vector_t x(sp->exp(minusEl(sp, rhs, sp->neutral().vector())).vector());
        if (x == rhs) break;
        rhs = x;
      }
    // through a twin of the constraint in some cases
    ImplicitPtr_t c(e->c);
    if (r.chance(.3)) c = it.c;
    bool found = with(*s, [&](auto& x) { return x.rightHandSide(c, rhs); });
    SIM_CHECK(found, "rhs-missing", "setting the right hand side of \"%s\": not found", it.label.c_str());
    e->rhs = rhs;
    logv("rhs", rhs.data(), rhs.size());
    touched(*s);
  }
  // after an operation that stopped in the middle: each right hand side is the old or the new one
  void adopt(Slot& s, const std::vector<vector_t>& next, const char* where) {
    for (size_t k = 0; k < s.m.entries.size(); ++k) {
      Entry& e = s.m.entries[k];
      vector_t r(vector_t::Zero(e.rhs.size()));
      with(s, [&](auto& x) { return x.getRightHandSide(e.c, r); });
      double d0 = (r - e.rhs).cwiseAbs().maxCoeff(), d1 = next[k].size() ? (r - next[k]).cwiseAbs().maxCoeff() : HUGE_VAL;
      if (std::min(d0, d1) > 1e-7 && (is("C05") || is("C15")))
        fail("rhs-mangled", "%s: right hand side of \"%s\" is neither the former nor the requested one: %s", where, s.m.it(e).label.c_str(), vecStr(r).c_str());
      e.rhs = d0 <= d1 ? e.rhs : next[k];
      if (std::min(d0, d1) > 1e-7) e.rhs = r;
    }
    SIM_PROBE("right hand sides after a failure");
  }
  void opRhsConfig(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Rng r(op.s);
    Configuration_t q(op.c == 0 ? perturb(w.space, w.qStar, r, .2) : (op.c == 1 ? w.qStar : perturb(w.space, w.qStar, r, 1)));
    bool nan;
    if (s->m.undefinedAt(q, nan) || nan) return;
    Entry* one = op.b > 0 ? entry(*s, op.b - 1) : nullptr;
    std::vector<vector_t> next(s->m.entries.size());
    for (size_t k = 0; k < next.size(); ++k) {
      Entry& e = s->m.entries[k];
      if (!one || one == &e) next[k] = rhsOfConfig(w, e, q);
    }
    vector_t got;
    bool found = true;
    Out o = call(op, *s, [&] {
      if (one) found = with(*s, [&](auto& x) { return x.rightHandSideFromConfig(one->c, q); });
      else got = with(*s, [&](auto& x) { return x.rightHandSideFromConfig(q); });
    });
    touched(*s);
    logf("rhs from configuration -> %d", o);
    if (o != OK || lies) {
      // values that are wrong are taken as given
      if (lies) for (size_t k = 0; k < next.size(); ++k) {
          Entry& e = s->m.entries[k];
          if (one && one != &e) continue;
          vector_t v(vector_t::Zero(e.rhs.size()));
          with(*s, [&](auto& x) { return x.getRightHandSide(e.c, v); });
          next[k] = v;
          if (!v.allFinite()) { slot[indexOf(s)] = Slot(); return; }  // a wrong value is the right hand side now
        }
      adopt(*s, next, "right hand side from a configuration");
      return;
    }
    SIM_CHECK(found, "rhs-missing", "right hand side from a configuration: constraint not found");
    for (size_t k = 0; k < next.size(); ++k) if (next[k].size()) s->m.entries[k].rhs = next[k];
    if (is("C05") && !one) {
      vector_t should(s->m.stackedRhs());
      SIM_CHECK(got.size() == should.size() && (got.size() == 0 || (got - should).cwiseAbs().maxCoeff() <= 1e-7), "rhs-stacked", "rightHandSideFromConfig answers %s, should be %s", vecStr(got).c_str(), vecStr(should).c_str());
    }
    if (is("C05") || is("C01"))
      for (auto& e : s->m.entries) {
        if (one && one != &e) continue;
        const Item& it = s->m.it(e);
        vector_t er(vector_t::Zero(it.comp.size()));
        bool f2;
        with(*s, [&](auto& x) { return x.isConstraintSatisfied(e.c, q, er, f2); });
        for (size_t i = 0; i < it.comp.size(); ++i)
          if (it.comp[i] == Equality)
            SIM_CHECK(std::abs(er[(long)i]) <= 1e-6, "rhs-config", "after taking right hand sides from a configuration, row %zu of \"%s\" has error %.9g there", i, it.label.c_str(), er[(long)i]);
      }
  }
  void opRhsVec(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Rng r(op.s);
    Model& m = s->m;
    vector_t v(with(*s, [&](auto& x) { return x.rightHandSide(); }));
    if (op.b == 0) {  // write back what was read
      with(*s, [&](auto& x) { x.rightHandSide(v); return 0; });
      logf("stacked right hand side written back");
    } else {
      vector_t n(v.size());
      long row = 0;
      std::vector<vector_t> next(m.entries.size());
      for (int k : m.stackedOrder()) {
        Entry& e = m.entries[(size_t)k];
        LiegroupSpacePtr_t sp(e.c->function().outputSpace());
        vector_t t(vector_t::Zero(sp->nv()));
        for (long i = 0; i < t.size(); ++i) if (m.it(e).comp[(size_t)i] == Equality) t[i] = r.uni(-.3, .3);
        next[(size_t)k] = sp->exp(t).vector();
        n.segment(row, next[(size_t)k].size()) = next[(size_t)k];
        row += next[(size_t)k].size();
      }
      if (row != v.size()) fail("rhs-size", "stacked right hand side of size %ld, should be %ld", (long)v.size(), row);
      with(*s, [&](auto& x) { x.rightHandSide(n); return 0; });
      for (size_t k = 0; k < next.size(); ++k) m.entries[k].rhs = next[k];
      logv("stacked right hand side", n.data(), n.size());
    }
    touched(*s);
  }
  void opTimeFn(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Entry* e = entry(*s, op.b);
    if (!e) return;
    for (auto c : s->m.it(*e).comp) if (c != Equality) return;
    // an object shared by several solvers belongs to all of them
    std::vector<Entry*> all;
    for (auto& x : slot) for (auto& y : x.m.entries) if (y.c == e->c) { all.push_back(&y); touched(x); }
    if (op.c % 5 == 4) {
      e->c->rightHandSideFunction(DifferentiableFunctionPtr_t());
      for (auto x : all) x->hasTime = false;
      return;
    }
    TimeDesc t;
    t.fn = std::make_shared<TimeFn>(e->c->function().outputSpace(), op.s);
    DifferentiableFunctionPtr_t f(new TimeFn(e->c->function().outputSpace(), op.s));
    e->c->rightHandSideFunction(f);
    for (auto x : all) { x->hasTime = true; x->time = t; }
  }
  vector_t timeValue(const Entry& e, double s) const {
    vector_t v(e.rhs.size());
    e.time.fn->at(e.time.param(s), v);
    return v;
  }
  void opAt(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Rng r(op.s);
    double t = op.b == 0 ? r.uni(0, 1) : (op.b == 1 ? lastTime : (op.b == 2 ? r.uni(-3, 3) : (r.chance(.5) ? 0. : 1.)));
    if (op.b == 2 || t < lastTime) fired(F_TIME_JUMP);
    res->simTime += std::abs(t - lastTime);
    lastTime = t;
    std::vector<vector_t> next(s->m.entries.size());
    for (size_t k = 0; k < next.size(); ++k) {
      Entry& e = s->m.entries[k];
      if (e.hasTime && e.c->parameterSize() != 0) next[k] = timeValue(e, t);
    }
    Out o = call(op, *s, [&] { s->base().rightHandSideAt(t); }, false);
    touched(*s);
    logf("time %.17g -> %d", t, o);
    if (o != OK || lies) {
      if (lies) for (size_t k = 0; k < next.size(); ++k) if (next[k].size()) {
            with(*s, [&](auto& x) { return x.getRightHandSide(s->m.entries[k].c, next[k]); });
            if (!next[k].allFinite()) { slot[indexOf(s)] = Slot(); return; }
          }
      adopt(*s, next, "right hand side at a time");
      return;
    }
    for (size_t k = 0; k < next.size(); ++k) if (next[k].size()) s->m.entries[k].rhs = next[k];
    if (is("C15")) { SIM_PROBE("time set"); checkRhs(*s, "right hand side at a time"); }
  }
  void opOption(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Rng r(op.s);
    setOptions(s->m, r, false);
    applyOptions(*s);
    touched(*s);
  }
  void opFree(const Op& op) {
    Slot* s = get(op.a);
    if (!s || (s->b && s->m.anyExplicit())) return;
    Rng r(op.s);
    std::vector<char> f((size_t)w.space.nv, 1);
    double many = is("C03") && r.chance(.4) ? .15 : .7;
    if (!r.chance(.2))
      for (auto& b : w.space.blocks) {
        if (b.type == B_RN) for (long j = 0; j < b.nv; ++j) f[(size_t)(b.iv + j)] = r.chance(many);
        else { char c = r.chance(many); for (long j = 0; j < b.nv; ++j) f[(size_t)(b.iv + j)] = c; }
      }
    segments_t sg;
    for (long i = 0; i < w.space.nv; ++i) if (f[(size_t)i]) sg.push_back(segment_t(i, 1));
    if (sg.empty()) return;
    if (r.chance(.5)) s->base().freeVariables(sg);
    else {
      Eigen::RowBlockIndices idx;
      for (auto& x : sg) idx.addRow(x.first, x.second);
      idx.updateIndices<true, true, true>();
      s->base().freeVariables(idx);
    }
    s->m.userFree = true;
    s->m.freeV = f;
    s->m.resetImplicitRhs();
    touched(*s);
  }
  void opSolve(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Rng r(op.s);
    Model& m = s->m;
    Configuration_t q(start(*s, op.b, r)), q0(q);
    int l = (int)(op.c % 4);
    bool optimize = op.d == 1 && s->b;
    // before
    double e0 = HUGE_VAL, c0 = 0;
    bool clean = true;
    for (auto& e : m.entries) clean = clean && !m.it(e).hasBad;
    if (is("C03") && clean && r.chance(.2) && (s->hasLast || op.b % 7 < 2)) {
      // a start that is satisfied by a margin of our choice
      Configuration_t from(s->hasLast ? s->lastQ : w.qStar);
      vector_t d(randomVelocity(w.space.nv, r, 1));
      double want = r.uni(.1, .95), lo = 0, hi = 1, a = 1;
      auto at = [&](double x) { return m.explicitSolve(clampToBounds(w, integrateConf(w.space, from, vector_t(x * d)))); };
      for (int i = 0; i < 40; ++i) {
        a = .5 * (lo + hi);
        double e2 = m.maxError2(at(a));
        if (e2 > want * want * m.thr * m.thr) hi = a; else lo = a;
      }
      q = q0 = at(lo);
      SIM_PROBE("start at a chosen error");
    }
    Configuration_t qs(q);
    if (is("C03") && clean) {
      qs = m.explicitSolve(q);
      e0 = std::sqrt(m.maxError2(qs));
      c0 = m.cost(qs);
    }
    double expl0 = clean && is("C03") ? std::sqrt(m.maxError2(q, false, true)) : HUGE_VAL;
    HI::Status st = HI::INFEASIBLE;
    u64 ev = ctl.evals;
    Out o = call(op, *s, [&] { st = solveSlot(*s, q, l, optimize); });
    ev = ctl.evals - ev;
    logf("solve %d -> %d status %d evaluations %llu", l, o, o == OK ? (int)st : -1, (unsigned long long)ev);
    logv("q", q.data(), q.size());
    sigAdd(mix((u64)(o == OK ? st : 9) * 16 + (u64)l * 2 + optimize + std::min<u64>(ev, 40) * 1000));
    ++res->steps;
    if (is("C02")) checkFrame(*s, q0, q);
    if (o == OK && st == HI::SUCCESS) SIM_PROBE("solve succeeded");
    else if (o == OK) SIM_PROBE("solve did not succeed");
    else SIM_PROBE("solve aborted");
    if (is("C01") && o == OK && st == HI::SUCCESS && !lies && !(q.allFinite() && q.cwiseAbs().maxCoeff() > 1e5)) {
      bool nan;
      SIM_CHECK(!m.undefinedAt(q, nan), "success-undefined", "success is reported where a constraint is not defined");
      double e2 = m.maxError2(q);
      ++res->nontrivial;
      SIM_CHECK(e2 <= m.thr * m.thr * (1 + 1e-5) + 1e-20, "false-success", "success is reported at an error of %.9g for a threshold of %.9g", std::sqrt(e2), m.thr);
    }
    if (o == OK && !lies && q.allFinite() && q.cwiseAbs().maxCoeff() <= 1e5) { s->lastQ = q; s->hasLast = true; if (is("C01")) checkSatisfaction(*s, q, "after a solve"); }
    if (is("C03") && o == OK && clean && op.fault == "-") {
      bool satisfiedStart = expl0 <= 1e-3 * m.thr && e0 <= .45 * m.thr;
      if (satisfiedStart && !optimize) {
        ++res->nontrivial;
        SIM_PROBE("start already satisfied");
        SIM_CHECK(st == HI::SUCCESS, "satisfied-start", "a start with error %.9g for a threshold of %.9g is reported as status %d", e0, m.thr, (int)st);
        double e1 = std::sqrt(m.maxError2(q));
        SIM_CHECK(e1 <= m.thr * (1 + 1e-6), "satisfied-start", "a start with error %.9g comes back with error %.9g for a threshold of %.9g", e0, e1, m.thr);
      }
      if (expl0 <= 1e-3 * m.thr && e0 > .55 * m.thr && e0 <= .95 * m.thr && !optimize) {
        ++res->nontrivial;
        SIM_CHECK(st == HI::SUCCESS, "satisfied-start", "a start with error %.9g for a threshold of %.9g is reported as status %d", e0, m.thr, (int)st);
      }
      if (optimize && m.lastOpt && m.stacks() >= 1 && e0 <= .45 * m.thr && q.cwiseAbs().maxCoeff() < 1e5) {
        ++res->nontrivial;
        SIM_PROBE("optimising solve from a solution");
        double e1 = std::sqrt(m.maxError2(q)), c1 = m.cost(q);
        SIM_CHECK(e1 <= std::max(e0, .5 * m.thr) * (1 + 1e-6), "optimise-feasible", "an optimising solve went from error %.9g to %.9g (threshold %.9g)", e0, e1, m.thr);
        SIM_CHECK(c1 <= c0 * (1 + 1e-9) + 1e-15, "optimise-cost", "an optimising solve went from cost %.12g to %.12g", c0, c1);
      }
    }
  }
  // C03: evaluations no longer fail, constraints are consistent and well conditioned
  void opProgress(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Model& m = s->m;
    Rng r(op.s);
    for (auto& e : m.entries) {
      if (m.it(e).hasBad || !m.it(e).smooth) return;
      // derivative of the implicit form of these explicit functions is approximate
      if (m.it(e).e && !e.expl) {
        LiegroupSpacePtr_t os(m.it(e).e->explicitFunction()->outputSpace());
        if (!os->isVectorSpace() && os->nq() != 7) return;
      }
    }
    if (m.userFree && s->b) return;
    std::vector<vector_t> keep;
    with(*s, [&](auto& x) { x.rightHandSideFromConfig(w.qStar); return 0; });
    for (auto& e : m.entries) e.rhs = rhsOfConfig(w, e, w.qStar);
    touched(*s);
    Model all(m);
    all.lastOpt = false;
    if (!(std::sqrt(all.maxError2(w.qStar)) < 1e-7)) { SIM_PROBE("progress: not consistent"); return; }
    // inequalities must not interfere
    for (auto& e : m.entries)
      for (size_t i = 0; i < m.it(e).comp.size(); ++i)
        if (m.it(e).comp[i] == Superior || m.it(e).comp[i] == Inferior) return;
    matrix_t J(m.reducedJacobian(w.qStar, false));
    if (J.rows() == 0 || J.rows() > J.cols()) { SIM_PROBE("progress: no or too many rows"); return; }
    Eigen::JacobiSVD<matrix_t> svd(J);
    double smin = svd.singularValues()[J.rows() - 1], smax = svd.singularValues()[0];
    if (smin < .2 || smax > 12 * smin) { SIM_PROBE("progress: ill conditioned"); return; }
    m.thr = std::pow(10., r.uni(-3.5, -2));
    m.maxIter = 300;
    m.sat = 0;
    m.lbl = false;
    m.lastOpt = m.lastOpt && m.stacks() > 1;
    applyOptions(*s);
    Configuration_t q(perturb(w.space, w.qStar, r, .006)), q0(q);
    std::vector<char> fr(m.freeMask());
    if (m.userFree) q = w.qStar, q = integrateConf(w.space, q, [&] { vector_t v(randomVelocity(w.space.nv, r, .006)); for (long i = 0; i < v.size(); ++i) if (!fr[(size_t)i]) v[i] = 0; return v; }());
    int l = (int)(op.c % 4);
    disarmFault();
    HI::Status st = HI::INFEASIBLE;
    Op none(op);
    none.fault = "-";
    Out o = call(none, *s, [&] { st = solveSlot(*s, q, l, false); });
    ++res->nontrivial;
    SIM_PROBE("progress required");
    logf("progress -> %d %d", o, st);
    SIM_CHECK(o == OK && st == HI::SUCCESS, "no-progress", "a solve (line search %d) of consistent constraints (singular values %.3g .. %.3g, threshold %.3g) close to a solution ends with status %d", l, smin, smax, m.thr, (int)st);
    double e = std::sqrt(m.maxError2(q));
    SIM_CHECK(e <= m.thr * (1 + 1e-6), "false-success", "success at an error of %.9g for a threshold of %.9g", e, m.thr);
    s->lastQ = q;
    s->hasLast = true;
  }
  void opQuery(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Rng r(op.s);
    Configuration_t q(start(*s, op.b, r));
    if (op.c == 1) { bool nan; if (!s->m.undefinedAt(q, nan)) try { q = s->m.explicitSolve(q); } catch (const FunctionNotDefinedForThisValue&) {} }
    bool nan, un = s->m.undefinedAt(q, nan), sat = false;
    Out o = call(op, *s, [&] { sat = with(*s, [&](auto& x) { return x.isSatisfied(q); }); });
    logf("satisfied -> %d %d", o, sat);
    if (nan && o == OK && !lies && is("C01")) SIM_PROBE("queried where not a number");
    if (is("C01") && o == OK && !lies && un && sat) fail("wrong-verdict", "isSatisfied answers yes where an explicit function is not defined");
    if (is("C01") && !un) checkSatisfaction(*s, q, "query");
    Entry* e = entry(*s, op.d);
    if (e) {
      vector_t er(vector_t::Zero(e->c->function().outputDerivativeSize()));
      bool f;
      call(op, *s, [&] { with(*s, [&](auto& x) { return x.isConstraintSatisfied(e->c, q, er, f); }); });
    }
  }
  void opStep(const Op& op) {
    Slot* s = get(op.a);
    if (!s || !s->b || s->m.entries.empty() || s->base().reducedDimension() == 0) return;
    Rng r(op.s);
    Configuration_t q(start(*s, op.b, r)), q0(q);
    bool ok = false;
    Out o = call(op, *s, [&] {
      switch (op.c % 3) {
        case 0: { ls::Constant x; ok = s->b->oneStep(q, x); break; }
        case 1: { ls::FixedSequence x; ok = s->b->oneStep(q, x); break; }
        default: { ls::Backtracking x; ok = s->b->oneStep(q, x); }
      }
    });
    logf("step -> %d %d", o, ok);
    logv("q", q.data(), q.size());
    if (is("C02")) checkFrame(*s, q0, q);
  }
  void opProject(const Op& op) {
    Slot* s = get(op.a);
    if (!s || !s->b) return;
    Model& m = s->m;
    Rng r(op.s);
    Configuration_t q(perturb(w.space, w.qStar, r, op.b == 0 ? .1 : .5));
    bool nan = false;
    bool bad = m.undefinedAt(q, nan);
    if (!bad && !nan) {
      try { q = m.explicitSolve(q); } catch (const FunctionNotDefinedForThisValue&) { bad = true; }
      if (!bad) bad = m.undefinedAt(q, nan);
    }
    vector_t v(randomVelocity(w.space.nv, r, 1)), out(vector_t::Constant(w.space.nv, 3.));
    Configuration_t qq(q);
    if (op.fault != "-" || bad || nan) {
      call(op, *s, [&] { s->b->projectVectorOnKernel(qq, v, out); });
      return;
    }
    call(op, *s, [&] { s->b->projectVectorOnKernel(q, v, out); });
    logv("projected", out.data(), out.size());
    if (!is("C16")) return;
    if (m.reducedDim() == 0) return;
    if (m.userFree && m.anyExplicit()) return;
    bool exact = q.allFinite() && q.cwiseAbs().maxCoeff() < 100;  // finite differences
    for (auto& e : m.entries) {
      if (m.it(e).e && !e.expl) {
        LiegroupSpacePtr_t os(m.it(e).e->explicitFunction()->outputSpace());
        if (!os->isVectorSpace() && os->nq() != 7) exact = false;
      }
      vector_t raw(m.raw(e, q));
      for (long i = 0; i < raw.size(); ++i) {
        ComparisonType c = m.it(e).comp[(size_t)i];
        if ((c == Superior && std::abs(raw[i] - m.ineq) < 1e-3) || (c == Inferior && std::abs(raw[i] + m.ineq) < 1e-3)) exact = false;
      }
      if (!m.it(e).smooth) exact = false;
      // precision of the finite differences of the reference model
      if (!(raw.norm() < 100)) exact = false;
      LiegroupSpacePtr_t fs(e.c->function().outputSpace());
      if (!fs->isVectorSpace() && fs->nq() == 4 && std::abs(raw[raw.size() - 1]) < .02) exact = false;
      if (!m.it(e).lieOut && !w.robot) continue;
      if (raw.norm() > 2.5) exact = false;
    }
    if (!exact) return;
    std::vector<char> fr(m.freeMask());
    std::vector<long> cols;
    for (long i = 0; i < w.space.nv; ++i) if (fr[(size_t)i]) cols.push_back(i);
    SIM_CHECK(out.allFinite(), "kernel", "the projected velocity is not finite");
    for (long i = 0; i < w.space.nv; ++i) if (!fr[(size_t)i]) SIM_CHECK(out[i] == 0, "kernel-not-free", "variable %ld is not free and has velocity %.9g", i, out[i]);
    matrix_t J;
    try { J = m.reducedJacobian(q, false); } catch (const FunctionNotDefinedForThisValue&) { return; }
    if (!J.allFinite()) return;
    // rows of inequalities that are not violated do not count
    long row = 0;
    for (auto& e : m.entries) {
      if (e.expl) continue;
      vector_t er(m.error(e, q));
      for (long i = 0; i < er.size(); ++i) {
        if (!m.it(e).mask[(size_t)i]) continue;
        ComparisonType c = m.it(e).comp[(size_t)i];
        if ((c == Superior || c == Inferior) && er[i] == 0) J.row(row).setZero();
        ++row;
      }
    }
    if (J.rows() == 0 || J.cols() == 0) return;
    Eigen::JacobiSVD<matrix_t> svd(J, Eigen::ComputeThinU | Eigen::ComputeThinV);
    const vector_t& sv(svd.singularValues());
    double s0 = sv[0];
    if (s0 < 1e-2) return;
    long rank = 0;
    bool clear = true, full = true;
    for (long i = 0; i < sv.size(); ++i) {
      if (sv[i] > 1e-2 * s0) ++rank;
      else { full = false; if (sv[i] > 1e-9 * s0) clear = false; }
    }
    if (!clear) return;
    vector_t vf((long)cols.size()), of((long)cols.size());
    for (size_t k = 0; k < cols.size(); ++k) { vf[(long)k] = v[cols[k]]; of[(long)k] = out[cols[k]]; }
    double t = (J * of).norm();
    if (verbose) for (auto& b : w.space.blocks) {
      long a = 0, n = 0;
      if (b.type == B_SO2) n = 2; else if (b.type == B_SO3) n = 4; else if (b.type == B_SE2) { a = 2; n = 2; } else if (b.type == B_SE3 || b.type == B_R3xSO3) { a = 3; n = 4; }
      logf("block type %d at %ld norm-1 = %g", b.type, b.iq, n ? q.segment(b.iq + a, n).norm() - 1 : 0.);
    }
    { vector_t jo(J * of); logv("moves", jo.data(), jo.size()); logv("sv", sv.data(), sv.size());
      for (auto& e : m.entries) logf("  \"%s\" %s, level %zu, %ld rows", m.it(e).label.c_str(), e.expl ? "explicit" : "implicit", e.prio, (long)m.it(e).comp.size()); }
    ++res->nontrivial;
    SIM_PROBE("kernel checked");
    SIM_CHECK(t <= 1e-4 * s0 * (1 + vf.norm()), "kernel-not-tangent", "the projected velocity moves the constraints by %.6g", t);
    {
      if (!full) SIM_PROBE("kernel of redundant rows checked");
      matrix_t V1(svd.matrixV().leftCols(rank));
      vector_t expect(vf - V1 * (V1.transpose() * vf));
      SIM_CHECK((expect - of).norm() <= 1e-4 * (1 + vf.norm()), "kernel-not-closest", "the projected velocity is %.6g away from the closest one", (expect - of).norm());
      vector_t again(vector_t::Constant(w.space.nv, -7.));
      s->b->projectVectorOnKernel(q, out, again);
      SIM_CHECK((again - out).norm() <= 1e-9 * (1 + out.norm()), "kernel-not-idempotent", "projecting twice changes the velocity by %.6g", (again - out).norm());
    }
    // configurations
    Configuration_t to(perturb(w.space, q, r, .3)), got(q);
    s->b->projectOnKernel(q, to, got);
    vector_t d(diffConf(w.space, q, to)), pd(vector_t::Zero(w.space.nv));
    s->b->projectVectorOnKernel(q, d, pd);
    Configuration_t should(integrateConf(w.space, q, pd));
    if (m.sat) should = clampToBounds(w, should);
    for (long i = 0; i < got.size(); ++i)
      SIM_CHECK(std::abs(got[i] - should[i]) <= 1e-9 * (1 + std::abs(should[i])), "kernel-configuration", "variable %ld of the projected configuration is %.12g, should be %.12g", i, got[i], should[i]);
  }
  void opFresh(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Model& m = s->m;
    // the same values, to the last bit
    Model m2(m);
    bool exact = true;
    for (auto& e : m2.entries) {
      vector_t v(vector_t::Zero(e.rhs.size()));
      bool f = with(*s, [&](auto& x) { return x.getRightHandSide(e.c, v); });
      SIM_CHECK(f && (v - e.rhs).cwiseAbs().maxCoeff() <= 1e-7, "past-rhs", "right hand side of \"%s\" is %s, the last one that was set is %s", m.it(e).label.c_str(), vecStr(v).c_str(), vecStr(e.rhs).c_str());
      e.rhs = v;
    }
    Slot f(buildFresh(m2, identityOrder(m.entries.size()), true));
    for (size_t i = 0; i < m2.entries.size() && i < f.m.entries.size(); ++i) {
      vector_t v(vector_t::Zero(m2.entries[i].rhs.size()));
      with(f, [&](auto& x) { return x.getRightHandSide(f.m.entries[i].c, v); });
      if (!(v == m2.entries[i].rhs)) exact = false;
    }
    SIM_CHECK(f.m.entries.size() == m.entries.size(), "past", "a fresh solver takes %zu constraints, the old one has %zu", f.m.entries.size(), m.entries.size());
    int what = exact ? A_ALL : (A_STRUCT | A_RHS | A_SAT);
    if (!exact) SIM_PROBE("fresh: right hand side not reproducible to the bit");
    u64 seed = op.s;
    Answers a(answers(*s, seed, what)), b(answers(f, seed, what));
    std::string d = diffAnswers(a, b, exact ? 1e-9 : 1e-7);
    ++res->nontrivial;
    SIM_PROBE("compared with a fresh solver");
    SIM_CHECK(d.empty(), "past", "the solver and a fresh one differ: %s", d.c_str());
    Answers a2(answers(*s, seed, what));
    d = diffAnswers(a, a2, 1e-12);
    SIM_CHECK(d.empty(), "past", "asking twice gives different answers: %s", d.c_str());
  }
  void opOrder(const Op& op) {  // C12: another order of additions
    Slot* s = get(op.a);
    if (!s || s->m.userFree) return;
    Model& m = s->m;
    Rng r(op.s);
    std::vector<int> o(identityOrder(m.entries.size()));
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    Slot f(buildFresh(m, o, true));
    if (f.m.entries.size() != m.entries.size()) return;  // an order in which one is refused by an exception
    if (m.lastOpt && f.m.stacks() != m.stacks()) return;
    if (m.lastOpt) for (auto& e : m.entries) for (auto& g : f.m.entries) if (e.item == g.item && e.expl != g.expl) return;
    for (int k = 0; k < 6; ++k) {
      Configuration_t q(start(*s, (long)r.below(7), r));
      bool nan;
      if (m.undefinedAt(q, nan)) continue;
      if (k % 2 == 0) try { q = m.explicitSolve(q); } catch (const FunctionNotDefinedForThisValue&) { continue; }
      if (m.undefinedAt(q, nan)) continue;
      double e2 = m.maxError2(q);
      if (std::isfinite(e2) && std::abs(std::sqrt(e2) - m.thr) < 1e-5 * m.thr + 1e-10) continue;
      bool a = with(*s, [&](auto& x) { return x.isSatisfied(q); }), b = with(f, [&](auto& x) { return x.isSatisfied(q); });
      ++res->nontrivial;
      SIM_CHECK(a == b, "order", "constraints added in another order: satisfied %d against %d (error %.9g, threshold %.9g)", a, b, std::sqrt(e2), m.thr);
    }
    SIM_PROBE("other order of additions");
  }
  void opCopy(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    int k = freeIndex(op.b);
    if (k == indexOf(s)) return;
    bool ext = op.kind == "extract";
    Rng r(op.s);
    double t0 = r.uni(0, 2), t1 = r.uni(0, 2);
    if (r.chance(.15)) t0 = 0;
    if (r.chance(.15)) t1 = 0;
    if (t0 == t1) t1 += 1;
    interval_t iv(t0, t1);
    Answers before;
    if (is("C06")) before = answers(*s, plan.seed);
    Slot n;
    bool assign = !ext && Rng(mix(op.s ^ 0xa551)).chance(.25);
    if (assign) {  // onto another solver, with its own past
      SIM_PROBE("assigned");
      if (s->b) {
        if (slot[k].b) n.b = slot[k].b;
        else n.b.reset(new BS(w.space.sp));
        if (ext || op.s % 2) *n.b = *s->b;
        else *n.b = BS(*s->b);
      } else {
        if (slot[k].h) n.h = slot[k].h;
        else n.h.reset(new HI(w.space.sp));
        *n.h = *s->h;
      }
    } else if (s->b) n.b.reset(ext ? new BS(s->b->extract(iv)) : new BS(*s->b));
    else n.h.reset(ext ? new HI(s->h->extract(iv)) : new HI(*s->h));
    n.m = s->m;
    n.lastQ = s->lastQ;
    n.hasLast = s->hasLast;
    std::vector<ImplicitPtr_t> cs(n.base().constraints().begin(), n.base().constraints().end());
    SIM_CHECK(cs.size() == n.m.entries.size(), "copy", "a copy has %zu constraints, its source %zu", cs.size(), n.m.entries.size());
    for (size_t i = 0; i < cs.size(); ++i) {
      Entry& e = n.m.entries[i];
      if (is("C06")) SIM_CHECK(cs[i] != e.c, "copy-shares", "constraint %zu of a copy is the object of the source", i);
      e.c = cs[i];
      if (ext && e.hasTime && !(t0 == 0 && t1 > 0)) e.time.chain.push_back({t0, t0 > t1});
    }
    logf("%s %g %g", op.kind.c_str(), t0, t1);
    slot[k] = n;
    hasRef[k] = false;
    if (is("C06")) {
      ref[k] = answers(slot[k], plan.seed);
      hasRef[k] = true;
      std::string d = diffAnswers(before, ref[k], 1e-12);
      ++res->nontrivial;
      SIM_CHECK(d.empty(), ext ? "extract-differs" : "copy-differs", "%s answers differently from its source: %s", ext ? "an extracted solver" : "a copy", d.c_str());
    }
    if (is("C15") && ext) {
      // the extracted solver at s is the source at its start + s (or - s)
      SIM_PROBE("extracted");
      double p = r.uni(0, std::abs(t1 - t0));
      slot[k].base().rightHandSideAt(p);
      for (auto& e : slot[k].m.entries) if (e.hasTime) e.rhs = timeValue(e, p);
      Slot src;  // another copy of the source, at the corresponding time
      if (s->b) src.b.reset(new BS(*s->b)); else src.h.reset(new HI(*s->h));
      src.m = s->m;
      std::vector<ImplicitPtr_t> c2(src.base().constraints().begin(), src.base().constraints().end());
      for (size_t i = 0; i < c2.size(); ++i) src.m.entries[i].c = c2[i];
      double ps = t0 > t1 ? t0 - p : t0 + p;
      src.base().rightHandSideAt(ps);
      for (auto& e : src.m.entries) if (e.hasTime) e.rhs = timeValue(e, ps);
      checkRhs(slot[k], "extracted solver");
      std::string d = diffAnswers(answers(src, plan.seed, A_RHS | A_SAT), answers(slot[k], plan.seed, A_RHS | A_SAT), 1e-8);
      ++res->nontrivial;
      for (size_t i = 0; i < c2.size(); ++i) {
        DifferentiableFunctionPtr_t fe(slot[k].m.entries[i].c->rightHandSideFunction()), fs(c2[i]->rightHandSideFunction());
        SIM_CHECK((bool)fe == (bool)fs, "extract-time", "constraint %zu of an extracted solver %s a right hand side function", i, fe ? "has" : "lost");
        if (!fe) continue;
        vector_t a(vector_t::Constant(1, p)), b(vector_t::Constant(1, ps));
        matrix_t je(matrix_t::Zero(fe->outputDerivativeSize(), 1)), js(je);
        fe->jacobian(je, a);
        fs->jacobian(js, b);
        if (t0 > t1) js = -js;
        SIM_CHECK((je - js).cwiseAbs().maxCoeff() <= 1e-8 * (1 + js.cwiseAbs().maxCoeff()), "extract-jacobian", "the velocity of right hand side %zu of an extracted solver at %.9g is not the one of its source at %.9g", i, p, ps);
        SIM_PROBE("velocity of an extracted right hand side");
      }
      SIM_CHECK(d.empty(), "extract-time", "an extracted solver at %.9g differs from its source at %.9g: %s", p, ps, d.c_str());
    }
  }
  void opDestroy(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    int n = 0;
    for (auto& x : slot) n += (bool)x;
    if (n < 2) return;
    *s = Slot();
    hasRef[indexOf(s)] = false;
    logf("destroyed");
  }
  bool usesObject(const Slot& s, const ImplicitPtr_t& c) const {
    for (auto& e : s.m.entries) if (e.c == c) return true;
    return false;
  }
  // change constraint objects of one solver behind its back: only this one may notice
  void opTamper(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Entry* e0 = entry(*s, op.b);
    if (!e0) return;
    ImplicitPtr_t c(e0->c);
    long how = op.c % 3;
    if (how == 0) {
      ComparisonTypes_t t(c->comparisonType());
      for (auto& x : t) x = x == Equality ? EqualToZero : Equality;
      c->comparisonType(t);
    } else if (how == 1) {
      for (auto x : c->comparisonType()) if (x != Equality) return;
      c->rightHandSideFunction(DifferentiableFunctionPtr_t(new TimeFn(c->function().outputSpace(), op.s)));
    } else {
      if (c->rightHandSideFunction()) c->rightHandSideAt(.3);
    }
    logf("constraint object changed (%ld)", how);
    SIM_PROBE("constraint object changed");
    compareUntouched(c);
    if (how == 2) return;
    for (int k = 0; k < NS; ++k)
      if (slot[k] && usesObject(slot[k], c)) { slot[k] = Slot(); hasRef[k] = false; }
    // the others still take right hand sides
    for (int k = 0; k < NS; ++k) {
      if (!slot[k]) continue;
      Op o(op);
      o.a = k;
      for (long i = 0; i < (long)slot[k].m.entries.size(); ++i) { o.b = i; o.s = mix(op.s + (u64)i); opRhs(o); }
      vector_t all(with(slot[k], [&](auto& x) { return x.rightHandSide(); }));
      with(slot[k], [&](auto& x) { x.rightHandSide(all); return 0; });
      checkRhs(slot[k], "after a change to a copy");
    }
  }
  // copies of one constraint
  void opConstraintCopy(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    Entry* e = entry(*s, op.b);
    if (!e) return;
    ImplicitPtr_t c(e->c), d(c->copy());
    SIM_CHECK(*c == *d && *d == *c, "constraint-copy", "a copy of \"%s\" is not equal to it", s->m.it(*e).label.c_str());
    ComparisonTypes_t t(c->comparisonType());
    SIM_CHECK(d->comparisonType() == t && d->activeRows() == c->activeRows() && d->parameterSize() == c->parameterSize(), "constraint-copy", "a copy of \"%s\" has other comparison types or rows", s->m.it(*e).label.c_str());
    SIM_CHECK((bool)d->rightHandSideFunction() == (bool)c->rightHandSideFunction(), "constraint-copy", "a copy has another right hand side function");
    ComparisonTypes_t u(t);
    for (auto& x : u) x = x == Equality ? EqualToZero : Equality;
    d->comparisonType(u);
    SIM_CHECK(c->comparisonType() == t, "constraint-copy", "changing the comparison types of a copy changes its source");
    d->comparisonType(t);
    DifferentiableFunctionPtr_t rf(c->rightHandSideFunction());
    d->rightHandSideFunction(DifferentiableFunctionPtr_t());
    SIM_CHECK(c->rightHandSideFunction() == rf, "constraint-copy", "changing the right hand side function of a copy changes its source");
    ++res->nontrivial;
    compareUntouched(ImplicitPtr_t());
  }
  void compareUntouched(const ImplicitPtr_t& c) {
    for (int k = 0; k < NS; ++k) {
      if (!slot[k] || !hasRef[k]) continue;
      if (c && usesObject(slot[k], c)) continue;
      std::string d = diffAnswers(ref[k], answers(slot[k], plan.seed), 1e-12);
      ++res->nontrivial;
      SIM_CHECK(d.empty(), "not-independent", "an operation on another solver changed an answer of solver %d: %s", k, d.c_str());
    }
  }
  void opPrint(const Op& op) {
    Slot* s = get(op.a);
    if (!s) return;
    std::ostringstream o;
    with(*s, [&](auto& x) { x.print(o); return 0; });
    logf("printed %zu", o.str().size());
  }
  void opMove(const Op& op);

  void run() {
    for (size_t i = 0; i < plan.ops.size(); ++i) {
      const Op& op = plan.ops[i];
      ++res->ops;
      logf("op %zu %s %ld %ld %ld %ld %s", i, op.kind.c_str(), op.a, op.b, op.c, op.d, op.fault.c_str());
      u64 kh = 0;
      for (char ch : op.kind) kh = kh * 31 + (u64)ch;
      sigAdd(kh);
      const std::string& k = op.kind;
      if (k == "new") opNew(op);
      else if (k == "add") opAdd(op);
      else if (k == "merge") opMerge(op);
      else if (k == "rhs") opRhs(op);
      else if (k == "rhsq") opRhsConfig(op);
      else if (k == "rhsv") opRhsVec(op);
      else if (k == "timefn") opTimeFn(op);
      else if (k == "at") opAt(op);
      else if (k == "option") opOption(op);
      else if (k == "free") opFree(op);
      else if (k == "solve") opSolve(op);
      else if (k == "progress") opProgress(op);
      else if (k == "query") opQuery(op);
      else if (k == "step") opStep(op);
      else if (k == "project") opProject(op);
      else if (k == "fresh") opFresh(op);
      else if (k == "order") opOrder(op);
      else if (k == "copy" || k == "extract") opCopy(op);
      else if (k == "destroy") opDestroy(op);
      else if (k == "tamper") opTamper(op);
      else if (k == "ccopy") opConstraintCopy(op);
      else if (k == "print") opPrint(op);
      else if (k == "move") opMove(op);
      else fail("plan", "unknown operation %s", k.c_str());
      after(op);
    }
  }
  void after(const Op& op) {
    u64 st = 0;
    for (auto& s : slot) if (s) { st = st * 131 + s.m.entries.size() * 8 + s.m.stacks(); }
    sigAdd(st);
    if (is("C05") || is("C15")) for (auto& s : slot) if (s) checkRhs(s, op.kind.c_str());
    if (is("C12")) for (auto& s : slot) if (s) checkMembers(s, op.kind.c_str());
    if (is("C06")) {
      compareUntouched(ImplicitPtr_t());
      for (int k = 0; k < NS; ++k)
        if (slot[k] && !hasRef[k]) { ref[k] = answers(slot[k], plan.seed); hasRef[k] = true; }
    }
  }
};
void Hist::opMove(const Op& op) {
  if (!w.robot) return;
  Rng r(op.s);
  w.robot->currentConfiguration(perturb(w.space, w.qStar, r, 1.));
  w.robot->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
  fired(F_ROBOT_MOVED);
}

// ---------------------------------------------------------------- generators
const Weights& weights(const std::string& prop) {
  static std::map<std::string, Weights> all = {
      {"C01", {{"add", 14}, {"merge", 2}, {"rhs", 8}, {"rhsq", 6}, {"rhsv", 2}, {"option", 5}, {"solve", 22}, {"query", 14}, {"copy", 3}, {"free", 1}, {"timefn", 1}, {"at", 2}, {"step", 2}, {"project", 1}, {"new", 1}, {"extract", 1}, {"destroy", 1}}},
      {"C02", {{"add", 14}, {"rhs", 6}, {"rhsq", 4}, {"option", 4}, {"solve", 30}, {"free", 3}, {"step", 5}, {"copy", 2}, {"query", 2}, {"merge", 1}, {"new", 1}, {"extract", 1}}},
      {"C03", {{"add", 12}, {"rhs", 3}, {"rhsq", 5}, {"option", 5}, {"solve", 18}, {"progress", 14}, {"copy", 2}, {"query", 2}, {"free", 3}, {"merge", 1}, {"new", 1}}},
      {"C04", {{"add", 12}, {"rhs", 8}, {"rhsq", 6}, {"rhsv", 3}, {"option", 4}, {"solve", 14}, {"query", 6}, {"project", 4}, {"step", 3}, {"fresh", 16}, {"copy", 2}, {"merge", 3}, {"free", 2}, {"print", 1}, {"timefn", 2}, {"at", 3}, {"new", 1}, {"extract", 1}}},
      {"C05", {{"add", 12}, {"rhs", 16}, {"rhsq", 12}, {"rhsv", 12}, {"solve", 6}, {"query", 4}, {"copy", 4}, {"merge", 3}, {"option", 2}, {"timefn", 4}, {"at", 8}, {"free", 1}, {"new", 1}, {"extract", 2}}},
      {"C06", {{"add", 10}, {"rhs", 8}, {"rhsq", 5}, {"rhsv", 4}, {"solve", 7}, {"option", 4}, {"copy", 9}, {"extract", 5}, {"destroy", 4}, {"tamper", 7}, {"ccopy", 3}, {"merge", 4}, {"timefn", 4}, {"at", 5}, {"free", 1}, {"query", 3}, {"new", 2}}},
      {"C12", {{"add", 26}, {"merge", 10}, {"copy", 6}, {"solve", 4}, {"query", 3}, {"order", 10}, {"free", 2}, {"rhs", 3}, {"new", 4}, {"destroy", 2}, {"extract", 2}, {"rhsq", 2}, {"option", 1}}},
      {"C15", {{"add", 12}, {"timefn", 14}, {"at", 22}, {"rhs", 6}, {"extract", 10}, {"copy", 5}, {"merge", 2}, {"solve", 4}, {"rhsq", 3}, {"rhsv", 2}, {"query", 2}, {"new", 1}, {"destroy", 3}}},
      {"C16", {{"add", 14}, {"project", 26}, {"solve", 8}, {"rhs", 3}, {"rhsq", 4}, {"option", 3}, {"query", 3}, {"fresh", 6}, {"copy", 2}, {"free", 2}, {"step", 2}, {"new", 1}}},
  };
  return all[prop];
}
void generateHist(Plan& p) {
  Rng r(mix(p.seed * 0x9e3779b9ULL + 77));
  std::string pr = p.prop;
  p.knobs["world"] = (long)r.below(1000000000);
  p.knobs["world_kind"] = r.chance(.3) ? 1 : 0;
  p.knobs["n_items"] = pr == "C15" ? r.range(3, 7) : r.range(2, 9);
  p.knobs["mem_layout"] = (long)r.below(1000);
  p.knobs["mem_fill"] = (long)r.below(6);
  bool cons = pr == "C03" || r.chance(.4);
  p.knobs["consistent"] = cons;
  p.knobs["smooth"] = pr == "C03" || pr == "C16" ? 1 : 0;
  p.knobs["bad"] = pr == "C03" ? r.chance(.2) : (pr == "C16" ? r.chance(.3) : 1);
  p.knobs["ineq"] = pr == "C03" ? r.chance(.3) : (pr == "C15" ? 0 : r.chance(.7));
  p.knobs["masks"] = r.chance(.6);
  p.knobs["lie"] = r.chance(.8);
  p.knobs["twins"] = pr == "C12" || pr == "C04" ? 1 : r.chance(.4);
  p.knobs["malformed"] = pr == "C12" ? r.chance(.5) : 0;
  p.knobs["several"] = r.chance(.4);
  const Weights& wt = weights(pr);
  double tot = 0;
  for (auto& x : wt) tot += x.second;
  long n = r.range(8, 36);
  long nItems = p.knobs["n_items"];
  double bsP = pr == "C16" ? 1 : .8;
  auto op = [&](const std::string& k) {
    Op o;
    o.kind = k;
    o.a = (long)r.below(Hist::NS);
    o.s = r.next() >> 1;
    if (k == "new") { o.b = r.chance(bsP) ? 0 : 1; }
    else if (k == "add") { o.b = (long)r.below((u64)nItems); o.c = r.chance(.55) ? 0 : (long)r.below(3); }
    else if (k == "rhsq") { o.b = r.chance(.5) ? 0 : r.range(1, 9); o.c = (long)r.below(3); }
    else if (k == "rhsv") { o.b = r.chance(.4) ? 0 : 1; }
    else if (k == "solve") { o.b = (long)r.below(7); o.c = (long)r.below(4); o.d = r.chance(.25); }
    else if (k == "query") { o.b = (long)r.below(7); o.c = (long)r.below(2); o.d = (long)r.below(9); }
    else if (k == "at") { o.b = (long)r.below(4); }
    else { o.b = (long)r.below(9); o.c = (long)r.below(12); }
    static const std::map<std::string, double> faulty = {{"solve", .35}, {"query", .3}, {"rhsq", .25}, {"at", .25}, {"project", .2}, {"step", .3}};
    auto f = faulty.find(k);
    if (f != faulty.end() && r.chance(f->second)) {
      static const std::vector<Fault> kinds = {F_THROW, F_THROW, F_UNDEFINED, F_BADALLOC_CB, F_NAN, F_INF, F_ADVERSARIAL};
      o.fault = faultNames[r.pick(kinds)];
      o.at = r.chance(.5) ? r.range(1, 6) : r.range(1, 60);
    }
    return o;
  };
  Op first(op("new"));
  first.a = 0;
  p.ops.push_back(first);
  long nadd = r.range(1, nItems);
  if (pr == "C03") nadd = r.range(1, 3);
  for (long i = 0; i < nadd; ++i) { Op a(op("add")); a.a = 0; p.ops.push_back(a); }
  if (pr == "C15") for (int i = 0; i < 3; ++i) { Op a(op("timefn")); a.a = 0; a.b = i; a.c = 0; p.ops.push_back(a); }
  if (r.chance(.5)) { Op b(op("new")); b.a = 1; p.ops.push_back(b); for (int i = 0; i < 2; ++i) { Op a(op("add")); a.a = 1; p.ops.push_back(a); } }
  for (long i = 0; i < n; ++i) {
    double x = r.uni() * tot;
    std::string k = wt.begin()->first;
    for (auto& y : wt) { if (x < y.second) { k = y.first; break; } x -= y.second; }
    if (p.knobs["world_kind"] == 1 && r.chance(.08)) k = "move";
    p.ops.push_back(op(k));
  }
  if (pr == "C04" || pr == "C16") { Op f(op("fresh")); p.ops.push_back(f); f.a = 1; p.ops.push_back(f); }
  if (pr == "C03") for (int i = 0; i < 2; ++i) { Op f(op("progress")); p.ops.push_back(f); }
}
void executeHist(const Plan& p) {
  if (p.knob("mem_layout")) fired(F_MEM_LAYOUT);
  if (p.knob("mem_fill")) fired(F_MEM_GARBAGE);
  Hist h(p);
  h.run();
}
#define HIST(x) Registrar reg##x(#x, generateHist, executeHist)
HIST(C01);
HIST(C02);
HIST(C03);
HIST(C04);
HIST(C05);
HIST(C06);
HIST(C12);
HIST(C15);
HIST(C16);
}  // namespace
}  // namespace sim
