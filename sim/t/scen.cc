// Threads that evaluate constraint functions of one robot at the same time (C07), and the robot
// data they share (C08).
#include <boost/thread.hpp>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/explicit.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/implicit.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/relative-com.hh>
#include <hpp/constraints/solver/by-substitution.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
#include <hpp/pinocchio/device-sync.hh>
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/joint.hh>
#include <sstream>

#include "common/robot.hh"
#include "h/robot.hh"
#include "h/world.hh"
#include "t/hooks.hh"
#include "t/sched.hh"

namespace sim {
namespace {
using namespace hpp::constraints;
using hpp::constraints::solver::BySubstitution;
typedef hpp::constraints::solver::HierarchicalIterative HI;
namespace ls = hpp::constraints::solver::lineSearch;

// a function of the user, as thread safe as can be
class UserFn : public DifferentiableFunction {
 public:
  matrix_t A;
  UserFn(long nq, long nv, long m, const std::string& name, Rng& r) : DifferentiableFunction(nq, nv, m, name), A(matrix_t::Zero(m, nv)) {
    for (long i = 0; i < m; ++i) for (long j = 0; j < 5; ++j) A(i, j) = r.uni(-1, 1);
  }
  void impl_compute(LiegroupElementRef res, vectorIn_t q) const override { res.vector() = A.leftCols<3>() * q.head<3>(); }
  void impl_jacobian(matrixOut_t J, vectorIn_t) const override { J.setZero(); J.leftCols<3>() = A.leftCols<3>(); }
};
enum { XK_SUBSET = 100, XK_AFFINE, XK_CONSTANT, XK_IDENTITY, XK_USER, XK_COMPLEMENT, XK_PARTIAL_COM, XK_LOCKED, XK_HOLD, XK_REL, XK_REL_IMPL, XK_SET, XK_DIFF, XK_SHAPES, XK_END };
const int kinds[] = {RK_POSITION, RK_ORIENTATION, RK_TRANSFORMATION, RK_TRANSFORMATION_G, RK_RPOSITION, RK_RORIENTATION, RK_RTRANSFORMATION, RK_RTRANSFORMATION_G,
                     RK_ORIENTATION_G, RK_COM, RK_COM, RK_CONFIG, RK_CONTACT, RK_CONTACT, XK_SUBSET, XK_AFFINE, XK_CONSTANT, XK_IDENTITY, XK_USER, XK_COMPLEMENT, XK_PARTIAL_COM, XK_LOCKED, XK_HOLD, XK_REL, XK_REL, XK_REL_IMPL, XK_SET, XK_DIFF, XK_SHAPES, XK_SHAPES};
const long NKINDS = sizeof kinds / sizeof *kinds;

ExplicitPtr_t makePose(const DevicePtr_t& d, Rng& r, const std::string& name) {
  static const char* par[] = {"arm/j5", "arm/j3", "arm/j4", "box2/root_joint"};
  const char* child = d->model().existJointName("box3/root_joint") && r.chance(.5) ? "box3/root_joint" : "box1/root_joint";
  return explicit_::RelativePose::create(name, d, d->getJointByName(par[r.below(4)]), d->getJointByName(child), randomPose(r, .3), randomPose(r, .1), ComparisonTypes_t(6, Equality));
}
// in: the variables that are arguments of the function, when not all of them are
DifferentiableFunctionPtr_t makeFn(const DevicePtr_t& d, int kind, u64 seed, const Configuration_t& q0, const std::string& tag, std::shared_ptr<Eigen::RowBlockIndices>* in = nullptr) {
  Rng r(mix(seed ^ 0x7e4d));
  long nq = d->configSize(), nv = d->numberDof();
  if (kind < XK_SUBSET) return makeRobotFunction(d, kind, seed, q0, robotKindName(kind) + tag);
  switch (kind) {
    case XK_SUBSET: {
      static const int in[] = {RK_POSITION, RK_RTRANSFORMATION, RK_COM, RK_CONTACT};
      DifferentiableFunctionPtr_t g(makeRobotFunction(d, in[r.below(4)], seed, q0, "inner" + tag));
      segment_t a(0, nq), b(0, nv);
      return function::OfParameterSubset::create(g, nq, nv, a, b);
    }
    case XK_AFFINE: {
      matrix_t A(3, nq);
      vector_t b(3);
      for (long i = 0; i < 3; ++i) { b[i] = r.uni(-1, 1); for (long j = 0; j < nq; ++j) A(i, j) = r.uni(-1, 1); }
      return AffineFunction::create(A, b, "affine" + tag);
    }
    case XK_CONSTANT: { vector_t c(2); c << 1, r.uni(-1, 1); return ConstantFunction::create(c, nq, nv, "constant" + tag); }
    case XK_IDENTITY: return Identity::create(d->configSpace(), "identity" + tag);
    case XK_USER: return DifferentiableFunctionPtr_t(new UserFn(nq, nv, 2, "user function" + tag, r));
    case XK_COMPLEMENT: return ConvexShapeContactComplement::createPair("contact" + tag, d, floorShapes(d, r), objectShapes(d, r)).second;
    case XK_SHAPES: {
      // edges and points: some objects are refused when the function is evaluated
      JointAndShapes_t fl(floorShapes(d, r)), ob(objectShapes(d, r));
      auto cut = [&](JointAndShapes_t& s, double pr) { for (auto& x : s) if (r.chance(pr) && x.second.size() > 2) x.second.resize(1 + r.below(2)); };

      cut(ob, .7);
      if (r.chance(.3)) return ConvexShapeContactComplement::createPair("edges" + tag, d, fl, ob).second;
      return ConvexShapeContact::create("edges" + tag, d, fl, ob);
    }
    case XK_HOLD: return ConvexShapeContactHold::create("hold" + tag, d, floorShapes(d, r), objectShapes(d, r));
    case XK_REL_IMPL: return makePose(d, r, "relative pose" + tag)->functionPtr();
    case XK_REL: {
      if (!in) return makePose(d, r, "relative pose" + tag)->functionPtr();
      ExplicitPtr_t e(makePose(d, r, "relative pose" + tag));
      in->reset(new Eigen::RowBlockIndices(e->inputConf()));
      return e->explicitFunction();
    }
    case XK_SET: {
      DifferentiableFunctionSetPtr_t s(DifferentiableFunctionSet::create("set" + tag));
      static const int in2[] = {RK_RPOSITION, RK_COM, RK_TRANSFORMATION_G, RK_ORIENTATION_G};
      for (int i = 0; i < 2; ++i) s->add(makeRobotFunction(d, in2[r.below(4)], seed + (u64)i, q0, "part " + std::to_string(i) + tag));
      return s;
    }
    case XK_DIFF: {
      static const int in3[] = {RK_POSITION, RK_RTRANSFORMATION_G, RK_COM, RK_ORIENTATION_G};
      DifferentiableFunctionPtr_t g(makeRobotFunction(d, in3[r.below(4)], seed, q0, "inner" + tag));
      segment_t a(0, nq), b(0, nv);
      return DifferentiableFunctionPtr_t(new function::Difference(g, nq, nv, a, b, a, b));
    }
    case XK_PARTIAL_COM: {
      hpp::pinocchio::CenterOfMassComputationPtr_t c(hpp::pinocchio::CenterOfMassComputation::create(d));
      c->add(d->getJointByName("arm/j3"));
      return RelativeCom::create("partial com" + tag, d, c, d->getJointByName("arm/j5"), vector3_t(0, 0, .1), std::vector<bool>(3, true));
    }
    default: return LockedJoint::create(d->getJointByName("arm/j3"), LiegroupElement(q0.segment(2, 1), d->getJointByName("arm/j3")->configurationSpace()))->functionPtr();
  }
}
struct Outcome {
  int how = 0;  // 0 not done, 1 done, 2 failed
  std::vector<double> v;
  std::string err;
};
struct Ctx;
struct Act { const Op* op; Outcome out; int held; };
struct Ctx {
  DevicePtr_t robot;
  std::vector<DifferentiableFunctionPtr_t> fns;
  std::vector<std::shared_ptr<Eigen::RowBlockIndices> > in;
  std::vector<int> kind;
  std::vector<Configuration_t> q;
  std::shared_ptr<BySubstitution> solver;
  std::vector<ImplicitPtr_t> constraints;
  std::vector<std::shared_ptr<BySubstitution> > own;  // one per thread
};
Ctx* ctx;
void put(Outcome& o, const double* p, long n) { for (long i = 0; i < n; ++i) o.v.push_back(p[i]); }

// one operation; everything it makes is its own
void perform(const Op& op, Outcome& o, BySubstitution* own) {
  const Configuration_t& whole = ctx->q[(size_t)op.c % ctx->q.size()];
  if (op.kind == "eval") {
    const DifferentiableFunctionPtr_t& f = ctx->fns[(size_t)op.b % ctx->fns.size()];
    // no resizing here: Eigen does not survive when it fails
    auto& in = ctx->in[(size_t)op.b % ctx->fns.size()];
    const Configuration_t q(in ? Configuration_t(in->rview(whole)) : Configuration_t(whole));
    LiegroupElement v(f->outputSpace()->neutral());
    matrix_t J(matrix_t::Zero(f->outputDerivativeSize(), f->inputDerivativeSize()));
    switch (op.d % 5) {
      case 0: f->value(v, q); break;
      case 1: f->value(v, q); f->jacobian(J, q); break;
      case 2: f->jacobian(J, q); break;
      case 3: f->jacobian(J, q); f->value(v, q); break;
      default: {
        ConvexShapeContactPtr_t c(HPP_DYNAMIC_PTR_CAST(ConvexShapeContact, f));
        if (c) {
          std::vector<ConvexShapeContact::ForceData> fd(c->computeContactPoints(q, .5));
          sched::Guard g;
          o.v.push_back((double)fd.size());
          for (auto& x : fd) { put(o, x.normal.data(), 3); for (auto& p : x.points) put(o, p.data(), 3); }
        } else if (!in && op.s % 4 == 0 && op.fault != "alloc_fail" && op.fault != "thread_fail" && f->inputSize() == whole.size()) {
          f->finiteDifferenceForward(J, q, ctx->robot, 1e-6);
        } else { v = (*f)(q); }
      }
    }
    sched::Guard g;
    put(o, v.vector().data(), v.vector().size());
    put(o, J.data(), J.size());
    return;
  }
  if (op.kind == "look") {
    // printing, comparing and copying: no robot data, but objects other threads use
    const DifferentiableFunctionPtr_t& f = ctx->fns[(size_t)op.b % ctx->fns.size()];
    const DifferentiableFunctionPtr_t& f2 = ctx->fns[(size_t)op.s % ctx->fns.size()];
    std::string text;
    double yes = 0;
    switch (op.d % 5) {
      case 0: { std::ostringstream os; os << *f; text = os.str(); break; }
      case 1: yes = *f == *f2; break;
      case 2: {
        ImplicitPtr_t c(Implicit::create(f, ComparisonTypes_t((size_t)f->outputDerivativeSize(), Equality)));
        if (!ctx->constraints.empty()) { ImplicitPtr_t d(ctx->constraints[(size_t)op.s % ctx->constraints.size()]->copy()); yes = *d == *c; c = d; }
        std::ostringstream os;
        os << c->function();
        text = os.str();
        break;
      }
      case 3: if (own) { std::ostringstream os; os << *own; text = os.str(); } break;
      default: if (ctx->solver) { BySubstitution b(*ctx->solver); yes = (double)b.dimension() + (double)b.reducedDimension() * 100; for (auto& c : ctx->constraints) yes += 1000 * b.contains(c); }
    }
    sched::Guard g;
    o.v.push_back(yes);
    o.v.push_back((double)text.size());
    for (size_t k = 0; k < text.size(); k += 7) o.v.push_back((double)text[k]);
    return;
  }
  // solvers
  std::unique_ptr<BySubstitution> mine;
  if (op.kind == "copy" || !own) { mine.reset(new BySubstitution(*ctx->solver)); own = mine.get(); }
  Configuration_t x(whole);
  double extra[4] = {0, 0, 0, 0};
  vector_t vec;
  switch (op.d % 5) {
    case 0: { ls::Backtracking l; extra[0] = own->solve(x, l); break; }
    case 1: { ls::FixedSequence l; extra[0] = own->solve(x, l); break; }
    case 2: {
      extra[0] = own->isSatisfied(x);
      vec = vector_t::Zero(own->dimension() + own->explicitConstraintSet().errorSize());
      bool sat = own->isSatisfied(x, vec);
      extra[1] = sat;
      break;
    }
    case 3: vec = own->rightHandSideFromConfig(x); extra[0] = own->isSatisfied(x); break;
    default: {
      vector_t d(vector_t::Constant(ctx->robot->numberDof(), .1)), r(vector_t::Zero(d.size()));
      own->projectVectorOnKernel(x, d, r);
      vec = r;
    }
  }
  sched::Guard g;
  put(o, extra, 4); put(o, x.data(), x.size()); put(o, vec.data(), vec.size());
}
struct ThreadCtx { int id; std::vector<Act*> acts; };
const char* nameOfOp(const Op& op, char* b, size_t n) {
  if (op.kind == "eval") {
    const DifferentiableFunctionPtr_t& f = ctx->fns[(size_t)op.b % ctx->fns.size()];
    static const char* what[] = {"value", "value and Jacobian", "Jacobian", "Jacobian and value", "contact points"};
    snprintf(b, n, "%s of %s", what[op.d % 5], f->name().c_str());
  } else if (op.kind == "look") {
    static const char* what[] = {"printing", "comparing", "copying", "printing a solver", "looking at a solver"};
    snprintf(b, n, "%s", what[op.d % 5]);
  } else {
    static const char* what[] = {"solve", "solve", "verdict", "right hand side", "kernel"};
    snprintf(b, n, "%s of %s solver", what[op.d % 5], op.kind == "copy" ? "a copied" : "its own");
  }
  return b;
}
void threadMain(void* p) {
  ThreadCtx* t = (ThreadCtx*)p;
  for (Act* a : t->acts) {
    {
      sched::Guard g;
      char b[160];
      sched::describe(nameOfOp(*a->op, b, sizeof b));
    }
    bool alloc = a->op->fault == "alloc_fail" || a->op->fault == "thread_fail";
    if (a->op->fault == "stall") sched::armStall((u64)a->op->at + 1, 1 + a->op->s % 400);
    if (alloc) sched::armAlloc(a->op->at + 1);
    try {
      perform(*a->op, a->out, ctx->own.empty() ? nullptr : ctx->own[(size_t)t->id - 1].get());
      if (alloc && sched::disarmAlloc()) fired(F_ALLOC_FAIL);  // and somebody dealt with it
      a->out.how = 1;
    } catch (const std::bad_alloc&) {
      sched::Guard g;
      if (alloc && sched::disarmAlloc()) { a->out.how = 2; fired(F_ALLOC_FAIL); fired(F_THREAD_FAIL); }
      else { a->out.how = 3; a->out.err = "std::bad_alloc"; }
    } catch (const std::exception& e) {
      sched::Guard g;
      if (alloc) sched::disarmAlloc();
      a->out.how = 3; a->out.err = e.what();
    }
    sched::Guard g;
    sched::disarmStall();
    a->held = holding[t->id].now;
    if (a->held && raiseData) sched::failNow("kept-data", "thread %d (%s, %s) ends an evaluation and keeps a robot data", t->id, a->op->kind.c_str(), a->out.how == 2 ? "failed" : "done");
    ++res->steps;
  }
}
void build(Ctx& c, const Plan& p, DevicePtr_t robot) {
  Rng r(mix((u64)p.knob("world") ^ 0x7a3e));
  c.robot = robot;
  Space sp(robotSpace(robot));
  Configuration_t q0(robotNominal(robot, r));
  long nf = std::max<long>(1, p.knob("n_fns", 2));
  for (long i = 0; i < nf; ++i) {
    Rng g(mix((u64)p.knob("world") * 131 + (u64)i));
    int k = kinds[g.below(NKINDS)];
    // functions that are alike meet in the same code
    if (i && g.chance(.35)) k = c.kind[g.below(c.kind.size())];
    c.kind.push_back(k);
    std::shared_ptr<Eigen::RowBlockIndices> in;
    c.fns.push_back(makeFn(robot, k, g.next(), q0, " " + std::to_string(i), &in));
    c.in.push_back(in);
  }
  long nq = std::max<long>(1, p.knob("n_configs", 2));
  for (long i = 0; i < nq; ++i) { Rng g(mix((u64)p.knob("world") * 137 + (u64)i)); c.q.push_back(perturb(sp, q0, g, i ? .4 : .05)); }
  if (p.knob("solver")) {
    c.solver.reset(new BySubstitution(robot->configSpace()));
    c.solver->maxIterations(6);
    c.solver->errorThreshold(1e-3);
    if (r.chance(.5)) c.solver->saturation(hpp::make_shared<solver::saturation::Device>(robot));
    long n = std::min<long>(nf, r.range(1, 3));
    for (long i = 0; i < n; ++i) {
      DifferentiableFunctionPtr_t f(c.fns[(size_t)i % c.fns.size()]);
      if (!f->outputSpace()->isVectorSpace() || f->outputSize() > 6 || f->inputDerivativeSize() != robot->numberDof() || f->inputSize() != robot->configSize()) {
        Rng g(mix((u64)p.knob("world") * 139 + (u64)i));
        f = makeFn(robot, RK_POSITION + (int)g.below(3), g.next(), q0, " for the solver " + std::to_string(i));
      }
      ComparisonTypes_t ct((size_t)f->outputDerivativeSize(), r.chance(.5) ? Equality : EqualToZero);
      ImplicitPtr_t ic(Implicit::create(f, ct));
      c.constraints.push_back(ic);
      c.solver->add(ic, (size_t)(i == 2 ? 1 : 0));
    }
    if (r.chance(.4)) c.solver->add(makePose(robot, r, "grasp"));
    if (r.chance(.5)) {
      JointPtr_t j(robot->getJointByName("arm/j4"));
      c.solver->add(LockedJoint::create(j, LiegroupElement(q0.segment(j->rankInConfiguration(), j->configSize()), j->configurationSpace())));
    }
  }
}
bool needsSolver(const Op& op) { return op.kind != "eval" && op.kind != "look"; }

void execute(const Plan& p) {
  bool c8 = p.prop == "C08";
  DevicePtr_t robot(simRobot(robotVariant((u64)p.knob("world"))));
  long nData = std::max<long>(1, p.knob("n_data", 1));
  robot->numberDeviceData(nData);
  Ctx shared, fresh;
  long nt = std::min<long>(std::max<long>(1, p.knob("n_threads", 2)), sched::MAXT - 1);
  build(shared, p, robot);
  build(fresh, p, simRobotBis(robotVariant((u64)p.knob("world"))));
  if (shared.solver) for (long t = 0; t < nt; ++t) shared.own.emplace_back(new BySubstitution(*shared.solver));
  std::vector<Act> acts(p.ops.size());
  std::vector<ThreadCtx> tc((size_t)nt);
  for (long t = 0; t < nt; ++t) tc[(size_t)t].id = (int)t + 1;
  size_t n = 0;
  for (auto& op : p.ops) {
    if (op.kind == "switch") continue;
    if (needsSolver(op) && !shared.solver) continue;
    acts[n].op = &op;
    tc[(size_t)(op.a % nt)].acts.push_back(&acts[n]);
    ++n;
    ++res->ops;
  }
  acts.resize(n);
  sched::Config cfg;
  cfg.seed = (u64)p.knob("sched", 1);
  cfg.mode = (int)p.knob("mode", 0);
  cfg.gap = (double)std::max<long>(1, p.knob("gap", 300));
  cfg.changes = (int)p.knob("n_changes", 3);
  cfg.length = (u64)std::max<long>(10, p.knob("length", 20000));
  cfg.atLock = (double)p.knob("at_lock", 30) / 100;
  cfg.spurious = (double)p.knob("spurious", 0) / 100;
  cfg.explicitSchedule = p.knob("explicit") != 0;
  // what a sequential evaluation gives
  std::vector<Outcome> expect(n);
  auto sequential = [&]() {
    ctx = &fresh;
    // solvers keep right hand sides: the thread's own solver has its own history
    std::vector<std::unique_ptr<BySubstitution> > own((size_t)nt);
    for (long t = 0; t < nt; ++t) {
      if (fresh.solver) own[(size_t)t].reset(new BySubstitution(*fresh.solver));
      for (Act* a : tc[(size_t)t].acts) {
        size_t i = (size_t)(a - acts.data());
        try { perform(*a->op, expect[i], own[(size_t)t].get()); expect[i].how = 1; }
        catch (const std::exception& e) { expect[i].how = 3; expect[i].err = e.what(); }
        // a solver whose operation failed half way is not used again
      }
    }
  };
  bool first = p.knob("oracle_first") != 0;
  if (first) sequential();
  ctx = &shared;
  resetData();
  raiseData = c8;
  cfg.races = !c8;
  sched::configure(cfg);
  for (auto& op : p.ops) if (op.kind == "switch") sched::addSwitch((int)op.a, (u64)op.b, (int)op.c);
  for (long t = 0; t < nt; ++t) sched::spawn(threadMain, &tc[(size_t)t]);
  sched::run();
  res->evals += n;
  u64 total = 0;
  for (int i = 0; i < sched::MAXT; ++i) total += holding[i].total;
  logf("accesses %llu switches %llu preemptions %llu locks %llu waits %llu blocked %llu", (unsigned long long)sched::stats.accesses, (unsigned long long)sched::stats.switches,
       (unsigned long long)sched::stats.preemptions, (unsigned long long)sched::stats.locks, (unsigned long long)sched::stats.waits, (unsigned long long)sched::stats.blocked);
  res->simTime += (double)sched::stats.accesses;
  if (sched::stats.waits) SIM_PROBE("a thread waited for a robot data");
  if (sched::stats.spurious) SIM_PROBE("a wait ended without a signal");
  if (sched::stats.stalls) SIM_PROBE("a thread stalled in an evaluation");
  if (sched::stats.preemptions) SIM_PROBE("preempted");
  if (nt > nData) SIM_PROBE("more threads than robot data");
  if (!first) sequential();
  ctx = &shared;
  // robot data: all of them are available again
  {
    std::vector<std::unique_ptr<hpp::pinocchio::DeviceSync> > all;
    for (long i = 0; i < nData; ++i) {
      all.emplace_back(new hpp::pinocchio::DeviceSync(robot));
      for (size_t k = 0; k + 1 < all.size(); ++k)
        SIM_CHECK(&all[k]->currentConfiguration() != &all.back()->currentConfiguration(), "same-data", "a robot data is given out twice");
    }
    if (c8) { ++res->nontrivial; if (total) SIM_PROBE("robot data counted"); }
  }
  if (c8 && total == 0) res->nontrivial = 0;
  std::vector<char> broken((size_t)nt, 0);
  for (long t = 0; t < nt; ++t)
    for (Act* a : tc[(size_t)t].acts) {
      size_t i = (size_t)(a - acts.data());
      char b[200];
      nameOfOp(*a->op, b, sizeof b);
      logf("%s -> %d", b, a->out.how);
      logv("result", a->out.v.data(), (long)a->out.v.size());
      sigAdd((u64)a->out.how);
      if (a->out.how == 2 && a->op->kind == "solver") broken[(size_t)t] = 1;
      if (c8) continue;
      if (a->out.how == 3 && expect[i].how == 3) {
        SIM_CHECK(a->out.err == expect[i].err, "value", "thread %ld: %s threw \"%s\", alone it throws \"%s\"", t + 1, b, a->out.err.c_str(), expect[i].err.c_str());
        if (a->op->kind == "solver") broken[(size_t)t] = 1;
        SIM_PROBE("an evaluation refused, like alone");
        ++res->nontrivial;
        continue;
      }
      SIM_CHECK(a->out.how != 3, "unexpected-exception", "thread %ld: %s threw %s", t + 1, b, a->out.err.c_str());
      SIM_CHECK(a->out.how != 0, "not-done", "thread %ld: %s did not end", t + 1, b);
      if (a->out.how == 2 || (a->op->kind == "solver" && broken[(size_t)t])) continue;
      ++res->nontrivial;
      SIM_CHECK(expect[i].how == 1, "value", "thread %ld: %s succeeds, alone it throws %s", t + 1, b, expect[i].err.c_str());
      SIM_CHECK(a->out.v.size() == expect[i].v.size(), "value", "thread %ld: %s has %zu numbers, alone it has %zu", t + 1, b, a->out.v.size(), expect[i].v.size());
      for (size_t k = 0; k < a->out.v.size(); ++k) {
        double x = a->out.v[k], y = expect[i].v[k];
        SIM_CHECK(x == y || (x != x && y != y), "value", "thread %ld: %s: number %zu is %.17g, alone it is %.17g", t + 1, b, k, x, y);
      }
    }
}
void generate(Plan& p) {
  Rng r(mix(p.seed ^ (p.prop == "C08" ? 0xc08 : 0xc07)));
  bool c8 = p.prop == "C08";
  p.knobs["world"] = (long)(r.next() >> 20);
  p.knobs["sched"] = (long)(r.next() >> 20);
  p.knobs["n_threads"] = r.chance(.5) ? 2 : r.range(3, c8 ? 5 : 4);
  p.knobs["n_data"] = c8 ? (r.chance(.5) ? 1 : r.range(1, 3)) : (r.chance(.3) ? 1 : r.range(1, 4));
  p.knobs["n_fns"] = r.chance(.5) ? 1 : r.range(1, 4);
  p.knobs["n_configs"] = r.range(1, 3);
  p.knobs["solver"] = r.chance(c8 ? .25 : .35);
  p.knobs["mode"] = r.below(3);
  static const long gaps[] = {3, 20, 100, 500, 3000};
  p.knobs["gap"] = gaps[r.below(5)];
  p.knobs["n_changes"] = r.range(1, 6);
  p.knobs["length"] = r.chance(.5) ? r.range(50, 3000) : r.range(3000, 60000);
  p.knobs["at_lock"] = r.pick(std::vector<long>{0, 10, 50, 90});
  p.knobs["spurious"] = r.chance(.4) ? r.range(5, 60) : 0;
  p.knobs["oracle_first"] = r.chance(.4);
  p.knobs["mem_layout"] = (long)(r.next() >> 40);
  p.knobs["mem_fill"] = r.below(6);
  bool faults = r.chance(c8 ? .7 : .4);
  for (long t = 0; t < p.knobs["n_threads"]; ++t) {
    long n = r.chance(.6) ? 1 : r.range(1, 3);
    for (long i = 0; i < n; ++i) {
      Op o;
      o.a = t;
      o.kind = p.knobs["solver"] && r.chance(.5) ? (r.chance(.3) ? "copy" : "solver") : "eval";
      o.b = r.chance(.6) ? 0 : r.range(0, 3);
      o.c = r.range(0, 2);
      o.d = r.range(0, 4);
      if (o.d == 4 && o.kind == "eval" && r.chance(.5)) o.d = 1;
      o.s = r.next() >> 16;
      if (!c8 && r.chance(.12)) o.kind = "look";
      if (faults && r.chance(.35)) {
        if (r.chance(.5) && o.kind == "eval") { o.fault = "thread_fail"; o.at = r.chance(.6) ? r.range(0, 12) : r.range(0, 60); }
        else { o.fault = "stall"; o.at = r.chance(.5) ? r.range(0, 300) : r.range(0, 4000); }
      }
      p.ops.push_back(o);
    }
  }
}
Registrar r7("C07", generate, execute);
Registrar r8("C08", generate, execute);
}  // namespace
}  // namespace sim
