// Solvers and constraints that survive a restart only through what was saved (C09), and archives
// that were cut short or streams that fail (C10).
#include <sys/wait.h>
#include <unistd.h>

#include <execinfo.h>
#include <signal.h>

#include <boost/serialization/vector.hpp>
#include <cmath>
#include <cstring>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/relative-com.hh>
#include <hpp/constraints/solver/by-substitution.hh>
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
#include <hpp/pinocchio/serialization.hh>
#include <hpp/util/serialization.hh>
#include <memory>
#include <set>
#include <sstream>
#include <typeinfo>

#include "common/robot.hh"
#include "h/model.hh"
#include "h/robot.hh"

namespace sim {
namespace {
namespace bs = boost::serialization;
typedef std::vector<char> Bytes;

// ------------------------------------------------------------------ transcripts
struct Line { std::string tag; std::vector<double> v; double tol = 1e-9; };
struct Transcript {
  std::vector<Line> l;
  void add(const std::string& t, const std::vector<double>& v, double tol = 1e-9) { Line x; x.tag = t; x.v = v; x.tol = tol; l.push_back(x); }
  void num(const std::string& t, double x) { add(t, std::vector<double>(1, x), 0); }
  template <class M> void mat(const std::string& t, const M& m, double tol = 1e-9) {
    std::vector<double> v;
    v.push_back((double)m.rows()); v.push_back((double)m.cols());
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) v.push_back((double)m(i, j));
    add(t, v, tol);
  }
  void txt(const std::string& t, const std::string& s) { add(t + " \"" + s + "\"", std::vector<double>()); }
  void segs(const std::string& t, const segments_t& s) {
    std::vector<double> v;
    for (auto& x : s) { v.push_back((double)x.first); v.push_back((double)x.second); }
    add(t, v, 0);
  }
};
std::string show(const Line& l) {
  std::ostringstream o;
  o << l.tag;
  for (size_t i = 0; i < l.v.size() && i < 14; ++i) o << " " << l.v[i];
  if (l.v.size() > 14) o << " ..";
  return o.str();
}
// first difference, empty if none; exact: bit by bit
std::string differ(const Transcript& a, const Transcript& b, bool exact) {
  for (size_t i = 0; i < a.l.size() || i < b.l.size(); ++i) {
    if (i >= a.l.size()) return "nothing / " + show(b.l[i]);
    if (i >= b.l.size()) return show(a.l[i]) + " / nothing";
    const Line &x = a.l[i], &y = b.l[i];
    bool same = x.tag == y.tag && x.v.size() == y.v.size();
    for (size_t k = 0; same && k < x.v.size(); ++k) {
      double p = x.v[k], q = y.v[k];
      if (p == q || (std::isnan(p) && std::isnan(q))) continue;
      if (exact || !(std::fabs(p - q) <= x.tol * std::max(1., std::fabs(p)))) same = false;
    }
    if (!same) return show(x) + " / " + show(y);
  }
  return "";
}
void put(Bytes& o, const void* p, size_t n) { o.insert(o.end(), (const char*)p, (const char*)p + n); }
void putN(Bytes& o, u64 n) { put(o, &n, sizeof n); }
void putS(Bytes& o, const std::string& s) { putN(o, s.size()); put(o, s.data(), s.size()); }
struct Reader {
  const Bytes& b;
  size_t at = 0;
  bool ok = true;
  explicit Reader(const Bytes& x) : b(x) {}
  void get(void* p, size_t n) { if (at + n > b.size()) { ok = false; memset(p, 0, n); return; } memcpy(p, b.data() + at, n); at += n; }
  u64 n() { u64 x = 0; get(&x, sizeof x); return x; }
  std::string s() { u64 k = n(); if (!ok || at + k > b.size()) { ok = false; return ""; } std::string r(b.data() + at, k); at += k; return r; }
};
void pack(Bytes& o, const Transcript& t) {
  putN(o, t.l.size());
  for (auto& x : t.l) { putS(o, x.tag); putN(o, x.v.size()); put(o, x.v.data(), sizeof(double) * x.v.size()); put(o, &x.tol, sizeof x.tol); }
}
bool unpack(Reader& r, Transcript& t) {
  u64 n = r.n();
  for (u64 i = 0; r.ok && i < n; ++i) {
    Line x;
    x.tag = r.s();
    u64 k = r.n();
    if (!r.ok || k > 1000000) return false;
    x.v.resize(k);
    r.get(x.v.data(), sizeof(double) * k);
    r.get(&x.tol, sizeof x.tol);
    t.l.push_back(x);
  }
  return r.ok;
}
bool readAll(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; }
  return true;
}
bool writeAll(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) { ssize_t k = write(fd, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; }
  return true;
}
bool sendBytes(int fd, const Bytes& b) { u64 n = b.size(); return writeAll(fd, &n, sizeof n) && writeAll(fd, b.data(), b.size()); }
bool recvBytes(int fd, Bytes& b) {
  u64 n;
  if (!readAll(fd, &n, sizeof n) || n > (1u << 28)) return false;
  b.resize(n);
  return readAll(fd, b.data(), n);
}

// ------------------------------------------------------------------ objects
struct Solver {
  std::shared_ptr<BS> b;
  std::shared_ptr<HI> h;
  HI& base() const { return b ? static_cast<HI&>(*b) : *h; }
};
// what one archive contains
struct Objects {
  DevicePtr_t d;
  std::vector<DifferentiableFunctionPtr_t> fns;
  std::vector<ImplicitPtr_t> cons;
  std::vector<Solver> solvers;
  // where the functions and constraints come from: their twins are made from these
  std::vector<u64> fnSeed, conSeed;
};
// how they are stored
struct Shape {
  u64 nf = 0, nc = 0, ns = 0;
  u64 bsMask = 0, ptrMask = 0;  // per solver: by substitution, through a pointer
  u64 solversFirst = 0, init = 0, fmt = 0;
};

Transform3s frame(Rng& g) {
  Transform3s m(randomPose(g, .3));
  double k = g.uni();
  if (k < .25) m.setIdentity();
  else if (k < .4) m.rotation().setIdentity();
  else if (k < .55) m.translation().setZero();
  return m;
}
std::vector<bool> maskOf(Rng& g, size_t n, double p) {
  std::vector<bool> m(n, true);
  if (!g.chance(p)) return m;
  bool any = false;
  for (size_t i = 0; i < n; ++i) { m[i] = g.chance(.6); any = any || m[i]; }
  if (!any) m[g.below(n)] = true;
  return m;
}
enum { SF_COUNT = 13 };
DifferentiableFunctionPtr_t makeFn(const DevicePtr_t& d, u64 seed, bool twin) {
  Rng g(mix(seed));
  long kind = (long)g.below(SF_COUNT);
  static const char* jn[] = {"arm/j5", "arm/j3", "arm/j4", "box1/root_joint", "box2/root_joint", "arm/j2", "box3/root_joint"};
  u64 nj = d->model().existJointName(jn[6]) ? 7 : 6;
  JointPtr_t j1(d->getJointByName(jn[g.below(nj)])), j2;
  do j2 = d->getJointByName(jn[g.below(nj)]); while (j2->index() == j1->index());
  bool world = g.chance(.2);
  std::ostringstream nm;
  nm << "f" << seed % 10000;
  std::string n(nm.str());
  Transform3s f1(frame(g)), f2(frame(g));
  JointPtr_t r1(world ? JointPtr_t() : j1);
  (void)twin;
  switch (kind) {
    case 0: return Position::create(n, d, j2, f2, f1, maskOf(g, 3, .4));
    case 1: return Orientation::create(n, d, j2, f2, f1, maskOf(g, 3, .4));
    case 2: return Transformation::create(n, d, j2, f2, f1, maskOf(g, 6, .4));
    case 3: return TransformationR3xSO3::create(n, d, j2, f2, f1);
    case 4: return RelativePosition::create(n, d, r1, j2, f1, f2, maskOf(g, 3, .4));
    case 5: return RelativeOrientation::create(n, d, r1, j2, f1, f2, maskOf(g, 3, .4));
    case 6: return RelativeTransformation::create(n, d, r1, j2, f1, f2, maskOf(g, 6, .4));
    case 7: return RelativeTransformationR3xSO3::create(n, d, r1, j2, f1, f2);
    case 8: return OrientationSO3::create(n, d, j2, f2, f1);
    case 9: return RelativeOrientationSO3::create(n, d, j1, j2, f1, f2);
    case 10: {
      if (g.chance(.5)) return RelativeCom::create(n, d, j1, vector3_t(g.uni(-1, 1), g.uni(-1, 1), .2), maskOf(g, 3, .4));
      hpp::pinocchio::CenterOfMassComputationPtr_t c(hpp::pinocchio::CenterOfMassComputation::create(d));
      c->add(g.chance(.5) ? d->rootJoint() : d->getJointByName("arm/j3"));
      return RelativeCom::create(n, d, c, j1, vector3_t(g.uni(-1, 1), g.uni(-1, 1), .2), maskOf(g, 3, .4));
    }
    case 11: return Identity::create(d->configSpace(), n);
    default: {
      static const int types[] = {B_RN, B_SE3, B_SO3, B_R3xSO3};
      LiegroupSpacePtr_t sp(groupSpace(types[g.below(4)], 2));
      return ConstantFunction::create(sp->exp(randomVelocity(sp->nv(), g, .7)), d->configSize(), d->numberDof(), n);
    }
  }
}
ComparisonTypes_t comparisons(Rng& g, const LiegroupSpace& sp) {
  ComparisonTypes_t c((size_t)sp.nv(), Equality);
  bool lie = !sp.isVectorSpace();
  double k = g.uni();
  if (k < .35) return c;
  for (auto& x : c) {
    double u = g.uni();
    x = u < .45 ? Equality : u < .75 || lie ? EqualToZero : u < .88 ? Superior : Inferior;
  }
  return c;
}
// fn: function used when the constraint is built on one, or null
ImplicitPtr_t makeCon(const DevicePtr_t& d, u64 seed, const DifferentiableFunctionPtr_t& shared) {
  Rng g(mix(seed ^ 0xc0));
  double k = g.uni();
  std::ostringstream nm;
  nm << "c" << seed % 10000;
  std::string n(nm.str());
  if (k < .5) {
    DifferentiableFunctionPtr_t f(shared ? shared : makeFn(d, g.next(), false));
    LiegroupSpacePtr_t sp(f->outputSpace());
    ComparisonTypes_t c(comparisons(g, *sp));
    ImplicitPtr_t i(Implicit::create(f, c, maskOf(g, c.size(), .35)));
    bool eq = true;
    for (auto x : c) eq = eq && x == Equality;
    if (eq && g.chance(.3)) {
      if (sp->isVectorSpace()) {
        matrix_t J(sp->nv(), 1);
        for (long a = 0; a < sp->nv(); ++a) J(a, 0) = g.uni(-1, 1);
        i->rightHandSideFunction(AffineFunction::create(J, randomVelocity(sp->nv(), g, .3), n + " time"));
      } else i->rightHandSideFunction(ConstantFunction::create(sp->exp(randomVelocity(sp->nv(), g, .5)), 1, 1, n + " time"));
    }
    return i;
  }
  Space space(robotSpace(d));
  Rng rq(mix(seed ^ 0xd1));
  Configuration_t q(robotNominal(d, rq));
  if (k < .68) {
    static const char* names[] = {"arm/j1", "arm/j3", "arm/j4", "arm/j5", "box1/root_joint", "box2/root_joint"};
    JointPtr_t j(d->getJointByName(names[g.below(6)]));
    LockedJointPtr_t l;
    long nx = d->extraConfigSpace().dimension();
    if (nx && g.chance(.4)) {
      long i0 = g.range(0, nx - 1), len = g.range(1, nx - i0);
      l = LockedJoint::create(d, i0, randomVelocity(len, g, .8));
      if (g.chance(.5)) l->comparisonType(ComparisonTypes_t((size_t)len, Equality));
      return l;
    }
    if (j->configSize() == 1 && g.chance(.3)) {
      vector_t v(1);
      v << g.uni(-1, 1);
      l = LockedJoint::create(j, 0, v);
    } else l = LockedJoint::create(j, LiegroupElement(vector_t(q.segment(j->rankInConfiguration(), j->configSize())), j->configurationSpace()));
    if (g.chance(.5)) l->comparisonType(ComparisonTypes_t((size_t)j->numberDof(), Equality));
    return l;
  }
  if (k < .86) {
    static const char* par[] = {"arm/j5", "arm/j3", "arm/j4", "box2/root_joint"};
    JointPtr_t p(d->getJointByName(par[g.below(4)]));
    if (g.chance(.15)) p.reset();
    Transform3s a(frame(g)), b(frame(g));
    const char* child = d->model().existJointName("box3/root_joint") && g.chance(.5) ? "box3/root_joint" : "box1/root_joint";
    return explicit_::RelativePose::create(n, d, p, d->getJointByName(child), a, b, g.chance(.5) ? ComparisonTypes_t(6, Equality) : ComparisonTypes_t(6, EqualToZero));
  }
  // explicit, affine or constant
  segments_t ic, oc, iv, ov;
  DifferentiableFunctionPtr_t f;
  if (g.chance(.6)) {
    // three arm variables give the last joint
    JointPtr_t o(d->getJointByName("arm/j5"));
    long ni = g.range(1, 3);
    matrix_t J(1, ni);
    for (long a = 0; a < ni; ++a) J(0, a) = g.uni(-.5, .5);
    f = AffineFunction::create(J, randomVelocity(1, g, .3), n + " of joints");
    ic.push_back(segment_t(0, ni)); iv = ic;
    oc.push_back(segment_t(o->rankInConfiguration(), 1)); ov.push_back(segment_t(o->rankInVelocity(), 1));
  } else {
    JointPtr_t o(d->getJointByName("box2/root_joint"));
    LiegroupSpacePtr_t sp(o->configurationSpace());
    f = ConstantFunction::create(sp->exp(randomVelocity(sp->nv(), g, .5)), 0, 0, n + " constant");
    oc.push_back(segment_t(o->rankInConfiguration(), o->configSize())); ov.push_back(segment_t(o->rankInVelocity(), o->numberDof()));
  }
  return Explicit::create(d->configSpace(), f, ic, oc, iv, ov, ComparisonTypes_t((size_t)ov[0].second, g.chance(.5) ? Equality : EqualToZero));
}

// ------------------------------------------------------------------ behaviour
typedef std::map<const void*, int> Ids;
int idOf(Ids& ids, const void* p) {
  if (!p) return -1;
  auto it = ids.find(p);
  if (it != ids.end()) return it->second;
  int n = (int)ids.size();
  return ids[p] = n;
}
struct Teller {
  const Objects& o;
  Transcript t;
  Ids ids;
  Space space;
  std::vector<Configuration_t> confs;
  Teller(const Objects& ob, u64 seed) : o(ob), space(robotSpace(ob.d)) {
    Rng r(mix(seed ^ 0x7e11));
    Configuration_t q0(robotNominal(ob.d, r));
    for (int i = 0; i < 3; ++i) confs.push_back(perturb(space, q0, r, .5));
  }
  void joint(const std::string& tag, const JointConstPtr_t& j) { t.txt(tag, j ? j->name() + (j->robot() == o.d ? "" : " of another robot") : "none"); }
  // the point of evaluation is taken from the configurations, cut or padded to the size of the input
  vector_t input(const DifferentiableFunction& f, int k) {
    if (f.inputSize() == confs[0].size()) return confs[(size_t)k];
    return vector_t(confs[(size_t)k].head(std::min<long>(f.inputSize(), confs[0].size())));
  }
  void fn(const std::string& tag, const DifferentiableFunctionPtr_t& f, bool slice = false) {
    if (!f) { t.txt(tag, "none"); return; }
    t.num(tag + " identity", idOf(ids, f.get()));
    t.txt(tag + " type", typeid(*f).name());
    t.txt(tag + " name", f->name());
    t.txt(tag + " context", f->context());
    t.txt(tag + " output space", f->outputSpace()->name());
    t.add(tag + " sizes", {(double)f->inputSize(), (double)f->inputDerivativeSize(), (double)f->outputSize(), (double)f->outputDerivativeSize()}, 0);
    t.mat(tag + " active parameters", f->activeParameters().cast<double>().matrix());
    t.mat(tag + " active derivatives", f->activeDerivativeParameters().cast<double>().matrix());
    auto rel = f->dependsOnRelPoseBetween(o.d);
    joint(tag + " relative pose of", rel.first);
    joint(tag + " relative pose to", rel.second);
    bool pose = slice && f->inputSize() > 0 && f->inputSize() % 7 == 0;
    for (int k = 0; k < 3; ++k) {
      vector_t in(input(*f, k));
      if (pose) in = confs[(size_t)k].tail(f->inputSize());  // configurations of the boxes
      t.mat(tag + " value", (*f)(in).vector());
      matrix_t J(f->outputDerivativeSize(), f->inputDerivativeSize());
      J.setZero();
      f->jacobian(J, in);
      t.mat(tag + " Jacobian", J);
    }
    gt<Position>(tag, f); gt<Orientation>(tag, f); gt<Transformation>(tag, f); gt<RelativePosition>(tag, f); gt<RelativeOrientation>(tag, f);
    gt<RelativeTransformation>(tag, f); gt<TransformationR3xSO3>(tag, f); gt<RelativeTransformationR3xSO3>(tag, f); gt<OrientationSO3>(tag, f); gt<RelativeOrientationSO3>(tag, f);
  }
  template <class T> void gt(const std::string& tag, const DifferentiableFunctionPtr_t& f) {
    auto p = HPP_DYNAMIC_PTR_CAST(T, f);
    if (!p) return;
    joint(tag + " joint1", p->joint1());
    joint(tag + " joint2", p->joint2());
    t.mat(tag + " frame1", p->frame1InJoint1().toHomogeneousMatrix());
    t.mat(tag + " frame2", p->frame2InJoint2().toHomogeneousMatrix());
  }
  void con(const std::string& tag, const ImplicitPtr_t& c, bool rhs) {
    if (!c) { t.txt(tag, "none"); return; }
    t.num(tag + " identity", idOf(ids, c.get()));
    t.txt(tag + " type", typeid(*c).name());
    std::vector<double> v;
    for (auto x : c->comparisonType()) v.push_back((double)x);
    t.add(tag + " comparison", v, 0);
    t.segs(tag + " active rows", c->activeRows());
    t.num(tag + " all rows active", c->checkAllRowsActive());
    t.add(tag + " parameter sizes", {(double)c->parameterSize(), (double)c->rightHandSideSize()}, 0);
    vector_t e(vector_t::Ones((long)c->comparisonType().size()));
    c->setInactiveRowsToZero(e);
    t.mat(tag + " error of ones", e);
    t.mat(tag + " equality rows", matrix_t(c->equalityIndices().rview(vector_t(vector_t::LinSpaced(e.size(), 0, (double)e.size() - 1)))));
    fn(tag + " function", c->functionPtr());
    fn(tag + " time function", c->rightHandSideFunction(), true);
    auto rel = c->doesConstrainRelPoseBetween(o.d);
    joint(tag + " constrains", rel.first);
    joint(tag + " constrains with", rel.second);
    if (rhs) {
      if (c->rightHandSideFunction()) t.mat(tag + " right hand side at .4", vector_t(c->rightHandSideAt(.4)));
    }
    if (auto x = HPP_DYNAMIC_PTR_CAST(Explicit, c)) {
      t.segs(tag + " input", x->inputConf()); t.segs(tag + " input velocity", x->inputVelocity());
      t.segs(tag + " output", x->outputConf()); t.segs(tag + " output velocity", x->outputVelocity());
      DifferentiableFunctionPtr_t f(x->explicitFunction());
      fn(tag + " explicit function", f, true);
      if (f) for (int k = 0; k < 2; ++k) {
        vector_t in(Eigen::RowBlockIndices(x->inputConf()).rview(confs[(size_t)k]));
        LiegroupElement res(f->outputSpace());
        LiegroupElement r(c->functionPtr()->outputSpace()->exp(vector_t(vector_t::Constant(c->functionPtr()->outputSpace()->nv(), .1))));
        x->outputValue(res, in, r);
        t.mat(tag + " output value", res.vector());
        LiegroupElement g((*f)(in));
        matrix_t J(f->outputDerivativeSize(), f->inputDerivativeSize());
        J.setZero();
        f->jacobian(J, in);
        x->jacobianOutputValue(in, g, r, J);
        t.mat(tag + " Jacobian of the output", J);
      }
    }
    if (auto l = HPP_DYNAMIC_PTR_CAST(LockedJoint, c)) {
      t.txt(tag + " locked joint", l->jointName());
      t.add(tag + " ranks", {(double)l->rankInConfiguration(), (double)l->rankInVelocity(), (double)l->configSize(), (double)l->numberDof()}, 0);
      joint(tag + " joint", l->joint());
      t.txt(tag + " space", l->configSpace()->name());
    }
    // copies are made from the constraint itself
    ImplicitPtr_t cp(c->copy());
    t.add(tag + " copy", {(double)(bool)cp, cp ? (double)(cp->comparisonType() == c->comparisonType()) : -1, cp ? (double)(*cp == *c) : -1, cp ? (double)(cp->activeRows() == c->activeRows()) : -1}, 0);
  }
  template <class S> void solverT(const std::string& tag, S& s, u64 seed) {
    constexpr bool bsub = std::is_same<S, BS>::value;
    t.add(tag + " options", {s.errorThreshold(), s.inequalityThreshold(), (double)s.maxIterations(), (double)s.lastIsOptional(), (double)s.solveLevelByLevel()}, 1e-12);
    t.add(tag + " dimensions", {(double)s.dimension(), (double)s.reducedDimension(), (double)s.numberStacks(), (double)s.rightHandSideSize(), (double)s.constraints().size()}, 0);
    t.txt(tag + " space", s.configSpace()->name());
    t.segs(tag + " free variables", s.freeVariables().indices());
    t.mat(tag + " active parameters", s.activeParameters().template cast<double>().matrix());
    t.mat(tag + " active derivatives", s.activeDerivativeParameters().template cast<double>().matrix());
    for (size_t i = 0; i < s.numberStacks(); ++i) {
      t.num(tag + " constraints of a level", (double)s.constraints(i).constraints().size());
      for (auto& c : s.constraints(i).constraints()) t.num(tag + " level member", idOf(ids, c.get()));
    }
    if (s.saturation()) {
      t.txt(tag + " saturation", typeid(*s.saturation()).name());
      t.num(tag + " saturation identity", idOf(ids, s.saturation().get()));
      Rng r(mix(seed ^ 1));
      for (int k = 0; k < 3; ++k) {
        Configuration_t q(perturb(space, confs[(size_t)k], r, 3)), qs(q);
        Eigen::VectorXi sat(space.nv);
        sat.setZero();
        bool any = s.saturation()->saturate(q, qs, sat);
        t.num(tag + " saturated", any);
        t.mat(tag + " saturated configuration", qs);
        t.mat(tag + " saturated variables", sat.cast<double>());
      }
    } else t.txt(tag + " saturation", "none");
    if constexpr (bsub) {
      const ExplicitConstraintSet& e(s.explicitConstraintSet());
      t.segs(tag + " explicit outputs", e.outDers().indices());
      t.segs(tag + " explicit inputs", e.inDers().indices());
      t.segs(tag + " not explicit", e.notOutDers().indices());
      t.num(tag + " explicit threshold", e.errorThreshold());
    }
    size_t n = 0;
    for (auto& c : s.constraints()) {
      std::ostringstream m;
      m << tag << " member " << n++;
      con(m.str(), c, false);
      t.num(m.str() + " contained", s.contains(c));
    }
    // the same right hand sides, then the same questions
    s.rightHandSideFromConfig(confs[0]);
    t.mat(tag + " right hand side", s.rightHandSide());
    questions(tag, s, seed);
    life(tag, s, seed);
  }
  template <class S> void questions(const std::string& tag, S& s, u64 seed) {
    constexpr bool bsub = std::is_same<S, BS>::value;
    for (int k = 0; k < 3; ++k) {
      const Configuration_t& q(confs[(size_t)k]);
      t.num(tag + " satisfied", s.isSatisfied(q));
      t.num(tag + " satisfied loosely", s.isSatisfied(q, .5));
      t.add(tag + " residual", {s.residualError()});
      if (!s.constraints().empty()) {
        const ImplicitPtr_t& c(s.constraints()[(size_t)k % s.constraints().size()]);
        vector_t e(vector_t::Zero(c->functionPtr()->outputDerivativeSize()));
        bool found = false;
        bool sat = s.isConstraintSatisfied(c, q, e, found);
        t.add(tag + " constraint satisfied", {(double)sat, (double)found}, 0);
        if (found) t.mat(tag + " error of a constraint", e);
      }
      Configuration_t x(q);
      // few iterations: no chaos
      size_type it = s.maxIterations();
      s.maxIterations(std::min<size_type>(it, 4));
      int st = -1;
      switch ((seed + (u64)k) % 4) {
        case 0: st = (int)s.solve(x, solver::lineSearch::Constant()); break;
        case 1: st = (int)s.solve(x, solver::lineSearch::Backtracking()); break;
        case 2: st = (int)s.solve(x, solver::lineSearch::FixedSequence()); break;
        default: st = (int)s.solve(x, solver::lineSearch::ErrorNormBased(.1)); break;
      }
      s.maxIterations(it);
      t.num(tag + " status", st);
      t.mat(tag + " solution", x, 1e-5);
      if constexpr (bsub) {
        if (s.dimension() > 0) {
          vector_t v(vector_t::Constant(space.nv, .3)), out(vector_t::Zero(space.nv));
          s.projectVectorOnKernel(q, v, out);
          t.mat(tag + " projected velocity", out, 1e-6);
        }
      }
    }
  }
  // the solver goes on living after the restart
  template <class S> void life(const std::string& tag, S& s, u64 seed) {
    Rng r(mix(seed ^ 0x11fe));
    long n = r.range(0, 3);
    for (long i = 0; i < n; ++i) {
      std::string w(tag + " afterwards");
      int k = (int)r.below(6);
      u64 x = r.next();
      if (k == 0) { s.errorThreshold(r.chance(.5) ? 1e-2 : 1e-6); }
      else if (k == 1) { s.maxIterations(r.range(0, 30)); }
      else if (k == 2) { s.lastIsOptional(x % 2); }
      else if (k == 3 || k == 4) {
        ImplicitPtr_t c(makeCon(o.d, x, DifferentiableFunctionPtr_t()));
        size_t prio = r.below(3);
        int ok = -1;
        try { ok = s.add(c, prio); } catch (const std::logic_error&) {}
        t.num(w + " add", ok);
        s.rightHandSideFromConfig(confs[1]);
      } else s.rightHandSideAt(.7);
    }
    if (n) {
      t.mat(tag + " right hand side afterwards", s.rightHandSide());
      questions(tag + " afterwards", s, seed);
    }
  }
  void tell(u64 seed) {
    Rng r(mix(seed ^ 0x5e));
    for (size_t i = 0; i < o.fns.size(); ++i) {
      std::ostringstream m;
      m << "function " << i;
      fn(m.str(), o.fns[i]);
      DifferentiableFunctionPtr_t tw(makeFn(o.d, o.fnSeed[i], true));
      if (o.fns[i]) t.add(m.str() + " equals its twin", {(double)(*o.fns[i] == *tw), (double)(*tw == *o.fns[i])}, 0);
    }
    for (size_t i = 0; i < o.solvers.size(); ++i) {
      const Solver& s = o.solvers[i];
      std::ostringstream m;
      m << "solver " << i;
      // pairs
      if (i) {
        const Solver& z = o.solvers[i - 1];
        t.add(m.str() + " submanifold", {(double)s.base().definesSubmanifoldOf(z.base()), (double)z.base().definesSubmanifoldOf(s.base())}, 0);
      }
    }
    for (size_t i = 0; i < o.cons.size(); ++i) {
      std::ostringstream m;
      m << "constraint " << i;
      con(m.str(), o.cons[i], true);
      for (size_t k = 0; k < i; ++k) t.add(m.str() + " equals another", {(double)(*o.cons[i] == *o.cons[k]), (double)(*o.cons[k] == *o.cons[i])}, 0);
      for (auto& s : o.solvers) t.num(m.str() + " in a solver", s.base().contains(o.cons[i]));
    }
    for (size_t i = 0; i < o.solvers.size(); ++i) {
      std::ostringstream m;
      m << "solver " << i;
      if (o.solvers[i].b) solverT(m.str(), *o.solvers[i].b, r.next());
      else solverT(m.str(), *o.solvers[i].h, r.next());
    }
  }
};
Teller* telling = nullptr;
void onDeath(int sig) {
  if (telling && !telling->t.l.empty()) fprintf(stderr, "died after: %s\n", show(telling->t.l.back()).c_str());
  void* a[60];
  backtrace_symbols_fd(a, backtrace(a, 60), 2);
  signal(sig, SIG_DFL);
  raise(sig);
}
// asked in a child: the objects are left as they are. Returns an error or nothing.
std::string transcript(const Objects& o, u64 seed, Transcript& out) {
  int p[2];
  if (pipe(p)) return "no pipe";
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    Quiet quiet;
    static Result scratch;
    res = &scratch;
    Bytes b;
    Teller t(o, seed);
    if (verbose) { telling = &t; signal(SIGABRT, onDeath); signal(SIGSEGV, onDeath); }
    try {
      t.tell(seed);
    } catch (const Violation& e) { t.t.txt("violation", e.msg);
    } catch (const std::exception& e) { t.t.txt("exception", e.what());
    } catch (...) { t.t.txt("exception", "?"); }
    pack(b, t.t);
    sendBytes(p[1], b);
    _exit(0);
  }
  close(p[1]);
  Bytes b;
  bool got = recvBytes(p[0], b);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!got) {
    std::ostringstream m;
    m << "the process that uses the objects died with " << (WIFSIGNALED(st) ? "signal " : "code ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    return m.str();
  }
  Reader r(b);
  return unpack(r, out) ? "" : "truncated transcript";
}

// ------------------------------------------------------------------ streams
struct StreamFault : std::runtime_error { StreamFault() : std::runtime_error("simulated failure of a stream") {} };
// reads `data`, in chunks; fails after `limit` bytes, by an end of file or an exception
struct InBuf : std::streambuf {
  Bytes d;
  size_t at = 0, chunk, limit;
  bool raise;
  InBuf(const Bytes& b, size_t c, size_t lim, bool r) : d(b), chunk(std::max<size_t>(1, c)), limit(std::min(lim, b.size())), raise(r) {}
  int_type underflow() override {
    if (at >= limit) { if (raise) throw StreamFault(); return traits_type::eof(); }
    size_t n = std::min(chunk, limit - at);
    setg(d.data() + at, d.data() + at, d.data() + at + n);
    at += n;
    return traits_type::to_int_type(*gptr());
  }
};
// stores up to `limit` bytes
struct OutBuf : std::streambuf {
  Bytes d;
  std::vector<char> buf;
  size_t limit;
  bool full = false;  // it stays so
  OutBuf(size_t bufSize, size_t lim) : buf(std::max<size_t>(1, bufSize)), limit(lim) { setp(buf.data(), buf.data() + buf.size()); }
  bool drain() {
    size_t n = (size_t)(pptr() - pbase());
    size_t room = limit > d.size() ? limit - d.size() : 0;
    size_t k = std::min(n, room);
    d.insert(d.end(), pbase(), pbase() + k);
    setp(buf.data(), buf.data() + buf.size());
    if (k < n) full = true;
    return !full;
  }
  int_type overflow(int_type c) override {
    if (!drain()) return traits_type::eof();
    if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = traits_type::to_char_type(c); pbump(1); }
    return traits_type::not_eof(c);
  }
  int sync() override { return drain() ? 0 : -1; }
};
template <class OA> void saveTo(std::ostream& os, const Objects& o, const Shape& sh) {
  OA oa(os);
  oa.insert(o.d->name(), o.d.get());
  if (sh.init) oa.initialize();
  auto solvers = [&] {
    for (size_t i = 0; i < o.solvers.size(); ++i) {
      const Solver& s = o.solvers[i];
      if (s.b) {
        if (sh.ptrMask >> i & 1) oa << bs::make_nvp("solver", s.b);
        else oa << bs::make_nvp("solver", static_cast<const BS&>(*s.b));
      } else oa << bs::make_nvp("solver", static_cast<const HI&>(*s.h));
    }
  };
  if (sh.solversFirst) solvers();
  for (auto& f : o.fns) oa << bs::make_nvp("function", f);
  for (auto& c : o.cons) oa << bs::make_nvp("constraint", c);
  if (!sh.solversFirst) solvers();
}
template <class IA> void loadFrom(std::istream& is, Objects& o, const Shape& sh, bool keep) {
  IA ia(is);
  ia.insert(o.d->name(), o.d.get());
  if (sh.init) ia.initialize();
  o.fns.resize(sh.nf); o.cons.resize(sh.nc); o.solvers.resize(sh.ns);
  if (!keep) for (auto& s : o.solvers) s = Solver();
  auto solvers = [&] {
    for (size_t i = 0; i < sh.ns; ++i) {
      Solver& s = o.solvers[i];
      bool b = sh.bsMask >> i & 1;
      if (b && (sh.ptrMask >> i & 1)) ia >> bs::make_nvp("solver", s.b);
      else if (b) { if (!s.b) s.b.reset(new BS(o.d->configSpace())); ia >> bs::make_nvp("solver", *s.b); }
      else { if (!s.h) s.h.reset(new HI(o.d->configSpace())); ia >> bs::make_nvp("solver", *s.h); }
    }
  };
  if (sh.solversFirst) solvers();
  for (auto& f : o.fns) ia >> bs::make_nvp("function", f);
  for (auto& c : o.cons) ia >> bs::make_nvp("constraint", c);
  if (!sh.solversFirst) solvers();
}
void save(std::ostream& os, const Objects& o, const Shape& sh) {
  if (sh.fmt == 0) saveTo<hpp::serialization::xml_oarchive>(os, o, sh);
  else if (sh.fmt == 1) saveTo<hpp::serialization::text_oarchive>(os, o, sh);
  else saveTo<hpp::serialization::binary_oarchive>(os, o, sh);
}
void load(std::istream& is, Objects& o, const Shape& sh, bool keep) {
  if (sh.fmt == 0) loadFrom<hpp::serialization::xml_iarchive>(is, o, sh, keep);
  else if (sh.fmt == 1) loadFrom<hpp::serialization::text_iarchive>(is, o, sh, keep);
  else loadFrom<hpp::serialization::binary_iarchive>(is, o, sh, keep);
}
const char* fmtNames[] = {"xml", "text", "binary"};

// ------------------------------------------------------------------ a restarted process
struct Request {
  Shape sh;
  u64 seed = 0;
  u64 chunk = 64;
  u64 again = 0, fmt2 = 0;                  // saves what it loaded, in another format
  // torn archives
  u64 torn = 0, limit = 0, raise = 0, alloc = 0, before = 0, retry = 0;
};
struct Reply {
  u64 loaded = 0;      // the (torn) archive was accepted
  std::string error;   // why not
  std::string trouble; // class of what went wrong besides
  std::string what;
  u64 allocFired = 0;
  Transcript t, tBefore, tBefore2, tRetry;
  u64 haveBefore = 0, haveRetry = 0;
  std::string retryError;
  Bytes again;
};
void pack(Bytes& b, const Reply& r) {
  putN(b, r.loaded); putS(b, r.error); putS(b, r.trouble); putS(b, r.what); putN(b, r.allocFired);
  pack(b, r.t); pack(b, r.tBefore); pack(b, r.tBefore2); pack(b, r.tRetry);
  putN(b, r.haveBefore); putN(b, r.haveRetry); putS(b, r.retryError);
  putN(b, r.again.size()); put(b, r.again.data(), r.again.size());
}
bool unpack(const Bytes& b, Reply& r) {
  Reader x(b);
  r.loaded = x.n(); r.error = x.s(); r.trouble = x.s(); r.what = x.s(); r.allocFired = x.n();
  if (!unpack(x, r.t) || !unpack(x, r.tBefore) || !unpack(x, r.tBefore2) || !unpack(x, r.tRetry)) return false;
  r.haveBefore = x.n(); r.haveRetry = x.n(); r.retryError = x.s();
  u64 n = x.n();
  if (!x.ok || x.at + n > b.size()) return false;
  r.again.assign(b.begin() + (long)x.at, b.begin() + (long)(x.at + n));
  return x.ok;
}
void work(const Request& rq, const std::vector<u64>& fnSeed, const std::vector<u64>& conSeed, const Bytes& bytes, const DevicePtr_t& d, Reply& rp) {
  auto fresh = [&] { Objects o; o.d = d; o.fnSeed = fnSeed; o.conSeed = conSeed; return o; };
  auto ask = [&](const Objects& o, Transcript& t, const char* cls) {
    std::string e(transcript(o, rq.seed, t));
    if (!e.empty() && rp.trouble.empty()) { rp.trouble = cls; rp.what = e; }
  };
  auto complete = [&](Objects& o, bool keep) {
    InBuf ib(bytes, rq.chunk, (size_t)-1, false);
    std::istream is(&ib);
    load(is, o, rq.sh, keep);
  };
  Objects early(fresh());
  if (rq.before) {
    try { complete(early, false); rp.haveBefore = 1; ask(early, rp.tBefore, "use"); }
    catch (const std::exception& e) { rp.haveBefore = 0; }
  }
  Objects o(fresh());
  try {
    InBuf ib(bytes, rq.chunk, rq.torn ? (size_t)rq.limit : (size_t)-1, rq.raise);
    std::istream is(&ib);
    if (rq.alloc) mem::armFailure((long)rq.alloc);
    load(is, o, rq.sh, false);
    if (rq.alloc) rp.allocFired = (u64)mem::disarmFailure();
    rp.loaded = 1;
  } catch (const std::exception& e) {
    if (rq.alloc) rp.allocFired = (u64)mem::disarmFailure();
    rp.error = e.what();
    if (rp.error.empty()) rp.error = "?";
  } catch (...) { rp.error = "?"; }
  if (rp.loaded) {
    ask(o, rp.t, "use");
    if (rq.again) {
      Shape s2(rq.sh);
      s2.fmt = rq.fmt2;
      try {
        OutBuf ob(32, (size_t)-1);
        std::ostream os(&ob);
        save(os, o, s2);
        os.flush();
        rp.again = ob.d;
      } catch (const std::exception& e) { rp.trouble = "save-again"; rp.what = e.what(); }
    }
  }
  if (rq.before && rp.haveBefore) ask(early, rp.tBefore2, "use-before");
  if (rq.retry && !rp.loaded) {
    Objects again(fresh());
    try { complete(again, false); rp.haveRetry = 1; ask(again, rp.tRetry, "use-retry"); }
    catch (const std::exception& e) { rp.retryError = e.what(); }
  }
}
struct Server {
  int rq = -1, ra = -1;
  pid_t pid = -1;
  void start(const DevicePtr_t& d) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { fprintf(stderr, "no pipe\n"); _exit(9); }
    pid = fork();
    if (pid == 0) { close(a[1]); close(b[0]); serve(a[0], b[1], d); }
    close(a[0]); close(b[1]);
    rq = a[1]; ra = b[0];
  }
  static void serve(int in, int out, const DevicePtr_t& d) {
    for (;;) {
      Bytes req;
      if (!recvBytes(in, req)) _exit(0);
      answer(req, out, d);
    }
  }
  // one child per request
  static void answer(const Bytes& req, int out, const DevicePtr_t& d) {
    int p[2];
    if (pipe(p)) _exit(9);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      Quiet quiet;
      static Result scratch;
      res = &scratch;
      if (verbose) { signal(SIGABRT, onDeath); signal(SIGSEGV, onDeath); }
      Reader r(req);
      Request q;
      r.get(&q, sizeof q);
      std::vector<u64> fs, cs;
      for (u64 n = r.n(); n; --n) fs.push_back(r.n());
      for (u64 n = r.n(); n; --n) cs.push_back(r.n());
      u64 n = r.n();
      Bytes bytes(req.begin() + (long)r.at, req.begin() + (long)(r.at + n));
      Reply rp;
      try { work(q, fs, cs, bytes, d, rp); }
      catch (const Violation& e) { rp.trouble = e.cls; rp.what = e.msg; }
      catch (const std::exception& e) { rp.trouble = "exception"; rp.what = e.what(); }
      if (const void* bad = mem::checkHeap()) { (void)bad; rp.trouble = "heap-overrun"; rp.what = "memory damaged"; }
      Bytes b;
      pack(b, rp);
      sendBytes(p[1], b);
      _exit(0);
    }
    close(p[1]);
    Bytes b;
    bool got = recvBytes(p[0], b);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!got) {
      Reply rp;
      std::ostringstream m;
      rp.trouble = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) ? "hang" : "crash";
      m << "the process that loads died with " << (WIFSIGNALED(st) ? "signal " : "code ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
      rp.what = m.str();
      b.clear();
      pack(b, rp);
    }
    if (out >= 0) sendBytes(out, b);
    else kept = b;
  }
  static Bytes kept;
  // local: a child of this process, with its past, instead of a new process
  Reply ask(const Request& q, const Objects& o, const Bytes& bytes, bool local) {
    Bytes req;
    put(req, &q, sizeof q);
    putN(req, o.fnSeed.size());
    for (u64 x : o.fnSeed) putN(req, x);
    putN(req, o.conSeed.size());
    for (u64 x : o.conSeed) putN(req, x);
    putN(req, bytes.size());
    put(req, bytes.data(), bytes.size());
    Bytes ans;
    if (local) { answer(req, -1, o.d); ans = kept; }
    else if (!sendBytes(rq, req) || !recvBytes(ra, ans)) { fprintf(stderr, "the restarted process does not answer\n"); _exit(9); }
    Reply rp;
    if (!unpack(ans, rp)) { rp = Reply(); rp.trouble = "crash"; rp.what = "unreadable answer"; }
    return rp;
  }
  void stop() { if (pid > 0) { close(rq); close(ra); int st; waitpid(pid, &st, 0); pid = -1; } }
};
Bytes Server::kept;

// ------------------------------------------------------------------ histories
struct Serial {
  const Plan& plan;
  bool torn;
  DevicePtr_t d;
  Space space;
  std::vector<DifferentiableFunctionPtr_t> fns;
  std::vector<u64> fnSeed;
  std::vector<ImplicitPtr_t> cons;
  std::vector<u64> conSeed;
  std::vector<char> used;   // the constraint is in a solver
  std::vector<Solver> solvers;
  std::vector<std::shared_ptr<solver::saturation::Base> > sats;
  Server server;
  explicit Serial(const Plan& p) : plan(p), torn(p.prop == "C10"), d(simRobot(robotVariant((u64)p.knob("world")))), space(robotSpace(d)) { d->numberDeviceData(std::max<long>(1, p.knob("pool", 1))); }

  Configuration_t conf(u64 s, double amp = .4) {
    Rng r(s), w(mix((u64)plan.knob("world")));
    return perturb(space, robotNominal(d, w), r, amp);
  }
  void change(Solver& s, const Op& op) {
    Rng r(op.s);
    HI& h = s.base();
    switch (op.b % 9) {
      case 0: { double t = std::pow(10., -r.uni(1, 7)); if (s.b) s.b->errorThreshold(t); else h.errorThreshold(t); break; }
      case 1: h.maxIterations(r.range(0, 60)); break;
      case 2: h.lastIsOptional(!h.lastIsOptional()); break;
      case 3: h.solveLevelByLevel(!h.solveLevelByLevel()); break;
      case 4: h.inequalityThreshold(r.uni(0, .3)); break;
      case 5: case 6: {
        if (!sats.empty() && r.chance(.35)) { h.saturation(sats[r.below(sats.size())]); break; }
        int k = (int)r.below(3);
        std::shared_ptr<solver::saturation::Base> x;
        if (k == 0) x.reset(new solver::saturation::Device(d));
        else if (k == 1) {
          vector_t lb(space.nq), ub(space.nq);
          Eigen::VectorXi m(space.nq);
          long iv = 0, iq = 0;
          for (auto& b : space.blocks) for (long i = 0; i < b.nq; ++i) {
            m[iq] = (int)std::min(b.iv + std::min(i, b.nv - 1), space.nv - 1);
            double w = b.type == B_RN ? r.uni(.3, 2) : r.uni(3, 9);
            lb[iq] = -w; ub[iq] = w + r.uni(0, 1);
            ++iq;
          }
          (void)iv;
          x.reset(new solver::saturation::Bounds(lb, ub, m));
        } else x.reset(new solver::saturation::Base());
        sats.push_back(x);
        h.saturation(x);
        break;
      }
      case 7: {
        if (s.b && !s.b->explicitConstraintSet().outDers().indices().empty()) break;
        segments_t f;
        for (long i = 0; i < space.nv;) {
          long n = std::min<long>(r.range(1, 6), space.nv - i);
          if (r.chance(.6)) f.push_back(segment_t(i, n));
          i += n + 1;
        }
        if (f.empty()) f.push_back(segment_t(0, space.nv));
        h.freeVariables(f);
        break;
      }
      default: h.rightHandSideFromConfig(conf(r.next())); break;
    }
  }
  Objects pickObjects(Rng& r, Shape& sh) {
    Objects o;
    o.d = d;
    for (size_t i = 0; i < fns.size(); ++i) if (r.chance(.5)) { o.fns.push_back(fns[i]); o.fnSeed.push_back(fnSeed[i]); }
    for (size_t i = 0; i < cons.size(); ++i) if (r.chance(.5)) { o.cons.push_back(cons[i]); o.conSeed.push_back(conSeed[i]); }
    for (size_t i = 0; i < solvers.size(); ++i) if (r.chance(.75)) {
      size_t k = o.solvers.size();
      if (solvers[i].b) { sh.bsMask |= 1ull << k; if (r.chance(.5)) sh.ptrMask |= 1ull << k; }
      o.solvers.push_back(solvers[i]);
    }
    sh.nf = o.fns.size(); sh.nc = o.cons.size(); sh.ns = o.solvers.size();
    sh.solversFirst = r.chance(.5); sh.init = r.chance(.3); sh.fmt = r.below(3);
    return o;
  }
  void check(const Op& op) {
    Rng r(op.s);
    Shape sh;
    Objects o(pickObjects(r, sh));
    if (!sh.nf && !sh.nc && !sh.ns) return;
    u64 seed = r.next();
    Transcript t0, t1;
    std::string e(transcript(o, seed, t0));
    if (!e.empty()) { SIM_PROBE("objects that cannot be used"); return; }  // decided by other properties
    if (!t0.l.empty() && t0.l.back().tag.compare(0, 9, "violation") == 0) return;
    Bytes bytes;
    try {
      OutBuf ob(1 + r.below(200), (size_t)-1);
      std::ostream os(&ob);
      save(os, o, sh);
      os.flush();
      if (!os) fail("save-failed", "the stream is in a failed state after saving");
      bytes = ob.d;
    } catch (const Violation&) { throw;
    } catch (const std::exception& x) { if (torn) return; fail("save-failed", "saving in %s format failed: %s", fmtNames[sh.fmt], x.what()); }
    sigAdd(sh.nf + 7 * sh.nc + 49 * sh.ns + 1000 * sh.fmt + 5000 * (sh.bsMask + 16 * sh.ptrMask));
    logf("saved %zu bytes %s", bytes.size(), fmtNames[sh.fmt]);
    if (!torn) restart(r, o, sh, seed, bytes, t0);
    else tear(op, r, o, sh, seed, bytes, t0);
    e = transcript(o, seed, t1);
    if (e.empty()) e = differ(t0, t1, true);
    SIM_CHECK(e.empty(), "save-changes", "the saved objects (%s) are not as before: %s", fmtNames[sh.fmt], e.c_str());
  }
  void restart(Rng& r, const Objects& o, const Shape& sh, u64 seed, const Bytes& bytes, const Transcript& t0) {
    Request q;
    q.sh = sh; q.seed = seed; q.chunk = 1 + r.below(300);
    q.again = r.chance(.35); q.fmt2 = r.below(3);
    bool local = r.chance(.25);
    fired(F_RESTART);
    Reply rp(server.ask(q, o, bytes, local));
    compare(rp, t0, sh, local ? "in the same process" : "in a new process");
    ++res->nontrivial;
    res->ops += t0.l.size() / 50;
    SIM_PROBE("objects compared after a restart");
    if (q.again && !rp.again.empty()) {
      Request q2(q);
      q2.sh.fmt = q.fmt2; q2.again = 0;
      fired(F_RESTART);
      Reply r2(server.ask(q2, o, rp.again, false));
      compare(r2, t0, q2.sh, "after two restarts");
      SIM_PROBE("objects compared after two restarts");
    }
  }
  void compare(const Reply& rp, const Transcript& t0, const Shape& sh, const char* when) {
    SIM_CHECK(rp.trouble.empty(), ("restart-" + rp.trouble).c_str(), "%s format, %s: %s", fmtNames[sh.fmt], when, rp.what.c_str());
    SIM_CHECK(rp.loaded, "load-failed", "%s format, %s: loading failed: %s", fmtNames[sh.fmt], when, rp.error.c_str());
    std::string e(differ(t0, rp.t, false));
    SIM_CHECK(e.empty(), "restart-differs", "%s format, %s: saved / loaded: %s", fmtNames[sh.fmt], when, e.c_str());
  }
  // Boost accepts a number that was cut in a text archive, and reads the closing tag of an xml archive in a destructor
  static size_t whole(const Bytes& b, size_t fmt, size_t limit) {
    if (fmt == 0) {
      static const std::string end("</boost_serialization>");
      auto it = std::search(b.begin(), b.end(), end.begin(), end.end());
      while (it != b.begin() && *(it - 1) != '>') --it;
      return std::min(limit, (size_t)(it - b.begin()) - 1);
    }
    if (fmt == 1) while (limit > 0 && limit < b.size() && !isspace((unsigned char)b[limit]) && !isspace((unsigned char)b[limit - 1])) --limit;
    return limit;
  }
  void tear(const Op& op, Rng& r, const Objects& o, const Shape& sh, u64 seed, const Bytes& bytes, const Transcript& t0) {
    // saving on a stream that fails
    {
      OutBuf ob(1 + r.below(op.a % 2 ? 8 : 5000), r.chance(.3) ? bytes.size() - 1 - r.below(std::min<size_t>(60, bytes.size() - 1)) : r.below(bytes.size()));
      bool err = false;
      std::string what;
      size_t lim = ob.limit;
      {
        std::ostream os(&ob);
        try { save(os, o, sh); os.flush(); } catch (const std::exception& x) { err = true; what = x.what(); }
        fired(F_SHORT_WRITE);
        logf("saving on a full disk: %s", err ? what.c_str() : os ? "nothing said" : "stream failed");
        SIM_CHECK(err || !os, "silent-save", "saving %zu bytes in %s format on a stream that takes %zu was reported as a success", bytes.size(), fmtNames[sh.fmt], lim);
      }
      SIM_PROBE("saved on a failing stream");
    }
    int n = 4;
    for (int i = 0; i < n; ++i) {
      Request q;
      q.sh = sh; q.seed = seed; q.chunk = 1 + r.below(300);
      q.before = r.chance(.4); q.retry = r.chance(.5);
      double k = r.uni();
      q.torn = 1;
      if (k < .45) q.limit = r.below(bytes.size());
      else if (k < .8) q.limit = bytes.size() - 1 - r.below(std::min<size_t>(150, bytes.size() - 1));
      else q.limit = r.below(std::min<size_t>(400, bytes.size()));
q.limit = whole(bytes, sh.fmt, q.limit);
      q.raise = r.chance(.3);
      bool local = r.chance(.25);
      Reply rp(server.ask(q, o, bytes, local));
      fired(q.alloc ? F_ALLOC_FAIL : q.raise ? F_STREAM_FAIL : F_TRUNCATED);
      if (!local) fired(F_RESTART);
      logf("%s at %llu of %zu: %s %s", q.alloc ? "allocation" : "cut", (unsigned long long)(q.alloc ? q.alloc : q.limit), bytes.size(), rp.loaded ? "loaded" : "refused", rp.error.c_str());
      char how[120];
      if (q.alloc) snprintf(how, sizeof how, "%s archive, allocation %llu fails", fmtNames[sh.fmt], (unsigned long long)q.alloc);
      else snprintf(how, sizeof how, "%s archive of %zu bytes cut after %llu%s", fmtNames[sh.fmt], bytes.size(), (unsigned long long)q.limit, q.raise ? " by a failure" : "");
      sigAdd(rp.loaded * 2 + (q.alloc ? 1 : 0));
      SIM_CHECK(rp.trouble.empty() || rp.trouble == "use", ("torn-" + rp.trouble).c_str(), "%s: %s", how, rp.what.c_str());
      if (rp.loaded) {
        std::string e(rp.trouble.empty() ? differ(t0, rp.t, false) : rp.what);
        // objects whose complete archive gives something else are the concern of another property
        if (!e.empty() && !comparable(q, o, bytes, t0)) continue;
        SIM_CHECK(e.empty(), "silent-load", "%s was accepted: saved / loaded: %s", how, e.c_str());
        SIM_PROBE("cut archive gives the same objects");
      } else SIM_PROBE("cut archive refused");
      ++res->nontrivial;
      if (rp.haveBefore) {
        std::string e(differ(rp.tBefore, rp.tBefore2, true));
        SIM_CHECK(e.empty(), "failed-load-changes", "%s: objects made before are not as before: %s", how, e.c_str());
        SIM_PROBE("objects made before compared");
      }
      if (q.retry && !rp.loaded) {
        if (!comparable(q, o, bytes, t0)) continue;
        SIM_CHECK(rp.haveRetry, "retry-failed", "%s: loading the complete archive afterwards, fails: %s", how, rp.retryError.c_str());
        std::string e(differ(t0, rp.tRetry, false));
        SIM_CHECK(e.empty(), "retry-differs", "%s: loading the complete archive afterwards: saved / loaded: %s", how, e.c_str());
        SIM_PROBE("complete archive loaded after a cut one");
      }
    }
  }
  bool comparable(const Request& q0, const Objects& o, const Bytes& bytes, const Transcript& t0) {
    Request q;
    q.sh = q0.sh; q.seed = q0.seed;
    Reply rp(server.ask(q, o, bytes, false));
    return rp.trouble.empty() && rp.loaded && differ(t0, rp.t, false).empty();
  }
  void step(const Op& op) {
    Rng r(op.s);
    if (op.kind == "fn") { fns.push_back(makeFn(d, op.s, false)); fnSeed.push_back(op.s); sigAdd(1); }
    else if (op.kind == "con") {
      DifferentiableFunctionPtr_t shared;
      if (!fns.empty() && op.a % 2) shared = fns[(size_t)op.b % fns.size()];
      if (op.a % 5 == 4 && !cons.empty()) cons.push_back(cons[(size_t)op.b % cons.size()]->copy());
      else cons.push_back(makeCon(d, op.s, shared));
      conSeed.push_back(op.s);
      used.push_back(0);
      logf("constraint %s", cons.back()->functionPtr()->name().c_str());
    } else if (op.kind == "solver") {
      if (solvers.size() >= 4) return;
      Solver s;
      if (op.b % 4 == 3 && !solvers.empty()) {
        const Solver& z = solvers[(size_t)op.a % solvers.size()];
        if (z.b) s.b.reset(new BS(*z.b)); else s.h.reset(new HI(*z.h));
      } else if (op.b % 4 < 2) s.b.reset(new BS(d->configSpace()));
      else s.h.reset(new HI(d->configSpace()));
      s.base().maxIterations(10); 
      if (!(op.b % 4 == 3)) { s.base().inequalityThreshold(0); s.base().lastIsOptional(false); s.base().solveLevelByLevel(false); }
      if (s.b) s.b->errorThreshold(1e-3); else s.h->errorThreshold(1e-3);
      solvers.push_back(s);
    } else if (solvers.empty() && op.kind != "save") return;
    else if (op.kind == "add") {
      if (cons.empty()) return;
      Solver& s = solvers[(size_t)op.a % solvers.size()];
      size_t i = (size_t)op.b % cons.size();
      if (cons[i]->functionPtr()->inputSize() != d->configSize()) return;
      int ok = -1;
      try { ok = s.b ? s.b->add(cons[i], (size_t)op.c) : s.h->add(cons[i], (size_t)op.c); } catch (const std::logic_error&) {}
      if (ok == 1) used[i] = 1;
      logf("add %d", ok);
      sigAdd((u64)ok + 2);
    } else if (op.kind == "set") change(solvers[(size_t)op.a % solvers.size()], op);
    else if (op.kind == "merge") {
      Solver &s = solvers[(size_t)op.a % solvers.size()], &z = solvers[(size_t)op.b % solvers.size()];
      if (&s == &z || (bool)s.b != (bool)z.b) return;
      try { s.base().merge(z.base()); } catch (const std::logic_error&) {}
    } else if (op.kind == "solve") {
      Solver& s = solvers[(size_t)op.a % solvers.size()];
      Configuration_t q(conf(r.next()));
      int st = s.b ? (int)s.b->solve(q) : (int)s.h->solve(q);
      logf("solve %d", st);
      sigAdd((u64)st);
    } else if (op.kind == "comp") {
      if (cons.empty()) return;
      size_t i = (size_t)op.b % cons.size();
      if (used[i] || cons[i]->rightHandSideFunction()) return;
      LiegroupSpacePtr_t sp(cons[i]->functionPtr()->outputSpace());
      bool ex = (bool)HPP_DYNAMIC_PTR_CAST(Explicit, cons[i]);
      cons[i]->comparisonType(ex ? ComparisonTypes_t((size_t)sp->nv(), r.chance(.5) ? Equality : EqualToZero) : comparisons(r, *sp));
    } else if (op.kind == "save") check(op);
  }
  void run() {
    server.start(d);
    try { for (auto& op : plan.ops) { ++res->ops; step(op); } }
    catch (...) { server.stop(); throw; }
    server.stop();
  }
};
void generate(Plan& p) {
  Rng r(p.seed);
  p.knobs["world"] = (long)(r.next() >> 8);
  p.knobs["pool"] = r.range(1, 2);
  p.knobs["mem_layout"] = (long)r.below(1000);
  p.knobs["mem_fill"] = (long)r.below(6);
  long n = r.range(4, 26);
  bool many = r.chance(.7);
  for (long i = 0; i < n; ++i) {
    Op o;
    double k = r.uni();
    if (i == 0 && many) k = .35;
    if (i == 1) k = .15;
    o.kind = k < .08 ? "fn" : k < .32 ? "con" : k < .42 ? "solver" : k < .66 ? "add" : k < .82 ? "set" : k < .85 ? "merge" : k < .89 ? "solve" : k < .92 ? "comp" : "save";
    if (i == n - 1) o.kind = "save";
    o.a = r.range(0, 9); o.b = r.range(0, 35); o.c = r.range(0, 3);
    if (r.chance(.5)) o.c = 0;
    o.s = r.next();
    p.ops.push_back(o);
  }
}
void execute(const Plan& p) { Serial s(p); s.run(); }
Registrar reg9("C09", generate, execute);
Registrar reg10("C10", generate, execute);
}  // namespace
}  // namespace sim
