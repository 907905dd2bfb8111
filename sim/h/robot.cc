// Worlds around a simulated robot: the geometric constraints of the library.
#include <pthread.h>

#include <cmath>
#include <hpp/constraints/com-between-feet.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/distance-between-points-in-bodies.hh>
#include <hpp/constraints/explicit/convex-shape-contact.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/manipulability.hh>
#include <hpp/constraints/relative-com.hh>
#include <sstream>

#include "common/robot.hh"
#include "h/robot.hh"
#include "h/world.hh"

#ifndef SIM_THREADS
// These simulations have one thread: who waits for a signal waits for ever.
extern "C" int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) {
  sim::fail("deadlock", "the only thread waits for a robot data (or another condition) that nobody can give back");
}
#endif
namespace sim {
static DevicePtr_t robot1[2], robot2[2];
static void warmRobots() {
  for (int v = 0; v < 2; ++v) {
    robot1[v] = buildRobot("robot", v);
    robot2[v] = buildRobot("robot", v);
  }
}
static WarmRegistrar warm(warmRobots);
int robotVariant(u64 world) { return mix(world ^ 0x7e5) % 3 == 0; }
DevicePtr_t simRobot(int v) { return robot1[v]; }
DevicePtr_t simRobotBis(int v) { return robot2[v]; }

static bool hasJoint(const DevicePtr_t& d, const char* n) { return d->model().existJointName(n); }
Space robotSpace(const DevicePtr_t& d) {
  Space s;
  s.sp = d->configSpace();
  const hpp::pinocchio::Model& m = d->model();
  for (size_t i = 1; i < m.joints.size(); ++i) {
    long nq = m.joints[i].nq(), nv = m.joints[i].nv();
    if (nq == 1) {
      if (!s.blocks.empty() && s.blocks.back().type == B_RN) { s.blocks.back().nq++; s.blocks.back().nv++; s.nq++; s.nv++; }
      else s.append(B_RN, 1);
    } else if (nq == 2 && nv == 1) s.append(B_SO2, 1);
    else s.append(B_SE3, 1);
  }
  if (d->extraConfigSpace().dimension()) s.append(B_RN, d->extraConfigSpace().dimension());
  return s;
}
Transform3s randomPose(Rng& r, double amp) {
  Eigen::Vector3d t(r.uni(-amp, amp), r.uni(-amp, amp), r.uni(-amp, amp)), w(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
  return Transform3s(::pinocchio::exp3(w), t);
}
typedef std::vector<vector3_t> Shape;
static Shape polygon(Rng& r, double size, bool big) {
  Shape s;
  long n = r.range(3, 5);
  double a0 = r.uni(0, 6);
  for (long i = 0; i < n; ++i) {
    double a = a0 + 2 * M_PI * (double)i / (double)n, rad = size * (big ? 1 : r.uni(.8, 1.2));
    s.push_back(vector3_t(rad * std::cos(a), rad * std::sin(a), 0));
  }
  return s;
}
JointAndShapes_t floorShapes(const DevicePtr_t& d, Rng& r) {
  JointAndShapes_t f;
  Shape a(polygon(r, 1.5, true));
  f.push_back(JointAndShape_t(JointPtr_t(), a));
  if (r.chance(.5)) {
    Shape b(polygon(r, .8, true));
    for (auto& v : b) v += vector3_t(2.5, .3, .2);
    f.push_back(JointAndShape_t(JointPtr_t(), b));
  }
  if (r.chance(.3)) f.push_back(JointAndShape_t(d->getJointByName("arm/j3"), polygon(r, .4, true)));
  return f;
}
JointAndShapes_t objectShapes(const DevicePtr_t& d, Rng& r) {
  JointAndShapes_t o;
  long n = r.range(1, 2);
  for (long i = 0; i < n; ++i) {
    Shape s(polygon(r, .12, false));
    for (auto& v : s) v[2] = i ? .05 : -.05;
    if (i) std::reverse(s.begin(), s.end());
    o.push_back(JointAndShape_t(d->getJointByName("box1/root_joint"), s));
  }
  return o;
}
const char* robotKindName(int k) {
  static const char* n[RK_COUNT] = {"Position", "Orientation", "Transformation", "TransformationR3xSO3", "RelativePosition", "RelativeOrientation", "RelativeTransformation", "RelativeTransformationR3xSO3", "OrientationSO3", "RelativeCom", "ConfigurationConstraint", "ConvexShapeContact", "ComBetweenFeet", "DistanceBetweenPointsInBodies", "Manipulability"};
  return n[k];
}
// functions vanishing at qStar where this makes sense; a function of seed and kind only
DifferentiableFunctionPtr_t makeRobotFunction(const DevicePtr_t& d, int kind, u64 seed, const Configuration_t& qStar, const std::string& name) {
  Rng r(mix(seed ^ 0x0b07));
  d->currentConfiguration(qStar);
  d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
  static const char* names[] = {"arm/j1", "arm/j2", "arm/j3", "arm/j4", "arm/j5", "box1/root_joint", "box2/root_joint", "box3/root_joint"};
  long last = hasJoint(d, names[7]) ? 7 : 6;
  long a = r.range(2, last), b = r.range(0, last);
  while (b == a) b = r.range(0, last);
  JointPtr_t j2(d->getJointByName(names[a])), j1(d->getJointByName(names[b]));
  Transform3s M2(j2->currentTransformation()), M1(j1->currentTransformation());
  Transform3s f2(randomPose(r, .2)), f1;
  bool rel = kind == RK_RPOSITION || kind == RK_RORIENTATION || kind == RK_RTRANSFORMATION || kind == RK_RTRANSFORMATION_G;
  f1 = rel ? M1.actInv(M2 * f2) : Transform3s(M2 * f2);
  auto mask = [&](size_t n) {
    std::vector<bool> m(n, true);
    if (r.chance(.3)) { for (size_t i = 0; i < n; ++i) m[i] = r.chance(.7); m[r.below(n)] = true; }
    return m;
  };
  switch (kind) {
    case RK_POSITION: return Position::create(name, d, j2, f2, f1, mask(3));
    case RK_ORIENTATION: return Orientation::create(name, d, j2, f2, f1, mask(3));
    case RK_TRANSFORMATION: return Transformation::create(name, d, j2, f2, f1, mask(6));
    case RK_TRANSFORMATION_G: return TransformationR3xSO3::create(name, d, j2, f2, f1);
    case RK_RPOSITION: return RelativePosition::create(name, d, j1, j2, f1, f2, mask(3));
    case RK_RORIENTATION: return RelativeOrientation::create(name, d, j1, j2, f1, f2, mask(3));
    case RK_RTRANSFORMATION: return RelativeTransformation::create(name, d, j1, j2, f1, f2, mask(6));
    case RK_RTRANSFORMATION_G: return RelativeTransformationR3xSO3::create(name, d, j1, j2, f1, f2);
    case RK_ORIENTATION_G: return OrientationSO3::create(name, d, j2, f2, f1);
    case RK_COM: {
      std::vector<bool> m(mask(3));
      vector3_t ref(vector3_t::Zero());
      JointPtr_t j(r.chance(.7) ? j2 : j1);
      RelativeComPtr_t f0(RelativeCom::create(name, d, j, ref));
      vector_t v(evalFn(*f0, qStar));
      ref = v;
      return RelativeCom::create(name, d, j, ref, m);
    }
    case RK_CONFIG: {
      vector_t wts(vector_t::Zero(d->numberDof()));
      for (long i = 0; i < wts.size(); ++i) wts[i] = r.chance(.5) ? r.uni(.2, 2) : 0;
      wts[0] = 1;
      Configuration_t goal(qStar);
      return ConfigurationConstraint::create(name, d, goal, wts);
    }
    case RK_CONTACT: return ConvexShapeContact::create(name, d, floorShapes(d, r), objectShapes(d, r));
    case RK_FEET: return ComBetweenFeet::create(name, d, d->getJointByName("box1/root_joint"), d->getJointByName("box2/root_joint"), vector3_t(0, 0, r.uni(-.1, 0)), vector3_t(r.uni(-.1, .1), 0, 0), j1, vector3_t(0, .1, 0));
    case RK_POINTS: return DistanceBetweenPointsInBodies::create(name, d, j1, j2, vector3_t(.1, 0, r.uni(0, .2)), vector3_t(0, r.uni(-.2, .2), .1));
    default: {
      DifferentiableFunctionPtr_t g(Position::create(name + " inner", d, d->getJointByName("arm/j5"), f2, M2));
      return Manipulability::create(g, d, name);
    }
  }
}
Configuration_t robotNominal(const DevicePtr_t& d, Rng& r) {
  Space sp(robotSpace(d));
  Configuration_t q(d->neutralConfiguration());
  vector_t v(randomVelocity(sp.nv, r, .7));
  v[1] *= .5;
  q = integrateConf(sp, q, v);
  return q;
}
World makeRobotWorld(u64 seed, long nItems, const WorldOpts& o, bool hooked) {
  World w;
  Rng r(mix(seed ^ 0x20b07));
  w.kind = 1;
  DevicePtr_t d(robot1[robotVariant(seed)]);
  w.robot = d;
  long nx = d->extraConfigSpace().dimension();
  w.space = robotSpace(d);
  w.qStar = robotNominal(d, r);
  const hpp::pinocchio::Model& m = d->model();
  w.lb.resize(d->configSize());
  w.ub.resize(d->configSize());
  w.lb.head(m.nq) = m.lowerPositionLimit;
  w.ub.head(m.nq) = m.upperPositionLimit;
  for (long i = 0; i < nx; ++i) { w.lb[m.nq + i] = d->extraConfigSpace().lower(i); w.ub[m.nq + i] = d->extraConfigSpace().upper(i); }
  for (auto& b : w.space.blocks) {
    if (b.type == B_SO2) for (int i = 0; i < 2; ++i) { w.lb[b.iq + i] = -HUGE_VAL; w.ub[b.iq + i] = HUGE_VAL; }
    if (b.type == B_SE3) for (int i = 3; i < 7; ++i) { w.lb[b.iq + i] = -HUGE_VAL; w.ub[b.iq + i] = HUGE_VAL; }
  }
  for (long i = 0; i < nItems; ++i) {
    Rng g(mix(seed * 7000003ULL + (u64)i + 5));
    Item it;
    it.fid = it.cid = i + 1;
    std::ostringstream nm;
    double dice = g.uni();
    if (o.explicitBias > 0 && g.chance(o.explicitBias)) dice *= .4;
    if (dice < .22 && o.explicits) {  // locked joint
      static const char* names[] = {"arm/j1", "arm/j2", "arm/j3", "arm/j4", "arm/j5", "box2/root_joint"};
      const char* jn = names[g.below(6)];
      if (nx && g.chance(.2)) jn = "box3/root_joint";
      bool extra = nx && g.chance(.4);
      Configuration_t at(o.consistent ? w.qStar : perturb(w.space, w.qStar, g, .2));
      LockedJointPtr_t l;
      long nv;
      if (extra) {
        long k = g.range(0, nx - 1), len = g.range(1, std::min<long>(2, nx - k));
        jn = "extra";
        l = LockedJoint::create(d, k, vector_t(at.segment(m.nq + k, len)));
        nv = len;
      } else {
        JointPtr_t j(d->getJointByName(jn));
        nv = j->numberDof();
        l = LockedJoint::create(j, LiegroupElement(at.segment(j->rankInConfiguration(), j->configSize()), j->configurationSpace()));
      }
      nm << "locked " << jn << " " << i;
      it.e = l;
      it.inConf = l->inputConf(); it.outConf = l->outputConf(); it.inVel = l->inputVelocity(); it.outVel = l->outputVelocity();
      it.kind = 10;
      // locked joints on one joint are equal constraints
      for (auto& x : w.items) if (x.kind == 10 && x.outConf == it.outConf) { it.fid = x.fid; it.cid = x.cid; it.malformed = true; }
      if (it.malformed) { it.malformed = false; --i; if (g.chance(2)) {} seed = mix(seed); continue; }
      it.comp.assign((size_t)nv, g.chance(.6) ? Equality : EqualToZero);
      if (it.comp[0] == EqualToZero) { ComparisonTypes_t c(it.comp); l->comparisonType(c); }
      it.comp = l->comparisonType();
    } else if (o.contacts && g.chance(.15)) {  // explicit contact of a box
      JointAndShapes_t fl(floorShapes(d, g)), ob(objectShapes(d, g));
      nm << "explicit contact " << i;
      auto e = explicit_::ConvexShapeContact::create(nm.str(), d, fl, ob, g.chance(.5) ? 0 : g.uni(0, .05));
      it.e = e;
      it.comp = e->comparisonType();
      it.inConf = e->inputConf(); it.outConf = e->outputConf(); it.inVel = e->inputVelocity(); it.outVel = e->outputVelocity();
      it.kind = 12;
      it.consistent = false;
      it.radius = HPP_DYNAMIC_PTR_CAST(ConvexShapeContactHold, e->functionPtr())->contactConstraint()->radius();
      it.nFloors = (long)fl.size();
      it.nFaces = (long)ob.size();
    } else if (dice < .40 && o.explicits) {  // explicit relative pose of a free flying box
      bool one = g.chance(.5);
      JointPtr_t j2(d->getJointByName(one ? "box1/root_joint" : "box2/root_joint"));
      if (nx && g.chance(.5)) j2 = d->getJointByName("box3/root_joint");
      static const char* par[] = {"arm/j5", "arm/j3", "arm/j4"};
      JointPtr_t j1(g.chance(.25) ? d->getJointByName(one ? "box2/root_joint" : "box1/root_joint") : d->getJointByName(par[g.below(3)]));
      d->currentConfiguration(w.qStar);
      d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
      Transform3s f2(randomPose(g, .1)), f1(j1->currentTransformation().actInv(j2->currentTransformation() * f2));
      if (!o.consistent) f1 = f1 * randomPose(g, .05);
      nm << "relative pose " << i;
      it.comp.assign(6, g.chance(.6) ? Equality : EqualToZero);
      it.e = explicit_::RelativePose::create(nm.str(), d, j1, j2, f1, f2, it.comp);
      it.inConf = it.e->inputConf(); it.outConf = it.e->outputConf(); it.inVel = it.e->inputVelocity(); it.outVel = it.e->outputVelocity();
      it.kind = 11;
      it.lieOut = true;
    } else {
      int k = (int)g.below(RK_COUNT);
      if (k == RK_MANIP && g.chance(.7)) k = RK_TRANSFORMATION;
      nm << robotKindName(k) << " " << i;
      DifferentiableFunctionPtr_t f(makeRobotFunction(d, k, mix(seed + (u64)i), w.qStar, nm.str()));
      it.kind = 20 + k;
      it.lieOut = !f->outputSpace()->isVectorSpace();
      it.consistent = !(k == RK_FEET || k == RK_POINTS || k == RK_MANIP || k == RK_CONTACT);
      it.smooth = k != RK_CONTACT && k != RK_MANIP;
      DifferentiableFunctionPtr_t hf(hooked ? DifferentiableFunctionPtr_t(new HookFn(f, i + 1)) : f);
      size_t n = (size_t)hf->outputDerivativeSize();
      bool eq = g.chance(.5);
      it.comp.assign(n, eq ? Equality : EqualToZero);
      if (!it.lieOut && o.inequalities && g.chance(.25)) it.comp[g.below(n)] = g.chance(.5) ? Superior : Inferior;
      it.mask.assign(n, true);
      if (o.masks && g.chance(.2)) for (size_t a = 0; a < n; ++a) it.mask[a] = g.chance(.7);
      it.c = Implicit::create(hf, it.comp, it.mask);
    }
    if (it.e) { it.c = it.e; it.mask.assign(it.comp.size(), true); }
    it.label = nm.str();
    w.items.push_back(it);
  }
  return w;
}
}  // namespace sim
