// Histories of evaluations of constraint functions, with evaluations that fail, robots moved behind
// the functions, shared sub-objects and modified parameters (C14).
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <hpp/constraints/active-set-differentiable-function.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/com-between-feet.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/distance-between-bodies.hh>
#include <hpp/constraints/distance-between-points-in-bodies.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/manipulability.hh>
#include <hpp/constraints/matrix-view.hh>
#include <hpp/constraints/qp-static-stability.hh>
#include <hpp/constraints/relative-com.hh>
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include <hpp/constraints/static-stability.hh>
#include <hpp/constraints/symbolic-calculus.hh>
#include <hpp/constraints/symbolic-function.hh>
#include <hpp/pinocchio/body.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
#include <hpp/pinocchio/collision-object.hh>
#include <sstream>

#include "common/robot.hh"
#include "h/func.hh"
#include "h/robot.hh"

namespace sim {
static const char* kindNames[FK_COUNT - RK_COUNT] = {"DistanceBetweenBodies", "StaticStability", "ContactComplement", "ContactHold", "explicit RelativeTransformation", "ImplicitFunction", "FunctionSet", "OfParameterSubset", "Difference", "ActiveSet", "Affine", "Constant", "Identity", "Symbolic", "LockedJoint function", "LockedJoint explicit function", "RelativeOrientationSO3", "RelativeCom of a subtree", "ComBetweenFeet of a subtree", "output of RelativePose", "output of LockedJoint", "output of Explicit", "DistanceBetweenPoints of one body", "Manipulability of hooked", "implicit function of RelativePose", "QPStaticStability", "contact points", "contact of points", "finite differences", "DistanceBetweenBodies of objects", "ConfigurationConstraint with a mask", "expression"};
const char* fnKindName(int k) { return k < RK_COUNT ? robotKindName(k) : kindNames[k - RK_COUNT]; }

static SimFn* simpleFn(const Space& in, int outType, long outN, u64 seed, bool isExplicit) {
  Rng r(seed);
  FnSpec s;
  s.id = (long)(seed % 1000000);
  s.name = "simulated";
  s.in = in;
  s.outType = outType;
  s.outN = outN;
  LiegroupSpacePtr_t os(groupSpace(outType, outN));
  s.base = os->exp(randomVelocity(os->nv(), r, .3)).vector();
  s.C.resize(os->nv(), in.nq);
  for (long i = 0; i < s.C.rows(); ++i) for (long j = 0; j < s.C.cols(); ++j) s.C(i, j) = r.uni(-.5, .5);
  s.b = randomVelocity(os->nv(), r, .2);
  s.eps = .3; s.kappa = 2;
  s.isExplicit = isExplicit;
  return new SimFn(s);
}
// functions of the family that are wrapped so that their evaluation may fail
static DifferentiableFunctionPtr_t hook(const DifferentiableFunctionPtr_t& f, long id) { return DifferentiableFunctionPtr_t(new HookFn(f, id)); }

// Random expressions that share their parts.
typedef CalculusBaseAbstract<> CB;
typedef Traits<CB>::Ptr_t CBp;
typedef Sum<CB, CB> SumE;
typedef Difference<CB, CB> DiffE;
typedef ScalarProduct<CB, CB> DotE;
typedef FunctionExp<DifferentiableFunction> FunE;
struct Trees {
  DevicePtr_t d;
  std::vector<CBp> parts;
  std::vector<JointPtr_t> joints;
  Traits<PointCom>::Ptr_t com;
  long nv;
  bool ready = false;
  template <typename A, typename B> static CBp sum(const A& a, const B& b) { return b + a; }
  void prepare(const DevicePtr_t& dev, u64 seed, const CenterOfMassComputationPtr_t& c) {
    if (ready) return;
    ready = true;
    d = dev;
    Rng g(mix(seed ^ 0x7ee));
    nv = d->numberDof() - d->extraConfigSpace().dimension();
    for (const char* n : {"arm/j5", "arm/j2", "box1/root_joint", "box2/root_joint", "box3/root_joint"})
      if (d->model().existJointName(n)) joints.push_back(d->getJointByName(n));
    com = PointCom::create(c);
    for (int i = 0; i < 4; ++i) {
      vector3_t o(g.uni(-.3, .3), g.uni(-.3, .3), g.uni(-.3, .3));
      if (g.chance(.2)) o.setZero();
      parts.push_back(PointInJoint::create(joints[g.below(joints.size())], o));
    }
    parts.push_back(VectorInJoint::create(joints[g.below(joints.size())], vector3_t(g.uni(-1, 1), .4, g.uni(-1, 1))));
    parts.push_back(Point::create(vector3_t(g.uni(-1, 1), .2, g.uni(-1, 1)), nv));
    if (g.chance(.5)) parts.push_back(PointInJoint::create(JointPtr_t(), vector3_t(.1, g.uni(-1, 1), .3), nv));
  }
  CBp any(Rng& g) { return parts[g.below(parts.size())]; }
  Traits<SumE>::Ptr_t sum(Rng& g) { return any(g) + any(g); }
  Traits<DiffE>::Ptr_t diff(Rng& g) { return any(g) - any(g); }
  // an expression of the first point
  CBp related(Rng& g) {
    auto p(std::dynamic_pointer_cast<PointInJoint>(parts[0]));
    JointPtr_t j(joints[g.below(joints.size())]);
    auto v(VectorInJoint::create(joints[g.below(joints.size())], vector3_t(0, g.uni(-1, 1), .7)));
    switch (g.below(5)) {
      case 0: return j * p;
      case 1: return JointTranspose(j) * p;
      case 2: return p ^ v;
      case 3: return v ^ p;
      default: return p ^ diff(g);
    }
  }
  // grows the set of shared expressions by one
  CBp grow(Rng& g, const DifferentiableFunctionPtr_t& fn) {
    JointPtr_t j(joints[g.below(joints.size())]);
    CBp e;
    switch (g.below(fn ? 12 : 11)) {
      case 0: e = sum(g); break;
      case 1: e = diff(g); break;
      case 2: e = g.uni(-2, 2) * any(g); break;
      case 3: e = sum(g) ^ diff(g); break;
      case 4: e = diff(g) ^ diff(g); break;
      case 5: e = j * sum(g); break;
      case 6: e = JointTranspose(j) * diff(g); break;
      case 7: e = com ^ diff(g); break;
      case 8: e = j * com; break;
      case 9: e = com - diff(g); break;
      case 10: {
        vector3_t o(g.uni(-.3, .3), 0, g.uni(-.3, .3));
        auto p(PointInJoint::create(j, o));
        e = p ^ VectorInJoint::create(joints[g.below(joints.size())], vector3_t(0, g.uni(-1, 1), .7));
        if (g.chance(.5)) e = (j * p) - e;
        if (g.chance(.5)) parts.push_back(p);
        break;
      }
      default: {
        auto f(FunE::create(fn));
        e = f - diff(g);
      }
    }
    parts.push_back(e);
    return e;
  }
};

Family::Family(const DevicePtr_t& dev, u64 seed, const std::vector<int>& kinds) : d(dev) {
  Rng r(mix(seed ^ 0xf0c));
  space = robotSpace(d);
  Rng rq(mix(seed ^ 0xf0d));
  qStar = robotNominal(d, rq);
  // shared by several functions
  CenterOfMassComputationPtr_t whole(CenterOfMassComputation::create(d)), part(CenterOfMassComputation::create(d));
  whole->add(d->rootJoint());
  part->add(d->getJointByName("arm/j3"));
  JointPtr_t box1(d->getJointByName("box1/root_joint")), box2(d->getJointByName("box2/root_joint"));
  JointPtr_t box3(d->model().existJointName("box3/root_joint") ? d->getJointByName("box3/root_joint") : JointPtr_t());
  typedef Traits<PointInJoint>::Ptr_t PIJ;
  PIJ pA(PointInJoint::create(d->getJointByName("arm/j5"), vector3_t(.1, 0, .2))), pB(PointInJoint::create(box1, vector3_t(0, .1, 0)));
  Trees trees;
  DifferentiableFunctionPtr_t shared;  // inner function shared by composed functions
  for (size_t i = 0; i < kinds.size(); ++i) {
    Fn x;
    int k = x.kind = kinds[i];
    u64 s = mix(seed + 31 * i);
    Rng g(s);
    std::ostringstream nm;
    nm << fnKindName(k) << " " << i;
    std::string n(nm.str());
    auto inner = [&](int kk, u64 sd) { return hook(makeRobotFunction(d, kk, sd, qStar, n + " inner"), (long)i); };
    if (k < RK_COUNT) {
      x.f = makeRobotFunction(d, k, s, qStar, n);
      if (k == RK_MANIP) x.allocOk = false;
    } else switch (k) {
      case FK_DIST: {
        x.f = DistanceBetweenBodies::create(n, d, g.chance(.5) ? d->getJointByName("arm/j5") : box2, box1);
        x.tol = 1e-5; x.tolJ = .1;  // the distance computation starts from the previous one, up to its precision
        break;
      }
      case FK_STATIC: {
        StaticStability::Contacts_t c;
        long nc = g.range(3, 5);
        for (long a = 0; a < nc; ++a) {
          StaticStability::Contact_t ct;
          ct.joint = g.chance(.5) ? box1 : box2;
          ct.point = vector3_t(g.uni(-.3, .3), g.uni(-.3, .3), 0);
          ct.normal = vector3_t(g.uni(-.2, .2), g.uni(-.2, .2), 1).normalized();
          c.push_back(ct);
        }
        x.f = StaticStability::create(n, d, c, g.chance(.5) ? whole : part);
        x.tol = 1e-6;
        x.allocOk = false;
        break;
      }
      case FK_QP: {
        if (g.chance(.5)) {
          QPStaticStability::Contacts_t c;
          long nc = g.range(3, 5);
          for (long a = 0; a < nc; ++a) {
            QPStaticStability::Contact_t ct;
            ct.joint = g.chance(.5) ? box1 : box2;
            ct.point = vector3_t(g.uni(-.3, .3), g.uni(-.3, .3), 0);
            ct.normal = vector3_t(g.uni(-.2, .2), g.uni(-.2, .2), 1).normalized();
            c.push_back(ct);
          }
          x.f = QPStaticStability::create(n, d, c, g.chance(.5) ? whole : part);
        } else {
          std::vector<ConvexShapeContact::ForceData> c;
          long nc = g.range(1, 2);
          for (long a = 0; a < nc; ++a) {
            ConvexShapeContact::ForceData fdat;
            fdat.joint = a ? box2 : box1;
            long np = g.range(1, 3);
            for (long b = 0; b < np; ++b) fdat.points.push_back(vector3_t(g.uni(-.3, .3), g.uni(-.3, .3), 0));
            fdat.normal = vector3_t(g.uni(-.2, .2), g.uni(-.2, .2), 1).normalized();
            c.push_back(fdat);
          }
          x.f = QPStaticStability::create(n, d, c, g.chance(.5) ? whole : part);
        }
        x.tol = 1e-6;
        x.allocOk = false;
        break;
      }
      case FK_POINTS: {
        JointAndShapes_t ob(objectShapes(d, g));
        for (auto& o : ob) if (g.chance(.2)) o.second.resize((size_t)g.range(1, 2));
        x.f = ConvexShapeContact::create(n, d, floorShapes(d, g), ob);
        x.points = true;
        break;
      }
      case FK_EDGES: {
        // an object that is a point; the computation of the contact of an edge is refused
        JointAndShapes_t ob(objectShapes(d, g));
        for (auto& o : ob) if (g.chance(.8)) o.second.resize(1);
        JointAndShapes_t fl(floorShapes(d, g));
        if (g.chance(.5)) x.f = ConvexShapeContact::create(n, d, fl, ob);
        else x.f = ConvexShapeContactComplement::createPair(n, d, fl, ob).second;
        break;
      }
      case FK_FD: {
        static const int kk[] = {RK_POSITION, RK_RTRANSFORMATION, RK_COM, RK_ORIENTATION_G, RK_FEET, RK_POINTS};
        DifferentiableFunctionPtr_t in(makeRobotFunction(d, kk[g.below(6)], s, qStar, n + " inner"));
        if (g.chance(.5) && shared) in = shared; else { in = hook(in, (long)i); if (!shared) shared = in; }
        x.f = in;
        x.fd = (int)g.range(1, 2);
        x.hooked = true;
        x.tolJ = 1e-3;
        break;
      }
      case FK_DIST_OBJ: {
        std::vector<hpp::pinocchio::CollisionObjectPtr_t> os;
        for (size_t b = 0; b < (size_t)box1->linkedBody()->nbInnerObjects(); ++b) os.push_back(box1->linkedBody()->innerObjectAt(b));
        x.f = DistanceBetweenBodies::create(n, d, g.chance(.5) ? d->getJointByName("arm/j5") : box2, os);
        x.tol = 1e-5; x.tolJ = .1;
        break;
      }
      case FK_CONFIG_MASK: {
        std::vector<bool> m((size_t)d->numberDof(), true);
        for (size_t b = 0; b < m.size(); ++b) m[b] = g.chance(.6);
        m[0] = true;
        x.f = ConfigurationConstraint::create(n, d, qStar, m);
        break;
      }
      case FK_COMPL: x.f = ConvexShapeContactComplement::createPair(n, d, floorShapes(d, g), objectShapes(d, g)).second; break;
      case FK_HOLD: x.f = ConvexShapeContactHold::create(n, d, floorShapes(d, g), objectShapes(d, g)); break;
      case FK_ERELT: case FK_OUT_POSE: case FK_IMPL_POSE: {
        static const char* par[] = {"arm/j5", "arm/j3", "arm/j4", "box2/root_joint"};
        x.e = explicit_::RelativePose::create(n, d, d->getJointByName(par[g.below(4)]), box3 && g.chance(.5) ? box3 : box1, randomPose(g, .3), randomPose(g, .1), ComparisonTypes_t(6, Equality));
        x.f = k == FK_IMPL_POSE ? x.e->functionPtr() : x.e->explicitFunction();
        x.sliced = k != FK_IMPL_POSE;
        x.out = k == FK_OUT_POSE;
        break;
      }
      case FK_IMPL: case FK_OUT_EXPL: {
        Space in;
        in.append(B_RN, 3);
        int ot = g.chance(.5) ? B_RN : B_SE3;
        segments_t ic, oc, iv, ov;
        ic.push_back(segment_t(0, 3)); iv = ic;
        JointPtr_t o(ot == B_RN ? d->getJointByName("arm/j5") : box2);
        oc.push_back(segment_t(o->rankInConfiguration(), o->configSize()));
        ov.push_back(segment_t(o->rankInVelocity(), o->numberDof()));
        DifferentiableFunctionPtr_t h(simpleFn(in, ot, 1, s, true));
        if (k == FK_IMPL && g.chance(.4)) {
          // several elementary groups
          JointPtr_t o2(ot == B_RN ? box2 : d->getJointByName("arm/j5"));  // as an implicit function, outputs may be anywhere
          DifferentiableFunctionSetPtr_t st(DifferentiableFunctionSet::create("simulated set"));
          st->add(h);
          st->add(DifferentiableFunctionPtr_t(simpleFn(in, ot == B_RN ? B_SE3 : B_RN, 1, mix(s), true)));
          h = st;
          oc.push_back(segment_t(o2->rankInConfiguration(), o2->configSize()));
          ov.push_back(segment_t(o2->rankInVelocity(), o2->numberDof()));
        }
        x.e = Explicit::create(d->configSpace(), h, ic, oc, iv, ov, ComparisonTypes_t((size_t)h->outputDerivativeSize(), Equality));
        x.f = k == FK_IMPL ? x.e->functionPtr() : x.e->explicitFunction();
        x.sliced = k != FK_IMPL;
        x.out = k == FK_OUT_EXPL && ot == B_RN;
        x.hooked = true;
        break;
      }
      case FK_SET: {
        DifferentiableFunctionSetPtr_t st(DifferentiableFunctionSet::create(n));
        static const int kk[] = {RK_POSITION, RK_RTRANSFORMATION_G, RK_COM, RK_CONTACT, RK_ORIENTATION_G};
        long m = g.range(2, 3);
        for (long a = 0; a < m; ++a) {
          DifferentiableFunctionPtr_t in(inner(kk[g.below(5)], mix(s + (u64)a)));
          if (a == 0) { if (!shared) shared = in; else in = shared; }
          st->add(in);
        }
        x.f = st;
        x.hooked = true;
        break;
      }
      case FK_SUBSET: {
        Space in;
        in.append(B_RN, 3);
        x.f = function::OfParameterSubset::create(DifferentiableFunctionPtr_t(simpleFn(in, g.chance(.5) ? B_RN : B_SO3, 2, s, false)), d->configSize(), d->numberDof(), segment_t(0, 3), segment_t(0, 3));
        x.hooked = true;
        break;
      }
      case FK_DIFF: {
        Space in;
        in.append(B_SE3, 1);
        x.f = DifferentiableFunctionPtr_t(new function::Difference(DifferentiableFunctionPtr_t(simpleFn(in, B_RN, 2, s, false)), d->configSize(), d->numberDof(),
                                                                   segment_t(box1->rankInConfiguration(), 7), segment_t(box1->rankInVelocity(), 6),
                                                                   segment_t(box2->rankInConfiguration(), 7), segment_t(box2->rankInVelocity(), 6)));
        x.hooked = true;
        break;
      }
      case FK_ACTIVE: {
        segments_t z;
        z.push_back(segment_t(g.range(0, 3), 2));
        if (!shared) shared = inner(RK_TRANSFORMATION, s);
        x.f = DifferentiableFunctionPtr_t(new ActiveSetDifferentiableFunction(shared, z));
        x.hooked = true;
        break;
      }
      case FK_AFFINE: {
        matrix_t J(2, space.nv);
        // affine functions act on vector spaces: the arm only
        J.setZero();
        for (long a = 0; a < 2; ++a) for (long b = 0; b < 3; ++b) J(a, b) = g.uni(-1, 1);
        matrix_t J3(J.leftCols(3));
        x.f = function::OfParameterSubset::create(AffineFunction::create(J3, randomVelocity(2, g, 1), n), d->configSize(), d->numberDof(), segment_t(0, 3), segment_t(0, 3));
        break;
      }
      case FK_CONST: x.f = ConstantFunction::create(vector_t(randomVelocity(3, g, 1)), d->configSize(), d->numberDof(), n); break;
      case FK_IDENT: x.f = Identity::create(d->configSpace(), n); break;
      case FK_SYMB: {
        int v = (int)g.below(4);
        if (v == 0) { auto e = Traits<CalculusBaseAbstract<> >::Ptr_t(Traits<Difference<PointInJoint, PointInJoint> >::Ptr_t(pA - pB)); x.f = SymbolicFunction<CalculusBaseAbstract<> >::create(n, d, e); }
        else if (v == 1) { auto e = Traits<CalculusBaseAbstract<> >::Ptr_t(Traits<CrossProduct<PointInJoint, PointInJoint> >::Ptr_t(pA ^ pB)); x.f = SymbolicFunction<CalculusBaseAbstract<> >::create(n, d, e); }
        else if (v == 2) { x.f = SymbolicFunction<PointInJoint>::create(n, d, g.chance(.5) ? pA : pB); }
        else { auto e = JointFrame::create(d->getJointByName("arm/j5")); x.f = SymbolicFunction<JointFrame>::create(n, d, e); }
        break;
      }
      case FK_TREE: {
        trees.prepare(d, seed, whole);
        DifferentiableFunctionPtr_t fn;
        if (!d->extraConfigSpace().dimension() && g.chance(.3)) {
          Space in;
          in.append(B_RN, 3);
          fn = hook(function::OfParameterSubset::create(DifferentiableFunctionPtr_t(simpleFn(in, B_RN, 3, s, false)), d->configSize(), d->numberDof(), segment_t(0, 3), segment_t(0, 3)), (long)i);
        }
        long grown = g.range(1, 3);
        CBp e;
        for (long a = 0; a < grown; ++a) e = trees.grow(g, fn);
        if (fn) x.hooked = true;
        if (g.chance(.25)) {
          Traits<DotE>::Ptr_t dot(g.chance(.5) ? e * trees.any(g) : e * e);
          x.f = SymbolicFunction<DotE>::create(n, d, dot);
        } else if (g.chance(.4)) {
          CBp o(trees.any(g));
          if (g.chance(.5)) { o = trees.related(g); if (g.chance(.5)) e = trees.related(g); }
          Traits<SumE>::Ptr_t both(e + o);
          x.f = SymbolicFunction<SumE>::create(n, d, both);
          x.terms.push_back(SymbolicFunction<CB>::create(n + " term 1", d, e));
          x.terms.push_back(SymbolicFunction<CB>::create(n + " term 2", d, o));
        } else {
          x.f = SymbolicFunction<CB>::create(n, d, e);
        }
        break;
      }
      case FK_LOCK: case FK_ELOCK: case FK_OUT_LOCK: {
        static const char* names[] = {"arm/j3", "arm/j4", "box2/root_joint"};
        JointPtr_t j(d->getJointByName(names[g.below(3)]));
        Configuration_t at(perturb(space, qStar, g, .3));
        LockedJointPtr_t l(LockedJoint::create(j, LiegroupElement(at.segment(j->rankInConfiguration(), j->configSize()), j->configurationSpace())));
        if (d->extraConfigSpace().dimension() && g.chance(.5)) {
          long k0 = g.range(0, 1), len = g.range(1, 2);
          l = LockedJoint::create(d, k0, vector_t(at.segment(d->model().nq + k0, len)));
        }
        x.e = l;
        l->comparisonType(ComparisonTypes_t(l->comparisonType().size(), Equality));
        x.f = k == FK_LOCK ? l->functionPtr() : l->explicitFunction();
        x.sliced = k != FK_LOCK;
        x.out = k == FK_OUT_LOCK;
        break;
      }
      case FK_RORI_G: x.f = RelativeOrientationSO3::create(n, d, box1, d->getJointByName("arm/j5"), randomPose(g, .1), randomPose(g, .1)); break;
      case FK_COM_PART: x.f = RelativeCom::create(n, d, g.chance(.6) ? part : whole, g.chance(.5) ? box1 : d->getJointByName("arm/j2"), vector3_t(g.uni(-1, 1), 0, .1), std::vector<bool>(3, true)); break;
      case FK_FEET_PART: {
        std::vector<bool> m(4, true);
        if (g.chance(.4)) { m[g.below(4)] = false; }
        x.f = ComBetweenFeet::create(n, d, g.chance(.6) ? part : whole, box1, box2, vector3_t(0, 0, -.1), vector3_t(.1, 0, 0), g.chance(.5) ? box1 : d->getJointByName("arm/j3"), vector3_t(0, .1, 0), m);
        break;
      }
      case FK_MANIP_HOOK: x.f = Manipulability::create(inner(RK_POSITION, s), d, n); x.hooked = true; x.allocOk = false; break;
      default: {
        vector3_t p1(.1, 0, g.uni(0, .2)), p2(0, g.uni(-.2, .2), .1);
        if (g.chance(.4)) x.f = DistanceBetweenPointsInBodies::create(n, d, box2, p1, p2);
        else x.f = DistanceBetweenPointsInBodies::create(n, d, g.chance(.5) ? box1 : d->getJointByName("arm/j4"), d->getJointByName("arm/j2"), p1, p2);
      }
    }
    x.name = n;
    if (x.out) {
      Rng rr(mix(s ^ 77));
      LiegroupSpacePtr_t sp(x.e->functionPtr()->outputSpace());
      x.rhs = sp->exp(randomVelocity(sp->nv(), rr, .4));
    }
    fns.push_back(x);
  }
}
vector_t Family::input(const Fn& x, const Configuration_t& q) const {
  if (!x.sliced) return q;
  return vector_t(Eigen::RowBlockIndices(x.e->inputConf()).rview(q));
}
static double fillValue(int fill, long i) { return fill == 0 ? 0. : fill == 1 ? std::nan("") : 1e3 + (double)i; }
vector_t Family::value(size_t i, const Configuration_t& q, int how, int fill, bool byTerms) const {
  const Fn& x = fns[i];
  vector_t in(input(x, q));
  if (byTerms && !x.terms.empty()) {
    vector_t v(vector_t::Zero(x.f->outputSize()));
    for (auto& t : x.terms) v += (*t)(in).vector();
    return v;
  }
  if (x.out) {
    LiegroupElement res(x.e->explicitFunction()->outputSpace());
    for (long a = 0; a < res.vector().size(); ++a) res.vector()[a] = fillValue(fill, a);
    x.e->outputValue(res, in, x.rhs);
    return res.vector();
  }
  if (x.points) {
    auto fd(HPP_DYNAMIC_PTR_CAST(ConvexShapeContact, x.f)->computeContactPoints(q, .8));
    std::vector<double> o(1, (double)fd.size());
    for (auto& c : fd) {
      o.push_back(c.joint ? (double)c.joint->index() : -1);
      o.push_back(c.supportJoint ? (double)c.supportJoint->index() : -1);
      for (int a = 0; a < 3; ++a) o.push_back(c.normal[a]);
      for (auto& pt : c.points) for (int a = 0; a < 3; ++a) o.push_back(pt[a]);
    }
    return Eigen::Map<vector_t>(o.data(), (long)o.size());
  }
  if (how == 0) return (*x.f)(in).vector();
  LiegroupElement res(x.f->outputSpace());
  for (long a = 0; a < res.vector().size(); ++a) res.vector()[a] = fillValue(fill, a);
  x.f->value(res, in);
  return res.vector();
}
matrix_t Family::jacobian(size_t i, const Configuration_t& q, int fill, bool byTerms) const {
  const Fn& x = fns[i];
  vector_t in(input(x, q));
  matrix_t J(x.f->outputDerivativeSize(), x.f->inputDerivativeSize());
  for (long a = 0; a < J.size(); ++a) J.data()[a] = fillValue(fill, a);
  if (byTerms && !x.terms.empty()) {
    matrix_t T(J);
    J.setZero();
    for (auto& t : x.terms) { t->jacobian(T, in); J += T; }
    return J;
  }
  if (x.out) {
    LiegroupElement g((*x.e->explicitFunction())(in));
    x.e->jacobianOutputValue(in, g, x.rhs, J);
  } else if (x.fd == 1) x.f->finiteDifferenceCentral(J, in, d, 1e-6);
  else if (x.fd == 2) x.f->finiteDifferenceForward(J, in, d, 1e-6);
  else x.f->jacobian(J, in);
  return J;
}
void Family::edit(size_t i, u64 s) {
  const Fn& x = fns[i];
  Rng r(s);
  auto gt = [&](auto p) {
    if (!p) return false;
    switch (r.below(3)) {
      case 0: p->frame1InJoint1(randomPose(r, .5)); break;
      case 1: p->frame2InJoint2(r.chance(.3) ? Transform3s(Transform3s::Identity()) : randomPose(r, .5)); break;
      default: p->reference(randomPose(r, .5)); break;
    }
    return true;
  };
  if (x.e) return;
  if (gt(HPP_DYNAMIC_PTR_CAST(Position, x.f)) || gt(HPP_DYNAMIC_PTR_CAST(Orientation, x.f)) || gt(HPP_DYNAMIC_PTR_CAST(Transformation, x.f)) || gt(HPP_DYNAMIC_PTR_CAST(RelativeTransformation, x.f)) || gt(HPP_DYNAMIC_PTR_CAST(RelativeTransformationR3xSO3, x.f)) || gt(HPP_DYNAMIC_PTR_CAST(RelativePosition, x.f)) || gt(HPP_DYNAMIC_PTR_CAST(RelativeOrientation, x.f))) return;
  if (auto c = HPP_DYNAMIC_PTR_CAST(ConfigurationConstraint, x.f)) {
    {
      vector_t w(space.nv);
      for (long i = 0; i < w.size(); ++i) w[i] = r.uni(.1, 2);
      c->weights(w);
    }
  } else if (auto k = HPP_DYNAMIC_PTR_CAST(ConvexShapeContact, x.f)) k->setNormalMargin(r.uni(0, .1));
}

namespace {
double maxAbs(const matrix_t& a) { return a.size() ? a.cwiseAbs().maxCoeff() : 0; }
// is |a - b| small compared with the scale; not a number equals not a number
double mismatch(const matrix_t& a, const matrix_t& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return HUGE_VAL;
  double scale = 1;
  for (long i = 0; i < b.size(); ++i) if (std::isfinite(b.data()[i])) scale = std::max(scale, std::fabs(b.data()[i]));
  double m = 0;
  for (long i = 0; i < a.size(); ++i) {
    double x = a.data()[i], y = b.data()[i];
    if (std::isnan(x) && std::isnan(y)) continue;
    if (x == y) continue;
    double e = std::fabs(x - y) / scale;
    if (!(e <= m)) m = std::isnan(e) ? HUGE_VAL : e;
  }
  return m;
}
struct Func {
  const Plan& plan;
  std::vector<int> kinds;
  u64 world;
  std::vector<std::pair<size_t, u64> > edits;
  std::shared_ptr<Family> fam, twin;
  std::vector<char> equal;
  std::vector<Configuration_t> confs;
  explicit Func(const Plan& p) : plan(p), world((u64)p.knob("world")) {
    long n = std::max<long>(1, p.knob("n_items", 5));
    Rng r(mix(world ^ 0xabc));
    for (long i = 0; i < n; ++i) kinds.push_back((int)r.below(FK_COUNT));
    long only = p.knob("kind", -1);
    if (only >= 0) for (auto& k : kinds) k = (int)only;
    DevicePtr_t d(simRobot(robotVariant(world)));
    d->numberDeviceData(std::max<long>(1, p.knob("pool", 1)));
    fam.reset(new Family(d, world, kinds));
    twin.reset(new Family(d, world, kinds));
    Rng rc(mix(world ^ 0xc0f));
    for (int i = 0; i < 3; ++i) {
      Configuration_t c(perturb(fam->space, fam->qStar, rc, i == 0 ? .02 : .6));
      confs.push_back(c);
    }
    for (size_t i = 0; i < kinds.size(); ++i) equal.push_back(same(i));
  }
  char same(size_t i) const {
    const Fn &a = fam->fns[i], &b = twin->fns[i];
    bool r = *a.f == *b.f, r2 = *b.f == *a.f;
    return (char)((r ? 1 : 0) | (r2 ? 2 : 0) | (*a.f == *a.f ? 4 : 0));
  }
  Configuration_t conf(u64 s) const {
    Rng r(s);
    Configuration_t q(confs[r.below(confs.size())]);
    double dice = r.uni();
    if (dice < .45) return q;
    vector_t v(vector_t::Zero(fam->space.nv));
    if (dice < .75) {  // one block only
      const Block& b = fam->space.blocks[r.below(fam->space.blocks.size())];
      for (long i = 0; i < b.nv; ++i) v[b.iv + i] = r.uni(-.5, .5);
    } else {
      double amp = std::pow(10., -r.uni(.3, 7));
      v = randomVelocity(fam->space.nv, r, amp);
    }
    return integrateConf(fam->space, q, v);
  }
  // what a function that was never used answers, on a robot in another state
  matrix_t reference(size_t i, const Configuration_t& q, bool jac, u64 s, bool pristine) {
    Quiet quiet;
    Rng r(s);
    auto eval = [&](const DevicePtr_t& d, matrix_t& out) {
      d->currentConfiguration(r.chance(.5) ? d->neutralConfiguration() : q);
      if (r.chance(.5)) d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
      Family f(d, world, kinds);
      for (auto& e : edits) f.edit(e.first, e.second);
      if (jac) out = f.jacobian(i, q, 0, true);
      else out = f.value(i, q, 1, 0, true);
    };
    matrix_t out;
    if (!pristine) { eval(simRobotBis(robotVariant(world)), out); return out; }
    return out;
  }
  // answers asked to a process that starts from the state before the run
  int rq = -1, ra = -1;
  pid_t server = -1;
  struct Req { u64 item, jac, nEdits; };
  static bool readAll(int fd, void* p, size_t n) {
    char* c = (char*)p;
    while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; }
    return true;
  }
  static void writeAll(int fd, const void* p, size_t n) {
    const char* c = (const char*)p;
    while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(9); c += k; n -= (size_t)k; }
  }
  void serve(int in, int out) {
    // every request is answered by a new child of this process, which itself never evaluates anything
    for (;;) {
      Req rqst;
      if (!readAll(in, &rqst, sizeof rqst)) _exit(0);
      Configuration_t q(fam->d->configSize());
      if (!readAll(in, q.data(), sizeof(double) * (size_t)q.size())) _exit(0);
      std::vector<std::pair<size_t, u64> > ed;
      for (u64 k = 0; k < rqst.nEdits; ++k) { u64 a[2]; if (!readAll(in, a, sizeof a)) _exit(0); ed.push_back(std::make_pair((size_t)a[0], a[1])); }
      pid_t p = fork();
      if (p == 0) {
        Quiet quiet;
        static Result scratch;
        res = &scratch;
        u64 hdr[3] = {0, 0, 0};
        try {
          Family f(fam->d, (u64)plan.knob("world"), kinds);
          for (auto& e : ed) f.edit(e.first, e.second);
          matrix_t m;
          if (rqst.jac) m = f.jacobian(rqst.item, q, 0, true);
          else m = f.value(rqst.item, q, 1, 0, true);
          hdr[0] = 1; hdr[1] = (u64)m.rows(); hdr[2] = (u64)m.cols();
          writeAll(out, hdr, sizeof hdr);
          writeAll(out, m.data(), sizeof(double) * (size_t)m.size());
        } catch (...) { writeAll(out, hdr, sizeof hdr); }
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { u64 hdr[3] = {2, 0, 0}; writeAll(out, hdr, sizeof hdr); }
    }
  }
  void startServer() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return;
    server = fork();
    if (server == 0) { close(a[1]); close(b[0]); serve(a[0], b[1]); }
    close(a[0]); close(b[1]);
    rq = a[1]; ra = b[0];
  }
  bool ask(size_t i, const Configuration_t& q, bool jac, matrix_t& out) {
    if (server < 0) return false;
    Req r = {i, jac ? 1u : 0u, edits.size()};
    writeAll(rq, &r, sizeof r);
    writeAll(rq, q.data(), sizeof(double) * (size_t)q.size());
    for (auto& e : edits) { u64 x[2] = {e.first, e.second}; writeAll(rq, x, sizeof x); }
    u64 hdr[3];
    if (!readAll(ra, hdr, sizeof hdr) || hdr[0] != 1) return false;
    out.resize((long)hdr[1], (long)hdr[2]);
    return readAll(ra, out.data(), sizeof(double) * (size_t)out.size());
  }
  void moveRobot(u64 s) {
    Rng r(s);
    DevicePtr_t d(fam->d);
    Configuration_t q(r.chance(.5) ? conf(r.next()) : perturb(fam->space, fam->qStar, r, 1));
    d->currentConfiguration(q);
    int k = (int)r.below(4);
    if (k == 1) d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION);
    if (k == 2) d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN);
    if (k == 3) d->computeForwardKinematics(hpp::pinocchio::COMPUTE_ALL);
    fired(F_ROBOT_MOVED);
  }
  void evaluate(const Op& op) {
    size_t i = (size_t)op.a % fam->fns.size();
    const Fn& x = fam->fns[i];
    Rng r(op.s);
    Configuration_t q(conf(r.next()));
    Rng far(mix(op.s ^ 0xfa4));
    if (far.chance(.04) && x.kind != FK_DIST && x.kind != FK_DIST_OBJ && x.kind != FK_QP && x.kind != FK_FD && x.kind != FK_STATIC && x.kind != RK_MANIP && x.kind != FK_MANIP_HOOK) {
      // far away
      for (auto& b : fam->space.blocks) if (b.type == B_SE3)
        for (int k = 0; k < 3; ++k) if (far.chance(.6)) q[b.iq + k] = far.uni(-1, 1) * std::pow(10., far.uni(1, 12));
      SIM_PROBE("evaluated far away");
    }
    bool jac = op.b % 2 && !x.points;
    int how = (int)r.below(2), fill = (int)r.below(3);
    u64 rs = r.next();
    bool before = r.chance(.3);
    bool pristine = r.chance(plan.knob("pristine") ? .4 : 0);
    matrix_t want, got;
    // asking before changes the past of the reference robot only
    if (before) want = reference(i, q, jac, rs, false);
    bool done = false;
    const char* out = "done";
    long allocs = 0;
    bool alloc = op.fault == faultNames[F_ALLOC_FAIL];
    u64 was = ctl.firedCount;
    try {
      if (alloc && x.allocOk) mem::armFailure(std::max<long>(1, op.at));
      else armFault(op);
      if (jac) got = fam->jacobian(i, q, fill);
      else got = fam->value(i, q, how, fill);
      if (alloc && x.allocOk) allocs = mem::disarmFailure();
      done = true;
    }
    catch (const Violation&) { mem::disarmFailure(); disarmFault(); throw; }
    catch (const FunctionNotDefinedForThisValue&) { out = "undefined"; }
    catch (const EvalFault&) { out = "failed"; }
    catch (const std::bad_alloc&) { out = "bad_alloc"; }
    if (alloc && x.allocOk) { if (!allocs) allocs = mem::disarmFailure(); if (allocs) { fired(F_ALLOC_FAIL); SIM_PROBE("evaluation without memory"); } }
    bool hit = ctl.firedCount != was || allocs;
    disarmFault();
    sigAdd((u64)x.kind * 4 + (jac ? 2 : 0) + (done ? 1 : 0));
    logf("%s of %s: %s", jac ? "jacobian" : "value", x.name.c_str(), out);
    if (!done) { SIM_CHECK(hit, "exception", "evaluation of %s failed (%s) and no fault was injected", x.name.c_str(), out); SIM_PROBE("evaluation aborted"); return; }
    if (hit && !allocs) return;  // wrong values were injected
    logv(jac ? "J" : "v", got.data(), got.size());
    if (!before) want = reference(i, q, jac, rs, false);
    ++res->nontrivial;
    double m = mismatch(got, want);
    if (m > x.tolOf(jac)) report(x, jac, "a function never used before", q, got, want, m);
    if (pristine) {
      matrix_t p;
      if (ask(i, q, jac, p)) {
        fired(F_RESTART);
        m = mismatch(got, p);
        if (m > x.tolOf(jac)) report(x, jac, "a new process", q, got, p, m);
      }
    }
    if (jac) SIM_PROBE("Jacobian compared"); else SIM_PROBE("value compared");
  }
  [[noreturn]] void report(const Fn& x, bool jac, const char* who, const Configuration_t& q, const matrix_t& got, const matrix_t& want, double m) {
    std::string a(vecStr(Eigen::Map<const vector_t>(got.data(), std::min<long>(got.size(), 12)))), b(vecStr(Eigen::Map<const vector_t>(want.data(), std::min<long>(want.size(), 12))));
    fail(jac ? "jacobian-history" : "value-history", "%s of %s is %s after this history, %s gives %s (difference %g) at %s", jac ? "Jacobian" : "value", x.name.c_str(), a.c_str(), who, b.c_str(), m, vecStr(q).c_str());
  }
  void solve(const Op& op) {
    // a solver uses some of the functions
    size_t i = (size_t)op.a % fam->fns.size();
    const Fn& x = fam->fns[i];
    if (x.sliced) return;
    Rng r(op.s);
    try {
      solver::HierarchicalIterative h(fam->d->configSpace());
      h.maxIterations(5);
      h.errorThreshold(1e-4);
      h.add(Implicit::create(x.f, ComparisonTypes_t((size_t)x.f->outputDerivativeSize(), EqualToZero)), 0);
      Configuration_t q(conf(r.next()));
      armFault(op);
      h.solve(q);
      logv("q", q.data(), q.size());
    }
    catch (const Violation&) { disarmFault(); throw; }
    catch (const std::exception&) {}
    disarmFault();
    SIM_PROBE("function used by a solver");
  }
  // an expression that was just made has to be computed the first time it is asked for
  void expression(const Op& op) {
    Rng r(op.s);
    Configuration_t q(conf(r.next()));
    typedef Traits<PointInJoint>::Ptr_t PIJ;
    auto make = [&](const DevicePtr_t& d) {
      Rng g(op.s ^ 9);
      PIJ a(PointInJoint::create(d->getJointByName("arm/j5"), vector3_t(.1, 0, .2))), b(PointInJoint::create(d->getJointByName("box1/root_joint"), vector3_t(0, .1, 0)));
      typedef Traits<CalculusBaseAbstract<> >::Ptr_t E;
      if (g.chance(.5)) return E(Traits<Difference<PointInJoint, PointInJoint> >::Ptr_t(a - b));
      return E(Traits<CrossProduct<PointInJoint, PointInJoint> >::Ptr_t(a ^ b));
    };
    DevicePtr_t d(fam->d), d2(simRobotBis(robotVariant(world)));
    d->currentConfiguration(q);
    d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION | hpp::pinocchio::JACOBIAN);
    auto e(make(d));
    bool jac = op.b % 2;
    matrix_t got, want;
    if (jac) { e->computeJacobian(q); got = e->jacobian(); } else { e->computeValue(q); got = e->value(); }
    auto f(SymbolicFunction<CalculusBaseAbstract<> >::create("reference", d2, make(d2)));
    if (jac) { want.resize(3, fam->space.nv); f->jacobian(want, q); }
    else want = (*f)(q).vector();
    ++res->nontrivial;
    if (jac && got.cols() == want.cols() - fam->d->extraConfigSpace().dimension()) want = matrix_t(want.leftCols(got.cols()));
    double m = mismatch(got, want);
    SIM_CHECK(m < 1e-8, "expression-history", "%s of a new symbolic expression differs by %g from the function of this expression", jac ? "Jacobian" : "value", m);
    SIM_PROBE("new expression computed");
  }
  void run() {
    if (plan.knob("pristine")) startServer();
    for (auto& op : plan.ops) {
      ++res->ops;
      if (op.kind == "eval") evaluate(op);
      else if (op.kind == "move") moveRobot(op.s);
      else if (op.kind == "solve") solve(op);
      else if (op.kind == "expr") expression(op);
      else if (op.kind == "edit") {
        size_t i = (size_t)op.a % fam->fns.size();
        fam->edit(i, op.s);
        twin->edit(i, op.s);
        edits.push_back(std::make_pair(i, op.s));
        equal[i] = same(i);
        SIM_PROBE("function modified");
      } else if (op.kind == "equal") {
        size_t i = (size_t)op.a % fam->fns.size();
        char e = same(i);
        logf("equal %d", (int)e);
        SIM_CHECK(e == equal[i], "equality-history", "comparison of %s with its twin gave %d before the evaluations and %d after (1: equal to the twin, 2: the twin is equal to it, 4: equal to itself)", fam->fns[i].name.c_str(), (int)equal[i], (int)e);
        SIM_CHECK(e & 4, "equality-history", "%s is not equal to itself", fam->fns[i].name.c_str());
        // printing is allowed at any time
        std::ostringstream text;
        text << *fam->fns[i].f;
        if (auto l = HPP_DYNAMIC_PTR_CAST(LockedJoint, fam->fns[i].e)) l->print(text);
        logf("text %s", text.str().c_str());
        SIM_PROBE("function compared");
      } else if (op.kind == "pool") {
        fam->d->numberDeviceData(1 + op.a % 3);
      }
    }
    if (server > 0) { close(rq); close(ra); int st; waitpid(server, &st, 0); }
  }
};
void generate(Plan& p) {
  Rng r(p.seed);
  p.knobs["world"] = (long)(r.next() >> 8);
  p.knobs["n_items"] = r.range(1, 6);
  p.knobs["pool"] = r.range(1, 2);
  p.knobs["pristine"] = r.chance(.25);
  p.knobs["mem_layout"] = (long)r.below(1000);
  p.knobs["mem_fill"] = (long)r.below(6);
  bool faulty = r.chance(.7);
  long n = r.range(4, 24);
  for (long i = 0; i < n; ++i) {
    Op o;
    double k = r.uni();
    o.kind = k < .74 ? "eval" : k < .84 ? "move" : k < .89 ? "solve" : k < .94 ? "edit" : k < .97 ? "equal" : k < .985 ? "expr" : "pool";
    o.a = r.range(0, 5);
    o.b = r.range(0, 1);
    o.s = r.next();
    if (faulty && (o.kind == "eval" || o.kind == "solve") && r.chance(.3)) {
      static const Fault fs[] = {F_THROW, F_UNDEFINED, F_BADALLOC_CB, F_NAN, F_ADVERSARIAL, F_ALLOC_FAIL, F_ALLOC_FAIL, F_ALLOC_FAIL};
      Fault f = fs[r.below(o.kind == "eval" ? 8 : 4)];
      o.fault = faultNames[f];
      o.at = f == F_ALLOC_FAIL ? r.range(1, 40) : r.range(1, 3);
    }
    p.ops.push_back(o);
  }
}
void execute(const Plan& p) { Func f(p); f.run(); }
Registrar reg("C14", generate, execute);
}  // namespace
}  // namespace sim
