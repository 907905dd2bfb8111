#include <algorithm>
#include <hpp/constraints/implicit-constraint-set.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include "h/world.hh"

#include <cmath>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <new>
#include <sstream>

namespace sim {
using hpp::pinocchio::DerivativeTimesInput;
Ctl ctl;

LiegroupSpacePtr_t groupSpace(int type, long n) {
  switch (type) {
    case B_RN: return LiegroupSpace::Rn(n);
    case B_SO2: return LiegroupSpace::SO2();
    case B_SO3: return LiegroupSpace::SO3();
    case B_SE2: return LiegroupSpace::SE2();
    case B_SE3: return LiegroupSpace::SE3();
    default: return LiegroupSpace::R3xSO3();
  }
}
static void groupSize(int type, long n, long& nq, long& nv) {
  static const long q[] = {0, 2, 4, 4, 7, 7}, v[] = {0, 1, 3, 3, 6, 6};
  nq = type == B_RN ? n : q[type];
  nv = type == B_RN ? n : v[type];
}
void Space::append(int type, long n) {
  Block b;
  b.type = type;
  b.iq = nq; b.iv = nv;
  groupSize(type, n, b.nq, b.nv);
  blocks.push_back(b);
  nq += b.nq; nv += b.nv;
}
int Space::blockOfQ(long i) const {
  for (size_t k = 0; k < blocks.size(); ++k) if (i >= blocks[k].iq && i < blocks[k].iq + blocks[k].nq) return (int)k;
  return -1;
}
int Space::blockOfV(long i) const {
  for (size_t k = 0; k < blocks.size(); ++k) if (i >= blocks[k].iv && i < blocks[k].iv + blocks[k].nv) return (int)k;
  return -1;
}
Space makeSpace(const std::vector<std::pair<int, long> >& types) {
  Space s;
  s.sp = LiegroupSpace::createCopy(LiegroupSpace::empty());
  for (auto& t : types) {
    s.append(t.first, t.second);
    *s.sp *= groupSpace(t.first, t.second);
  }
  return s;
}

// ---------------------------------------------------------------- hook
bool armFault(const Op& op) {
  disarmFault();
  static const Fault kinds[] = {F_THROW, F_UNDEFINED, F_BADALLOC_CB, F_NAN, F_INF, F_ADVERSARIAL};
  for (Fault f : kinds)
    if (op.fault == faultNames[f]) {
      ctl.fault = f;
      ctl.countdown = op.at > 0 ? op.at : 1;
      Rng r(op.s ^ 0xfa017);
      ctl.sticky = r.chance(0.25);
      long w = r.below(4);
      ctl.fireJac = w != 0;
      ctl.fireVal = w != 1;
      ctl.rng = r.next();
      return true;
    }
  return false;
}
void disarmFault() {
  ctl.countdown = 0;
  ctl.fault = F_COUNT;
  ctl.sticky = ctl.active = false;
  ctl.firedCount = ctl.lies = 0;
  ctl.inCall = 0;
}
Fault evalHook(const DifferentiableFunction* f, bool jac, bool explicitFn) {
  if (trace) scrubStack();
  if (ctl.quiet) return F_COUNT;
  ++ctl.evals;
  ++res->evals;
  ++ctl.inCall;
  if (ctl.cap && ctl.inCall > ctl.cap) {
    ctl.quiet = true;
    fail("unbounded-work", "more than %llu evaluations in one call", (unsigned long long)ctl.cap);
  }
  if (ctl.tap) ctl.tap(f, jac);
  if (ctl.fault == F_COUNT) return F_COUNT;
  if (!ctl.active) {
    if (ctl.countdown <= 0) return F_COUNT;
    if ((jac && !ctl.fireJac) || (!jac && !ctl.fireVal)) return F_COUNT;
    if (ctl.fault == F_UNDEFINED && !explicitFn) return F_COUNT;
    if (--ctl.countdown > 0) return F_COUNT;
    if (ctl.sticky) ctl.active = true;
  } else if (ctl.fault == F_UNDEFINED && !explicitFn) return F_COUNT;
  ++ctl.firedCount;
  fired(ctl.fault);
  if (res->simTime == 0) res->simTime = 0;
  switch (ctl.fault) {
    case F_THROW: throw EvalFault();
    case F_BADALLOC_CB: throw std::bad_alloc();
    case F_UNDEFINED: throw FunctionNotDefinedForThisValue();
    default: ++ctl.lies; return ctl.fault;
  }
}
template <class V>
static void corrupt(Fault k, V&& v, bool allowNaN) {
  Rng r(ctl.rng);
  ctl.rng = r.next();
  if (v.size() == 0) return;
  if (!allowNaN && k != F_ADVERSARIAL) k = F_ADVERSARIAL;
  if (k == F_NAN) {
    if (r.chance(0.5)) v.setConstant(std::nan(""));
    else v(r.below((u64)v.size())) = std::nan("");
  } else if (k == F_INF) {
    double x = r.chance(0.5) ? HUGE_VAL : -HUGE_VAL;
    if (r.chance(0.5)) v.setConstant(x);
    else v(r.below((u64)v.size())) = x;
  } else {
    double amp = std::pow(10., r.uni(-6, 8));
    if (allowNaN && r.chance(.25)) amp = std::pow(10., r.chance(.5) ? r.uni(-300, -100) : r.uni(100, 300));
    long w = r.below(4);
    for (long i = 0; i < v.size(); ++i) v(i) = w == 0 ? 0 : (w == 1 ? v(i) * amp : r.uni(-1, 1) * amp);
  }
}

// ---------------------------------------------------------------- SimFn
static LiegroupSpacePtr_t outSpaceOf(const FnSpec& s) { return groupSpace(s.outType, s.outN); }
SimFn::SimFn(const FnSpec& spec)
    : DifferentiableFunction(spec.in.nq, spec.in.nv, outSpaceOf(spec), spec.name), s(spec) {
  // a column that is zero everywhere in a block makes the block inactive
  for (auto& b : s.in.blocks) {
    bool whole = b.type != B_RN;
    bool any = false;
    for (long j = 0; j < b.nq; ++j) {
      bool nz = s.C.rows() > 0 && s.C.col(b.iq + j).cwiseAbs().maxCoeff() > 0;
      if (!whole) {
        bool act = nz || (s.baseBlock >= 0 && &b == &s.in.blocks[(size_t)s.baseBlock]) || s.badCoord == b.iq + j || s.quadCoord == b.iq + j;
        activeParameters_[b.iq + j] = act;
        activeDerivativeParameters_[b.iv + j] = act;
      }
      any = any || nz || s.badCoord == b.iq + j || s.quadCoord == b.iq + j;
    }
    if (whole) {
      any = any || (s.baseBlock >= 0 && &b == &s.in.blocks[(size_t)s.baseBlock]);
      for (long j = 0; j < b.nq; ++j) activeParameters_[b.iq + j] = any;
      for (long j = 0; j < b.nv; ++j) activeDerivativeParameters_[b.iv + j] = any;
    }
  }
}
void SimFn::value0(vectorIn_t q, vectorOut_t out) const {
  vector_t z(s.C * q + s.b), v(z.size());
  for (long k = 0; k < z.size(); ++k) v[k] = z[k] + s.eps * std::sin(s.kappa * z[k]);
  if (s.quadCoord >= 0) { double x = q[s.quadCoord] - s.quadAt; v[0] += s.quad * x * x + s.quadOff; }
  if (s.outType == B_RN && s.baseBlock < 0) { out = s.base + v; return; }
  vector_t base(s.base);
  if (s.baseBlock >= 0) { const Block& b = s.in.blocks[(size_t)s.baseBlock]; base = q.segment(b.iq, b.nq); }
  LiegroupElement e(base, outputSpace_);
  e += v;
  out = e.vector();
}
void SimFn::impl_compute(LiegroupElementRef result, vectorIn_t q) const {
  Fault k = evalHook(this, false, s.isExplicit);
  if (bad(q)) {
    if (!ctl.quiet) SIM_PROBE("evaluated where undefined");
    if (s.isExplicit) throw FunctionNotDefinedForThisValue();
    if (s.outType == B_RN) { result.vector().setConstant(std::nan("")); return; }
  }
  value0(q, result.vector());
  if (k != F_COUNT) {
    if (s.outType == B_RN) corrupt(k, result.vector(), !s.isExplicit);
    else {
      vector_t v(outputSpace_->nv());
      v.setZero();
      corrupt(F_ADVERSARIAL, v, false);
      for (long i = 0; i < v.size(); ++i) v[i] = std::fmod(v[i], 3.);
      LiegroupElement e(outputSpace_->exp(v));
      result.vector() = e.vector();
    }
  }
}
// derivative of the raw coordinates with respect to the velocity
static matrix_t rawDerivative(const Space& sp, vectorIn_t q) {
  matrix_t D(matrix_t::Zero(sp.nq, sp.nv));
  auto quat = [&](long iq, long iv) {
    double x = q[iq], y = q[iq + 1], z = q[iq + 2], w = q[iq + 3];
    Eigen::Matrix<double, 4, 3> m;
    m << w, -z, y, z, w, -x, -y, x, w, -x, -y, -z;
    D.block(iq, iv, 4, 3) = .5 * m;
  };
  for (auto& b : sp.blocks) switch (b.type) {
      case B_RN: D.block(b.iq, b.iv, b.nq, b.nv).setIdentity(); break;
      case B_SO2: D(b.iq, b.iv) = -q[b.iq + 1]; D(b.iq + 1, b.iv) = q[b.iq]; break;
      case B_SO3: quat(b.iq, b.iv); break;
      case B_SE2: {
        double c = q[b.iq + 2], s = q[b.iq + 3];
        D(b.iq, b.iv) = c; D(b.iq, b.iv + 1) = -s; D(b.iq + 1, b.iv) = s; D(b.iq + 1, b.iv + 1) = c;
        D(b.iq + 2, b.iv + 2) = -s; D(b.iq + 3, b.iv + 2) = c;
        break;
      }
      case B_SE3: {
        Eigen::Quaterniond Q(q[b.iq + 6], q[b.iq + 3], q[b.iq + 4], q[b.iq + 5]);
        D.block(b.iq, b.iv, 3, 3) = Q.toRotationMatrix();
        quat(b.iq + 3, b.iv + 3);
        break;
      }
      default:
        D.block(b.iq, b.iv, 3, 3).setIdentity();
        quat(b.iq + 3, b.iv + 3);
    }
  return D;
}
void SimFn::impl_jacobian(matrixOut_t J, vectorIn_t q) const {
  Fault k = evalHook(this, true, s.isExplicit);
  if (bad(q)) {
    if (s.isExplicit) throw FunctionNotDefinedForThisValue();
    if (s.outType == B_RN) { J.setConstant(std::nan("")); return; }
  }
  vector_t z(s.C * q + s.b), v(z.size());
  matrix_t Jv(s.C * rawDerivative(s.in, q));
  for (long i = 0; i < z.size(); ++i) {
    v[i] = z[i] + s.eps * std::sin(s.kappa * z[i]);
    Jv.row(i) *= 1 + s.eps * s.kappa * std::cos(s.kappa * z[i]);
  }
  if (s.quadCoord >= 0)
    for (auto& b : s.in.blocks)
      if (b.type == B_RN && s.quadCoord >= b.iq && s.quadCoord < b.iq + b.nq)
        Jv(0, b.iv + s.quadCoord - b.iq) += 2 * s.quad * (q[s.quadCoord] - s.quadAt);
  if (s.outType == B_RN) {
    J = Jv;
    if (s.baseBlock >= 0) {
      const Block& b = s.in.blocks[(size_t)s.baseBlock];
      for (long i = 0; i < b.nv; ++i) J(i, b.iv + i) += 1;
    }
  } else {
    vector_t base(s.base);
    if (s.baseBlock >= 0) { const Block& b = s.in.blocks[(size_t)s.baseBlock]; base = q.segment(b.iq, b.nq); }
    LiegroupElement e(base, outputSpace_);
    outputSpace_->dIntegrate_dv<DerivativeTimesInput>(e, v, Jv);
    J = Jv;
    if (s.baseBlock >= 0) {
      const Block& b = s.in.blocks[(size_t)s.baseBlock];
      matrix_t Jb(matrix_t::Zero(outputSpace_->nv(), s.in.nv));
      Jb.middleCols(b.iv, b.nv).setIdentity();
      outputSpace_->dIntegrate_dq<DerivativeTimesInput>(e, v, Jb);
      J += Jb;
    }
  }
  if (k != F_COUNT) {
    Rng r(ctl.rng);
    ctl.rng = r.next();
    bool nan = (k == F_NAN || k == F_INF) && !s.isExplicit;
    if (nan) J(r.below((u64)J.rows()), r.below((u64)J.cols())) = k == F_NAN ? std::nan("") : HUGE_VAL;
    else {
      double amp = std::pow(10., r.uni(-6, 8));
      if (r.chance(0.3)) J.setZero();
      else J *= amp;
    }
  }
}
bool SimFn::isEqual(const DifferentiableFunction& o) const {
  const SimFn& f = dynamic_cast<const SimFn&>(o);
  return f.s.id == s.id && DifferentiableFunction::isEqual(o);
}

// ---------------------------------------------------------------- HookFn
HookFn::HookFn(const DifferentiableFunctionPtr_t& f, long id_)
    : DifferentiableFunction(f->inputSize(), f->inputDerivativeSize(), f->outputSpace(), f->name()), inner(f), id(id_) {
  activeParameters_ = f->activeParameters();
  activeDerivativeParameters_ = f->activeDerivativeParameters();
}
void HookFn::impl_compute(LiegroupElementRef result, vectorIn_t q) const {
  Fault k = evalHook(this, false, false);
  LiegroupElement e(outputSpace_);
  inner->value(e, q);
  result.vector() = e.vector();
  if (k != F_COUNT && outputSpace_->isVectorSpace()) corrupt(k, result.vector(), true);
}
void HookFn::impl_jacobian(matrixOut_t J, vectorIn_t q) const {
  evalHook(this, true, false);
  inner->jacobian(J, q);
}
bool HookFn::isEqual(const DifferentiableFunction& o) const {
  const HookFn& f = dynamic_cast<const HookFn&>(o);
  return DifferentiableFunction::isEqual(o) && *f.inner == *inner;
}

// ---------------------------------------------------------------- TimeFn
TimeFn::TimeFn(const LiegroupSpacePtr_t& out, u64 seed, bool) : DifferentiableFunction(1, 1, out, "time function") {
  id = (long)seed;
  Rng r(seed);
  a = randomVelocity(out->nv(), r, .3);
  b = randomVelocity(out->nv(), r, .2);
  c = randomVelocity(out->nv(), r, .2);
  w = r.uni(.5, 3);
}
void TimeFn::at(double t, vectorOut_t out) const {
  vector_t v(a + b * t + c * std::sin(w * t));
  out = outputSpace_->exp(v).vector();
}
void TimeFn::impl_compute(LiegroupElementRef result, vectorIn_t q) const {
  evalHook(this, false, false);
  at(q[0], result.vector());
}
void TimeFn::impl_jacobian(matrixOut_t J, vectorIn_t q) const {
  // derivative in the vector space case; used on vector spaces only
  evalHook(this, true, false);
  J.col(0) = b + c * w * std::cos(w * q[0]);
}
bool TimeFn::isEqual(const DifferentiableFunction& o) const {
  const TimeFn& f = dynamic_cast<const TimeFn&>(o);
  return f.id == id && DifferentiableFunction::isEqual(o);
}

// ---------------------------------------------------------------- helpers
vector_t randomVelocity(long nv, Rng& r, double amp) {
  vector_t v(nv);
  for (long i = 0; i < nv; ++i) v[i] = r.uni(-amp, amp);
  return v;
}
Configuration_t integrateConf(const Space& sp, const Configuration_t& q, const vector_t& v) {
  LiegroupElement e(q, sp.sp);
  e += v;
  return e.vector();
}
vector_t diffConf(const Space& sp, const Configuration_t& q0, const Configuration_t& q1) {
  LiegroupElement a(q0, sp.sp), b(q1, sp.sp);
  return b - a;
}
vector_t minusEl(const LiegroupSpacePtr_t& sp, const vector_t& a, const vector_t& b) {
  LiegroupElement x(a, sp), y(b, sp);
  return x - y;
}
Configuration_t randomConfig(const Space& sp, Rng& r, double amp) {
  Configuration_t q(sp.sp->neutral().vector());
  return integrateConf(sp, q, randomVelocity(sp.nv, r, amp));
}
Configuration_t perturb(const Space& sp, const Configuration_t& q, Rng& r, double amp) {
  return integrateConf(sp, q, randomVelocity(sp.nv, r, amp));
}
LiegroupElement evalEl(const DifferentiableFunction& f, const Configuration_t& q) {
  Quiet quiet;
  LiegroupElement e(f.outputSpace());
  f.value(e, q);
  return e;
}
vector_t evalFn(const DifferentiableFunction& f, const Configuration_t& q) { return evalEl(f, q).vector(); }
std::string vecStr(const vector_t& v) {
  std::ostringstream o;
  o.precision(10);
  o << "[";
  for (long i = 0; i < v.size(); ++i) o << (i ? ", " : "") << v[i];
  o << "]";
  return o.str();
}
vector_t randomRhs(const Item& it, Rng& r, double amp) {
  LiegroupSpacePtr_t sp(it.c->functionPtr()->outputSpace());
  vector_t v(vector_t::Zero(sp->nv()));
  if (it.radius > 0) {  // a point of one of the floors, and an angle
    v[5] = 2 * it.radius * (double)r.below((u64)it.nFloors) + r.uni(-amp, amp) * .5;
    v[6] = 2 * it.radius * (double)r.below((u64)it.nFaces) + r.uni(-amp, amp) * .5;
    v[7] = r.uni(-2, 2);
    return v;
  }
  for (long i = 0; i < v.size(); ++i)
    if (it.comp[(size_t)i] == Equality) v[i] = r.uni(-amp, amp);
  // sometimes large or exactly neutral
  if (r.chance(0.06)) v.setZero();
  return sp->exp(v).vector();
}

// ---------------------------------------------------------------- synthetic worlds
static void fillRandom(FnSpec& s, Rng& r, long outNv, const std::vector<int>& useBlocks, double scale) {
  s.C = matrix_t::Zero(outNv, s.in.nq);
  s.b = vector_t::Zero(outNv);
  for (int k : useBlocks) {
    const Block& b = s.in.blocks[(size_t)k];
    for (long j = 0; j < b.nq; ++j) {
      if (b.type == B_RN && r.chance(0.35)) continue;
      for (long i = 0; i < outNv; ++i)
        if (r.chance(0.75)) s.C(i, b.iq + j) = r.uni(-1, 1) * scale;
    }
  }
}
// z with z + eps sin(kappa z) = t
static double invert(double t, double eps, double kappa) {
  double z = t;
  for (int i = 0; i < 60; ++i) {
    double f = z + eps * std::sin(kappa * z) - t, d = 1 + eps * kappa * std::cos(kappa * z);
    z -= f / d;
  }
  return z;
}
// chooses b so that v(qIn) = target
static void aim(FnSpec& s, const vector_t& qIn, const vector_t& target) {
  vector_t z0(s.C * qIn);
  for (long i = 0; i < z0.size(); ++i) s.b[i] = invert(target[i], s.eps, s.kappa) - z0[i];
}

World makeSynthetic(u64 seed, long nItems, const WorldOpts& o) {
  World w;
  Rng r(mix(seed ^ 0x77a1));
  // configuration space
  std::vector<std::pair<int, long> > types;
  long nb = r.range(2, 5) + (o.explicitBias > 0 ? 2 : 0);
  for (long i = 0; i < nb; ++i) {
    int t = B_RN;
    if (o.lie && r.chance(0.45)) t = (int)r.range(1, B_TYPES - 1);
    // a vector space at each end and never two in a row, so that blocks stay recognisable
    long n = r.range(1, 5);
    if (t == B_RN && !types.empty() && types.back().first == B_RN) { types.back().second += n; continue; }
    types.push_back({t, n});
  }
  if (types[0].first != B_RN || types[0].second < 3) types.insert(types.begin(), {B_RN, r.range(3, 5)});
  if (types.size() > 1 && types[1].first == B_RN) { types[0].second += types[1].second; types.erase(types.begin() + 1); }
  w.space = makeSpace(types);
  const Space& sp = w.space;
  w.qStar = randomConfig(sp, r, .8);
  w.lb = vector_t::Constant(sp.nq, -HUGE_VAL);
  w.ub = vector_t::Constant(sp.nq, HUGE_VAL);
  double room = r.chance(0.5) ? r.uni(.05, .6) : r.uni(.6, 2);
  for (auto& b : sp.blocks) {
    long n = b.type == B_RN ? b.nq : (b.type == B_SE2 ? 2 : (b.type == B_SE3 || b.type == B_R3xSO3 ? 3 : 0));
    for (long j = 0; j < n; ++j)
      if (r.chance(0.7)) { w.lb[b.iq + j] = w.qStar[b.iq + j] - r.uni(.02, room); w.ub[b.iq + j] = w.qStar[b.iq + j] + r.uni(.02, room); }
  }
  for (long i = 0; i < nItems; ++i) {
    Rng g(mix(seed * 1000003ULL + (u64)i + 17));
    Item it;
    it.fid = it.cid = i + 1;
    double dice = g.uni();
    int kind;  // 0 vector, 1 group, 2 explicit, 3 library, 4 twin
    if (dice < .34) kind = 0;
    else if (dice < .46) kind = o.lie ? 1 : 0;
    else if (dice < .76) kind = o.explicits ? 2 : 0;
    else if (dice < .88) kind = 3;
    else kind = (o.twins && i > 0) ? 4 : 0;
    if (o.explicitBias > 0 && g.chance(o.explicitBias)) kind = 2;
    it.kind = kind;
    std::ostringstream nm;
    if (kind == 4) {
      const Item& src = w.items[g.below(w.items.size())];
      it = src;
      long how = g.below(4);
      if (src.kind == 3 || (src.e && how >= 2)) how = src.e ? 0 : (how >= 2 ? 1 : how);
      if (how == 0) {  // copy of the constraint
        it.c = src.c->copy();
      } else if (how == 1) {  // another constraint on the same function object
        if (src.e) it.c = Explicit::create(sp.sp, src.e->explicitFunction(), src.inConf, src.outConf, src.inVel, src.outVel, src.comp, src.mask);
        else it.c = Implicit::create(src.c->functionPtr(), src.comp, src.mask);
      } else if (how == 2) {  // on an equal function
        DifferentiableFunctionPtr_t f(new SimFn(static_cast<SimFn&>(src.c->function()).s));
        it.c = Implicit::create(f, src.comp, src.mask);
      } else {  // same function, other comparison types: another constraint that cannot coexist
        ComparisonTypes_t c2(src.comp);
        bool hasOther = false;
        for (auto& x : c2) if (x == Equality) { x = EqualToZero; hasOther = true; }
        if (!hasOther) { if (src.lieOut) for (auto& x : c2) x = Equality; else c2[0] = c2[0] == Equality ? EqualToZero : Equality; }
        it.c = Implicit::create(src.c->functionPtr(), c2, src.mask);
        it.comp = c2;
        it.cid = i + 1;
        for (auto& x : w.items) if (x.fid == it.fid && x.comp == c2) { it.cid = x.cid; break; }
      }
      it.e = HPP_DYNAMIC_PTR_CAST(Explicit, it.c);
      it.label = "twin " + std::to_string(how) + " of (" + src.label + ")";
      w.items.push_back(it);
      continue;
    }
    FnSpec s;
    s.id = i + 1;
    s.eps = g.chance(.6) ? (o.smooth ? .1 : .3) : 0;
    s.kappa = g.uni(.5, o.smooth ? 1.2 : 2);
    double scale = g.uni(.4, 1.2);
    if (kind == 0 || kind == 1) {
      s.in = sp;
      s.outType = kind == 1 ? (int)g.range(1, B_TYPES - 1) : B_RN;
      s.outN = g.range(1, 3);
      LiegroupSpacePtr_t os(groupSpace(s.outType, s.outN));
      std::vector<int> use;
      for (size_t k = 0; k < sp.blocks.size(); ++k) if (g.chance(.55)) use.push_back((int)k);
      if (use.empty()) use.push_back((int)g.below(sp.blocks.size()));
      fillRandom(s, g, os->nv(), use, scale);
      if (s.C.cwiseAbs().maxCoeff() == 0) s.C(0, sp.blocks[(size_t)use[0]].iq) = 1;
      // rows that depend on each other, inside the constraint or on an earlier one
      Rng d(mix(seed * 7919ULL + (u64)i + 5));
      if (kind == 0 && d.chance(.22)) {
        for (long k = 0; k < os->nv(); ++k) {
          const matrix_t* from = nullptr;
          if (k > 0 && d.chance(.6)) from = &s.C;
          else
            for (auto& x : w.items) {
              const SimFn* y = x.kind == 0 ? dynamic_cast<const SimFn*>(&x.c->function()) : nullptr;
              if (y && y->s.C.cols() == s.C.cols() && d.chance(.5)) from = &y->s.C;
            }
          if (!from || !d.chance(.8)) continue;
          long n = from == &s.C ? k : from->rows();
          vector_t row(from->row((long)d.below((u64)n)).transpose());
          if (d.chance(.5)) row *= d.chance(.3) ? -1 : d.uni(.5, 2);
          if (n > 1 && d.chance(.4)) row += d.uni(-1, 1) * from->row((long)d.below((u64)n)).transpose();
          if (row.cwiseAbs().maxCoeff() > .05) { s.C.row(k) = row.transpose(); if (!d.chance(.2)) s.eps = 0; }
        }
      }
      s.base = os->neutral().vector();
      if (kind == 1)
        for (size_t k = 0; k < sp.blocks.size(); ++k)
          if (sp.blocks[k].type == s.outType && g.chance(.8)) s.baseBlock = (int)k;
      // comparison types and rows
      it.comp.assign((size_t)os->nv(), Equality);
      long style = g.below(10);
      if (kind == 0) {
        for (auto& c : it.comp) {
          if (style < 4) c = Equality;
          else if (style < 6) c = EqualToZero;
          else if (style < 8) c = g.chance(.5) ? Equality : EqualToZero;
          else if (o.inequalities) { long z = g.below(4); c = z == 0 ? Superior : (z == 1 ? Inferior : (z == 2 ? Equality : EqualToZero)); }
        }
      } else if (style < 4) it.comp.assign((size_t)os->nv(), EqualToZero);
      it.mask.assign((size_t)os->nv(), true);
      if (o.masks && g.chance(.25))
        for (size_t k = 0; k < it.mask.size(); ++k) it.mask[k] = g.chance(.7);
      vector_t target(vector_t::Zero(os->nv()));
      if (s.baseBlock >= 0) { s.eps = 0; const Block& b = sp.blocks[(size_t)s.baseBlock]; target = -minusEl(os, w.qStar.segment(b.iq, b.nq), os->neutral().vector()); }
      for (size_t k = 0; k < it.comp.size(); ++k) {
        if (it.comp[k] == Superior) target[(long)k] += g.uni(.1, .6);
        if (it.comp[k] == Inferior) target[(long)k] -= g.uni(.1, .6);
      }
      aim(s, w.qStar, target);
      if (!o.consistent && g.chance(.6)) { s.b += randomVelocity(os->nv(), g, .3); it.consistent = false; }
      if (kind == 0 && d.chance(o.smooth ? .03 : .1)) {
        // a row that is near an extremum, where Newton steps overshoot
        s.quadCoord = (long)d.below((u64)sp.blocks[0].nq);
        s.quad = d.uni(.2, 2) * (d.chance(.5) ? 1 : -1);
        s.quadAt = w.qStar[s.quadCoord] + (d.chance(.5) ? 0 : d.uni(-.02, .02));
        s.quadOff = std::pow(10., d.uni(-5, -1.5)) * (d.chance(.7) == (s.quad > 0) ? 1 : -1);
        if (d.chance(.8)) { s.C.row(0).setZero(); s.b[0] = 0; }
        it.smooth = it.consistent = false;
      }
      if (o.badRegions && kind == 0 && g.chance(.08)) {
        s.badCoord = (long)g.below((u64)sp.blocks[0].nq);
        s.badSign = g.chance(.5) ? 1 : -1;
        s.badAbove = s.badSign * w.qStar[s.badCoord] + g.uni(.05, .5);
        it.hasBad = true;
      }
      it.lieOut = kind == 1;
      nm << (kind == 1 ? "group " : "vector ") << i;
      s.name = nm.str();
      DifferentiableFunctionPtr_t f(new SimFn(s));
      it.c = Implicit::create(f, it.comp, it.mask);
    } else if (kind == 2) {
      // output: a block, or a part of a vector block
      const Block& ob = sp.blocks[g.below(sp.blocks.size())];
      long oq = ob.iq, ov = ob.iv, on = ob.nq, onv = ob.nv;
      if (ob.type == B_RN) {
        on = onv = g.range(1, std::min<long>(2, ob.nq));
        long off = (long)g.below((u64)(ob.nq - on + 1));
        oq += off; ov += off;
      }
      s.isExplicit = true;
      s.outType = ob.type; s.outN = on;
      LiegroupSpacePtr_t os(groupSpace(s.outType, s.outN));
      // inputs: other blocks, or parts of vector blocks
      vector_t qIn(0);
      std::vector<int> use;
      long ninp = g.chance(.1) ? 0 : g.range(1, 3);
      s.in.sp = LiegroupSpace::createCopy(LiegroupSpace::empty());
      long usedQ = on, usedV = onv;  // the library requires outputs + inputs <= size of the space
      std::vector<std::pair<long, long> > segsq, segsv;
      std::vector<int> segType;
      for (size_t k = 0; k < sp.blocks.size() && ninp > 0; ++k) {
        const Block& b = sp.blocks[k];
        long a = 0, n = b.nq, nv = b.nv;
        if (!g.chance(.6)) continue;
        if (b.type == B_RN) {
          n = nv = g.range(1, std::min<long>(2, b.nq));
          a = (long)g.below((u64)(b.nq - n + 1));
        }
        long q0 = b.iq + a, v0 = b.iv + a;
        bool over = q0 < oq + on && oq < q0 + n;
        if (usedQ + n > sp.nq || usedV + nv > sp.nv) continue;
        if (over) {
          if (!(o.malformed && g.chance(.1))) continue;
          it.malformed = true;
        }
        usedQ += n; usedV += nv;
        segsq.push_back({q0, n}); segsv.push_back({v0, nv}); segType.push_back(b.type);
        --ninp;
      }
      if (o.explicitBias > 0 && segsq.size() > 1 && g.chance(.25)) {  // inputs listed in another order
        std::reverse(segsq.begin(), segsq.end());
        std::reverse(segsv.begin(), segsv.end());
        std::reverse(segType.begin(), segType.end());
      }
      std::vector<std::pair<int, long> > inTypes;
      for (size_t k = 0; k < segsq.size(); ++k) inTypes.push_back({segType[k], segsq[k].second});
      s.in = makeSpace(inTypes);
      qIn.resize(s.in.nq);
      for (size_t k = 0; k < segsq.size(); ++k) {
        it.inConf.push_back(segment_t(segsq[k].first, segsq[k].second));
        it.inVel.push_back(segment_t(segsv[k].first, segsv[k].second));
        qIn.segment(s.in.blocks[k].iq, segsq[k].second) = w.qStar.segment(segsq[k].first, segsq[k].second);
        use.push_back((int)k);
      }
      it.outConf.push_back(segment_t(oq, on));
      it.outVel.push_back(segment_t(ov, onv));
      fillRandom(s, g, os->nv(), use, scale * .8);
      vector_t qOut(w.qStar.segment(oq, on));
      s.base = qOut;
      vector_t target(vector_t::Zero(os->nv()));
      for (size_t k = 0; k < s.in.blocks.size(); ++k)
        if (s.in.blocks[k].type == s.outType && s.in.blocks[k].nq == on && s.outType != B_RN && g.chance(.7)) {
          s.baseBlock = (int)k;
          target = minusEl(os, qOut, qIn.segment(s.in.blocks[k].iq, on));
          break;
        }
      aim(s, qIn, target);
      if (!o.consistent && g.chance(.3)) { s.b += randomVelocity(os->nv(), g, .2); it.consistent = false; }
      if (o.badRegions && s.in.nq > 0 && g.chance(.15) && s.in.blocks[0].type == B_RN) {
        s.badCoord = 0;
        s.badSign = g.chance(.5) ? 1 : -1;
        s.badAbove = s.badSign * qIn[0] + g.uni(.05, .5);
        it.hasBad = true;
      }
      // several elementary groups in the output, which has to be contiguous
      Rng gm(mix(seed * 31 + (u64)i * 7 + 3));
      DifferentiableFunctionPtr_t second;
      if (o.severalOutputs && gm.chance(.3)) {
        for (int tries = 0; tries < 16 && !second; ++tries) {
          const Block& b = sp.blocks[gm.below(sp.blocks.size())];
          long n = b.nq, nv = b.nv, a = 0;
          if (b.type == B_RN) { n = nv = gm.range(1, std::min<long>(2, b.nq)); a = (long)gm.below((u64)(b.nq - n + 1)); }
          long q0 = b.iq + a, v0 = b.iv + a;
          auto meets = [&](const segments_t& l) { for (auto& x : l) if (x.first < q0 + n && q0 < x.first + x.second) return true; return false; };
          bool rev = q0 + n == oq;
          if ((!rev && q0 != oq + on) || meets(it.outConf) || meets(it.inConf) || usedQ + n > sp.nq || usedV + nv > sp.nv) continue;
          FnSpec t;
          t.id = s.id;
          t.name = "second of " + nm.str();
          t.in = s.in;
          t.isExplicit = true;
          t.outType = b.type; t.outN = n;
          t.eps = s.eps; t.kappa = s.kappa;
          LiegroupSpacePtr_t os2(groupSpace(t.outType, t.outN));
          fillRandom(t, gm, os2->nv(), use, scale * .8);
          t.base = w.qStar.segment(q0, n);
          aim(t, qIn, vector_t(vector_t::Zero(os2->nv())));
          if (!it.consistent) t.b += randomVelocity(os2->nv(), gm, .1);
          second.reset(new SimFn(t));
          it.outConf[0] = segment_t(std::min(oq, q0), on + n);
          it.outVel[0] = segment_t(std::min(ov, v0), onv + nv);
          it.several = rev ? 2 : 1;
          os = rev ? os2 * os : os * os2;
        }
      }
      long style = g.below(20);
      it.comp.assign((size_t)os->nv(), Equality);
      for (auto& c : it.comp) {
        if (style < 9) c = Equality;
        else if (style < 15) c = EqualToZero;
        else if (style < 19) c = g.chance(.5) ? Equality : EqualToZero;
        else c = o.inequalities ? Superior : Equality;
      }
      it.mask.assign((size_t)os->nv(), true);
      nm << "explicit " << i;
      s.name = nm.str();
      DifferentiableFunctionPtr_t f(new SimFn(s));
      if (second) {
        DifferentiableFunctionSetPtr_t st(DifferentiableFunctionSet::create(nm.str()));
        if (it.several == 2) { st->add(second); st->add(f); }
        else { st->add(f); st->add(second); }
        f = st;
      }
      it.c = it.e = Explicit::create(sp.sp, f, it.inConf, it.outConf, it.inVel, it.outVel, it.comp, it.mask);
      if (style >= 19) it.consistent = false;
    } else {
      // functions of the library, behind the fault hook
      DifferentiableFunctionPtr_t f;
      long which = g.below(3);
      nm << "library " << i;
      const Block& b0 = sp.blocks[0];
      if (which == 0) {
        // affine, on the raw coordinates of a vector block through a parameter subset
        long n = g.range(1, std::min<long>(3, b0.nq)), m = g.range(1, std::min<long>(2, n));
        long off = (long)g.below((u64)(b0.nq - n + 1));
        matrix_t J(m, n);
        vector_t c(m);
        for (long a = 0; a < m; ++a) { c[a] = 0; for (long d = 0; d < n; ++d) J(a, d) = g.uni(-1, 1); }
        for (long a = 0; a < m; ++a) J(a, a) += 1.5;
        c = -J * w.qStar.segment(b0.iq + off, n);
        DifferentiableFunctionPtr_t g0(AffineFunction::create(J, c, nm.str()));
        f = function::OfParameterSubset::create(g0, sp.nq, sp.nv, segment_t(b0.iq + off, n), segment_t(b0.iv + off, n));
      } else if (which == 1) {
        const Block& b = sp.blocks[g.below(sp.blocks.size())];
        LiegroupSpacePtr_t bs(groupSpace(b.type, b.nq));
        DifferentiableFunctionPtr_t g0(Identity::create(bs, nm.str()));
        f = function::OfParameterSubset::create(g0, sp.nq, sp.nv, segment_t(b.iq, b.nq), segment_t(b.iv, b.nv));
        it.lieOut = !bs->isVectorSpace();
        it.consistent = false;
      } else {
        // difference of two affine functions of parts of the configuration
        long n = g.range(1, std::min<long>(2, b0.nq));
        matrix_t J1(1, n), J2(1, n);
        for (long d = 0; d < n; ++d) { J1(0, d) = g.uni(.5, 1.5); J2(0, d) = g.uni(-.4, .4); }
        long o1 = (long)g.below((u64)(b0.nq - n + 1)), o2 = (long)g.below((u64)(b0.nq - n + 1));
        vector_t c1(1), c2(1);
        c1[0] = -(J1 * w.qStar.segment(b0.iq + o1, n))[0];
        c2[0] = -(J2 * w.qStar.segment(b0.iq + o2, n))[0];
        DifferentiableFunctionPtr_t f1(AffineFunction::create(J1, c1, nm.str() + "a")), f2(AffineFunction::create(J2, c2, nm.str() + "b"));
        DifferentiableFunctionPtr_t h1(function::OfParameterSubset::create(f1, sp.nq, sp.nv, segment_t(b0.iq + o1, n), segment_t(b0.iv + o1, n)));
        DifferentiableFunctionPtr_t h2(function::OfParameterSubset::create(f2, sp.nq, sp.nv, segment_t(b0.iq + o2, n), segment_t(b0.iv + o2, n)));
        // the sum of both, as one set of functions would be built by a user
        f = o1 != o2 || true ? h1 : h2;
      }
      DifferentiableFunctionPtr_t hf(new HookFn(f, i + 1));
      it.comp.assign((size_t)hf->outputDerivativeSize(), g.chance(.6) ? Equality : EqualToZero);
      it.mask.assign(it.comp.size(), true);
      it.c = Implicit::create(hf, it.comp, it.mask);
      Rng gs(mix(seed * 53 + (u64)i * 11 + 1));
      if (gs.chance(.3)) {
        // together with another function: one constraint on a set of functions, or a set of constraints
        FnSpec t;
        t.id = s.id;
        t.name = nm.str() + " more";
        t.in = sp;
        t.outType = o.lie && gs.chance(.4) ? (int)gs.range(1, B_TYPES - 1) : B_RN;
        t.outN = gs.range(1, 2);
        LiegroupSpacePtr_t os(groupSpace(t.outType, t.outN));
        std::vector<int> use;
        for (size_t k = 0; k < sp.blocks.size(); ++k) if (gs.chance(.5)) use.push_back((int)k);
        if (use.empty()) use.push_back(0);
        fillRandom(t, gs, os->nv(), use, .7);
        t.base = os->neutral().vector();
        aim(t, w.qStar, vector_t(vector_t::Zero(os->nv())));
        DifferentiableFunctionPtr_t more(new SimFn(t));
        ComparisonTypes_t c2((size_t)os->nv(), gs.chance(.5) ? Equality : EqualToZero);
        std::vector<bool> m2(c2.size(), true);
        bool first = gs.chance(.5);
        ImplicitPtr_t m(Implicit::create(more, c2, m2));
        it.lieOut = it.lieOut || t.outType != B_RN;
        if (gs.chance(.5)) {
          ImplicitConstraintSetPtr_t st(ImplicitConstraintSet::create(nm.str()));
          if (first) st->add(m);
          st->add(it.c);
          if (!first) st->add(m);
          it.c = st;
          nm << " in a set of constraints";
        } else {
          DifferentiableFunctionSetPtr_t st(DifferentiableFunctionSet::create(nm.str()));
          if (first) st->add(more);
          st->add(hf);
          if (!first) st->add(more);
          it.c = ImplicitPtr_t();
          nm << " in a set of functions";
          f = st;
        }
        if (first) it.comp.insert(it.comp.begin(), c2.begin(), c2.end());
        else it.comp.insert(it.comp.end(), c2.begin(), c2.end());
        it.mask.assign(it.comp.size(), true);
        if (!it.c) it.c = Implicit::create(f, it.comp, it.mask);
      }
    }
    it.label = nm.str();
    w.items.push_back(it);
  }
  return w;
}
}  // namespace sim
