// Worlds: configuration spaces, constraint functions, robots, made from one integer.
#ifndef SIM_WORLD_HH
#define SIM_WORLD_HH
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/comparison-types.hh>
#include <hpp/constraints/differentiable-function.hh>
#include <hpp/constraints/explicit.hh>
#include <hpp/constraints/fwd.hh>
#include <hpp/constraints/implicit.hh>
#include <hpp/pinocchio/liegroup-element.hh>
#include <hpp/pinocchio/liegroup-space.hh>

#include "common/core.hh"

namespace sim {
using namespace hpp::constraints;

enum BlockType { B_RN, B_SO2, B_SO3, B_SE2, B_SE3, B_R3xSO3, B_TYPES };
struct Block {
  int type;
  long iq, iv, nq, nv;
};
LiegroupSpacePtr_t groupSpace(int type, long n = 1);

struct Space {
  std::vector<Block> blocks;
  LiegroupSpacePtr_t sp;
  long nq = 0, nv = 0;
  void append(int type, long n);
  // block and index inside it of a configuration / velocity variable
  int blockOfQ(long iq) const;
  int blockOfV(long iv) const;
};
Space makeSpace(const std::vector<std::pair<int, long> >& types);

// ---------------------------------------------------------------- faults in evaluations
struct EvalFault : std::runtime_error { EvalFault() : std::runtime_error("simulated failure of an evaluation") {} };
class SimFn;
struct Ctl {
  u64 evals = 0;      // all evaluations so far
  // armed fault: fires at the countdown-th evaluation from now
  long countdown = 0;
  Fault fault = F_COUNT;
  bool fireJac = true, fireVal = true;
  bool sticky = false;  // all later evaluations too
  bool active = false;  // fired and sticky
  u64 firedCount = 0, lies = 0;
  u64 cap = 0;          // bound on evaluations of the current call (0: none)
  u64 inCall = 0;
  void (*tap)(const DifferentiableFunction*, bool) = nullptr;
  u64 rng = 1;
  bool quiet = false;   // oracle evaluations: no counting, no fault
};
extern Ctl ctl;
struct Quiet {
  bool was;
  Quiet() : was(ctl.quiet) { ctl.quiet = true; }
  ~Quiet() { ctl.quiet = was; }
};
// to be called at the start of an evaluation: returns the value fault to apply, or F_COUNT.
// explicitFn: may report that it is undefined at this value
Fault evalHook(const DifferentiableFunction* f, bool jac, bool explicitFn);
bool armFault(const Op& op);  // arms op.fault (if it is a fault of an evaluation)
void disarmFault();

// ---------------------------------------------------------------- functions
// f(q) = base(q) + v(q): base is a constant or a block of the input, v_k = z_k + eps sin(kappa z_k),
// z = C phi(q) + b with phi(q) the raw coordinates of the input.
struct FnSpec {
  long id = 0;           // identity: functions with one id are equal
  std::string name;
  Space in;              // input space
  int outType = B_RN;
  long outN = 1;
  int baseBlock = -1;    // block of the input used as base, or -1
  vector_t base;         // constant base otherwise
  matrix_t C;            // nv_out x nq_in
  vector_t b;
  double eps = 0, kappa = 1;
  bool isExplicit = false;
  // first row: plus quad * (q[quadCoord] - quadAt)^2 + quadOff (constraints at an extremum)
  long quadCoord = -1;
  double quad = 0, quadAt = 0, quadOff = 0;
  // domain: undefined (explicit) or not a number (implicit) where sgn * q[badCoord] > badAbove
  long badCoord = -1;
  double badAbove = 0, badSign = 1;
};
class SimFn : public DifferentiableFunction {
 public:
  FnSpec s;
  SimFn(const FnSpec& spec);
  void value0(vectorIn_t q, vectorOut_t out) const;
  bool bad(vectorIn_t q) const { return s.badCoord >= 0 && s.badSign * q[s.badCoord] > s.badAbove; }
 protected:
  void impl_compute(LiegroupElementRef result, vectorIn_t q) const override;
  void impl_jacobian(matrixOut_t J, vectorIn_t q) const override;
  bool isEqual(const DifferentiableFunction& o) const override;
  LiegroupSpacePtr_t os_;
};
// decorates a function of the library with the fault hook
class HookFn : public DifferentiableFunction {
 public:
  DifferentiableFunctionPtr_t inner;
  long id;
  HookFn(const DifferentiableFunctionPtr_t& f, long id_);
 protected:
  void impl_compute(LiegroupElementRef result, vectorIn_t q) const override;
  void impl_jacobian(matrixOut_t J, vectorIn_t q) const override;
  bool isEqual(const DifferentiableFunction& o) const override;
};
// right hand side functions of the time parameter: exp(a + b s + c sin(w s)) in the output space
class TimeFn : public DifferentiableFunction {
 public:
  vector_t a, b, c;
  double w;
  long id;
  TimeFn(const LiegroupSpacePtr_t& out, u64 seed, bool isRobust = true);
  void at(double s, vectorOut_t out) const;
 protected:
  void impl_compute(LiegroupElementRef result, vectorIn_t q) const override;
  void impl_jacobian(matrixOut_t J, vectorIn_t q) const override;
  bool isEqual(const DifferentiableFunction& o) const override;
};

// ---------------------------------------------------------------- pool of constraints
struct Item {
  ImplicitPtr_t c;
  ExplicitPtr_t e;        // same object when explicit
  long fid = 0;           // identity of the function
  long cid = 0;           // identity of the constraint (items with equal cid are equal)
  long kind = 0;
  ComparisonTypes_t comp;
  std::vector<bool> mask;
  segments_t inConf, outConf, inVel, outVel;
  bool lieOut = false;    // output space is not a vector space
  int several = 0;        // the output has several segments
  bool malformed = false; // input and output overlap
  bool hasBad = false;    // not defined everywhere
  bool hooked = true;
  bool smooth = true;     // differentiable around the nominal configuration
  bool consistent = true; // satisfied (with a neutral right hand side) at the nominal configuration
  std::string label;
  double radius = 0;      // > 0: contact of shapes, the right hand side tells which
  long nFloors = 1, nFaces = 1;
};
struct World {
  Space space;
  Configuration_t qStar;
  vector_t lb, ub;        // bounds (per configuration variable, infinite where none)
  std::vector<Item> items;
  DevicePtr_t robot;      // or null
  std::vector<std::pair<int, long> > hookCount;
  long kind = 0;
};
struct WorldOpts {
  bool consistent = false;  // functions vanish at qStar
  bool badRegions = true;
  bool inequalities = true;
  bool masks = true;
  bool lie = true;          // Lie group blocks in the space
  bool twins = true;
  bool malformed = false;
  bool explicits = true;
  bool severalOutputs = false; // of explicit constraints
  bool contacts = false;    // explicit contacts of shapes
  double explicitBias = 0;  // more explicit constraints than usual
  bool smooth = false;      // milder non linearities
};
World makeSynthetic(u64 seed, long nItems, const WorldOpts& o);
World makeRobotWorld(u64 seed, long nItems, const WorldOpts& o, bool hooked);
int robotVariant(u64 world);  // the robot of a world
DevicePtr_t simRobot(int variant);       // made in the warm up: 5 joint arm and two free flying bodies
DevicePtr_t simRobotBis(int variant);    // same, another object

Configuration_t randomConfig(const Space& sp, Rng& r, double amp);
Configuration_t perturb(const Space& sp, const Configuration_t& q, Rng& r, double amp);
vector_t randomVelocity(long nv, Rng& r, double amp);
// value of a constraint function at q, without hook
vector_t evalFn(const DifferentiableFunction& f, const Configuration_t& q);
LiegroupElement evalEl(const DifferentiableFunction& f, const Configuration_t& q);
vector_t minusEl(const LiegroupSpacePtr_t& sp, const vector_t& a, const vector_t& b);  // a - b
// velocity of the displacement from q0 to q1
vector_t diffConf(const Space& sp, const Configuration_t& q0, const Configuration_t& q1);
Configuration_t integrateConf(const Space& sp, const Configuration_t& q, const vector_t& v);
vector_t randomRhs(const Item& it, Rng& r, double amp);
std::string vecStr(const vector_t& v);
}  // namespace sim
#endif
