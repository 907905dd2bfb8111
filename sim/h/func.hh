// Families of constraint functions that share parts.
#ifndef SIM_H_FUNC_HH
#define SIM_H_FUNC_HH
#include "h/robot.hh"
namespace sim {
enum FnKind { FK_DIST = RK_COUNT, FK_STATIC, FK_COMPL, FK_HOLD, FK_ERELT, FK_IMPL, FK_SET, FK_SUBSET, FK_DIFF, FK_ACTIVE, FK_AFFINE, FK_CONST, FK_IDENT, FK_SYMB, FK_LOCK, FK_ELOCK, FK_RORI_G, FK_COM_PART, FK_FEET_PART, FK_OUT_POSE, FK_OUT_LOCK, FK_OUT_EXPL, FK_POINTS1, FK_MANIP_HOOK, FK_IMPL_POSE, FK_QP, FK_POINTS, FK_EDGES, FK_FD, FK_DIST_OBJ, FK_CONFIG_MASK, FK_TREE, FK_COUNT };
const char* fnKindName(int k);
struct Fn {
  DifferentiableFunctionPtr_t f;
  ExplicitPtr_t e;       // constraint the function comes from, if any
  bool sliced = false;   // input is the input of the explicit constraint
  bool out = false;      // evaluates the output value of the explicit constraint
  LiegroupElement rhs;
  int kind = 0;
  bool points = false;   // evaluates the contact points
  int fd = 0;            // its Jacobian is computed by finite differences: 1 central, 2 forward
  bool allocOk = true;   // memory allocations may fail inside
  bool hooked = false;
  double tol = 1e-8, tolJ = -1;  // of the value, of the Jacobian (same if negative)
  double tolOf(bool jac) const { return jac && tolJ >= 0 ? tolJ : tol; }
  std::vector<DifferentiableFunctionPtr_t> terms;  // of a sum, as functions of their own
  std::string name;
};
struct Family {
  DevicePtr_t d;
  Space space;
  Configuration_t qStar;
  std::vector<Fn> fns;
  Family(const DevicePtr_t& d, u64 seed, const std::vector<int>& kinds);
  vector_t input(const Fn& x, const Configuration_t& q) const;
  vector_t value(size_t i, const Configuration_t& q, int how, int fill, bool byTerms = false) const;
  matrix_t jacobian(size_t i, const Configuration_t& q, int fill, bool byTerms = false) const;
  void edit(size_t i, u64 seed);  // changes parameters of a function
};
}  // namespace sim
#endif
