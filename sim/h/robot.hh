#ifndef SIM_H_ROBOT_HH
#define SIM_H_ROBOT_HH
#include <hpp/constraints/convex-shape-contact.hh>

#include "h/world.hh"
namespace sim {
enum RobotKind { RK_POSITION, RK_ORIENTATION, RK_TRANSFORMATION, RK_TRANSFORMATION_G, RK_RPOSITION, RK_RORIENTATION, RK_RTRANSFORMATION, RK_RTRANSFORMATION_G, RK_ORIENTATION_G, RK_COM, RK_CONFIG, RK_CONTACT, RK_FEET, RK_POINTS, RK_MANIP, RK_COUNT };
const char* robotKindName(int k);
Space robotSpace(const DevicePtr_t& d);
Configuration_t robotNominal(const DevicePtr_t& d, Rng& r);
DifferentiableFunctionPtr_t makeRobotFunction(const DevicePtr_t& d, int kind, u64 seed, const Configuration_t& qStar, const std::string& name);
Transform3s randomPose(Rng& r, double amp);
JointAndShapes_t floorShapes(const DevicePtr_t& d, Rng& r);
JointAndShapes_t objectShapes(const DevicePtr_t& d, Rng& r);
}  // namespace sim
#endif
