// Robots of the simulated worlds, built from text, without any file.
#ifndef SIM_ROBOT_HH
#define SIM_ROBOT_HH
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/joint.hh>
namespace sim {
// an arm of five joints (revolute, prismatic, revolute, continuous, revolute) and two free
// flying boxes, with bounds, masses and collision geometries
// variant 1: with a third box flying in the frame of the second link, and with extra configuration variables
hpp::pinocchio::DevicePtr_t buildRobot(const std::string& name, int variant = 0);
}
#endif
