#include "common/robot.hh"

#include <hpp/pinocchio/urdf/util.hh>
#include <pinocchio/multibody/model.hpp>
#include <cmath>
#include <sstream>

namespace sim {
static std::string link(const std::string& n, double m, double sx, double sy, double sz, double z) {
  std::ostringstream o;
  o << "<link name=\"" << n << "\"><inertial><origin xyz=\"0.01 -0.02 " << z << "\" rpy=\"0 0 0\"/><mass value=\"" << m
    << "\"/><inertia ixx=\"0.01\" ixy=\"0\" ixz=\"0\" iyy=\"0.02\" iyz=\"0\" izz=\"0.015\"/></inertial><collision><origin xyz=\"0 0 " << z
    << "\" rpy=\"0 0 0\"/><geometry><box size=\"" << sx << " " << sy << " " << sz << "\"/></geometry></collision></link>\n";
  return o.str();
}
static std::string joint(const std::string& n, const char* type, const std::string& p, const std::string& c, const char* xyz, const char* rpy, const char* axis, const char* limit) {
  std::ostringstream o;
  o << "<joint name=\"" << n << "\" type=\"" << type << "\"><parent link=\"" << p << "\"/><child link=\"" << c << "\"/><origin xyz=\"" << xyz << "\" rpy=\"" << rpy << "\"/><axis xyz=\"" << axis << "\"/>" << limit << "</joint>\n";
  return o.str();
}
hpp::pinocchio::DevicePtr_t buildRobot(const std::string& name, int variant) {
  using hpp::pinocchio::Device;
  hpp::pinocchio::DevicePtr_t d(Device::create(name));
  std::string lim("<limit effort=\"10\" velocity=\"1\" lower=\"-2.2\" upper=\"2.4\"/>"), limp("<limit effort=\"10\" velocity=\"1\" lower=\"-0.6\" upper=\"0.7\"/>");
  std::string arm("<robot name=\"arm\">\n");
  arm += "<link name=\"root\"/>\n" + link("l1", 2, .1, .1, .3, .1) + link("l2", 1.5, .1, .1, .3, .1) + link("l3", 1, .1, .08, .25, .12) + link("l4", .8, .08, .08, .2, .1) + link("l5", .5, .06, .06, .1, .05);
  arm += joint("j1", "revolute", "root", "l1", "0 0 0.2", "0 0 0.3", "0 0 1", lim.c_str());
  arm += joint("j2", "prismatic", "l1", "l2", "0 0.1 0.3", "0.2 0 0", "0 0.6 0.8", limp.c_str());
  arm += joint("j3", "revolute", "l2", "l3", "0 0 0.3", "0 0.4 0", "0 1 0", lim.c_str());
  arm += joint("j4", "continuous", "l3", "l4", "0.05 0 0.3", "0 0 0", "1 0 0", "<limit effort=\"10\" velocity=\"1\"/>");
  arm += joint("j5", "revolute", "l4", "l5", "0 0 0.25", "0.1 0 0", "0 0 1", lim.c_str());
  arm += "</robot>\n";
  hpp::pinocchio::urdf::loadModelFromString(d, 0, "arm", "anchor", arm, "");
  std::string box("<robot name=\"box\">\n" + link("body", .7, .2, .15, .1, 0) + "</robot>\n");
  hpp::pinocchio::urdf::loadModelFromString(d, 0, "box1", "freeflyer", box, "");
  hpp::pinocchio::urdf::loadModelFromString(d, 0, "box2", "freeflyer", box, "");
  if (variant) {
    hpp::pinocchio::urdf::loadModelFromString(d, d->model().getFrameId("arm/l2"), "box3", "freeflyer", box, "");
    d->setDimensionExtraConfigSpace(3);
    for (int i = 0; i < 3; ++i) { d->extraConfigSpace().lower(i) = i == 1 ? -HUGE_VAL : -.9 - .1 * i; d->extraConfigSpace().upper(i) = i == 2 ? HUGE_VAL : 1 + .1 * i; }
  }
  hpp::pinocchio::Model& m = d->model();
  for (auto n : {"box1/root_joint", "box2/root_joint", "box3/root_joint"}) {
    if (!m.existJointName(n)) continue;
    int iq = m.joints[m.getJointId(n)].idx_q();
    for (int i = 0; i < 3; ++i) { m.lowerPositionLimit[iq + i] = -1.5; m.upperPositionLimit[iq + i] = 1.5; }
    for (int i = 3; i < 7; ++i) { m.lowerPositionLimit[iq + i] = -1.01; m.upperPositionLimit[iq + i] = 1.01; }
  }
  return d;
}
}  // namespace sim
