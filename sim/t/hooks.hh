#ifndef SIM_T_HOOKS_HH
#define SIM_T_HOOKS_HH
namespace hpp { namespace pinocchio { class AbstractDevice; struct DeviceData; } }
namespace sim {
struct Holding { int now, most; unsigned long long total; };
extern Holding holding[];
extern bool raiseData;  // violations of the protocol of robot data are of interest
void resetData();
hpp::pinocchio::DeviceData* dataOf(hpp::pinocchio::AbstractDevice& d);
}
#endif
