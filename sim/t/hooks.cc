// hpp-pinocchio is not instrumented: its accesses to robot data are announced here.  The object
// DeviceData stands for all that it holds.
#include <dlfcn.h>

#include <sstream>
#include <memory>
#include <vector>
#include <map>
#include <string>
#include <functional>
#include <boost/thread.hpp>
#define private public
#define protected public
#include <hpp/pinocchio/device-sync.hh>
#undef private
#undef protected
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/joint.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>

#include "t/hooks.hh"
#include "t/sched.hh"

using namespace hpp::pinocchio;
namespace sim {
Holding holding[sched::MAXT];
bool raiseData = true;
static const DeviceData* known[sched::MAXDATA];
void resetData() { for (int i = 0; i < sched::MAXT; ++i) holding[i] = Holding(); for (int i = 0; i < sched::MAXDATA; ++i) { known[i] = nullptr; sched::holder[i] = 0; } }
static int indexOf(const DeviceData* d, bool add) {
  for (int i = 1; i < sched::MAXDATA; ++i) {
    if (known[i] == d) return i;
    if (!known[i]) { if (add) { known[i] = d; return i; } return 0; }
  }
  return 0;
}
// what holders may read and write through references
static void ranges(const DeviceData* d, const std::function<void(const void*, size_t)>& f) {
  f(d, 8);
  if (d->data_) {
    f(d->data_->oMi.data(), d->data_->oMi.size() * sizeof(d->data_->oMi[0]));
    f(d->data_->com.data(), d->data_->com.size() * sizeof(d->data_->com[0]));
    f(d->data_->Jcom.data(), (size_t)d->data_->Jcom.size() * sizeof(double));
    f(d->data_->J.data(), (size_t)d->data_->J.size() * sizeof(double));
  }
  f(d->currentConfiguration_.data(), (size_t)d->currentConfiguration_.size() * sizeof(double));
  for (auto& j : d->jointJacobians_) f(j.data(), (size_t)j.size() * sizeof(double));
}
static void touchData(const DeviceData* d, bool w) {
  int t = sched::self();
  if (!d || !t) return;
  int i = indexOf(d, false);
  if (raiseData && i && sched::holder[i] != t) {
    if (sched::holder[i]) sched::failNow("unheld-data", "thread %d uses a robot data that thread %d holds", t, sched::holder[i]);
    sched::failNow("unheld-data", "thread %d uses a robot data after it was given back", t);
  }
  sched::touch((const void*)d, 8, w);
}
// the computations in the robot data write what others may have references to
static void writeData(const DeviceData* d) {
  if (!sched::self()) return;
  touchData(d, true);
  ranges(d, [](const void* p, size_t n) { sched::touch(p, n, true); });
}
static void got(DeviceSync* s) {
  int t = sched::self();
  if (!t || !s->d_) return;
  int i = indexOf(s->d_, true);
  if (i) {
    if (raiseData && sched::holder[i] && sched::holder[i] != t) sched::failNow("same-data", "threads %d and %d hold the same robot data", sched::holder[i], t);
    sched::holder[i] = t;
    sched::Guard g;
    ranges(s->d_, [i](const void* p, size_t n) { sched::owned(p, n, i); });
  }
  touchData(s->d_, true);
  Holding& h = holding[t];
  ++h.now;
  if (h.now > h.most) h.most = h.now;
  ++h.total;
  if (raiseData && h.now > 1) sched::failNow("two-data", "thread %d holds %d robot data at a time", t, h.now);
}
static void gave(DeviceSync* s) {
  int t = sched::self();
  if (!t || !s->d_) return;
  touchData(s->d_, true);
  int i = indexOf(s->d_, false);
  if (i) sched::holder[i] = 0;
  --holding[t].now;
}
DeviceData* dataOf(AbstractDevice& d) { return &d.d(); }
}  // namespace sim
using namespace sim;
#define REAL(type, name) static const auto f = (type)dlsym(RTLD_NEXT, name)
extern "C" {
typedef void (*ctor_t)(DeviceSync*, const DevicePtr_t&, bool);
typedef void (*void_t)(DeviceSync*);
static ctor_t rC1; static void_t rLock, rUnlock, rD1;
static void bind() {
  rC1 = (ctor_t)dlsym(RTLD_NEXT, "_ZN3hpp9pinocchio10DeviceSyncC1ERKSt10shared_ptrINS0_6DeviceEEb");
  rLock = (void_t)dlsym(RTLD_NEXT, "_ZN3hpp9pinocchio10DeviceSync4lockEv");
  rUnlock = (void_t)dlsym(RTLD_NEXT, "_ZN3hpp9pinocchio10DeviceSync6unlockEv");
  rD1 = (void_t)dlsym(RTLD_NEXT, "_ZN3hpp9pinocchio10DeviceSyncD1Ev");
  if (!rC1 || !rLock || !rUnlock || !rD1) { fprintf(stderr, "simulator: no DeviceSync\n"); _exit(3); }
}
// The real constructor and destructor may lock and unlock through these symbols too: only the
// outermost call counts.
static thread_local int nested = 0;
void simDeviceSyncC1(DeviceSync* s, const DevicePtr_t& d, bool l) __asm__("_ZN3hpp9pinocchio10DeviceSyncC1ERKSt10shared_ptrINS0_6DeviceEEb");
void simDeviceSyncC2(DeviceSync* s, const DevicePtr_t& d, bool l) __asm__("_ZN3hpp9pinocchio10DeviceSyncC2ERKSt10shared_ptrINS0_6DeviceEEb");
void simDeviceSyncLock(DeviceSync* s) __asm__("_ZN3hpp9pinocchio10DeviceSync4lockEv");
void simDeviceSyncUnlock(DeviceSync* s) __asm__("_ZN3hpp9pinocchio10DeviceSync6unlockEv");
void simDeviceSyncD1(DeviceSync* s) __asm__("_ZN3hpp9pinocchio10DeviceSyncD1Ev");
void simDeviceSyncD2(DeviceSync* s) __asm__("_ZN3hpp9pinocchio10DeviceSyncD2Ev");
struct Nest { Nest() { ++nested; } ~Nest() { --nested; } };
void simDeviceSyncC1(DeviceSync* s, const DevicePtr_t& d, bool l) {
  if (!rC1) bind();
  if (nested) return rC1(s, d, l);
  { Nest n; rC1(s, d, l); }
  got(s);
}
void simDeviceSyncC2(DeviceSync* s, const DevicePtr_t& d, bool l) { simDeviceSyncC1(s, d, l); }
void simDeviceSyncLock(DeviceSync* s) {
  if (!rC1) bind();
  if (nested) return rLock(s);
  bool had = s->d_ != nullptr;
  { Nest n; rLock(s); }
  if (!had) got(s);
}
void simDeviceSyncUnlock(DeviceSync* s) {
  if (!rC1) bind();
  if (nested) return rUnlock(s);
  gave(s);
  Nest n; rUnlock(s);
}
void simDeviceSyncD1(DeviceSync* s) {
  if (!rC1) bind();
  if (nested) return rD1(s);
  gave(s);
  Nest n; rD1(s);
}
void simDeviceSyncD2(DeviceSync* s) { simDeviceSyncD1(s); }
}
#define NAME_FK "_ZN3hpp9pinocchio10DeviceData24computeForwardKinematicsERKSt10shared_ptrIN9pinocchio8ModelTplIdLi0ENS3_25JointCollectionDefaultTplEEEEi"
#define NAME_CC "_ZN3hpp9pinocchio14AbstractDevice20currentConfigurationEN5Eigen3RefIKNS2_6MatrixIdLin1ELi1ELi0ELin1ELi1EEELi0ENS2_11InnerStrideILi1EEEEE"
#define NAME_COM "_ZN3hpp9pinocchio23CenterOfMassComputation7computeERNS0_10DeviceDataERKNS0_13Computation_tE"
#define NAME_CT "_ZNK3hpp9pinocchio5Joint21currentTransformationERKNS0_10DeviceDataE"
#define NAME_JJ "_ZNK3hpp9pinocchio5Joint8jacobianERNS0_10DeviceDataEb"
void simFk(DeviceData* d, const ModelPtr_t& m, int flag) __asm__(NAME_FK);
bool simCc(AbstractDevice* d, ConfigurationIn_t q) __asm__(NAME_CC);
void simCom(CenterOfMassComputation* c, DeviceData& d, const Computation_t& f) __asm__(NAME_COM);
const Transform3s& simCt(const Joint* j, const DeviceData& d) __asm__(NAME_CT);
JointJacobian_t& simJj(const Joint* j, DeviceData& d, bool local) __asm__(NAME_JJ);
void simFk(DeviceData* d, const ModelPtr_t& m, int flag) {
  REAL(decltype(&simFk), NAME_FK);
  writeData(d);
  f(d, m, flag);
  writeData(d);
}
bool simCc(AbstractDevice* d, ConfigurationIn_t q) {
  REAL(decltype(&simCc), NAME_CC);
  touchData(&d->d(), true);
  bool r = f(d, q);
  touchData(&d->d(), true);
  return r;
}
void simCom(CenterOfMassComputation* c, DeviceData& d, const Computation_t& flag) {
  REAL(decltype(&simCom), NAME_COM);
  touchData(&d, true);
  f(c, d, flag);
  touchData(&d, true);
}
const Transform3s& simCt(const Joint* j, const DeviceData& d) {
  REAL(decltype(&simCt), NAME_CT);
  touchData(&d, false);
  return f(j, d);
}
JointJacobian_t& simJj(const Joint* j, DeviceData& d, bool local) {
  REAL(decltype(&simJj), NAME_JJ);
  touchData(&d, true);  // computed on demand
  JointJacobian_t& r = f(j, d, local);
  touchData(&d, true);
  return r;
}
