// Scheduler of simulated threads: real threads of which exactly one runs at a time.  Who runs,
// and where it is preempted, is decided by the plan.  Memory accesses of the code under test
// (compiled with the compiler's access callbacks, which this simulator implements) are
// scheduling points and are checked for unordered conflicts with vector clocks.
#ifndef SIM_T_SCHED_HH
#define SIM_T_SCHED_HH
#include "common/core.hh"

namespace sim {
namespace sched {
enum { MAXT = 7 };  // threads 1 .. MAXT-1; 0 is the main thread
struct Config {
  u64 seed = 1;
  int mode = 0;        // 0 random gaps, 1 shared words, 2 priorities with change points
  double gap = 300;    // mean gap of preemptions (mode 0), or 1 / probability at shared words (mode 1)
  int changes = 3;     // change points (mode 2)
  u64 length = 20000;  // where change points lie (mode 2)
  double atLock = .3;  // probability of a preemption at a lock operation
  double spurious = 0; // probability that a wait may end without a signal
  u64 maxSteps = 4000000;
  bool races = true;   // unordered accesses of instrumented code are violations
  bool explicitSchedule = false;  // only the switches below
};
void configure(const Config& c);
void addSwitch(int thread, u64 step, int to);
void spawn(void (*fn)(void*), void* arg);
void run();        // runs all threads to their end; called by the main thread
int self();        // 0 outside simulated threads
void describe(const char* what);  // what this thread does now, for messages
// faults of the current operation of this thread
void armAlloc(long n);
long disarmAlloc();
void armStall(u64 afterSteps, u64 decisions);
void disarmStall();
struct Guard { Guard(); ~Guard(); };  // no scheduling and no access checks inside
// pseudo accesses, for code that is not instrumented
void touch(const void* p, size_t n, bool write);
// memory that belongs to a robot data (1 ..): only the thread that holds it may access it
enum { MAXDATA = 16 };
void owned(const void* p, size_t n, int data);
extern int holder[MAXDATA];  // thread, 0 nobody
[[noreturn]] void failNow(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
struct Stats { u64 accesses, words, switches, preemptions, locks, waits, spurious, stalls, blocked; };
extern Stats stats;
}  // namespace sched
}  // namespace sim
#endif
