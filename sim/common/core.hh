// Core of the deterministic simulator: seeded choices, event log, plans, faults.
//
// A run is a pure function of its plan (and of the code under test).  The plan
// is generated from one integer; it lists operations, each with its own seed, so
// that removing one operation changes no choice made inside another one.
#ifndef SIM_CORE_HH
#define SIM_CORE_HH
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <vector>

namespace sim {
typedef uint64_t u64;

// ---------------------------------------------------------------- randomness
inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix(seed ^ 0x5bd1e995)) {}
  u64 next() { return mix(s += 0x9e3779b97f4a7c15ULL); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
  double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- fault kinds
enum Fault {
  F_THROW, F_UNDEFINED, F_BADALLOC_CB, F_NAN, F_INF, F_ADVERSARIAL, F_ALLOC_FAIL,
  F_STREAM_FAIL, F_SHORT_WRITE, F_TORN, F_TRUNCATED, F_BITFLIP, F_RESTART,
  F_PREEMPT, F_STALL, F_SPURIOUS, F_THREAD_FAIL, F_MEM_LAYOUT, F_MEM_GARBAGE,
  F_TIME_JUMP, F_ROBOT_MOVED, F_COUNT
};
extern const char* faultNames[F_COUNT];

// ---------------------------------------------------------------- plans
struct Op {
  std::string kind;
  long a = 0, b = 0, c = 0, d = 0;
  u64 s = 0;
  std::string fault = "-";  // "-" or name of a fault
  long at = 0;              // when, in the unit of the operation (evaluation, allocation, byte)
};
struct Plan {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, long> knobs;
  std::vector<Op> ops;
  long knob(const std::string& k, long dflt = 0) const {
    auto it = knobs.find(k);
    return it == knobs.end() ? dflt : it->second;
  }
  std::string text() const;
  static bool parse(const std::string& text, Plan& out, std::string& err);
};

// ---------------------------------------------------------------- run result
struct Violation {
  std::string cls, msg;
};
enum { NPROBE = 96 };
struct Result {
  int status;  // 0 not finished, 1 ok, 2 violation, 3 skipped
  char cls[96];
  char msg[3000];
  u64 logHash, sig, ops, evals, steps, nontrivial;
  u64 fault[F_COUNT];
  double simTime;
  int trStatus;
};
struct ProbeTable { int n; char name[NPROBE][40]; u64 count[NPROBE]; };
extern ProbeTable* probeTable;  // shared by all runs of a worker
extern Result* res;  // result of the current run (shared with the parent)
extern bool verbose;
extern Plan* currentPlan;

void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void logv(const char* what, const double* v, long n);  // logs exact bits
// transcript of a run, when one is wanted (shared memory)
struct Trace {
  enum { CAP = 6000 };
  u64 n;
  char died[80];
  struct { u64 h; char text[152]; } e[CAP];
};
extern Trace* trace;
// who ran when, in simulations with threads (shared memory): becomes part of the replay file
struct SwitchLog {
  enum { CAP = 60000 };
  u64 n;
  struct { int from, to; u64 step; } e[CAP];
};
extern SwitchLog* switchLog;
void scrubStack();  // writes the fill pattern below the current frame
inline void sigAdd(u64 x) { res->sig = mix(res->sig * 0x100000001b3ULL ^ x); }
void fired(Fault f, u64 n = 1);
// a named reach counter
int probeId(const char* name);
#define SIM_PROBE(name) do { static int _p = sim::probeId(name); ++sim::probeTable->count[_p]; } while (0)
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim::fail(cls, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- scenarios
struct Scenario {
  const char* prop;
  // fills plan from plan.seed
  void (*generate)(Plan& plan);
  // executes the plan; throws Violation
  void (*execute)(const Plan& plan);
};
void registerScenario(const Scenario& s);
const Scenario* findScenario(const std::string& prop);
// called once in the warm parent, before any run is forked
typedef void (*WarmUp)();
void registerWarmUp(WarmUp w);
struct Registrar {
  Registrar(const char* prop, void (*g)(Plan&), void (*e)(const Plan&)) { registerScenario(Scenario{prop, g, e}); }
};
struct WarmRegistrar { WarmRegistrar(WarmUp w) { registerWarmUp(w); } };

// ---------------------------------------------------------------- memory
namespace mem {
// layout: 0 = first fit in order, otherwise placement shuffled by this seed
// fill: content of fresh and released memory: 0 zero, 1 0xff, 2 quiet NaN, 3 random bytes,
//       4 small finite doubles, 5 huge doubles
void configure(u64 layoutSeed, int fill);
int fill();
void fillPattern(void* p, size_t n);
// later blocks come from the k-th region of the arena, whatever was allocated before: addresses
// inside a run do not depend on what its parent did
void region(int k);
// makes the n-th allocation from now fail (n >= 1), 0 disarms; returns how often a failure fired
void armFailure(long n);
long disarmFailure();
long swapFailure(long n);  // of the current thread, when threads take turns; returns what is left
bool locked();            // inside the allocator
// checks the red zones of every live block; returns the address of a damaged one or null
const void* checkHeap();
// liveness of an address of the arena: 1 inside a live block, 0 outside any, -1 not in the arena
int live(const void* p, size_t n);
u64 allocations();
extern void (*onAlloc)(void* p, size_t n);
extern void (*onFree)(void* p, size_t n);
}  // namespace mem

int runMain(int argc, char** argv);
}  // namespace sim
#endif
