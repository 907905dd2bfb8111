#include "t/sched.hh"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {
namespace sched {
Stats stats;
int holder[MAXDATA];
namespace {
const size_t STACK = 4u << 20;
enum State { NONE, READY, ON_MUTEX, ON_COND, ON_GUARD, STALLED, DONE };
struct VC { unsigned c[MAXT]; };
struct Thread {
  State state;
  int futex;
  bool mayWake;        // a waiting thread that may wake up without a signal
  bool signalled;
  void* on;            // what it waits for
  void (*fn)(void*);
  void* arg;
  uintptr_t lo, hi;    // stack
  VC vc;
  u64 step, waits;
  int busy;            // > 0 inside the simulator
  u64 prio;
  long failAt;         // allocation failure armed by this thread
  u64 stallAt, stallFor, stalledUntil;
  char what[160];
};
Thread th[MAXT];
int nThreads = 0;   // spawned
int cur = 0;        // who runs
bool active = false;
Config cfg;
Rng rng(1);
u64 countdown = 0, decisions = 0, nextChange = 0, signals = 0;
u64 changeAt[16];
u64 lowPrio = 0;
struct Entry { u64 step; int to; };
const size_t MAXPLAN = SwitchLog::CAP;
Entry* plan_[MAXT];
size_t nPlan[MAXT], atPlan[MAXT];
int planned(int t, u64 step) {
  while (atPlan[t] < nPlan[t] && plan_[t][atPlan[t]].step < step) ++atPlan[t];
  return atPlan[t] < nPlan[t] && plan_[t][atPlan[t]].step == step ? plan_[t][atPlan[t]].to : 0;
}

void futexWait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
void futexWake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// ---------------------------------------------------------------- clocks of synchronisation objects
struct Sync { void* key; VC vc; int owner; int count; int kind; int readers; };
const size_t NSYNC = 1 << 14;
Sync* syncs = nullptr;
Sync* syncOf(void* p) {
  size_t h = (size_t)mix((u64)(uintptr_t)p) & (NSYNC - 1);
  for (size_t i = 0; i < NSYNC; ++i, h = (h + 1) & (NSYNC - 1)) {
    if (syncs[h].key == p) return &syncs[h];
    if (!syncs[h].key) { syncs[h].key = p; syncs[h].owner = 0; return &syncs[h]; }
  }
  failNow("simulator", "too many synchronisation objects");
}
void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void acquire(void* p) { join(th[cur].vc, syncOf(p)->vc); }
void release(void* p) { join(syncOf(p)->vc, th[cur].vc); ++th[cur].vc.c[cur]; }

// ---------------------------------------------------------------- shadow memory
struct Cell {
  unsigned wClk;
  unsigned char wTid, wMask, touched, data;
  unsigned rClk[MAXT];
  unsigned char rMask[MAXT + 1];
  void* wPc;
  void* rPc;
};
struct Page { uintptr_t key; Cell* cells; };
const size_t NPAGE = 1 << 16;
Page* pages = nullptr;
size_t usedPages = 0;
char* pool = nullptr; size_t poolLeft = 0;
uintptr_t lastKey = 0; Cell* lastCells = nullptr;
Cell* cellsOf(uintptr_t key, bool make) {
  if (key == lastKey) return lastCells;
  size_t h = (size_t)mix((u64)key) & (NPAGE - 1);
  for (;; h = (h + 1) & (NPAGE - 1)) {
    if (pages[h].key == key) break;
    if (!pages[h].key) {
      if (!make) return nullptr;
      if (++usedPages > NPAGE / 2) failNow("simulator", "too many shadow pages");
      size_t n = 512 * sizeof(Cell);
      if (poolLeft < n) {
        size_t c = 64 * n;
        pool = (char*)mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (pool == MAP_FAILED) failNow("simulator", "no memory for shadow pages");
        poolLeft = c;
      }
      pages[h].key = key;
      pages[h].cells = (Cell*)pool;
      pool += n; poolLeft -= n;
      break;
    }
  }
  lastKey = key; lastCells = pages[h].cells;
  return lastCells;
}
void forget(void* p, size_t n) {
  uintptr_t a = (uintptr_t)p & ~(uintptr_t)7, e = (uintptr_t)p + n;
  while (a < e) {
    uintptr_t key = a >> 12, end = (key + 1) << 12;
    if (end > e) end = e;
    Cell* c = cellsOf(key, false);
    if (c) memset((void*)(c + ((a & 4095) >> 3)), 0, ((end - a + 7) >> 3) * sizeof(Cell));
    a = end;
  }
}
void nameOf(void* pc, char* out, size_t n) {
  Dl_info d;
  if (pc && dladdr(pc, &d) && d.dli_sname) {
    int st = 0;
    char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    const char* t = st == 0 && s ? s : d.dli_sname;
    // arguments only make the name long
    size_t k = 0;
    int depth = 0;
    for (; t[k] && k + 1 < n; ++k) { if (t[k] == '<') ++depth; if (t[k] == '>') --depth; if (t[k] == '(' && depth == 0 && k) break; out[k] = t[k]; }
    out[k < n ? k : n - 1] = 0;
    if (strlen(out) > 150) strcpy(out + 147, "...");
  } else snprintf(out, n, "?");
}
void stackOf(void** frame, char* out, size_t n) {
  out[0] = 0;
  Thread& t = th[cur];
  size_t k = 0;
  for (int i = 0; i < 14 && (uintptr_t)frame >= t.lo && (uintptr_t)(frame + 1) < t.hi; ++i) {
    char nm[512];
    nameOf(frame[1], nm, sizeof nm);
    if (strstr(nm, "hpp::") && !strstr(nm, "Eigen::") && k + strlen(nm) + 8 < n) k += (size_t)snprintf(out + k, n - k, "%s%s", k ? " < " : "", nm);
    frame = (void**)frame[0];
  }
}
[[noreturn]] void race(uintptr_t a, bool w, int other, bool otherWrite, void* pc, void* otherPc, void** frame) {
  ++th[cur].busy;
  char n1[512], n2[512], st[1200];
  nameOf(pc, n1, sizeof n1); nameOf(otherPc, n2, sizeof n2); stackOf(frame, st, sizeof st);
  failNow("race", "thread %d (%s) %s memory that thread %d (%s) %s, with nothing to order them: %s (%s) and %s",
          cur, th[cur].what, w ? "writes" : "reads", other, th[other].what, otherWrite ? "writes" : "reads", n1, st, n2);
}

// ---------------------------------------------------------------- scheduling
bool runnable(int i) {
  Thread& t = th[i];
  switch (t.state) {
    case READY: return true;
    case ON_MUTEX: case ON_GUARD: return false;
    case ON_COND: return t.signalled || t.mayWake;
    case STALLED: return decisions >= t.stalledUntil;
    default: return false;
  }
}
int nextOf(bool forced) {
  // explicit schedules name the thread
  if (cfg.explicitSchedule) {
    int to = planned(cur, th[cur].step);
    if (to && runnable(to)) return to;
    if (!forced && runnable(cur)) return cur;
    for (int i = 1; i <= nThreads; ++i) if (runnable(i)) return i;
    return 0;
  }
  if (cfg.mode == 2) {
    int best = 0;
    for (int i = 1; i <= nThreads; ++i) if (runnable(i) && (!best || th[i].prio > th[best].prio)) best = i;
    return best;
  }
  int c[MAXT], n = 0;
  for (int i = 1; i <= nThreads; ++i) if (i != cur && runnable(i)) c[n++] = i;
  if (!n) return runnable(cur) ? cur : 0;
  return c[rng.below((u64)n)];
}
void newCountdown() {
  double u = rng.uni();
  double g = cfg.gap;
  countdown = 1 + (u64)(g * 2 * u);
}
void handOver(int to) {
  int me = cur;
  if (to == me) return;
  ++stats.switches;
  sigAdd((u64)to * 31 + th[me].step % 97);
  if (switchLog && switchLog->n < SwitchLog::CAP) { auto& e = switchLog->e[switchLog->n++]; e.from = me; e.step = th[me].step; e.to = to; }
  th[me].failAt = mem::swapFailure(th[to].failAt);
  cur = to;
  futexWake(&th[to].futex);
  futexWait(&th[me].futex);
}
[[noreturn]] void deadlock() {
  char b[1500]; size_t k = 0;
  b[0] = 0;
  for (int i = 1; i <= nThreads; ++i) {
    Thread& t = th[i];
    if (t.state == DONE) continue;
    k += (size_t)snprintf(b + k, sizeof b - k, "; thread %d (%s) waits for %s", i, t.what, t.state == ON_MUTEX ? "a mutex" : t.state == ON_COND ? "a condition" : "an initialisation");
    if (k > 1200) break;
  }
  failNow("deadlock", "no thread can run%s", b);
}
// gives the processor to somebody; the current thread must not be runnable unless !forced
void yieldTo(bool forced) {
  ++decisions;
  if (forced) ++th[cur].step;
  for (;;) {
    int to = nextOf(forced);
    if (to) {
      Thread& t = th[to];
      if (t.state == STALLED) t.state = READY;
      handOver(to);
      return;
    }
    // everybody waits: a stall ends
    int s = 0;
    for (int i = 1; i <= nThreads; ++i) if (th[i].state == STALLED && (!s || th[i].stalledUntil < th[s].stalledUntil)) s = i;
    if (!s) deadlock();
    decisions = th[s].stalledUntil;
  }
}
// a scheduling point
void point(bool lockOp, bool sharedWord) {
  Thread& t = th[cur];
  ++t.step;
  if (++stats.accesses > cfg.maxSteps) failNow("no-progress", "the threads do not end within %llu steps; thread %d: %s", (unsigned long long)cfg.maxSteps, cur, t.what);
  if (t.stallAt && --t.stallAt == 0) {
    ++stats.stalls;
    fired(F_STALL);
    t.stalledUntil = decisions + t.stallFor;
    t.state = STALLED;
    yieldTo(true);
    return;
  }
  if (cfg.explicitSchedule) {
    int to = planned(cur, t.step);
    if (to && to != cur && runnable(to)) { ++stats.preemptions; fired(F_PREEMPT); yieldTo(false); }
    return;
  }
  bool go = false;
  if (cfg.mode == 2) {
    if (stats.accesses >= nextChange) {
      t.prio = --lowPrio;
      nextChange = ~0ULL;
      for (int i = 0; i < cfg.changes; ++i) if (changeAt[i] > stats.accesses && changeAt[i] < nextChange) nextChange = changeAt[i];
      go = true;
    }
    // a thread that became runnable may have a higher priority
    if (lockOp) go = true;
  } else if (lockOp) go = rng.chance(cfg.atLock);
  else if (cfg.mode == 1) go = sharedWord && rng.chance(1 / cfg.gap);
  else if (--countdown == 0) { go = true; newCountdown(); }
  if (go) {
    int before = cur;
    u64 sw = stats.switches;
    yieldTo(false);
    if (stats.switches != sw && before == cur) { ++stats.preemptions; fired(F_PREEMPT); }
  }
}
inline bool inSim() { return active && cur != 0 && th[cur].busy == 0; }

[[noreturn]] void notHeld(int data, bool w, void* pc, void** frame) {
  ++th[cur].busy;
  char n1[512], st[1200];
  nameOf(pc, n1, sizeof n1); stackOf(frame, st, sizeof st);
  if (holder[data]) failNow("unheld-data", "thread %d (%s) %s a robot data that thread %d (%s) holds: %s (%s)", cur, th[cur].what, w ? "writes" : "reads", holder[data], th[holder[data]].what, n1, st);
  failNow("unheld-data", "thread %d (%s) %s a robot data that nobody holds: %s (%s)", cur, th[cur].what, w ? "writes" : "reads", n1, st);
}
void access(uintptr_t a, size_t n, bool w, void* pc, void** frame, bool always = false) {
  Thread& t = th[cur];
  if (a - t.lo < t.hi - t.lo) return;
  bool shared = false;
  uintptr_t e = a + n;
  const unsigned clk = t.vc.c[cur];
  while (a < e) {
    uintptr_t word = a & ~(uintptr_t)7;
    unsigned first = (unsigned)(a - word), last = e - word > 8 ? 8 : (unsigned)(e - word);
    unsigned char m = (unsigned char)(((1u << last) - 1) & ~((1u << first) - 1));
    Cell& c = cellsOf(word >> 12, true)[(word & 4095) >> 3];
    ++stats.words;
    const bool check = cfg.races || always;
    if (c.data && holder[c.data] != cur && !cfg.races) notHeld(c.data, w, pc, frame);
    if (check && (c.wMask & m)) {
      if (c.wTid != cur && c.wClk > t.vc.c[c.wTid]) race(word, w, c.wTid, true, pc, c.wPc, frame);
    }
    if (w) {
      for (int i = 1; check && i <= nThreads; ++i)
        if (i != cur && (c.rMask[i] & m) && c.rClk[i] > t.vc.c[i]) race(word, w, i, false, pc, c.rPc, frame);
      if (c.wTid == cur && c.wClk == clk) c.wMask |= m; else c.wMask = m;
      c.wTid = (unsigned char)cur; c.wClk = clk; c.wPc = pc;
    } else {
      if (c.rClk[cur] == clk) c.rMask[cur] |= m; else c.rMask[cur] = m;
      c.rClk[cur] = clk; c.rPc = pc;
    }
    unsigned char bit = (unsigned char)(1u << cur);
    if (c.touched & ~bit) shared = true;
    c.touched |= bit;
    a = word + 8;
  }
  point(false, shared);
}
void onAlloc(void* p, size_t n) { if (active && cur) { ++th[cur].busy; forget(p, n); --th[cur].busy; } }
void onFree(void* p, size_t n) { onAlloc(p, n); }

void* entry(void* a) {
  int me = (int)(long)a;
  futexWait(&th[me].futex);
  th[me].fn(th[me].arg);
  Thread& t = th[me];
  t.busy = 1;
  t.state = DONE;
  bool all = true;
  for (int i = 1; i <= nThreads; ++i) all = all && th[i].state == DONE;
  ++t.vc.c[me];
  if (all) {
    th[me].failAt = mem::swapFailure(0);
    cur = 0;
    futexWake(&th[0].futex);
  } else {
    yieldTo(true);
  }
  for (;;) pause();  // never ends: what the end of a thread does is outside of the simulation
  return nullptr;
}
}  // namespace

void configure(const Config& c) {
  cfg = c;
  rng = Rng(c.seed);
  syncs = (Sync*)mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pages = (Page*)mmap(nullptr, NPAGE * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXT; ++i) {
    plan_[i] = (Entry*)mmap(nullptr, sizeof(Entry) * MAXPLAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    nPlan[i] = atPlan[i] = 0;
  }
  nThreads = 0; cur = 0; active = false; decisions = 0;
  memset(&stats, 0, sizeof stats);
  memset((void*)th, 0, sizeof th);
  if (switchLog) switchLog->n = 0;
}
void addSwitch(int thread, u64 step, int to) {
  if (thread < 0 || thread >= MAXT || to < 1 || to >= MAXT || nPlan[thread] >= MAXPLAN) return;
  Entry& e = plan_[thread][nPlan[thread]++];
  e.step = step; e.to = to;
}
void spawn(void (*fn)(void*), void* arg) {
  int i = ++nThreads;
  if (i >= MAXT) failNow("simulator", "too many threads");
  Thread& t = th[i];
  t.state = READY; t.fn = fn; t.arg = arg;
  t.vc.c[i] = 1;
  t.prio = 1000000 + rng.below(1000000);
  void* st = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t.lo = (uintptr_t)st; t.hi = t.lo + STACK;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, st, STACK);
  pthread_t id;
  if (pthread_create(&id, &at, entry, (void*)(long)i)) failNow("simulator", "cannot create a thread");
}
void run() {
  if (!nThreads) return;
  mem::onAlloc = onAlloc; mem::onFree = onFree;
  for (int i = 1; i <= nThreads; ++i) for (int j = 1; j <= nThreads; ++j) th[i].vc.c[j] = i == j ? 1 : 0;
  lowPrio = 1000000;
  for (int i = 0; i < cfg.changes && i < 16; ++i) changeAt[i] = 1 + rng.below(cfg.length);
  if (cfg.changes > 16) cfg.changes = 16;
  nextChange = ~0ULL;
  for (int i = 0; i < cfg.changes; ++i) if (changeAt[i] < nextChange) nextChange = changeAt[i];
  newCountdown();
  active = true;
  int first = nextOf(true);
  if (switchLog && switchLog->n < SwitchLog::CAP) { auto& e = switchLog->e[switchLog->n++]; e.from = 0; e.step = 0; e.to = first; }
  th[0].failAt = mem::swapFailure(th[first].failAt);
  cur = first;
  futexWake(&th[first].futex);
  futexWait(&th[0].futex);
  mem::swapFailure(0);
  active = false;
  mem::onAlloc = nullptr; mem::onFree = nullptr;
}
int self() { return active ? cur : 0; }
void describe(const char* what) { snprintf(th[cur].what, sizeof th[cur].what, "%s", what); }
void armAlloc(long n) { mem::swapFailure(n); }
long disarmAlloc() { return mem::swapFailure(0) == 0; }
void armStall(u64 after, u64 d) { th[cur].stallAt = after; th[cur].stallFor = d; }
void disarmStall() { th[cur].stallAt = 0; }
Guard::Guard() { ++th[cur].busy; }
Guard::~Guard() { --th[cur].busy; }
void touch(const void* p, size_t n, bool w) {
  if (!inSim() || !n) return;
  ++th[cur].busy;
  access((uintptr_t)p, n, w, __builtin_return_address(0), (void**)__builtin_frame_address(0), true);
  --th[cur].busy;
}
void owned(const void* p, size_t n, int data) {
  if (!active || !cur || !p) return;
  ++th[cur].busy;
  for (uintptr_t a = (uintptr_t)p & ~(uintptr_t)7; a < (uintptr_t)p + n; a += 8) cellsOf(a >> 12, true)[(a & 4095) >> 3].data = (unsigned char)data;
  --th[cur].busy;
}
void failNow(const char* cls, const char* fmt, ...) {
  if (active) ++th[cur].busy;
  char buf[2800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (!strcmp(cls, "simulator")) { fprintf(stderr, "simulator: %s\n", buf); _exit(3); }
  if (!active || cur == 0) fail(cls, "%s", buf);
  if (verbose) printf("  %s: %s\n", cls, buf);
  res->status = 2;
  snprintf(res->cls, sizeof res->cls, "%s", cls);
  snprintf(res->msg, sizeof res->msg, "%s", buf);
  fflush(stdout);
  _exit(0);
}

// ---------------------------------------------------------------- locks
namespace {
struct Busy { int c; Busy() : c(cur) { ++th[c].busy; } ~Busy() { --th[c].busy; } };
int lockMutex(pthread_mutex_t* m, bool tryOnly) {
  Busy b;
  point(true, true);
  ++stats.locks;
  for (;;) {
    Sync* s = syncOf(m);
    if (!s->owner) { s->owner = cur; s->count = 1; join(th[cur].vc, s->vc); return 0; }
    if (s->owner == cur) {
      int kind = m->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; }
      if (tryOnly) return EBUSY;
      if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (tryOnly) return EBUSY;
    ++stats.blocked;
    th[cur].state = ON_MUTEX; th[cur].on = m;
    yieldTo(true);
  }
}
void wakeOn(void* p, State st) { for (int i = 1; i <= nThreads; ++i) if (th[i].state == st && th[i].on == p) th[i].state = READY; }
int unlockMutex(pthread_mutex_t* m, bool sp) {
  Busy b;
  Sync* s = syncOf(m);
  if (s->owner != cur) { if (!s->owner) return 0; return EPERM; }
  if (--s->count > 0) return 0;
  s->owner = 0;
  release(m);
  wakeOn(m, ON_MUTEX);
  if (sp) point(true, true);
  return 0;
}
int waitCond(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Busy b;
  ++stats.waits;
  Thread& t = th[cur];
  ++t.waits;
  Sync* s = syncOf(m);
  int count = s->count;
  s->owner = 0; s->count = 0;
  release(m);
  wakeOn(m, ON_MUTEX);
  t.signalled = false;
  double u = (double)(mix(cfg.seed * 31 + (u64)cur * 7 + t.waits * 1009) >> 11) * (1.0 / 9007199254740992.0);
  t.mayWake = timed || u < cfg.spurious;
  t.state = ON_COND; t.on = c;
  yieldTo(true);
  bool sig = t.signalled;
  if (!sig) { ++stats.spurious; fired(F_SPURIOUS); }
  t.state = READY; t.signalled = t.mayWake = false;
  for (;;) {
    Sync* s2 = syncOf(m);
    if (!s2->owner) { s2->owner = cur; s2->count = count; join(t.vc, s2->vc); break; }
    t.state = ON_MUTEX; t.on = m;
    yieldTo(true);
  }
  return timed && !sig ? ETIMEDOUT : 0;
}
int signalCond(pthread_cond_t* c, bool all) {
  Busy b;
  int w[MAXT], n = 0;
  for (int i = 1; i <= nThreads; ++i) if (th[i].state == ON_COND && th[i].on == c && !th[i].signalled) w[n++] = i;
  if (n) {
    if (all) for (int i = 0; i < n; ++i) th[w[i]].signalled = true;
    else th[w[mix(cfg.seed + ++signals) % (u64)n]].signalled = true;
  }
  point(true, true);
  return 0;
}
int rdlock(void* m, bool wr, bool tryOnly) {
  Busy b;
  point(true, true);
  for (;;) {
    Sync* s = syncOf(m);
    if (wr ? (!s->owner && !s->readers) : !s->owner) { if (wr) s->owner = cur; else ++s->readers; join(th[cur].vc, s->vc); return 0; }
    if (tryOnly) return EBUSY;
    th[cur].state = ON_MUTEX; th[cur].on = m;
    yieldTo(true);
  }
}
int rwunlock(void* m) {
  Busy b;
  Sync* s = syncOf(m);
  if (s->owner == cur) s->owner = 0; else if (s->readers > 0) --s->readers;
  release(m);
  wakeOn(m, ON_MUTEX);
  point(true, true);
  return 0;
}
template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
}  // namespace
}  // namespace sched
}  // namespace sim

using namespace sim::sched;
// Threads of the simulation never use the real locks; the main thread is alone when it runs.
#define IN_THREAD (active && cur != 0)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return IN_THREAD ? lockMutex(m, false) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return IN_THREAD ? lockMutex(m, true) : 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return IN_THREAD ? lockMutex(m, false) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { return IN_THREAD ? unlockMutex(m, true) : 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (IN_THREAD) return waitCond(c, m, false);
  sim::fail("lost-data", "after all threads have ended, a robot data is missing: the only thread left would wait for ever");
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return IN_THREAD ? waitCond(c, m, true) : ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) { return IN_THREAD ? signalCond(c, false) : 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { return IN_THREAD ? signalCond(c, true) : 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return IN_THREAD ? rdlock(m, false, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return IN_THREAD ? rdlock(m, false, true) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return IN_THREAD ? rdlock(m, true, false) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return IN_THREAD ? rdlock(m, true, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return IN_THREAD ? rwunlock(m) : 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { return IN_THREAD ? rdlock((void*)m, true, false) : 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) { return IN_THREAD ? rdlock((void*)m, true, true) : 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { return IN_THREAD ? rwunlock((void*)m) : 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  // runs without preemption; 2 is glibc's value of a control that is done
  if (__atomic_load_n(o, __ATOMIC_ACQUIRE) & 2) { if (IN_THREAD) { Busy b; acquire(o); } return 0; }
  if (IN_THREAD) { Busy b; f(); release(o); } else f();
  __atomic_store_n(o, 2, __ATOMIC_RELEASE);
  return 0;
}
int sched_yield() { if (IN_THREAD && !th[cur].busy) { Busy b; ++th[cur].step; yieldTo(false); } return 0; }
static int sleepFor() { if (IN_THREAD && !th[cur].busy) { Busy b; point(true, true); ++th[cur].step; yieldTo(false); } return 0; }
int nanosleep(const struct timespec*, struct timespec*) { return sleepFor(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sleepFor(); }
int usleep(useconds_t) { return sleepFor(); }
unsigned sleep(unsigned) { return (unsigned)sleepFor(); }

// initialisation of static variables
int __cxa_guard_acquire(uint64_t* g) {
  char* b = (char*)g;
  if (!IN_THREAD) return b[0] ? 0 : 1;
  Busy busy;
  point(true, true);
  for (;;) {
    if (b[0]) { acquire(g); return 0; }
    Sync* s = syncOf(g);
    if (!s->owner) { s->owner = cur; acquire(g); return 1; }  // after an initialisation that failed, if any
    if (s->owner == cur) failNow("deadlock", "thread %d (%s) initialises a static variable while it initialises it", cur, th[cur].what);
    th[cur].state = ON_GUARD; th[cur].on = g;
    yieldTo(true);
  }
}
void __cxa_guard_release(uint64_t* g) {
  *(char*)g = 1;
  if (!IN_THREAD) return;
  Busy busy;
  syncOf(g)->owner = 0;
  release(g);
  wakeOn(g, ON_GUARD);
  point(true, true);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!IN_THREAD) return;
  Busy busy;
  syncOf(g)->owner = 0;
  release(g);
  wakeOn(g, ON_GUARD);
}

// ---------------------------------------------------------------- memory access callbacks
#define ACC(a, n, w) do { if (inSim()) { Busy _b; access((uintptr_t)(a), n, w, __builtin_return_address(0), (void**)__builtin_frame_address(0)); } } while (0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* a) { ACC(a, 1, false); }
void __tsan_read2(void* a) { ACC(a, 2, false); }
void __tsan_read4(void* a) { ACC(a, 4, false); }
void __tsan_read8(void* a) { ACC(a, 8, false); }
void __tsan_read16(void* a) { ACC(a, 16, false); }
void __tsan_write1(void* a) { ACC(a, 1, true); }
void __tsan_write2(void* a) { ACC(a, 2, true); }
void __tsan_write4(void* a) { ACC(a, 4, true); }
void __tsan_write8(void* a) { ACC(a, 8, true); }
void __tsan_write16(void* a) { ACC(a, 16, true); }
void __tsan_unaligned_read2(void* a) { ACC(a, 2, false); }
void __tsan_unaligned_read4(void* a) { ACC(a, 4, false); }
void __tsan_unaligned_read8(void* a) { ACC(a, 8, false); }
void __tsan_unaligned_read16(void* a) { ACC(a, 16, false); }
void __tsan_unaligned_write2(void* a) { ACC(a, 2, true); }
void __tsan_unaligned_write4(void* a) { ACC(a, 4, true); }
void __tsan_unaligned_write8(void* a) { ACC(a, 8, true); }
void __tsan_unaligned_write16(void* a) { ACC(a, 16, true); }
void __tsan_volatile_read1(void* a) { ACC(a, 1, false); }
void __tsan_volatile_read2(void* a) { ACC(a, 2, false); }
void __tsan_volatile_read4(void* a) { ACC(a, 4, false); }
void __tsan_volatile_read8(void* a) { ACC(a, 8, false); }
void __tsan_volatile_write1(void* a) { ACC(a, 1, true); }
void __tsan_volatile_write2(void* a) { ACC(a, 2, true); }
void __tsan_volatile_write4(void* a) { ACC(a, 4, true); }
void __tsan_volatile_write8(void* a) { ACC(a, 8, true); }
void __tsan_read_range(void* a, size_t n) { if (n) ACC(a, n, false); }
void __tsan_write_range(void* a, size_t n) { if (n) ACC(a, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) ACC(p, 8, true); }
void __tsan_vptr_read(void** p) { ACC(p, 8, false); }

static void before(void* a, int mo, bool store, bool load) {
  if (!inSim()) return;
  Busy b;
  point(true, true);
  if (store && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) release(a);
  if (load && (mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) acquire(a);
}
#define ATOMIC(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) { before((void*)a, mo, false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { before((void*)a, mo, true, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { before((void*)a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { before((void*)a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { before((void*)a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { before((void*)a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { before((void*)a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { before((void*)a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { before((void*)a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { before((void*)a, mo, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { before((void*)a, mo, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { before((void*)a, mo, true, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n && inSim() && !sim::mem::locked()) { ACC(s, n, false); ACC(d, n, true); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n && inSim() && !sim::mem::locked()) { ACC(s, n, false); ACC(d, n, true); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n && inSim() && !sim::mem::locked()) ACC(d, n, true);
  return __real_memset(d, c, n);
}
}
