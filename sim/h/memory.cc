// The same run in several memories: other addresses, other contents of fresh and released memory
// and of the stack.  Every answer has to be the same, bit for bit (C13).
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>

#include "common/core.hh"

namespace sim {
namespace {
const char* const bases[] = {"C06", "C06", "C14", "C14", "C14", "C11", "C04", "C12", "C15", "C05", "C16", "C01", "C02", "C03", "C09", "C09"};
const int nBases = sizeof bases / sizeof *bases;
enum { RUNS = 3 };
struct Shared {
  Result res;
  Trace trace;
};
void generate(Plan& p) {
  Rng r(p.seed ^ 0xc13);
  int b;
  do { b = (int)r.below(nBases); } while (!findScenario(bases[b]));
  Plan q;
  q.prop = bases[b];
  q.seed = p.seed;
  findScenario(q.prop)->generate(q);
  p.knobs = q.knobs;
  p.ops = q.ops;
  p.knobs["base"] = b;
  p.knobs["mem_layout"] = 0;
  p.knobs["mem_fill"] = 0;
  p.knobs["pristine"] = 0;
  for (int i = 1; i < RUNS; ++i) {
    p.knobs["layout" + std::to_string(i)] = (long)(1 + r.below(100000));
    p.knobs["fill" + std::to_string(i)] = i == 1 ? 2 : (long)(r.chance(.5) ? 3 : r.chance(.5) ? 1 : 4 + r.below(2));
  }
}
struct Outcome { int sig; int code; };
const char* memoryName(const Plan& p, int i, char* buf, size_t n) {
  static const char* f[] = {"zero", "0xff", "not a number", "random bytes", "0.3", "1e300"};
  if (i == 0) snprintf(buf, n, "memory 0 (in order, filled with zero)");
  else snprintf(buf, n, "memory %d (layout %ld, filled with %s)", i, p.knob("layout" + std::to_string(i)), f[p.knob("fill" + std::to_string(i)) % 6]);
  return buf;
}
void execute(const Plan& p) {
  Plan base(p);
  base.prop = bases[p.knob("base") % nBases];
  const Scenario* sc = findScenario(base.prop);
  if (!sc) { return; }
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * RUNS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { fprintf(stderr, "no memory for transcripts\n"); _exit(9); }
  Outcome o[RUNS];
  Result* mine = res;
  for (int i = 0; i < RUNS; ++i) {
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(9); }
    if (pid == 0) {
      bool was = verbose;
      verbose = false;
      res = &sh[i].res;
      trace = &sh[i].trace;
      mem::region(3);
      mem::configure(i ? (u64)p.knob("layout" + std::to_string(i), 1) : 0, i ? (int)p.knob("fill" + std::to_string(i), 2) : 0);
      if (was) { printf("--- memory %d\n", i); verbose = p.knob("verbose") == i + 1; }
      scrubStack();
      try {
        sc->execute(base);
        const void* bad = mem::checkHeap();
        if (bad) fail("heap-overrun", "write past the end of block %p", bad);
        res->status = 1;
      } catch (const Violation& v) {
        res->status = 2;
        snprintf(res->cls, sizeof res->cls, "%s", v.cls.c_str());
        snprintf(res->msg, sizeof res->msg, "%s", v.msg.c_str());
      } catch (const std::exception& e) {
        res->status = 2;
        snprintf(res->cls, sizeof res->cls, "uncaught-exception");
        snprintf(res->msg, sizeof res->msg, "%s", e.what());
      }
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    o[i].sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    o[i].code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
    if (o[i].sig == SIGKILL || o[i].code) { fprintf(stderr, "a run ended from outside\n"); _exit(9); }
    if (i) { ++mine->fault[F_MEM_LAYOUT]; ++mine->fault[F_MEM_GARBAGE]; }
    res = mine;
    logf("memory %d: hash %llx status %d %s signal %d", i, (unsigned long long)sh[i].res.logHash, sh[i].res.status, sh[i].res.cls, o[i].sig);
  }
  Result& r0 = sh[0].res;
  mine->ops = r0.ops;
  mine->evals = r0.evals;
  mine->sig = mix(r0.sig ^ (u64)p.knob("base"));
  mine->simTime = r0.simTime;
  for (int i = 0; i < F_COUNT; ++i) mine->fault[i] += r0.fault[i];
  mine->nontrivial = sh[0].trace.n > 3;
  char b0[120], b1[120];
  for (int i = 0; i < RUNS; ++i) {
    const Shared& s = sh[i];
    if (s.trace.died[0]) fail("heap", "%s%s in %s", s.trace.died, "", memoryName(p, i, b0, sizeof b0));
    if (!strcmp(s.res.cls, "heap-overrun")) fail("heap", "%s in %s", s.res.msg, memoryName(p, i, b0, sizeof b0));
    if (o[i].sig == SIGSEGV || o[i].sig == SIGBUS || o[i].sig == SIGILL) fail("memory-access", "the run ends with signal %d in %s, last event: %s", o[i].sig, memoryName(p, i, b0, sizeof b0), s.trace.n ? s.trace.e[s.trace.n - 1].text : "none");
  }
  for (int i = 1; i < RUNS; ++i) {
    const Shared &a = sh[0], &b = sh[i];
    u64 n = std::min(a.trace.n, b.trace.n);
    for (u64 k = 0; k < n; ++k)
      if (a.trace.e[k].h != b.trace.e[k].h)
        fail("answers-differ", "answer %llu: \"%s\" in %s, \"%s\" in %s", (unsigned long long)k, a.trace.e[k].text, memoryName(p, 0, b0, sizeof b0), b.trace.e[k].text, memoryName(p, i, b1, sizeof b1));
    if (o[i].sig != o[0].sig || a.res.status != b.res.status || strcmp(a.res.cls, b.res.cls) || a.trace.n != b.trace.n || a.res.logHash != b.res.logHash)
      fail("outcome-differs", "the run ends with status %d %s %.200s signal %d after %llu answers in %s, with status %d %s %.200s signal %d after %llu answers in %s", a.res.status, a.res.cls, a.res.msg, o[0].sig, (unsigned long long)a.trace.n, memoryName(p, 0, b0, sizeof b0), b.res.status, b.res.cls, b.res.msg, o[i].sig, (unsigned long long)b.trace.n, memoryName(p, i, b1, sizeof b1));
  }
  SIM_PROBE("run compared in three memories");
}
Registrar reg("C13", generate, execute);
}  // namespace
}  // namespace sim
