// Runs simulations: each in a process forked from a warm parent, so that a crash
// of the code under test is an observation and every run starts from one state.
#include <errno.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

#include "common/core.hh"

namespace sim {
static std::vector<WarmUp>& warmUps() { static std::vector<WarmUp> w; return w; }
void registerWarmUp(WarmUp w) { warmUps().push_back(w); }

static std::string errPath;
static int cpuLimit = 20;

static bool fromSeed = false;  // plan holds only prop and seed; the child generates it
static void executeInChild(const Plan& plan0, const Scenario* sc) {
  // runs in the forked child; never returns
  struct rlimit rl = {(rlim_t)cpuLimit, (rlim_t)cpuLimit + 5};
  setrlimit(RLIMIT_CPU, &rl);
  alarm(240);  // a run that waits for something that never happens
  struct rlimit nc = {0, 0};
  setrlimit(RLIMIT_CORE, &nc);
  if (!errPath.empty()) {
    int fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
  }
  static Plan plan;
  plan = plan0;
  if (fromSeed) sc->generate(plan);
  currentPlan = &plan;
  // Assertion messages must not disturb the log; they are kept in errPath.
  try {
    mem::region(2);
    mem::configure((u64)plan.knob("mem_layout", 0), (int)plan.knob("mem_fill", 0));
    sc->execute(plan);
    const void* bad = mem::checkHeap();
    if (bad) fail("heap-overrun", "write past the end of block %p", bad);
    res->status = 1;
  } catch (const Violation& v) {
    res->status = 2;
    snprintf(res->cls, sizeof res->cls, "%s", v.cls.c_str());
    snprintf(res->msg, sizeof res->msg, "%s", v.msg.c_str());
  } catch (const std::exception& e) {
    res->status = 2;
    snprintf(res->cls, sizeof res->cls, "uncaught-exception");
    snprintf(res->msg, sizeof res->msg, "%s", e.what());
  }
  fflush(stdout);
  _exit(0);
}

// runs plan in a fresh child; fills out
static void runForked(const Plan& plan, const Scenario* sc, Result* shared, Result& out) {
  memset((void*)shared, 0, sizeof(Result));
  res = shared;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) executeInChild(plan, sc);
  if (pid < 0) { perror("fork"); exit(3); }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  out = *shared;
  if (out.status == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "the simulator gave up on seed %llu\n", (unsigned long long)plan.seed); exit(3); }
  if (out.status == 0) {
    out.status = 2;
    std::string tail;
    if (!errPath.empty()) {
      std::ifstream f(errPath);
      std::stringstream b; b << f.rdbuf();
      tail = b.str();
      if (tail.size() > 900) tail = tail.substr(0, 900);
      for (auto& ch : tail) if (ch == '\n' || ch == '\r') ch = ' ';
    }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || (WTERMSIG(st) == SIGKILL))) {
      if (WTERMSIG(st) != SIGKILL) {
        snprintf(out.cls, sizeof out.cls, "hang");
        snprintf(out.msg, sizeof out.msg, "no end of the run within %d s of processor time or 240 s", cpuLimit);
        out.logHash = 0;  // where it was stopped depends on the clock
      } else {
        fprintf(stderr, "child killed from outside (out of memory?)\n");
        exit(3);
      }
    } else if (WIFSIGNALED(st)) {
      snprintf(out.cls, sizeof out.cls, "crash-%d", WTERMSIG(st));
      snprintf(out.msg, sizeof out.msg, "%s: %s", strsignal(WTERMSIG(st)), tail.c_str());
    } else {
      snprintf(out.cls, sizeof out.cls, "exit-%d", WEXITSTATUS(st));
      snprintf(out.msg, sizeof out.msg, "the process ended during the run: %s", tail.c_str());
    }
  }
}

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); o += b; }
    else o += c;
  }
  return o;
}

static bool readPlan(const std::string& path, Plan& p) {
  std::ifstream f(path);
  std::stringstream b; b << f.rdbuf();
  std::string err;
  if (!f || !Plan::parse(b.str(), p, err)) { fprintf(stderr, "cannot read plan %s: %s\n", path.c_str(), err.c_str()); return false; }
  return true;
}
static void writeFile(const std::string& path, const std::string& s) {
  std::ofstream f(path + ".tmp");
  f << s;
  f.close();
  rename((path + ".tmp").c_str(), path.c_str());
}

static Plan generate(const Scenario* sc, const std::string& prop, u64 seed) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  sc->generate(p);
  return p;
}

struct Args {
  std::map<std::string, std::string> v;
  std::string get(const std::string& k, const std::string& d = "") const { auto i = v.find(k); return i == v.end() ? d : i->second; }
  long num(const std::string& k, long d) const { auto i = v.find(k); return i == v.end() ? d : atol(i->second.c_str()); }
};

// the plan with the schedule of the latest run written out
static Plan withSchedule(Plan p) {
  if (!switchLog || !switchLog->n || p.knob("explicit")) return p;
  p.knobs["explicit"] = 1;
  for (u64 i = 0; i < switchLog->n; ++i) {
    Op o;
    o.kind = "switch";
    o.a = switchLog->e[i].from; o.b = (long)switchLog->e[i].step; o.c = switchLog->e[i].to;
    p.ops.push_back(o);
  }
  return p;
}
static Result* newShared() {
  if (!switchLog) {
    switchLog = (SwitchLog*)mmap(nullptr, sizeof(SwitchLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (switchLog == MAP_FAILED) { perror("mmap"); exit(3); }
  }
  void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Result*)p;
}

// one worker: runs seeds w, w+J, w+2J, ... until the budget ends
static int worker(const Scenario* sc, const Args& a, int w, int J, double t0) {
  std::string out = a.get("out"), prop = a.get("prop");
  u64 base = (u64)a.num("seed", 1) * 1000003ULL;
  double budget = (double)a.num("budget", 30);
  long maxRuns = a.num("max-runs", 1000000000L), maxViol = a.num("max-viol", 2);
  long twice = a.num("twice", 4);
  errPath = out + "/err." + std::to_string(w);
  Result* shared = newShared();
  probeTable = (ProbeTable*)mmap(nullptr, sizeof(ProbeTable), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)probeTable, 0, sizeof(ProbeTable));
  fromSeed = true;
  Result r, r2;
  u64 runs = 0, nontrivial = 0, ops = 0, evals = 0, steps = 0, checkedTwice = 0;
  u64 fault[F_COUNT] = {0}, faultRuns[F_COUNT] = {0};
  double simTime = 0;
  std::set<u64> sigs, hashes;
  long viol = 0;
  std::string samples;
  int nsamples = 0;
  for (u64 k = (u64)w; (long)k < maxRuns && now() - t0 < budget; k += (u64)J) {
    u64 seed = base + k;
    Plan p;
    p.prop = prop; p.seed = seed;
    runForked(p, sc, shared, r);
    ++runs;
    if ((long)(runs) <= twice) {
      runForked(p, sc, shared, r2);
      ++checkedTwice;
      if (r.logHash != r2.logHash || r.status != r2.status || strcmp(r.cls, r2.cls)) {
        fprintf(stderr, "seed %llu is not deterministic (%s/%s)\n", (unsigned long long)seed, r.cls, r2.cls);
        writeFile(out + "/nondet." + std::to_string(seed), generate(sc, prop, seed).text());
      }
    }
    ops += r.ops; evals += r.evals; steps += r.steps; simTime += r.simTime;
    for (int i = 0; i < F_COUNT; ++i) { fault[i] += r.fault[i]; if (r.fault[i]) ++faultRuns[i]; }
    if (r.nontrivial) {
      ++nontrivial;
      if (sigs.size() < 4000000) sigs.insert(r.sig);
    }
    if (nsamples < 2 && r.nontrivial) {
      ++nsamples;
      samples += (samples.empty() ? "" : ",") + std::string("\"") + esc(generate(sc, prop, seed).text().substr(0, 1500)) + "\"";
    }
    if (r.status == 2) {
      std::ostringstream o;
      Plan whole(withSchedule(generate(sc, prop, seed)));
      if (whole.knob("explicit")) {
        // the same run, by its explicit schedule
        fromSeed = false;
        Result rx;
        runForked(whole, sc, shared, rx);
        fromSeed = true;
        if (rx.status == 2 && !strcmp(rx.cls, r.cls)) r = rx;
        else whole = generate(sc, prop, seed);
      }
      o << "# class " << r.cls << "\n# message " << r.msg << "\n# loghash " << r.logHash << "\n" << whole.text();
      std::string t = o.str();
      // messages are one line
      writeFile(out + "/viol." + std::to_string(seed), t);
      if (++viol >= maxViol) break;
    }
  }
  unlink(errPath.c_str());
  std::ostringstream o;
  o << "{\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"ops\":" << ops << ",\"evals\":" << evals
    << ",\"steps\":" << steps << ",\"sim_time\":" << simTime << ",\"twice\":" << checkedTwice << ",\"violations\":" << viol << ",\"faults\":{";
  for (int i = 0; i < F_COUNT; ++i) o << (i ? "," : "") << "\"" << faultNames[i] << "\":" << fault[i];
  o << "},\"fault_runs\":{";
  for (int i = 0; i < F_COUNT; ++i) o << (i ? "," : "") << "\"" << faultNames[i] << "\":" << faultRuns[i];
  o << "},\"samples\":[" << samples << "]}";
  writeFile(out + "/stats." + std::to_string(w), o.str());
  std::string bin((size_t)sigs.size() * 8, 0);
  size_t i = 0;
  for (u64 s : sigs) { memcpy(&bin[8 * i], &s, 8); ++i; }
  std::ofstream f(out + "/sigs." + std::to_string(w), std::ios::binary);
  f.write(bin.data(), (std::streamsize)bin.size());
  std::ofstream g(out + "/probes." + std::to_string(w));
  for (int n = 0; n < probeTable->n; ++n) g << probeTable->name[n] << " " << probeTable->count[n] << "\n";
  return 0;
}

static bool sameClass(const Result& r, const std::string& cls) { return r.status == 2 && cls == r.cls; }

// shrinks the operation and fault sequence while the violation class persists
static int minimise(const std::string& in, const std::string& outPath, double budget) {
  Plan p;
  if (!readPlan(in, p)) return 3;
  const Scenario* sc = findScenario(p.prop);
  if (!sc) return 3;
  Result* shared = newShared();
  Result r;
  double t0 = now();
  runForked(p, sc, shared, r);
  if (r.status != 2) { fprintf(stderr, "minimise: the plan does not fail\n"); return 4; }
  std::string cls = r.cls;
  long tries = 1;
  auto test = [&](const Plan& q) { ++tries; runForked(q, sc, shared, r); return sameClass(r, cls); };
  bool hang = cls == "hang";
  if (hang) budget = std::min(budget, 60.0);
  bool changed = true;
  while (changed && now() - t0 < budget) {
    changed = false;
    // drop operations, largest chunks first
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= p.ops.size() && now() - t0 < budget;) {
        Plan q = p;
        q.ops.erase(q.ops.begin() + (long)i, q.ops.begin() + (long)(i + chunk));
        if (test(q)) { p = q; changed = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < p.ops.size() && now() - t0 < budget; ++i) {
      if (p.ops[i].fault != "-") {
        Plan q = p;
        q.ops[i].fault = "-"; q.ops[i].at = 0;
        if (test(q)) { p = q; changed = true; continue; }
        if (p.ops[i].at > 1) {
          q = p; q.ops[i].at = p.ops[i].at / 2;
          if (test(q)) { p = q; changed = true; }
        }
      }
      long* f[4];
      for (int k = 0; k < 4; ++k) {
        Plan q = p;
        f[0] = &q.ops[i].a; f[1] = &q.ops[i].b; f[2] = &q.ops[i].c; f[3] = &q.ops[i].d;
        if (*f[k] != 0) { *f[k] = 0; if (test(q)) { p = q; changed = true; } }
      }
    }
    for (auto& kv : std::map<std::string, long>(p.knobs)) {
      if (now() - t0 >= budget) break;
      if (kv.second > 0 && kv.first.rfind("n_", 0) == 0) {
        Plan q = p; q.knobs[kv.first] = kv.second - 1;
        if (test(q)) { p = q; changed = true; }
      } else if (kv.second != 0 && kv.first != "world" ) {
        Plan q = p; q.knobs[kv.first] = 0;
        if (test(q)) { p = q; changed = true; }
      }
    }
  }
  runForked(p, sc, shared, r);
  std::ostringstream o;
  o << "# class " << r.cls << "\n# message " << r.msg << "\n# loghash " << r.logHash << "\n# minimised in " << tries << " runs\n" << p.text();
  writeFile(outPath, o.str());
  return sameClass(r, cls) ? 0 : 4;
}

int runMain(int argc, char** argv) {
  if (argc < 2) { fprintf(stderr, "usage: %s run|replay|minimise|plan ...\n", argv[0]); return 3; }
  // the same addresses in every process, where the sandbox allows it
  if (!getenv("SIM_NO_ASLR_DONE")) {
    setenv("SIM_NO_ASLR_DONE", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  setenv("OMP_NUM_THREADS", "1", 1);
  std::string mode = argv[1];
  Args a;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string s = argv[i];
    if (s.rfind("--", 0) == 0 && i + 1 < argc) { a.v[s.substr(2)] = argv[i + 1]; ++i; }
    else pos.push_back(s);
  }
  cpuLimit = (int)a.num("cpu", 20);
  mem::region(1);
  for (auto w : warmUps()) w();
  if (mode == "run") {
    const Scenario* sc = findScenario(a.get("prop"));
    if (!sc) { fprintf(stderr, "no scenario %s\n", a.get("prop").c_str()); return 3; }
    int J = (int)a.num("jobs", 8);
    double t0 = now();
    std::vector<pid_t> pids;
    for (int w = 0; w < J; ++w) {
      pid_t pid = fork();
      if (pid == 0) _exit(worker(sc, a, w, J, t0));
      pids.push_back(pid);
    }
    int bad = 0;
    for (pid_t p : pids) {
      int st;
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 3;
    }
    return bad;
  }
  if (mode == "replay") {
    Plan p;
    if (pos.empty() || !readPlan(pos[0], p)) return 3;
    const Scenario* sc = findScenario(p.prop);
    if (!sc) return 3;
    verbose = a.num("verbose", 0) != 0;
    errPath = a.get("err");
    Result r;
    runForked(p, sc, newShared(), r);
    printf("status %d\nclass %s\nloghash %llu\nmessage %s\n", r.status, r.status == 2 ? r.cls : "-", (unsigned long long)r.logHash, r.msg);
    return r.status == 2 ? 1 : 0;
  }
  if (mode == "minimise") {
    errPath = pos.at(1) + ".err";
    int rc = minimise(pos.at(0), pos.at(1), (double)a.num("budget", 60));
    unlink(errPath.c_str());
    return rc;
  }
  if (mode == "plan") {
    const Scenario* sc = findScenario(a.get("prop"));
    if (!sc) return 3;
    printf("%s", generate(sc, a.get("prop"), (u64)a.num("seed", 1)).text().c_str());
    return 0;
  }
  return 3;
}
}  // namespace sim

int main(int argc, char** argv) { return sim::runMain(argc, argv); }
