#include "common/core.hh"

#include <cstdarg>
#include <cstring>
#include <sstream>

namespace sim {
const char* faultNames[F_COUNT] = {
    "throw", "undefined", "badalloc_cb", "nan", "inf", "adversarial", "alloc_fail",
    "stream_fail", "short_write", "torn", "truncated", "bitflip", "restart",
    "preempt", "stall", "spurious", "thread_fail", "mem_layout", "mem_garbage",
    "time_jump", "robot_moved"};
static Result dummy;
Result* res = &dummy;
bool verbose = false;
Plan* currentPlan = nullptr;

static void hashBytes(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  u64 h = res->logHash ? res->logHash : 0xcbf29ce484222325ULL;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
  res->logHash = h;
}
Trace* trace = nullptr;
SwitchLog* switchLog = nullptr;
static void traceAdd(u64 h, const char* text, size_t n) {
  if (!trace || trace->n >= Trace::CAP) return;
  auto& e = trace->e[trace->n++];
  e.h = h;
  if (n > sizeof e.text - 1) n = sizeof e.text - 1;
  memcpy(e.text, text, n);
  e.text[n] = 0;
}
__attribute__((noinline)) void scrubStack() {
  if (!trace) return;
  char buf[16384];
  mem::fillPattern(buf, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}
void logf(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  hashBytes(buf, n);
  if (trace) { traceAdd(res->logHash, buf, (size_t)n); scrubStack(); }
  if (verbose) fprintf(stdout, "  %s\n", buf);
}
void logv(const char* what, const double* v, long n) {
  hashBytes(what, strlen(what));
  for (long i = 0; i < n; ++i) {
    double x = v[i];
    if (x != x) x = 0.0 / 0.0 * 0;  // any NaN hashes alike
    u64 bits;
    memcpy(&bits, &x, 8);
    if (x != x) bits = 0x7ff8000000000000ULL;
    hashBytes(&bits, 8);
  }
  if (trace) {
    char t[160];
    int k = snprintf(t, sizeof t, "%s [", what);
    for (long i = 0; i < n && k < 140; ++i) k += snprintf(t + k, sizeof t - (size_t)k, " %.12g", v[i]);
    traceAdd(res->logHash, t, strlen(t));
  }
  if (verbose) {
    fprintf(stdout, "  %s [", what);
    for (long i = 0; i < n; ++i) fprintf(stdout, i ? ", %.9g" : "%.9g", v[i]);
    fprintf(stdout, "]\n");
  }
}
void fired(Fault f, u64 n) { res->fault[f] += n; }

static ProbeTable dummyProbes;
ProbeTable* probeTable = &dummyProbes;
int probeId(const char* name) {
  ProbeTable& t = *probeTable;
  for (int i = 0; i < t.n; ++i)
    if (!strncmp(t.name[i], name, sizeof t.name[0] - 1)) return i;
  if (t.n >= NPROBE - 1) return NPROBE - 1;
  snprintf(t.name[t.n], sizeof t.name[0], "%s", name);
  return t.n++;
}

void fail(const char* cls, const char* fmt, ...) {
  char buf[2800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{cls, buf};
}

static std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
void registerScenario(const Scenario& s) { scenarios().push_back(s); }
const Scenario* findScenario(const std::string& prop) {
  for (auto& s : scenarios()) if (prop == s.prop) return &s;
  return nullptr;
}

std::string Plan::text() const {
  std::ostringstream o;
  o << "plan 1\nprop " << prop << "\nseed " << seed << "\n";
  for (auto& k : knobs) o << "knob " << k.first << " " << k.second << "\n";
  for (auto& p : ops)
    o << "op " << p.kind << " " << p.a << " " << p.b << " " << p.c << " " << p.d << " " << p.s << " "
      << p.fault << " " << p.at << "\n";
  o << "end\n";
  return o.str();
}
bool Plan::parse(const std::string& text, Plan& out, std::string& err) {
  out = Plan();
  std::istringstream in(text);
  std::string line;
  bool ended = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w.empty() || w[0] == '#') continue;
    if (w == "plan") continue;
    if (w == "prop") l >> out.prop;
    else if (w == "seed") l >> out.seed;
    else if (w == "knob") { std::string k; long v; l >> k >> v; out.knobs[k] = v; }
    else if (w == "op") {
      Op p;
      l >> p.kind >> p.a >> p.b >> p.c >> p.d >> p.s >> p.fault >> p.at;
      if (!l) { err = "bad op line: " + line; return false; }
      out.ops.push_back(p);
    } else if (w == "end") ended = true;
    else { err = "bad line: " + line; return false; }
  }
  if (!ended) { err = "plan has no end line"; return false; }
  return true;
}
}  // namespace sim
