// Simulation core: registry, decision log, run driver (fork per run), replay, minimiser, CLI.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <typeinfo>
#include <cxxabi.h>

namespace sim {
namespace in {

Result* R = nullptr;
bool    g_replay = false, g_trace = false;
Rng     g_rng(1);
Plan    g_plan;
int     g_quiet = 0;
static bool        g_faults = true;
u64                g_kidx[MAXKIND];
static std::unordered_map<u64, u64> g_devmap;
std::vector<SchedDev> g_sched_devs, g_stall_devs;
u64                g_evseq = 0;
std::string        g_scratch_base, g_scratch_dir;
static bool        g_scratch_made = false;
bool               g_in_run = false;

static std::vector<Scenario*>& registry() {
  static std::vector<Scenario*> r;
  return r;
}

int kind_id(const char* name) {
  for (int i = 0; i < R->nkind; ++i)
    if (!strcmp(R->kinds[i].name, name)) return i;
  if (R->nkind >= MAXKIND) abort();
  snprintf(R->kinds[R->nkind].name, sizeof R->kinds[0].name, "%s", name);
  return R->nkind++;
}

void log_dev(int kind, u64 idx, u64 val) {
  if (R->ndev >= (uint32_t)MAXDEV) {
    R->dev_overflow = 1;
    return;
  }
  Dev& d = R->dev[R->ndev++];
  d.kind = kind;
  d.idx  = idx;
  d.val  = val;
}

bool replay_lookup(int kind, u64 idx, u64& val) {
  auto i = g_devmap.find(((u64)kind << 48) | idx);
  if (i == g_devmap.end()) return false;
  val = i->second;
  return true;
}

void hash_mix(u64 v) {
  u64 h = R->hash ^ v;
  h *= 0x100000001b3ull;
  h ^= h >> 29;
  R->hash = h;
}

static u64 name_hash(const char* n) {
  u64 h = 7;
  while (*n) h = h * 131 + (unsigned char)*n++;
  return h & 0xfffff;
}

void fire(int kind) { R->kinds[kind].fired++; }

__attribute__((noreturn)) void finish(int status) {
  R->steps  = steps();
  R->simns  = now_ns();
  R->status = status;
  _exit(0);
}

__attribute__((weak)) void run_world(const std::function<void()>& f) { f(); }

}  // namespace in

using namespace in;

Scenario::Scenario(const char* n, const char* w, bool th, int weight_, std::function<void(Rng&, Plan&)> g,
                   std::function<void(const Plan&)> r)
    : name(n), what(w), gen(g), run(r), threaded(th), weight(weight_) {
  registry().push_back(this);
}

Quiet::Quiet() { ++g_quiet; }
Quiet::~Quiet() { --g_quiet; }

void enable_faults(bool on) { g_faults = on; }
bool faults_enabled() { return g_faults; }
const Plan& plan() { return g_plan; }
bool tracing() { return g_trace; }
u64  event_seq() { return g_evseq; }
void add_sim_ns(u64 ns) { R->simns += ns; }

__attribute__((weak)) u64 steps() { return R->steps; }
__attribute__((weak)) u64 now_ns() { return R->simns; }

bool fault(const char* kind) {
  Quiet q;
  if (!g_in_run || !g_faults) return false;
  std::string key = std::string("f_") + kind;
  i64         rate = g_plan.get(key.c_str(), 0);
  if (rate <= 0) return false;
  int k = kind_id(kind);
  u64 idx = g_kidx[k]++;
  R->kinds[k].decisions++;
  bool hit;
  if (g_replay) {
    u64 v = 0;
    hit   = replay_lookup(k, idx, v) && v;
  } else
    hit = g_rng.chance(rate, 1000);
  if (hit) {
    log_dev(k, idx, 1);
    R->kinds[k].fired++;
    hash_mix(0xF000 + name_hash(kind));
    if (g_trace) fprintf(stderr, "    [fault] %s #%llu\n", kind, (unsigned long long)idx);
  }
  return hit;
}

u64 pick(const char* kind, u64 n) {
  Quiet q;
  if (n <= 1 || !g_in_run) return 0;
  int k   = kind_id(kind);
  u64 idx = g_kidx[k]++;
  u64 v   = 0;
  R->kinds[k].decisions++;
  if (g_replay) {
    if (!replay_lookup(k, idx, v)) v = 0;
    v %= n;
  } else
    v = g_rng.below(n);
  if (v) log_dev(k, idx, v);
  hash_mix(0xA000 + name_hash(kind) + (v << 20));
  return v;
}

void count_fault(const char* kind, u64 n) {
  Quiet q;
  int k = kind_id(kind);
  R->kinds[k].fired += n;
  R->kinds[k].decisions += n;
}

u64 faults_fired(const char* kind) {
  for (int i = 0; i < R->nkind; ++i)
    if (!strcmp(R->kinds[i].name, kind)) return R->kinds[i].fired;
  return 0;
}

void probe(const char* name) {
  for (int i = 0; i < R->nprobe; ++i)
    if (!strcmp(R->probes[i].name, name)) {
      R->probes[i].fired++;
      return;
    }
  if (R->nprobe >= MAXPROBE) return;
  snprintf(R->probes[R->nprobe].name, sizeof R->probes[0].name, "%s", name);
  R->probes[R->nprobe++].fired = 1;
}

void sig(u64 v) {
  u64 h = (R->sig ^ v) * 0x9E3779B97F4A7C15ull;
  R->sig = h ^ (h >> 31);
}
void sig_str(const std::string& s) {
  for (unsigned char c : s) sig(c);
}

void event(const char* fmt, ...) {
  Quiet   q;
  char    b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  ++g_evseq;
  for (char* p = b; *p; ++p) hash_mix((unsigned char)*p);
  hash_mix(0x10);
  if (g_trace) fprintf(stderr, "%6llu t=%.3fms %s\n", (unsigned long long)g_evseq, now_ns() / 1e6, b);
}

__attribute__((noreturn)) void fail(const char* cls, const char* fmt, ...) {
  ++g_quiet;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  for (char* p = R->cls; *p; ++p) hash_mix((unsigned char)*p);
  if (g_trace) fprintf(stderr, "VIOLATED [%s] %s\n", R->cls, R->msg);
  finish(2);
}

// a violation that only concerns the checks that own its class: others are told with cfg x_<class>
void sfail(const char* cls, const char* fmt, ...) {
  Quiet q;
  if (g_plan.get((std::string("x_") + cls).c_str())) {
    event("(not this property: %s)", cls);
    return;
  }
  char    b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fail(cls, "%s", b);
}

const std::string& scratch() {
  Quiet q;
  if (!g_scratch_made) {
    g_scratch_made = true;
    mkdir(g_scratch_dir.c_str(), 0700);
  }
  return g_scratch_dir;
}

// ---------------------------------------------------------------------------------------------- driver
namespace {

void rm_rf(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rm_rf(p);
    else
      unlink(p.c_str());
  }
  closedir(dir);
  rmdir(d.c_str());
}

void crash_handler(int sig_, siginfo_t* si, void*) {
  // the limit of real time is counted in ticks: when the whole machine stands still for a while, that is one tick
  static int ticks = 0;
  if (sig_ == SIGALRM && ++ticks < 6) {
    alarm(10);
    return;
  }
  ++g_quiet;
  if (sig_ == SIGALRM || sig_ == SIGPROF) {
    snprintf(R->cls, sizeof R->cls, "hang");
    snprintf(R->msg, sizeof R->msg, "no simulation step for a long time: the code under test does not return (uninstrumented endless loop)");
  } else {
    const char* n = sig_ == SIGSEGV ? "SIGSEGV" : sig_ == SIGBUS ? "SIGBUS" : sig_ == SIGFPE ? "SIGFPE" : sig_ == SIGABRT ? "SIGABRT" : "SIGILL";
    if (R->cls[0] == 0) {
      snprintf(R->cls, sizeof R->cls, "crash-%s", n);
      snprintf(R->msg, sizeof R->msg, "the process died with %s", n);
    }
  }
  (void)si;
  if (g_trace) fprintf(stderr, "VIOLATED [%s] %s\n", R->cls, R->msg);
  finish(2);
}

void on_terminate() {
  ++g_quiet;
  std::string what = "no active exception";
  if (std::type_info* t = abi::__cxa_current_exception_type()) {
    int   st;
    char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
    what    = d ? d : t->name();
    try {
      throw;
    } catch (std::exception& e) {
      what += std::string(": ") + e.what();
    } catch (...) {
    }
  }
  snprintf(R->cls, sizeof R->cls, "terminate");
  snprintf(R->msg, sizeof R->msg, "std::terminate called (%s)", what.c_str());
  if (g_trace) fprintf(stderr, "VIOLATED [%s] %s\n", R->cls, R->msg);
  finish(2);
}

typedef std::vector<Dev> Devs;  // with names table
struct NamedDev {
  std::string kind;
  u64         idx, val;
};

struct RunOut {
  int         status;
  std::string cls, msg;
  u64         hash, steps, simns, sig, switches;
  bool        overflow;
  std::vector<NamedDev> devs;
};

int g_errfd = -1;

RunOut run_once(Scenario* sc, const Plan& plan, bool replay, u64 seed, const std::vector<NamedDev>* devs, bool trace = false,
                bool want_devs = true) {
  // prepare shared page
  memset(R, 0, offsetof(Result, dev));
  R->hash = 0xcbf29ce484222325ull;
  if (ftruncate(g_errfd, 0)) {}
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(4);
  }
  if (pid == 0) {
    if (!trace) {
      dup2(g_errfd, 2);
      lseek(2, 0, SEEK_SET);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_plan.ops = plan.ops;
    g_plan.ops.shrink_to_fit();
    g_plan.cfg.clear();
    for (auto& c : plan.cfg) g_plan.cfg.insert(c);  // same tree shape whatever the history of the map
    g_replay = replay;
    g_trace  = trace;
    g_rng    = Rng(seed ^ 0x5DEECE66Dull);
    g_faults = true;
    kind_id("sched");
    kind_id("stall");
    if (devs)
      for (auto& d : *devs) {
        int k = kind_id(d.kind.c_str());
        if (k == 0)
          g_sched_devs.push_back({d.idx, d.val});
        else if (k == 1)
          g_stall_devs.push_back({d.idx, d.val});
        else
          g_devmap[((u64)k << 48) | d.idx] = d.val;
      }
    for (int i = 0; i < MAXKIND; ++i) g_kidx[i] = 0;
    static char altstack[65536];
    stack_t     ss = {};
    ss.ss_sp       = altstack;
    ss.ss_size     = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction     = crash_handler;
    sa.sa_flags         = SA_SIGINFO | SA_ONSTACK | SA_RESTART;
#ifdef SIM_ASAN
    int sigs[] = {SIGALRM, SIGPROF, SIGABRT};
#else
    int sigs[] = {SIGALRM, SIGPROF, SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL};
#endif
    for (int s : sigs) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    alarm(10);
    struct itimerval busy = {{0, 0}, {15, 0}};  // of processor time
    setitimer(ITIMER_PROF, &busy, nullptr);
    g_in_run = true;
    auto body = [&] { sc->run(g_plan); };
    try {
      run_world(body);
    } catch (std::exception& e) {
      fail("harness-exception", "unexpected exception out of the workload: %s", e.what());
    }
    finish(1);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  rm_rf(g_scratch_dir);
  RunOut o;
  o.status = R->status;
  o.cls    = R->cls;
  o.msg    = R->msg;
  if (R->status != 1 && R->status != 2 && R->status != 3) {
    o.status = 2;
    char b[100];
    // sanitizer or signal
    std::string text;
    {
      char    buf[60000];
      ssize_t n = pread(g_errfd, buf, sizeof buf - 1, 0);
      if (n > 0) text.assign(buf, n);
    }
    std::string line;
    std::istringstream is(text);
    std::string rep;
    int         keep = 0;
    while (std::getline(is, line)) {
      if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error:") != std::string::npos) keep = 14;
      if (keep > 0) {
        if (line.compare(0, 2, "==") == 0 && line.find("==", 2) != std::string::npos) line = line.substr(line.find("==", 2) + 2);  // the process id
        rep += line + "\n";
        --keep;
      }
    }
    if (rep.find("AddressSanitizer") != std::string::npos)
      o.cls = "memory-error";
    else if (rep.find("runtime error") != std::string::npos)
      o.cls = "undefined-behaviour";
    else if (WIFSIGNALED(st)) {
      snprintf(b, sizeof b, "killed-by-signal-%d", WTERMSIG(st));
      o.cls = b;
    } else {
      snprintf(b, sizeof b, "exited-%d", WEXITSTATUS(st));
      o.cls = b;
    }
    o.msg = rep.empty() ? "the process of the run ended: " + o.cls + " " + text.substr(0, 500) : rep;
    // addresses differ between processes: the class, not the text, goes in the hash
    for (char c : o.cls) hash_mix((unsigned char)c);
  }
  o.hash     = R->hash;
  o.steps    = R->steps;
  o.simns    = R->simns;
  o.sig      = R->sig;
  o.switches = R->switches;
  o.overflow = R->dev_overflow;
  if (want_devs && o.status == 2)
    for (uint32_t i = 0; i < R->ndev; ++i) o.devs.push_back({R->kinds[R->dev[i].kind].name, R->dev[i].idx, R->dev[i].val});
  return o;
}

std::string one_line(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '\r' || c == '\t') c = ' ';
  return s;
}

void write_replay(const std::string& path, Scenario* sc, u64 seed, const Plan& p, const std::vector<NamedDev>& devs, const RunOut& o,
                  const std::string& extra) {
  std::ofstream f(path);
  f << "# deterministic simulation replay: run  <binary> replay <this file>\n";
  f << "scenario " << sc->name << "\nseed " << seed << "\nclass " << o.cls << "\nhash " << std::hex << o.hash << std::dec << "\n";
  f << "# " << one_line(o.msg) << "\n";
  f << "# " << extra << "\n";
  for (auto& c : p.cfg) f << "cfg " << c.first << " " << c.second << "\n";
  for (auto& op : p.ops) {
    f << "op";
    for (int v : op.v) f << " " << v;
    f << "\n";
  }
  for (auto& d : devs) f << "dev " << d.kind << " " << d.idx << " " << d.val << "\n";
}

bool read_replay(const std::string& path, std::string& scn, u64& seed, std::string& cls, u64& hash, Plan& p, std::vector<NamedDev>& devs) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    std::string        k;
    is >> k;
    if (k == "scenario")
      is >> scn;
    else if (k == "seed")
      is >> seed;
    else if (k == "class")
      is >> cls;
    else if (k == "hash")
      is >> std::hex >> hash >> std::dec;
    else if (k == "cfg") {
      std::string n;
      i64         v;
      is >> n >> v;
      p.cfg[n] = v;
    } else if (k == "op") {
      Op o;
      for (int& v : o.v) is >> v;
      p.ops.push_back(o);
    } else if (k == "dev") {
      NamedDev d;
      is >> d.kind >> d.idx >> d.val;
      devs.push_back(d);
    }
  }
  return true;
}

double wall() {
  struct timespec ts;
  syscall(228 /*clock_gettime*/, 1, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

Scenario* find(const std::string& n) {
  for (auto* s : registry())
    if (n == s->name) return s;
  fprintf(stderr, "no scenario %s\n", n.c_str());
  exit(4);
}

// ddmin-like reduction
struct Minimiser {
  Scenario*             sc;
  std::string           cls;
  Plan                  plan;
  std::vector<NamedDev> devs;
  u64                   seed;
  int                   runs = 0;
  double                deadline;
  RunOut                last;

  bool over() const { return wall() > deadline || runs > 3000; }
  bool test(const Plan& p, const std::vector<NamedDev>& d) {
    ++runs;
    RunOut o = run_once(sc, p, true, 0, &d);
    if (o.status == 2 && o.cls == cls) {
      last = o;
      return true;
    }
    return false;
  }
  template <class V, class F>
  void reduce(V& items, F test_with) {
    size_t n = 2;
    while (!items.empty() && !over()) {
      if (n > items.size()) n = items.size();
      size_t chunk   = (items.size() + n - 1) / n;
      bool   reduced = false;
      for (size_t s = 0; s < items.size() && !over(); s += chunk) {
        V cand;
        cand.insert(cand.end(), items.begin(), items.begin() + s);
        if (s + chunk < items.size()) cand.insert(cand.end(), items.begin() + s + chunk, items.end());
        if (test_with(cand)) {
          items   = cand;
          reduced = true;
          break;
        }
      }
      if (reduced) {
        n = n > 2 ? n - 1 : 2;
        continue;
      }
      if (n >= items.size()) break;
      n *= 2;
    }
  }
  void go() {
    // the effective deviations may be fewer than the logged ones
    for (int round = 0; round < 3 && !over(); ++round) {
      size_t before = plan.ops.size() + devs.size();
      reduce(devs, [&](const std::vector<NamedDev>& d) { return test(plan, d); });
      std::vector<Op> ops = plan.ops;
      reduce(ops, [&](const std::vector<Op>& o) {
        Plan p = plan;
        p.ops  = o;
        if (test(p, devs)) {
          plan = p;
          return true;
        }
        // the schedule moved: search a few fresh ones
        for (u64 s = 1; s <= 6 && !over(); ++s) {
          ++runs;
          RunOut r = run_once(sc, p, false, seed * 7919 + s, nullptr);
          if (r.status == 2 && r.cls == cls && !r.overflow && r.devs.size() < 3000) {
            if (test(p, r.devs)) {
              devs = r.devs;
              plan = p;
              return true;
            }
          }
        }
        return false;
      });
      if (plan.ops.size() + devs.size() == before) break;
    }
    // configuration: drop fault rates that no longer matter
    Plan p = plan;
    for (auto& c : p.cfg)
      if (c.first.compare(0, 2, "f_") == 0 && c.second) {
        bool used = false;
        for (auto& d : devs)
          if ("f_" + d.kind == c.first) used = true;
        if (!used) c.second = 0;
      }
    if (test(p, devs)) plan = p;
    // final state
    ++runs;
    last = run_once(sc, plan, true, 0, &devs);
  }
};

struct Agg {
  std::map<std::string, std::pair<u64, u64>> kinds;
  std::map<std::string, u64>                 probes;
};

void jesc(std::ostream& o, const std::string& s) {
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      o << '\\' << c;
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o << b;
    } else
      o << c;
  }
  o << '"';
}

std::string plan_text(Scenario* sc, const Plan& p) {
  std::ostringstream o;
  o << sc->name << " {";
  for (auto& c : p.cfg)
    if (c.first.compare(0, 2, "x_")) o << c.first << "=" << c.second << " ";
  o << "} ops=" << p.ops.size() << " [";
  int n = 0;
  for (auto& op : p.ops) {
    if (n++ == 10) {
      o << "...";
      break;
    }
    o << "(";
    for (int i = 0; i < 6; ++i) o << (i ? "," : "") << op.v[i];
    o << ")";
  }
  o << "]";
  return o.str();
}

int explore(const std::vector<std::string>& names, u64 base, u64 start, u64 count, u64 stride, double max_s, const std::string& outdir,
            const std::string& tag, bool determinism, const std::set<std::string>& known, const std::set<std::string>& ignored) {
  std::vector<Scenario*> scs;
  for (auto& n : names) {
    Scenario* s = find(n);
    for (int i = 0; i < s->weight; ++i) scs.push_back(s);
  }
  double   t0 = wall();
  Agg      agg;
  u64      runs = 0, steps_ = 0, simns = 0, switches = 0, inconcl = 0, nondet = 0, overflow = 0, known_hits = 0;
  std::set<u64>            sigs;
  std::vector<std::string> samples;
  std::map<std::string, u64> per;
  std::vector<std::string> found, known_found;
  std::string              error;
  int                      unstable = 0;
  for (u64 i = start; i < count; i += stride) {
    if (wall() - t0 > max_s) break;
    u64       seed = Rng(base * 0x9E3779B97F4A7C15ull + i).next();
    Scenario* sc   = scs[i % scs.size()];
    Plan      p;
    Rng       gr(seed);
    sc->gen(gr, p);
    for (auto& x : ignored) p.cfg["x_" + x] = 1;
    RunOut o = run_once(sc, p, false, seed, nullptr);
    ++runs;
    per[sc->name]++;
    steps_ += o.steps;
    simns += o.simns;
    switches += o.switches;
    for (int k = 0; k < R->nkind; ++k) {
      auto& a = agg.kinds[R->kinds[k].name];
      a.first += R->kinds[k].decisions;
      a.second += R->kinds[k].fired;
    }
    for (int k = 0; k < R->nprobe; ++k) agg.probes[R->probes[k].name] += R->probes[k].fired;
    u64 s = o.sig;
    for (const char* c = sc->name; *c; ++c) s = s * 131 + *c;
    sigs.insert(s);
    if (o.status == 3) ++inconcl;
    if (samples.size() < 2 && (runs % 7 == 3 || runs == 1)) samples.push_back(plan_text(sc, p));
    if (determinism) {
      RunOut o2 = run_once(sc, p, false, seed, nullptr);
      if ((o2.hash != o.hash || o2.status != o.status) && o.cls != "hang" && o2.cls != "hang") {
        ++nondet;
        fprintf(stderr, "NONDETERMINISM scenario=%s seed=%llu hash %llx %llx (%s | %s)\n", sc->name, (unsigned long long)seed,
                (unsigned long long)o.hash, (unsigned long long)o2.hash, o.cls.c_str(), o2.cls.c_str());
      }
    }
    if (o.status == 2) {
      // gate: the same seed again, the decision log, then minimise
      fprintf(stderr, "violation candidate scenario=%s seed=%llu class=%s: %s\n", sc->name, (unsigned long long)seed, o.cls.c_str(),
              o.msg.c_str());
      RunOut o2 = run_once(sc, p, false, seed, nullptr);
      if (o.cls == "hang" && o2.status != 2) continue;  // the machine, not the code: the limit of real time is not simulated
      if (o2.status != 2 || o2.cls != o.cls || o2.hash != o.hash) {
        error = "same seed gave a different run: scenario " + std::string(sc->name) + " seed " + std::to_string(seed) + " " + o.cls + "/" + o2.cls;
        if (++unstable > 20) break;
        continue;
      }
      if (o.overflow) {
        ++overflow;
        continue;
      }
      RunOut o3 = run_once(sc, p, true, 0, &o.devs);
      if (o3.status != 2 || o3.cls != o.cls || o3.hash != o.hash) {
        error = "the decision log did not reproduce the run: scenario " + std::string(sc->name) + " seed " + std::to_string(seed) + " " + o.cls +
                "/" + o3.cls;
        if (++unstable > 20) break;
        continue;
      }
      Minimiser m;
      m.sc       = sc;
      m.cls      = o.cls;
      m.plan     = p;
      m.devs     = o.devs;
      m.seed     = seed;
      m.last     = o3;
      m.deadline = wall() + 45;
      m.go();
      if (m.last.status != 2) {
        m.plan = p;
        m.devs = o.devs;
        m.last = o3;
      }
      std::string path = outdir + "/" + tag + "." + sc->name + "." + std::to_string(seed) + ".replay";
      std::ostringstream ex;
      ex << "minimised from " << p.ops.size() << " operations and " << o.devs.size() << " decisions to " << m.plan.ops.size() << " and "
         << m.devs.size() << " in " << m.runs << " runs";
      write_replay(path, sc, seed, m.plan, m.devs, m.last, ex.str());
      std::string key = std::string(sc->name) + "/" + m.last.cls;
      if (known.count(key)) {
        ++known_hits;
        if (known_found.size() < 8) known_found.push_back(path);
        continue;
      }
      found.push_back(path);
      break;
    }
  }
  double        dt = wall() - t0;
  std::string   sp = outdir + "/" + tag + ".w" + std::to_string(start) + ".sigs";
  std::ofstream sf(sp, std::ios::binary);
  for (u64 s : sigs) sf.write((const char*)&s, 8);
  sf.close();
  std::ostringstream o;
  o << "{\"runs\":" << runs << ",\"steps\":" << steps_ << ",\"sim_ns\":" << simns << ",\"switches\":" << switches
    << ",\"inconclusive\":" << inconcl << ",\"nondet\":" << nondet << ",\"overflow\":" << overflow << ",\"known_hits\":" << known_hits
    << ",\"wall\":" << dt << ",\"distinct\":" << sigs.size() << ",\"sigs\":";
  jesc(o, sp);
  o << ",\"kinds\":{";
  bool first = true;
  for (auto& k : agg.kinds) {
    o << (first ? "" : ",");
    jesc(o, k.first);
    o << ":[" << k.second.first << "," << k.second.second << "]";
    first = false;
  }
  o << "},\"probes\":{";
  first = true;
  for (auto& k : agg.probes) {
    o << (first ? "" : ",");
    jesc(o, k.first);
    o << ":" << k.second;
    first = false;
  }
  o << "},\"per\":{";
  first = true;
  for (auto& k : per) {
    o << (first ? "" : ",");
    jesc(o, k.first);
    o << ":" << k.second;
    first = false;
  }
  o << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) {
    o << (i ? "," : "");
    jesc(o, samples[i]);
  }
  o << "],\"violations\":[";
  for (size_t i = 0; i < found.size(); ++i) {
    o << (i ? "," : "");
    jesc(o, found[i]);
  }
  o << "],\"known\":[";
  for (size_t i = 0; i < known_found.size(); ++i) {
    o << (i ? "," : "");
    jesc(o, known_found[i]);
  }
  o << "],\"error\":";
  jesc(o, error);
  o << "}";
  printf("%s\n", o.str().c_str());
  fflush(stdout);
  if (!error.empty()) return 4;
  return found.empty() ? 0 : 1;
}

}  // namespace

}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // identical address space in every process: no ASLR
  if (!getenv("SIM_NOASLR_DONE")) {
    setenv("SIM_NOASLR_DONE", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  std::vector<std::string>           pos;
  for (int i = 1; i < argc; ++i) {
    std::string s = argv[i];
    if (s.compare(0, 2, "--") == 0) {
      size_t e = s.find('=');
      if (e == std::string::npos)
        a[s.substr(2)] = "1";
      else
        a[s.substr(2, e - 2)] = s.substr(e + 1);
    } else
      pos.push_back(s);
  }
  in::R = (in::Result*)mmap(nullptr, sizeof(in::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sim::g_errfd = memfd_create("simerr", 0);
  std::string sb = a.count("scratch") ? a["scratch"] : std::string("/dev/shm/alexsim.manual");
  mkdir(sb.c_str(), 0700);
  in::g_scratch_base = sb;
  in::g_scratch_dir  = sb + "/w" + (a.count("start") ? (a["start"].size() < 2 ? "0" + a["start"] : a["start"]) : "00");
  // always the same length, wherever it lies: the length of a path decides the size of allocations, and with it addresses
  if (in::g_scratch_dir.size() < 79) in::g_scratch_dir.resize(79, '_');
  sim::rm_rf(in::g_scratch_dir);
  auto num = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
  if (a.count("cpu")) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(num("cpu", 0), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
  }
  if (pos.empty()) {
    for (auto* s : in::registry()) printf("%s: %s\n", s->name, s->what);
    return 0;
  }
  if (pos[0] == "explore" || pos[0] == "determinism") {
    std::vector<std::string> names;
    std::stringstream        ss(a["scenarios"]);
    std::string              t;
    while (std::getline(ss, t, ',')) names.push_back(t);
    std::set<std::string> known;
    std::stringstream     ks(a["known"]);
    while (std::getline(ks, t, ',')) known.insert(t);
    std::set<std::string> ignored;
    std::stringstream     is(a["ignore"]);
    while (std::getline(is, t, ',')) ignored.insert(t);
    std::string out = a.count("out") ? a["out"] : ".";
    int rc = sim::explore(names, num("seed", 1), num("start", 0), num("count", 1000), num("stride", 1),
                        a.count("max-s") ? atof(a["max-s"].c_str()) : 1e9, out, a.count("tag") ? a["tag"] : "x", pos[0] == "determinism", known, ignored);
    return rc;
  }
  if (pos[0] == "replay" && pos.size() > 1) {
    std::string           scn, cls;
    u64                   seed = 0, hash = 0;
    Plan                  p;
    std::vector<sim::NamedDev> devs;
    if (!sim::read_replay(pos[1], scn, seed, cls, hash, p, devs)) {
      fprintf(stderr, "cannot read %s\n", pos[1].c_str());
      return 4;
    }
    auto o = sim::run_once(sim::find(scn), p, true, 0, &devs, a.count("trace"));
    printf("scenario=%s class=%s hash=%llx expected class=%s hash=%llx\n%s\n", scn.c_str(), o.status == 2 ? o.cls.c_str() : "none",
           (unsigned long long)o.hash, cls.c_str(), (unsigned long long)hash, o.msg.c_str());
    if (o.status == 2 && o.cls == cls && (o.hash == hash)) return 1;
    return o.status == 2 ? 5 : 0;
  }
  if (pos[0] == "one") {
    Scenario* sc = sim::find(a["scenario"]);
    u64       seed = num("seed", 1);
    Plan      p;
    Rng       gr(seed);
    sc->gen(gr, p);
    printf("%s\n", sim::plan_text(sc, p).c_str());
    auto o = sim::run_once(sc, p, false, seed, nullptr, true);
    printf("status=%d class=%s hash=%llx steps=%llu sim=%.3fms %s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash,
           (unsigned long long)o.steps, o.simns / 1e6, o.msg.c_str());
    return 0;
  }
  return 4;
}
