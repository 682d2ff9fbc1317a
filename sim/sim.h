// Deterministic simulation core: seeded choices, replayable decision log, events, faults, runs.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t  i64;

// ------------------------------------------------------------------ PRNG
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z     = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64  below(u64 n) { return n ? next() % n : 0; }
  i64  range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(u64 num, u64 den) { return below(den) < num; }
};

// ------------------------------------------------------------------ plan: the workload of a run
struct Op {
  int v[8];
  Op(int k = 0, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0, int f = 0, int g = 0) : v{k, a, b, c, d, e, f, g} {}
  int kind() const { return v[0]; }
};

struct Plan {
  std::map<std::string, i64> cfg;
  std::vector<Op>            ops;
  i64 get(const char* k, i64 d = 0) const {
    auto i = cfg.find(k);
    return i == cfg.end() ? d : i->second;
  }
};

struct Scenario {
  const char* name;
  const char* what;
  std::function<void(Rng&, Plan&)> gen;
  std::function<void(const Plan&)> run;
  bool threaded;
  int  weight;
  Scenario(const char* n, const char* w, bool th, int weight_, std::function<void(Rng&, Plan&)> g, std::function<void(const Plan&)> r);
};

// ------------------------------------------------------------------ inside a run
// A fault decision: default "no". kind is a short literal, counted in the evidence when it fires.
// It can only fire while faults are enabled and only if the plan enables the kind (cfg "f_<kind>" = rate per 1000).
bool fault(const char* kind);
// A value decision: default 0, uniform below n otherwise.
u64 pick(const char* kind, u64 n);
// count a fault that was placed by the plan itself (an op), not by a decision
void count_fault(const char* kind, u64 n = 1);
// how often a kind fired so far in this run
u64  faults_fired(const char* kind);
void enable_faults(bool on);
bool faults_enabled();
// Report a violation; does not return.
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Report a violation of a class that only some of the checks running this scenario own; returns where it is not owned.
void sfail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Append to the event log (hashed always, printed in trace mode)
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// rare-condition probe
void probe(const char* name);
// mix value in the distinct-state signature of the run
void sig(u64 v);
void sig_str(const std::string& s);
u64  steps();
u64  event_seq();
// simulated time in nanoseconds (0 for single-thread flavours unless advanced)
u64  now_ns();
void add_sim_ns(u64 ns);
const Plan& plan();
bool        tracing();
// scratch directory of this run (exists, empty, removed after the run)
const std::string& scratch();

struct NoFaults {
  bool old;
  NoFaults() : old(faults_enabled()) { enable_faults(false); }
  ~NoFaults() { enable_faults(old); }
};

// RAII: code in the simulator or the oracle: not instrumented decisions, allocations not failed
struct Quiet {
  Quiet();
  ~Quiet();
};

}  // namespace sim
