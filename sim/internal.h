#pragma once
#include "sim.h"
#include <unordered_map>

namespace sim {
namespace in {

const int MAXKIND = 64, MAXPROBE = 64, MAXDEV = 120000;

struct Dev {
  uint32_t kind;
  uint32_t pad;
  u64      idx;
  u64      val;
};

struct KindStat {
  char name[28];
  u64  decisions, fired;
};

struct Result {
  int      status;  // 0 did not finish, 1 ok, 2 violation, 3 inconclusive (step budget in a non-liveness run)
  char     cls[96];
  char     msg[3000];
  u64      hash, steps, simns, sig, switches;
  int      nkind, nprobe;
  KindStat kinds[MAXKIND];
  KindStat probes[MAXPROBE];
  int      dev_overflow;
  uint32_t ndev;
  Dev      dev[MAXDEV];
};

extern Result* R;
extern bool    g_replay, g_trace;
extern Rng     g_rng;         // choices in explore mode
extern Plan    g_plan;

extern u64         g_kidx[MAXKIND];
extern u64         g_evseq;
extern bool        g_in_run;
extern std::string g_scratch_dir;

int  kind_id(const char* name);
void log_dev(int kind, u64 idx, u64 val);
bool replay_lookup(int kind, u64 idx, u64& val);
// sched deviations of a replay, ordered by step
struct SchedDev {
  u64 step, val;
};
extern std::vector<SchedDev> g_sched_devs, g_stall_devs;
void hash_mix(u64 v);
[[noreturn]] void finish(int status);  // ends the child
void fire(int kind);                   // count a fired fault

// provided by the threaded runtime (weak default in core: just call)
void run_world(const std::function<void()>& f);
extern int  g_quiet;

}  // namespace in
}  // namespace sim
