// The configuration manager: life cycles with failing configurations, and identifiers drawn by several threads from a clock that is set.
#include "../sim/simthr.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/Configuration.h"
#include "Configuration/Utils.h"
#include "ElementsKernel/Exception.h"
#include <boost/program_options.hpp>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

using namespace sim;
namespace EC = Euclid::Configuration;
namespace po = boost::program_options;

namespace simcfg {
const int N = 6;
struct HookError : std::runtime_error {
  int id;
  explicit HookError(int i) : std::runtime_error("simulated failure"), id(i) {}
};
struct Ev {
  int phase, conf;  // 0 pre, 1 init, 2 post
};
// the oracle's view of one manager; one manager is used by one thread
struct World {
  bool              edge[N][N];   // declared by the constructors
  bool              hooks_fail = false, threaded = false;
  int               alive[N], built[N];
  std::vector<Ev>   log;
  bool              thrown = false;
  EC::ConfigManager* m = nullptr;
  World() {
    memset(edge, 0, sizeof edge);
    memset(alive, 0, sizeof alive);
    memset(built, 0, sizeof built);
  }
};
std::map<long, World*>* g_worlds;
World& world(long id) {
  Quiet q;
  return *g_worlds->at(id);
}
void may_throw(World& w, int conf, const char* what) {
  if (w.hooks_fail && fault("hook_failure")) {
    {
      Quiet q;
      w.thrown = true;
      event("%s of configuration %d throws", what, conf);
    }
    throw HookError(conf);
  }
}
template <int I> struct Conf;
template <int I, int J> struct Declare {
  static void all(Conf<I>& c, World& w) {
    Declare<I, J - 1>::all(c, w);
    if (w.edge[I][J - 1]) c.template dep<J - 1>();
  }
};
template <int I> struct Declare<I, 0> {
  static void all(Conf<I>&, World&) {}
};
template <int I> struct Conf : EC::Configuration {
  long id;
  int  value = 0;
  explicit Conf(long m) : EC::Configuration(m), id(m) {
    World& w = world(m);
    if (I % 2) may_throw(w, I, "the constructor");
    Declare<I, N>::all(*this, w);
    if (I % 2 == 0) may_throw(w, I, "the constructor");
    Quiet q;
    ++w.built[I];
    if (++w.alive[I] > 1) fail("two-instances", "a manager has two configurations of the same type");
  }
  ~Conf() {
    Quiet q;
    if (g_worlds) --world(id).alive[I];
  }
  template <int J> void dep() { declareDependency<Conf<J>>(); }
  template <int J> void check_dep(World& w) {
    if (!w.edge[I][J] || !w.alive[J]) return;  // not alive: a dependency whose registration failed
    auto& d = getDependency<Conf<J>>();
    if (d.id != id || d.getCurrentState() < EC::Configuration::State::INITIALIZED) fail("order", "configuration %d is initialized before its dependency %d", I, J);
    if (d.value != 1000 + J) fail("order", "the dependency %d of configuration %d has no value yet", J, I);
  }
  std::map<std::string, OptionDescriptionList> getProgramOptions() override {
    may_throw(world(id), I, "getProgramOptions");
    return {{"group " + std::to_string(I % 2), {po::option_description(("opt-" + std::to_string(I)).c_str(), po::value<int>(), "about")}}};
  }
  void preInitialize(const UserValues& u) override { step(0, u); }
  void initialize(const UserValues& u) override {
    World& w = world(id);
    check_dep<0>(w), check_dep<1>(w), check_dep<2>(w), check_dep<3>(w), check_dep<4>(w), check_dep<5>(w);
    step(1, u);
    value = 1000 + I;
  }
  void postInitialize(const UserValues& u) override { step(2, u); }
  void step(int phase, const UserValues& u) {
    World& w = world(id);
    if (u.size() != 1 || u.begin()->first != "x") fail("wrong-values", "a configuration gets other user values");
    may_throw(w, I, phase == 0 ? "preInitialize" : phase == 1 ? "initialize" : "postInitialize");
    Quiet q;
    typedef EC::Configuration::State S;
    if ((phase == 1 && getCurrentState() != S::PRE_INITIALIZED) || (phase == 2 && getCurrentState() != S::INITIALIZED))
      fail("order", "configuration %d is in state %d when it is %s", I, (int)getCurrentState(), phase == 1 ? "initialized" : "post-initialized");
    w.log.push_back({phase, I});
  }
};
template <int K> struct On {  // run time to compile time
  static void reg(EC::ConfigManager& m, int i) { i == K ? m.registerConfiguration<Conf<K>>() : On<K - 1>::reg(m, i); }
  template <int I> static void dep2(EC::ConfigManager& m, int j) { j == K ? m.registerDependency<Conf<I>, Conf<K>>() : On<K - 1>::template dep2<I>(m, j); }
  static void dep(EC::ConfigManager& m, int i, int j) { i == K ? On<N - 1>::template dep2<K>(m, j) : On<K - 1>::dep(m, i, j); }
  static std::pair<long, int> get(EC::ConfigManager& m, int i) {
    if (i != K) return On<K - 1>::get(m, i);
    auto& c = m.getConfiguration<Conf<K>>();
    if (c.getCurrentState() != EC::Configuration::State::FINAL) fail("order", "a configuration is given away in state %d", (int)c.getCurrentState());
    return {c.id, c.value};
  }
};
template <> struct On<-1> {
  static void reg(EC::ConfigManager&, int) {}
  template <int I> static void dep2(EC::ConfigManager&, int) {}
  static void dep(EC::ConfigManager&, int, int) {}
  static std::pair<long, int> get(EC::ConfigManager&, int) { return {0, 0}; }
};
}  // namespace simcfg
using namespace simcfg;

namespace {
enum { REG = 1, DEP, CLOSE, INIT, GETC };
struct Model {
  bool reg[N], extra[N][N];
  int  state = 0;  // 0 registration, 1 closed, 2 initialized, 3 closing failed
  Model() {
    memset(reg, 0, sizeof reg);
    memset(extra, 0, sizeof extra);
  }
};
bool depends(const World& w, const Model& m, int i, int j) { return m.reg[i] && m.reg[j] && (w.edge[i][j] || m.extra[i][j]); }
bool cyclic(const World& w, const Model& m) {
  bool r[N][N];
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) r[i][j] = depends(w, m, i, j);
  for (int k = 0; k < N; ++k)
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j) r[i][j] |= r[i][k] && r[k][j];
  for (int i = 0; i < N; ++i)
    if (r[i][i]) return true;
  return false;
}
bool g_mem;  // run out of memory while registering
void life(const Plan& p, int who, EC::ConfigManager& m, World& w, bool faults) {
  Model x;
  bool  broken = false;
  po::variables_map                          vm;
  std::map<std::string, po::variable_value> values{{"x", po::variable_value(1, false)}};
  for (auto& o : p.ops) {
    if (o.v[7] % (int)p.get("threads", 1) != who) continue;
    int  i = o.v[1] % N, j = o.v[2] % N;
    bool thrown = false, hook = false, mem = false;
    std::string why;
    auto attempt = [&](const std::function<void()>& f) {
      w.thrown     = false;
      w.hooks_fail = faults && o.v[3];
      try {
        f();
      } catch (const HookError&) {
        thrown = hook = true;
      } catch (const std::bad_alloc&) {
        thrown = mem = true;
      } catch (const std::exception& e) {
        thrown = true;
        why    = e.what();
      }
      w.hooks_fail = false;
      if (hook != w.thrown) fail("swallowed-error", "the failure of a configuration %s", hook ? "was invented" : "did not reach the caller");
    };
    auto sync_model = [&] {  // registered: what was built completely
      for (int k = 0; k < N; ++k) x.reg[k] = w.alive[k] == 1;
    };
    switch (o.kind()) {
    case REG: {
      int before[N];
      memcpy(before, w.built, sizeof before);
      bool was[N];
      memcpy(was, x.reg, sizeof was);
      attempt([&] {
        if (g_mem && o.v[4]) enable_faults(true);
        try {
          On<N - 1>::reg(m, i);
        } catch (...) {
          if (g_mem) enable_faults(false);
          throw;
        }
        if (g_mem) enable_faults(false);
      });
      if (x.state != 0) {
        if (!thrown) fail("registered-late", "a configuration was registered after the registration was closed");
        break;
      }
      if (thrown && !hook && !mem) fail("refused", "registering failed: %s", why.c_str());
      sync_model();
      broken |= thrown && p.get("back");
      if (!thrown)
        for (int a = 0; a < N; ++a)
          for (int b = 0; b < N; ++b) {
            // a circle whose registration failed half way leaves the other half registered
            bool need = ((a == i && !(was[a] && broken)) || (x.reg[a] && !was[a])) && w.edge[a][b];
            if (need && !x.reg[b]) fail("lost-dependency", "the dependency %d of configuration %d is not registered", b, a);
          }
      if (!thrown && !x.reg[i]) fail("lost-dependency", "configuration %d is not registered", i);
      for (int k = 0; k < N; ++k)
        if (was[k] && w.built[k] != before[k]) fail("two-instances", "configuration %d was built again", k);
      break;
    }
    case DEP:
      attempt([&] { On<N - 1>::dep(m, i, j); });
      if (x.state != 0) {
        if (!thrown) fail("registered-late", "a dependency was registered after the registration was closed");
        break;
      }
      if (thrown) fail("refused", "registering a dependency failed: %s", why.c_str());
      if (i != j) x.extra[i][j] = true;
      else x.extra[i][i] = true;
      break;
    case CLOSE: {
      if (x.state >= 2) break;
      po::options_description od;
      std::set<std::string>   got, want;
      attempt([&] {
        auto d = m.closeRegistration();
        Quiet q;
        for (auto& s : d.options()) got.insert(s->long_name());
        if (d.options().size() != got.size()) fail("wrong-options", "an option is listed twice");
      });
      if (hook) {
        x.state = 1;
        if (cyclic(w, x)) x.state = 3;
        break;
      }
      if (cyclic(w, x)) {
        if (!thrown) fail("cycle-accepted", "a circular dependency was accepted");
        probe("circular dependency reported");
        x.state = 3;
        break;
      }
      if (thrown) fail("refused", "closing the registration failed: %s", why.c_str());
      for (int k = 0; k < N; ++k)
        if (x.reg[k]) want.insert("opt-" + std::to_string(k));
      if (got != want) fail("wrong-options", "%zu options are listed, %zu configurations have one", got.size(), want.size());
      x.state = 1;
      break;
    }
    case INIT: {
      if (x.state == 0 || x.state == 3) break;
      w.log.clear();
      attempt([&] { m.initialize(values); });
      if (thrown && !hook) fail("refused", "the initialization failed: %s", why.c_str());
      // what was done is a prefix of a correct order
      size_t n = 0, done[3] = {0, 0, 0};
      for (int k = 0; k < N; ++k) n += x.reg[k];
      std::set<int> seen[3];
      for (auto& e : w.log) {
        if (!seen[e.phase].insert(e.conf).second) fail("order", "phase %d of configuration %d was done twice", e.phase, e.conf);
        if (e.phase > 0 && done[e.phase - 1] != n) fail("order", "phase %d of configuration %d starts before the previous phase ended", e.phase, e.conf);
        if (e.phase == 1)
          for (int k = 0; k < N; ++k)
            if (depends(w, x, e.conf, k) && !seen[1].count(k)) fail("order", "configuration %d is initialized before its dependency %d", e.conf, k);
        ++done[e.phase];
      }
      if (!thrown && (done[0] != n || done[1] != n || done[2] != n)) fail("order", "%zu configurations of %zu were initialized", done[1], n);
      if (thrown) probe("initialization failed");
      x.state = thrown ? (x.state == 2 ? 4 : 1) : 2;
      if (x.state == 4) return;  // nothing is said about initializing again and failing
      break;
    }
    case GETC: {
      std::pair<long, int> r;
      attempt([&] { r = On<N - 1>::get(m, i); });
      bool should = x.state == 2 && x.reg[i];
      if (thrown && should) fail("refused", "a configuration can not be obtained: %s", why.c_str());
      if (!thrown && !should) fail(x.state == 2 ? "phantom-configuration" : "uninitialized", "a configuration is given away although the manager is not initialized or it is not registered");
      if (!thrown && (r.second != 1000 + i)) fail("wrong-configuration", "another configuration is returned");
      break;
    }
    }
    Quiet q;
    event("manager %d: operation %d(%d,%d) %s", who, o.kind(), i, j, thrown ? "error" : "ok");
    sig((u64)o.kind() * 64 + i * 8 + thrown);
  }
}
void gen_ops(Rng& r, Plan& p, int threads) {
  p.cfg["threads"] = threads;
  p.cfg["edges"]   = (i64)((r.chance(1, 3) ? r.next() | r.next() : r.next() & r.next()) & 0xfffffff);
  if (r.chance(1, 2)) p.cfg["perm"] = r.below(720);  // the order of the types is not that of the dependencies
  if (r.chance(1, 6)) p.cfg["back"] = r.range(1, N * N);  // a dependency that makes a circle, or on itself
  for (int t = 0; t < threads; ++t) {
    auto add = [&](int k) { p.ops.push_back(Op(k, (int)r.below(N), (int)r.below(N), r.chance(1, 2), r.chance(1, 2), 0, 0, t)); };
    int  n   = (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) add(REG);
    n = (int)r.below(4);
    for (int i = 0; i < n; ++i) add(r.chance(1, 4) ? GETC : DEP);
    n = (int)r.range(1, 2);
    for (int i = 0; i < n; ++i) add(CLOSE);
    if (r.chance(1, 4)) add(r.chance(1, 2) ? REG : DEP);
    n = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) add(INIT), add(GETC);
    n = (int)r.below(3);
    for (int i = 0; i < n; ++i) add(GETC);
  }
  if (r.chance(2, 3)) p.cfg["f_hook_failure"] = r.range(30, 250);
}
void edges(World& w, const Plan& p) {
  u64              e = (u64)p.get("edges"), c = (u64)p.get("perm");
  std::vector<int> left, at;
  for (int i = 0; i < N; ++i) left.push_back(i);
  for (int i = N; i > 0; c /= (u64)i, --i) at.push_back(left[c % (u64)i]), left.erase(left.begin() + (long)(c % (u64)i));
  for (int i = 0, b = 0; i < N; ++i)
    for (int j = i + 1; j < N; ++j, ++b) w.edge[at[i]][at[j]] = e >> b & 1;
  if (int b = (int)p.get("back")) w.edge[(b - 1) / N][(b - 1) % N] = true;
}
void run_life(const Plan& p) {
  g_mem = p.get("f_alloc") > 0;
  if (g_mem) enable_faults(false);
  World w;
  edges(w, p);
  std::map<long, World*> worlds{{77, &w}};
  g_worlds = &worlds;
  auto& m = EC::ConfigManager::getInstance(77);
  if (&m != &EC::ConfigManager::getInstance(77)) fail("two-managers", "the same identifier gives two managers");
  life(p, 0, m, w, !g_mem);
  g_worlds = nullptr;
}
void gen_life(Rng& r, Plan& p) {
  gen_ops(r, p, 1);
  if (r.chance(1, 3)) p.cfg["f_alloc"] = r.range(5, 100), p.cfg["f_hook_failure"] = 0;
}
Scenario s_life("cf_life", "the life of a configuration manager whose configurations fail", true, 2, gen_life, run_life);

void gen_thr(Rng& r, Plan& p) {
  gen_ops(r, p, (int)r.range(2, 3));
  p.cfg["f_hook_failure"] = 0;
  p.cfg["ids"]            = r.range(1, 4);
  if (r.chance(2, 3)) p.cfg["f_clock_jump"] = r.range(50, 600);
  if (r.chance(2, 3)) p.cfg["clock_tick_us"] = r.chance(1, 2) ? 1000 : 4000;
}
void run_thr(const Plan& p) {
  int                               n = (int)p.get("threads", 2);
  std::map<long, World*>            worlds;
  std::vector<std::unique_ptr<World>> own;
  std::vector<std::thread>          th;
  std::vector<std::vector<long>>    ids(n);
  for (int t = 0; t < n; ++t) own.emplace_back(new World()), edges(*own[t], p);
  g_worlds = &worlds;
  g_mem    = false;
  for (int t = 0; t < n; ++t)
    th.emplace_back([&, t] {
      for (int k = 0; k < (int)p.get("ids", 1); ++k) {
        long id = EC::getUniqueManagerId();
        Quiet q;
        event("identifier %d of thread %d", k, t);
        for (auto& v : ids)
          for (long o : v)
            if (o == id) fail("repeated-id", "the identifier of a manager was drawn twice");
        ids[t].push_back(id);
        worlds[id] = own[t].get();
      }
      long  id = ids[t].back();
      auto& m  = EC::ConfigManager::getInstance(id);
      life(p, t, m, *own[t], false);
      if (&m != &EC::ConfigManager::getInstance(id)) fail("two-managers", "the same identifier gives two managers");
    });
  for (auto& t : th) t.join();
  g_worlds = nullptr;
}
Scenario s_thr("cf_threads", "managers of several threads, with identifiers from a clock that is set", true, 1, gen_thr, run_thr);
}  // namespace
