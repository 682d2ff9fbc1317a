// Threaded runtime of the simulator.
//
// The code under test is compiled with -fsanitize=thread, but this file (not libtsan) provides the __tsan_*
// entry points, the pthread/time functions and operator new/delete. Real threads are parked on futexes and
// exactly one of them runs at any time; at every synchronisation operation, atomic access and plain memory
// access the seeded scheduler may hand the baton to another thread. Time is virtual.
// On top: happens-before race detection (vector clocks), heap with no reuse (use-after-free, overflow),
// deadlock detection, no-progress detection, injected thread-creation and allocation failures, stalls,
// oversleeping timers and spurious wake-ups.
#include "internal.h"
#include "simthr.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace sim {
namespace in {

// ------------------------------------------------------------------ memory map
static const uintptr_t ARENA = 0x100000000000ull, HEAP_SZ = 512ull << 20, STACKS = ARENA + HEAP_SZ, STACK_SZ = 1ull << 20;
static const int       MAXTHR   = 24;
static const uintptr_t ARENA_SZ = HEAP_SZ + (MAXTHR + 1) * STACK_SZ;

struct Rec {
  uint32_t epoch;
  uint8_t  tid, mask, flags, used;  // flags: 1 write 2 atomic 4 free
  void*    pc;
};
struct Cell {
  Rec r[4];
};
static Cell*     g_cells  = nullptr;  // arena
static Cell*     g_gcells = nullptr;  // globals of the executable
static uint8_t*  g_valid  = nullptr;  // heap only: bytes valid in granule (0 none, 1..8) or 0xFD freed
static uintptr_t g_bump   = ARENA + 64;

static void init_memory() __attribute__((constructor(101)));
static void init_memory() {
  if (g_cells) return;
  void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA) {
    fprintf(stderr, "cannot map the arena\n");
    _exit(4);
  }
  g_cells = (Cell*)mmap(nullptr, ARENA_SZ / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_valid = (uint8_t*)mmap(nullptr, HEAP_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t gl = (&_end - &__data_start) / 8 + 2;
  g_gcells = (Cell*)mmap(nullptr, gl * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_cells == MAP_FAILED || g_valid == MAP_FAILED || g_gcells == MAP_FAILED) {
    fprintf(stderr, "cannot map shadow memory\n");
    _exit(4);
  }
}

// ------------------------------------------------------------------ threads
struct VC {
  uint32_t c[MAXTHR];
  void     join(const VC& o) {
    for (int i = 0; i < MAXTHR; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum State { RUN, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_RW, B_ONCE, B_SEM, DONE };
static const char* state_name[] = {"runnable", "waiting for a mutex", "waiting on a condition", "joining", "sleeping", "waiting for a rwlock", "waiting for once", "waiting for a semaphore", "done"};

struct Thread {
  int       id;
  State     st;
  void*     obj;
  u64       wake;  // ns, ~0 none
  bool      timed_out, spurious;
  int       fut;
  VC        vc;
  int       saved_quiet;
  u64       prio;
  void* (*fn)(void*);
  void*     arg;
  void*     ret;
  pthread_t handle;
  bool      detached;
  void*     stack[64];
  int       depth;
  const std::function<void()>* body;
};

static Thread  g_thr[MAXTHR];
static int     g_nthr = 0;
static Thread* g_cur  = nullptr;
static bool    g_on   = false;
static u64     g_step = 0, g_timeoff = 0, g_next = ~0ull, g_last_switch = 0, g_maxstep = 3000000;
static const u64 STEP_NS = 1000, FAIR = 4000;
static int     g_strategy = 0;  // 0 random, 1 pct
static u64     g_psync = 250, g_pmem = 0;  // per 1000 / per 100000
static u64     g_nextmem = ~0ull;
static u64     g_pct[16];
static int     g_npct = 0;
static u64     g_lowprio = 1000000;
static u64     g_hold    = 0;  // per mille: lowest priority after taking a mutex
static size_t  g_sdi = 0;
static bool    g_races = true;
static int     g_done_fut = 0;
static std::string* g_world_exc = nullptr;
static int     g_allow_leak_threads = 0;

struct Mtx {
  int owner;  // -1 none
  int rec;
  VC  vc;
};
struct Rw {
  int writer, readers;
  VC  vc, rvc;
};
template <class T>
struct Table {  // open addressing, never shrinks
  struct E {
    uintptr_t k;
    T         v;
  };
  E*     e = nullptr;
  size_t cap = 0, n = 0;
  T& get(void* p, bool& fresh) {
    if (n * 2 >= cap) grow();
    uintptr_t k = (uintptr_t)p;
    size_t    i = (k >> 2) * 0x9E3779B97F4A7C15ull >> 20 & (cap - 1);
    while (e[i].k && e[i].k != k) i = (i + 1) & (cap - 1);
    fresh = !e[i].k;
    if (fresh) {
      e[i].k = k;
      memset((void*)&e[i].v, 0, sizeof(T));
      ++n;
    }
    return e[i].v;
  }
  T* find(void* p) {
    if (!cap) return nullptr;
    uintptr_t k = (uintptr_t)p;
    size_t    i = (k >> 2) * 0x9E3779B97F4A7C15ull >> 20 & (cap - 1);
    while (e[i].k && e[i].k != k) i = (i + 1) & (cap - 1);
    return e[i].k ? &e[i].v : nullptr;
  }
  void grow() {
    size_t oc = cap;
    E*     oe = e;
    cap       = cap ? cap * 2 : 256;
    e         = (E*)calloc(cap, sizeof(E));
    for (size_t j = 0; j < oc; ++j)
      if (oe[j].k) {
        size_t i = (oe[j].k >> 2) * 0x9E3779B97F4A7C15ull >> 20 & (cap - 1);
        while (e[i].k) i = (i + 1) & (cap - 1);
        e[i] = oe[j];
      }
    free(oe);
  }
};
static Table<Mtx> g_mtx;
static Table<Rw>  g_rw;
static Table<VC>  g_avc;   // atomics
static Table<int> g_once;  // once / guards: 0 new, 1 running, 2 done
static VC         g_fence;

struct Rt {
  Rt() { ++g_quiet; }
  ~Rt() { --g_quiet; }
};

static u64 now() { return g_step * STEP_NS + g_timeoff; }

static std::string sym(void* pc) {
  Dl_info i;
  char    b[64];
  if (dladdr(pc, &i) && i.dli_sname) {
    int         st;
    char*       d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    free(d);
    size_t p = s.find('(');
    if (p != std::string::npos && p > 12) s = s.substr(0, p);
    if (s.size() > 110) s = s.substr(0, 110) + "..";
    return s;
  }
  snprintf(b, sizeof b, "%p", pc);
  return b;
}
static std::string where(Thread* t, void* pc = nullptr) {
  std::string s;
  if (pc) s = sym(pc);
  int n = 0;
  for (int i = t->depth - 1; i >= 0 && n < 6; --i, ++n) {
    if (i >= 64) continue;
    s += (s.empty() ? "" : " < ") + sym(t->stack[i]);
  }
  return s;
}

static void futex_wait(int* p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void futex_set(int* p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void switch_to(Thread* t) {
  if (t == g_cur) return;
  Thread* me     = g_cur;
  me->saved_quiet = g_quiet;
  g_cur          = t;
  g_last_switch  = g_step;
  R->switches++;
  hash_mix(0x5000 + t->id + (g_step << 8));
  if (g_trace && getenv("SIM_TRACE_SCHED")) fprintf(stderr, "      [sched] step %llu -> thread %d\n", (unsigned long long)g_step, t->id);
  g_quiet = t->saved_quiet;
  futex_set(&t->fut);
  if (me->st != DONE) futex_wait(&me->fut);
}

static void set_next() {
  u64 n = g_nextmem;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].wake != ~0ull && g_thr[i].st != DONE && g_thr[i].st != RUN) {
      u64 w = g_thr[i].wake <= g_timeoff ? g_step + 1 : (g_thr[i].wake - g_timeoff + STEP_NS - 1) / STEP_NS;
      if (w < n) n = w;
    }
  if (g_last_switch + FAIR < n) n = g_last_switch + FAIR;
  if (g_replay && g_sdi < g_sched_devs.size() && g_sched_devs[g_sdi].step < n) n = g_sched_devs[g_sdi].step;
  if (g_maxstep < n) n = g_maxstep;
  if (n <= g_step) n = g_step + 1;
  g_next = n;
}

static void draw_nextmem() {
  if (g_replay || g_strategy != 0 || g_pmem == 0) {
    g_nextmem = ~0ull;
    if (!g_replay && g_strategy == 1)
      for (int i = 0; i < g_npct; ++i)
        if (g_pct[i] > g_step && g_pct[i] < g_nextmem) g_nextmem = g_pct[i];
    return;
  }
  // geometric with mean 100000/pmem
  u64 mean  = 100000 / g_pmem;
  g_nextmem = g_step + 1 + g_rng.below(2 * mean + 1);
}

static void wake_due() {
  u64 t = now();
  for (int i = 0; i < g_nthr; ++i) {
    Thread& x = g_thr[i];
    if (x.st != RUN && x.st != DONE && x.wake <= t) {
      x.wake      = ~0ull;
      x.timed_out = true;
      x.st        = RUN;
    }
  }
}

[[noreturn]] static void deadlock() {
  std::string s = "no thread can run:";
  for (int i = 0; i < g_nthr; ++i) {
    Thread& x = g_thr[i];
    if (x.st == DONE) continue;
    s += " [thread " + std::to_string(i) + " " + state_name[x.st];
    if (x.st == B_MUTEX) {
      Mtx* m = g_mtx.find(x.obj);
      if (m) s += " held by thread " + std::to_string(m->owner);
    }
    s += " in " + where(&x) + "]";
  }
  fail("deadlock", "%s", s.c_str());
}

// kind: 0 plain memory, 1 sync, 2 yield, 3 current thread is blocked
static void schedule(int kind) {
  wake_due();
  if (g_step >= g_maxstep) {
    std::string s;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].st != DONE) s += " [thread " + std::to_string(i) + " " + state_name[g_thr[i].st] + " in " + where(&g_thr[i]) + "]";
    fail("no-progress", "the run did not end within %llu steps (%.1f ms simulated):%s", (unsigned long long)g_maxstep, now() / 1e6, s.c_str());
  }
  int run[MAXTHR], n = 0;
  for (;;) {
    n = 0;
    for (int d = 1; d <= g_nthr; ++d) {
      int i = (g_cur->id + d) % g_nthr;
      if (g_thr[i].st == RUN) run[n++] = i;
    }
    if (n) break;
    u64 w = ~0ull;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].st != DONE && g_thr[i].wake < w) w = g_thr[i].wake;
    if (w == ~0ull) deadlock();
    if (w > now()) g_timeoff += w - now();
    wake_due();
  }
  bool    cur_ok = g_cur->st == RUN;
  bool    forced = !cur_ok || kind == 2 || g_step >= g_last_switch + FAIR;
  int     def    = (forced || !cur_ok) ? run[0] : g_cur->id;  // run[] starts after the current thread
  int     pickd  = def;
  if (g_replay) {
    while (g_sdi < g_sched_devs.size() && g_sched_devs[g_sdi].step < g_step) ++g_sdi;
    if (g_sdi < g_sched_devs.size() && g_sched_devs[g_sdi].step == g_step) {
      int t = (int)g_sched_devs[g_sdi].val;
      if (t < g_nthr && g_thr[t].st == RUN) pickd = t;
      ++g_sdi;
    }
  } else if (g_strategy == 0) {
    bool doit = forced || (kind == 0) || (kind == 1 && g_rng.below(1000) < g_psync);
    if (kind == 0 && g_step < g_nextmem && !forced) doit = false;
    if (doit && n > 1) pickd = run[g_rng.below(n)];
    if (doit && kind == 2 && n > 1 && pickd == g_cur->id) pickd = run[0];
  } else {
    for (int i = 0; i < g_npct; ++i)
      if (g_pct[i] == g_step) g_cur->prio = --g_lowprio;
    if (g_step >= g_last_switch + FAIR || kind == 2) g_cur->prio = --g_lowprio;
    u64 best = 0;
    int bi   = -1;
    for (int i = 0; i < n; ++i)
      if (bi < 0 || g_thr[run[i]].prio > best) {
        best = g_thr[run[i]].prio;
        bi   = run[i];
      }
    pickd = bi;
  }
  if (g_step >= g_last_switch + FAIR) g_last_switch = g_step;
  if (pickd != def) log_dev(0, g_step, pickd);
  if (!g_replay && g_step >= g_nextmem) draw_nextmem();
  if (pickd != g_cur->id) {
    sig(g_cur->id * 64 + pickd + ((u64)kind << 20));
    switch_to(&g_thr[pickd]);
  }
  set_next();
}

static inline void mem_point() {
  if (++g_step >= g_next) {
    Rt r;
    schedule(0);
  }
}

static void sync_point(int kind = 1) {
  ++g_step;
  // a stalled thread: descheduled for a long (virtual) time at this very point
  if (faults_enabled()) {
    u64 dur = 0;
    if (g_replay) {
      for (auto& d : g_stall_devs)
        if (d.step == g_step) dur = d.val;
    } else {
      i64 rate = g_plan.get("f_stall", 0);
      if (rate > 0) {
        R->kinds[1].decisions++;
        if (g_rng.chance(rate, 10000)) dur = 1 + g_rng.below(40);
      }
    }
    if (dur) {
      log_dev(1, g_step, dur);
      fire(1);
      g_cur->st   = B_SLEEP;
      g_cur->wake = now() + dur * 1000000ull;
      set_next();
      schedule(3);
      return;
    }
  }
  schedule(kind);
}

static void block_cur(State s, void* obj, u64 wake = ~0ull) {
  g_cur->st        = s;
  g_cur->obj       = obj;
  g_cur->wake      = wake;
  g_cur->timed_out = false;
  ++g_step;
  set_next();
  schedule(3);
  g_cur->wake = ~0ull;
}

static void wake_all(State s, void* obj) {
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].st == s && g_thr[i].obj == obj) {
      g_thr[i].st   = RUN;
      g_thr[i].wake = ~0ull;
    }
}

// ------------------------------------------------------------------ race detection and heap checks
static inline bool in_heap(uintptr_t a) { return a - ARENA < HEAP_SZ; }

static void race_report(Rec& o, bool w, bool at, void* pc, uintptr_t a) {
  std::string s = std::string(w ? "write" : "read") + (at ? " (atomic)" : "") + " by thread " + std::to_string(g_cur->id) + " in " +
                  where(g_cur, pc) + " races with " + ((o.flags & 4) ? "deletion" : (o.flags & 1) ? "write" : "read") +
                  ((o.flags & 2) ? " (atomic)" : "") + " by thread " + std::to_string(o.tid) + " in " + sym(o.pc);
  (void)a;
  fail("data-race", "%s", s.c_str());
}

static void check_heap(uintptr_t a, unsigned sz, bool w, void* pc) {
  uint8_t   v   = 8;
  bool      bad = false;
  uintptr_t x   = a;
  unsigned  left = sz;
  while (left && !bad) {
    unsigned off = x & 7, n = left < 8 - off ? left : 8 - off;
    v   = g_valid[(x - ARENA) >> 3];
    bad = v == 0xFD || v < off + n;
    x += n;
    left -= n;
  }
  if (bad) {
    Rt          r;
    std::string s = std::string(w ? "write" : "read") + " of " + std::to_string(sz) + " bytes by thread " + std::to_string(g_cur->id) + " in " + where(g_cur, pc);
    fail(v == 0xFD ? "use-after-free" : "heap-overflow", "%s", s.c_str());
  }
}

static void record(Cell& c, uint8_t mask, bool w, bool at, bool fr, void* pc, uintptr_t a) {
  Thread*  t  = g_cur;
  uint32_t me = t->vc.c[t->id];
  Rec*     slot = nullptr;
  for (int i = 0; i < 4; ++i) {
    Rec& o = c.r[i];
    if (!o.used) {
      if (!slot) slot = &o;
      continue;
    }
    if (o.tid == t->id) {
      // subsumed by the new record?
      if (o.mask == mask && (w || !(o.flags & 1)) && ((o.flags & 2) != 0) == at) slot = &o;
      continue;
    }
    if ((o.mask & mask) && (w || (o.flags & 1)) && !(at && (o.flags & 2)) && o.epoch > t->vc.c[o.tid]) {
      Rt r;
      race_report(o, w, at, pc, a);
    }
  }
  if (!slot) {
    // evict: prefer own records, then records that happen before us
    for (int i = 0; i < 4 && !slot; ++i)
      if (c.r[i].tid == t->id && !(c.r[i].flags & 1)) slot = &c.r[i];
    for (int i = 0; i < 4 && !slot; ++i)
      if (c.r[i].epoch <= t->vc.c[c.r[i].tid]) slot = &c.r[i];
    if (!slot) slot = &c.r[g_step & 3];
  }
  slot->used  = 1;
  slot->epoch = me;
  slot->tid   = t->id;
  slot->mask  = mask;
  slot->flags = (w ? 1 : 0) | (at ? 2 : 0) | (fr ? 4 : 0);
  slot->pc    = pc;
}

static inline Cell* cell_of(uintptr_t a) {
  if (a - ARENA < ARENA_SZ) return &g_cells[(a - ARENA) >> 3];
  uintptr_t d = (uintptr_t)&__data_start & ~7ull;
  if (a >= d && a < (uintptr_t)&_end) return &g_gcells[(a - d) >> 3];
  return nullptr;
}

static inline void touch(uintptr_t a, unsigned sz, bool w, bool at, void* pc) {
  if (in_heap(a)) check_heap(a, sz, w, pc);
  if (!g_races) return;
  while (sz) {
    unsigned off = a & 7, n = sz < 8 - off ? sz : 8 - off;
    Cell*    c   = cell_of(a);
    if (!c) return;
    record(*c, (uint8_t)(((1u << n) - 1) << off), w, at, false, pc, a);
    a += n;
    sz -= n;
  }
}

static inline void access(void* p, unsigned sz, bool w, void* pc) {
  if (!g_on || g_quiet) return;
  mem_point();
  touch((uintptr_t)p, sz, w, false, pc);
}

static inline void check_obj(void* p) {
  if (g_on && in_heap((uintptr_t)p)) check_heap((uintptr_t)p, 4, true, __builtin_return_address(0));
}

static inline void tick() { g_cur->vc.c[g_cur->id]++; }

// ------------------------------------------------------------------ world
static void* thread_main(void* p) {
  Thread* t = (Thread*)p;
  futex_wait(&t->fut);
  g_quiet = 0;
  if (t->body) {
    try {
      (*t->body)();
    } catch (std::exception& e) {
      Rt r;
      fail("harness-exception", "unexpected exception out of the workload: %s", e.what());
    }
    ++g_quiet;
    R->steps = g_step;
    R->simns = now();
    for (int i = 1; i < g_nthr; ++i)
      if (g_thr[i].st != DONE && !g_allow_leak_threads)
        fail("thread-leak", "a thread created during the run is still alive at its end (thread %d, %s, in %s)", i, state_name[g_thr[i].st],
             where(&g_thr[i]).c_str());
    finish(1);
  }
  t->ret = t->fn(t->arg);
  ++g_quiet;
  t->st = DONE;
  hash_mix(0xD0 + t->id);
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].st == B_JOIN && g_thr[i].obj == t) g_thr[i].st = RUN;
  ++g_step;
  schedule(3);  // gives the baton away; this thread never runs again
  for (;;) pause();
  return nullptr;
}

static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;

static Thread* new_thread() {
  if (g_nthr >= MAXTHR) fail("harness-limit", "more than %d threads", MAXTHR);
  Thread* t = &g_thr[g_nthr];
  memset((void*)t, 0, sizeof *t);
  t->id   = g_nthr;
  t->wake = ~0ull;
  t->st   = RUN;
  ++g_nthr;
  return t;
}

static void start_real(Thread* t) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, (void*)(STACKS + t->id * STACK_SZ), STACK_SZ);
  int rc = real_create(&t->handle, &a, thread_main, t);
  if (rc) {
    fprintf(stderr, "pthread_create: %s\n", strerror(rc));
    _exit(4);
  }
}

void run_world(const std::function<void()>& f) {
  ++g_quiet;
  real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
  g_maxstep   = g_plan.get("max_steps", 1500000);
  // strategy of this run (explore mode only)
  if (!g_replay) {
    u64 k = g_rng.below(10);
    if (k < 6) {
      g_strategy = 0;
      static const u64 ps[] = {30, 100, 250, 500, 900};
      static const u64 pm[] = {0, 0, 50, 400, 2000};
      g_psync = ps[g_rng.below(5)];
      g_pmem  = pm[g_rng.below(5)];
    } else {
      g_strategy = 1;
      g_npct     = (int)g_rng.below(8);
      u64 len    = 300ull << g_rng.below(7);
      for (int i = 0; i < g_npct; ++i) g_pct[i] = 1 + g_rng.below(len);
      static const u64 ph[] = {20, 100, 400};
      if (k >= 8) g_hold = ph[g_rng.below(3)];
    }
  }
  Thread* t = new_thread();
  t->body   = &f;
  t->prio   = 1000000 + g_rng.below(1000000);
  t->vc.c[0] = 1;
  start_real(t);
  g_cur = t;
  g_on  = true;
  draw_nextmem();
  set_next();
  g_quiet = 0;
  futex_set(&t->fut);
  for (;;) pause();
}

}  // namespace in

u64 steps() { return in::g_step; }
u64 now_ns() { return in::g_on ? in::now() : in::R->simns; }
int thread_id() { return in::g_cur ? in::g_cur->id : 0; }
void yield_point() {
  if (in::g_on && !in::g_quiet) {
    in::Rt r;
    in::sync_point();
  }
}
void sleep_ms(u64 ms) {
  if (!in::g_on) return;
  in::Rt r;
  in::block_cur(in::B_SLEEP, nullptr, in::now() + ms * 1000000ull);
}
void report_races(bool on) { in::g_races = on; }
void allow_thread_leak(bool on) { in::g_allow_leak_threads = on; }
int  live_threads() {
  int n = 0;
  for (int i = 1; i < in::g_nthr; ++i)
    if (in::g_thr[i].st != in::DONE) ++n;
  return n;
}
void flush_stats() {
  in::R->steps = in::g_step;
  in::R->simns = in::now();
}

}  // namespace sim

using namespace sim::in;
using sim::fail;

#define PC __builtin_return_address(0)
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define SIM_OFF (!g_on || g_quiet)

// ------------------------------------------------------------------ operator new / delete
static void* sim_alloc(size_t n, size_t al, bool nothrow) {
  if (SIM_OFF) {
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
  }
  if (sim::fault("alloc")) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (n > (200u << 20)) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (al < 16) al = 16;
  uintptr_t p = (g_bump + 32 + al - 1) & ~(uintptr_t)(al - 1);
  g_bump      = p + n + 16;
  if (g_bump > ARENA + HEAP_SZ - 4096) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  ((size_t*)p)[-1] = n;
  uintptr_t g = (p - ARENA) >> 3;
  size_t    k = n >> 3;
  memset(g_valid + g, 8, k);
  if (n & 7) g_valid[g + k] = n & 7;
  return (void*)p;
}
static void sim_free(void* p, void* pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  if (!in_heap(a)) {
    if (a - ARENA < ARENA_SZ) {
      Rt r;
      fail("bad-free", "delete of an address that was not allocated, in %s", where(g_cur, pc).c_str());
    }
    free(p);
    return;
  }
  size_t    n = ((size_t*)p)[-1];
  uintptr_t g = (a - ARENA) >> 3;
  if (n && g_valid[g] == 0xFD) {
    Rt r;
    fail("double-free", "memory deleted twice, the second time by thread %d in %s", g_cur->id, where(g_cur, pc).c_str());
  }
  if (g_on && !g_quiet && g_races)
    for (size_t k = 0; k < (n + 7) / 8; ++k) record(g_cells[g + k], 0xFF, true, false, true, pc, a + 8 * k);
  memset(g_valid + g, 0xFD, (n + 7) / 8);
}

void* operator new(size_t n) { return sim_alloc(n, 16, false); }
void* operator new[](size_t n) { return sim_alloc(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 16, true); }
void  operator delete(void* p) noexcept { sim_free(p, PC); }
void  operator delete[](void* p) noexcept { sim_free(p, PC); }
void  operator delete(void* p, size_t) noexcept { sim_free(p, PC); }
void  operator delete[](void* p, size_t) noexcept { sim_free(p, PC); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p, PC); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p, PC); }

extern "C" {

// ------------------------------------------------------------------ tsan callbacks: plain accesses
void __tsan_init() {}
#define ACC(sz)                                                                    \
  void __tsan_read##sz(void* a) { sim::in::access(a, sz, false, PC); }                      \
  void __tsan_write##sz(void* a) { sim::in::access(a, sz, true, PC); }                      \
  void __tsan_unaligned_read##sz(void* a) { sim::in::access(a, sz, false, PC); }            \
  void __tsan_unaligned_write##sz(void* a) { sim::in::access(a, sz, true, PC); }            \
  void __tsan_volatile_read##sz(void* a) { sim::in::access(a, sz, false, PC); }             \
  void __tsan_volatile_write##sz(void* a) { sim::in::access(a, sz, true, PC); }             \
  void __tsan_read_write##sz(void* a) { sim::in::access(a, sz, true, PC); }                 \
  void __tsan_unaligned_read_write##sz(void* a) { sim::in::access(a, sz, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#undef ACC
void __tsan_read_range(void* a, size_t n) {
  if (!n) return;
  sim::in::access(a, n > 4096 ? 4096 : n, false, PC);
}
void __tsan_write_range(void* a, size_t n) {
  if (!n) return;
  sim::in::access(a, n > 4096 ? 4096 : n, true, PC);
}
void __tsan_vptr_update(void** a, void* v) {
  if (!g_on || g_quiet) return;
  // what was there before can be an old stack frame: whether it is a write may not change the count of steps
  mem_point();
  if (*a != v) touch((uintptr_t)a, 8, true, false, PC);
}
void __tsan_vptr_read(void** a) { sim::in::access(a, 8, false, PC); }
void __tsan_func_entry(void* pc) {
  if (!g_on || g_quiet) return;
  if (g_cur->depth >= 0 && g_cur->depth < 64) g_cur->stack[g_cur->depth] = pc;
  ++g_cur->depth;
}
void __tsan_func_exit() {
  if (!g_on || g_quiet) return;
  if (g_cur->depth > 0) --g_cur->depth;
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

}  // extern "C"

// ------------------------------------------------------------------ tsan callbacks: atomics
template <class T>
static inline void at_pre(volatile T* a, bool w, void* pc) {
  sync_point();
  touch((uintptr_t)a, sizeof(T), w, true, pc);
}
static inline void at_acq(volatile void* a, int mo) {
  if (mo == 0 || mo == 3) return;
  bool f;
  VC&  v = g_avc.get((void*)a, f);
  g_cur->vc.join(v);
}
static inline void at_rel(volatile void* a, int mo, bool rmw) {
  bool f;
  VC&  v = g_avc.get((void*)a, f);
  if (mo == 3 || mo == 4 || mo == 5) {
    if (rmw)
      v.join(g_cur->vc);
    else
      v = g_cur->vc;
    tick();
  } else if (!rmw)
    memset((void*)&v, 0, sizeof v);
}
template <class T>
static T at_load(const volatile T* a, int mo, void* pc) {
  if (SIM_OFF) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  Rt r;
  at_pre(a, false, pc);
  at_acq((void*)a, mo);
  return *a;
}
template <class T>
static void at_store(volatile T* a, T v, int mo, void* pc) {
  if (SIM_OFF) {
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
    return;
  }
  Rt r;
  at_pre(a, true, pc);
  at_rel(a, mo, false);
  *a = v;
}
template <class T, class F>
static T at_rmw(volatile T* a, int mo, void* pc, F f) {
  if (SIM_OFF) {
    T o = __atomic_load_n(a, __ATOMIC_SEQ_CST), n;
    do n = f(o);
    while (!__atomic_compare_exchange_n(a, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
    return o;
  }
  Rt r;
  at_pre(a, true, pc);
  at_acq(a, mo);
  at_rel(a, mo, true);
  T o = *a;
  *a  = f(o);
  return o;
}
template <class T>
static bool at_cas(volatile T* a, T* e, T v, int mo, int fmo, bool weak, void* pc) {
  if (SIM_OFF) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  Rt r;
  at_pre(a, true, pc);
  if (*a == *e && !(weak && sim::fault("weak_cas"))) {
    at_acq(a, mo);
    at_rel(a, mo, true);
    *a = v;
    return true;
  }
  at_acq(a, fmo);
  *e = *a;
  return false;
}

extern "C" {
#define AT(B, T)                                                                                                            \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { return at_load<T>(a, mo, PC); }                                 \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_store<T>(a, v, mo, PC); }                                 \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T) { return v; }); }         \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); }); }  \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)~(o & v); }); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return at_cas<T>(a, e, v, mo, fmo, false, PC); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return at_cas<T>(a, e, v, mo, fmo, true, PC); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { at_cas<T>(a, &e, v, mo, fmo, false, PC); return e; }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
#undef AT
void __tsan_atomic_thread_fence(int mo) {
  if (SIM_OFF) return;
  Rt r;
  sync_point();
  if (mo) {
    g_fence.join(g_cur->vc);
    g_cur->vc.join(g_fence);
    tick();
  }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ pthread
int pthread_create(pthread_t* h, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (SIM_OFF) {
    REAL(pthread_create);
    return real(h, attr, fn, arg);
  }
  Rt r;
  sync_point();
  if (sim::fault("thread_create")) return EAGAIN;
  Thread* t = new_thread();
  t->fn     = fn;
  t->arg    = arg;
  t->vc     = g_cur->vc;
  t->vc.c[t->id] = 1;
  t->prio   = 1000000 + (g_replay ? 0 : g_rng.below(1000000));
  tick();
  start_real(t);
  *h = t->handle;
  set_next();
  sync_point();
  return 0;
}
static Thread* by_handle(pthread_t h) {
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].handle == h) return &g_thr[i];
  return nullptr;
}
int pthread_join(pthread_t h, void** ret) {
  if (SIM_OFF) {
    REAL(pthread_join);
    return real(h, ret);
  }
  Rt      r;
  Thread* t = by_handle(h);
  if (!t) return ESRCH;
  sync_point();
  while (t->st != DONE) block_cur(B_JOIN, t);
  g_cur->vc.join(t->vc);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t h) {
  if (SIM_OFF) {
    REAL(pthread_detach);
    return real(h);
  }
  return 0;
}

static int mtx_lock(pthread_mutex_t* m, bool tryl, u_int64_t deadline) {
  check_obj(m);
  sync_point();
  bool fresh;
  Mtx* x = &g_mtx.get(m, fresh);
  if (fresh) x->owner = -1;
  int kind = m->__data.__kind & 3;
  for (;;) {
    if (x->owner < 0) break;
    if (x->owner == g_cur->id) {
      if (kind == 1) {
        x->rec++;
        return 0;
      }
      if (tryl) return EBUSY;
      if (kind == 2) return EDEADLK;
      if (deadline == ~0ull) {
        // self-deadlock: certain, report at once
        fail("deadlock", "thread %d locks a mutex it already holds, in %s", g_cur->id, where(g_cur).c_str());
      }
    }
    if (tryl) return EBUSY;
    block_cur(B_MUTEX, m, deadline);
    check_obj(m);
    x = g_mtx.find(m);
    if (x->owner >= 0 && deadline != ~0ull && now() >= deadline) return ETIMEDOUT;
  }
  x->owner = g_cur->id;
  x->rec   = 1;
  g_cur->vc.join(x->vc);
  // a thread that is descheduled while it holds a mutex
  if (!g_replay && g_hold && g_rng.below(1000) < g_hold) g_cur->prio = --g_lowprio;
  sync_point();
  return 0;
}
static int mtx_unlock(pthread_mutex_t* m) {
  check_obj(m);
  bool fresh;
  Mtx& x = g_mtx.get(m, fresh);
  if (fresh) x.owner = -1;
  if (x.owner != g_cur->id) fail("bad-unlock", "thread %d unlocks a mutex it does not hold, in %s", g_cur->id, where(g_cur).c_str());
  if (--x.rec > 0) return 0;
  x.owner = -1;
  x.vc    = g_cur->vc;
  tick();
  wake_all(B_MUTEX, m);
  sync_point();
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  REAL(pthread_mutex_init);
  if (!SIM_OFF) {
    Rt   r;
    bool f;
    Mtx& x = g_mtx.get(m, f);
    x.owner = -1;
    x.rec   = 0;
    memset((void*)&x.vc, 0, sizeof x.vc);
  }
  return real(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(pthread_mutex_destroy);
  if (!SIM_OFF) {
    Rt   r;
    check_obj(m);
    Mtx* x = g_mtx.find(m);
    if (x && x->owner >= 0) fail("mutex-destroyed-locked", "thread %d destroys a mutex held by thread %d, in %s", g_cur->id, x->owner, where(g_cur).c_str());
    return 0;
  }
  return real(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (SIM_OFF) {
    REAL(pthread_mutex_lock);
    return real(m);
  }
  Rt r;
  return mtx_lock(m, false, ~0ull);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (SIM_OFF) {
    REAL(pthread_mutex_trylock);
    return real(m);
  }
  Rt r;
  return mtx_lock(m, true, ~0ull);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (SIM_OFF) {
    REAL(pthread_mutex_unlock);
    return real(m);
  }
  Rt r;
  return mtx_unlock(m);
}
static const u_int64_t EPOCH_NS = 1700000000ull * 1000000000ull;
static u_int64_t to_ns(const struct timespec* ts) { return (u_int64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
static u_int64_t from_abs(const struct timespec* ts) {
  u_int64_t v = to_ns(ts);
  return v > EPOCH_NS ? v - EPOCH_NS : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (SIM_OFF) {
    REAL(pthread_mutex_timedlock);
    return real(m, ts);
  }
  Rt r;
  return mtx_lock(m, false, from_abs(ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (SIM_OFF) {
    REAL(pthread_mutex_clocklock);
    return real(m, c, ts);
  }
  Rt r;
  return mtx_lock(m, false, from_abs(ts));
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u_int64_t deadline) {
  check_obj(c);
  bool spurious = sim::fault("spurious_wakeup");
  // release the mutex and wait atomically
  bool f;
  Mtx& x = g_mtx.get(m, f);
  if (f || x.owner != g_cur->id) fail("bad-unlock", "condition wait without holding the mutex, in %s", where(g_cur).c_str());
  int rec = x.rec;
  x.owner = -1;
  x.vc    = g_cur->vc;
  tick();
  wake_all(B_MUTEX, m);
  if (spurious)
    sync_point();
  else
    block_cur(B_COND, c, deadline);
  bool to = !spurious && g_cur->timed_out;
  int  rc = mtx_lock(m, false, ~0ull);
  if (rc == 0) g_mtx.find(m)->rec = rec;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (SIM_OFF) {
    REAL(pthread_cond_wait);
    return real(c, m);
  }
  Rt r;
  return cond_wait(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (SIM_OFF) {
    REAL(pthread_cond_timedwait);
    return real(c, m, ts);
  }
  Rt r;
  return cond_wait(c, m, from_abs(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (SIM_OFF) {
    REAL(pthread_cond_clockwait);
    return real(c, m, k, ts);
  }
  Rt r;
  return cond_wait(c, m, from_abs(ts));
}
static int cond_wake(pthread_cond_t* c, bool all) {
  check_obj(c);
  sync_point();
  int w[MAXTHR], n = 0;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].st == B_COND && g_thr[i].obj == c) w[n++] = i;
  if (!n) return 0;
  if (all)
    wake_all(B_COND, c);
  else {
    int i = w[sim::pick("cond_signal", n)];
    g_thr[i].st   = RUN;
    g_thr[i].wake = ~0ull;
  }
  set_next();
  sync_point();
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (SIM_OFF) {
    REAL(pthread_cond_signal);
    return real(c);
  }
  Rt r;
  return cond_wake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (SIM_OFF) {
    REAL(pthread_cond_broadcast);
    return real(c);
  }
  Rt r;
  return cond_wake(c, true);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!SIM_OFF) return 0;
  REAL(pthread_cond_destroy);
  return real(c);
}

// rwlocks (std::shared_timed_mutex and friends)
static Rw* rw_of(pthread_rwlock_t* l) {
  bool f;
  Rw*  x = &g_rw.get(l, f);
  if (f) x->writer = -1;
  return x;
}
static int rw_lock(pthread_rwlock_t* l, bool w, bool tr, u_int64_t dl) {
  check_obj(l);
  sync_point();
  for (;;) {
    Rw* x = rw_of(l);
    if (w ? (x->writer < 0 && x->readers == 0) : x->writer < 0) {
      if (w)
        x->writer = g_cur->id;
      else
        x->readers++;
      g_cur->vc.join(x->vc);
      if (w) g_cur->vc.join(x->rvc);
      return 0;
    }
    if (tr) return EBUSY;
    if (x->writer == g_cur->id) return EDEADLK;
    block_cur(B_RW, l, dl);
    if (dl != ~0ull && now() >= dl) return ETIMEDOUT;
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (SIM_OFF) {
    REAL(pthread_rwlock_rdlock);
    return real(l);
  }
  Rt r;
  return rw_lock(l, false, false, ~0ull);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (SIM_OFF) {
    REAL(pthread_rwlock_tryrdlock);
    return real(l);
  }
  Rt r;
  return rw_lock(l, false, true, ~0ull);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (SIM_OFF) {
    REAL(pthread_rwlock_wrlock);
    return real(l);
  }
  Rt r;
  return rw_lock(l, true, false, ~0ull);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (SIM_OFF) {
    REAL(pthread_rwlock_trywrlock);
    return real(l);
  }
  Rt r;
  return rw_lock(l, true, true, ~0ull);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (SIM_OFF) {
    REAL(pthread_rwlock_unlock);
    return real(l);
  }
  Rt r;
  check_obj(l);
  Rw* x = rw_of(l);
  if (x->writer == g_cur->id) {
    x->writer = -1;
    x->vc     = g_cur->vc;
  } else if (x->readers > 0) {
    x->readers--;
    x->rvc.join(g_cur->vc);
  } else
    fail("bad-unlock", "unlock of a rwlock that is not held, in %s", where(g_cur).c_str());
  tick();
  wake_all(B_RW, l);
  sync_point();
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (SIM_OFF) {
    REAL(pthread_once);
    return real(o, fn);
  }
  ++g_quiet;
  sync_point();
  bool f;
  for (;;) {
    int& s = g_once.get(o, f);
    if (*(int*)o == 2) break;  // done before the simulation started
    if (s == 2) break;
    if (s == 0) {
      s = 1;
      --g_quiet;
      try {
        fn();
      } catch (...) {
        ++g_quiet;
        g_once.get(o, f) = 0;
        wake_all(B_ONCE, o);
        --g_quiet;
        throw;
      }
      ++g_quiet;
      g_once.get(o, f) = 2;
      at_rel(o, 3, false);
      wake_all(B_ONCE, o);
      --g_quiet;
      return 0;
    }
    block_cur(B_ONCE, o);
  }
  at_acq(o, 2);
  --g_quiet;
  return 0;
}

// function-local statics
int __cxa_guard_acquire(long long* g) {
  if (*(volatile char*)g) {
    if (!SIM_OFF) {
      Rt r;
      at_acq(g, 2);
    }
    return 0;
  }
  if (SIM_OFF) {
    return 1;  // only one thread runs at any time
  }
  Rt   r;
  bool f;
  sync_point();
  for (;;) {
    if (*(volatile char*)g) {
      at_acq(g, 2);
      return 0;
    }
    int& s = g_once.get(g, f);
    if (s != 1) {
      s = 1;
      return 1;
    }
    block_cur(B_ONCE, g);
  }
}
void __cxa_guard_release(long long* g) {
  *(volatile char*)g = 1;
  if (SIM_OFF) return;
  Rt   r;
  bool f;
  g_once.get(g, f) = 2;
  at_rel(g, 3, false);
  wake_all(B_ONCE, g);
  sync_point();
}
void __cxa_guard_abort(long long* g) {
  if (SIM_OFF) return;
  Rt   r;
  bool f;
  g_once.get(g, f) = 0;
  wake_all(B_ONCE, g);
}

// ------------------------------------------------------------------ time
static int do_sleep(u_int64_t ns) {
  Rt r;
  sim::in::hash_mix(0x51EE9);
  u_int64_t extra = 0;
  if (sim::fault("oversleep")) extra = ns * (1 + sim::pick("oversleep_by", 6)) / 2;
  if (ns + extra == 0) {
    sync_point(2);
    return 0;
  }
  u_int64_t wake = now() + ns + extra;
  block_cur(B_SLEEP, nullptr, wake);
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (SIM_OFF) {
    REAL(nanosleep);
    return real(ts, rem);
  }
  u_int64_t ns = to_ns(ts);  // rem may be ts itself
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return do_sleep(ns);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
  if (SIM_OFF) {
    REAL(clock_nanosleep);
    return real(c, flags, ts, rem);
  }
  u_int64_t ns = to_ns(ts);
  if (flags & TIMER_ABSTIME) {
    ns = from_abs(ts);
    ns = ns > now() ? ns - now() : 0;
  }
  return do_sleep(ns);
}
int usleep(useconds_t us) {
  if (SIM_OFF) {
    REAL(usleep);
    return real(us);
  }
  return do_sleep((u_int64_t)us * 1000);
}
unsigned sleep(unsigned s) {
  if (SIM_OFF) {
    REAL(sleep);
    return real(s);
  }
  do_sleep((u_int64_t)s * 1000000000ull);
  return 0;
}
int sched_yield() {
  if (SIM_OFF) {
    REAL(sched_yield);
    return real();
  }
  Rt r;
  sync_point(2);
  return 0;
}
// The time of day can be set (cfg f_clock_jump) and be coarse (cfg clock_tick_us).
static long long g_wall_offset;
static u_int64_t wall_clock(bool settable) {
  u_int64_t t = EPOCH_NS + now();
  if (!settable) return t;
  if (sim::fault("clock_jump")) {
    g_wall_offset = ((long long)sim::pick("clock_offset", 41) - 20) * 1000000;
    sim::event("the clock is set to %lld ms from the true time", g_wall_offset / 1000000);
  }
  t += g_wall_offset;
  u_int64_t tick = (u_int64_t)sim::plan().get("clock_tick_us") * 1000;
  return tick ? t - t % tick : t;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (SIM_OFF) return syscall(SYS_clock_gettime, c, ts);
  Rt r;
  sync_point();
  u_int64_t t = wall_clock(c != CLOCK_MONOTONIC);
  ts->tv_sec  = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  if (SIM_OFF) return syscall(SYS_gettimeofday, tv, nullptr);
  u_int64_t t = EPOCH_NS + now();
  tv->tv_sec  = t / 1000000000ull;
  tv->tv_usec = t % 1000000000ull / 1000;
  return 0;
}
time_t time(time_t* p) {
  time_t v;
  if (SIM_OFF) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    v = ts.tv_sec;
  } else
    v = (EPOCH_NS + now()) / 1000000000ull;
  if (p) *p = v;
  return v;
}

}  // extern "C"
