// Scenarios for AlexandriaKernel/ThreadPool: the real pool under the simulated scheduler.
#include "../sim/simthr.h"
#include "AlexandriaKernel/ThreadPool.h"
#include <algorithm>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <vector>

using namespace sim;
using Euclid::ThreadPool;

namespace {

// not every exception is a std::exception
struct PlainError {
  int id;
};
struct TaskError : std::runtime_error {
  int id;
  explicit TaskError(int i) : std::runtime_error("task " + std::to_string(i)), id(i) {}
};

enum { SUBMIT = 0, BLOCK = 1, QUERY = 2, PAUSE = 3 };
// SUBMIT: actor, duration ms, flavour (0 plain, 1 throws, 2 big closure, 3 submits a child)

struct TaskInfo {
  int  started = 0, finished = 0, submit_begin = 0, submit_end = 0, start_at = 0, end_at = 0;
  bool throws = false, accepted = false;
};

// bookkeeping of the oracle: touched only inside Quiet scopes
struct Book {
  std::vector<TaskInfo> t;
  int  clock     = 0;
  int  executing = 0, max_executing = 0;
  int  tokens    = 0;  // live task closures (copies included)
  int  seen_exception_at = 0;  // clock at which checkForException() was first seen true
  int  started_after_exception = 0;
  int  dtor_at = 0, started_after_dtor = 0;
  bool dtor_done = false;
  int  threads   = 0;
};
Book* B;

struct Token {
  Token() { Quiet q; ++B->tokens; }
  Token(const Token&) { Quiet q; ++B->tokens; }
  Token(Token&&) noexcept { Quiet q; ++B->tokens; }
  Token& operator=(const Token&) = default;
  ~Token() { Quiet q; --B->tokens; }
};

struct Ctx {
  std::vector<int> result;  // plain data written by the tasks and read by the caller after block()
  ThreadPool*      pool = nullptr;
};

void task_begin(int id) {
  Quiet     q;
  TaskInfo& x = B->t[id];
  ++x.started;
  x.start_at = ++B->clock;
  event("task %d starts on thread %d", id, thread_id());
  if (x.started > 1) fail("task-ran-twice", "task %d was started %d times", id, x.started);
  if (!x.submit_begin) fail("task-not-submitted", "task %d runs but was never submitted", id);
  if (B->dtor_done) fail("task-after-destruction", "task %d starts after the pool was destroyed", id);
  if (B->dtor_at) ++B->started_after_dtor;
  if (B->seen_exception_at) {
    if (++B->started_after_exception > std::max(0, B->threads - 1))
      sfail("task-started-in-exception-state", "%d tasks started although the pool had reported an exception (%d threads)", B->started_after_exception,
           B->threads);
  }
  // submission order: earlier tasks not started yet can only be in the hands of the other workers
  if (B->threads > 0) {
    int behind = 0, which = -1;
    for (size_t j = 0; j < B->t.size(); ++j)
      if (B->t[j].accepted && B->t[j].submit_end && B->t[j].submit_end < x.submit_begin && !B->t[j].started) {
        ++behind;
        which = (int)j;
      }
    if (behind > B->threads - 1)
      sfail("start-order", "task %d starts while %d tasks submitted earlier (e.g. %d) have not started, with %d threads", id, behind, which, B->threads);
  }
  if (++B->executing > B->max_executing) B->max_executing = B->executing;
  if (B->threads > 0 && B->executing > B->threads)
    sfail("too-many-running", "%d tasks run at the same time in a pool of %d threads", B->executing, B->threads);
}
void task_end(int id) {
  Quiet q;
  ++B->t[id].finished;
  B->t[id].end_at = ++B->clock;
  --B->executing;
  event("task %d ends", id);
}

void submit_one(Ctx& c, int id, int dur, int flavour);

struct SimTask {
  Ctx*  ctx;
  int   id, dur, flavour, child;
  Token tok;
  long  pad[6] = {0, 0, 0, 0, 0, 0};  // does not fit the small buffer of std::function
  SimTask(Ctx* c, int i, int d, int f, int ch) : ctx(c), id(i), dur(d), flavour(f), child(ch) {}
  void operator()() {
    task_begin(id);
    if (dur > 0) std::this_thread::sleep_for(std::chrono::milliseconds(dur));
    ctx->result[id] = id * 7 + 1;
    if (child >= 0) submit_one(*ctx, child, 0, 0);
    task_end(id);
    if (flavour == 1) {
      if (id % 3 == 1) throw PlainError{id};
      throw TaskError(id);
    }
  }
};

struct SmallTask {
  Ctx* ctx;
  int  id;
  void operator()() const {
    task_begin(id);
    ctx->result[id] = id * 7 + 1;
    task_end(id);
  }
};

int child_of(int id, int flavour, int n) { return flavour == 3 ? n + id : -1; }

void submit_one(Ctx& c, int id, int dur, int flavour) {
  int child;
  {
    Quiet q;
    B->t[id].submit_begin = ++B->clock;
    B->t[id].throws       = flavour == 1;
    event("submit %d dur %d flavour %d", id, dur, flavour);
    child = child_of(id, flavour, (int)B->t.size() / 2);
    if (B->threads > 0) B->t[id].accepted = true;
  }
  bool ok = true;
  try {
    if (flavour == 2)
      c.pool->submit(SmallTask{&c, id});
    else
      c.pool->submit(SimTask(&c, id, dur, flavour, child));
  } catch (const std::bad_alloc&) {
    ok = false;
  } catch (const TaskError& e) {
    Quiet q;
    if (B->threads > 0) fail("exception-at-submit", "submit() threw the exception of task %d", e.id);
  } catch (const PlainError& e) {
    Quiet q;
    if (B->threads > 0) fail("exception-at-submit", "submit() threw the exception of task %d", e.id);
  }
  Quiet q;
  B->t[id].accepted   = ok;
  B->t[id].submit_end = ++B->clock;
  if (!ok && B->t[id].started) fail("task-refused-but-ran", "submit() of task %d failed but the task runs", id);
}

void query(ThreadPool& pool) {
  int sub_before = 0, started_before = 0, exec_before = 0;
  {
    Quiet q;
    for (auto& x : B->t) {
      sub_before += x.accepted && x.submit_end != 0;
      started_before += x.started > 0;
    }
  }
  std::vector<int> ex;
  {
    Quiet q;
    for (size_t i = 0; i < B->t.size(); ++i)
      if (B->t[i].started && !B->t[i].finished) ex.push_back((int)i);
    exec_before = (int)ex.size();
  }
  size_t qd = pool.queued();
  int    started_after, sub_after;
  {
    Quiet q;
    started_after = sub_after = 0;
    for (auto& x : B->t) {
      sub_after += x.submit_begin != 0;
      started_after += x.started > 0;
    }
    int lo = sub_before - started_after - B->threads, hi = sub_after - started_before;
    event("queued() = %zu", qd);
    if ((int)qd < lo || (int)qd > hi) sfail("queued-count", "queued() returned %zu, between %d and %d tasks were queued", qd, lo, hi);
  }
  {
    Quiet q;
    ex.clear();
    for (size_t i = 0; i < B->t.size(); ++i)
      if (B->t[i].started && !B->t[i].finished) ex.push_back((int)i);
  }
  size_t run = pool.running();
  {
    Quiet q;
    int   still = 0;
    for (int i : ex) still += !B->t[i].finished;
    event("running() = %zu", run);
    if (B->threads > 0 && ((int)run < still || (int)run > B->threads))
      sfail("running-count", "running() returned %zu with %d tasks in execution in a pool of %d threads", run, still, B->threads);
  }
  bool   exc_possible = false;
  size_t act          = pool.activeThreads();
  {
    Quiet q;
    for (auto& x : B->t) exc_possible |= x.throws && x.started;
    event("activeThreads() = %zu", act);
    if ((int)act > B->threads || (!exc_possible && !plan().get("f_alloc") && (int)act != B->threads))
      sfail("active-count", "activeThreads() returned %zu in a pool of %d threads without exceptions", act, B->threads);
  }
  bool e = pool.checkForException();
  {
    Quiet q;
    exc_possible = false;
    for (auto& x : B->t) exc_possible |= x.throws && x.finished;
    if (e && !exc_possible && !plan().get("f_alloc")) sfail("phantom-exception", "checkForException() is true but no task threw");
    if (e && !B->seen_exception_at) B->seen_exception_at = ++B->clock;
    event("checkForException() = %d", (int)e);
  }
}

void verify_quiescent(Ctx& c, const char* when) {
  // reads of the results: instrumented, so that the effects of the tasks must be ordered before block()'s return
  for (size_t i = 0; i < c.result.size(); ++i) {
    bool check;
    {
      Quiet q;
      check = B->t[i].started > 0;
    }
    if (check && c.result[i] != (int)i * 7 + 1) {
      Quiet q;
      fail("effect-lost", "the effect of task %zu is not visible %s", i, when);
    }
  }
}

void check_all_done(ThreadPool& pool, Ctx& c) {
  {
    Quiet q;
    for (size_t i = 0; i < B->t.size(); ++i) {
      auto& x = B->t[i];
      if (x.accepted && x.submit_end && x.started == 0) fail("task-lost", "block() returned but task %zu never ran", i);
      if (x.started != x.finished) fail("block-early", "block() returned while task %zu was executing", i);
    }
  }
  verify_quiescent(c, "after block()");
  size_t qd = pool.queued();
  if (qd != 0) sfail("queued-count", "queued() is %zu after block()", qd);
}

void gen_common(Rng& r, Plan& p, bool exceptions) {
  static const int waits[] = {1, 1, 2, 5, 10, 50};
  p.cfg["threads"] = r.chance(1, 25) ? 0 : r.range(1, 4);
  p.cfg["wait"]    = waits[r.below(6)];
  p.cfg["actors"]  = r.chance(1, 3) ? r.range(2, 3) : 1;
  if (r.chance(1, 3)) p.cfg["f_stall"] = r.range(5, 60);
  if (r.chance(1, 3)) p.cfg["f_oversleep"] = r.range(20, 300);
  if (r.chance(1, 4)) p.cfg["f_spurious_wakeup"] = 100;
  int rounds = r.range(1, 3);
  bool kids  = r.chance(1, 5);
  for (int k = 0; k < rounds; ++k) {
    int n = r.chance(1, 5) ? (r.chance(1, 4) ? r.range(15, 48) : r.range(6, 14)) : r.range(0, 5);
    for (int i = 0; i < n; ++i) {
      int flav = r.chance(1, 3) ? 2 : (kids && r.chance(1, 3)) ? 3 : 0;
      if (exceptions && r.chance(1, 4)) flav = 1;
      p.ops.push_back(Op(SUBMIT, r.below(3), r.chance(1, 2) ? 0 : r.range(1, 20), flav));
      if (r.chance(1, 5)) p.ops.push_back(Op(QUERY, r.below(3)));
      if (r.chance(1, 6)) p.ops.push_back(Op(PAUSE, r.below(3), r.range(1, 30)));
    }
    p.ops.push_back(Op(BLOCK));
    if (r.chance(1, 3)) p.ops.push_back(Op(QUERY));
  }
}

// runs the ops up to (not including) the next BLOCK; returns its index
size_t phase(const Plan& p, size_t from, Ctx& c, int& next_id) {
  size_t to = from;
  while (to < p.ops.size() && p.ops[to].kind() != BLOCK) ++to;
  int actors = std::max<i64>(1, p.get("actors", 1));
  struct Item {
    Op  op;
    int id;
  };
  std::vector<std::vector<Item>> per;
  {
    Quiet q;
    per.resize(actors);
    for (size_t i = from; i < to; ++i) {
      int id = -1;
      if (p.ops[i].kind() == SUBMIT) id = next_id++;
      per[p.ops[i].v[1] % actors].push_back({p.ops[i], id});
    }
  }
  auto act = [&](int a) {
    for (size_t i = 0; i < per[a].size(); ++i) {
      Op  o;
      int id;
      {
        Quiet q;
        o  = per[a][i].op;
        id = per[a][i].id;
      }
      if (o.kind() == SUBMIT)
        submit_one(c, id, o.v[2], o.v[3]);
      else if (o.kind() == QUERY)
        query(*c.pool);
      else if (o.kind() == PAUSE)
        std::this_thread::sleep_for(std::chrono::milliseconds(o.v[2]));
    }
  };
  std::vector<std::thread> th;
  for (int a = 1; a < actors; ++a) th.emplace_back(act, a);
  act(0);
  for (auto& t : th) t.join();
  return to;
}

int count_submits(const Plan& p) {
  int n = 0;
  for (auto& o : p.ops) n += o.kind() == SUBMIT;
  return n;
}

void setup(const Plan& p, Ctx& c) {
  Quiet q;
  B          = new Book;
  int n      = count_submits(p);
  B->t.resize(n * 2 + 2);
  B->threads = (int)p.get("threads");
  c.result.assign(n * 2 + 2, 0);
}

// wait until children submitted by tasks have been accepted: submissions during block() are not allowed
void drain_children(ThreadPool& pool) {
  for (;;) {
    bool pending = false;
    {
      Quiet q;
      size_t half = B->t.size() / 2;
      (void)half;
      for (auto& x : B->t) pending |= x.submit_begin && x.accepted && x.started == 0;
      for (auto& x : B->t) pending |= x.submit_begin && !x.submit_end;
      for (auto& x : B->t) pending |= x.started && !x.finished;
    }
    if (!pending) return;
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    (void)pool;
  }
}

// ------------------------------------------------------------------ exactly once, block() is a barrier
void run_block(const Plan& p) {
  Ctx c;
  setup(p, c);
  {
    ThreadPool pool((unsigned)p.get("threads"), (unsigned)p.get("wait"));
    c.pool   = &pool;
    int  id  = 0;
    bool kids = false;
    for (auto& o : p.ops) kids |= o.kind() == SUBMIT && o.v[3] == 3;
    size_t i = 0;
    while (i < p.ops.size()) {
      i = phase(p, i, c, id);
      if (i >= p.ops.size()) break;
      if (kids) drain_children(pool);
      u64 t0 = now_ns();
      event("block");
      pool.block();
      event("block returned");
      (void)t0;
      check_all_done(pool, c);
      probe("block_checked");
      ++i;
      while (i < p.ops.size() && p.ops[i].kind() == QUERY) {
        query(pool);
        ++i;
      }
    }
    Quiet q;
    B->dtor_at = ++B->clock;
  }
  Quiet q;
  B->dtor_done = true;
  if (B->tokens != 0) fail("closure-leak", "%d task closures were not destroyed with the pool", B->tokens);
  for (size_t i = 0; i < B->t.size(); ++i)
    if (B->t[i].started > 1 || B->t[i].started != B->t[i].finished) fail("task-count", "task %zu started %d times, finished %d", i, B->t[i].started, B->t[i].finished);
}

Scenario s_block("tp_block", "submit/block rounds from one or several submitters", true, 3, [](Rng& r, Plan& p) { gen_common(r, p, false); }, run_block);

// ------------------------------------------------------------------ exceptions
void gen_exc(Rng& r, Plan& p) {
  gen_common(r, p, true);
  if (p.cfg["threads"] == 0) p.cfg["threads"] = 1;
  for (auto& o : p.ops)
    if (o.kind() == SUBMIT && o.v[3] == 3) o.v[3] = 0;  // a child could be submitted while block() waits
}

void run_exc(const Plan& p) {
  Ctx c;
  setup(p, c);
  {
    ThreadPool pool((unsigned)p.get("threads"), (unsigned)p.get("wait"));
    c.pool   = &pool;
    int  id  = 0;
    size_t i = 0;
    bool   failed = false;
    while (i < p.ops.size()) {
      i = phase(p, i, c, id);
      if (i >= p.ops.size()) break;
      // children may be submitted while block() waits only if nothing throws; keep them out of this scenario
      event("block");
      bool threw = false;
      int  tid   = -1;
      try {
        pool.block();
      } catch (const TaskError& e) {
        threw = true;
        tid   = e.id;
      } catch (const PlainError& e) {
        threw = true;
        tid   = e.id;
      } catch (const std::exception& e) {
        Quiet q;
        sfail("foreign-exception", "block() threw an exception no task threw: %s", e.what());
      }
      {
        Quiet q;
        event("block returned threw=%d task=%d", (int)threw, tid);
        bool any = false;
        for (size_t k = 0; k < B->t.size(); ++k) {
          auto& x = B->t[k];
          if (x.started != x.finished) fail("block-early", "block() returned while task %zu was executing", k);
          any |= x.throws && x.finished;
        }
        if (any && !threw) sfail("exception-lost", "a task threw but block() returned normally");
        if (threw && !(tid >= 0 && tid < (int)B->t.size() && B->t[tid].throws && B->t[tid].finished))
          sfail("phantom-exception", "block() rethrew an exception of task %d, which did not throw", tid);
        if (threw && !B->seen_exception_at) B->seen_exception_at = ++B->clock;
        failed |= threw;
      }
      if (threw) {
        probe("block_threw");
        if (!pool.checkForException()) sfail("exception-lost", "checkForException() is false after block() threw");
        bool re = false;
        try {
          pool.checkForException(true);
        } catch (const TaskError&) {
          re = true;
        } catch (const PlainError&) {
          re = true;
        }
        if (!re) sfail("exception-lost", "checkForException(true) did not rethrow");
        verify_quiescent(c, "after block() threw");
        std::this_thread::sleep_for(std::chrono::milliseconds(10 * (1 + p.get("wait"))));
      } else {
        if (pool.checkForException()) sfail("phantom-exception", "checkForException() is true but no task threw");
        check_all_done(pool, c);
      }
      ++i;
    }
    if (failed) {
      // all the workers stop
      u64 t0 = now_ns();
      while (pool.activeThreads() != 0) {
        std::this_thread::sleep_for(std::chrono::milliseconds(1 + p.get("wait")));
        if (now_ns() - t0 > 20000000000ull) {
          Quiet q;
          fail("workers-do-not-stop", "activeThreads() stays above 0 for 20 s after an exception");
        }
      }
    }
    Quiet q;
    B->dtor_at = ++B->clock;
  }
  Quiet q;
  B->dtor_done = true;
  if (B->tokens != 0) fail("closure-leak", "%d task closures were not destroyed with the pool", B->tokens);
}

Scenario s_exc("tp_exception", "tasks that throw, several at once, before and during block()", true, 3, gen_exc, run_exc);

// allocation failures in submit and in the workers
void gen_alloc(Rng& r, Plan& p) {
  gen_common(r, p, false);
  if (p.cfg["threads"] == 0) p.cfg["threads"] = 2;
  p.cfg["actors"]  = 1;
  for (auto& o : p.ops)
    if (o.v[3] == 3) o.v[3] = 0;
  p.cfg["f_alloc"] = r.range(30, 250);
}
void run_alloc(const Plan& p) {
  Ctx c;
  setup(p, c);
  enable_faults(false);
  {
    ThreadPool pool((unsigned)p.get("threads"), (unsigned)p.get("wait"));
    c.pool   = &pool;
    int id   = 0;
    size_t i = 0;
    enable_faults(true);
    while (i < p.ops.size()) {
      i = phase(p, i, c, id);
      if (i >= p.ops.size()) break;
      bool threw = false;
      try {
        pool.block();
      } catch (const std::bad_alloc&) {
        threw = true;
      }
      Quiet q;
      event("block returned threw=%d", (int)threw);
      for (size_t k = 0; k < B->t.size(); ++k) {
        auto& x = B->t[k];
        if (x.started != x.finished) fail("block-early", "block() returned while task %zu was executing", k);
        if (!threw && x.accepted && x.submit_end && !x.started) fail("task-lost", "block() returned normally but task %zu never ran (allocation failures)", k);
      }
      ++i;
    }
    enable_faults(false);
    Quiet q;
    B->dtor_at = ++B->clock;
  }
  Quiet q;
  B->dtor_done = true;
  if (B->tokens != 0) fail("closure-leak", "%d task closures were not destroyed with the pool", B->tokens);
}
Scenario s_alloc("tp_alloc", "allocation failures while tasks are submitted and taken", true, 1, gen_alloc, run_alloc);

// ------------------------------------------------------------------ destruction
void gen_dtor(Rng& r, Plan& p) {
  gen_common(r, p, r.chance(1, 3));
  std::vector<Op> ops;
  for (auto& o : p.ops)
    if (o.kind() != BLOCK) ops.push_back(o);
  if (ops.empty()) ops.push_back(Op(SUBMIT, 0, 3, 0));
  for (auto& o : ops)
    if (o.v[3] == 3) o.v[3] = 0;
  p.ops = ops;
  if (p.cfg["threads"] == 0) p.cfg["threads"] = 2;
  p.cfg["delay"] = r.chance(1, 2) ? 0 : r.range(0, 40);
}
void run_dtor(const Plan& p) {
  Ctx c;
  setup(p, c);
  {
    ThreadPool pool((unsigned)p.get("threads"), (unsigned)p.get("wait"));
    c.pool = &pool;
    int id = 0;
    phase(p, 0, c, id);
    if (p.get("delay")) std::this_thread::sleep_for(std::chrono::milliseconds(p.get("delay")));
    Quiet q;
    B->dtor_at = ++B->clock;
    event("destroy");
  }
  {
    Quiet q;
    event("destroyed");
    B->dtor_done = true;
    int disc     = 0;
    for (size_t k = 0; k < B->t.size(); ++k) {
      auto& x = B->t[k];
      if (x.started != x.finished) fail("destroyed-while-running", "the destructor returned while task %zu was executing", k);
      disc += x.accepted && !x.started;
    }
    if (disc) probe("dtor_discarded");
    if (B->tokens != 0) fail("closure-leak", "%d task closures were not destroyed with the pool", B->tokens);
    if (live_threads() != 0) fail("thread-leak", "%d worker threads are alive after the destructor", live_threads());
  }
  verify_quiescent(c, "after the destructor");
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
}
Scenario s_dtor("tp_destroy", "destruction at an arbitrary moment", true, 3, gen_dtor, run_dtor);

void gen_discard(Rng& r, Plan& p) {
  p.cfg["threads"] = r.range(1, 3);
  p.cfg["wait"]    = r.range(1, 10);
  p.cfg["actors"]  = 1;
  p.cfg["delay"]   = r.range(0, 30);
  int n            = 40 * p.cfg["threads"];
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(SUBMIT, 0, 20, 0));
}
void run_discard(const Plan& p) {
  int n = (int)p.get("threads");
  run_dtor(p);
  Quiet q;
  if (B->started_after_dtor > n * 8) fail("destructor-runs-queue", "%d queued tasks were started after destruction began (%d threads)", B->started_after_dtor, n);
}
Scenario s_discard("tp_discard", "destruction with a long queue discards what has not started", true, 1, gen_discard, run_discard);

// all the workers are executing when the destruction begins: nothing of the queue may start, in whatever order they finish
void gen_stop(Rng& r, Plan& p) {
  p.cfg["threads"] = r.range(1, 4);
  p.cfg["wait"]    = r.range(1, 10);
  p.cfg["step"]    = r.range(1, 60);
  if (r.chance(1, 3)) p.cfg["f_oversleep"] = r.range(20, 300);
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(SUBMIT, (int)r.below(8)));
}
void run_stop(const Plan& p) {
  int                     n = (int)p.get("threads");
  std::mutex              m;
  std::condition_variable cv;
  int                     in = 0, out = 0, extra = 0, during = 0, released = -1;
  bool                    gone = false;
  auto                    pool = new ThreadPool(n, (unsigned)p.get("wait"));
  for (int i = 0; i < n; ++i)
    pool->submit([&, i] {
      std::unique_lock<std::mutex> l(m);
      ++in;
      cv.notify_all();
      cv.wait(l, [&] { return released >= i; });
      ++out;
    });
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return in == n; });
  }
  for (size_t i = 0; i < p.ops.size(); ++i)
    pool->submit([&] {
      std::lock_guard<std::mutex> l(m);
      ++extra;
    });
  std::thread destroyer([&] {
    delete pool;
    std::lock_guard<std::mutex> l(m);
    gone = true;
  });
  // time only passes this far once the destroyer waits for the workers
  sleep_ms(2000);
  for (int i = 0; i < n; ++i) {
    {
      std::lock_guard<std::mutex> l(m);
      if (gone) fail("destroyed-while-running", "the pool was destroyed while %d tasks were executing", n - out);
      released = i;
    }
    cv.notify_all();
    sleep_ms(p.get("step"));
    std::lock_guard<std::mutex> l(m);
    if (i + 1 < n) during = extra;
  }
  destroyer.join();
  event("out=%d extra=%d", out, extra);
  if (out != n) fail("task-lost", "%d of %d executing tasks were finished when the pool was destroyed", out, n);
  if (extra) fail("started-after-destruction", "%d queued tasks were started after the destruction had begun and all workers were busy (%d of them while others still ran)", extra, during);
  if (live_threads() != 0) fail("thread-leak", "%d worker threads are alive after the destruction", live_threads());
}
Scenario s_stop("tp_stop", "destruction while every worker executes a task and more are queued", true, 1, gen_stop, run_stop);

// the operating system refuses a thread
void gen_ctor(Rng& r, Plan& p) {
  p.cfg["threads"]         = r.range(1, 5);
  p.cfg["wait"]            = r.range(1, 5);
  p.cfg["f_thread_create"] = r.range(100, 600);
  if (r.chance(1, 3)) p.cfg["f_alloc"] = r.range(20, 120);
  for (int i = 0; i < 3; ++i) p.ops.push_back(Op(SUBMIT, 0, r.range(0, 3), 0));
}
void run_ctor(const Plan& p) {
  Ctx c;
  setup(p, c);
  bool built = false;
  try {
    ThreadPool pool((unsigned)p.get("threads"), (unsigned)p.get("wait"));
    enable_faults(false);
    built  = true;
    c.pool = &pool;
    int id = 0;
    phase(p, 0, c, id);
    pool.block();
    check_all_done(pool, c);
  } catch (const std::system_error&) {
    probe("ctor_system_error");
  } catch (const std::bad_alloc&) {
    probe("ctor_bad_alloc");
  }
  enable_faults(false);
  Quiet q;
  event("built=%d", (int)built);
  if (live_threads() != 0) fail("thread-leak", "%d worker threads are alive after a failed construction", live_threads());
}
Scenario s_ctor("tp_ctor_fail", "thread creation and allocation fail during construction", true, 1, gen_ctor, run_ctor);

// ------------------------------------------------------------------ progress, parallelism, counters
void gen_gate(Rng& r, Plan& p) {
  p.cfg["threads"] = r.range(1, 4);
  p.cfg["wait"]    = r.range(1, 20);
  p.cfg["extra"]   = r.chance(1, 3) ? r.range(7, 48) : r.range(0, 6);
  p.cfg["group"]   = r.chance(1, 2) ? r.range(2, 4) : 1;  // extra tasks that follow each other and wait for each other
  p.cfg["style"]   = r.below(3);
  if (r.chance(1, 3)) p.cfg["f_stall"] = r.range(5, 60);
  if (r.chance(1, 3)) p.cfg["f_oversleep"] = r.range(20, 300);
  p.ops.push_back(Op(SUBMIT));
}
void run_gate(const Plan& p) {
  int  n = (int)p.get("threads"), extra = (int)p.get("extra");
  bool leave_to_dtor = p.get("style") == 2;
  std::mutex              m;
  std::condition_variable cv;
  int                     in = 0, ran = 0;
  bool                    open = false;
  const int               group = leave_to_dtor ? 1 : std::max(1, std::min(n, (int)p.get("group")));  // the destructor drops what has not started
  std::vector<int>        inside;
  {
    Quiet q;
    inside.assign(extra + 1, 0);
  }
  {
    ThreadPool pool(n, (unsigned)p.get("wait"));
    // n tasks that only end when all of them are inside: needs n tasks running at the same time
    for (int i = 0; i < n; ++i)
      pool.submit([&] {
        std::unique_lock<std::mutex> l(m);
        ++in;
        cv.notify_all();
        cv.wait(l, [&] { return open; });
      });
    {
      std::unique_lock<std::mutex> l(m);
      cv.wait(l, [&] { return in == n; });
    }
    event("all %d gates are inside", n);
    for (int i = 0; i < extra; ++i)
      pool.submit([&, i] {
        std::unique_lock<std::mutex> l(m);
        int g = i / group, size = std::min(group, extra - g * group);
        if (++inside[g] == size) cv.notify_all();
        cv.wait(l, [&] { return inside[g] == size; });
        ++ran;
      });
    size_t a = pool.queued(), b = pool.running(), c = pool.activeThreads();
    event("queued=%zu running=%zu active=%zu", a, b, c);
    if ((int)a != extra) sfail("queued-count", "queued() is %zu with %d tasks queued and all the workers busy", a, extra);
    if ((int)b != n) sfail("running-count", "running() is %zu with %d tasks executing", b, n);
    if ((int)c != n) sfail("active-count", "activeThreads() is %zu in a pool of %d threads", c, n);
    {
      std::lock_guard<std::mutex> l(m);
      open = true;
      cv.notify_all();
    }
    if (!leave_to_dtor) {
      u64 t0 = now_ns();
      pool.block();
      u64 dt = now_ns() - t0;
      std::lock_guard<std::mutex> l(m);
      if (ran != extra) fail("task-lost", "block() returned after %d of %d tasks", ran, extra);
      if (dt > 30000000000ull) sfail("block-slow", "block() took %.1f simulated seconds for trivial tasks", dt / 1e9);
      if (pool.queued() != 0) sfail("queued-count", "queued() is not 0 after block()");
    }
    if (!leave_to_dtor && p.get("style") != 2) {
      // an idle pool runs nothing, but for the moments in which a worker looks at the queue
      u64 t0 = now_ns();
      for (int i = 1; pool.running() != 0; ++i) {
        std::this_thread::sleep_for(std::chrono::microseconds(1000 * (1 + p.get("wait")) / 3 + 377 * i));
        if (now_ns() - t0 > 20000000000ull) sfail("running-count", "running() stays above 0 for 20 s in an idle pool");
      }
      if ((int)pool.activeThreads() != n) sfail("active-count", "activeThreads() is %zu in an idle pool of %d threads", pool.activeThreads(), n);
    }
    if (p.get("style") == 1) {
      // idle for a while: a second block() returns at once, and again
      std::this_thread::sleep_for(std::chrono::milliseconds(100));
      pool.block();
      pool.block();
    }
  }
  event("destroyed");
}
Scenario s_gate("tp_gate", "n tasks run in parallel, counters with busy workers, bounded block()", true, 2, gen_gate, run_gate);

// no worker threads: the submitter runs the task
void gen_zero(Rng& r, Plan& p) {
  p.cfg["threads"] = 0;
  p.cfg["wait"]    = r.range(1, 5);
  p.cfg["actors"]  = r.range(1, 3);
  int n            = r.range(1, 8);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(SUBMIT, r.below(3), r.range(0, 2), r.chance(1, 3) ? 3 : r.chance(1, 3) ? 2 : 0));
  p.ops.push_back(Op(BLOCK));
}
Scenario s_zero("tp_zero", "a pool without threads runs tasks in submit()", true, 1, gen_zero, run_block);

}  // namespace
