// Scenarios for FilePool: the real FileManager/LRUFileManager/FileHandler/FileAccessor under the simulated scheduler.
// The operating system's files are a stub: OpenCloseTrait specialisations that record every open and close.
#include "../sim/simthr.h"
#include "ElementsKernel/Exception.h"
#include "FilePool/FileHandler.h"
#include "FilePool/LRUFileManager.h"
#include <map>
#include <sys/resource.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace sim;
using namespace Euclid::FilePool;

namespace {

struct OpenError : std::runtime_error {
  OpenError() : std::runtime_error("open: injected error") {}
};

// ------------------------------------------------------------------ the recorded world (touched inside Quiet only)
struct FdState {
  int  file = -1, type = 0;
  bool write = false, open = false, in_use = false;
  long used_at = 0;
  FileHandler* handler = nullptr;  // that opened it; it lives at least as long as the descriptor
};
struct FileState {
  int          readers = 0, writers = 0;
  FileHandler* handler = nullptr;  // while handler_refs > 0
  int          handler_refs = 0;
  int          busy = 0;  // calls in progress or accessors held
};
struct World {
  std::vector<FdState>   fd;
  std::vector<FileState> file;
  std::string            dir;
  unsigned               limit  = 0;
  int                    nopen  = 0, max_open = 0;
  int                    opening = 0;
  bool                   gone   = false;  // manager destroyed
  int                    io_ms  = 0;
  int                    active = 0;  // operations in progress
  long                   ops    = 0;  // operations started so far
  long                   clock  = 0;
  bool                   open_fails_next = false;
  bool                   in_close_all = false;
  std::map<int, FileHandler*> opener;  // the handler of the call in progress, by thread
};
World* W;

int file_of(const boost::filesystem::path& p) {
  auto n = p.filename().string();
  if (n.size() < 2 || n[0] != 'f') fail("path", "descriptor opened for the unknown path %s", p.string().c_str());
  return atoi(n.c_str() + 1);
}

int world_open(const boost::filesystem::path& path, bool write, int type) {
  int f;
  {
    Quiet q;
    f = file_of(path);
    event("open begins: file %d %s type %d", f, write ? "w" : "r", type);
  }
  if (W->io_ms) sleep_ms(W->io_ms);
  else yield_point();
  if (W->open_fails_next || fault("open_error")) {
    Quiet q;
    event("open fails: file %d", f);
    throw OpenError();
  }
  int t;
  {
    Quiet q;
    FileState& s = W->file[f];
    if (write && (s.readers || s.writers)) sfail("open-while-used", "file %d is opened for writing while %d readers and %d writers use it", f, s.readers, s.writers);
    if (!write && s.writers) sfail("open-while-used", "file %d is opened for reading while a writer uses it", f);
    FileHandler* h = W->opener.count(thread_id()) ? W->opener[thread_id()] : nullptr;
    for (size_t i = 0; h && i < W->fd.size(); ++i) {
      FdState& o = W->fd[i];
      if (o.open && o.handler == h && o.file == f && (o.write || write))
        sfail("mode-overlap", "file %d is opened for %s by a handler whose descriptor %zu for %s is still open", f, write ? "writing" : "reading", i, o.write ? "writing" : "reading");
    }
    t = (int)W->fd.size();
    W->fd.push_back(FdState());
    FdState& d = W->fd.back();
    d.file = f, d.type = type, d.write = write, d.open = true, d.handler = h;
    if (++W->nopen > W->max_open) W->max_open = W->nopen;
    event("opened: descriptor %d of file %d, %d open", t, f, W->nopen);
    if (W->limit && W->nopen > (int)W->limit) sfail("limit-exceeded", "%d descriptors are open with a limit of %u", W->nopen, W->limit);
    // a file never has idle descriptors of the other mode once a new one is opened
  }
  if (W->io_ms) sleep_ms(W->io_ms);
  else yield_point();
  return t;
}
void world_close(int t, int type) {
  yield_point();
  {
    Quiet q;
    if (t < 0 || t >= (int)W->fd.size()) fail("close-bad-descriptor", "close of something that is not a descriptor (%d)", t);
    FdState& d = W->fd[t];
    if (d.type != type) fail("close-wrong-type", "descriptor %d of type %d closed as type %d", t, d.type, type);
    if (!d.open) fail("double-close", "descriptor %d of file %d is closed twice", t, d.file);
    if (d.in_use) fail("closed-in-use", "descriptor %d of file %d is closed while an accessor uses it", t, d.file);
    d.open = false;
    --W->nopen;
    sig(1000 + t);
    event("closed: descriptor %d of file %d, %d open", t, d.file, W->nopen);
  }
  yield_point();
}

// three kinds of descriptor: move-only, copyable handle, pointer-like
struct MoveFd {
  int t = -1;
  explicit MoveFd(int t_) : t(t_) {}
  MoveFd(MoveFd&& o) noexcept : t(o.t) { o.t = -1; }
  MoveFd& operator=(MoveFd&& o) noexcept { t = o.t; o.t = -1; return *this; }
  MoveFd(const MoveFd&) = delete;
};
struct CopyFd {
  int t = -1;
};
struct BoxFd {
  std::unique_ptr<int> t;
};

}  // namespace

namespace Euclid {
namespace FilePool {
template <>
struct OpenCloseTrait<MoveFd> {
  static MoveFd open(const boost::filesystem::path& p, bool w) { return MoveFd(world_open(p, w, 0)); }
  static void   close(MoveFd& f) { world_close(f.t, 0); }
};
template <>
struct OpenCloseTrait<CopyFd> {
  static CopyFd open(const boost::filesystem::path& p, bool w) { CopyFd f; f.t = world_open(p, w, 1); return f; }
  static void   close(CopyFd& f) { world_close(f.t, 1); }
};
template <>
struct OpenCloseTrait<BoxFd> {
  static BoxFd open(const boost::filesystem::path& p, bool w) { BoxFd f; f.t.reset(new int(world_open(p, w, 2))); return f; }
  static void  close(BoxFd& f) { world_close(f.t ? *f.t : -1, 2); }
};
}  // namespace FilePool
}  // namespace Euclid

namespace {

int tok(const MoveFd& f) { return f.t; }
int tok(const CopyFd& f) { return f.t; }
int tok(const BoxFd& f) { return f.t ? *f.t : -1; }

struct Held {
  int                               file, token;
  bool                              write;
  std::unique_ptr<FileAccessorBase> acc;
};

// ------------------------------------------------------------------ operations
std::string spelling(int f, int how) {
  std::string n = "/f" + std::to_string(f);
  switch (how % 4) {
    case 1: return W->dir + "/sub/.." + n;
    case 2: return W->dir + "/link" + n;
    case 3: return W->dir + "/./sub/../." + n;
    default: return W->dir + n;
  }
}

std::shared_ptr<FileHandler> op_handler(FileManager& m, int f, int how) {
  std::string p;
  {
    Quiet q;
    p = spelling(f, how);
    ++W->active;
    ++W->ops;
    event("getFileHandler file %d", f);
  }
  auto h = m.getFileHandler(p);
  Quiet q;
  --W->active;
  FileState& s = W->file[f];
  if (!h) fail("null-handler", "getFileHandler returned nothing");
  if (s.handler_refs > 0 && s.handler != h.get()) sfail("two-handlers", "file %d has a second handler while the first one is still in use", f);
  s.handler = h.get();
  ++s.handler_refs;
  return h;
}
// the reference counts as held until the release begins
void op_drop(std::shared_ptr<FileHandler>& h, int f) {
  {
    Quiet q;
    --W->file[f].handler_refs;
    ++W->active;
    ++W->ops;
    event("drop handler of file %d", f);
  }
  h.reset();
  Quiet q;
  --W->active;
}

// moves a read accessor in a new object, where accessors can be moved
template <typename TFD, bool Can = std::is_move_constructible<FileReadAccessor<TFD>>::value>
struct Mover {
  static void move(std::unique_ptr<FileAccessor<TFD>>& a) {
    auto* r = dynamic_cast<FileReadAccessor<TFD>*>(a.get());
    if (r) a.reset(new FileReadAccessor<TFD>(std::move(*r)));
  }
};
template <typename TFD>
struct Mover<TFD, false> {
  static void move(std::unique_ptr<FileAccessor<TFD>>&) {}
};

template <typename TFD>
bool op_access_t(FileHandler& h, int f, int mode, bool nolimit_possible, std::vector<Held>& held, int& outcome) {
  const bool write = mode & FileHandler::kWrite, tr = mode & FileHandler::kTry;
  long       ops0;
  int        active0, inuse0 = 0, busy0;
  {
    Quiet q;
    event("getAccessor file %d mode %d", f, mode);
    active0 = W->active++;
    ops0    = ++W->ops;
    busy0   = W->file[f].busy++;
    for (auto& d : W->fd) inuse0 += d.open && d.in_use;
    W->opener[thread_id()] = &h;
  }
  std::unique_ptr<FileAccessor<TFD>> a;
  outcome = 0;
  try {
    a = h.getAccessor<TFD>((FileHandler::Mode)mode);
  } catch (const OpenError&) {
    outcome = 1;
  } catch (const Elements::Exception& e) {
    outcome = 2;
  }
  if (a && !write && tok(a->m_fd) % 3 == 0) {
    int t = tok(a->m_fd);
    Mover<TFD>::move(a);
    if (tok(a->m_fd) != t) fail("bad-descriptor", "moving the accessor of file %d changed its descriptor", f);
  }
  Quiet q;
  W->opener.erase(thread_id());
  --W->active;
  sig((u64)(f * 64 + mode * 16 + outcome * 4 + (a ? 1 : 0)));
  FileState& s = W->file[f];
  if (!a) --s.busy;
  if (outcome == 1) {
    event("getAccessor file %d: open error", f);
    return false;
  }
  if (outcome == 2) {
    event("getAccessor file %d: limit reached", f);
    probe("limit-reached");
    // nobody else did anything during the call: a descriptor that is not in use must have been closed to make room
    if (active0 == 0 && W->ops == ops0 && inuse0 < (int)W->limit)
      sfail("refused-below-limit", "getAccessor gave up at the limit of %u although only %d descriptors are in use and nothing else happened", W->limit, inuse0);
    return false;
  }
  if (!a) {
    event("getAccessor file %d: would block", f);
    if (!tr) fail("no-accessor", "getAccessor returned nothing in a blocking mode");
    outcome = 3;
    probe("try-refused");
    if (busy0 == 0 && W->ops == ops0) sfail("try-refused-free-file", "getAccessor in try mode returned nothing although nobody uses file %d", f);
    return false;
  }
  int      t = tok(a->m_fd);
  if (t < 0 || t >= (int)W->fd.size()) fail("bad-descriptor", "accessor of file %d without descriptor (%d)", f, t);
  FdState& d = W->fd[t];
  event("accessor of file %d: descriptor %d", f, t);
  if (!d.open) fail("closed-descriptor", "accessor of file %d got the descriptor %d, which is closed", f, t);
  if (d.in_use) fail("shared-descriptor", "descriptor %d of file %d is given to two accessors", t, f);
  if (d.file != f) fail("wrong-file", "accessor of file %d got a descriptor of file %d", f, d.file);
  if (d.write != write) sfail("wrong-mode", "%s accessor of file %d got a descriptor opened for %s", write ? "write" : "read", f, d.write ? "writing" : "reading");
  if (a->isReadOnly() == write) sfail("wrong-mode", "isReadOnly() of the accessor is %d in mode %d", (int)a->isReadOnly(), mode);
  if (s.writers || (write && s.readers)) sfail("exclusion", "%s accessor of file %d while %d readers and %d writers use it", write ? "write" : "read", f, s.readers, s.writers);
  (write ? s.writers : s.readers)++;
  d.in_use = true;
  if (s.readers > 1) probe("two-readers");
  d.in_use  = true;
  d.used_at = ++W->clock;
  held.emplace_back();
  held.back().file = f, held.back().token = t, held.back().write = write;
  held.back().acc = std::move(a);
  return true;
}

bool op_access(FileHandler& h, int f, int mode, int type, std::vector<Held>& held, int& outcome) {
  switch (type) {
    case 0: return op_access_t<MoveFd>(h, f, mode, false, held, outcome);
    case 1: return op_access_t<CopyFd>(h, f, mode, false, held, outcome);
    default: return op_access_t<BoxFd>(h, f, mode, false, held, outcome);
  }
}

void op_release(std::vector<Held>& held, size_t i) {
  Held h;
  {
    Quiet q;
    h = std::move(held[i]);
    held.erase(held.begin() + i);
    FileState& s = W->file[h.file];
    (h.write ? s.writers : s.readers)--;
    FdState& d = W->fd[h.token];
    if (!d.open) fail("closed-in-use", "descriptor %d of file %d was closed while in use", h.token, h.file);
    d.in_use = false;
    d.used_at = ++W->clock;
    sig(2000 + h.token);
    event("release accessor of file %d: descriptor %d", h.file, h.token);
    ++W->active;
    ++W->ops;
  }
  h.acc.reset();
  Quiet q;
  --W->active;
  --W->file[h.file].busy;
}

void all_closed(const char* when) {
  Quiet q;
  for (size_t i = 0; i < W->fd.size(); ++i)
    if (W->fd[i].open) sfail("descriptor-leak", "descriptor %zu of file %d is still open %s", i, W->fd[i].file, when);
}

void make_world(World& w, const Plan& p) {
  Quiet q;
  W        = &w;
  w.dir    = boost::filesystem::canonical(scratch()).string();
  w.limit  = (unsigned)p.get("limit", 3);
  w.io_ms  = (int)p.get("io_ms");
  w.file.resize(8);
  mkdir((w.dir + "/sub").c_str(), 0700);
  if (symlink(".", (w.dir + "/link").c_str())) {}
}

// ------------------------------------------------------------------ generic concurrent workload
enum { ACCESS = 0, RELEASE, HANDLER, DROP, PAUSE, QUERY, CLOSEALL, CHAIN };

void workload(std::shared_ptr<LRUFileManager> m, const Plan& p, int actor) {
  std::vector<Held> held;
  std::vector<std::pair<int, std::shared_ptr<FileHandler>>> hs;
  auto handler = [&](int f, int how) -> FileHandler* {
    for (auto& h : hs)
      if (h.first == f) return h.second.get();
    auto h = op_handler(*m, f, how);
    Quiet q;
    hs.emplace_back(f, std::move(h));
    return hs.back().second.get();
  };
  for (const Op& o : p.ops) {
    if (o.v[1] != actor) continue;
    int f = o.v[2];
    switch (o.kind()) {
      case ACCESS: {
        int mode = o.v[3] & 3;
        // A user may not wait for a file while keeping others from theirs: the second accessor is only tried
        if (!held.empty()) mode |= FileHandler::kTry;
        int oc;
        op_access(*handler(f, o.v[5]), f, mode, o.v[4], held, oc);
        break;
      }
      case CHAIN: {  // manager->getFileHandler(..)->getAccessor(..): the accessor is all that is kept
        int  mode = o.v[3] & 3, oc;
        if (!held.empty()) mode |= FileHandler::kTry;
        auto h = op_handler(*m, f, o.v[5]);
        op_access(*h, f, mode, o.v[4], held, oc);
        op_drop(h, f);
        break;
      }
      case RELEASE:
        if (!held.empty()) op_release(held, (size_t)o.v[2] % held.size());
        break;
      case HANDLER: handler(f, o.v[5]); break;
      case DROP:
        if (!hs.empty()) {
          size_t i = (size_t)o.v[3] % hs.size();
          int    g = hs[i].first;
          auto   h = std::move(hs[i].second);
          hs.erase(hs.begin() + i);
          op_drop(h, g);
        }
        break;
      case PAUSE: sleep_ms(o.v[3]); break;
      case QUERY: {
        unsigned u = m->getUsed(), a = m->getAvailable();
        bool     has = m->hasHandler(W->dir + "/f" + std::to_string(f));
        bool     held_by_me = false;
        for (auto& h : hs) held_by_me |= h.first == f;
        for (auto& h : hs) (void)h.second->isReadOnly();
        Quiet q;
        if (u > W->limit || a > W->limit) sfail("counters", "getUsed() %u, getAvailable() %u with a limit of %u", u, a, W->limit);
        if (m->getLimit() != W->limit) sfail("counters", "getLimit() %u", m->getLimit());
        if (held_by_me && !has) sfail("handler-lost", "hasHandler() is false for file %d although its handler is in use", f);
        for (auto& h : held)
          if (h.write)
            for (auto& x : hs)
              if (x.first == h.file && x.second->isReadOnly()) sfail("wrong-mode", "isReadOnly() while file %d is being written", h.file);
        break;
      }
      case CLOSEALL: {
        {
          Quiet q;
          ++W->active;
          ++W->ops;
          event("closeAll");
        }
        m->closeAll();
        Quiet q;
        --W->active;
        break;
      }
    }
  }
  while (!held.empty()) op_release(held, held.size() - 1);
  while (!hs.empty()) {
    auto h = std::move(hs.back());
    hs.pop_back();
    op_drop(h.second, h.first);
  }
}

// After the concurrent phase and with faults off: the pool must give its full capacity.
void recovery(std::shared_ptr<LRUFileManager> m) {
  enable_faults(false);
  {
    Quiet q;
    W->open_fails_next = false;
    W->io_ms           = 0;
    event("recovery phase");
  }
  if (m->getUsed() != (unsigned)W->nopen) {
    Quiet q;
    sfail("accounting", "getUsed() is %u with %d descriptors open", m->getUsed(), W->nopen);
  }
  if (m->getAvailable() != W->limit - (unsigned)W->nopen) sfail("accounting", "getAvailable() is %u with %d of %u descriptors open", m->getAvailable(), W->nopen, W->limit);
  std::vector<Held>                         held;
  std::vector<std::shared_ptr<FileHandler>> hs;
  for (unsigned i = 0; i <= W->limit && i < W->file.size(); ++i) {
    auto h = op_handler(*m, (int)i, 0);
    int  oc;
    bool ok = op_access(*h, (int)i, i % 2 ? FileHandler::kWrite : FileHandler::kRead, (int)i % 3, held, oc);
    if (i < W->limit && !ok) sfail("capacity-lost", "only %u of %u files can be open at the same time after the faults stopped (outcome %d)", i, W->limit, oc);
    if (i == W->limit && ok) sfail("limit-exceeded", "one file more than the limit of %u is in use", W->limit);
    hs.push_back(h);
  }
  while (!held.empty()) op_release(held, 0);
  for (size_t i = 0; i < hs.size(); ++i) op_drop(hs[i], (int)i);
  hs.clear();
  all_closed("after all handlers were released");
  if (m->getUsed() != 0) sfail("accounting", "getUsed() is %u with nothing open", m->getUsed());
  for (int f = 0; f < 8; ++f)
    if (m->hasHandler(W->dir + "/f" + std::to_string(f))) sfail("handler-kept", "hasHandler() is true for file %d although all its handlers were released", f);
}

void run_conc(const Plan& p) {
  World w;
  make_world(w, p);
  {
    auto m = std::make_shared<LRUFileManager>((unsigned)p.get("limit"));
    std::vector<std::thread> th;
    for (int i = 1; i < p.get("actors"); ++i) th.emplace_back([&, i] { workload(m, p, i); });
    workload(m, p, 0);
    for (auto& t : th) t.join();
    recovery(m);
    {
      Quiet q;
      sig(W->max_open);
      sig(W->fd.size());
    }
  }
  all_closed("after the manager was destroyed");
}

int gen_mode(Rng& r) { return (int)(r.below(10) < 4 ? 0 : r.below(10) < 6 ? 1 : r.below(2) ? 2 : 3); }

void gen_ops(Rng& r, Plan& p, int nfiles, int ntypes, int per, const std::vector<int>& wts) {
  int tot = 0;
  for (int w : wts) tot += w;
  int actors = (int)p.cfg["actors"];
  for (int i = 0; i < per * actors; ++i) {
    int a = (int)r.below(actors), k = 0, x = (int)r.below(tot);
    while (x >= wts[k]) x -= wts[k++];
    int f = (int)r.below(nfiles);
    p.ops.push_back(Op(k, a, f, k == PAUSE ? (int)r.range(1, 30) : k == DROP ? (int)r.below(4) : gen_mode(r), (int)r.below(ntypes), r.chance(1, 4) ? (int)r.below(4) : 0));
  }
}

void noise(Rng& r, Plan& p) {
  if (r.chance(1, 3)) p.cfg["f_stall"] = r.range(20, 400);
  if (r.chance(1, 4)) p.cfg["f_spurious_wakeup"] = r.range(20, 300);
}

//                          ACCESS RELEASE HANDLER DROP PAUSE QUERY CLOSEALL CHAIN
const std::vector<int> MIX{40, 30, 4, 8, 6, 5, 2, 12}, CHURN{16, 26, 8, 22, 3, 3, 1, 30}, EVICT{60, 46, 2, 5, 2, 2, 1, 6}, QUIETMIX{44, 40, 0, 2, 8, 0, 0, 2};

Scenario s_mixed("fp_mixed", "threads share files through a small pool: every operation", true, 3,
    [](Rng& r, Plan& p) {
      p.cfg["actors"] = r.range(2, 4);
      p.cfg["limit"]  = r.range(1, 4);
      if (r.chance(1, 3)) p.cfg["io_ms"] = r.range(1, 5);
      noise(r, p);
      gen_ops(r, p, (int)r.range(1, 4), (int)r.range(1, 3), (int)r.range(3, 9), MIX);
    }, run_conc);
Scenario s_churn("fp_churn", "handlers of the same few files requested and dropped by several threads", true, 3,
    [](Rng& r, Plan& p) {
      p.cfg["actors"] = r.range(2, 4);
      p.cfg["limit"]  = r.range(2, 6);
      noise(r, p);
      gen_ops(r, p, (int)r.range(1, 2), (int)r.range(1, 2), (int)r.range(4, 10), CHURN);
    }, run_conc);
Scenario s_evict("fp_evict", "more files than the limit: every open has to evict", true, 3,
    [](Rng& r, Plan& p) {
      p.cfg["actors"] = r.range(2, 4);
      p.cfg["limit"]  = r.range(1, 3);
      if (r.chance(1, 3)) p.cfg["io_ms"] = r.range(1, 5);
      noise(r, p);
      gen_ops(r, p, (int)r.range(2, 6), (int)r.range(1, 3), (int)r.range(4, 9), EVICT);
    }, run_conc);
Scenario s_fault("fp_fault", "opening fails at random points", true, 3,
    [](Rng& r, Plan& p) {
      p.cfg["actors"] = r.range(1, 4);
      p.cfg["limit"]  = r.range(1, 4);
      if (r.chance(1, 3)) p.cfg["io_ms"] = r.range(1, 5);
      p.cfg["f_open_error"] = r.range(50, 600);
      noise(r, p);
      gen_ops(r, p, (int)r.range(1, 4), (int)r.range(1, 3), (int)r.range(4, 10), r.chance(1, 2) ? MIX : EVICT);
    }, run_conc);

// ------------------------------------------------------------------ try mode never waits
void run_try(const Plan& p) {
  World w;
  make_world(w, p);
  {
    auto              m = std::make_shared<LRUFileManager>(8u);
    w.limit             = 8;
    const int         hold = (int)p.get("hold");
    std::vector<Held> held;
    std::vector<std::pair<int, std::shared_ptr<FileHandler>>> hs;
    std::vector<std::thread> th;
    // holders keep accessors for a long (simulated) time
    for (int i = 1; i < p.get("actors"); ++i)
      th.emplace_back([&, i] {
        std::vector<Held> mine;
        for (const Op& o : p.ops) {
          if (o.v[1] != i) continue;
          auto h = op_handler(*m, o.v[2], 0);
          int  oc;
          op_access(*h, o.v[2], o.v[3] & 1, o.v[4], mine, oc);
          sleep_ms(hold);
          if (!mine.empty()) op_release(mine, 0);
          op_drop(h, o.v[2]);
        }
      });
    for (const Op& o : p.ops) {
      if (o.v[1] != 0) continue;
      if (o.kind() == RELEASE) {
        if (!held.empty()) op_release(held, 0);
        continue;
      }
      sleep_ms(o.v[5]);
      auto h  = op_handler(*m, o.v[2], 0);
      u64  t0 = now_ns();
      int  oc, mode = (o.v[3] & 1) | FileHandler::kTry;
      int  mine_w = 0, mine_r = 0;
      for (auto& x : held)
        if (x.file == o.v[2]) (x.write ? mine_w : mine_r)++;
      bool ok = op_access(*h, o.v[2], mode, o.v[4], held, oc);
      u64  dt = now_ns() - t0;
      if (dt > (u64)hold * 500000) sfail("try-waited", "getAccessor in try mode waited %llu ms (simulated) for the holder of file %d", (unsigned long long)dt / 1000000, o.v[2]);
      if (ok && (mine_w || ((mode & 1) && mine_r))) sfail("exclusion", "the same thread got conflicting accessors of file %d", o.v[2]);
      op_drop(h, o.v[2]);
    }
    while (!held.empty()) op_release(held, 0);
    for (auto& t : th) t.join();
    recovery(m);
  }
  all_closed("after the manager was destroyed");
}
Scenario s_try("fp_try", "kTryRead/kTryWrite against long holders", true, 2,
    [](Rng& r, Plan& p) {
      p.cfg["actors"] = r.range(1, 4);
      p.cfg["hold"]   = 20000;
      int nf          = (int)r.range(1, 3);
      for (int i = 1; i < p.cfg["actors"]; ++i)
        for (int k = (int)r.range(1, 2); k > 0; --k) p.ops.push_back(Op(ACCESS, i, (int)r.below(nf), (int)r.below(2), (int)r.below(3)));
      for (int k = (int)r.range(2, 8); k > 0; --k)
        p.ops.push_back(Op(r.chance(1, 4) ? RELEASE : ACCESS, 0, (int)r.below(nf), (int)r.below(2), (int)r.below(3), r.chance(1, 2) ? 0 : (int)r.range(0, 3000)));
    }, run_try);

// ------------------------------------------------------------------ exact model of a single user's history
// Reference: idle descriptors are reused; a change of mode closes the others; at the limit the least recently used idle descriptor goes.
struct Model {
  struct D {
    int  file, type;
    bool write, in_use;
    long used;
  };
  std::map<int, D> d;
  std::set<int>    w_mode;  // files whose handler is in write mode
};

void run_seq(const Plan& p) {
  World w;
  make_world(w, p);
  {
    auto              m = std::make_shared<LRUFileManager>((unsigned)p.get("limit"));
    std::vector<Held> held;
    std::map<int, std::shared_ptr<FileHandler>> hs;
    Model             mo;
    long              clk = 0;
    size_t            seen = 0;
    bool              err_next = false;
    for (const Op& o : p.ops) {
      int f = o.v[2];
      std::set<int> before;
      for (size_t i = 0; i < w.fd.size(); ++i)
        if (w.fd[i].open) before.insert((int)i);
      std::set<int> may_close;      // exactly these must be closed
      bool          check = true;
      switch (o.kind()) {
        case ACCESS: {
          if (!hs.count(f)) hs[f] = op_handler(*m, f, o.v[5]);
          int  mode  = o.v[3] & 3, type = o.v[4];
          bool write = mode & 1;
          int  rd = 0, wr = 0;
          for (auto& h : held)
            if (h.file == f) (h.write ? wr : rd)++;
          if (wr || (write && rd)) mode |= FileHandler::kTry;  // would wait for itself
          bool refuse = wr || (write && rd);
          bool reuse = false, limit = false, opens = false;
          int  victim = -1;
          if (!refuse) {
            std::set<int> gone;
            for (auto& x : mo.d)
              if (x.second.file == f && x.second.write != write && !x.second.in_use) gone.insert(x.first);
            for (auto& x : mo.d)
              if (write && x.second.file == f && x.second.write && x.second.type != type) gone.insert(x.first);
            for (auto& x : mo.d)
              if (!gone.count(x.first) && x.second.file == f && x.second.write == write && x.second.type == type && !x.second.in_use) reuse = true;
            if (!reuse) {
              opens = true;
              size_t n = mo.d.size() - gone.size();
              if (n >= w.limit) {
                for (auto& x : mo.d)
                  if (!gone.count(x.first) && !x.second.in_use && (victim < 0 || x.second.used < mo.d[victim].used)) victim = x.first;
                limit = victim < 0;
              }
            }
            may_close = gone;
            if (victim >= 0) may_close.insert(victim), probe("evicted");
          }
          w.open_fails_next = o.v[6] != 0;
          if (w.open_fails_next && opens && !limit) count_fault("open_error");
          int  oc;
          bool ok = op_access(*hs[f], f, mode, type, held, oc);
          bool fail_open = opens && !limit && w.open_fails_next;
          w.open_fails_next = false;
          if (refuse != (oc == 3)) sfail("try-result", "file %d mode %d: %s refused", f, mode, refuse ? "not" : "wrongly");
          if (limit != (oc == 2)) sfail("limit-result", "file %d: %s at the limit", f, limit ? "not refused" : "wrongly refused");
          if (fail_open != (oc == 1)) sfail("open-result", "file %d: failure of open %s reported", f, fail_open ? "not" : "wrongly");
          if (ok) {
            int t = held.back().token;
            bool fresh = (size_t)t >= seen && !mo.d.count(t);
            if (fresh == reuse) sfail("reuse", "file %d: %s although an idle descriptor was %s", f, fresh ? "a new descriptor was opened" : "a descriptor was reused", reuse ? "available" : "not available");
            if (w.fd.size() - seen > (size_t)(fresh ? 1 : 0)) sfail("reuse", "file %d: %zu descriptors were opened for one accessor", f, w.fd.size() - seen);
            mo.d[t] = Model::D{f, type, write, true, ++clk};
          } else if (w.fd.size() != seen)
            sfail("reuse", "file %d: a descriptor was opened for an accessor that was not given", f);
          for (int t : may_close) mo.d.erase(t);
          seen = w.fd.size();
          break;
        }
        case RELEASE:
          if (!held.empty()) {
            size_t i = (size_t)o.v[2] % held.size();
            mo.d[held[i].token].in_use = false;
            op_release(held, i);
          }
          break;
        case DROP:
          if (hs.count(f)) {
            bool used = false;
            for (auto& h : held) used |= h.file == f;
            if (!used) {
              for (auto it = mo.d.begin(); it != mo.d.end();)
                if (it->second.file == f) {
                  may_close.insert(it->first);
                  it = mo.d.erase(it);
                } else
                  ++it;
              op_drop(hs[f], f);
              hs.erase(f);
            }
          }
          break;
        case CLOSEALL:
          for (auto it = mo.d.begin(); it != mo.d.end();)
            if (!it->second.in_use) {
              may_close.insert(it->first);
              it = mo.d.erase(it);
            } else
              ++it;
          m->closeAll();
          break;
        default: check = false;
      }
      if (check) {
        for (int t : before)
          if (w.fd[t].open == (may_close.count(t) != 0))
            sfail(o.kind() == CLOSEALL ? "closeall" : "eviction-order", "descriptor %d of file %d %s: operation %d on file %d", t, w.fd[t].file, w.fd[t].open ? "should have been closed" : "should not have been closed", o.kind(), f);
      }
      if (m->getUsed() != mo.d.size()) sfail("accounting", "getUsed() is %u, %zu descriptors are open", m->getUsed(), mo.d.size());
      if (m->getAvailable() != w.limit - mo.d.size()) sfail("accounting", "getAvailable() is %u, %zu of %u descriptors are open", m->getAvailable(), mo.d.size(), w.limit);
    }
    sig(w.fd.size());
    while (!held.empty()) op_release(held, 0);
    while (!hs.empty()) {
      auto it = hs.begin();
      op_drop(it->second, it->first);
      hs.erase(it);
    }
    recovery(m);
  }
  all_closed("after the manager was destroyed");
  if (p.get("deflimit")) {
    // with limit 0 the manager stays within what the process may open now, with room for the standard streams
    struct rlimit old, l;
    getrlimit(RLIMIT_NOFILE, &old);
    l          = old;
    l.rlim_cur = std::min<rlim_t>(old.rlim_cur, (rlim_t)p.get("deflimit"));
    setrlimit(RLIMIT_NOFILE, &l);
    unsigned limit = std::make_shared<LRUFileManager>(0)->getLimit();
    setrlimit(RLIMIT_NOFILE, &old);
    if (limit == 0 || limit + 3 > l.rlim_cur) sfail("default-limit", "a manager with limit 0 (that of the process) allows %u open files, the process may open %llu", limit, (unsigned long long)l.rlim_cur);
  }
}
Scenario s_lru("fp_lru", "histories of one user against an exact model of reuse, mode change and least-recently-used eviction", true, 3,
    [](Rng& r, Plan& p) {
      if (r.chance(1, 8)) p.cfg["deflimit"] = r.range(100, 900);
      p.cfg["limit"] = r.range(1, 5);
      int nf = (int)r.range(1, 6), nt = (int)r.range(1, 3);
      int erate = r.chance(1, 2) ? (int)r.range(1, 4) : 0;
      for (int k = (int)r.range(4, 30); k > 0; --k) {
        int x = (int)r.below(100), kind = x < 55 ? ACCESS : x < 88 ? RELEASE : x < 95 ? DROP : CLOSEALL;
        p.ops.push_back(Op(kind, 0, (int)r.below(kind == RELEASE ? 8 : nf), gen_mode(r), (int)r.below(nt), (int)r.below(4), erate && r.chance(erate, 10) ? 1 : 0));
      }
    }, run_seq);

// ------------------------------------------------------------------ orders of destruction
void run_life(const Plan& p) {
  World w;
  make_world(w, p);
  w.limit = (unsigned)p.get("limit");
  auto m  = std::make_shared<LRUFileManager>(w.limit);
  std::vector<Held> held;
  std::vector<std::pair<int, std::shared_ptr<FileHandler>>> hs;
  for (const Op& o : p.ops) {
    int f = o.v[2], oc;
    switch (o.kind()) {
      case ACCESS: {
        if (!m) break;
        auto h = op_handler(*m, f, o.v[5]);
        op_access(*h, f, o.v[3] | FileHandler::kTry, o.v[4], held, oc);
        hs.emplace_back(f, h);
        break;
      }
      case RELEASE:
        if (!held.empty()) op_release(held, (size_t)o.v[2] % held.size());
        break;
      case DROP:
        if (!hs.empty()) {
          size_t i = (size_t)o.v[3] % hs.size();
          auto   h = std::move(hs[i]);
          hs.erase(hs.begin() + i);
          op_drop(h.second, h.first);
        }
        break;
      case CLOSEALL:  // the user gives the manager up
        if (o.v[3]) m.reset();
        break;
    }
    if (!m && held.empty()) all_closed("although the manager and all accessors are gone");
  }
  m.reset();
  if (held.empty()) all_closed("after the manager was destroyed");
  while (!held.empty()) op_release(held, 0);
  all_closed("after the last accessor of a destroyed manager was released");
  hs.clear();
  all_closed("at the end");
}
Scenario s_life("fp_life", "manager, handlers and accessors given up in every order", true, 1,
    [](Rng& r, Plan& p) {
      p.cfg["limit"] = r.range(1, 6);
      int nf = (int)r.range(1, 4);
      for (int k = (int)r.range(3, 14); k > 0; --k) {
        int x = (int)r.below(100), kind = x < 50 ? ACCESS : x < 68 ? RELEASE : x < 94 ? DROP : CLOSEALL;
        p.ops.push_back(Op(kind, 0, (int)r.below(kind == RELEASE ? 8 : nf), kind == CLOSEALL ? 1 : (int)r.below(2), (int)r.below(3), (int)r.below(4)));
      }
    }, run_life);

// ------------------------------------------------------------------ the policy interface of FileManager, with a policy of our own
class Policy : public FileManager {
public:
  ~Policy() override { closeAll(); }
  std::mutex    mx;
  int           intents = 0, opened = 0, closed = 0, failed = 0, used = 0;
  std::set<FileId> live;

protected:
  void notifyIntentToOpen(bool) override {
    std::lock_guard<std::mutex> l(mx);
    ++intents;
  }
  void notifyOpenedFile(FileId id) override {
    std::lock_guard<std::mutex> l(mx);
    ++opened;
    if (opened > intents) sfail("policy-order", "a file was opened without announcing it");
    if (!live.insert(id).second) sfail("policy-order", "a file was announced as opened twice");
  }
  void notifyClosedFile(FileId id) override {
    std::lock_guard<std::mutex> l(mx);
    ++closed;
    if (!live.erase(id)) sfail("policy-order", "a file was announced as closed but was not open");
  }

public:
  void notifyUsed(FileId id) override {
    FileManager::notifyUsed(id);
    std::lock_guard<std::mutex> l(mx);
    ++used;
    if (!live.count(id)) sfail("policy-order", "a file was announced as used but is not open");
  }
};
void run_policy(const Plan& p) {
  World w;
  make_world(w, p);
  w.limit = 0;
  {
    auto m = std::make_shared<Policy>();
    auto work = [&](int actor) {
      std::vector<Held> held;
      for (const Op& o : p.ops) {
        if (o.v[1] != actor) continue;
        int f = o.v[2], oc;
        if (o.kind() == ACCESS || o.kind() == CHAIN) {
          auto h    = op_handler(*m, f, o.v[5]);
          int  mode = o.v[3] & 3;
          if (!held.empty()) mode |= FileHandler::kTry;
          op_access(*h, f, mode, o.v[4], held, oc);
          op_drop(h, f);
        } else if (o.kind() == RELEASE && !held.empty())
          op_release(held, (size_t)o.v[2] % held.size());
        else if (o.kind() == CLOSEALL)
          m->closeAll();
      }
      while (!held.empty()) op_release(held, 0);
    };
    std::vector<std::thread> th;
    for (int i = 1; i < p.get("actors"); ++i) th.emplace_back([&, i] { work(i); });
    work(0);
    for (auto& t : th) t.join();
    all_closed("after all handlers were released");
    if (m->opened != m->closed || !m->live.empty()) sfail("policy-count", "%d files were announced as opened, %d as closed", m->opened, m->closed);
    if (m->opened != (int)w.fd.size()) sfail("policy-count", "%d files were announced as opened, %zu were", m->opened, w.fd.size());
  }
}
Scenario s_policy("fp_policy", "a custom FileManager policy sees every open and close exactly once", true, 1,
    [](Rng& r, Plan& p) {
      p.cfg["actors"] = r.range(1, 3);
      if (r.chance(1, 3)) p.cfg["f_open_error"] = r.range(50, 400);
      noise(r, p);
      gen_ops(r, p, (int)r.range(1, 3), (int)r.range(1, 3), (int)r.range(3, 8), MIX);
    }, run_policy);

}  // namespace
