// Single-threaded runtime: system calls on files below the scratch directory go through here.
#include "internal.h"
#include "simio.h"
#include <random>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <new>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
using namespace in;

namespace {
const int MAXFD = 1024;
bool      w_fd[MAXFD];
u64       w_calls = 0, w_mut = 0;
i64       w_crash_at = -1;
bool      w_in_crashable = false;
i64       w_disk = -1;  // bytes left on the simulated disk, -1 unlimited
bool      w_disk_init = false;
int*      w_shared = nullptr;

// decisions made in a crashable process are not made again by its parent
struct Exported {
  u64 rng, kidx[MAXKIND], evseq, calls;
  i64 disk;
  bool disk_init;
};
Exported* w_exp = nullptr;
void export_state() {
  w_exp->rng   = g_rng.s;
  w_exp->evseq = g_evseq;
  w_exp->calls = w_calls;
  w_exp->disk  = w_disk;
  w_exp->disk_init = w_disk_init;
  memcpy(w_exp->kidx, g_kidx, sizeof g_kidx);
}
void import_state() {
  g_rng.s = w_exp->rng;
  g_evseq = w_exp->evseq;
  w_calls = w_exp->calls;
  w_disk  = w_exp->disk;
  w_disk_init = w_exp->disk_init;
  memcpy(g_kidx, w_exp->kidx, sizeof g_kidx);
}

bool live() { return g_in_run && !g_quiet; }
bool watched(int fd) { return fd >= 0 && fd < MAXFD && w_fd[fd] && live(); }
bool under(const char* p) { return p && live() && !g_scratch_dir.empty() && strncmp(p, g_scratch_dir.c_str(), g_scratch_dir.size()) == 0; }

void note(const char* what, int fd, long a, long r) {
  Quiet q;
  ++w_calls;
  (void)fd;
  event("disk: %s %ld -> %ld", what, a, r < -1 || !strcmp(what, "read") || !strcmp(what, "write") ? r : (r < 0 ? -1L : 0L));
}
// the n-th mutating call of a crashable process is its last; returns true if it must be torn (half done) first
void crash_point(const std::function<void()>& torn) {
  if (!w_in_crashable || w_crash_at < 0) return;
  if ((i64)w_mut++ != w_crash_at) return;
  {
    Quiet q;
    event("process crash");
    count_fault("crash");
  }
  if (plan().get("crash_torn") || plan().get("crash_after")) torn();
  export_state();
  _exit(77);
}
i64 disk_take(size_t n) {
  if (!w_disk_init) {
    w_disk_init = true;
    w_disk      = plan().get("disk_bytes", -1);
  }
  if (w_disk < 0 || !faults_enabled()) return (i64)n;
  i64 k = std::min<i64>((i64)n, w_disk);
  w_disk -= k;
  if (k < (i64)n) {
    Quiet q;
    count_fault("disk_full");
  }
  return k;
}
}  // namespace

u64  disk_calls() { return w_calls; }
int* shared_ints() {
  if (!w_shared) w_shared = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return w_shared;
}

bool crashable(const std::function<void()>& f) {
  shared_ints();
  if (!w_exp) w_exp = (Exported*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  export_state();
  pid_t pid = fork();
  if (pid == 0) {
    w_in_crashable = true;
    w_mut          = 0;
    w_crash_at     = plan().get("crash_at", -1);
    try {
      f();
    } catch (std::exception& e) {
      fail("harness-exception", "unexpected exception out of the workload: %s", e.what());
    }
    export_state();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == 2) _exit(0);
  import_state();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (WIFSIGNALED(st)) fail("crash-signal", "the process died with signal %d", WTERMSIG(st));
  _exit(WEXITSTATUS(st));  // sanitizer report
}

namespace in {
void run_world(const std::function<void()>& f) {
  f();
  sig(R->hash);
}
}

// ------------------------------------------------------------------ streams
InBuf::InBuf(const std::string& data, size_t stop, End end, bool seekable) : m_data(data), m_stop(std::min(stop, data.size())), m_end(end), m_seek(seekable) {
  if (end == CLEAN) m_stop = data.size();
  setg(m_buf, m_buf, m_buf);
}
InBuf::int_type InBuf::underflow() {
  Quiet q;
  if (m_pos >= m_stop) {
    if (m_end != CLEAN) {
      if (!m_hit) count_fault(m_end == TRUNCATED ? "stream_truncated" : "stream_error");
      m_hit = true;
    }
    if (m_end == BROKEN) throw std::runtime_error("simulated read error");
    return traits_type::eof();
  }
  size_t n = std::min(sizeof m_buf, m_stop - m_pos);
  n        = 1 + pick("chunk", n);
  memcpy(m_buf, m_data.data() + m_pos, n);
  m_pos += n;
  setg(m_buf, m_buf, m_buf + n);
  return traits_type::to_int_type(*gptr());
}
std::streamsize InBuf::xsgetn(char* s, std::streamsize n) {
  std::streamsize k = 0;
  while (k < n) {
    if (gptr() == egptr() && traits_type::eq_int_type(underflow(), traits_type::eof())) break;
    std::streamsize m = std::min<std::streamsize>(n - k, egptr() - gptr());
    memcpy(s + k, gptr(), m);
    gbump((int)m);
    k += m;
  }
  return k;
}
InBuf::pos_type InBuf::seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) {
  if (!m_seek) return pos_type(off_type(-1));
  off_type cur = (off_type)m_pos - (egptr() - gptr());
  off_type t   = d == std::ios_base::beg ? o : d == std::ios_base::cur ? cur + o : (off_type)m_data.size() + o;
  if (t < 0 || t > (off_type)m_data.size()) return pos_type(off_type(-1));
  m_pos = (size_t)t;
  setg(m_buf, m_buf, m_buf);
  return pos_type(t);
}

OutBuf::OutBuf(size_t capacity, bool throws, size_t bufsize, bool sticky) : m_mem(bufsize, '\0'), m_cap(capacity), m_throws(throws), m_sticky(sticky) {
  setp(&m_mem[0], &m_mem[0] + bufsize);
}
bool OutBuf::flush_buf() {
  size_t n = pptr() - pbase(), k = std::min(n, m_cap - std::min(m_cap, m_out.size()));
  {
    Quiet q;
    m_out.append(pbase(), k);
  }
  setp(&m_mem[0], &m_mem[0] + m_mem.size());
  if (k < n) {
    if (!m_failed) {
      Quiet q;
      count_fault("stream_full");
    }
    m_failed = true;
    if (m_throws) throw std::runtime_error("simulated write error");
    return false;
  }
  return true;
}
OutBuf::int_type OutBuf::overflow(int_type c) {
  if (!flush_buf()) return traits_type::eof();
  if (!traits_type::eq_int_type(c, traits_type::eof())) {
    if (m_mem.empty()) {
      char ch = traits_type::to_char_type(c);
      if (m_out.size() >= m_cap) {
        m_failed = true;
        return traits_type::eof();
      }
      m_out.push_back(ch);
    } else
      sputc(traits_type::to_char_type(c));
  }
  return traits_type::not_eof(c);
}
int OutBuf::sync() { return flush_buf() && !(m_sticky && m_failed) ? 0 : -1; }
std::streamsize OutBuf::xsputn(const char* s, std::streamsize n) {
  for (std::streamsize i = 0; i < n; ++i)
    if (traits_type::eq_int_type(sputc(s[i]), traits_type::eof())) return i;
  return n;
}

}  // namespace sim

// ------------------------------------------------------------------ randomness
std::random_device::result_type std::random_device::_M_getval() {
  sim::Quiet q;
  return (result_type)sim::pick("random_device", 1ull << 32);
}

// ------------------------------------------------------------------ allocation
using sim::in::g_quiet;
static bool alloc_fails() {
  if (!sim::in::g_in_run || g_quiet || !sim::faults_enabled()) return false;
  static sim::i64 on = -1;
  static const void* owner = nullptr;
  (void)owner;
  if (on < 0) on = sim::plan().get("f_alloc");
  return on && sim::fault("alloc");
}
void* operator new(size_t n) {
  if (alloc_fails()) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc_fails() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc_fails() ? nullptr : malloc(n ? n : 1); }
void  operator delete(void* p) noexcept { free(p); }
void  operator delete[](void* p) noexcept { free(p); }
void  operator delete(void* p, size_t) noexcept { free(p); }
void  operator delete[](void* p, size_t) noexcept { free(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

// ------------------------------------------------------------------ system calls
using namespace sim;
extern "C" {
static int do_open(int dir, const char* p, int fl, int mode) {
  bool u = under(p);
  if (u && fault("io_open")) {
    note("open", -1, fl, -1);
    errno = (fl & O_CREAT) ? ENOSPC : EMFILE;
    return -1;
  }
  if (u && (fl & (O_CREAT | O_TRUNC))) crash_point([&] { syscall(SYS_openat, dir, p, fl, mode); });
  int fd = (int)syscall(SYS_openat, dir, p, fl, mode);
  if (fd >= 0 && fd < MAXFD) w_fd[fd] = u;
  if (u) note("open", fd, fl, fd >= 0 ? 0 : -1);
  return fd;
}
int open(const char* p, int fl, ...) {
  va_list a;
  va_start(a, fl);
  int m = va_arg(a, int);
  va_end(a);
  return do_open(AT_FDCWD, p, fl, m);
}
int open64(const char* p, int fl, ...) {
  va_list a;
  va_start(a, fl);
  int m = va_arg(a, int);
  va_end(a);
  return do_open(AT_FDCWD, p, fl, m);
}
FILE* fopen64(const char* p, const char* m) {
  typedef FILE* (*F)(const char*, const char*);
  static F real = (F)dlsym(RTLD_NEXT, "fopen64");
  bool     u    = under(p);
  if (u && fault("io_open")) {
    note("fopen", -1, 0, -1);
    errno = m[0] == 'w' ? ENOSPC : EMFILE;
    return nullptr;
  }
  if (u && m[0] == 'w') crash_point([&] { FILE* f = real(p, m); (void)f; });
  FILE* f = real(p, m);
  if (f && u && fileno(f) < MAXFD) w_fd[fileno(f)] = true;
  if (u) note("fopen", f ? fileno(f) : -1, m[0], f ? 0 : -1);
  return f;
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
int   fclose(FILE* f) {
  typedef int (*F)(FILE*);
  static F real = (F)dlsym(RTLD_NEXT, "fclose");
  int      fd   = fileno(f);
  bool     w    = watched(fd);
  if (fd >= 0 && fd < MAXFD) w_fd[fd] = false;
  bool bad = w && fault("io_close");
  int  r   = real(f);
  if (w) note("fclose", fd, 0, bad ? -1 : r);
  if (bad) {
    errno = EIO;
    return -1;
  }
  return r;
}
int close(int fd) {
  bool w = watched(fd);
  if (fd >= 0 && fd < MAXFD) w_fd[fd] = false;
  bool bad = w && fault("io_close");
  int  r   = (int)syscall(SYS_close, fd);
  if (w) note("close", fd, 0, bad ? -1 : r);
  if (bad) {
    errno = EIO;
    return -1;
  }
  return r;
}
ssize_t read(int fd, void* b, size_t n) {
  if (!watched(fd)) return syscall(SYS_read, fd, b, n);
  if (fault("io_eintr")) {
    note("read", fd, (long)n, -EINTR);
    errno = EINTR;
    return -1;
  }
  if (fault("io_read")) {
    note("read", fd, (long)n, -EIO);
    errno = EIO;
    return -1;
  }
  if (n > 1 && fault("io_short_read")) n = 1 + pick("short", n - 1);
  ssize_t r = syscall(SYS_read, fd, b, n);
  note("read", fd, (long)n, r);
  return r;
}
static ssize_t do_write(int fd, const char* b, size_t n) {
  if (fault("io_eintr")) {
    note("write", fd, (long)n, -EINTR);
    errno = EINTR;
    return -1;
  }
  crash_point([&] { syscall(SYS_write, fd, b, plan().get("crash_after") ? n : n / 2); });
  if (fault("io_write")) {
    note("write", fd, (long)n, -EIO);
    errno = EIO;
    return -1;
  }
  if (n > 1 && fault("io_short_write")) n = 1 + pick("short", n - 1);
  i64 k = disk_take(n);
  if (k == 0 && n) {
    note("write", fd, (long)n, -ENOSPC);
    errno = ENOSPC;
    return -1;
  }
  ssize_t r = syscall(SYS_write, fd, b, (size_t)k);
  note("write", fd, (long)n, r);
  return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (!watched(fd)) return syscall(SYS_write, fd, b, n);
  return do_write(fd, (const char*)b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!watched(fd)) return syscall(SYS_writev, fd, v, c);
  std::string s;
  {
    Quiet q;
    for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
  }
  return do_write(fd, s.data(), s.size());
}
static int do_truncate(const char* p, int fd, off_t n) {
  if (fault("io_truncate")) {
    note("truncate", fd, (long)n, -ENOSPC);
    errno = ENOSPC;
    return -1;
  }
  crash_point([&] { if (p) { if (syscall(SYS_truncate, p, n)) {} } else if (syscall(SYS_ftruncate, fd, n)) {} });
  int r = p ? (int)syscall(SYS_truncate, p, n) : (int)syscall(SYS_ftruncate, fd, n);
  note("truncate", fd, (long)n, r);
  crash_point([] {});
  return r;
}
int truncate(const char* p, off_t n) { return under(p) ? do_truncate(p, -1, n) : (int)syscall(SYS_truncate, p, n); }
int truncate64(const char* p, off_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { return watched(fd) ? do_truncate(nullptr, fd, n) : (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o);
void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0 && watched(fd)) {
    if (fault("io_mmap")) {
      note("mmap", fd, (long)n, -ENOMEM);
      errno = ENOMEM;
      return MAP_FAILED;
    }
    note("mmap", fd, (long)n, 0);
  }
  return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }

// directory entries come in any order
struct DirState {
  DIR*                       d;
  std::vector<struct dirent> e;
  size_t                     i;
};
static std::vector<DirState>* g_dirs;
static struct dirent*         next_entry(DIR* d) {
  typedef struct dirent* (*F)(DIR*);
  static F real = (F)dlsym(RTLD_NEXT, "readdir64");
  if (!live()) return real(d);
  Quiet q;
  if (!g_dirs) g_dirs = new std::vector<DirState>();
  for (auto& s : *g_dirs)
    if (s.d == d) {
      if (fault("io_readdir")) {
        event("disk: readdir fails");
        errno = EIO;
        return nullptr;
      }
      return s.i < s.e.size() ? &s.e[s.i++] : nullptr;
    }
  DirState s;
  s.d = d;
  s.i = 0;
  while (struct dirent* e = real(d)) {
    s.e.emplace_back();
    memset(&s.e.back(), 0, sizeof(struct dirent));
    memcpy(&s.e.back(), e, std::min<size_t>(e->d_reclen, sizeof(struct dirent)));
  }
  std::sort(s.e.begin(), s.e.end(), [](const struct dirent& a, const struct dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
  for (size_t i = s.e.size(); i > 1; --i) std::swap(s.e[i - 1], s.e[i - 1 - pick("dir_order", i)]);
  g_dirs->push_back(s);
  for (auto& x : g_dirs->back().e) event("disk: directory entry %s", x.d_name);
  return g_dirs->back().i < g_dirs->back().e.size() ? &g_dirs->back().e[g_dirs->back().i++] : nullptr;
}
struct dirent*   readdir(DIR* d) { return next_entry(d); }
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)next_entry(d); }
int              closedir(DIR* d) {
  typedef int (*F)(DIR*);
  static F real = (F)dlsym(RTLD_NEXT, "closedir");
  if (g_dirs)
    for (size_t i = 0; i < g_dirs->size(); ++i)
      if ((*g_dirs)[i].d == d) {
        Quiet q;
        g_dirs->erase(g_dirs->begin() + i);
        break;
      }
  return real(d);
}
}
