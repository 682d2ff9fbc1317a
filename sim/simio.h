// Extra API of the single-threaded flavour: simulated disk faults, crashes, faulty streams.
#pragma once
#include "sim.h"
#include <functional>
#include <istream>
#include <streambuf>
#include <string>
namespace sim {
// Runs f in a forked process whose disk accesses may crash it (cfg crash_at: number of the mutating system call, -1 never).
// Returns true if it crashed. Violations found inside end the run.
bool crashable(const std::function<void()>& f);
// memory shared with the crashable process, zeroed at the start of the run
int* shared_ints();  // 1024 of them
u64  disk_calls();   // watched calls so far in this process

// An input whose reads come in arbitrary pieces, and that ends or breaks at a given byte.
class InBuf : public std::streambuf {
public:
  enum End { CLEAN, TRUNCATED, BROKEN };
  InBuf(const std::string& data, size_t stop, End end, bool seekable = true);
  size_t delivered() const { return m_pos; }
  bool   hit() const { return m_hit; }  // the reader reached the fault

protected:
  int_type underflow() override;
  std::streamsize xsgetn(char* s, std::streamsize n) override;
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override;
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

private:
  std::string m_data;
  size_t      m_stop, m_pos = 0;
  End         m_end;
  bool        m_seek, m_hit = false;
  char        m_buf[64];
};

// An output with its own buffer that accepts a number of bytes and then fails; sync() can fail too.
class OutBuf : public std::streambuf {
public:
  OutBuf(size_t capacity, bool throws, size_t bufsize, bool sticky = false);  // sticky: once failed, every sync fails, as in a file buffer
  const std::string& durable() const { return m_out; }   // what reached the other side
  std::string        pending() const { return std::string(pbase(), pptr()); }
  bool               failed() const { return m_failed; }

protected:
  int_type overflow(int_type c) override;
  int      sync() override;
  std::streamsize xsputn(const char* s, std::streamsize n) override;

private:
  bool        flush_buf();
  std::string m_out, m_mem;
  size_t      m_cap;
  bool        m_throws, m_failed = false, m_sticky;
};
}  // namespace sim
