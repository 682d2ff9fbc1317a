// NPY streams, files and memory-mapped arrays under faults.
#include "simio.h"
#include "ndref.h"
#include "ElementsKernel/Exception.h"
#include "NdArray/io/Npy.h"
#include "NdArray/io/NpyMmap.h"
#include <fstream>
#include <sstream>
#include <sys/stat.h>

using namespace sim;
using Euclid::NdArray::createMmapNpy;
using Euclid::NdArray::mmapNpy;
using Euclid::NdArray::NdArray;
using Euclid::NdArray::readNpy;
using Euclid::NdArray::writeNpy;
typedef boost::iostreams::mapped_file_base MF;

namespace {

enum { ARR = 1 };

struct Spec {
  int                      type;
  ref::Shape               shape;  // without the axis of the attributes
  std::vector<std::string> attrs;
  u64                      salt;
  ref::Shape               full() const {
    ref::Shape s = shape;
    if (!attrs.empty()) s.push_back(attrs.size());
    return s;
  }
  size_t n() const { return ref::count(full()); }
};

// type, dims..., attrs
Spec spec(const Op& o, u64 salt) {
  Spec s;
  s.type   = o.v[1] % ref::NTYPE;
  s.salt   = salt;
  int nd   = 1 + o.v[2] % 3;
  for (int i = 0; i < nd; ++i) s.shape.push_back((size_t)o.v[3 + i]);
  // names as they occur, also such that mean something elsewhere in the header
  static const char* const odd[] = {"shape", "fortran_order", "descr", "flux[0]", "f(x)", "mag, err", "a:b", "{k}", "[", ")", "True", "x#1"};
  size_t                   at    = s.shape.size() * 5 + s.shape[0] * 7 + (size_t)s.type;
  for (int i = 0; i < o.v[6]; ++i)
    s.attrs.push_back(at % 3 == 0 ? odd[(at + i) % (sizeof odd / sizeof *odd)] : "at" + std::to_string(i) + (i % 2 ? "_x y" : ""));
  return s;
}
void gen_arr(Rng& r, Plan& p, int style) {
  int dim = r.chance(1, 8) ? 40 : 5;
  p.ops.push_back(Op(ARR, (int)r.below(ref::NTYPE), (int)r.below(3), (int)r.range(r.chance(1, 6) ? 0 : 1, dim), (int)r.range(1, 5), (int)r.range(1, 4),
                     r.chance(1, 3) ? (int)r.range(1, 3) : 0, style));
}

template <typename T> std::string raw(const Spec& s) {
  std::string o;
  for (size_t i = 0; i < s.n(); ++i) o += ref::bytes(ref::value<T>(s.salt + i));
  return o;
}
template <typename T> NdArray<T> make(const Spec& s) {
  std::vector<T> d;
  for (size_t i = 0; i < s.n(); ++i) d.push_back(ref::value<T>(s.salt + i));
  size_t view = (s.salt + s.n() + s.shape.size()) % 4;
  if (view < 2 || (view == 3 && !s.attrs.empty())) return NdArray<T>(s.shape, s.attrs, std::move(d));
  // the same array as part of a larger one
  std::vector<T> all;
  auto           shape = s.shape;
  if (view == 2) {
    shape.insert(shape.begin(), 3);
    for (size_t k = 0; k < 3; ++k)
      for (size_t i = 0; i < d.size(); ++i) all.push_back(k == 1 ? d[i] : ref::value<T>(s.salt + 7777 + k * 1000 + i));
    return NdArray<T>(shape, s.attrs, std::move(all)).slice(1);
  }
  shape.push_back(2);
  for (size_t i = 0; i < d.size(); ++i) {
    all.push_back(ref::value<T>(s.salt + 9999 + i));
    all.push_back(d[i]);
  }
  return NdArray<T>(shape, std::move(all)).rslice(1);
}
std::string shape_text(const ref::Shape& s) {
  std::string o = "(";
  for (size_t d : s) o += std::to_string(d) + ",";
  return o + ")";
}
// everything that can be observed of the array agrees with what it should contain
template <typename T> void compare(const NdArray<T>& a, const ref::Shape& shape, const std::vector<std::string>& attrs, const std::string& data, const char* what,
                                   bool size_too = true) {
  if (a.shape() != shape) fail("wrong-shape", "%s: shape %s, expected %s", what, shape_text(a.shape()).c_str(), shape_text(shape).c_str());
  if (a.attributes() != attrs) fail("wrong-attributes", "%s: %zu attribute names, expected %zu", what, a.attributes().size(), attrs.size());
  size_t n = ref::count(shape);
  if (size_too && a.size() != n) fail("wrong-size", "%s: size %zu, expected %zu", what, a.size(), n);
  ref::Shape c(shape.size(), 0);
  for (size_t i = 0; i < n; ++i) {
    size_t k = i;
    for (size_t d = shape.size(); d > 0; --d) {
      c[d - 1] = k % shape[d - 1];
      k /= shape[d - 1];
    }
    const T& v = a.at(c);
    if (memcmp(&v, data.data() + i * sizeof(T), sizeof(T))) fail("wrong-data", "%s: element %zu of %zu differs (shape %s)", what, i, n, shape_text(shape).c_str());
  }
  if (size_too) {
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) {
      T v = *it;
      if (i >= n || memcmp(&v, data.data() + i * sizeof(T), sizeof(T))) fail("wrong-data", "%s: iterating, element %zu of %zu differs", what, i, n);
    }
    if (i != n) fail("wrong-data", "%s: iterating gives %zu of %zu elements", what, i, n);
  }
}
void check_file(const std::string& f, const Spec& s, const std::string& data, const char* what) {
  ref::Header h = ref::parse(f);
  if (!h.ok) fail("bad-format", "%s: what was written is not a NPY file: %s", what, h.why.c_str());
  if (h.fortran || h.shape != s.shape || h.attrs != s.attrs || h.descr != std::string("<") + ref::DTYPE[s.type])
    fail("bad-format", "%s: the header describes %s %s, the array is %s %s", what, h.descr.c_str(), shape_text(h.shape).c_str(), ref::DTYPE[s.type],
         shape_text(s.shape).c_str());
  if (f.substr(h.data) != data) fail("bad-format", "%s: %zu bytes of data, expected %zu, or their content differs", what, f.size() - h.data, data.size());
}

template <template <typename> class F, typename... A> void by_type(int t, A&&... a) {
  switch (t) {
  case 0: F<int8_t>::go(a...); break;
  case 1: F<int16_t>::go(a...); break;
  case 2: F<int32_t>::go(a...); break;
  case 3: F<int64_t>::go(a...); break;
  case 4: F<uint8_t>::go(a...); break;
  case 5: F<uint16_t>::go(a...); break;
  case 6: F<uint32_t>::go(a...); break;
  case 7: F<uint64_t>::go(a...); break;
  case 8: F<float>::go(a...); break;
  default: F<double>::go(a...); break;
  }
}

// ------------------------------------------------------------------ streams: several arrays one after another
enum { REAL = 0, NUMPY1, NUMPY2, BIGENDIAN, FORTRAN, OTHERTYPE, MIXED, MIXEDENDIAN, MAGIC, SUBARRAY, NSTYLE };

template <typename T> struct Encode {
  static void go(const Spec& s, int style, std::string& out) {
    std::string data = raw<T>(s);
    std::string ty   = ref::DTYPE[s.type];
    switch (style) {
    case REAL: {
      std::ostringstream o;
      writeNpy(o, make<T>(s));
      if (!o) fail("write-failed", "writeNpy left a memory stream in error");
      check_file(o.str(), s, data, "writeNpy");
      out += o.str();
      if (!s.attrs.empty() && s.salt % 4 == 0) {
        // names that the format can not hold: refused, or written so that they are read again
        Spec q     = s;
        q.attrs[0] = s.type % 2 ? "it's" : "',')] '";
        std::stringstream io;
        bool              refused = false;
        try {
          writeNpy(io, make<T>(q));
        } catch (const std::exception& e) {
          refused = true;
        }
        if (!refused) {
          try {
            NdArray<T> b = readNpy<T>(io);
            compare(b, q.full(), q.attrs, data, "an array with a quote in a name");
          } catch (const std::exception& e) {
            fail("write-unreadable", "an array with a quote in a name was written without an error, and can not be read: %s", e.what());
          }
        }
      }
      return;
    }
    case NUMPY1: {
      std::string h = ref::numpy_header(1, ref::descr("<", ty, s.attrs), false, s.shape);
      if ((s.n() + (size_t)s.type) % 8 == 3) {  // a long header, as of arrays with very many fields
        h.insert(h.size() - 1, 32768, ' ');
        h[8] = (char)((h.size() - 10) & 255), h[9] = (char)((h.size() - 10) >> 8);
      }
      out += h + data;
      return;
    }
    case NUMPY2: out += ref::numpy_header(2, ref::descr("<", ty, s.attrs), false, s.shape) + data; return;
    case BIGENDIAN: out += ref::numpy_header(1, ref::descr(">", ty, s.attrs), false, s.shape) + data; return;
    case FORTRAN: out += ref::numpy_header(1, ref::descr("<", ty, s.attrs), true, s.shape) + data; return;
    case MIXED: out += ref::numpy_header(1, "[('a', '<f4'), ('b', '<f8')]", false, s.shape) + data; return;
    case MIXEDENDIAN: {
      // as many attributes as the array has (a last axis), each of the type under test, one of them in the other byte order
      size_t n = std::max<size_t>(2, s.attrs.size()), odd = s.shape.size() % n;
      std::string d = "[";
      for (size_t i = 0; i < n; ++i) d += std::string(i ? ", " : "") + "('f" + std::to_string(i) + "', '" + (i == odd ? ">" : "<") + (ty[1] == '1' ? "i2" : ty) + "')";
      out += ref::numpy_header(1, d + "]", false, s.shape) + data + data + data;
      return;
    }
    case SUBARRAY:  // a field of several values, which the library has no attribute for
      out += ref::numpy_header(1, "[('f0', '<" + ty + "'), ('f1', '<" + ty + "', (2,))]", false, s.shape) + data + data + data;
      return;
    case MAGIC: {
      std::string h = ref::numpy_header(1, ref::descr("<", ty, s.attrs), false, s.shape) + data;
      h[(s.shape.size() + s.attrs.size() + s.type) % 6] ^= 0x20;
      count_fault("corrupt_byte");
      out += h;
      return;
    }
    default: out += ref::numpy_header(1, ref::descr("<", ty == "f4" ? "f8" : "f4", s.attrs), false, s.shape) + data; return;
    }
  }
};
// 0 read and right, 1 reported an error
template <typename T> struct Decode {
  static void go(const Spec& s, std::istream& in, int& result) {
    try {
      NdArray<T> a = readNpy<T>(in);
      result       = 0;
      compare(a, s.full(), s.attrs, raw<T>(s), "readNpy");
    } catch (const std::exception& e) {
      event("readNpy: %s", typeid(e).name());
      result = 1;
    }
  }
};
void gen_read(Rng& r, Plan& p) {
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) gen_arr(r, p, (int)r.below(3));
  if (r.chance(1, 4)) gen_arr(r, p, (int)r.below(NSTYLE));
  p.cfg["end"]  = r.below(3);
  p.cfg["stop"] = r.below(4096);  // of the length, in 1/4096
  p.cfg["near"] = r.chance(1, 3) ? r.range(1, 4) : 0;  // stop relative to the end of an array
  p.cfg["seekable"] = r.below(2);
  p.cfg["exc"]      = r.chance(1, 4);
}
void run_read(const Plan& p) {
  std::string         all;
  std::vector<Spec>   specs;
  std::vector<size_t> ends;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    specs.push_back(spec(p.ops[i], 1000 * (i + 1)));
    by_type<Encode>(specs[i].type, specs[i], p.ops[i].v[7], all);
    ends.push_back(all.size());
  }
  size_t stop = all.size() * p.get("stop") / 4096;
  if (p.get("near") && !ends.empty()) stop = ends[p.get("stop") % ends.size()] + p.get("near") - 3;
  InBuf::End end = (InBuf::End)p.get("end");
  if (end == InBuf::CLEAN) stop = all.size();
  stop = std::min(stop, all.size());
  InBuf        buf(all, stop, end, p.get("seekable"));
  std::istream in(&buf);
  if (p.get("exc")) in.exceptions(std::ios::badbit);
  for (size_t i = 0; i < specs.size(); ++i) {
    int  result = -1;
    int  style  = p.ops[i].v[7];
    by_type<Decode>(specs[i].type, specs[i], in, result);
    event("array %zu of %s%s: %d", i, ref::DTYPE[specs[i].type], shape_text(specs[i].shape).c_str(), result);
    sig(result * 16 + style);
    bool whole = ends[i] <= stop;
    if (style >= BIGENDIAN) {
      // a mixed description is not even reached if the stream ends before
      if (!result) fail("accepted-unsupported", "an array that the reader does not support (%d) was returned as data", style);
      return;
    }
    if (whole && result) fail("read-failed", "array %zu lies completely before the fault (%zu of %zu bytes) and was not read", i, ends[i], stop);
    if (!whole) {
      if (!result) fail("fabricated-data", "array %zu ends at byte %zu, the stream at %zu, and an array was returned", i, ends[i], stop);
      probe(end == InBuf::BROKEN ? "stream broke inside an array" : "stream ended inside an array");
      return;
    }
  }
  int result = -1;
  by_type<Decode>(2, spec(Op(ARR, 2, 0, 1), 1), in, result);
  if (!result) fail("fabricated-data", "an array was read after the end of the stream");
}
Scenario s_read("npy_read", "NPY arrays from a stream that ends or breaks anywhere", false, 3, gen_read, run_read);

// damaged headers: an error or an array that is consistent with itself, never a wild access
template <typename T> struct Damaged {
  static void go(const Spec&, std::istream& in, int& result) {
    try {
      NdArray<T> a = readNpy<T>(in);
      result       = 0;
      size_t n = ref::count(a.shape());
      if (n != a.size()) fail("wrong-size", "an array of shape %s has size %zu", shape_text(a.shape()).c_str(), a.size());
      u64 x = 0;
      for (auto v : a) x += (u64)v;
      sig(n);
    } catch (const std::exception& e) {
      event("readNpy: %s", typeid(e).name());
      result = 1;
    }
  }
};
void gen_damage(Rng& r, Plan& p) {
  gen_arr(r, p, (int)r.below(3));
  p.cfg["n"] = r.range(1, 4);
  for (int i = 0; i < p.cfg["n"]; ++i) {
    p.cfg["pos" + std::to_string(i)] = r.below(4096);
    p.cfg["chr" + std::to_string(i)] = r.chance(1, 2) ? "'(),[]{}<> 0123456789:sdf\n"[r.below(26)] : (i64)r.below(256);
  }
  p.cfg["mode"] = r.below(4);
}
void run_damage(const Plan& p) {
  if (p.ops.empty()) return;
  Spec        s = spec(p.ops[0], 5);
  std::string all;
  by_type<Encode>(s.type, s, p.ops[0].v[7], all);
  size_t hd = (unsigned char)all[6] == 1 ? 10 : 12;
  size_t hl = ref::parse(all).data - hd;
  for (int i = 0; i < p.get("n"); ++i) {
    size_t pos = hd + p.get(("pos" + std::to_string(i)).c_str()) * hl / 4096;
    int    c   = (int)p.get(("chr" + std::to_string(i)).c_str());
    count_fault("corrupt_byte");
    switch (p.get("mode")) {
    case 0: all[pos] = (char)c; break;
    case 1: for (size_t k = pos; k < hd + hl; ++k) all[k] = (char)(i ? c : 0); break;  // a torn page
    case 2: all[pos] ^= (char)(1 << (c & 7)); break;
    default: all.erase(pos, 1); all.insert(hd + hl - 1, 1, ' '); break;
    }
  }
  InBuf        buf(all, all.size(), InBuf::CLEAN);
  std::istream in(&buf);
  int          result = -1;
  by_type<Damaged>(s.type, s, in, result);
  event("damaged: %d", result);
  sig(result);
}
Scenario s_damage("npy_damage", "NPY headers with damaged bytes", false, 1, gen_damage, run_damage);

// writing to a stream that stops accepting
template <typename T> struct WriteTo {
  static void go(const Spec& s, size_t cap, bool throws, size_t bufsize, bool exc) {
    OutBuf       buf(cap, throws, bufsize);
    std::ostream out(&buf);
    if (exc) out.exceptions(std::ios::badbit);
    std::string data = raw<T>(s);
    bool        thrown = false;
    try {
      writeNpy(out, make<T>(s));
      out.flush();
    } catch (const std::exception&) {
      thrown = true;
    }
    bool ok = out.good() && !thrown;
    event("writeNpy to a stream of %zu bytes: %d", cap, (int)ok);
    sig(ok);
    std::ostringstream full;
    writeNpy(full, make<T>(s));
    if (ok)
      check_file(buf.durable(), s, data, "writeNpy to a stream");
    else if (!buf.failed())
      fail("write-failed", "writeNpy failed on a stream that accepted everything");
    else if (full.str().compare(0, buf.durable().size(), buf.durable()))
      fail("bad-format", "what was written before the stream failed is not a prefix of the array");
  }
};
void gen_write(Rng& r, Plan& p) {
  gen_arr(r, p, 0);
  p.cfg["cap"]    = r.chance(1, 3) ? 1000000 : r.below(600);
  p.cfg["throws"] = r.below(2);
  p.cfg["buf"]    = r.chance(1, 4) ? 0 : r.below(300);
  p.cfg["exc"]    = r.below(2);
}
void run_write(const Plan& p) {
  if (p.ops.empty()) return;
  Spec s = spec(p.ops[0], 9);
  by_type<WriteTo>(s.type, s, (size_t)p.get("cap"), (bool)p.get("throws"), (size_t)p.get("buf"), (bool)p.get("exc"));
}
Scenario s_write("npy_write", "NPY arrays to a stream that stops accepting", false, 1, gen_write, run_write);

// ------------------------------------------------------------------ files
std::string slurp(const std::string& path) {
  NoFaults      nf;
  Quiet         q;
  std::ifstream f(path, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
template <typename T> struct FileRun {
  static void go(const Spec& s, const std::string& path, bool write_faults, bool& written) {
    std::string data = raw<T>(s);
    u64         before = faults_fired("io_open") + faults_fired("io_write") + faults_fired("disk_full") + faults_fired("io_close");
    bool        thrown = false;
    enable_faults(write_faults);
    try {
      writeNpy(boost::filesystem::path(path), make<T>(s));
    } catch (const std::exception& e) {
      event("writeNpy: %s", typeid(e).name());
      thrown = true;
    }
    enable_faults(false);
    u64 hit = faults_fired("io_open") + faults_fired("io_write") + faults_fired("disk_full") + faults_fired("io_close") - before;
    event("write thrown=%d faults=%llu", (int)thrown, (unsigned long long)hit);
    sig(thrown * 2 + (hit ? 1 : 0));
    if (thrown && !hit) fail("write-failed", "writeNpy threw although every call of the file system succeeded");
    if (!thrown) {
      std::string f = slurp(path);
      if (hit && (ref::parse(f).ok == false || f.substr(ref::parse(f).data) != data))
        fail("silent-write-error", "writeNpy returned normally, a call of the file system failed and the file holds %zu bytes that are not the array (%zu of data)", f.size(),
             data.size());
      check_file(f, s, data, "writeNpy to a file");
    } else
      probe("write error reported");
    written = !thrown;
    if (!written) return;
    // and back
    before = faults_fired("io_open") + faults_fired("io_read");
    enable_faults(true);
    bool rthrown = false;
    try {
      NdArray<T> a = readNpy<T>(boost::filesystem::path(path));
      enable_faults(false);
      compare(a, s.full(), s.attrs, data, "readNpy from a file");
    } catch (const std::exception& e) {
      event("readNpy: %s", typeid(e).name());
      rthrown = true;
    }
    enable_faults(false);
    hit = faults_fired("io_open") + faults_fired("io_read") - before;
    sig(rthrown * 2 + (hit ? 1 : 0));
    if (rthrown && !hit) fail("read-failed", "readNpy threw although every call of the file system succeeded (short and interrupted reads are no errors)");
    if (rthrown) probe("read error reported");
  }
};
void gen_file(Rng& r, Plan& p) {
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) gen_arr(r, p, 0);
  p.cfg["wf"] = r.below(2);
  if (r.chance(1, 4)) p.cfg["f_io_open"] = r.range(50, 300);
  if (r.chance(1, 3)) p.cfg["f_io_write"] = r.range(50, 400);
  if (r.chance(1, 3)) p.cfg["f_io_short_write"] = r.range(50, 500);
  if (r.chance(1, 3)) p.cfg["f_io_short_read"] = r.range(50, 500);
  if (r.chance(1, 3)) p.cfg["f_io_eintr"] = r.range(20, 300);
  if (r.chance(1, 3)) p.cfg["f_io_read"] = r.range(50, 400);
  if (r.chance(1, 3)) p.cfg["f_io_close"] = r.range(100, 500);
  if (r.chance(1, 3)) p.cfg["disk_bytes"] = r.below(1500);
}
void run_file(const Plan& p) {
  std::string path = scratch() + "/a.npy";
  for (size_t i = 0; i < p.ops.size(); ++i) {
    Spec s       = spec(p.ops[i], 100 * i);
    bool written = false;
    by_type<FileRun>(s.type, s, path, (bool)p.get("wf"), written);
    if (!written) by_type<FileRun>(s.type, s, path, false, written);  // the disk recovers: the same call succeeds
    if (!written) fail("write-failed", "writing again without faults failed");
  }
}
Scenario s_file("npy_file", "NPY files on a disk that fails", false, 3, gen_file, run_file);

// a file that a crash of the writer cut, or a disk that lost its tail
template <typename T> struct TornRun {
  static void go(const Spec& s, const std::string& path, size_t keep, size_t room) {
    std::string data = raw<T>(s);
    size_t      done = 0, len = 0;
    bool        crashed = crashable([&] {
      try {
        writeNpy(boost::filesystem::path(path), make<T>(s));
        shared_ints()[0] = 1;
      } catch (const std::exception&) {
      }
    });
    std::string f = slurp(path);
    len           = f.size();
    event("crashed=%d returned=%d size=%zu", (int)crashed, shared_ints()[0], len);
    if (shared_ints()[0] && !crashed) check_file(f, s, data, "writeNpy");
    if (!crashed && keep < len) {
      NoFaults nf;
      Quiet    q;
      if (truncate(path.c_str(), (off_t)keep)) {}
      count_fault("lost_tail");
      f = f.substr(0, keep);
    }
    ref::Header h        = ref::parse(f);
    bool        complete = h.ok && f.size() - h.data >= data.size() && f.compare(h.data, data.size(), data) == 0;
    done                 = complete;
    sig(crashed * 2 + done);
    int r1 = 0, r2 = 0;
    try {
      NdArray<T> a = readNpy<T>(boost::filesystem::path(path));
      r1           = 1;
      compare(a, s.full(), s.attrs, data, "readNpy after a crash");
    } catch (const std::exception&) {
    }
    try {
      NdArray<T> a = room ? mmapNpy<T>(boost::filesystem::path(path), MF::readwrite, f.size() + room) : mmapNpy<T>(boost::filesystem::path(path));
      r2           = 1;
      compare(a, s.full(), s.attrs, data, "mmapNpy after a crash");
    } catch (const std::exception&) {
    }
    event("complete=%d read=%d mapped=%d", (int)complete, r1, r2);
    if (complete && !r1) fail("read-failed", "a complete file is not read");
    if (complete && !r2) fail("map-failed", "a complete file is not mapped");
    if (!complete) probe("incomplete file refused");
    if (!complete && r1) fail("fabricated-data", "a file cut at byte %zu is read as an array", f.size());
    if (!complete && r2) fail("fabricated-data", "a file cut at byte %zu is mapped as an array", f.size());
  }
};
void gen_torn(Rng& r, Plan& p) {
  gen_arr(r, p, 0);
  p.cfg["crash_at"]    = r.chance(1, 2) ? r.below(6) : -1;
  p.cfg["crash_torn"]  = r.below(2);
  p.cfg["crash_after"] = r.below(2);
  p.cfg["keep"]        = r.below(700);
  p.cfg["room"]        = r.chance(1, 3) ? r.range(1, 20000) : 0;
}
void run_torn(const Plan& p) {
  if (p.ops.empty()) return;
  Spec s = spec(p.ops[0], 9);
  by_type<TornRun>(s.type, s, scratch() + "/t.npy", (size_t)p.get("keep"), (size_t)p.get("room"));
}
Scenario s_torn("npy_torn", "NPY files cut by a crash of the writer or a lost tail", false, 2, gen_torn, run_torn);

// ------------------------------------------------------------------ memory mapped arrays
enum { SET = 1, CONCAT, REOPEN, READ, COPY, MAPCUT, SETALL, PAD };

struct MState {  // what must be in the file
  ref::Shape               shape;  // full
  std::vector<std::string> attrs;
  std::string              data;
  ref::Shape               plain() const {
    ref::Shape s = shape;
    if (!attrs.empty()) s.pop_back();
    return s;
  }
};
template <typename T> struct MmapRun {
  static void go(const Plan& p) {
    boost::filesystem::path path = scratch() + "/m.npy";
    Spec                    s    = spec(p.ops[0], 0);
    MState                  m;
    m.shape = s.full();
    m.attrs = s.attrs;
    m.data.assign(s.n() * sizeof(T), '\0');
    size_t max = (size_t)p.get("max");
    std::unique_ptr<NdArray<T>> a;
    bool   persistent = true;  // of the current mapping
    MState priv;
    enable_faults(true);
    try {
      a.reset(new NdArray<T>(createMmapNpy<T>(path, s.shape, s.attrs, max)));
    } catch (const std::exception& e) {
      event("create: %s", typeid(e).name());
      if (!faults_fired("io_open") && !faults_fired("io_truncate") && !faults_fired("io_mmap")) fail("map-failed", "createMmapNpy threw without a fault: %s", e.what());
    }
    enable_faults(false);
    if (!a) a.reset(new NdArray<T>(createMmapNpy<T>(path, s.shape, s.attrs, max)));
    // size() and iteration are those of the array before a concatenation: known finding of NdArray, not of the mapping
    bool grown  = false;
    bool padded = false;  // the header is longer than this library writes it
    for (size_t i = 1; i < p.ops.size(); ++i) {
      const Op& o   = p.ops[i];
      MState&   cur = persistent ? m : priv;
      size_t    n   = ref::count(cur.shape);
      u64       f0  = faults_fired("io_open") + faults_fired("io_truncate") + faults_fired("io_mmap");
      auto      hit = [&] { return faults_fired("io_open") + faults_fired("io_truncate") + faults_fired("io_mmap") - f0; };
      switch (o.kind()) {
      case SET: {
        if (!n || !a || p.get("readonly_now")) break;
        size_t     k = (size_t)o.v[1] % n;
        ref::Shape c(cur.shape.size());
        size_t     r = k;
        for (size_t d = c.size(); d > 0; --d) {
          c[d - 1] = r % cur.shape[d - 1];
          r /= cur.shape[d - 1];
        }
        T v = ref::value<T>((u64)o.v[2]);
        a->at(c) = v;
        memcpy(&cur.data[k * sizeof(T)], &v, sizeof(T));
        break;
      }
      case CONCAT: {
        if (!persistent) break;
        MState add;
        add.shape    = cur.shape;
        add.shape[0] = (size_t)o.v[1];
        Spec as;
        as.shape = add.shape;
        as.type  = s.type;
        as.salt  = (u64)o.v[2];
        NdArray<T> other = make<T>(as);
        bool       thrown = false;
        size_t     at0    = ref::parse(slurp(path.native())).data;
        enable_faults(true);
        try {
          a->concatenate(other);
        } catch (const std::exception& e) {
          event("concatenate: %s", typeid(e).name());
          thrown = true;
        }
        enable_faults(false);
        size_t fit = std::max(max, at0 + cur.data.size());  // set when the array was mapped
        MState nw  = cur;
        nw.shape[0] += add.shape[0];
        nw.data += raw<T>(as);
        event("concatenate %zu rows: thrown=%d", add.shape[0], (int)thrown);
        sig(thrown);
        if (!thrown && at0 + nw.data.size() > fit) fail("over-limit", "a concatenation to %zu bytes was accepted, the limit is %zu", at0 + nw.data.size(), fit);
        if (!thrown) {
          cur   = nw;
          grown = true;
        } else {
          probe("concatenation refused");
          // the header may not have room for more digits: it says so with an exception, as for the size
          bool header = std::to_string(nw.shape[0]).size() != std::to_string(cur.shape[0]).size();
          if (!hit() && !padded && !header && at0 + nw.data.size() <= fit) fail("map-failed", "a concatenation that fits was refused");
        }
        // whatever happened, array and file agree
        break;
      }
      case PAD:
      case REOPEN: {
        a.reset();
        if (o.kind() == PAD) {  // as another tool writes it: the format allows any number of spaces
          std::string f = slurp(path.native());
          ref::Header h = ref::parse(f);
          size_t      w = f[6] == 1 ? 2 : 4, len = 0, more = 64 * (size_t)o.v[3];
          for (size_t k = 0; k < w; ++k) len |= (size_t)(unsigned char)f[8 + k] << (8 * k);
          len += more;
          for (size_t k = 0; k < w; ++k) f[8 + k] = (char)(len >> (8 * k) & 255);
          f.insert(h.data - 1, more, ' ');
          NoFaults nf;
          Quiet    q;
          std::ofstream(path.native(), std::ios::binary) << f;
          padded = true;
          probe("file with a longer header");
        }
        grown      = false;
        persistent = o.v[1] != 1;
        MF::mapmode mode = o.v[1] == 1 ? MF::priv : MF::readwrite;
        size_t      mx   = o.v[2] ? (size_t)o.v[2] - 1 + (size_t)boost::filesystem::file_size(path) : 0;
        bool        thrown = false;
        enable_faults(true);
        try {
          a.reset(new NdArray<T>(mmapNpy<T>(path, mode, mx)));
        } catch (const std::exception& e) {
          event("mmap: %s", typeid(e).name());
          thrown = true;
        }
        enable_faults(false);
        if (thrown && !hit()) fail("map-failed", "mmapNpy threw without a fault");
        if (!a) a.reset(new NdArray<T>(mmapNpy<T>(path, mode, mx)));
        max = mx ? mx : (size_t)boost::filesystem::file_size(path);
        if (!persistent) priv = m;
        break;
      }
      case READ: {
        const NdArray<T> b = o.v[1] ? mmapNpy<T>(path, MF::readonly) : readNpy<T>(path);
        compare(b, m.shape, m.attrs, m.data, o.v[1] ? "read-only mapping" : "readNpy of a mapped file");
        break;
      }
      case COPY: {
        NdArray<T> c = a->copy();
        compare(c, cur.shape, cur.attrs, cur.data, "copy of a mapped array");
        if (n) {
          // a deep copy: changes of one are not changes of the other
          ref::Shape z(cur.shape.size(), 0);
          T          v = ref::value<T>((u64)o.v[1] + 5000);
          c.at(z)      = v;
        }
        break;
      }
      }
      MState& now = persistent ? m : priv;
      compare(*a, now.shape, now.attrs, now.data, "mapped array", !grown);
      // the file as others see it
      std::string f = slurp(path.native());
      ref::Header h = ref::parse(f);
      if (!h.ok) fail("bad-format", "the mapped file is not a NPY file: %s", h.why.c_str());
      if (h.shape != m.plain() || h.attrs != m.attrs) fail("bad-format", "the header of the mapped file says %s, the array is %s", shape_text(h.shape).c_str(), shape_text(m.plain()).c_str());
      if (f.size() - h.data < m.data.size() || f.compare(h.data, m.data.size(), m.data)) fail("wrong-data", "the mapped file does not hold the %zu bytes of the array", m.data.size());
    }
  }
};
void gen_mmap(Rng& r, Plan& p) {
  gen_arr(r, p, 0);
  Op& o = p.ops[0];
  if (o.v[3] == 0) o.v[3] = 1;
  p.cfg["max"] = r.chance(1, 3) ? 0 : r.below(4000);
  int n        = (int)r.range(2, 10);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(10);
    if (k < 3) p.ops.push_back(Op(SET, (int)r.below(1000), (int)r.below(100000)));
    else if (k < 6) p.ops.push_back(Op(CONCAT, (int)r.range(1, 12), (int)r.below(100000)));
    else if (k < 8) p.ops.push_back(Op(r.chance(1, 8) ? PAD : REOPEN, r.chance(1, 4), r.chance(1, 2) ? (int)r.range(1, 2500) : 0, (int)r.range(1, 3)));
    else if (k < 9) p.ops.push_back(Op(READ, (int)r.below(2)));
    else p.ops.push_back(Op(COPY, (int)r.below(1000)));
  }
  if (r.chance(1, 2)) p.cfg["f_io_truncate"] = r.range(50, 500);
  if (r.chance(1, 4)) p.cfg["f_io_mmap"] = r.range(50, 300);
  if (r.chance(1, 4)) p.cfg["f_io_open"] = r.range(50, 300);
}
void run_mmap(const Plan& p) {
  if (p.ops.empty() || p.ops[0].kind() != ARR) return;
  by_type<MmapRun>(p.ops[0].v[1] % ref::NTYPE, p);
}
Scenario s_mmap("npy_mmap", "memory mapped arrays: histories of changes, growth, failed growth and reopening", false, 4, gen_mmap, run_mmap);

// a process dies while it works on a mapped file
template <typename T> struct MmapCrash {
  static void go(const Plan& p) {
    boost::filesystem::path path = scratch() + "/m.npy";
    Spec                    s    = spec(p.ops[0], 0);
    auto state = [&](int upto) {
      MState m;
      m.shape = s.full();
      m.attrs = s.attrs;
      m.data.assign(s.n() * sizeof(T), '\0');
      for (int i = 1; i <= upto && i < (int)p.ops.size(); ++i) {
        const Op& o = p.ops[i];
        if (o.kind() == CONCAT) {
          Spec as;
          as.shape    = m.shape;
          as.shape[0] = (size_t)o.v[1];
          as.type     = s.type;
          as.salt     = (u64)o.v[2];
          m.shape[0] += as.shape[0];
          m.data += raw<T>(as);
        } else
          for (size_t k = 0; k < ref::count(m.shape); ++k) {
            T v = ref::value<T>((u64)o.v[1] + k);
            memcpy(&m.data[k * sizeof(T)], &v, sizeof(T));
          }
      }
      return m;
    };
    int* sh = shared_ints();  // 0: operations begun, 1: operations completed (the creation is the first), 2: gave up
    bool crashed = crashable([&] {
      try {
        sh[0] = 1;
        auto a = createMmapNpy<T>(path, s.shape, s.attrs, 60000);
        sh[1] = 1;
        for (int i = 1; i < (int)p.ops.size(); ++i) {
          sh[0] = i + 1;
          const Op& o = p.ops[i];
          if (o.kind() == CONCAT) {
            Spec as;
            as.shape    = a.shape();
            as.shape[0] = (size_t)o.v[1];
            as.type     = s.type;
            as.salt     = (u64)o.v[2];
            a.concatenate(make<T>(as));
          } else {
            ref::Shape sp = a.shape();
            size_t     n  = ref::count(sp);
            for (size_t k = 0; k < n; ++k) {
              ref::Shape c(sp.size());
              size_t     r = k;
              for (size_t d = c.size(); d > 0; --d) {
                c[d - 1] = r % sp[d - 1];
                r /= sp[d - 1];
              }
              a.at(c) = ref::value<T>((u64)o.v[1] + k);
            }
          }
          sh[1] = i + 1;
        }
      } catch (const std::exception& e) {
        event("stopped by %s", typeid(e).name());
        sh[2] = 1;
      }
    });
    int begun = sh[0], done = sh[1];
    event("crashed=%d begun=%d done=%d", (int)crashed, begun, done);
    sig(crashed * 1000 + begun * 30 + done);
    if (done == 0) {
      // not yet created: refused, or complete as far as the reader can tell
      try {
        auto b = mmapNpy<T>(path);
        compare(b, s.full(), s.attrs, std::string(s.n() * sizeof(T), '\0'), "array of an unfinished creation");
      } catch (const std::exception&) {
      }
      return;
    }
    if (crashed) probe("crash in a mapped array");
    // everything completed is there; the operation in progress happened or did not
    MState cand[2] = {state(done - 1), state(begun - 1)};
    std::unique_ptr<NdArray<T>> a;
    try {
      a.reset(new NdArray<T>(mmapNpy<T>(path)));
    } catch (const std::exception& e) {
      fail("lost-file", "after a crash the mapped file can not be opened any more: %s", e.what());
    }
    int        pick_ = a->shape() == cand[0].shape ? 0 : 1;
    compare(*a, cand[pick_].shape, cand[pick_].attrs, cand[pick_].data, "mapped file after a crash");
    NdArray<T> b = readNpy<T>(path);
    compare(b, cand[pick_].shape, cand[pick_].attrs, cand[pick_].data, "file read after a crash");
  }
};
void gen_mcrash(Rng& r, Plan& p) {
  gen_arr(r, p, 0);
  Op& o = p.ops[0];
  if (o.v[3] == 0) o.v[3] = 1;
  int n = (int)r.range(1, 7);
  for (int i = 0; i < n; ++i) {
    if (r.chance(2, 3)) p.ops.push_back(Op(CONCAT, (int)r.range(1, 12), (int)r.below(100000)));
    else p.ops.push_back(Op(SETALL, (int)r.below(100000)));
  }
  p.cfg["crash_at"]    = r.below(12);
  p.cfg["crash_after"] = r.below(2);
}
void run_mcrash(const Plan& p) {
  if (p.ops.empty() || p.ops[0].kind() != ARR) return;
  by_type<MmapCrash>(p.ops[0].v[1] % ref::NTYPE, p);
}
Scenario s_mcrash("npy_mcrash", "a process dies while it works on a mapped array", false, 2, gen_mcrash, run_mcrash);

// more elements than 32 bits count, in a sparse file
void gen_big(Rng& r, Plan& p) {
  p.cfg["a"] = r.range(65536, 66000);
  p.cfg["b"] = r.range(65536, 66000);
  for (int i = 0; i < 6; ++i) p.ops.push_back(Op(SET, (int)r.below(1 << 30), (int)r.below(1 << 30), (int)r.below(120)));
}
void run_big(const Plan& p) {
  boost::filesystem::path path = scratch() + "/big.npy";
  size_t                  A = (size_t)p.get("a"), B = (size_t)p.get("b");
  {
    auto a = createMmapNpy<int8_t>(path, {A, B});
    if (a.size() != A * B) fail("wrong-size", "an array of %zu x %zu has size %zu", A, B, a.size());
    if (boost::filesystem::file_size(path) < A * B) fail("wrong-size", "an array of %zu x %zu has a file of %zu bytes", A, B, (size_t)boost::filesystem::file_size(path));
    for (auto& o : p.ops) a.at((size_t)o.v[1] % A, (size_t)o.v[2] % B) = (int8_t)o.v[3];
    a.at(A - 1, B - 1) = 77;
  }
  auto b = mmapNpy<int8_t>(path, MF::readwrite);
  if (b.size() != A * B || b.shape() != ref::Shape({A, B})) fail("wrong-size", "mapped again, an array of %zu x %zu has size %zu", A, B, b.size());
  if (b.at(A - 1, B - 1) != 77) fail("wrong-data", "the last element of a big array is lost");
  for (size_t i = p.ops.size(); i-- > 0;) {
    auto& o = p.ops[i];
    bool  later = false;
    for (size_t k = i + 1; k < p.ops.size(); ++k)
      if (p.ops[k].v[1] % A == o.v[1] % A && p.ops[k].v[2] % B == o.v[2] % B) later = true;
    if (!later && b.at((size_t)o.v[1] % A, (size_t)o.v[2] % B) != (int8_t)o.v[3]) fail("wrong-data", "an element of a big array is lost");
  }
}
Scenario s_big("npy_big", "mapped arrays of more than 2^32 elements", false, 1, gen_big, run_big);

}  // namespace
