// Independent reference for arrays and the NPY format.
#pragma once
#include "sim.h"
#include <cstring>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<size_t> Shape;

inline size_t count(const Shape& s) {
  size_t n = 1;
  for (size_t d : s) n *= d;
  return n;
}

const char* const DTYPE[] = {"b", "i2", "i4", "i8", "B", "u2", "u4", "u8", "f4", "f8"};
const size_t      DSIZE[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
const int         NTYPE   = 10;

template <typename T> T value(uint64_t i) {
  sim::Rng r(i * 77777 + 13);
  return (T)(int64_t)(r.next() >> 20);
}
template <> inline float value<float>(uint64_t i) {
  sim::Rng r(i * 77777 + 13);
  return (float)((double)(int64_t)(r.next() >> 30) / 1024.0 - 5e6);
}
template <> inline double value<double>(uint64_t i) {
  sim::Rng r(i * 77777 + 13);
  return (double)(int64_t)(r.next() >> 12) / 1024.0 - 1e9;
}
template <typename T> std::string bytes(const T& v) { return std::string(reinterpret_cast<const char*>(&v), sizeof v); }

struct Header {
  bool                     ok = false, fortran = false;
  std::string              why, descr;
  std::vector<std::string> attrs;
  Shape                    shape;
  size_t                   data = 0;  // where the data start
};

// a strict reader of the NPY header, for what the library wrote
inline Header parse(const std::string& f) {
  Header h;
  auto   bad = [&](const char* w) {
    h.why = w;
    return h;
  };
  if (f.size() < 12 || memcmp(f.data(), "\x93NUMPY", 6)) return bad("no magic sequence");
  unsigned major = (unsigned char)f[6];
  size_t   len, at;
  if (major == 1) {
    len = (unsigned char)f[8] | (unsigned char)f[9] << 8;
    at  = 10;
  } else if (major == 2 || major == 3) {
    len = (unsigned char)f[8] | (unsigned char)f[9] << 8 | (unsigned char)f[10] << 16 | (size_t)(unsigned char)f[11] << 24;
    at  = 12;
  } else
    return bad("unknown version");
  if (f.size() < at + len) return bad("header cut");
  h.data        = at + len;
  std::string d = f.substr(at, len);
  if (h.data % 64) return bad("the data are not aligned to 64 bytes");
  if (d.empty() || d.back() != '\n') return bad("the header does not end with a newline");
  size_t i    = 0;
  auto   ws   = [&] { while (i < d.size() && (d[i] == ' ' || d[i] == ',')) ++i; };
  auto   str  = [&](std::string& o) {
    if (i >= d.size() || d[i] != '\'') return false;
    size_t e = d.find('\'', i + 1);
    if (e == std::string::npos) return false;
    o = d.substr(i + 1, e - i - 1);
    i = e + 1;
    return true;
  };
  if (d[i++] != '{') return bad("no dictionary");
  int seen = 0;
  while (true) {
    ws();
    if (i < d.size() && d[i] == '}') break;
    std::string key;
    if (!str(key)) return bad("bad key");
    while (i < d.size() && (d[i] == ':' || d[i] == ' ')) ++i;
    if (key == "descr") {
      seen |= 1;
      if (d[i] == '[') {
        ++i;
        while (true) {
          ws();
          if (i < d.size() && d[i] == ']') {
            ++i;
            break;
          }
          if (i >= d.size() || d[i] != '(') return bad("bad field");
          ++i;
          std::string n, t;
          if (!str(n)) return bad("bad field name");
          ws();
          if (!str(t)) return bad("bad field type");
          ws();
          if (d[i++] != ')') return bad("bad field end");
          if (!h.descr.empty() && h.descr != t) return bad("mixed types");
          h.descr = t;
          h.attrs.push_back(n);
        }
      } else if (!str(h.descr))
        return bad("bad descr");
    } else if (key == "fortran_order") {
      seen |= 2;
      if (d.compare(i, 5, "False") == 0)
        i += 5;
      else if (d.compare(i, 4, "True") == 0) {
        i += 4;
        h.fortran = true;
      } else
        return bad("bad fortran_order");
    } else if (key == "shape") {
      seen |= 4;
      if (d[i++] != '(') return bad("bad shape");
      while (true) {
        ws();
        if (i < d.size() && d[i] == ')') {
          ++i;
          break;
        }
        size_t v = 0, b = i;
        while (i < d.size() && isdigit((unsigned char)d[i])) v = v * 10 + (d[i++] - '0');
        if (b == i) return bad("bad dimension");
        h.shape.push_back(v);
      }
    } else
      return bad("unknown key");
  }
  if (seen != 7) return bad("missing key");
  for (++i; i < d.size(); ++i)
    if (d[i] != ' ' && d[i] != '\n') return bad("text after the dictionary");
  h.ok = true;
  return h;
}

// a header as numpy writes it; shape without the axis of the fields
inline std::string numpy_header(int version, const std::string& descr, bool fortran, const Shape& shape) {
  std::string d = "{'descr': " + descr + ", 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': (";
  for (size_t i = 0; i < shape.size(); ++i) d += (i ? ", " : "") + std::to_string(shape[i]);
  if (shape.size() == 1) d += ",";
  d += "), }";
  size_t pre = version == 1 ? 10 : 12;
  while ((pre + d.size() + 1) % 64) d += ' ';
  d += '\n';
  std::string o = "\x93NUMPY";
  o += (char)version;
  o += '\0';
  o += (char)(d.size() & 255);
  o += (char)(d.size() >> 8 & 255);
  if (version != 1) {
    o += (char)(d.size() >> 16 & 255);
    o += (char)(d.size() >> 24 & 255);
  }
  return o + d;
}
inline std::string descr(const std::string& endian, const std::string& t, const std::vector<std::string>& attrs) {
  if (attrs.empty()) return "'" + endian + t + "'";
  std::string o = "[";
  for (size_t i = 0; i < attrs.size(); ++i) o += std::string(i ? ", " : "") + "('" + attrs[i] + "', '" + endian + t + "')";
  return o + "]";
}
}  // namespace ref
