// ASCII tables: reading histories over failing streams and files, writing to streams and disks that fail.
#include "simio.h"
#include "ndref.h"
#include "ElementsKernel/Exception.h"
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
#include "Table/Table.h"
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>

using namespace sim;
using namespace Euclid::Table;
template <typename T> using ND = Euclid::NdArray::NdArray<T>;

namespace {
const int NTYPE = 15;
std::type_index type_of(int t) {
  switch (t) {
  case 0: return typeid(bool);
  case 1: return typeid(int32_t);
  case 2: return typeid(int64_t);
  case 3: return typeid(float);
  case 4: return typeid(double);
  case 5: return typeid(std::string);
  case 6: return typeid(std::vector<bool>);
  case 7: return typeid(std::vector<int32_t>);
  case 8: return typeid(std::vector<int64_t>);
  case 9: return typeid(std::vector<float>);
  case 10: return typeid(std::vector<double>);
  case 11: return typeid(ND<int32_t>);
  case 12: return typeid(ND<int64_t>);
  case 13: return typeid(ND<float>);
  default: return typeid(ND<double>);
  }
}
const char* const KEYWORD[][2] = {{"bool", "boolean"}, {"int", "int32"}, {"long", "int64"}, {"float", "float"}, {"double", "double"}, {"string", "string"},
                                  {"[bool]", "[boolean]"}, {"[int]", "[int32]"}, {"[long]", "[int64]"}, {"[float]", "[float]"}, {"[double]", "[double]"},
                                  {"[int+]", "[int32+]"}, {"[long+]", "[int64+]"}, {"[float+]", "[float+]"}, {"[double+]", "[double+]"}};

// the writer keeps six digits; what is only read is compared to the last bit
bool full_precision = false;
template <typename T> T num(u64 k) {
  Rng r(k * 977 + 5);
  if (full_precision && k % 3) {
    double m = (double)(i64)(r.next() >> 10) / 9007199254740992. + 0.5;
    int    e = sizeof(T) == 4 ? (int)r.range(-100, 100) : (int)r.range(-900, 900);
    return (T)std::ldexp(r.chance(1, 2) ? -m : m, r.chance(1, 2) ? e : (int)r.range(-3, 20));
  }
  return (T)((double)r.range(-4000, 4000) / 8);
}
template <> int32_t num<int32_t>(u64 k) {
  Rng r(k * 977 + 5);
  return k % 7 == 0 ? (r.below(2) ? INT32_MAX : INT32_MIN) : (int32_t)r.range(-100000, 100000);
}
template <> int64_t num<int64_t>(u64 k) {
  Rng r(k * 977 + 5);
  return k % 7 == 0 ? (r.below(2) ? INT64_MAX : INT64_MIN) : (int64_t)r.next() >> 20;
}
std::string word(u64 k, bool wide) {
  Rng         r(k * 31 + 77);
  const char* plain[] = {"a", "galaxy", "x-1", "NGC_224", "a\\b", "1.5", "(", "z'", "-", "true", "Column:", "<3>", "M,31"};
  const char* odd[]   = {"a b", "two  spaces", "say \"x\"", "\"", "tab\tbed", " lead", "trail ", "b\\ c\\"};
  if (wide && r.chance(1, 3)) return odd[r.below(8)];
  return plain[r.below(13)] + (r.chance(1, 2) ? std::to_string(k % 1000) : std::string());
}
template <typename T> std::vector<T> vec(u64 k) {
  std::vector<T> v;
  for (u64 i = 0; i <= k % 3; ++i) v.push_back(num<T>(k + i));
  return v;
}
template <typename T> ND<T> nd(u64 k) {
  std::vector<size_t> s{1 + k % 2, 1 + (k / 2) % 3};
  std::vector<T>      d;
  for (u64 i = 0; i < s[0] * s[1]; ++i) d.push_back(num<T>(k + i));
  return ND<T>(s, d);
}
Row::cell_type cell(int t, u64 k, bool wide) {
  switch (t) {
  case 0: return (k & 1) != 0;
  case 1: return num<int32_t>(k);
  case 2: return num<int64_t>(k);
  case 3: return num<float>(k);
  case 4: return num<double>(k);
  case 5: return word(k, wide);
  case 6: {
    std::vector<bool> v;
    for (u64 i = 0; i <= k % 3; ++i) v.push_back((k >> i & 1) != 0);
    return v;
  }
  case 7: return vec<int32_t>(k);
  case 8: return vec<int64_t>(k);
  case 9: return vec<float>(k);
  case 10: return vec<double>(k);
  case 11: return nd<int32_t>(k);
  case 12: return nd<int64_t>(k);
  case 13: return nd<float>(k);
  default: return nd<double>(k);
  }
}
template <typename T> std::string list(const std::vector<T>& v) {
  std::ostringstream o;
  if (full_precision) o.precision(17);
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  return o.str();
}
struct Text : boost::static_visitor<std::string> {
  std::string operator()(bool b) const { return b ? "1" : "0"; }
  std::string operator()(const std::string& s) const {
    if (s.find_first_of(" \t\"") == std::string::npos) return s;
    std::string o = "\"";
    for (char c : s) {
      if (c == '"' || c == '\\') o += '\\';
      o += c;
    }
    return o + "\"";
  }
  template <typename T> std::string operator()(const std::vector<T>& v) const { return list(v); }
  template <typename T> std::string operator()(const ND<T>& a) const {
    std::vector<T> d;
    for (auto x : a) d.push_back(x);
    return "<" + list(a.shape()) + ">" + list(d);
  }
  template <typename T> std::string operator()(const T& v) const {
    std::ostringstream o;
    if (full_precision) o.precision(17);
    o << v;
    return o.str();
  }
};
std::string text(const Row::cell_type& c) { return boost::apply_visitor(Text(), c); }
// exact comparison of two cells
struct Same : boost::static_visitor<bool> {
  template <typename A, typename B> bool operator()(const A&, const B&) const { return false; }
  template <typename A> bool operator()(const A& a, const A& b) const { return a == b; }
};
bool same(const Row::cell_type& a, const Row::cell_type& b) { return a.which() == b.which() && boost::apply_visitor(Same(), a, b); }

struct Cols {
  std::vector<int>         types;
  std::vector<std::string> names, units, descs;
  std::shared_ptr<ColumnInfo> info;
};
Cols columns(const Plan& p, u64 salt, bool plain_names) {
  Cols c;
  Rng  r((u64)p.get("cols_seed") + salt);
  int  n = (int)p.get("ncols", 2);
  for (int i = 0; i < n; ++i) {
    c.types.push_back((int)r.below(NTYPE));
    std::string nm = "c" + std::to_string(i);
    if (r.chance(1, 3)) nm += plain_names ? "_x" : " wide \"q\"";
    c.names.push_back(nm);
    c.units.push_back(r.chance(1, 2) ? "" : "u" + std::to_string(i));
    c.descs.push_back(r.chance(1, 2) ? "" : "about the column " + std::to_string(i));
  }
  std::vector<ColumnDescription> l;
  for (int i = 0; i < n; ++i) l.emplace_back(c.names[i], type_of(c.types[i]), c.units[i], c.descs[i]);
  c.info = std::make_shared<ColumnInfo>(l);
  return c;
}
typedef std::vector<Row::cell_type> Cells;
Cells cells(const Cols& c, u64 key, bool wide) {
  Cells v;
  for (size_t i = 0; i < c.types.size(); ++i) v.push_back(cell(c.types[i], key * 13 + i, wide));
  return v;
}
void check_row(const Row& row, const Cells& want, const char* what, size_t n) {
  if (row.size() != want.size()) fail("wrong-row", "%s: row %zu has %zu cells, expected %zu", what, n, row.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
    if (!same(row[i], want[i])) fail("wrong-cell", "%s: row %zu, column %zu is '%s', expected '%s'", what, n, i, text(row[i]).c_str(), text(want[i]).c_str());
}
void check_info(const ColumnInfo& info, const Cols& c, bool described, const char* what) {
  if (info.size() != c.names.size()) fail("wrong-columns", "%s: %zu columns, expected %zu", what, info.size(), c.names.size());
  for (size_t i = 0; i < c.names.size(); ++i) {
    auto& d = info.getDescription(i);
    if (d.name != c.names[i] || d.type != type_of(c.types[i])) fail("wrong-columns", "%s: column %zu is %s, expected %s, or its type differs", what, i, d.name.c_str(), c.names[i].c_str());
    if (described && (d.unit != c.units[i] || d.description != c.descs[i]))
      fail("wrong-columns", "%s: column %zu has unit '%s' and description '%s'", what, i, d.unit.c_str(), d.description.c_str());
  }
}

// ------------------------------------------------------------------ reading
enum { ROW = 1, NOTE, BLANK, BADROW, READ, SKIP, MORE, LEFT, INFO, COMMENT, NOP };
const char* const MARK[] = {"#", "//", "%%", "#"};

struct Line {
  size_t begin, end;  // end: after the newline
  int    row;         // index of the row, -1 not data, -2 malformed
};
struct Doc {
  std::string        text, comment;
  std::vector<Line>  lines;
  std::vector<Cells> rows;
};
std::string strip(const std::string& s, const std::string& mark) {
  std::string o = s.substr(0, s.find(mark));
  size_t      a = o.find_first_not_of(" \t\r\n\v\f"), b = o.find_last_not_of(" \t\r\n\v\f");
  return a == std::string::npos ? "" : o.substr(a, b - a + 1);
}
Doc build_doc(const Plan& p, const Cols& c, const std::string& mark) {
  Doc  d;
  auto put = [&](const std::string& s, int row) {
    Line l;
    l.begin = d.text.size();
    d.text += s + "\n";
    l.end = d.text.size();
    l.row = row;
    d.lines.push_back(l);
  };
  int nc = (int)p.get("notes");
  for (int i = 0; i < nc; ++i) {
    put(mark + " note " + std::to_string(i) + " of this table here", -1);
    d.comment += std::string(i ? "\n" : "") + "note " + std::to_string(i) + " of this table here";
  }
  put("", -1);
  bool described = p.get("described");
  if (described)
    for (size_t j = 0; j < c.names.size(); ++j) {
      size_t      i = p.get("header") == 0 ? (j + (size_t)p.get("rotate")) % c.names.size() : j;
      std::string s = mark + " Column: " + Text()(c.names[i]) + " " + KEYWORD[c.types[i]][(p.get("cols_seed") + i) % 2];
      if (!c.units[i].empty()) s += " (" + c.units[i] + ")";
      if (!c.descs[i].empty()) s += " - " + c.descs[i];
      put(s, -1);
    }
  if (p.get("header") == 0) {
    std::string names = mark;
    for (auto& n : c.names) names += " " + Text()(n);
    put(names, -1);
  }
  int k = 0;
  for (auto& o : p.ops) {
    Rng r((u64)o.v[1] * 7 + 1);
    switch (o.kind()) {
    case ROW: {
      Cells       v = cells(c, (u64)o.v[1], true);
      std::string s = r.chance(1, 2) ? " " : "";
      for (size_t i = 0; i < v.size(); ++i) {
        std::string t = text(v[i]);
        if (c.types[i] == 0 && r.chance(1, 2)) t = t == "1" ? (const char*[]){"true", "t", "yes", "y"}[r.below(4)] : (const char*[]){"false", "f", "no", "n"}[r.below(4)];
        s += (i ? std::string(1 + r.below(3), r.chance(1, 4) ? '\t' : ' ') : "") + t;
      }
      if (r.chance(1, 5)) s += " " + mark + " and a remark";
      if (r.chance(1, 8)) s += "\r";
      put(s, k++);
      d.rows.push_back(v);
      break;
    }
    case NOTE: put(k == 0 ? std::string() : std::string(r.below(2), ' ') + mark + " between the rows", -1); break;
    case BLANK: put(std::string(r.below(3), ' '), -1); break;
    case BADROW: {
      Cells       v = cells(c, (u64)o.v[1], false);
      std::string s;
      size_t      garbage = r.below(v.size());
      int         how     = (int)r.below(3);
      if (how == 1 && (c.types[garbage] == 5 || k == 0)) how = 0;  // the first row decides the number of columns
      if (how == 2 && (v.size() < 2 || k == 0)) how = 0;
      for (size_t i = 0; i + (how == 2) < v.size(); ++i) s += " " + (how == 1 && i == garbage ? (const char*[]){"12x", "1e999x", "abc", "1,,z", "<2,2>1"}[r.below(5)] : text(v[i]));
      put(s + (how == 0 ? " surplus" : ""), -2);
      break;
    }
    }
  }
  if (p.get("no_newline") && !d.lines.empty()) {
    d.text.pop_back();
    d.lines.back().end = d.text.size();
  }
  return d;
}
void run_read(const Plan& p) {
  enable_faults(false);
  full_precision = p.get("full");
  std::string mark  = MARK[p.get("mark") % 4];
  Cols        c     = columns(p, 0, false);
  bool        typed = p.get("described");
  Doc         d     = build_doc(p, c, mark);
  // the names and types the reader has to report
  if (p.get("header") && !typed)
    for (size_t i = 0; i < c.names.size(); ++i) c.names[i] = "col" + std::to_string(i + 1);
  if (p.get("fixnames"))
    for (size_t i = 0; i < c.names.size(); ++i) c.names[i] = "fixed" + std::to_string(c.names.size() - i);
  if (d.rows.empty()) return;
  InBuf::End end  = (InBuf::End)p.get("end");
  bool       file = p.get("file");
  size_t     stop = d.text.size();
  if (end != InBuf::CLEAN && !file) stop = std::min(d.text.size(), d.text.size() * (size_t)p.get("stop") / 4096);
  if (p.get("near") && end != InBuf::CLEAN && !file) stop = std::min(d.text.size(), d.lines[(size_t)p.get("stop") % d.lines.size()].end);
  if (file) end = InBuf::CLEAN;
  bool   broken = end == InBuf::BROKEN;
  // the lines as the reader can see them
  struct Seen {
    bool   data;
    int    row;    // -1 unknown content (cut), -2 malformed
    bool   whole;  // the reader does not have to look behind the fault
  };
  std::vector<Seen> seen;
  for (auto& l : d.lines) {
    if (l.begin >= stop) break;
    size_t e     = std::min(l.end, stop);
    bool   cut   = e < l.end || (d.text[l.end - 1] != '\n' && broken);
    std::string s = strip(d.text.substr(l.begin, e - l.begin), mark);
    seen.push_back({!s.empty(), cut ? -1 : l.row, !(cut && broken)});
  }
  size_t first = 0;
  while (first < seen.size() && !seen[first].data) ++first;
  bool info_known = first < seen.size() && seen[first].whole;
  // cut in the first data line, or before: nothing is known
  bool info_good = info_known && seen[first].row >= 0;
  std::unique_ptr<InBuf>        buf;
  std::unique_ptr<std::istream> in;
  std::unique_ptr<AsciiReader>  rd;
  u64 hit0 = 0;
  auto hit = [&] { return faults_fired("io_open") + faults_fired("io_read"); };
  std::string path = scratch() + "/t.txt";
  if (file) {
    {
      Quiet         q;
      std::ofstream o(path, std::ios::binary);
      o << d.text;
    }
    enable_faults(true);
    hit0 = hit();
    try {
      rd.reset(new AsciiReader(path));
    } catch (const Elements::Exception& e) {
      enable_faults(false);
      if (hit() == hit0) fail("read-failed", "the reader of a file threw without a fault");
      return;
    }
  } else {
    buf.reset(new InBuf(d.text, stop, end));
    in.reset(new std::istream(buf.get()));
    if (p.get("exc")) in->exceptions(std::ios::badbit);
    rd.reset(new AsciiReader(*in));
  }
  rd->setCommentIndicator(mark);
  if (!typed) {
    std::vector<std::type_index> t;
    for (int x : c.types) t.push_back(type_of(x));
    rd->fixColumnTypes(t);
  }
  if (p.get("fixnames")) rd->fixColumnNames(c.names);
  size_t pos = 0;  // line
  bool   started = false;
  for (auto& o : p.ops) {
    if (o.kind() < READ || o.kind() >= NOP) continue;
    bool   thrown = false;
    size_t at     = pos;
    // what the operation needs
    long   n      = o.v[1] % 6 == 5 ? -1 : o.v[1] % 6;
    std::vector<int> rows;
    bool   needs_broken = false, unknown = false;
    size_t to = at;
    auto   walk = [&](long want) {
      while (want != 0) {
        if (to >= seen.size()) {
          if (broken) needs_broken = true;
          break;
        }
        if (!seen[to].whole) {
          needs_broken = true;
          break;
        }
        if (seen[to].data) {
          rows.push_back(seen[to].row);
          if (seen[to].row < 0) unknown = true;
          --want;
        }
        ++to;
      }
    };
    std::string why;
    try {
      switch (o.kind()) {
      case READ: {
        if (!info_known) needs_broken = broken;
        walk(n);
        bool  malformed = false;
        for (int r : rows) malformed |= r == -2;
        Table t = rd->read(n);
        enable_faults(false);
        if (needs_broken) fail("lost-rows", "read(%ld) returned %zu rows of a stream that broke while they were read", n, t.size());
        if (!info_good) return;
        if (malformed) fail("malformed-accepted", "a row with too many cells was returned");
        if (t.size() != rows.size()) fail("lost-rows", "read(%ld) returned %zu rows, %zu are there", n, t.size(), rows.size());
        if (rows.empty()) fail("phantom-rows", "read(%ld) returned at the end of the table", n);
        for (size_t i = 0; i < rows.size(); ++i)
          if (rows[i] >= 0) check_row(t[i], d.rows[rows[i]], "read", i);
        if (!unknown) check_info(*t.getColumnInfo(), c, typed, "read");
        for (size_t i = 0; !unknown && i < c.names.size(); ++i)
          if (!same(t[0][c.names[i]], t[0][i])) fail("wrong-cell", "the cell of column '%s' is not that of column %zu", c.names[i].c_str(), i);
        pos = to;
        break;
      }
      case SKIP:
        if (!info_known) needs_broken = broken;
        walk(n);
        rd->skip(n);
        enable_faults(false);
        if (needs_broken) fail("lost-rows", "skip(%ld) returned normally on a stream that broke", n);
        pos = to;
        break;
      case MORE: {
        bool more = rd->hasMoreRows();
        enable_faults(false);
        while (to < seen.size() && !seen[to].data) ++to;
        bool want = to < seen.size();
        if (broken && (!want || !seen[to].whole)) {
          if (!more) fail("lost-rows", "hasMoreRows() is false on a stream that broke");
        } else if (more != want)
          fail("wrong-count", "hasMoreRows() is %d", (int)more);
        break;
      }
      case LEFT: {
        size_t left = rd->rowsLeft();
        enable_faults(false);
        walk(-1);
        if (broken) fail("lost-rows", "rowsLeft() is %zu on a stream that broke", left);
        if (left != rows.size()) fail("wrong-count", "rowsLeft() is %zu, %zu are left", left, rows.size());
        break;
      }
      case INFO: {
        auto& i = rd->getInfo();
        enable_faults(false);
        if (!info_known && broken && !started) fail("lost-rows", "getInfo() returned although the stream broke before the first row");
        if (info_good) check_info(i, c, typed, "getInfo");
        break;
      }
      case COMMENT: {
        std::string t = rd->getComment();
        enable_faults(false);
        if (at == 0 && info_good && p.get("notes") && t != d.comment) fail("wrong-comment", "getComment() is '%s'", t.c_str());
        break;
      }
      }
      if (o.kind() == READ || o.kind() == SKIP || o.kind() == INFO) {
        started = true;
        try {
          rd->setCommentIndicator("!");
          fail("no-error", "the comment indicator was changed after reading");
        } catch (const Elements::Exception&) {
        }
      }
    } catch (const std::exception& e) {
      thrown = true;
      why    = typeid(e).name();
    }
    bool io = hit() != hit0;
    enable_faults(false);
    event("op %d(%ld) at line %zu: %s", o.kind(), n, at, thrown ? "error" : "ok");
    sig(o.kind() * 2 + thrown);
    if (thrown) {
      if (io) {
        probe("disk error reported");
        return;
      }
      if (broken) {
        // an operation that does not reach the fault must work
        bool reach = true;
        if (o.kind() == READ) reach = !info_good || needs_broken || unknown || rows.empty();
        if (o.kind() == SKIP) reach = !info_good || needs_broken;
        if (o.kind() == INFO) reach = !info_good;
        if (o.kind() == MORE) {
          size_t x = at;
          while (x < seen.size() && !seen[x].data) ++x;
          reach = x >= seen.size() || !seen[x].whole;
        }
        if (!reach) fail("read-failed", "operation %d failed although everything it needs lies before the fault", o.kind());
        probe("broken stream reported");
        return;
      }
      bool ok = o.kind() == READ && (rows.empty() || unknown);
      if (!info_good && (o.kind() == READ || o.kind() == SKIP || o.kind() == INFO)) ok = true;
      if (!ok) fail("read-failed", "operation %d(%ld) threw %s without reason", o.kind(), n, why.c_str());
      if (o.kind() == READ && rows.empty() && info_good) {
        if (n != 0) pos = to;
        probe("end of the table reported");
        continue;  // the reader can still be asked
      }
      return;
    }
    if (file) enable_faults(true);
  }
}
void gen_read(Rng& r, Plan& p) {
  p.cfg["full"] = r.chance(1, 2);
  p.cfg["cols_seed"] = r.below(100000);
  p.cfg["ncols"]     = r.range(1, 4);
  p.cfg["mark"]      = r.below(4);
  p.cfg["notes"]     = r.below(3);
  p.cfg["described"] = r.chance(3, 4);
  p.cfg["header"]    = r.chance(1, 4);
  p.cfg["fixnames"]  = r.chance(1, 5);
  p.cfg["rotate"]    = r.chance(1, 3) ? r.below(4) : 0;
  p.cfg["no_newline"] = r.chance(1, 4);
  p.cfg["end"]       = r.below(3);
  p.cfg["stop"]      = r.below(4097);
  p.cfg["near"]      = r.chance(1, 3);
  p.cfg["exc"]       = r.chance(1, 4);
  p.cfg["file"]      = r.chance(1, 3);
  int n              = (int)r.range(1, 10);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(12);
    p.ops.push_back(Op(k < 8 ? ROW : k < 9 ? NOTE : k < 11 ? BLANK : (r.chance(1, 4) ? BADROW : ROW), (int)r.below(100000)));
  }
  int m = (int)r.range(1, 9);
  for (int i = 0; i < m; ++i) {
    int k = (int)r.below(10);
    p.ops.push_back(Op(k < 4 ? READ : k < 6 ? SKIP : k < 7 ? MORE : k < 8 ? LEFT : k < 9 ? INFO : COMMENT, (int)r.below(6)));
  }
  if (r.chance(1, 2)) p.cfg["f_io_read"] = r.range(20, 300);
  if (r.chance(1, 4)) p.cfg["f_io_open"] = r.range(50, 300);
  if (r.chance(1, 2)) p.cfg["f_io_short_read"] = r.range(100, 700);
  if (r.chance(1, 2)) p.cfg["f_io_eintr"] = r.range(50, 300);
}
Scenario s_read("tb_read", "histories of reading an ASCII table from streams and files that end, break or fail", false, 2, gen_read, run_read);

// ------------------------------------------------------------------ writing
enum { NOTE_W = 1, DATA, OTHER, EMPTYVEC };
// what has been added, as far as the calls returned normally
struct Written {
  std::vector<std::string> notes;
  std::vector<Cells>       rows;
};
std::vector<std::string> tokens(const std::string& l) {
  std::vector<std::string> o;
  size_t                   i = 0;
  while (true) {
    while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) ++i;
    if (i >= l.size()) return o;
    std::string t;
    if (l[i] == '"') {
      t += l[i++];
      while (i < l.size() && l[i] != '"') {
        if (l[i] == '\\' && i + 1 < l.size()) t += l[i++];
        t += l[i++];
      }
      if (i < l.size()) t += l[i++];
    } else
      while (i < l.size() && l[i] != ' ' && l[i] != '\t') t += l[i++];
    o.push_back(t);
  }
}
// the text holds exactly these notes, the description of the columns, and these rows; extra: rows that may follow
void check_text(const std::string& f, const Cols& c, const std::string& mark, bool show, const Written& w, const std::vector<Cells>& extra, bool cut, const char* what) {
  std::vector<std::string> lines;
  std::istringstream       is(f);
  std::string              l;
  bool                     last_whole = f.empty() || f.back() == '\n';
  while (std::getline(is, l)) lines.push_back(l);
  if (!last_whole && cut && !lines.empty()) lines.pop_back();
  else if (!last_whole) fail("bad-table", "%s: the last line is not complete", what);
  size_t i = 0;
  auto   expect = [&](const std::string& t, const char* part) {
    if (i >= lines.size()) {
      fail("lost-rows", "%s: the text ends before the %s", what, part);
    }
    if (lines[i] != t) fail("bad-table", "%s: the %s is '%s'", what, part, lines[i].c_str());
    ++i;
  };
  for (auto& n : w.notes) expect(mark + " " + n, "comment");
  if (!w.rows.empty() || (!extra.empty() && i < lines.size())) {
    bool must = !w.rows.empty();
    if (!w.notes.empty() && (must || i < lines.size())) expect("", "line after the comments");
    if (show) {
      for (size_t k = 0; k < c.names.size(); ++k) {
        if (!must && i >= lines.size()) return;
        std::string s = mark + " Column: " + Text()(c.names[k]) + " " + KEYWORD[c.types[k]][0];
        if (!c.units[k].empty()) s += " (" + c.units[k] + ")";
        if (!c.descs[k].empty()) s += " - " + c.descs[k];
        expect(s, "column description");
      }
      if (!must && i >= lines.size()) return;
      expect("", "line after the descriptions");
    }
    if (!must && i >= lines.size()) return;
    if (i >= lines.size()) fail("lost-rows", "%s: the text ends before the names", what);
    if (lines[i].compare(0, mark.size(), mark)) fail("bad-table", "%s: the names are '%s'", what, lines[i].c_str());
    auto t = tokens(lines[i].substr(mark.size()));
    std::vector<std::string> want;
    for (auto& n : c.names) want.push_back(Text()(n));
    if (t != want) fail("bad-table", "%s: the names are '%s'", what, lines[i].c_str());
    ++i;
    if (!must && i >= lines.size()) return;
    expect("", "line after the names");
  }
  std::vector<Cells> rows = w.rows;
  rows.insert(rows.end(), extra.begin(), extra.end());
  for (size_t k = 0; k < rows.size(); ++k) {
    if (i >= lines.size()) {
      if (k < w.rows.size()) fail("lost-rows", "%s: %zu rows of %zu are there", what, k, w.rows.size());
      return;
    }
    auto                     t = tokens(lines[i]);
    std::vector<std::string> want;
    for (auto& x : rows[k]) want.push_back(text(x));
    if (t != want) fail("wrong-cell", "%s: row %zu is '%s'", what, k, lines[i].c_str());
    ++i;
  }
  if (i < lines.size()) fail("bad-table", "%s: %zu lines too many, the first is '%s'", what, lines.size() - i, lines[i].c_str());
}
Table make_table(const Cols& c, const std::vector<Cells>& rows) {
  std::vector<Row> r;
  for (auto& x : rows) r.emplace_back(x, c.info);
  return Table(r);
}
void read_back(std::istream& in, const Cols& c, const std::string& mark, bool show, const Written& w) {
  AsciiReader rd(in);
  rd.setCommentIndicator(mark);
  if (!show) {
    std::vector<std::type_index> t;
    for (int x : c.types) t.push_back(type_of(x));
    rd.fixColumnTypes(t);
  }
  if (!w.notes.empty()) {
    std::string want;
    for (size_t i = 0; i < w.notes.size(); ++i) want += (i ? "\n" : "") + w.notes[i];
    if (rd.getComment() != want) fail("wrong-comment", "the comment is read back as something else");
  }
  if (w.rows.empty()) return;
  try {
    Table t = rd.read();
    check_info(*t.getColumnInfo(), c, show, "reading what was written");
    if (t.size() != w.rows.size()) fail("lost-rows", "%zu rows were written, %zu are read back", w.rows.size(), t.size());
    for (size_t i = 0; i < t.size(); ++i) check_row(t[i], w.rows[i], "reading what was written", i);
  } catch (const std::exception& e) {
    fail("unreadable", "what was written can not be read: %s", e.what());
  }
}
struct Target {  // how the writer reaches its destination
  std::unique_ptr<OutBuf>       buf;
  std::unique_ptr<std::ostream> out;
  std::unique_ptr<AsciiWriter>  w;
};
// the history of one writer; begun/done count the operations
void history(const Plan& p, const Cols& c, const std::string& mark, AsciiWriter& w, Written& ok, std::vector<Cells>& pending, bool& stopped, const std::function<u64()>& hit,
             const std::function<void(const char*)>& after, int* done) {
  u64 salt = 0;
  for (auto& o : p.ops) {
    bool thrown = false, oom = false;
    u64  h0 = hit();
    pending.clear();
    switch (o.kind()) {
    case NOTE_W: {
      std::string n = "note " + std::to_string(o.v[1]) + (o.v[1] % 3 == 0 ? "" : " and more");
      bool        late = !ok.rows.empty();
      bool        two = o.v[1] % 4 == 1;
      enable_faults(true);
      try {
        w.addComment(two ? n + "\n" + n : n);
      } catch (const std::bad_alloc&) {
        thrown = oom = true;
      } catch (const std::exception&) {
        thrown = true;
      }
      enable_faults(false);
      if (late) {
        if (!thrown) fail("no-error", "a comment was accepted after the data");
        thrown = false;
        break;
      }
      if (!thrown) {
        ok.notes.push_back(n);
        if (two) ok.notes.push_back(n);
      }
      break;
    }
    case DATA: {
      std::vector<Cells> rows;
      for (int i = 0; i <= o.v[1] % 4; ++i) rows.push_back(cells(c, (u64)o.v[2] + ++salt, true));
      Table t = make_table(c, rows);
      pending = rows;
      enable_faults(true);
      try {
        w.addData(t);
      } catch (const std::bad_alloc&) {
        thrown = oom = true;
      } catch (const std::exception&) {
        thrown = true;
      }
      enable_faults(false);
      if (!thrown) {
        ok.rows.insert(ok.rows.end(), rows.begin(), rows.end());
        pending.clear();
      }
      break;
    }
    case OTHER: {
      if (ok.rows.empty()) break;
      Cols b = c;
      b.names[0] += "x";
      std::vector<ColumnDescription> l;
      for (size_t i = 0; i < b.names.size(); ++i) l.emplace_back(b.names[i], type_of(b.types[i]), b.units[i], b.descs[i]);
      b.info  = std::make_shared<ColumnInfo>(l);
      Table t = make_table(b, {cells(b, 1, false)});
      try {
        w.addData(t);
        fail("no-error", "a table with other columns was appended");
      } catch (const Elements::Exception&) {
      }
      try {
        w.setCommentIndicator(";");
        fail("no-error", "the comment indicator was changed after writing");
      } catch (const Elements::Exception&) {
      }
      break;
    }
    }
    event("op %d: %s", o.kind(), thrown ? "error" : "ok");
    sig(o.kind() * 2 + thrown);
    if (done) ++*done;
    if (thrown && !oom && hit() == h0) fail("write-failed", "operation %d threw without a fault", o.kind());
    if (thrown && !oom) {
      probe("write error reported");
      stopped = true;
      after("after an error");
      return;
    }
    if (thrown) probe("out of memory while writing");
    pending.clear();
    after("after an operation");
  }
}
void gen_ops(Rng& r, Plan& p) {
  p.cfg["cols_seed"] = r.below(100000);
  p.cfg["ncols"]     = r.range(1, 4);
  p.cfg["mark"]      = r.below(4);
  p.cfg["show"]      = r.chance(3, 4);
  int n              = (int)r.below(3);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(NOTE_W, (int)r.below(1000)));
  n = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) p.ops.push_back(r.chance(1, 8) ? Op(OTHER) : r.chance(1, 10) ? Op(NOTE_W, 3) : Op(DATA, (int)r.below(4), (int)r.below(100000)));
}
void gen_write(Rng& r, Plan& p) {
  gen_ops(r, p);
  p.cfg["cap"]    = r.chance(1, 3) ? 1000000 : r.below(900);
  p.cfg["throws"] = r.below(2);
  p.cfg["buf"]    = r.below(300);
  p.cfg["exc"]    = r.below(2);
}
void run_write(const Plan& p) {
  enable_faults(false);
  std::string  mark = MARK[p.get("mark") % 4];
  bool         show = p.get("show");
  Cols         c    = columns(p, 0, false);
  OutBuf       buf((size_t)p.get("cap"), p.get("throws"), (size_t)p.get("buf"));
  std::ostream out(&buf);
  if (p.get("exc")) out.exceptions(std::ios::badbit);
  AsciiWriter w(out);
  w.setCommentIndicator(mark).showColumnInfo(show);
  Written            ok;
  std::vector<Cells> pending;
  bool               stopped = false;
  history(p, c, mark, w, ok, pending, stopped, [&] { return (u64)buf.failed() * 2; },
          [&](const char* what) {
            // what the calls that returned have written has reached the other side
            if (!buf.failed()) check_text(buf.durable(), c, mark, show, ok, pending, false, what);
          },
          nullptr);
  if (stopped) {
    // a failed writer does not claim success again
    try {
      w.addData(make_table(c, {cells(c, 5, false)}));
      fail("silent-write-error", "data were accepted after the stream had failed");
    } catch (const std::exception&) {
    }
    return;
  }
  sig_str(buf.durable());
  if (buf.failed()) fail("silent-write-error", "the stream failed and every call returned normally");
  if (faults_fired("alloc")) return;
  std::istringstream in(buf.durable());
  read_back(in, c, mark, show, ok);
}
Scenario s_write("tb_write", "an ASCII table written to a stream that stops accepting", false, 1, gen_write, run_write);

std::string slurp(const std::string& path) {
  NoFaults           nf;
  Quiet              q;
  std::ifstream      f(path, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
void gen_file(Rng& r, Plan& p) {
  gen_ops(r, p);
  if (r.chance(1, 4)) p.cfg["f_io_open"] = r.range(50, 400);
  if (r.chance(1, 3)) p.cfg["f_io_write"] = r.range(30, 400);
  if (r.chance(1, 3)) p.cfg["f_io_short_write"] = r.range(50, 500);
  if (r.chance(1, 3)) p.cfg["f_io_eintr"] = r.range(20, 300);
  if (r.chance(1, 3)) p.cfg["disk_bytes"] = r.below(1500);
}
void run_file(const Plan& p) {
  enable_faults(false);
  std::string mark = MARK[p.get("mark") % 4], path = scratch() + "/w.txt";
  bool        show = p.get("show");
  Cols        c    = columns(p, 0, false);
  auto        hit  = [] { return faults_fired("io_open") + faults_fired("io_write") + faults_fired("disk_full"); };
  Written            ok;
  std::vector<Cells> pending;
  bool               stopped = false;
  {
    std::unique_ptr<AsciiWriter> w;
    enable_faults(true);
    u64 h0 = hit();
    try {
      w.reset(new AsciiWriter(path));
    } catch (const Elements::Exception&) {
      if (hit() == h0) fail("write-failed", "the writer of a file threw without a fault");
    }
    enable_faults(false);
    if (!w) return;
    bool opened = hit() == h0;  // otherwise every operation may fail
    u64  unopened = 0;
    w->setCommentIndicator(mark).showColumnInfo(show);
    history(p, c, mark, *w, ok, pending, stopped, [&] { return hit() + (opened ? 0 : ++unopened); },
            [&](const char* what) {
              if (!stopped) check_text(slurp(path), c, mark, show, ok, pending, false, what);
              else if (!pending.empty()) check_text(slurp(path), c, mark, show, ok, pending, true, what);
              else {
                std::string want, f = slurp(path);
                for (auto& n : ok.notes) want += mark + " " + n + "\n";
                if (f.compare(0, want.size(), want)) fail("lost-rows", "%s: a completed comment is not in the file", what);
              }
            },
            nullptr);
  }
  if (stopped) return;
  check_text(slurp(path), c, mark, show, ok, {}, false, "after closing");
  std::ifstream in(path);
  read_back(in, c, mark, show, ok);
}
Scenario s_file("tb_file", "an ASCII table written to a disk that fails", false, 2, gen_file, run_file);

// the writing process dies
void gen_crash(Rng& r, Plan& p) {
  gen_ops(r, p);
  p.cfg["crash_at"]    = r.below(9);
  p.cfg["crash_torn"]  = r.below(2);
  p.cfg["crash_after"] = r.below(2);
}
void run_crash(const Plan& p) {
  enable_faults(false);
  std::string mark = MARK[p.get("mark") % 4], path = scratch() + "/w.txt";
  bool        show = p.get("show");
  Cols        c    = columns(p, 0, false);
  int*        sh   = shared_ints();
  bool crashed = crashable([&] {
    AsciiWriter w(path);
    w.setCommentIndicator(mark).showColumnInfo(show);
    Written            ok;
    std::vector<Cells> pending;
    bool               stopped = false;
    history(p, c, mark, w, ok, pending, stopped, [] { return (u64)0; },
            [&](const char*) {
              sh[0] = (int)ok.notes.size();
              sh[1] = (int)ok.rows.size();
            },
            nullptr);
  });
  // the same operations again, for what they should have produced
  Written all;
  u64     salt = 0;
  for (auto& o : p.ops) {
    if (o.kind() == NOTE_W && all.rows.empty()) {
      std::string n = "note " + std::to_string(o.v[1]) + (o.v[1] % 3 == 0 ? "" : " and more");
      all.notes.push_back(n);
      if (o.v[1] % 4 == 1) all.notes.push_back(n);
    }
    if (o.kind() == DATA)
      for (int i = 0; i <= o.v[1] % 4; ++i) all.rows.push_back(cells(c, (u64)o.v[2] + ++salt, true));
  }
  std::string f = slurp(path);
  event("crashed=%d notes=%d rows=%d size=%zu", (int)crashed, sh[0], sh[1], f.size());
  Written ok;
  ok.notes.assign(all.notes.begin(), all.notes.begin() + sh[0]);
  ok.rows.assign(all.rows.begin(), all.rows.begin() + sh[1]);
  if (!crashed) {
    check_text(f, c, mark, show, all, {}, false, "after the end of the process");
    return;
  }
  probe("crash while writing a table");
  if ((int)all.notes.size() > sh[0] && !sh[1]) {
    // comments were being written: those that were completed are there
    std::string want;
    for (auto& n : ok.notes) want += mark + " " + n + "\n";
    if (f.compare(0, want.size(), want)) fail("lost-rows", "after a crash a completed comment is not in the file");
    return;
  }
  std::vector<Cells> extra(all.rows.begin() + sh[1], all.rows.end());
  check_text(f, c, mark, show, ok, extra, true, "after a crash");
}
Scenario s_crash("tb_crash", "the process that writes an ASCII table dies", false, 1, gen_crash, run_crash);

// another implementation of the interface, whose steps can fail
class Fallible : public TableWriter {
public:
  int  inits = 0;
  bool fail_init = false, fail_append = false;
  std::vector<Cells> rows;
  void addComment(const std::string&) override {}

protected:
  void init(const Table&) override {
    if (fail_init) throw std::runtime_error("simulated failure");
    ++inits;
  }
  void append(const Table& t) override {
    if (inits != 1) fail("lost-header", "data are appended after %d initialisations", inits);
    if (fail_append) throw std::runtime_error("simulated failure");
    for (auto& r : t) rows.push_back(Cells(r.begin(), r.end()));
  }
};
void gen_iface(Rng& r, Plan& p) {
  p.cfg["cols_seed"] = r.below(100000);
  p.cfg["ncols"]     = r.range(1, 3);
  int n              = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(DATA, (int)r.below(3), (int)r.below(1000), r.chance(1, 3), r.chance(1, 3), r.chance(1, 5)));
}
void run_iface(const Plan& p) {
  enable_faults(false);
  Cols c = columns(p, 0, false), b = columns(p, 99, false);
  b.names[0] += "z";
  std::vector<ColumnDescription> l;
  for (size_t i = 0; i < b.names.size(); ++i) l.emplace_back(b.names[i], type_of(b.types[i]), b.units[i], b.descs[i]);
  b.info = std::make_shared<ColumnInfo>(l);
  Fallible           w;
  std::vector<Cells> want;
  const Cols*        used = nullptr;
  for (auto& o : p.ops) {
    const Cols&        x = o.v[5] ? b : c;
    std::vector<Cells> rows;
    for (int i = 0; i <= o.v[1]; ++i) rows.push_back(cells(x, (u64)o.v[2] + i, true));
    w.fail_init   = o.v[3];
    w.fail_append = o.v[4];
    bool mismatch = used && used != &x, should = (!used && w.fail_init) || w.fail_append || mismatch, thrown = false;
    if (o.v[3]) count_fault("init_failure");
    if (o.v[4]) count_fault("append_failure");
    try {
      w.addData(make_table(x, rows));
    } catch (const std::exception&) {
      thrown = true;
    }
    event("addData: %d", (int)thrown);
    if (thrown != should) fail("wrong-result", "addData %s", thrown ? "threw without reason" : "did not report a failure");
    if (!used && !w.fail_init) used = &x;
    if (!thrown) want.insert(want.end(), rows.begin(), rows.end());
  }
  if (w.rows.size() != want.size()) fail("lost-rows", "%zu rows were appended, %zu were added", w.rows.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
    for (size_t k = 0; k < want[i].size(); ++k)
      if (!same(w.rows[i][k], want[i][k])) fail("wrong-cell", "row %zu differs", i);
}
Scenario s_iface("tb_iface", "a table writer whose initialisation or output fails", false, 1, gen_iface, run_iface);

// cells without elements
void run_empty(const Plan& p) {
  enable_faults(false);
  auto info = std::make_shared<ColumnInfo>(std::vector<ColumnDescription>{ColumnDescription("a", typeid(int32_t)), ColumnDescription("b", typeid(std::vector<double>))});
  Row  row({Row::cell_type((int32_t)p.get("n")), Row::cell_type(std::vector<double>())}, info);
  std::ostringstream o;
  AsciiWriter        w(o);
  w.addData(Table({row}));
  // nothing can be said about reading it back: an empty list has no text in this format
  event("wrote %zu bytes", o.str().size());
}
Scenario s_empty("tb_empty", "a table with an empty list", false, 1, [](Rng& r, Plan& p) { p.cfg["n"] = r.below(100); }, run_empty);
}  // namespace
