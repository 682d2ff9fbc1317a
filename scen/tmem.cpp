// Tables in memory: descriptions, rows and tables put together from anything, and cells read as other types.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
#include "Table/CastVisitor.h"
#include "Table/Table.h"
#include <cmath>
#include <memory>
#include <set>
#include <sstream>

using namespace sim;
using namespace Euclid::Table;
template <typename T> using ND = Euclid::NdArray::NdArray<T>;

namespace {
typedef Row::cell_type Cell;
// 0 fine, 1 refused, 2 out of memory
template <typename F> int attempt(F op) {
  int r = 0;
  u64 a = faults_fired("alloc");
  enable_faults(true);
  try {
    op();
  } catch (const std::bad_alloc&) {
    r = 2;
  } catch (const Elements::Exception&) {
    r = 1;
  } catch (...) {
    enable_faults(false);
    throw;
  }
  enable_faults(false);
  if (r == 2 && faults_fired("alloc") == a) fail("harness-exception", "out of memory without cause");
  sig(r);
  return r;
}
// repeated while memory runs out: accepted or refused?
template <typename F> bool accepted(F op) {
  for (int i = 0; i < 6; ++i) {
    int r = attempt(op);
    if (r != 2) return r == 0;
  }
  try {
    op();
  } catch (const Elements::Exception&) {
    return false;
  }
  return true;
}
void expect(bool got, bool want, const char* what) {
  event("%s: %d", what, (int)got);
  if (got != want) fail(got ? "accepted" : "refused", "%s is %s", what, got ? "accepted" : "refused");
}
const std::type_index TYPES[] = {typeid(bool), typeid(int32_t), typeid(int64_t), typeid(float), typeid(double), typeid(std::string), typeid(std::vector<bool>), typeid(std::vector<int32_t>),
                                 typeid(std::vector<int64_t>), typeid(std::vector<float>), typeid(std::vector<double>), typeid(ND<int32_t>), typeid(ND<int64_t>), typeid(ND<float>), typeid(ND<double>)};
const char* const BREAKS[] = {"\n", "\r", "\v", "\f", "a\nb", "\n\n", "x\r\ny\r\nz", "end\n", "\vb c", "a\nb\nc\n"};
const char* const NUMBERS[] = {"12", "-7.5e3", "abc", " 4", "1e400", "-1e400", "99999999999", "-99999999999", "99999999999999999999", "-99999999999999999999", "1e39", "0.1", "2147483647", "2147483648",
                               "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "3,4", "1,,2", ",", "5,x", "7,99999999999", "1e-400", "-", "1.5,2.5,1e39", "12abc"};
std::string text(Rng& r) {
  if (r.chance(2, 3)) return NUMBERS[r.below(sizeof NUMBERS / sizeof *NUMBERS)];
  return "word" + std::to_string(r.below(100));
}
template <typename T> T num(Rng& r) {
  if (r.chance(1, 6)) return r.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
  return (T)((double)r.range(-4000, 4000) / 8);
}
template <typename T> std::vector<T> vec(Rng& r) {
  std::vector<T> v(r.below(4));
  for (auto& x : v) x = num<T>(r);
  return v;
}
template <typename T> ND<T> nd(Rng& r) {
  ND<T> a(std::vector<size_t>{1 + r.below(2), 1 + r.below(3)});
  for (auto& x : a) x = num<T>(r);
  return a;
}
Cell cell(int t, Rng& r) {
  switch (t) {
    case 0: return r.chance(1, 2);
    case 1: return num<int32_t>(r);
    case 2: return num<int64_t>(r);
    case 3: return num<float>(r);
    case 4: return num<double>(r);
    case 5: return text(r);
    case 6: {
      std::vector<bool> v;
      for (u64 i = r.below(4); i-- > 0;) v.push_back(r.chance(1, 2));
      return v;
    }
    case 7: return vec<int32_t>(r);
    case 8: return vec<int64_t>(r);
    case 9: return vec<float>(r);
    case 10: return vec<double>(r);
    case 11: return nd<int32_t>(r);
    case 12: return nd<int64_t>(r);
    case 13: return nd<float>(r);
    default: return nd<double>(r);
  }
}
// what a cell may be read as, by the list of its elements
struct Value {
  int                      kind = 0;  // type of the elements, 0 to 5 as in TYPES
  bool                     scalar = false, list = false, str = false;
  std::vector<long double> v;
  std::string              s;
};
struct Look : boost::static_visitor<Value> {
  template <typename T> static Value one(int k, T x) {
    Value v;
    v.kind = k, v.scalar = true, v.v.push_back(x);
    return v;
  }
  template <typename T> static Value many(int k, const std::vector<T>& x) {
    Value v;
    v.kind = k, v.list = true;
    for (T y : x) v.v.push_back(y);
    return v;
  }
  Value operator()(bool x) const { return one(0, x); }
  Value operator()(int32_t x) const { return one(1, x); }
  Value operator()(int64_t x) const { return one(2, x); }
  Value operator()(float x) const { return one(3, x); }
  Value operator()(double x) const { return one(4, x); }
  Value operator()(const std::string& x) const {
    Value v;
    v.kind = 5, v.str = true, v.s = x;
    return v;
  }
  Value operator()(const std::vector<bool>& x) const { return many(0, x); }
  Value operator()(const std::vector<int32_t>& x) const { return many(1, x); }
  Value operator()(const std::vector<int64_t>& x) const { return many(2, x); }
  Value operator()(const std::vector<float>& x) const { return many(3, x); }
  Value operator()(const std::vector<double>& x) const { return many(4, x); }
  template <typename T> Value operator()(const ND<T>&) const {
    Value v;
    v.kind = 6;
    return v;
  }
};
// a string as a number of the type: false if it is none or too large
bool parse(int to, const std::string& s, long double& out) {
  char* e = nullptr;
  if (to == 4) {
    double d = std::strtod(s.c_str(), &e);
    out = d;
    return e != s.c_str() && std::fabs(d) != HUGE_VAL;
  }
  if (to == 3) {
    float f = std::strtof(s.c_str(), &e);
    out = f;
    return e != s.c_str() && std::fabs(f) != HUGE_VALF;
  }
  size_t i = 0;
  bool   minus = false, any = false;
  while (i < s.size() && s[i] == ' ') ++i;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) minus = s[i++] == '-';
  long double v = 0;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) v = v * 10 + (s[i] - '0'), any = true;
  out = minus ? -v : v;
  if (!any) return false;
  if (to == 2) return out >= (long double)INT64_MIN && out <= (long double)INT64_MAX;
  return out >= INT32_MIN && out <= INT32_MAX;
}
bool fits(int from, int to) {  // types of numbers that are taken for each other
  switch (to) {
    case 4: return from <= 4;
    case 3: return from <= 3;
    case 2: return from <= 2;
    case 1: return from <= 1;
    default: return from == 0;
  }
}
template <typename T> void scalar_cast(const Cell& c, int to) {
  Value       v = boost::apply_visitor(Look(), c);
  long double want = 0;
  bool        ok = v.scalar && fits(v.kind, to);
  if (ok) want = v.v[0];
  else if (v.str && to > 0) ok = parse(to, v.s, want);
  T    got{};
  bool y = accepted([&] { got = boost::apply_visitor(CastVisitor<T>(), c); });
  if (y != ok) fail(y ? "accepted" : "refused", "a cell of type %d '%s' as a number of type %d is %s", v.kind, v.s.c_str(), to, y ? "accepted" : "refused");
  if (ok && got != (T)want && !(std::isnan((double)got) && std::isnan((double)want))) fail("wrong-cast", "a cell of type %d '%s' is read as %.17Lg and not as %.17Lg", v.kind, v.s.c_str(), (long double)got, (long double)(T)want);
}
template <typename T> void list_cast(const Cell& c, int to) {
  Value                    v = boost::apply_visitor(Look(), c);
  std::vector<long double> want;
  bool                     ok = false;
  if (v.scalar || v.list) {
    want = v.v;
    ok   = v.v.empty() || fits(v.kind, to);
  } else if (v.str) {
    ok = true;
    std::string t;
    for (size_t i = 0; i <= v.s.size(); ++i) {
      if (i < v.s.size() && v.s[i] != ',') {
        t += v.s[i];
        continue;
      }
      long double x = 0;
      if (!t.empty()) ok = ok && to > 0 && parse(to, t, x), want.push_back(x);
      t.clear();
    }
  }
  std::vector<T> got;
  bool           y = accepted([&] { got = boost::apply_visitor(CastVisitor<std::vector<T>>(), c); });
  if (y != ok) fail(y ? "accepted" : "refused", "a cell of type %d '%s' as a list of type %d is %s", v.kind, v.s.c_str(), to, y ? "accepted" : "refused");
  if (!ok) return;
  if (got.size() != want.size()) fail("wrong-cast", "a cell of type %d '%s' is read as %zu elements and not %zu", v.kind, v.s.c_str(), got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if ((T)got[i] != (T)want[i]) fail("wrong-cast", "element %zu of a cell of type %d '%s' is read as %.17Lg and not as %.17Lg", i, v.kind, v.s.c_str(), (long double)got[i], want[i]);
}
template <typename T> void same_cast(const Cell& c) {
  bool ok = c.type() == typeid(T);
  T    got{std::vector<size_t>{1}};
  bool y = accepted([&] { got = boost::apply_visitor(CastVisitor<T>(), c); });
  if (y != ok) fail(y ? "accepted" : "refused", "a cell as an array is %s", y ? "accepted" : "refused");
  if (ok && !(got == boost::get<T>(c))) fail("wrong-cast", "an array is read as another one");
}

struct Column {
  std::string name, unit, desc;
  int         type;
};
bool breaks(const std::string& s) { return s.find_first_of("\n\r\v\f") != std::string::npos; }
std::string name_of(Rng& r, bool odd) {
  if (odd && r.chance(1, 8)) return "";
  if (odd && r.chance(1, 8)) return BREAKS[r.below(10)];
  static const char* const n[] = {"a", "b", "c", "A", "a b", "ab", "x\ty", "long name", "1", "a ", "_"};
  return n[r.below(11)];
}
void gen(Rng& r, Plan& p) {
  p.cfg["data"] = r.range(0, 100000000);
  p.cfg["odd"]  = r.range(0, 1);
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(1, 100);
  int n = (int)r.range(1, 8);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op((int)r.below(7), (i64)r.range(0, 10000000)));
}
struct World {
  std::vector<Column>         cols;
  std::shared_ptr<ColumnInfo> info;
  std::vector<ColumnDescription> list(const std::vector<Column>& c) {
    std::vector<ColumnDescription> l;
    for (auto& x : c) {
      bool want = !x.name.empty() && !breaks(x.name);
      bool got  = accepted([&] {
        ColumnDescription d(x.name, TYPES[x.type], x.unit, x.desc);
        l.push_back(std::move(d));
      });
      expect(got, want, "a name of a column");
      if (got && (l.back().name != x.name || l.back().type != TYPES[x.type] || l.back().unit != x.unit || l.back().description != x.desc)) fail("wrong-description", "the description of a column is not the one given");
    }
    return l;
  }
  bool make(const std::vector<Column>& c, std::shared_ptr<ColumnInfo>& out) {
    auto l = list(c);
    std::set<std::string> names;
    for (auto& d : l) names.insert(d.name);
    bool want = !l.empty() && names.size() == l.size();
    std::shared_ptr<ColumnInfo> made;
    bool got = accepted([&] { made = std::make_shared<ColumnInfo>(l); });
    expect(got, want, "a list of columns");
    if (got && l.size() == c.size()) out = made;
    return got && l.size() == c.size();
  }
  void look(const ColumnInfo& i) {
    if (i.size() != cols.size()) fail("wrong-size", "%zu columns are %zu", cols.size(), i.size());
    for (size_t k = 0; k < cols.size() + 2; ++k) {
      const ColumnDescription* d = nullptr;
      bool got = accepted([&] { d = &i.getDescription(k); });
      expect(got, k < cols.size(), "the number of a column");
      if (got && (d->name != cols[k].name || d->type != TYPES[cols[k].type] || d->unit != cols[k].unit || d->description != cols[k].desc)) fail("wrong-description", "the description of column %zu is not the one given", k);
    }
    for (std::string n : {"a", "b", "c", "A", "a b", "ab", "x\ty", "1", "", "zz"}) {
      size_t k = 0;
      while (k < cols.size() && cols[k].name != n) ++k;
      const ColumnDescription* d = nullptr;
      bool                     got = accepted([&] { d = &i.getDescription(n); });
      expect(got, k < cols.size(), "the name of a column");
      if (got && d != &i.getDescription(k)) fail("wrong-description", "the description of the column '%s' is another one", n.c_str());
      std::unique_ptr<size_t> f;
      if (!accepted([&] { f = i.find(n); })) fail("refused", "looking for a column is refused");
      if ((bool)f != (k < cols.size()) || (f && *f != k)) fail("wrong-column", "the column '%s' is not found where it is", n.c_str());
    }
  }
  std::vector<Cell> cells(Rng& r) {
    std::vector<Cell> v;
    for (auto& c : cols) v.push_back(cell(c.type, r));
    return v;
  }
  void look(const Row& row, const std::vector<Cell>& want) {
    if (row.size() != want.size() || (size_t)(row.end() - row.begin()) != want.size()) fail("wrong-size", "a row of %zu cells has %zu", want.size(), row.size());
    for (size_t k = 0; k < want.size() + 2; ++k) {
      const Cell* c = nullptr;
      bool        got = accepted([&] { c = &row[k]; });
      expect(got, k < want.size(), "the number of a cell");
      if (got && (!(*c == want[k]) || !(row.begin()[k] == want[k]))) fail("wrong-cell", "cell %zu of a row is not the one given", k);
    }
    for (auto n : {std::string("a"), std::string("zz"), cols.back().name}) {
      size_t k = 0;
      while (k < cols.size() && cols[k].name != n) ++k;
      const Cell* c = nullptr;
      bool        got = accepted([&] { c = &row[n]; });
      expect(got, k < cols.size(), "the name of a cell");
      if (got && c != &row[k]) fail("wrong-cell", "the cell named '%s' is another one", n.c_str());
    }
  }
  void run(const Plan& p) {
    Rng r((u64)p.get("data"));
    {
      int n = (int)r.below(5) + (p.get("odd") ? 0 : 1);
      for (int i = 0; i < n; ++i) cols.push_back({p.get("odd") ? name_of(r, true) : name_of(r, false) + std::string(i, '\''), r.chance(1, 2) ? "mag" : "", r.chance(1, 2) ? "text\nof two lines" : "", (int)r.below(15)});
      if (!make(cols, info)) {
        cols = {{"a", "", "", 5}, {"b", "m", "", (int)r.below(15)}};
        if (!make(cols, info)) fail("refused", "a list of columns is refused");
      }
    }
    for (auto& o : p.ops) {
      Rng q((u64)o.v[1]);
      sig(o.kind());
      switch (o.kind()) {
        case 0: look(*info); break;
        case 1: {  // equality
          auto c = cols;
          size_t k = q.below(c.size());
          int    how = (int)q.below(6);
          bool   same = how == 0 || how == 5;
          if (how == 0) c[k].desc += "x";
          if (how == 1) c[k].unit += "x";
          if (how == 2) c[k].type = (c[k].type + 1 + (int)q.below(14)) % 15;
          if (how == 3) c[k].name += "x'";
          if (how == 4) c.push_back({"another", "", "", 0});
          std::shared_ptr<ColumnInfo> other;
          if (!make(c, other)) fail("refused", "a list of columns is refused");
          if ((*info == *other) != same || (*other == *info) != same || (*info != *other) == same) fail("wrong-equality", "columns that %s are %s", same ? "are the same" : "differ", same ? "different" : "the same");
          break;
        }
        case 2: {  // a row
          auto v = cells(q);
          int  how = (int)q.below(7);
          bool ok = true;
          size_t k = q.below(v.size());
          auto   use = info;
          if (how == 1) v.pop_back(), ok = false;
          if (how == 2) v.push_back(cell((int)q.below(15), q)), ok = false;
          if (how == 3) {
            int t = (int)q.below(15);
            v[k] = cell(t, q), ok = t == cols[k].type;
          }
          if (how == 4) use = nullptr, ok = false;
          if (how >= 5 && cols[k].type == 5) v[k] = how == 5 ? std::string() : std::string(BREAKS[q.below(10)]), ok = false;
          std::unique_ptr<Row> row;
          bool got = accepted([&] { row.reset(new Row(v, use)); });
          expect(got, ok, "a row");
          if (!got) break;
          if (row->getColumnInfo() != info) fail("wrong-columns", "the columns of a row are not the ones given");
          look(*row, v);
          break;
        }
        case 3: {  // a table
          std::vector<Row>               rows;
          std::vector<std::vector<Cell>> want;
          bool                           ok = true;
          std::shared_ptr<ColumnInfo>    twin, other;
          auto                           c = cols;
          make(cols, twin);
          c[q.below(c.size())].unit += "x";
          make(c, other);
          int n = (int)q.below(5);
          for (int i = 0; i < n; ++i) {
            want.push_back(cells(q));
            auto use = info;
            if (q.chance(1, 4)) use = twin;
            if (q.chance(1, 12)) use = other;
            rows.push_back(Row(want.back(), use));
          }
          for (auto& x : rows) ok = ok && (x.getColumnInfo() == other) == (rows[0].getColumnInfo() == other);
          std::unique_ptr<Table> t;
          bool got = accepted([&] { t.reset(new Table(rows)); });
          expect(got, ok && n > 0, "a table");
          if (!got) break;
          if (t->size() != (size_t)n || t->end() - t->begin() != n) fail("wrong-size", "a table of %d rows has %zu", n, t->size());
          if (!(*t->getColumnInfo() == *rows[0].getColumnInfo())) fail("wrong-columns", "the columns of a table are not those of its rows");
          for (int i = 0; i < n + 2; ++i) {
            const Row* row = nullptr;
            bool       y = accepted([&] { row = &(*t)[(size_t)i]; });
            expect(y, i < n, "the number of a row");
            if (y) {
              if (row != &*(t->begin() + i)) fail("wrong-row", "row %d is another one", i);
              look(*row, want[i]);
            }
          }
          break;
        }
        case 4: {  // what a reader or a writer is told beforehand
          std::istringstream in("1 2\n3 4\n");
          std::ostringstream out;
          AsciiReader        rd(in);
          AsciiWriter        wr(out);
          size_t             nn = 0, nt = 0;
          for (int i = (int)q.range(1, 3); i-- > 0;) switch (q.below(4)) {
              case 0: {
                std::vector<std::string> n;
                for (u64 k = q.below(4); k-- > 0;) n.push_back(name_of(q, q.chance(1, 3)));
                bool bad = false;
                for (auto& x : n) bad = bad || x.empty() || breaks(x);
                bad = bad || std::set<std::string>(n.begin(), n.end()).size() != n.size();
                bool got = accepted([&] { rd.fixColumnNames(n); });
                expect(got, !bad && (n.empty() || !nt || n.size() == nt), "a list of names for a reader");
                if (!got) return;
                nn = n.size();
                break;
              }
              case 1: {
                std::vector<std::type_index> t;
                for (u64 k = q.below(4); k-- > 0;) t.push_back(typeid(double));
                bool got = accepted([&] { rd.fixColumnTypes(t); });
                expect(got, t.empty() || !nn || t.size() == nn, "a list of types for a reader");
                if (!got) return;
                nt = t.size();
                break;
              }
              case 2: expect(accepted([&] { rd.setCommentIndicator(""); }), false, "no comment indicator of a reader"); break;
              default: expect(accepted([&] { wr.setCommentIndicator(""); }), false, "no comment indicator of a writer");
            }
          break;
        }
        default: {
          Cell c = cell((int)q.below(15), q);
          switch (q.below(12)) {
            case 0: scalar_cast<double>(c, 4); break;
            case 1: scalar_cast<float>(c, 3); break;
            case 2: scalar_cast<int64_t>(c, 2); break;
            case 3: scalar_cast<int32_t>(c, 1); break;
            case 4: scalar_cast<bool>(c, 0); break;
            case 5: list_cast<double>(c, 4); break;
            case 6: list_cast<float>(c, 3); break;
            case 7: list_cast<int64_t>(c, 2); break;
            case 8: list_cast<int32_t>(c, 1); break;
            case 9: list_cast<bool>(c, 0); break;
            case 10: q.chance(1, 2) ? same_cast<ND<double>>(c) : same_cast<ND<int64_t>>(c); break;
            default: q.chance(1, 2) ? same_cast<ND<float>>(c) : same_cast<ND<int32_t>>(c);
          }
        }
      }
    }
  }
};
Scenario s_mem("tb_mem", "tables in memory and cells read as other types", false, 1, gen, [](const Plan& p) {
  enable_faults(false);
  World().run(p);
});
}  // namespace
