// Archives of grids and maps: sequences of objects through streams that deliver in pieces, end early, break, or refuse bytes.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "GridContainer/serialize.h"
#include "SOM/serialize.h"
#include "XYDataset/serialize.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <memory>
#include <sstream>

using namespace sim;
namespace GC = Euclid::GridContainer;
namespace SO = Euclid::SOM;
using Euclid::XYDataset::QualifiedName;

namespace {
struct Fixed {  // cells that can not be made without a value
  double      x;
  std::string t;
  explicit Fixed(double v) : x(v), t("t") {}
  bool operator==(const Fixed& o) const { return x == o.x && t == o.t; }
};
struct FixedCells {  // a manager of the user
  typedef Fixed                        data_type;
  typedef std::vector<Fixed>::iterator iterator;
  std::vector<Fixed>                   v;
  explicit FixedCells(size_t n) : v(n, Fixed(-1)) {}
};
}  // namespace
namespace Euclid {
namespace GridContainer {
template <> struct GridCellManagerTraits<FixedCells> {
  typedef Fixed                        data_type;
  typedef std::vector<Fixed>::iterator iterator;
  static std::unique_ptr<FixedCells> factory(size_t n) { return std::unique_ptr<FixedCells>(new FixedCells(n)); }
  static size_t                      size(const FixedCells& c) { return c.v.size(); }
  static iterator                    begin(FixedCells& c) { return c.v.begin(); }
  static iterator                    end(FixedCells& c) { return c.v.end(); }
  static const bool                  enable_boost_serialize = true;
};
}  // namespace GridContainer
}  // namespace Euclid
namespace boost {
namespace serialization {
template <typename Ar> void serialize(Ar& ar, Fixed& f, const unsigned) { ar & f.t; }
template <typename Ar> void save_construct_data(Ar& ar, const Fixed* f, const unsigned) { ar << f->x; }
template <typename Ar> void load_construct_data(Ar& ar, Fixed* f, const unsigned) {
  double x;
  ar >> x;
  ::new (f) Fixed(x);
}
}  // namespace serialization
}  // namespace boost
namespace {
typedef GC::GridContainer<FixedCells, int, double>                                               GridD;
typedef GC::GridContainer<std::vector<std::tuple<int, std::string, double>>, QualifiedName, int> GridE;
typedef GC::GridContainer<std::vector<double>, int, std::string>                   GridA;
typedef GC::GridContainer<std::vector<int>, QualifiedName, double, QualifiedName>  GridB;
typedef GC::GridContainer<std::vector<std::string>, double>                        GridC;
typedef SO::SOM<3> SomL2;
struct Manhattan : SO::Distance::Interface<3> {
  double distance(const std::array<double, 3>& l, const std::array<double, 3>& r) const override { return std::abs(l[0] - r[0]); }
  double distance(const std::array<double, 3>& l, const std::array<double, 3>& r, const std::array<double, 3>&) const override { return distance(l, r); }
};
typedef SO::SOM<3, Manhattan>                                            SomL1;
enum { A = 0, B, C, S2, S1, D, E, KINDS };

int knot(int salt, int i) { return (int)(Rng((u64)salt * 1000003 + i).next() % 100000); }
std::string word(int salt, int i) {
  static const char* w[] = {"", "a", "with space", "x/y", "\n", "quote\"", "long long long long long long long text"};
  return w[(size_t)(salt + i) % 7] + std::string(i ? std::to_string(i) : "");
}
QualifiedName qname(int salt, int i) {
  std::string s = "n" + std::to_string(knot(salt, i)) + "_" + std::to_string(i);
  for (int g = 0; g < (salt + i) % 3; ++g) s = "g" + std::to_string(knot(salt, i + 50 + g)) + "/" + s;
  return QualifiedName(s);
}
double real(int salt, int i) {
  static const double odd[] = {0.1, -0.0, 1e308, 5e-324, 1.0 / 3, -1e-17};
  return (salt + i) % 3 ? odd[(size_t)(salt + 2 * i) % 6] : knot(salt, i) / 7.;
}
template <typename T, typename F> GC::GridAxis<T> axis(const std::string& name, int n, F f) {
  std::vector<T> k;
  for (int i = 0; i < n; ++i) k.push_back(f(i));
  return {name, k};
}

// one exported object: how to write it and how to check what was read
struct Obj {
  int                    kind, salt, n[3], fix;
  std::unique_ptr<GridA> a;
  std::unique_ptr<GridB> b;
  std::unique_ptr<GridC> c;
  std::unique_ptr<GridD> d;
  std::unique_ptr<GridE> e;
  std::unique_ptr<SomL2> s2;
  std::unique_ptr<SomL1> s1;

  explicit Obj(const Op& o) : kind(o.v[1]), salt(o.v[2]), n{o.v[3], o.v[4], o.v[5]}, fix(o.v[6]) {
    int s = salt;
    if (kind == A) {
      GridA g(axis<int>(word(s, 1), n[0], [s](int i) { return knot(s, i); }), axis<std::string>("S " + word(s, 2), n[1], [s](int i) { return word(s, i); }));
      int   i = 0;
      for (auto& x : g) x = real(s, ++i);
      a.reset(fix >= 0 && n[0] && n[1] ? new GridA(g.fixAxisByIndex<1>(fix % n[1])) : new GridA(std::move(g)));
    } else if (kind == B) {
      GridB g(axis<QualifiedName>("Q", n[0], [s](int i) { return qname(s, i); }), axis<double>("D", n[1], [s](int i) { return real(s, i); }),
              axis<QualifiedName>("R", n[2], [s](int i) { return qname(s + 1, i); }));
      int   i = 0;
      for (auto& x : g) x = knot(s, ++i);
      b.reset(fix >= 0 && n[0] && n[1] && n[2] ? new GridB(g.fixAxisByIndex<0>(fix % n[0])) : new GridB(std::move(g)));
    } else if (kind == C) {
      c.reset(new GridC(axis<double>("", n[0], [s](int i) { return real(s, i); })));
      int i = 0;
      for (auto& x : *c) x = word(s, ++i);
    } else if (kind == D) {
      d.reset(new GridD(axis<int>("I", n[0], [s](int i) { return knot(s, i); }), axis<double>(word(s, 3), n[1], [s](int i) { return real(s, i); })));
      int i = 0;
      for (auto& x : *d) {
        x   = Fixed(real(s, ++i));
        x.t = word(s, i);
      }
    } else if (kind == E) {
      e.reset(new GridE(axis<QualifiedName>("Q", n[0], [s](int i) { return qname(s, i); }), axis<int>("I", n[1], [s](int i) { return knot(s, i); })));
      int i = 0;
      for (auto& x : *e) ++i, x = std::make_tuple(knot(s, i), word(s, i), real(s, i));
    } else if (kind == S2) {
      s2.reset(new SomL2(n[0] + 1, n[1] + 1));
      int i = 0;
      for (auto& x : *s2)
        for (auto& y : x) y = real(s, ++i);
    } else {
      s1.reset(new SomL1(n[0] + 1, n[1] + 1));
      int i = 0;
      for (auto& x : *s1)
        for (auto& y : x) y = real(s, ++i);
    }
  }
  template <typename Ar> void write(std::ostream& out) const {
    if (kind == A) GC::gridExport<Ar>(out, *a);
    else if (kind == B) GC::gridExport<Ar>(out, *b);
    else if (kind == C) GC::gridExport<Ar>(out, *c);
    else if (kind == D) GC::gridExport<Ar>(out, *d);
    else if (kind == E) GC::gridExport<Ar>(out, *e);
    else if (kind == S2) SO::somExport<Ar>(out, *s2);
    else SO::somExport<Ar>(out, *s1);
  }
  void write_default(std::ostream& out) const {
    if (kind == A) GC::gridBinaryExport(out, *a);
    else if (kind == B) GC::gridBinaryExport(out, *b);
    else if (kind == C) GC::gridBinaryExport(out, *c);
    else if (kind == D) GC::gridBinaryExport(out, *d);
    else if (kind == E) GC::gridBinaryExport(out, *e);
    else if (kind == S2) SO::somBinaryExport(out, *s2);
    else SO::somBinaryExport(out, *s1);
  }
  template <typename G> static void same(const G& g, const G& w);
  template <typename Ar> void put(Ar& ar) const {
    if (kind == A) { const GridA* p = a.get(); ar << p; }
    else if (kind == B) { const GridB* p = b.get(); ar << p; }
    else if (kind == C) { const GridC* p = c.get(); ar << p; }
    else if (kind == D) { const GridD* p = d.get(); ar << p; }
    else if (kind == E) { const GridE* p = e.get(); ar << p; }
    else if (kind == S2) { const SomL2* p = s2.get(); ar << p; }
    else { const SomL1* p = s1.get(); ar << p; }
  }
};
template <int I> struct Axes {
  template <typename G> static void same(const G& g, const G& w) {
    auto &x = g.template getAxis<I>(), &y = w.template getAxis<I>();
    if (x.name() != y.name()) fail("wrong-axis", "axis %d is read as '%s', written as '%s'", I, x.name().c_str(), y.name().c_str());
    if (x.size() != y.size()) fail("wrong-axis", "axis %d is read with %zu knots, written with %zu", I, x.size(), y.size());
    for (size_t i = 0; i < x.size(); ++i)
      if (!(x[i] == y[i])) fail("wrong-axis", "knot %zu of axis %d is read with another value than written", i, I);
    Axes<I - 1>::same(g, w);
  }
};
template <> struct Axes<-1> {
  template <typename G> static void same(const G&, const G&) {}
};
template <typename T> bool equal_bits(const T& a, const T& b) { return a == b; }
bool equal_bits(const double& a, const double& b) { return a == b && std::signbit(a) == std::signbit(b); }
template <typename G> void same_grid(const G& g, const G& w) {
  Axes<(int)G::axisNumber() - 1>::same(g, w);
  if (g.size() != w.size()) fail("wrong-size", "a grid of %zu cells is read with %zu", w.size(), g.size());
  auto   i = g.begin();
  size_t n = 0;
  for (auto& x : w) {
    if (!(i != g.end())) fail("wrong-size", "a grid of %zu cells ends after %zu", w.size(), n);
    if (!equal_bits(*i, x)) fail("wrong-cell", "cell %zu is read with another value than written", n);
    ++i, ++n;
  }
}
template <typename S> void same_som(const S& g, const S& w) {
  if (g.getSize() != w.getSize()) fail("wrong-size", "a map of %zu x %zu is read as %zu x %zu", w.getSize().first, w.getSize().second, g.getSize().first, g.getSize().second);
  for (size_t x = 0; x < w.getSize().first; ++x)
    for (size_t y = 0; y < w.getSize().second; ++y)
      for (int k = 0; k < 3; ++k)
        if (!equal_bits(g(x, y)[k], w(x, y)[k])) fail("wrong-cell", "weight %d of cell (%zu,%zu) is read with another value than written", k, x, y);
}
template <typename T> std::unique_ptr<T> boxed(T&& t) { return std::unique_ptr<T>(new T(std::move(t))); }
struct Got {
  std::unique_ptr<GridA> a;
  std::unique_ptr<GridB> b;
  std::unique_ptr<GridC> c;
  std::unique_ptr<GridD> d;
  std::unique_ptr<GridE> e;
  std::unique_ptr<SomL2> s2;
  std::unique_ptr<SomL1> s1;
  template <typename Ar> void read(std::istream& in, int kind) {
    if (kind == A) a = boxed(GC::gridImport<GridA, Ar>(in));
    else if (kind == B) b = boxed(GC::gridImport<GridB, Ar>(in));
    else if (kind == C) c = boxed(GC::gridImport<GridC, Ar>(in));
    else if (kind == D) d = boxed(GC::gridImport<GridD, Ar>(in));
    else if (kind == E) e = boxed(GC::gridImport<GridE, Ar>(in));
    else if (kind == S2) s2 = boxed(SO::somImport<Ar, 3>(in));
    else s1 = boxed(SO::somImport<Ar, 3, Manhattan>(in));
  }
  void read_default(std::istream& in, int kind) {
    if (kind == A) a = boxed(GC::gridBinaryImport<GridA>(in));
    else if (kind == B) b = boxed(GC::gridBinaryImport<GridB>(in));
    else if (kind == C) c = boxed(GC::gridBinaryImport<GridC>(in));
    else if (kind == D) d = boxed(GC::gridBinaryImport<GridD>(in));
    else if (kind == E) e = boxed(GC::gridBinaryImport<GridE>(in));
    else if (kind == S2) s2 = boxed(SO::somBinaryImport<3>(in));
    else s1 = boxed(SO::somBinaryImport<3, Manhattan>(in));
  }
  template <typename Ar> void get(Ar& ar, int kind) {
    if (kind == A) { GridA* p = nullptr; ar >> p; a.reset(p); }
    else if (kind == B) { GridB* p = nullptr; ar >> p; b.reset(p); }
    else if (kind == C) { GridC* p = nullptr; ar >> p; c.reset(p); }
    else if (kind == D) { GridD* p = nullptr; ar >> p; d.reset(p); }
    else if (kind == E) { GridE* p = nullptr; ar >> p; e.reset(p); }
    else if (kind == S2) { SomL2* p = nullptr; ar >> p; s2.reset(p); }
    else { SomL1* p = nullptr; ar >> p; s1.reset(p); }
  }
  void check(const Obj& o) const {
    if (o.kind == A) same_grid(*a, *o.a);
    else if (o.kind == B) same_grid(*b, *o.b);
    else if (o.kind == C) same_grid(*c, *o.c);
    else if (o.kind == D) same_grid(*d, *o.d);
    else if (o.kind == E) same_grid(*e, *o.e);
    else if (o.kind == S2) same_som(*s2, *o.s2);
    else same_som(*s1, *o.s1);
  }
};
typedef boost::archive::text_oarchive TO;
typedef boost::archive::text_iarchive TI;
typedef boost::archive::binary_oarchive BO;
typedef boost::archive::binary_iarchive BI;

void gen(Rng& r, Plan& p) {
  p.cfg["text"]   = r.chance(1, 5);
  p.cfg["single"] = r.chance(1, 3);  // all objects in one archive
  p.cfg["end"]    = p.cfg["text"] || p.cfg["single"] ? 0 : r.range(0, 2);
  p.cfg["stop"]   = r.range(0, 4095);
  p.cfg["cap"]    = r.chance(1, 2) ? -1 : r.range(0, 4095);
  p.cfg["buf"]    = r.chance(1, 2) ? 0 : r.range(1, 200);
  p.cfg["f_alloc"] = r.chance(1, 3) ? r.range(1, 60) : 0;
  p.cfg["wrong"]  = r.chance(1, 6);
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(1, (int)r.below(KINDS), (int)r.range(0, 20000), (int)r.range(r.chance(1, 8) ? 0 : 1, 5), (int)r.range(r.chance(1, 8) ? 0 : 1, 5), (int)r.range(1, 3), r.chance(1, 3) ? (int)r.range(0, 5) : -1));
  if (r.chance(1, 12)) {  // a long axis
    Op& o = p.ops[r.below(p.ops.size())];
    o.v[3] = r.range(250, 600), o.v[4] = o.v[5] = 1;
  }
}
void run(const Plan& p) {
  enable_faults(false);
  std::vector<std::unique_ptr<Obj>> objs;
  for (auto& o : p.ops) {
    if (o.v[1] < 0 || o.v[1] >= KINDS) continue;
    objs.emplace_back(new Obj(o));
    sig((u64)o.v[1] * 64 + (u64)o.v[3] * 8 + (u64)o.v[4]);
  }
  bool text = p.get("text"), single = p.get("single");
  sig((u64)text * 2 + single);
  // the reference: how many bytes each object takes, from an export without faults
  auto write_all = [&](std::ostream& out, std::vector<size_t>* ends, std::function<size_t()> pos) {
    if (single) {
      if (text) {
        TO ar(out);
        for (auto& o : objs) o->put(ar);
      } else {
        BO ar(out);
        for (auto& o : objs) o->put(ar);
      }
      return;
    }
    for (auto& o : objs) {
      if (text) o->write<TO>(out);
      else if (o->salt % 2) o->write<BO>(out);
      else o->write_default(out);
      if (ends) ends->push_back(pos());
    }
  };
  auto read_all = [&](std::istream& in, size_t& done) {
    if (single) {
      std::vector<Got> got(objs.size());
      if (text) {
        TI ar(in);
        for (size_t i = 0; i < objs.size(); ++i) got[i].get(ar, objs[i]->kind);
      } else {
        BI ar(in);
        for (size_t i = 0; i < objs.size(); ++i) got[i].get(ar, objs[i]->kind);
      }
      Quiet q;
      for (size_t i = 0; i < objs.size(); ++i) got[i].check(*objs[i]);
      done = objs.size();
      return;
    }
    for (size_t i = 0; i < objs.size(); ++i) {
      Got g;
      if (text) g.read<TI>(in, objs[i]->kind);
      else if (objs[i]->salt % 2) g.read<BI>(in, objs[i]->kind);
      else g.read_default(in, objs[i]->kind);
      Quiet q;
      g.check(*objs[i]);
      done = i + 1;
    }
  };
  std::ostringstream ref;
  std::vector<size_t> ends;
  write_all(ref, &ends, [&] { return (size_t)ref.tellp(); });
  std::string all = ref.str();
  event("%zu objects, %zu bytes", objs.size(), all.size());

  // 1. export again to an output that may refuse bytes, with failing allocations
  {
    size_t       cap = p.get("cap") < 0 ? all.size() + 100 : all.size() * (size_t)p.get("cap") / 4096;
    OutBuf       ob(cap, false, (size_t)p.get("buf"), true);
    std::ostream out(&ob);
    bool         threw = false;
    try {
      enable_faults(true);
      write_all(out, nullptr, nullptr);
      enable_faults(false);
    } catch (const std::exception& e) {
      enable_faults(false);
      Quiet q;
      threw = true;
      event("export: %s", e.what());
    }
    if (!threw) {
      bool ok = true;
      try {
        out.flush();
        ok = out.good();
      } catch (const std::exception&) { ok = false; }
      if (ok) {
        if (ob.failed()) fail("silent-refusal", "an output refused bytes and the export reported nothing");
        size_t             done = 0;
        std::istringstream in(ob.durable());
        try {
          read_all(in, done);
        } catch (const std::exception& e) { fail("unreadable", "object %zu of a complete export cannot be imported: %s", done, e.what()); }
      } else probe("the output refused bytes at the flush");
    } else if (ob.failed()) probe("an export reported that the output refused bytes");
    else if (!faults_fired("alloc")) fail("export-failed", "an export failed without a fault");
  }
  // 2. import from an input that delivers in pieces and may end early or break
  InBuf::End end  = (InBuf::End)p.get("end");
  size_t     stop = end == InBuf::CLEAN ? all.size() : all.size() * (size_t)p.get("stop") / 4096;
  size_t     whole = 0;
  while (whole < ends.size() && ends[whole] <= stop) ++whole;
  if (single || end == InBuf::CLEAN) whole = objs.size();
  {
    InBuf        ib(all, stop, end);
    std::istream in(&ib);
    size_t       done  = 0;
    bool         threw = false;
    u64          fired = faults_fired("alloc");
    try {
      enable_faults(true);
      read_all(in, done);
      enable_faults(false);
    } catch (const std::exception& e) {
      enable_faults(false);
      Quiet q;
      threw = true;
      event("import: %s", e.what());
    }
    if (faults_fired("alloc") == fired) {
      if (done > whole) fail("invented", "an input that ends within object %zu gave it", whole);
      if (done < whole) fail("unreadable", "object %zu cannot be imported though its bytes are there", done);
      if (whole < objs.size() && !threw) fail("no-error", "an input that ends early gave no error");
      if (whole < objs.size()) { probe(end == InBuf::BROKEN ? "the input broke within an object" : "the input ended within an object"); count_fault(end == InBuf::BROKEN ? "stream_break" : "stream_end"); }
    } else {
      probe("an allocation failed during an import");
      std::istringstream again(all);
      done = 0;
      try {
        read_all(again, done);
      } catch (const std::exception& e) { fail("unreadable", "after a failed import object %zu cannot be imported: %s", done, e.what()); }
    }
  }
  // 3. a map is only read as what it is
  if (p.get("wrong") && !text && !single && (objs[0]->kind == S2 || objs[0]->kind == S1)) {
    std::istringstream in(all);
    bool               threw = false;
    try {
      if (objs[0]->kind == S1) SO::somBinaryImport<3>(in);
      else SO::somBinaryImport<3, Manhattan>(in);
    } catch (const Elements::Exception&) { threw = true; }
    if (!threw) fail("wrong-distance", "a map was read with another distance function");
    probe("a map was asked for with another distance function");
  }
}
Scenario s("ar_archive", "grids and maps written to and read from archives", false, 1, gen, run);
}  // namespace
