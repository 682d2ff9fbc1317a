// Objects that are immutable, or only used through const methods, shared by several threads.
#include "../sim/simthr.h"
#include "GridContainer/GridContainer.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
#include "Histogram/Histogram.h"
#include "KdTree/KdTree.h"
#include "MathUtils/PDF/NdSampler.h"
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/interpolation/interpolation.h"
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include "PhysicsUtils/CosmologicalDistances.h"
#include "PhysicsUtils/CosmologicalParameters.h"
#include "SOM/SOM.h"
#include "SourceCatalog/Catalog.h"
#include "SourceCatalog/SourceAttributes/Coordinates.h"
#include "Table/Table.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/XYDataset.h"
#include <memory>
#include <random>
#include <thread>

using namespace sim;
using namespace Euclid;
namespace MU = Euclid::MathUtils;
typedef std::vector<double> Vals;
struct Pt {
  double x, y;
};
namespace KdTree {
template <> struct KdTreeTraits<Pt> {
  static double getCoord(const Pt& t, size_t i) { return i ? t.y : t.x; }
};
}  // namespace KdTree

namespace {
const int NOBJ = 20;
struct Obj {
  virtual ~Obj() {}
  virtual Vals use(int op, int arg) const = 0;
};
Vals values(u64 seed, int n) {
  Rng  r(seed + 17);
  Vals v;
  for (int i = 0; i < n; ++i) v.push_back((double)r.range(-80, 80) / 4);
  return v;
}
Vals knots(u64 seed, int n) {
  Rng    r(seed + 5);
  Vals   v;
  double x = (double)r.range(-20, 0);
  for (int i = 0; i < n; ++i) v.push_back(x += (double)r.range(1, 8) / 4);
  return v;
}
double at(int arg) { return (double)(arg % 97) / 4 - 12; }
void   probe_function(const MU::Function& f, int op, int arg, Vals& o) {
  switch (op % 4) {
  case 0: o.push_back(f(at(arg))); break;
  case 1: o.push_back(MU::integrate(f, at(arg), at(arg * 7 + 3))); break;
  case 2: {
    auto c = f.clone();
    o.push_back((*c)(at(arg)));
    break;
  }
  default: o.push_back(f(at(arg)) + f(at(arg + 11)));
  }
}
struct Name : Obj {
  std::vector<XYDataset::QualifiedName> q;
  explicit Name(u64 s) {
    Rng r(s);
    for (int i = 0; i < 3; ++i) q.emplace_back("g" + std::to_string(r.below(2)) + "/h/n" + std::to_string(r.below(3)));
    q.emplace_back(q[0].groups()[0] + "/h");
  }
  Vals use(int op, int arg) const override {
    auto &a = q[arg % 4], &b = q[arg / 4 % 4];
    switch (op % 5) {
    case 0: return {(double)(a.hash() % 1000003)};
    case 1: return {(double)(a == b)};
    case 2: return {(double)(a < b), (double)(b < a)};
    case 3: return {(double)a.belongsInGroup(b), (double)(a != b)};
    default: return {(double)std::hash<std::string>()(XYDataset::QualifiedName(a).qualifiedName() + b.datasetName())};
    }
  }
};
struct Poly : Obj {
  MU::Polynomial p;
  explicit Poly(u64 s) : p(values(s, 1 + s % 5)) {}
  Vals use(int op, int arg) const override {
    Vals o;
    switch (op % 7) {
    case 0: return {(*p.derivative())(at(arg))};
    case 1: return {(*p.indefiniteIntegral())(at(arg))};
    case 2: {
      auto d = std::dynamic_pointer_cast<MU::Polynomial>(p.derivative());
      return d->getCoefficients();
    }
    case 3: return {(*std::dynamic_pointer_cast<MU::Polynomial>(p.derivative())->derivative())(at(arg))};
    default: probe_function(p, op, arg, o); return o;
    }
  }
};
struct Piece : Obj {
  std::unique_ptr<MU::Piecewise> p;
  explicit Piece(u64 s) {
    Vals k = knots(s, 4);
    std::vector<std::shared_ptr<MU::Function>> f;
    for (int i = 0; i < 3; ++i) f.push_back(std::make_shared<MU::Polynomial>(values(s + i, 3)));
    p.reset(new MU::Piecewise(k, f));
  }
  Vals use(int op, int arg) const override {
    Vals o;
    probe_function(*p, op, arg, o);
    return o;
  }
};
struct Inter : Obj {
  std::unique_ptr<MU::Function> f;
  explicit Inter(u64 s) : f(MU::interpolate(knots(s, 4 + s % 6), values(s, 4 + s % 6), s & 1 ? MU::InterpolationType::LINEAR : MU::InterpolationType::CUBIC_SPLINE, s & 2)) {}
  Vals use(int op, int arg) const override {
    Vals o;
    probe_function(*f, op, arg, o);
    return o;
  }
};
struct InterN : Obj {
  std::unique_ptr<MU::NAryFunction<2>> f;
  explicit InterN(u64 s) {
    Vals x = knots(s, 3), y = knots(s + 1, 4), v = values(s, 12);
    f = MU::interpn<2>({x, y}, NdArray::NdArray<double>(std::vector<size_t>{3, 4}, v), MU::InterpolationType::LINEAR, s & 1);
  }
  Vals use(int op, int arg) const override {
    if (op % 3 == 2) return {(*f->clone())(at(arg), at(arg * 3))};
    return {(*f)(at(arg), at(arg * 3))};
  }
};
struct Data : Obj {
  XYDataset::XYDataset d;
  static std::vector<std::pair<double, double>> pairs(u64 s) {
    Vals x = knots(s, 5), y = values(s, 5);
    std::vector<std::pair<double, double>> p;
    for (int i = 0; i < 5; ++i) p.emplace_back(x[i], y[i]);
    return p;
  }
  explicit Data(u64 s) : d(XYDataset::XYDataset::factory(pairs(s))) {}
  Vals use(int op, int arg) const override {
    switch (op % 3) {
    case 0: {
      Vals o;
      for (auto& p : d) o.push_back(p.first + p.second * 3);
      return o;
    }
    case 1: return {d.front().first, d.back().second, (double)d.size()};
    default: {
      XYDataset::XYDataset c(d);
      return {(c.begin() + arg % 5)->second};
    }
    }
  }
};
struct Tab : Obj {
  std::unique_ptr<Table::Table> t;
  explicit Tab(u64 s) {
    std::vector<Table::ColumnDescription> l;
    for (int i = 0; i < 4; ++i) l.emplace_back("c" + std::to_string(i), typeid(double), "u", "about");
    auto info = std::make_shared<Table::ColumnInfo>(l);
    std::vector<Table::Row> rows;
    for (int i = 0; i < 3; ++i) {
      std::vector<Table::Row::cell_type> c;
      for (double v : values(s + i, 4)) c.push_back(v);
      rows.emplace_back(c, info);
    }
    t.reset(new Table::Table(rows));
  }
  Vals use(int op, int arg) const override {
    switch (op % 4) {
    case 0: return {boost::get<double>((*t)[arg % 3]["c" + std::to_string(arg / 3 % 4)])};
    case 1: {
      auto i = t->getColumnInfo()->find("c" + std::to_string(arg % 6));
      return {i ? (double)*i : -1.};
    }
    case 2: {
      Table::Row r = (*t)[arg % 3];
      return {boost::get<double>(r[arg / 3 % 4]), (double)r.size()};
    }
    default: {
      double x = 0;
      for (auto& r : *t)
        for (auto& c : r) x = x * 1.5 + boost::get<double>(c);
      return {x, (double)t->getColumnInfo()->getDescription("c1").unit.size()};
    }
    }
  }
};
struct Grid : Obj {
  typedef GridContainer::GridContainer<std::vector<double>, double, int> G;
  G g;
  explicit Grid(u64 s) : g(GridContainer::GridAxis<double>("x", knots(s, 4)), GridContainer::GridAxis<int>("y", {1, 2, 5})) {
    Vals v = values(s, 12);
    size_t i = 0;
    for (auto& c : g) c = v[i++];
  }
  Vals use(int op, int arg) const override {
    switch (op % 4) {
    case 0: return {g(arg % 4, arg / 4 % 3)};
    case 1: {
      const G& s = g.fixAxisByIndex<0>(arg % 4);
      Vals    o;
      for (auto i = s.begin(); i != s.end(); ++i) o.push_back(*i + i.axisValue<1>());
      return o;
    }
    case 2: {
      auto t = g.infimum(at(arg), arg % 7);
      return {(double)std::get<0>(t), (double)std::get<1>(t)};
    }
    default: {
      Vals o;
      for (auto i = g.begin(); i != g.end(); ++i) o.push_back(*i * 2 + (double)i.axisIndex<0>() + i.axisValue<1>());
      return o;
    }
    }
  }
};
struct Tree : Obj {
  std::unique_ptr<KdTree::KdTree<Pt, 2, 4>> t;
  explicit Tree(u64 s) {
    std::vector<Pt> p;
    Vals            x = values(s, 24), y = values(s + 1, 24);
    for (int i = 0; i < 24; ++i) p.push_back({x[i], y[i]});
    t.reset(new KdTree::KdTree<Pt, 2, 4>(p));
  }
  Vals use(int, int arg) const override {
    auto f = t->findPointsWithinRadius({{at(arg), at(arg * 5)}}, 1 + arg % 11);
    Vals o;
    for (auto& p : f) o.push_back(p.x * 1000 + p.y);
    std::sort(o.begin(), o.end());
    return o;
  }
};
struct Cumu : Obj {
  MU::Cumulative c;
  static MU::Cumulative make(u64 s) {
    Vals x = knots(s, 6), y = values(s, 6);
    for (auto& v : y) v = v * v + 1;
    auto c = MU::Cumulative::fromPdf(x, y);
    c.normalize();
    return c;
  }
  explicit Cumu(u64 s) : c(make(s)) {}
  Vals use(int op, int arg) const override {
    double r = (double)(arg % 19 + 1) / 20;
    if (op % 3 == 0) return {c.findValue(r)};
    auto i = op % 3 == 1 ? c.findMinInterval(r) : c.findCenteredInterval(r);
    return {i.first, i.second};
  }
};
struct Cosmo : Obj {
  PhysicsUtils::CosmologicalDistances  d;
  PhysicsUtils::CosmologicalParameters p;
  Vals use(int op, int arg) const override {
    double z = (double)(arg % 3 + 1) / 8;
    if (op % 2) return {d.comovingDistance(z, p)};
    return {d.luminousDistance(z, p)};
  }
};
struct Nd : Obj {
  NdArray::NdArray<double> a;
  explicit Nd(u64 s) : a(std::vector<size_t>{3, 4}, values(s, 12)) {}
  Vals use(int op, int arg) const override {
    switch (op % 4) {
    case 0: return {a.at(arg % 3, arg / 3 % 4)};
    case 1: {
      const auto s = a.slice(arg % 3);
      return {s.at(arg / 3 % 4), (double)s.size()};
    }
    case 2: return {NdArray::sum(a)};
    default: {
      Vals o;
      for (auto v : a) o.push_back(v);
      return o;
    }
    }
  }
};
struct Som : Obj {
  SOM::SOM<2> m{3, 3};
  explicit Som(u64 s) {
    Vals   v = values(s, 18);
    size_t i = 0;
    for (auto& c : m) c = {v[i], v[i + 1]}, i += 2;
  }
  Vals use(int op, int arg) const override {
    auto b = op % 2 ? m.findBMU({at(arg), at(arg * 3)}) : m.findBMU({at(arg), at(arg * 3)}, {1., 2.});
    return {(double)std::get<0>(b), (double)std::get<1>(b), std::get<2>(b)};
  }
};
struct Cat : Obj {
  std::unique_ptr<SourceCatalog::Catalog> c;
  explicit Cat(u64 s) {
    std::vector<SourceCatalog::Source> v;
    Vals                               x = values(s, 5);
    for (int i = 0; i < 5; ++i)
      v.emplace_back((int64_t)(i * 3), std::vector<std::shared_ptr<SourceCatalog::Attribute>>{std::make_shared<SourceCatalog::Coordinates>(x[i], x[4 - i])});
    c.reset(new SourceCatalog::Catalog(v));
  }
  Vals use(int op, int arg) const override {
    auto s = c->find((int64_t)(arg % 15));
    if (!s) return {-1};
    auto k = s->getAttribute<SourceCatalog::Coordinates>();
    return {k->getRa(), k->getDec(), (double)c->size()};
  }
};
struct Product : Obj {
  std::unique_ptr<MU::Function> a, b;
  explicit Product(u64 s) : a(MU::interpolate(knots(s, 4), values(s, 4), MU::InterpolationType::LINEAR)), b(new MU::Polynomial(values(s + 1, 3))) {}
  Vals use(int op, int arg) const override {
    auto m = op % 2 ? MU::multiply(*a, *b) : MU::multiply(*b, *a);
    return {(*m)(at(arg))};
  }
};
struct Histo : Obj {
  typedef Histogram::Histogram<double, double> H;
  std::unique_ptr<H> h;
  explicit Histo(u64 s) {
    Vals v = values(s, 20), w = knots(s, 20);
    switch (s % 3) {
    case 0: h.reset(new H(v.begin(), v.end(), w.begin(), w.end(), Histogram::Binning::Sqrt<double>{})); break;
    case 1: h.reset(new H(v.begin(), v.end(), Histogram::Binning::Scott<double>{})); break;
    default: h.reset(new H(v.begin(), v.end(), Histogram::Binning::EdgeVector<double>(knots(s + 1, 7)))); break;
    }
    if (s / 3 % 2) h->clip(-5, 5);
  }
  Vals use(int op, int arg) const override {
    switch (op % 5) {
    case 0: return h->getCounts();
    case 1: return h->getEdges();
    case 2: return h->getBins();
    case 3: {
      auto t = h->getStats();
      return {std::get<0>(t), std::get<1>(t), std::get<2>(t)};
    }
    default: {
      H c(*h);
      c.clip(at(arg), at(arg) + 8);
      return c.getCounts();
    }
    }
  }
};
struct Photo : Obj {
  std::unique_ptr<SourceCatalog::Photometry> p;
  explicit Photo(u64 s) {
    Vals v = values(s, 8);
    auto n = std::make_shared<std::vector<std::string>>();
    std::vector<SourceCatalog::FluxErrorPair> f;
    for (int i = 0; i < 4; ++i) {
      n->push_back("f" + std::to_string(i));
      f.emplace_back(v[i], v[i + 4], i == 1, i == 2);
    }
    p.reset(new SourceCatalog::Photometry(n, f));
  }
  Vals use(int op, int arg) const override {
    const auto& c = *p;
    if (op % 2) {
      auto f = c.find("f" + std::to_string(arg % 6));
      if (!f) return {-1};
      return {f->flux, f->error, (double)f->missing_photometry_flag, (double)f->upper_limit_flag};
    }
    Vals o;
    for (auto i = c.begin(); i != c.end(); ++i) o.push_back((*i).flux + (double)i.filterName().back());
    o.push_back((double)c.size());
    return o;
  }
};
struct Draw : Obj {
  std::unique_ptr<MU::NdSampler<double, double>> d;
  explicit Draw(u64 s) {
    Vals v = values(s, 12);
    for (auto& x : v) x = x * x + 1;
    d.reset(new MU::NdSampler<double, double>(std::make_tuple(knots(s, 4), knots(s + 1, 3)), NdArray::NdArray<double>(std::vector<size_t>{3, 4}, v)));
  }
  Vals use(int op, int arg) const override {
    std::mt19937 g((unsigned)arg);
    Vals         o;
    for (auto& t : d->draw(1 + op % 3, g)) o.push_back(std::get<0>(t) * 3 + std::get<1>(t));
    return o;
  }
};
struct Integral : Obj {
  std::unique_ptr<MU::Function>               f;
  explicit Integral(u64 s) : f(new MU::FunctionAdapter([s](double x) { return x * x / 10 + (double)(s % 7); })) {}
  Vals use(int op, int arg) const override {
    switch (op % 3) {
    case 0: return {MU::AdaptativeIntegration<MU::SimpsonsRule>{1e-3, 3}(*f, at(arg), at(arg) + 2)};
    case 1: return {MU::SimpsonsRule{}(*f, at(arg), at(arg) + 2, 3)};
    default: return {(*f)(at(arg)), (*f->clone())(at(arg) + 1)};
    }
  }
};
struct Modes : Obj {
  XYDataset::XYDataset d;
  static std::vector<std::pair<double, double>> pairs(u64 s) {
    Vals x = knots(s, 8), y = values(s, 8);
    std::vector<std::pair<double, double>> p;
    for (int i = 0; i < 8; ++i) p.emplace_back(x[i], y[i] * y[i]);
    return p;
  }
  explicit Modes(u64 s) : d(XYDataset::XYDataset::factory(pairs(s))) {}
  Vals use(int op, int arg) const override {
    auto m = op % 2 ? MU::extractNHighestModes(d, (double)(arg % 4) / 4, 2) : MU::extractNBigestModes(d, (double)(arg % 4) / 4, 2);
    Vals o;
    for (auto& i : m) o.push_back(i.getHighestSamplePosition() + i.getMeanPosition() * 3 + i.getModeArea() * 7);
    return o;
  }
};
std::unique_ptr<Obj> make(int type, u64 s) {
  switch (type % NOBJ) {
  case 0: return std::unique_ptr<Obj>(new Name(s));
  case 1: return std::unique_ptr<Obj>(new Poly(s));
  case 2: return std::unique_ptr<Obj>(new Piece(s));
  case 3: return std::unique_ptr<Obj>(new Inter(s));
  case 4: return std::unique_ptr<Obj>(new InterN(s));
  case 5: return std::unique_ptr<Obj>(new Data(s));
  case 6: return std::unique_ptr<Obj>(new Tab(s));
  case 7: return std::unique_ptr<Obj>(new Grid(s));
  case 8: return std::unique_ptr<Obj>(new Tree(s));
  case 9: return std::unique_ptr<Obj>(new Cumu(s));
  case 10: return std::unique_ptr<Obj>(new Cosmo());
  case 11: return std::unique_ptr<Obj>(new Nd(s));
  case 12: return std::unique_ptr<Obj>(new Som(s));
  case 13: return std::unique_ptr<Obj>(new Cat(s));
  case 14: return std::unique_ptr<Obj>(new Product(s));
  case 15: return std::unique_ptr<Obj>(new Histo(s));
  case 16: return std::unique_ptr<Obj>(new Photo(s));
  case 17: return std::unique_ptr<Obj>(new Draw(s));
  case 18: return std::unique_ptr<Obj>(new Integral(s));
  default: return std::unique_ptr<Obj>(new Modes(s));
  }
}
const char* const KIND[] = {"qualified name", "polynomial", "piecewise function", "interpolation", "interpolation in two dimensions", "dataset", "table", "grid", "tree", "cumulative", "cosmology",
                            "array", "map", "catalog", "product", "histogram", "photometry", "sampler", "integration", "mode extraction"};

// Op(thread, object, operation, argument)
void gen_share(Rng& r, Plan& p) {
  int no            = (int)r.range(1, 2);
  p.cfg["threads"]  = r.range(2, 3);
  p.cfg["objects"]  = no;
  for (int i = 0; i < no; ++i) {
    p.cfg["type" + std::to_string(i)] = r.below(NOBJ);
    p.cfg["seed" + std::to_string(i)] = r.below(10000);
  }
  int n = (int)r.range(3, 10);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op((int)r.below(3), (int)r.below(2), (int)r.below(60), (int)r.below(2000)));
}
void run_share(const Plan& p) {
  int                               no = (int)p.get("objects", 1), nt = (int)p.get("threads", 2);
  std::vector<std::unique_ptr<Obj>> objs;
  std::vector<Vals>                 want(p.ops.size());
  auto type = [&](int i) { return (int)p.get(("type" + std::to_string(i)).c_str()); };
  auto seed = [&](int i) { return (u64)p.get(("seed" + std::to_string(i)).c_str()); };
  for (int i = 0; i < no; ++i) objs.push_back(make(type(i), seed(i)));
  // what each operation gives on an object that nobody has used before
  for (size_t i = 0; i < p.ops.size(); ++i) {
    int k   = p.ops[i].v[1] % no;
    want[i] = make(type(k), seed(k))->use(p.ops[i].v[2], p.ops[i].v[3]);
  }
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (size_t i = 0; i < p.ops.size(); ++i) {
        auto& o = p.ops[i];
        if (o.v[0] % nt != t) continue;
        int  k   = o.v[1] % no;
        Vals got = objs[k]->use(o.v[2], o.v[3]);
        Quiet q;
        event("%s: operation %d(%d)", KIND[type(k) % NOBJ], o.v[2], o.v[3]);
        bool same = got.size() == want[i].size();
        for (size_t j = 0; same && j < got.size(); ++j) same = got[j] == want[i][j] || (got[j] != got[j] && want[i][j] != want[i][j]);
        if (!same)
          fail("wrong-result", "operation %d of a shared %s gives %g (%zu values), on an object of its own %g (%zu values)", o.v[2], KIND[type(k) % NOBJ], got.empty() ? 0. : got[0], got.size(),
               want[i].empty() ? 0. : want[i][0], want[i].size());
        sig((u64)type(k) * 64 + o.v[2]);
      }
    });
  for (auto& t : th) t.join();
}
Scenario s_share("sh_const", "immutable objects shared by threads", true, 1, gen_share, run_share);
}  // namespace
