// What is computed from many values: histograms, range searches, cumulative distributions and the modes of densities,
// with failing allocations and user types that throw.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
#include "Histogram/Histogram.h"
#include "KdTree/KdTree.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "XYDataset/XYDataset.h"
#include <cmath>

using namespace sim;
using namespace Euclid;

namespace {
struct UserError : std::runtime_error {
  UserError() : std::runtime_error("user") {}
};
long g_throw = -1;
void user_call() {
  if (g_throw >= 0 && g_throw-- == 0) {
    count_fault("user_throw");
    throw UserError();
  }
}
// 0 fine, 1 refused, 2 out of memory, 3 the user's code threw
template <typename F> int attempt(F op) {
  int r = 0;
  u64 a = faults_fired("alloc"), u = faults_fired("user_throw");
  enable_faults(true);
  try {
    op();
  } catch (const std::bad_alloc&) {
    r = 2;
  } catch (const UserError&) {
    r = 3;
  } catch (const Elements::Exception&) {
    r = 1;
  } catch (...) {
    enable_faults(false);
    throw;
  }
  enable_faults(false);
  g_throw = -1;
  if (r == 2 && faults_fired("alloc") == a) fail("harness-exception", "out of memory without cause");
  if (r == 3 && faults_fired("user_throw") == u) fail("harness-exception", "user exception without cause");
  sig(r);
  return r;
}
// tries until it works: a failure leaves nothing behind
template <typename F> void at_last(F op, long limit, const char* what) {
  for (int i = 0; i < 6; ++i) {
    if (limit >= 0 && i < 3) g_throw = pick("throw_at", limit + 1);
    int rc = attempt(op);
    if (rc == 1) fail("refused", "%s is refused", what);
    if (rc == 0) return;
  }
  op();  // no faults
}

// ---- histograms
template <typename T> struct It {  // an iterator of the user
  typedef std::forward_iterator_tag iterator_category;
  typedef T                         value_type;
  typedef ssize_t                   difference_type;
  typedef const T*                  pointer;
  typedef const T&                  reference;
  const T*                          p;
  const T& operator*() const {
    user_call();
    return *p;
  }
  It& operator++() { return ++p, *this; }
  It operator++(int) {
    It o = *this;
    ++p;
    return o;
  }
  ssize_t operator-(const It& o) const { return p - o.p; }
  bool    operator==(const It& o) const { return p == o.p; }
  bool    operator!=(const It& o) const { return p != o.p; }
};
template <typename T, typename W> struct Hist {
  typedef Histogram::Histogram<T, W> H;
  std::vector<T>                     x;
  std::vector<W>                     w;
  std::unique_ptr<H>                 h;
  ssize_t                            left = 0, right = 0;  // bins kept
  bool                               own_edges = false;
  std::vector<T>                     edges;
  void content(const H& g) {
    auto c = g.getCounts();
    auto e = g.getEdges();
    auto b = g.getBins();
    event("%zu bins of %zu", c.size(), b.size());
    if (e.size() != b.size() + 1 || g.size() != c.size() || (ssize_t)c.size() != right - left + 1) fail("wrong-size", "%zu counts, %zu bins and %zu edges, size %zu, expected %zd", c.size(), b.size(), e.size(), g.size(), right - left + 1);
    double scale = 0;
    for (T v : e) scale = std::max(scale, (double)std::fabs(v));
    double eps = scale * std::numeric_limits<T>::epsilon() * 4 * (own_edges ? 0 : 1);
    for (size_t i = 0; i + 1 < e.size(); ++i) {
      auto q = g.getBinEdges(i);
      if (q.first != e[i] || q.second != e[i + 1] || !(q.first < q.second)) {
        if (q.first == q.second && scale * std::numeric_limits<T>::epsilon() >= 0 && x.front() == x.back()) continue;
        fail("wrong-edges", "bin %zu is from %.9g to %.9g, the edges %.9g and %.9g", i, (double)q.first, (double)q.second, (double)e[i], (double)e[i + 1]);
      }
      if (std::fabs(b[i] - (e[i] + (e[i + 1] - e[i]) / 2)) > 2 * scale * std::numeric_limits<T>::epsilon()) fail("wrong-bin", "bin %zu is at %.9g", i, (double)b[i]);
    }
    if (own_edges && e != edges) fail("wrong-edges", "the edges are not the ones given");
    double sum = 0, expected = 0;
    for (W v : c) sum += v;
    bool clipped = left > 0 || right + 1 < (ssize_t)b.size();
    for (size_t i = 0; i < x.size(); ++i)
      if (!own_edges || (x[i] >= e.front() && x[i] <= e.back())) expected += w[i];
    if (!clipped && sum != expected) fail("lost-value", "the counts add up to %.9g and not to the %.9g of the values", sum, expected);
    for (size_t k = 0; k < c.size(); ++k) {
      size_t i = k + left;
      double lo = 0, hi = 0;
      for (size_t j = 0; j < x.size(); ++j) {
        bool in = x[j] >= e[i] + eps && x[j] < e[i + 1] - eps, may = x[j] >= e[i] - eps && x[j] <= e[i + 1] + eps;
        if (own_edges) in = may = x[j] >= e[i] && (x[j] < e[i + 1] || (x[j] == e[i + 1] && i + 2 == e.size()));
        if (in) lo += w[j];
        if (may) hi += w[j];
      }
      if (c[k] < lo || c[k] > hi) fail("wrong-count", "bin %zu from %.9g to %.9g has %.9g, expected %.9g to %.9g", i, (double)e[i], (double)e[i + 1], (double)c[k], lo, hi);
    }
    if (sum > 0) {
      T mean, median, sigma;
      std::tie(mean, median, sigma) = g.getStats();
      double m = 0, v = 0, below = 0, above = 0;
      for (size_t k = 0; k < c.size(); ++k) m += c[k] * (double)b[k + left] / sum;
      for (size_t k = 0; k < c.size(); ++k) v += c[k] * ((double)b[k + left] - m) * ((double)b[k + left] - m) / sum;
      double tol = scale * std::numeric_limits<T>::epsilon() * 16 * (4 + c.size());
      if (!(std::fabs(mean - m) <= tol)) fail("wrong-mean", "the mean is %.9g and not %.9g", (double)mean, m);
      if (!(std::fabs((double)sigma * sigma - v) <= tol * scale)) fail("wrong-sigma", "the standard deviation is %.9g and not %.9g", (double)sigma, std::sqrt(v));
      double at = 0;  // the mass below the median, spread evenly in its bin
      for (size_t k = 0; k < c.size(); ++k) {
        double l = e[k + left], r = e[k + left + 1];
        if (r <= median) at += c[k];
        else if (l < median) at += c[k] * (median - l) / (r - l);
        if (r <= median - tol) below += c[k];
        if (l >= median + tol) above += c[k];
      }
      if (e.front() == e.back()) below = above = 0;  // all values are the same
      if (!(below <= sum / 2) || !(above <= sum / 2) || median < e[left] - tol || median > e[right + 1] + tol) fail("wrong-median", "below the median %.9g there are %.9g, above %.9g of %.9g", (double)median, below, above, sum);
      double width = INFINITY;
      for (size_t k = 0; k < c.size(); ++k) width = std::min(width, (double)e[k + left + 1] - e[k + left]);
      if (b.size() > 1 && width > 0 && std::fabs(at - sum / 2) > sum * (1e-4 + 4 * tol / width)) fail("wrong-median", "below the median %.9g, interpolated, there are %.9g of %.9g", (double)median, at, sum);
    }
  }
  void run(const Plan& p) {
    Rng    r((u64)p.get("data"));
    size_t n = 1 + r.below(r.chance(1, 3) ? 4 : 60);
    double unit = std::ldexp(1., (int)r.range(-20, 20)), off = r.chance(1, 2) ? 0 : (double)r.range(-30, 30) * unit;
    int    kind = (int)r.below(3);
    for (size_t i = 0; i < n; ++i) {
      double v = r.chance(1, 3) ? (double)r.range(-10, 10) : (double)r.range(-1000000, 1000000) / 100000;
      x.push_back((T)(v * unit + off));
      w.push_back(p.get("weights") ? (W)r.range(0, 8) : (W)1);
    }
    if (r.chance(1, 6)) std::fill(x.begin(), x.end(), x[0]);
    if (r.chance(1, 4) && n > 2) {  // values next to the ends
      auto mm = std::minmax_element(x.begin(), x.end());
      T    a = *mm.first, b = *mm.second;
      x[n - 1] = b, x[0] = a;
      for (size_t i = 1; i + 1 < n; i += 2) x[i] = r.chance(1, 2) ? std::nextafter(b, a) : std::nextafter(a, b);
    }
    if (kind == 0) {
      own_edges = true;
      T v = (T)((double)r.range(-12, 4) * unit + off);
      for (int k = (int)r.range(2, 9); k-- > 0;) {
        edges.push_back(v);
        T next = (T)(v + (double)(r.chance(1, 2) ? r.range(1, 8) : r.range(1, 100) / 16.) * unit);
        if (!(next > v)) next = std::nextafter(v, (T)INFINITY);
        v = next;
      }
    }
    It<T> b{x.data()}, e{x.data() + n};
    at_last(
        [&] {
          if (p.get("weights")) {
            if (kind == 0) h.reset(new H(b, e, w.begin(), w.end(), Histogram::Binning::EdgeVector<T>{edges}));
            if (kind == 1) h.reset(new H(b, e, w.begin(), w.end(), Histogram::Binning::Sqrt<T>{}));
            if (kind == 2) h.reset(new H(b, e, w.begin(), w.end(), Histogram::Binning::Scott<T>{}));
          } else {
            if (kind == 0) h.reset(new H(b, e, Histogram::Binning::EdgeVector<T>{edges}));
            if (kind == 1) h.reset(new H(b, e, Histogram::Binning::Sqrt<T>{}));
            if (kind == 2) h.reset(new H(b, e, Histogram::Binning::Scott<T>{}));
          }
        },
        p.get("throws") ? 60 : -1, "a histogram");
    right = (ssize_t)h->getBins().size() - 1;
    sig((u64)right);
    if (right > 2000) return;  // values so far apart that nobody would look at it
    content(*h);
    for (auto& op : p.ops) {
      Rng q((u64)op.v[1]);
      std::unique_ptr<H> other;
      switch (op.kind()) {
        case 0: {  // cut
          auto ed  = h->getEdges();
          auto any = [&] {
            T v = ed[q.below(ed.size())];
            return q.chance(1, 3) ? v : (T)(v + (double)q.range(-16, 16) / 8 * (ed.back() - ed.front()) / ed.size());
          };
          T lo = any(), hi = any();
          if (lo > hi) {
            if (attempt([&] { h->clip(lo, hi); }) == 0) fail("accepted", "a range from %.9g to %.9g is accepted", (double)lo, (double)hi);
            break;
          }
          double eps = own_edges ? 0 : (std::fabs(ed.front()) + std::fabs(ed.back())) * std::numeric_limits<T>::epsilon() * 8;
          bool   near = false;
          for (T v : ed) near = near || std::fabs(v - lo) <= eps || std::fabs(v - hi) <= eps;
          if (near && !own_edges) break;  // rounding decides
          h->clip(lo, hi);
          auto bin = [&](T v) -> ssize_t {
            for (ssize_t k = 0; k + 1 < (ssize_t)ed.size(); ++k)
              if (v >= ed[k] && (v < ed[k + 1] || (v == ed[k + 1] && k + 2 == (ssize_t)ed.size()))) return k;
            return -1;
          };
          ssize_t bl = bin(lo), bh = bin(hi);
          if (bl > left && bl <= right) left = bl;
          if (bh >= left && bh < right) right = bh;
          break;
        }
        case 1: {  // a copy which is cut does not change the original
          at_last([&] { other.reset(new H(*h)); }, -1, "a copy");
          auto ed = other->getEdges();
          content(*other);
          other->clip(ed[ed.size() / 2], ed.back());
          break;
        }
        default: {  // move
          other.reset(new H(std::move(*h)));
          if (q.chance(1, 2)) h = std::move(other);
          else {
            h.reset(new H(*other));
            H third(*h);
            third = std::move(*other);
            content(third);
          }
        }
      }
      content(*h);
    }
  }
};
void hist_gen(Rng& r, Plan& p) {
  p.cfg["data"] = r.range(0, 100000000);
  p.cfg["type"] = r.range(0, 3);
  p.cfg["weights"] = r.range(0, 1);
  p.cfg["throws"] = r.range(0, 1);
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(1, 300);
  int n = (int)r.below(6);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op((int)r.below(4) % 3, (i64)r.range(0, 10000000)));
}
void hist_run(const Plan& p) {
  enable_faults(false);
  g_throw = -1;
  switch (p.get("type")) {
    case 0: return Hist<double, float>().run(p);
    case 1: return Hist<float, float>().run(p);
    case 2: return Hist<double, int>().run(p);
    default: return Hist<float, double>().run(p);
  }
}
Scenario s1("st_hist", "histograms of values, cut and copied", false, 1, hist_gen, hist_run);

// ---- range search
struct Item {
  double c[3];
  int    id;
  std::shared_ptr<int> own;
  Item() : id(0) {}
  Item(const Item& o) : id(o.id), own(o.own) {
    user_call();
    std::copy(o.c, o.c + 3, c);
  }
  Item(Item&&) noexcept = default;
  Item& operator=(const Item&) = default;
  Item& operator=(Item&&) noexcept = default;
};
}  // namespace
namespace KdTree {
template <> struct KdTreeTraits<Item> {
  static double getCoord(const Item& t, size_t i) {
    user_call();
    return t.c[i];
  }
};
}  // namespace KdTree
namespace {
template <size_t N, size_t S> void kd(const Plan& p) {
  typedef KdTree::KdTree<Item, N, S> Tree;
  Rng               r((u64)p.get("data"));
  size_t            n = r.chance(1, 10) ? r.below(3) : r.below((u64)p.get("size") + 1);
  std::vector<Item> items(n);
  bool              coarse = r.chance(1, 2);
  double            unit = std::ldexp(1., (int)r.range(-30, 30));
  for (size_t i = 0; i < n; ++i) {
    items[i].id  = (int)i;
    items[i].own = std::make_shared<int>((int)i);
    for (int d = 0; d < 3; ++d) items[i].c[d] = (coarse ? (double)r.range(-3, 3) : (double)r.range(-4096, 4096) / 512) * unit;
    if (r.chance(1, 6) && i) std::copy(items[i - 1].c, items[i - 1].c + 3, items[i].c);
  }
  std::unique_ptr<Tree> t;
  long                  lim = p.get("throws") ? 400 : -1;
  at_last([&] { t.reset(new Tree(items)); }, lim, "a tree");
  auto copy = items;
  items.clear();
  if (r.chance(1, 2)) t.reset(new Tree(Tree(*t)));
  for (auto& op : p.ops) {
    Rng                  q((u64)op.v[1]);
    typename Tree::Coord c;
    for (size_t d = 0; d < N; ++d) c.coord[d] = (q.chance(1, 4) && n ? copy[q.below(n)].c[d] / unit : q.chance(1, 2) ? (double)q.range(-4, 4) : (double)q.range(-5000, 5000) / 512) * unit;
    double radius = (q.chance(1, 8) ? 0 : q.chance(1, 3) ? (double)q.range(1, 6) : (double)q.range(1, 6000) / 512) * unit;
    std::vector<Item> found;
    at_last([&] { found = t->findPointsWithinRadius(c, radius); }, lim, "a search");
    std::vector<int> times(n);
    for (auto& f : found) {
      if (f.id < 0 || (size_t)f.id >= n || !f.own || *f.own != f.id) fail("invented-point", "a point that was never there is found");
      ++times[f.id];
    }
    size_t in = 0;
    for (size_t i = 0; i < n; ++i) {
      double d2 = 0;
      for (size_t d = 0; d < N; ++d) d2 += (copy[i].c[d] - c.coord[d]) * (copy[i].c[d] - c.coord[d]);
      double lim2 = radius * radius;
      bool   sure_in = d2 < lim2 && (d2 < lim2 * (1 - 1e-12) || coarse), sure_out = d2 >= lim2 * (1 + 1e-12) || (d2 >= lim2);
      if (times[i] > 1) fail("twice", "a point is found %d times", times[i]);
      if (sure_in && !times[i]) fail("lost-point", "the point %zu at %.9g of the centre is not found within %.9g", i, std::sqrt(d2), radius);
      if (sure_out && times[i]) fail("wrong-point", "the point %zu at %.9g of the centre is found within %.9g", i, std::sqrt(d2), radius);
      in += times[i];
    }
    event("%zu of %zu", in, n);
    sig(in);
  }
}
void kd_gen(Rng& r, Plan& p) {
  p.cfg["data"] = r.range(0, 100000000);
  p.cfg["type"] = r.range(0, 4);
  p.cfg["size"] = r.chance(1, 2) ? r.range(0, 30) : r.range(20, 150);
  p.cfg["throws"] = r.range(0, 1);
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(1, 60);
  int n = (int)r.range(1, 8);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(0, (i64)r.range(0, 10000000)));
}
void kd_run(const Plan& p) {
  enable_faults(false);
  g_throw = -1;
  switch (p.get("type")) {
    case 0: return kd<2, 4>(p);
    case 1: return kd<1, 5>(p);
    case 2: return kd<3, 4>(p);
    case 3: return kd<2, 7>(p);
    default: return kd<2, 100>(p);
  }
}
Scenario s2("st_kd", "range searches in a tree of points", false, 1, kd_gen, kd_run);

// ---- distributions
struct Mode {
  double at, mean, area;
  size_t lo, hi;
};
// the modes by height, as documented
std::vector<Mode> modes_of(std::vector<double> x, std::vector<double> y, double ratio) {
  std::vector<Mode> m;
  while (true) {
    size_t c = std::max_element(y.begin(), y.end()) - y.begin();
    if (y[c] <= 0) return m;
    double thr = (1.0 - ratio) * y[c];
    size_t a = c, b = c;
    while (a > 0 && y[a - 1] > 0 && !(y[a] < thr && y[a - 1] >= y[a])) --a;
    while (b + 1 < y.size() && y[b + 1] > 0 && !(y[b] < thr && y[b + 1] >= y[b])) ++b;
    double area = 0, num = 0;
    for (size_t i = a; i <= b; ++i) {
      double dx = i == 0 ? x[1] - x[0] : i + 1 == x.size() ? x[i] - x[i - 1] : (x[i + 1] - x[i - 1]) / 2;
      area += y[i] * dx, num += x[i] * y[i] * dx;
    }
    m.push_back({x[c], num / area, area, a, b});
    for (size_t i = a; i <= b; ++i) y[i] = 0;
  }
}
bool close(double a, double b, double s) { return std::fabs(a - b) <= 1e-9 * s; }
void pdf_run(const Plan& p) {
  enable_faults(false);
  g_throw = -1;
  Rng                 r((u64)p.get("data"));
  size_t              n = 2 + r.below((u64)p.get("size"));
  std::vector<double> x, y;
  double              v = (double)r.range(-40, 40) / 4, total = 0;
  for (size_t i = 0; i < n; ++i) {
    x.push_back(v), v += (double)(p.get("even") ? 4 : r.range(1, 12)) / 4;
    y.push_back(r.chance(1, 4) ? 0 : (double)r.range(0, 8));
    total += y.back();
  }
  if (total == 0) y[r.below(n)] = 1, total = 1;
  size_t rest = r.below(n);
  if (p.get("needles")) {  // high and narrow modes, and low and wide ones that are bigger
    x.clear(), y.clear(), total = 0;
    for (int i = 0, k = (int)p.get("needles"); i < k + 3; ++i)
      for (int j = i < k ? 1 : (int)r.range(3, 6); j >= 0; --j) x.push_back(v), v += i < k ? 0.25 : 4, y.push_back(j == 0 ? 0 : i < k ? k - i + 3 : k + 3 - i);
    n = x.size(), rest = 0;
    for (double d : y) total += d;
  }
  double two = 1;
  while (two < total) two *= 2;
  y[rest] += two - total, total = two;  // so that shares of it are exact
  double span = std::fabs(x.front()) + std::fabs(x.back()) + 1;
  std::unique_ptr<MathUtils::Cumulative> c;
  bool                                   ds = r.chance(1, 2);
  at_last(
      [&] {
        if (p.get("sums")) {
          std::vector<double> s = y;
          for (size_t i = 1; i < n; ++i) s[i] += s[i - 1];
          if (ds) c.reset(new MathUtils::Cumulative(XYDataset::XYDataset::factory(x, s)));
          else c.reset(new MathUtils::Cumulative(x, s));
        } else {
          if (ds) c.reset(new MathUtils::Cumulative(MathUtils::Cumulative::fromPdf(XYDataset::XYDataset::factory(x, y))));
          else c.reset(new MathUtils::Cumulative(MathUtils::Cumulative::fromPdf(x, y)));
        }
      },
      -1, "a cumulative");
  {
    auto z = y;
    r.chance(1, 2) ? z.pop_back() : z.push_back(1);
    if (attempt([&] { r.chance(1, 2) ? MathUtils::Cumulative(x, z) : MathUtils::Cumulative::fromPdf(x, z); }) == 0) fail("accepted", "a cumulative of %zu x and %zu y values is accepted", x.size(), z.size());
  }
  std::vector<double> sum = y;
  for (size_t i = 1; i < n; ++i) sum[i] += sum[i - 1];
  for (auto& op : p.ops) {
    Rng    q((u64)op.v[1]);
    double rate = (double)q.range(0, 64) / 64;
    sig(op.kind());
    switch (op.kind()) {
      case 0: at_last([&] { c->normalize(); }, -1, "a normalization"); break;
      case 1: {
        std::unique_ptr<MathUtils::Cumulative> d;
        at_last([&] { d.reset(new MathUtils::Cumulative(*c)); }, -1, "a copy");
        if (q.chance(1, 2)) {
          std::vector<double>    a{0, 1}, b{0, 1};
          MathUtils::Cumulative  e(a, b);
          at_last([&] { e = *d; }, -1, "an assignment");
          d.reset(new MathUtils::Cumulative(std::move(e)));
        }
        *c = std::move(*d);
        break;
      }
      case 2: {
        size_t i = 0, j;
        while (sum[i] < rate * total) ++i;
        for (j = i; j + 1 < n && sum[j + 1] == sum[i];) ++j;
        double b = c->findValue(rate, MathUtils::Cumulative::begin), m = c->findValue(rate), e = c->findValue(rate, MathUtils::Cumulative::end);
        if (b != x[i] || e != x[j] || !close(m, (x[i] + x[j]) / 2, span)) fail("wrong-value", "the share %g is reached at %.9g, %.9g, %.9g and not from %.9g to %.9g", rate, b, m, e, x[i], x[j]);
        break;
      }
      case 3: {
        if (rate == 0) break;
        auto   f = c->findMinInterval(rate);
        double best = INFINITY;
        bool   there = false;
        for (size_t i = 0; i < n; ++i)
          for (size_t j = i + 1; j < n; ++j)
            if (sum[j] - sum[i] + (i ? 0 : sum[0]) >= rate * total) {
              best = std::min(best, x[j] - x[i]);
              if (f.first == x[i] && f.second == x[j]) there = true;
            }
        if (!there || !close(f.second - f.first, best, span)) fail("wrong-interval", "the smallest interval with the share %g is from %.9g to %.9g%s, there is one of %.9g", rate, f.first, f.second, there ? "" : ", which has less", best);
        break;
      }
      case 4: {
        if (rate == 0) break;
        auto   f = c->findCenteredInterval(rate);
        double a = 0.5 - rate / 2, b = 0.5 + rate / 2;
        size_t i = 0, j = 0;
        while (sum[i] < a * total) ++i;
        while (i + 1 < n && sum[i + 1] == sum[i]) ++i;
        while (sum[j] < b * total) ++j;
        if (f.first != x[i] || f.second != x[j]) fail("wrong-interval", "the central interval with the share %g is from %.9g to %.9g and not from %.9g to %.9g", rate, f.first, f.second, x[i], x[j]);
        break;
      }
      case 5: {
        double bad = q.chance(1, 2) ? 1 + rate + 1e-9 : -rate - 1e-9;
        int    k = (int)q.below(3);
        if (k && q.chance(1, 3)) bad = 0;
        if (attempt([&] { k == 0 ? (void)c->findValue(bad) : k == 1 ? (void)c->findMinInterval(bad) : (void)c->findCenteredInterval(bad); }) == 0) fail("accepted", "a share of %g is accepted", bad);
        break;
      }
      default: {
        double ratio = q.chance(1, 3) ? 0 : q.chance(1, 3) ? 1 : (double)q.range(0, 16) / 16;
        auto   ref = modes_of(x, y, ratio);
        bool   big = op.kind() == 7, data = q.chance(1, 2);
        size_t k = q.below(ref.size() + 2);
        std::vector<MathUtils::ModeInfo> got;
        at_last(
            [&] {
              if (data) got = big ? MathUtils::extractNBigestModes(XYDataset::XYDataset::factory(x, y), ratio, k) : MathUtils::extractNHighestModes(XYDataset::XYDataset::factory(x, y), ratio, k);
              else got = big ? MathUtils::extractNBigestModes(x, y, ratio, k) : MathUtils::extractNHighestModes(x, y, ratio, k);
            },
            -1, "an extraction");
        if (got.size() > k) fail("too-many", "%zu modes are given where %zu were asked for", got.size(), k);
        if (got.size() < std::min(k, ref.size())) fail("too-few", "%zu modes are given where %zu of %zu were asked for", got.size(), k, ref.size());
        if (big) {
          if (ref.size() > 3 * k + 1) break;  // it does not look at all of them
          std::stable_sort(ref.begin(), ref.end(), [](const Mode& a, const Mode& b) { return a.area > b.area; });
        }
        for (size_t i = 0; i < got.size(); ++i) {
          if (i >= ref.size()) {
            if (got[i].getModeArea() != 0) fail("wrong-mode", "a mode of area %.9g is given where there is none", got[i].getModeArea());
            continue;
          }
          auto& g = got[i];
          size_t at = i;
          if (big)  // of the same area
            for (size_t j = 0; j < ref.size(); ++j)
              if (close(ref[j].area, ref[i].area, total * span) && ref[j].at == g.getHighestSamplePosition()) at = j;
          auto& m = ref[at];
          if (g.getHighestSamplePosition() != m.at || !close(g.getModeArea(), m.area, total * span) || !close(g.getMeanPosition(), m.mean, span * 10)) fail("wrong-mode", "mode %zu is at %.9g, mean %.9g, area %.9g and not at %.9g, %.9g, %.9g", i, g.getHighestSamplePosition(), g.getMeanPosition(), g.getModeArea(), m.at, m.mean, m.area);
          double f = g.getInterpolatedMaxPosition();
          if (!(f >= x.front() && f <= x.back())) fail("wrong-mode", "the interpolated position %.9g of mode %zu is outside", f, i);
          size_t s = std::find(x.begin(), x.end(), m.at) - x.begin();
          if (s > 0 && s + 1 < n) {  // the top of the parabola through the sample and what is left of its neighbours
            bool left_gone = false, right_gone = false;
            for (size_t j = 0; j < ref.size(); ++j) {
              if (&ref[j] == &m || y[s] > y[std::find(x.begin(), x.end(), ref[j].at) - x.begin()]) continue;
              if (ref[j].lo <= s - 1 && s - 1 <= ref[j].hi) left_gone = true;
              if (ref[j].lo <= s + 1 && s + 1 <= ref[j].hi) right_gone = true;
            }
            if (left_gone || right_gone) continue;
            double h0 = x[s] - x[s - 1], h1 = x[s + 1] - x[s], s0 = (y[s] - y[s - 1]) / h0, s1 = (y[s + 1] - y[s]) / h1, e = x[s];
            if (s0 != s1) e = (x[s - 1] + x[s]) / 2 - s0 * (h0 + h1) / 2 / (s1 - s0);
            e = std::min(std::max(e, x.front()), x.back());
            if (std::fabs(f - e) > 1e-6 * span) fail("wrong-mode", "the interpolated position of mode %zu is %.9g and not %.9g", i, f, e);
          }
        }
      }
    }
  }
}
void pdf_gen(Rng& r, Plan& p) {
  p.cfg["data"] = r.range(0, 100000000);
  p.cfg["size"] = r.chance(1, 4) ? 3 : r.range(1, 25);
  if (r.chance(1, 5)) p.cfg["needles"] = r.range(2, 8);
  p.cfg["even"] = r.range(0, 1), p.cfg["sums"] = r.range(0, 1);
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(1, 150);
  int n = (int)r.range(1, 12);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op((int)r.below(9) == 8 ? 7 : (int)r.below(8), (i64)r.range(0, 10000000)));
}
Scenario s3("st_pdf", "cumulative distributions and modes", false, 1, pdf_gen, pdf_run);
}  // namespace
