// Sampling: draws from n-dimensional distributions with a random source under control, and failing allocations.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "MathUtils/PDF/NdSampler.h"
#include "MathUtils/interpolation/GridInterpolation.h"
#include "GridContainer/GridContainer.h"
#include "MathUtils/PDF/NdSamplerFromGrid.h"
#include <cmath>
#include <numeric>

using namespace sim;
using namespace Euclid;
using MathUtils::NdSampler;

namespace {
// the random source: mostly ordinary numbers, but also the ones that are as unlikely as any other
struct Source {
  typedef u64      result_type;
  static constexpr u64 min() { return 0; }
  static constexpr u64 max() { return ~0ull; }
  Rng&                 r;
  int                  odd;
  std::vector<double>  edges;
  std::vector<double>  given;
  Source(Rng& r_, int o) : r(r_), odd(o) {}
  u64 operator()() {
    Quiet q;
    u64   v = r.next();
    if ((int)r.below(100) < odd) switch (r.below(5)) {
        case 0: v = 0; break;
        case 1: v = ~0ull; break;
        case 2: v = r.below(4096); break;
        case 3: v = ~0ull - r.below(4096); break;
        default:
          if (!edges.empty()) {
            double e = edges[r.below(edges.size())];
            v        = e >= 1 ? ~0ull : (u64)(e * 18446744073709551616.0);
            v += (r.below(3) - 1) * (r.below(2) ? 1 : 2048);
          }
      }
    given.push_back((double)v / 18446744073709551616.0);
    return v;
  }
};
struct Axis {
  bool                cont;
  std::vector<double> k;  // knots, or codes of the discrete knots
};
template <typename T> struct Conv {
  static T      to(double v) { return (T)v; }
  static double from(T v) { return (double)v; }
};
template <> struct Conv<std::string> {
  static std::string to(double v) { return "k" + std::to_string((long)v); }
  static double      from(const std::string& s) { return s.empty() ? -1e9 : atof(s.c_str() + 1); }
};
// values over axes k..N-1, axis k changing fastest
struct Model {
  std::vector<Axis>                axes;
  std::vector<std::vector<double>> marg;
  void init(std::vector<double> v) {
    marg.push_back(v);
    for (size_t a = 0; a + 1 < axes.size(); ++a) {
      auto&               x = axes[a];
      auto&               in = marg[a];
      size_t              n = x.k.size();
      std::vector<double> out(in.size() / n);
      for (size_t i = 0; i < out.size(); ++i)
        if (x.cont && n > 1)
          for (size_t j = 0; j + 1 < n; ++j) out[i] += (x.k[j + 1] - x.k[j]) * (in[i * n + j] + in[i * n + j + 1]) / 2;
        else
          for (size_t j = 0; j < n; ++j) out[i] += in[i * n + j];
      marg.push_back(out);
    }
  }
  // the density over axes a.. at the point x
  double at(size_t a, const double* v, const std::vector<double>& x, size_t stride_left) const {
    // fold from the slowest axis
    size_t n = axes[stride_left].k.size(), block = 1;
    for (size_t i = a; i < stride_left; ++i) block *= axes[i].k.size();
    auto&  ax = axes[stride_left];
    double t  = x[stride_left];
    auto   sub = [&](size_t j) { return stride_left == a ? v[j] : at(a, v + j * block, x, stride_left - 1); };
    if (!ax.cont) {
      for (size_t j = 0; j < n; ++j)
        if (ax.k[j] == t) return sub(j);
      return 0;
    }
    if (t < ax.k.front() || t > ax.k.back()) return 0;
    if (n == 1) return sub(0);
    size_t j = 0;
    while (j + 2 < n && ax.k[j + 1] < t) ++j;
    double y0 = sub(j), y1 = sub(j + 1), f = ax.k[j + 1] > ax.k[j] ? (t - ax.k[j]) / (ax.k[j + 1] - ax.k[j]) : 0.5;
    return y0 + f * (y1 - y0);
  }
  double density(size_t a, const std::vector<double>& x) const { return at(a, marg[a].data(), x, axes.size() - 1); }
  // a discrete value that has no probability whatever the other values are
  bool never(size_t a, double v) const {
    size_t n = axes[a].k.size();
    if (axes[a].cont) {  // all the intervals around it are empty
      if (n == 1 || a + 1 < axes.size()) return false;  // a density interpolated at a knot is exact up to the rounding only
      for (size_t i = 0; i < marg[a].size(); ++i)
        if (marg[a][i] > 0) {
          auto& k = axes[a].k;
          size_t j = i % n;
          if (v >= k[j ? j - 1 : 0] && v <= k[std::min(j + 1, n - 1)]) return false;
        }
      return true;
    }
    for (size_t i = 0; i < marg[a].size(); ++i)
      if (axes[a].k[i % n] == v && marg[a][i] > 0) return false;
    return true;
  }
  // the probabilities that may have led to value x[a] given the later ones: false if that draw is undecided
  bool range(size_t a, std::vector<double> x, double& lo, double& hi) const {
    auto&               ax = axes[a];
    double              v  = x[a];
    std::vector<double> pdf;
    double              most = 0;
    if (a + 1 == axes.size()) pdf = marg[a];
    else
      for (double k : ax.k) x[a] = k, pdf.push_back(density(a, x));
    for (double q : pdf) most = std::max(most, q);
    double all = 0;
    for (double m : marg[a]) all = std::max(all, m);
    if (!(most > all * 1e-7)) return false;
    if (!ax.cont) {
      double total = 0, c = 0;
      for (double q : pdf) total += q;
      lo = 2, hi = -1;
      for (size_t i = 0; i < pdf.size(); ++i) {
        if (ax.k[i] == v) lo = std::min(lo, c / total), hi = std::max(hi, (c + pdf[i]) / total);
        c += pdf[i];
      }
      if (lo > hi) fail("invented-value", "a draw gives a value that is none of the knots of axis %zu", a);
      return true;
    }
    if (!(v >= ax.k.front() && v <= ax.k.back())) fail("out-of-range", "a draw gives %.17g on axis %zu, whose knots are %.17g to %.17g", v, a, ax.k.front(), ax.k.back());
    if (ax.k.size() == 1) {
      lo = 0, hi = 1;
      return true;
    }
    double total = 0;
    for (size_t i = 0; i + 1 < pdf.size(); ++i) total += (ax.k[i + 1] - ax.k[i]) * (pdf[i] + pdf[i + 1]) / 2;
    if (!(total > 0)) return false;
    auto F = [&](double t) {
      double c = 0;
      for (size_t i = 0; i + 1 < pdf.size(); ++i) {
        double x0 = ax.k[i], x1 = ax.k[i + 1];
        if (t >= x1) c += (x1 - x0) * (pdf[i] + pdf[i + 1]) / 2;
        else if (t > x0) c += (t - x0) * (pdf[i] + pdf[i] + (t - x0) / (x1 - x0) * (pdf[i + 1] - pdf[i])) / 2;
      }
      return c / total;
    };
    double d = 1e-6 * (ax.k.back() - ax.k.front()) + 1e-7 * std::max(std::fabs(ax.k.front()), std::fabs(ax.k.back()));
    lo = F(v - d), hi = F(v + d);
    return true;
  }
};
bool augment(size_t i, const std::vector<std::vector<size_t>>& ok, std::vector<long>& owner, std::vector<char>& seen) {
  for (size_t j : ok[i])
    if (!seen[j]) {
      seen[j] = 1;
      if (owner[j] < 0 || augment((size_t)owner[j], ok, owner, seen)) {
        owner[j] = (long)i;
        return true;
      }
    }
  return false;
}
// each drawn value must be explained by one of the random numbers, and each number explain one value
void explain(const Model& m, const std::vector<std::vector<double>>& rows, const std::vector<double>& p) {
  size_t N = m.axes.size();
  if (p.size() != N * rows.size()) {
    probe("other use of the random source");
    for (auto& x : rows)
      for (size_t a = 0; a < N; ++a) {
        double lo, hi;
        m.range(a, x, lo, hi);
      }
    return;
  }
  std::vector<std::vector<size_t>> ok;
  std::vector<std::pair<size_t, size_t>> who;
  for (size_t i = 0; i < rows.size(); ++i)
    for (size_t a = 0; a < N; ++a) {
      double lo = 0, hi = 1;
      bool   known = m.range(a, rows[i], lo, hi);
      ok.emplace_back();
      who.emplace_back(i, a);
      for (size_t j = 0; j < p.size(); ++j) {
        bool fits = p[j] >= lo - 1e-6 && p[j] <= hi + 1e-6;
        if (known && fits && m.never(a, rows[i][a])) fits = false;  // no probability, no draw
        if (!known || fits) ok.back().push_back(j);
      }
      if (ok.back().empty()) fail("wrong-distribution", "draw %zu gives %.17g on axis %zu, for a probability of %.9g to %.9g, and none of the random numbers is there", i, rows[i][a], a, lo, hi);
    }
  std::vector<long> owner(p.size(), -1);
  for (size_t i = 0; i < ok.size(); ++i) {
    std::vector<char> seen(p.size());
    if (!augment(i, ok, owner, seen)) fail("wrong-distribution", "the random numbers do not explain draw %zu on axis %zu together with the others", who[i].first, who[i].second);
  }
}
template <typename... K> std::vector<double> row(const std::tuple<K...>& t);
template <size_t... I, typename... K> std::vector<double> row_(const std::tuple<K...>& t, std::index_sequence<I...>) {
  return std::vector<double>{Conv<K>::from(std::get<I>(t))...};
}
template <typename... K> std::vector<double> row(const std::tuple<K...>& t) { return row_(t, std::index_sequence_for<K...>{}); }
template <typename T> std::vector<T> knots(const Axis& a) {
  std::vector<T> r;
  for (double v : a.k) r.push_back(Conv<T>::to(v));
  return r;
}
template <typename... K, size_t... I> std::tuple<std::vector<K>...> all_knots(const Model& m, std::index_sequence<I...>) { return std::tuple<std::vector<K>...>{knots<K>(m.axes[I])...}; }
template <typename... K, size_t... I> double call(const MathUtils::InterpN<K...>& f, const std::vector<double>& x, std::index_sequence<I...>) { return f(Conv<K>::to(x[I])...); }

// whether an allocation was refused during f
template <typename F> bool refused(F f, const char* what) {
  u64 before = faults_fired("alloc");
  enable_faults(true);
  try {
    f();
    enable_faults(false);
    return false;
  } catch (const std::bad_alloc&) {
    enable_faults(false);
    if (faults_fired("alloc") == before) fail("invented-error", "%s reports that memory ran out", what);
    probe("out of memory was reported");
    return true;
  } catch (const std::exception& e) {
    enable_faults(false);
    fail("refused", "%s is refused: %s", what, e.what());
  }
}
template <typename T> Axis make_axis(Rng& r, const Plan& p, bool dup) {
  Axis a;
  a.cont   = std::is_floating_point<T>::value;
  size_t n = 1 + r.below(r.chance(1, 6) ? 1 : 6);
  if (a.cont) {
    static const double scale[] = {1, 1, 1, 1e-10, 1e5, 1e3};
    double              s = scale[r.below(6)], x = r.chance(1, 3) ? 0 : ((double)r.below(4001) - 2000) / 1000 * s * (r.chance(1, 6) ? 100 : 1);
    for (size_t i = 0; i < n; ++i) {
      a.k.push_back(std::is_same<T, float>::value ? (double)(float)x : x);
      if (!(dup && r.chance(1, 6))) x += s * (double)(1 + r.below(1000)) / 1000;
    }
  } else {
    for (size_t i = 0; i < n; ++i) {
      double c;
      do c = (double)r.below(50); while (!(dup && r.chance(1, 4)) && std::count(a.k.begin(), a.k.end(), c));
      a.k.push_back(c);
    }
  }
  return a;
}
template <typename... K> struct Density {
  static void check(const Model& m, const std::tuple<std::vector<K>...>& k, const NdArray::NdArray<double>& grid, const std::vector<double>& v, Rng& r) {
    // the density the samplers are built on
    std::unique_ptr<MathUtils::InterpN<K...>> f;
    auto mk = [&] { f.reset(new MathUtils::InterpN<K...>(k, grid, false)); };
    if (refused(mk, "making an interpolation")) mk();
    for (int i = 0; i < 20; ++i) {
      std::vector<double> x;
      for (auto& a : m.axes)
        if (!a.cont) x.push_back(r.chance(4, 5) ? a.k[r.below(a.k.size())] : (double)r.below(60));
        else {
          double w = a.k.back() - a.k.front();
          x.push_back(r.chance(1, 3) ? a.k[r.below(a.k.size())] : a.k.front() + w * ((double)r.below(1400) / 1000 - 0.2));
        }
      double want = m.density(0, x), got = 0;
      bool   step = false;
      double low = want, high = want;
      if (m.axes.size() == 1 && std::count(m.axes[0].k.begin(), m.axes[0].k.end(), x[0]) > 1) {  // a discontinuity
        step = true;
        low = 1e300, high = 0;
        for (size_t j = 0; j < v.size(); ++j)
          if (m.axes[0].k[j] == x[0]) low = std::min(low, v[j]), high = std::max(high, v[j]);
      }
      if (refused([&] { got = call<K...>(*f, x, std::index_sequence_for<K...>{}); }, "interpolating")) continue;
      double most = *std::max_element(v.begin(), v.end());
      if (step ? !(got >= low - 1e-7 * most && got <= high + 1e-7 * most) : !(std::fabs(want - got) <= 1e-7 * most)) fail("wrong-density", "the density at axis values %.17g ... is %.17g, expected %.17g", x[0], got, want);
    }
  }
};
template <> struct Density<float> {  // there is no such interpolation
  static void check(const Model&, const std::tuple<std::vector<float>>&, const NdArray::NdArray<double>&, const std::vector<double>&, Rng&) {}
};
// a grid whose cells are lists: the first axis is inside of the cells
template <typename... K> struct InCells {
  static std::unique_ptr<NdSampler<K...>> make(const Model&, const std::vector<double>&) { return nullptr; }
};
template <typename K0, typename K1, typename... K> struct InCells<K0, K1, K...> {
  typedef NdSampler<K0, K1, K...> S;
  template <size_t... I> static std::unique_ptr<S> make_(const Model& m, const std::vector<double>& v, std::index_sequence<I...>) {
    GridContainer::GridContainer<std::vector<std::vector<double>>, K1, K...> g(GridContainer::GridAxis<K1>("first", knots<K1>(m.axes[1])), GridContainer::GridAxis<K>("axis" + std::to_string(I), knots<K>(m.axes[I + 2]))...);
    size_t i = 0, n = m.axes[0].k.size();
    for (auto& c : g) c.assign(v.begin() + i, v.begin() + i + n), i += n;
    return finish(g, knots<K0>(m.axes[0]), std::is_same<K0, size_t>());
  }
  template <typename G> static std::unique_ptr<S> finish(const G& g, const std::vector<K0>& k, std::false_type) { return MathUtils::createSamplerFromGrid(g, k); }
  template <typename G> static std::unique_ptr<S> finish(const G& g, const std::vector<K0>&, std::true_type) { return MathUtils::createSamplerFromGrid(g); }  // the knots are the positions in the list
  static std::unique_ptr<S> make(const Model& m, const std::vector<double>& v) { return make_(m, v, std::index_sequence_for<K...>{}); }
};
template <typename T> void positions(Axis&) {}
template <> void positions<size_t>(Axis& a) { std::iota(a.k.begin(), a.k.end(), 0.); }
template <typename... K> struct Case {
  typedef typename std::tuple_element<0, std::tuple<K...>>::type First;
  static constexpr size_t N = sizeof...(K);
  typedef std::index_sequence_for<K...> Seq;
  static std::unique_ptr<NdSampler<K...>> from_grid(const Model& m, const std::vector<double>& v) { return from_grid_(m, v, Seq{}); }
  template <size_t... I> static std::unique_ptr<NdSampler<K...>> from_grid_(const Model& m, const std::vector<double>& v, std::index_sequence<I...>) {
    GridContainer::GridContainer<std::vector<double>, K...> g(GridContainer::GridAxis<K>("axis" + std::to_string(I), knots<K>(m.axes[I]))...);
    size_t i = 0;
    for (auto& c : g) c = v[i++];
    return MathUtils::createSamplerFromGrid(g);
  }
  static void run(const Plan& p) {
    Rng   r((u64)p.get("data") * 7919 + 13);
    Model m;
    {
      std::vector<Axis> a{make_axis<K>(r, p, N == 1 && p.get("dup"))...};
      m.axes = a;
      positions<First>(m.axes[0]);
    }
    size_t total = 1;
    std::vector<size_t> shape;
    for (size_t i = N; i-- > 0;) total *= m.axes[i].k.size(), shape.push_back(m.axes[i].k.size());
    std::vector<double> v(total);
    static const double ps[] = {1, 1, 1e-12, 1e9};
    double scale = ps[r.below(4)];
    for (auto& x : v) x = r.chance((u64)p.get("zeros"), 100) ? 0 : scale * (r.chance(1, 3) ? 0.5 : (double)(1 + r.below(1000)) / 1000 * (r.chance(1, 8) ? 1e-6 : 1));
    m.init(v);
    auto k = all_knots<K...>(m, Seq{});
    NdArray::NdArray<double> grid(shape, v);
    std::unique_ptr<NdSampler<K...>> s;
    bool viaGrid = p.get("grid") && !p.get("dup");
    auto build = [&] {
      if (viaGrid && N > 1 && p.get("cells")) s = InCells<K...>::make(m, v);
      else if (viaGrid) s = from_grid(m, v);
      else s.reset(new NdSampler<K...>(std::move(std::tuple<std::vector<K>...>(k)), NdArray::NdArray<double>(grid)));
    };
    if (refused(build, "making a sampler")) build();
    // the source aims at the steps of the distribution of the last axis
    Source src(r, (int)p.get("odd"));
    {
      auto&  ax = m.axes[N - 1];
      auto&  q  = m.marg[N - 1];
      double c  = 0, t = 0;
      std::vector<double> cum;
      for (size_t i = 0; i < q.size(); ++i) {
        if (!ax.cont) c += q[i];
        else if (i) c += (ax.k[i] - ax.k[i - 1]) * (q[i] + q[i - 1]) / 2;
        cum.push_back(c);
      }
      t = c;
      if (t > 0)
        for (double x : cum) src.edges.push_back(x / t);
    }
    for (auto& o : p.ops) {
      size_t n = (size_t)o.v[1];
      src.given.clear();
      std::vector<std::tuple<K...>> out;
      sig((u64)o.kind() * 10 + n);
      if (o.kind() == 0) {
        bool no = refused([&] { out = s->draw(n, src); }, "a draw");
        event("draw %zu%s", n, no ? ": out of memory" : "");
        if (no) continue;
        if (out.size() != n) fail("wrong-count", "%zu samples were asked for, %zu drawn", n, out.size());
      } else if (o.kind() == 1) {
        out.resize(n);
        if (refused([&] { s->draw(n, src, out); }, "a draw into an output area")) continue;
        if (out.size() != n) fail("wrong-count", "the output area was resized to %zu", out.size());
      } else {
        out.resize(n + 1 + (size_t)o.v[2]);
        auto keep = out;
        bool no = false;
        try {
          s->draw(n, src, out);
        } catch (const Elements::Exception&) { no = true; }
        if (!no || out != keep) fail("wrong-area", "an output area of %zu for %zu draws is accepted or changed", out.size(), n);
        continue;
      }
      std::vector<std::vector<double>> rows;
      for (auto& t : out) rows.push_back(row(t));
      explain(m, rows, src.given);
      for (auto& x : rows)
        for (double y : x) event("%.17g", y);
    }
    Density<K...>::check(m, k, grid, v, r);
  }
};
void bad_sizes(const Plan& p) {
  size_t n = 1 + (size_t)p.get("data") % 6, q = (size_t)p.get("data") / 7 % 8;
  if (n == q) ++q;
  std::vector<double> k(n);
  std::iota(k.begin(), k.end(), 0.);
  std::vector<long> d(n);
  NdArray::NdArray<double> grid(std::vector<size_t>{q});
  for (auto& x : grid) x = 1;
  for (int i = 0; i < 2; ++i) {
    bool no = false;
    try {
      if (i) NdSampler<double> s(k, grid);
      else NdSampler<long> s(d, grid);
    } catch (const Elements::Exception&) { no = true; }
    if (!no) fail("accepted", "a density of %zu values over %zu knots is accepted", q, n);
  }
}
void gen(Rng& r, Plan& p) {
  p.cfg["data"] = r.range(0, 100000000);
  p.cfg["types"] = r.range(0, 11);
  p.cfg["cells"] = r.range(0, 1);
  p.cfg["zeros"] = r.chance(1, 2) ? r.range(0, 60) : 0;
  p.cfg["odd"] = r.chance(1, 2) ? r.range(0, 100) : 10;
  p.cfg["grid"] = r.range(0, 1);
  p.cfg["dup"] = p.cfg["types"] < 4 && r.chance(1, 3);
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(1, 200);
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op((int)r.below(8) == 0 ? 2 : (int)r.below(2), (i64)r.range(0, 8), (i64)r.range(0, 3)));
}
void run(const Plan& p) {
  enable_faults(false);
  sig((u64)p.get("types"));
  switch (p.get("types")) {
    case 0: return Case<double>::run(p);
    case 1: return Case<float>::run(p);
    case 2: return Case<std::string>::run(p);
    case 3: return Case<int>::run(p);
    case 4: return Case<double, double>::run(p);
    case 5: return Case<double, int>::run(p);
    case 6: return Case<std::string, double>::run(p);
    case 7: return Case<double, double, double>::run(p);
    case 8: return Case<int, double, std::string>::run(p);
    case 9: return Case<double, std::string, double>::run(p);
    case 10: return Case<size_t, double, int>::run(p);
    default: return bad_sizes(p);
  }
}
Scenario s("sa_draw", "samples drawn from n-dimensional distributions", false, 1, gen, run);
}  // namespace
