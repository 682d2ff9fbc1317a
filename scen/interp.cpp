// Interpolation on grids of several axes (continuous and discrete), against a reference that takes one axis after the
// other, with failing allocations, copies that outlive the original, and arrays that change afterwards.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "MathUtils/interpolation/GridInterpolation.h"
#include "MathUtils/interpolation/interpolation.h"
#include <cmath>
#include <functional>

using namespace sim;
namespace MU = Euclid::MathUtils;
typedef Euclid::NdArray::NdArray<double> Arr;
typedef long double                      ld;

namespace {
struct Axis {
  bool                cont;
  std::vector<double> k;
};
struct Grid {
  std::vector<Axis>   ax;   // in the order of the arguments
  std::vector<double> v;    // the first axis changes fastest
  bool                more = false;
  ld at(const std::vector<double>& x, size_t a, size_t base, size_t stride, ld& scale) const {
    const Axis& A = ax[a];
    auto        in = [&](size_t i, ld& s) -> ld {
      if (a + 1 == ax.size()) {
        s = fabsl(v[base + i * stride]);
        return v[base + i * stride];
      }
      return at(x, a + 1, base + i * stride, stride * A.k.size(), s);
    };
    scale = 0;
    size_t n = A.k.size();
    if (!A.cont) {
      for (size_t i = 0; i < n; ++i)
        if (A.k[i] == x[a]) return in(i, scale);
      return 0;
    }
    if (!more && (x[a] < A.k.front() || x[a] > A.k.back())) return 0;
    if (n == 1) return in(0, scale);
    size_t i = 0;
    while (i + 2 < n && x[a] > A.k[i + 1]) ++i;
    ld s0, s1, y0 = in(i, s0), y1 = in(i + 1, s1), d = (ld)A.k[i + 1] - A.k[i];
    scale = (s0 + s1) * (1 + (fabsl(A.k[i]) + fabsl(x[a])) / d);
    return y0 + (y1 - y0) * (((ld)x[a] - A.k[i]) / d);
  }
};
std::string word(double d) { return "the knot with the number " + std::to_string((int)d); }
template <typename T> struct Conv {
  static T to(double d) { return (T)d; }
};
template <> struct Conv<std::string> {
  static std::string to(double d) { return word(d); }
};
template <typename T> std::vector<T> knots(const Axis& a) {
  std::vector<T> r;
  for (double d : a.k) r.push_back(Conv<T>::to(d));
  return r;
}
struct Any {
  virtual ~Any() {}
  virtual double call(const std::vector<double>& x) const = 0;
  virtual std::unique_ptr<Any> copy() const = 0;
};
template <typename... K> struct Nd : Any {
  typedef MU::InterpN<K...> F;
  std::unique_ptr<F>        f;
  template <size_t... I> static std::tuple<std::vector<K>...> tup(const Grid& g, std::index_sequence<I...>) { return std::tuple<std::vector<K>...>{knots<K>(g.ax[I])...}; }
  template <size_t... I> double go(const std::vector<double>& x, std::index_sequence<I...>) const { return (*f)(Conv<K>::to(x[I])...); }
  double                 call(const std::vector<double>& x) const override { return go(x, std::index_sequence_for<K...>{}); }
  std::unique_ptr<Any>   copy() const override {
    std::unique_ptr<Nd> n(new Nd);
    n->f.reset(new F(*f));
    return std::move(n);
  }
  static std::unique_ptr<Any> make(const Grid& g, const Arr& a) {
    std::unique_ptr<Nd> n(new Nd);
    n->f.reset(new F(tup(g, std::index_sequence_for<K...>{}), a, g.more));
    return std::move(n);
  }
};
template <size_t N> struct Ad : Any {
  std::unique_ptr<MU::NAryFunction<N>> f;
  template <size_t... I> double go(const std::vector<double>& x, std::index_sequence<I...>) const { return (*f)(x[N - I - 1]...); }
  double                 call(const std::vector<double>& x) const override { return go(x, std::make_index_sequence<N>{}); }
  std::unique_ptr<Any>   copy() const override {
    std::unique_ptr<Ad> n(new Ad);
    n->f = f->clone();
    return std::move(n);
  }
  static std::unique_ptr<Any> make(const Grid& g, const Arr& a) {
    std::unique_ptr<Ad> n(new Ad);
    MU::Coordinates<N>  c;
    for (size_t i = 0; i < N; ++i) c[i] = g.ax[N - i - 1].k;
    n->f = MU::interpn<N>(c, a, MU::InterpolationType::LINEAR, g.more);
    return std::move(n);
  }
};
typedef std::function<std::unique_ptr<Any>(const Grid&, const Arr&)> Maker;
struct Kind {
  const char* axes;  // c: continuous, i: integers, s: strings
  Maker       make;
};
const std::vector<Kind>& kinds() {
  static std::vector<Kind> k{{"c", Nd<double>::make},
                             {"i", Nd<int>::make},
                             {"cc", Nd<double, double>::make},
                             {"ci", Nd<double, int>::make},
                             {"sc", Nd<std::string, double>::make},
                             {"ccc", Nd<double, double, double>::make},
                             {"csc", Nd<double, std::string, double>::make},
                             {"icci", Nd<int, double, double, int>::make},
                             {"cc", Ad<2>::make},
                             {"ccc", Ad<3>::make}};
  return k;
}
// 0: fine, 1: no memory, 2: refused
template <typename F> int attempt(F f) {
  enable_faults(true);
  int rc = 0;
  try {
    f();
  } catch (const std::bad_alloc&) {
    rc = 1;
  } catch (const Elements::Exception&) {
    rc = 2;
  } catch (const std::exception&) {
    rc = 2;
  }
  enable_faults(false);
  return rc;
}
void ask(const Any& f, const Grid& g, Rng& r, const char* who) {
  for (int n = 0; n < 6; ++n) {
    std::vector<double> x;
    for (auto& A : g.ax) {
      double k = A.k[r.below(A.k.size())];
      if (!A.cont) x.push_back(r.chance(1, 6) ? 77 : k);
      else {
        double span = A.k.back() - A.k.front() + 1;
        switch (r.below(8)) {
          case 0: case 1: x.push_back(k); break;
          case 2: x.push_back(A.k.front()); break;
          case 3: x.push_back(A.k.back()); break;
          case 4: x.push_back(A.k.front() - span * (double)r.range(1, 16) / 16); break;
          case 5: x.push_back(A.k.back() + span * (double)r.range(1, 16) / 16); break;
          default: x.push_back(A.k.front() + (A.k.back() - A.k.front()) * (double)r.range(0, 64) / 64);
        }
      }
    }
    double v  = NAN;
    int    rc = attempt([&] { v = f.call(x); });
    if (rc == 1) continue;
    if (rc == 2) fail("refused", "%s: an interpolation at a valid point is refused", who);
    ld s, want = g.at(x, 0, 0, 1, s);
    if (!(fabsl(v - want) <= 1e-10L * s + 1e-300L)) {
      std::string t;
      for (double d : x) t += " " + std::to_string(d);
      fail("value", "%s: the interpolation at%s is %.17g and not %.17Lg", who, t.c_str(), v, want);
    }
    sig((u64)(v != 0));
  }
}
void run(const Plan& p) {
  enable_faults(false);
  struct Slot {
    std::unique_ptr<Any> f;
    Grid                 g;
  } w[3];
  for (auto& o : p.ops) {
    Rng   r((u64)o.v[2]);
    Slot& t = w[o.v[1] % 3];
    switch (o.kind()) {
      case 0: {  // build
        auto& k = kinds()[r.below(kinds().size())];
        Grid  g;
        g.more       = r.chance(1, 2);
        size_t total = 1, N = strlen(k.axes);
        for (const char* c = k.axes; *c; ++c) {
          Axis A;
          A.cont   = *c == 'c';
          size_t n = (size_t)r.range(1, 4);
          double at = (double)r.range(-8, 8) / 2;
          for (size_t i = 0; i < n; ++i) {
            A.k.push_back(at);
            at += A.cont ? (double)r.range(1, 12) / 4 : 1;
          }
          if (!A.cont) {  // in any order
            for (auto& d : A.k) d = std::floor(d);
            for (size_t i = n; i > 1; --i) std::swap(A.k[i - 1], A.k[r.below(i)]);
          }
          total *= n;
          g.ax.push_back(A);
        }
        for (size_t i = 0; i < total; ++i) g.v.push_back((double)r.range(-100, 100) / 4);
        std::vector<size_t> shape;
        for (size_t i = N; i-- > 0;) shape.push_back(g.ax[i].k.size());
        Grid bad  = g;
        int  what = r.chance(1, 5) ? (int)r.range(1, 4) : 0;
        if (what == 1) {  // an axis in disorder
          size_t a = r.below(N);
          if (bad.ax[a].cont && bad.ax[a].k.size() > 1) std::swap(bad.ax[a].k.front(), bad.ax[a].k.back());
          else what = 0;
        } else if (what == 2) {
          bad.ax[r.below(N)].k.push_back(1000);
        } else if (what == 3) {
          shape.insert(shape.begin() + r.below(N + 1), 1);
        } else if (what == 4) {
          size_t a = r.below(N);
          if (bad.ax[a].k.size() > 1) bad.ax[a].k.pop_back();
          else what = 0;
        }
        // the array: of its own, or part of a bigger one
        std::unique_ptr<Arr>  a;
        std::unique_ptr<Any>  f;
        if (r.chance(1, 3)) {
          auto big_shape = shape;
          big_shape.insert(big_shape.begin(), 3);
          std::vector<double> d;
          size_t              q = r.below(3);
          for (size_t i = 0; i < 3; ++i)
            for (size_t j = 0; j < total; ++j) d.push_back(i == q ? g.v[j] : 1e9);
          Arr big(big_shape, d);
          a.reset(new Arr(big.slice(q)));
        } else if (r.chance(1, 3)) {
          auto big_shape = shape;
          big_shape.push_back(3);
          std::vector<double> d;
          size_t              q = r.below(3);
          for (size_t j = 0; j < total; ++j)
            for (size_t i = 0; i < 3; ++i) d.push_back(i == q ? g.v[j] : 1e9);
          Arr big(big_shape, d);
          a.reset(new Arr(big.rslice(q)));
        } else {
          a.reset(new Arr(shape, g.v));
        }
        int rc = attempt([&] { f = k.make(what ? bad : g, *a); });
        if (rc == 1) break;
        if (what) {
          if (rc == 0) fail("accepted", "an interpolation of %zu axes is built from %s", N, what == 1 ? "knots in disorder" : "values and knots that do not match");
          probe("refused");
          break;
        }
        if (rc) fail("refused", "a valid grid of %zu axes is refused", N);
        if (r.chance(1, 2))
          for (auto& x : *a) x = -1e9;  // the interpolation has values of its own
        a.reset();
        t.f = std::move(f), t.g = g;
        ask(*t.f, t.g, r, "new");
        break;
      }
      case 1: {  // copy
        Slot& s = w[r.below(3)];
        if (!s.f) break;
        std::unique_ptr<Any> f;
        int                  rc = attempt([&] { f = s.f->copy(); });
        if (rc == 2) fail("refused", "a copy is refused");
        if (rc) break;
        Grid g = s.g;
        if (r.chance(1, 2)) s.f.reset();
        t.f = std::move(f), t.g = g;
        ask(*t.f, t.g, r, "copy");
        break;
      }
      case 3: {  // an axis without knots: nothing to interpolate
        auto&               k = kinds()[r.below(kinds().size())];
        size_t              N = strlen(k.axes), e = r.below(N);
        Grid                g;
        std::vector<double> x;
        g.more = r.chance(1, 2);
        for (size_t i = 0; i < N; ++i) {
          g.ax.push_back(Axis{k.axes[i] == 'c', i == e ? std::vector<double>{} : std::vector<double>{1, 2}});
          x.push_back((double)r.range(0, 3));
        }
        std::vector<size_t> shape;
        for (size_t i = N; i-- > 0;) shape.push_back(g.ax[i].k.size());
        Arr                  a(shape, std::vector<double>{});
        std::unique_ptr<Any> f;
        double               v = 0;
        if (attempt([&] { f = k.make(g, a); }) == 0) attempt([&] { v = f->call(x); });
        if (v != 0) fail("value", "the interpolation without knots is %g", v);
        break;
      }
      default:
        if (t.f) ask(*t.f, t.g, r, "later");
    }
  }
}
void gen(Rng& r, Plan& p) {
  if (r.chance(1, 3)) p.cfg["f_alloc"] = r.range(2, 150);
  int n = (int)r.range(1, 10);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(i == 0 ? 0 : (int)(r.chance(1, 12) ? 3 : r.below(3)), (i64)r.below(3), (i64)r.range(0, 100000000)));
}
Scenario s("fn_grid", "interpolation on grids of several axes, with failing allocations", false, 1, gen, run);
}  // namespace
