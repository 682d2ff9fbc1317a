// Functions of one variable: built from each other, multiplied, cloned, differentiated, integrated, with failing
// allocations and user functions and integration schemes that throw.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/interpolation/interpolation.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "XYDataset/XYDataset.h"
#include <cmath>
#include <set>

using namespace sim;
namespace MU = Euclid::MathUtils;
typedef std::unique_ptr<MU::Function> FP;
typedef long double ld;

namespace {
struct UserError : std::runtime_error {
  UserError() : std::runtime_error("user") {}
};
long g_throw = -1;  // calls of user code until one throws
long g_calls = 0;
void user_call() {
  ++g_calls;
  if (g_throw >= 0 && g_throw-- == 0) {
    count_fault("user_throw");
    throw UserError();
  }
}
struct Line {  // the functor of the user
  double                  a, b;
  std::shared_ptr<double> own;  // too big to be stored in place
  Line(double a_, double b_) : a(a_), b(b_), own(std::make_shared<double>(b_)) {}
  Line(const Line& o) : a(o.a), b(o.b), own(o.own) { user_call(); }
  double operator()(double x) const {
    user_call();
    return a + *own * x;
  }
};

struct M;
typedef std::shared_ptr<const M> MP;
struct M {
  enum Kind { POLY, PIECE, USER, PROD } kind = POLY;
  std::vector<double> c;
  ld                  slack = 0;
  std::vector<double> k;
  std::vector<MP>     ch;
  int                 deg() const {
    int d = (int)c.size() - 1;
    if (kind == POLY || kind == USER) return std::max(d, 0);
    if (kind == PROD) return ch[0]->deg() + ch[1]->deg();
    d = 0;
    for (auto& x : ch) d = std::max(d, x->deg());
    return d;
  }
  int parts() const {
    int n = 1;
    for (auto& x : ch) n += x->parts();
    return n;
  }
  bool user() const {
    if (kind == USER) return true;
    for (auto& x : ch)
      if (x->user()) return true;
    return false;
  }
  void knots(std::set<double>& s) const {
    s.insert(k.begin(), k.end());
    for (auto& x : ch) x->knots(s);
  }
  // value at a point that is no knot; scale: the size of the terms it is the sum of
  ld at(ld x, ld& scale) const {
    switch (kind) {
      case POLY:
      case USER: {
        ld v = 0, p = 1;
        scale = slack;
        for (double q : c) v += q * p, scale += fabsl(q * p), p *= x;
        return v;
      }
      case PROD: {
        ld s1, s2, a = ch[0]->at(x, s1), b = ch[1]->at(x, s2);
        scale = s1 * s2;
        return a * b;
      }
      default:
        for (size_t i = 0; i + 1 < k.size(); ++i)
          if (x > k[i] && x < k[i + 1]) return ch[i]->at(x, scale);
        scale = 0;
        return 0;
    }
  }
  ld at(ld x) const {
    ld s;
    return at(x, s);
  }
  // value on a knot, the pieces being closed
  void closed(double x, std::vector<ld>& out) const {
    ld s;
    if (kind == POLY || kind == USER) return out.push_back(at(x, s));
    if (kind == PROD) {
      std::vector<ld> a, b;
      ch[0]->closed(x, a), ch[1]->closed(x, b);
      for (ld p : a)
        for (ld q : b) out.push_back(p * q);
      return;
    }
    out.push_back(0);
    for (size_t i = 0; i + 1 < k.size(); ++i)
      if (x >= k[i] && x <= k[i + 1]) ch[i]->closed(x, out);
  }
};
MP poly(std::vector<double> c, ld slack = 0) {
  auto m = std::make_shared<M>();
  m->c   = std::move(c);
  m->slack = slack;
  return m;
}
MP piece(std::vector<double> k, std::vector<MP> ch) {
  auto m  = std::make_shared<M>();
  m->kind = M::PIECE;
  m->k = std::move(k), m->ch = std::move(ch);
  return m;
}
MP prod(MP a, MP b) {
  auto m  = std::make_shared<M>();
  m->kind = M::PROD;
  m->ch   = {a, b};
  return m;
}
// nodes and weights of the Gauss-Legendre rule of 20 points: exact up to degree 39
struct Rule {
  static const int N = 20;
  ld               x[N], w[N];
  Rule() {
    for (int i = 0; i < N; ++i) {
      ld z = cosl(3.14159265358979323846264338327950288L * (i + 0.75L) / (N + 0.5L)), pp = 1;
      for (int it = 0; it < 100; ++it) {
        ld p1 = 1, p2 = 0;
        for (int j = 0; j < N; ++j) {
          ld p3 = p2;
          p2 = p1;
          p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1);
        }
        pp   = N * (z * p1 - p2) / (z * z - 1);
        ld d = p1 / pp;
        z -= d;
        if (fabsl(d) < 1e-19L) break;
      }
      x[i] = z, w[i] = 2 / ((1 - z * z) * pp * pp);
    }
  }
};
const Rule& rule() {
  static Rule r;
  return r;
}
ld integral(const M& m, double a, double b, ld& scale) {
  std::set<double> s;
  m.knots(s);
  ld dir = 1, sum = 0;
  scale = 0;
  if (a > b) std::swap(a, b), dir = -1;
  std::vector<double> e{a};
  for (double q : s)
    if (q > a && q < b) e.push_back(q);
  e.push_back(b);
  for (size_t i = 0; i + 1 < e.size(); ++i) {
    ld h = ((ld)e[i + 1] - e[i]) / 2, c = ((ld)e[i + 1] + e[i]) / 2, big = 0;
    if (h <= 0) continue;
    for (int j = 0; j < Rule::N; ++j) {
      ld sc;
      sum += m.at(c + h * rule().x[j], sc) * h * rule().w[j];
      big = std::max(big, sc);
    }
    scale += big * (fabsl(c) + h) * 4;
  }
  return dir * sum;
}

struct GL : MU::NumericalIntegrationScheme {  // the scheme of the user
  std::vector<std::array<double, 2>>* calls;
  int                                 order;
  GL(std::vector<std::array<double, 2>>* c, int o) : calls(c), order(o) {}
  double operator()(const MU::Function& f, double a, double b) override {
    {
      Quiet q;
      calls->push_back({{a, b}});
    }
    user_call();
    if (order) return MU::SimpsonsRule{}(f, a, b, order);
    double s = 0;
    for (int j = 0; j < Rule::N; ++j) s += f((a + b) / 2 + (b - a) / 2 * (double)rule().x[j]) * (double)rule().w[j];
    return s * (b - a) / 2;
  }
};

double num(Rng& r) { return r.chance(1, 6) ? 0 : (double)r.range(-32, 32) / 8; }
std::vector<double> nums(Rng& r, size_t n) {
  std::vector<double> v;
  for (size_t i = 0; i < n; ++i) v.push_back(num(r));
  return v;
}
std::vector<double> knots(Rng& r, size_t n) {
  std::vector<double> v;
  double              x = (double)r.range(-32, 8) / 8;
  for (size_t i = 0; i < n; ++i) v.push_back(x), x += (double)r.range(1, 16) / 8;
  return v;
}
// model of the interpolation: its pieces as polynomials
MP lines(const std::vector<double>& x, const std::vector<double>& y) {
  std::vector<MP> ch;
  ld              big = 0;
  for (double v : y) big = std::max(big, (ld)fabs(v));
  for (size_t i = 0; i + 1 < x.size(); ++i) {
    double b = x[i + 1] == x[i] ? 0 : (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
    ch.push_back(poly({y[i] - b * x[i], b}, big));
  }
  return piece(x, ch);
}
MP spline(const std::vector<double>& x, const std::vector<double>& y) {
  int n = (int)x.size() - 1;
  std::vector<ld> A(n + 1, 0), s(n + 1, 0), up(n + 1, 0);  // second derivatives, natural ends
  for (int i = 1; i < n; ++i) {
    ld h0 = (ld)x[i] - x[i - 1], h1 = (ld)x[i + 1] - x[i];
    ld rhs = 6 * (((ld)y[i + 1] - y[i]) / h1 - ((ld)y[i] - y[i - 1]) / h0), dia = 2 * (h0 + h1);
    ld w = dia - h0 * up[i - 1];
    up[i] = h1 / w;
    A[i]  = (rhs - h0 * A[i - 1]) / w;
  }
  for (int i = n - 1; i > 0; --i) s[i] = A[i] - up[i] * s[i + 1];
  ld big = 0;
  for (double v : y) big = std::max(big, (ld)fabs(v));
  std::vector<MP> ch;
  for (int i = 0; i < n; ++i) {
    ld h = (ld)x[i + 1] - x[i], a = y[i], b = ((ld)y[i + 1] - y[i]) / h - h * (2 * s[i] + s[i + 1]) / 6, c = s[i] / 2, d = (s[i + 1] - s[i]) / (6 * h), t = -x[i];
    ch.push_back(poly({(double)(a + t * (b + t * (c + t * d))), (double)(b + t * (2 * c + 3 * d * t)), (double)(c + 3 * d * t), (double)d}, big * 64));
  }
  return piece(x, ch);
}

struct World {
  static const int N = 5;
  FP               f[N];
  MP               m[N];
  // 0 fine, 1 refused, 2 out of memory, 3 the user's code threw
  template <typename F> int attempt(F op) {
    int r = 0;
    u64 a = faults_fired("alloc"), u = faults_fired("user_throw");
    enable_faults(true);
    try {
      op();
    } catch (const std::bad_alloc&) {
      r = 2;
    } catch (const UserError&) {
      r = 3;
    } catch (const Elements::Exception&) {
      r = 1;
    } catch (...) {
      enable_faults(false);
      throw;
    }
    enable_faults(false);
    g_throw = -1;
    if (r == 2 && faults_fired("alloc") == a) fail("harness-exception", "out of memory without cause");
    if (r == 3 && faults_fired("user_throw") == u) fail("harness-exception", "user exception without cause");
    return r;
  }
  void set(int i, FP p, MP q) { f[i] = std::move(p), m[i] = std::move(q); }
  void value(const MU::Function& fn, const M& mod, double x, const char* what) {
    std::set<double> ks;
    mod.knots(ks);
    double v = fn(x);
    ld     s = 0, e = 0;
    bool   ok = false;
    if (ks.count(x)) {
      std::vector<ld> c;
      mod.closed(x, c);
      ld s1, s2, l = mod.at((ld)x - 1e-12L, s1), r = mod.at((ld)x + 1e-12L, s2);
      c.push_back(l), c.push_back(r);
      // a point at which neighbours both are zero is zero unless both factors are there
      s = std::max(s1, s2) + 1;
      for (ld q : c) s = std::max(s, fabsl(q));
      for (ld q : c)
        if (fabsl(v - q) <= 1e-9L * s) ok = true;
      e = c[0];
    } else {
      e  = mod.at(x, s);
      ok = s == 0 ? v == 0 : fabsl(v - e) <= 1e-11L * s;
    }
    if (!ok) fail("value", "%s: the value at %.17g is %.17g and not %.17g", what, x, v, (double)e);
    event("%s f(%.17g) = %.17g", what, x, v);
  }
  void probe_all(int i, Rng& r, const char* what) {
    std::set<double> ks;
    m[i]->knots(ks);
    ks.erase(std::numeric_limits<double>::lowest());
    ks.erase(std::numeric_limits<double>::max());
    for (int j = 0; j < 4; ++j) value(*f[i], *m[i], (double)r.range(-1000, 1000) / 128 + 1 / 512., what);
    if (!ks.empty()) {
      auto it = ks.begin();
      std::advance(it, r.below(ks.size()));
      value(*f[i], *m[i], *it, what);
      value(*f[i], *m[i], *it + (r.chance(1, 2) ? 1 : -1) / 1024., what);
    }
  }
};

FP user(double a, double b) { return FP(new MU::FunctionAdapter(Line(a, b))); }
MP user_model(double a, double b) {
  auto q  = std::make_shared<M>();
  q->kind = M::USER, q->c = {a, b};
  return q;
}

void run(const Plan& p) {
  enable_faults(false);
  World w;
  g_throw = -1, g_calls = 0;
  const bool harm = p.get("throws") != 0;
  int        n    = 0;
  for (auto& op : p.ops) {
    ++n;
    Rng r((u64)op.v[2] * 1000003 + (u64)p.get("data"));
    int t = (int)(op.v[1] % World::N), a = (int)r.below(World::N), b = (int)r.below(World::N);
    sig(op.kind());
    auto arm = [&] {
      if (harm && r.chance(1, 3)) g_throw = r.below(12);
    };
    auto must = [&](int rc, const char* what) {  // what can not be refused
      if (rc == 1) fail("refused", "%s is refused", what);
      sig(rc);
      return rc == 0;
    };
    switch (op.kind()) {
      case 0: {  // a polynomial
        auto c = nums(r, r.below(5));
        FP   g;
        if (must(w.attempt([&] { g.reset(new MU::Polynomial(c)); }), "a polynomial")) w.set(t, std::move(g), poly(c));
        break;
      }
      case 1: {  // the user's
        double x = num(r), y = num(r);
        FP     g;
        arm();
        if (must(w.attempt([&] { g = user(x, y); }), "a function of the user")) w.set(t, std::move(g), user_model(x, y));
        break;
      }
      case 2: {  // pieces, of what there is and of new ones
        size_t                                     q = 1 + r.below(5);
        auto                                       k = knots(r, q);
        std::vector<std::shared_ptr<MU::Function>> sh;
        std::vector<FP>                            un;
        std::vector<MP>                            ch;
        bool                                       shared = r.chance(1, 2);
        int                                        parts  = 0;
        for (size_t i = 0; i + 1 < q; ++i) {
          int s = (int)r.below(World::N);
          FP  g;
          if (r.chance(1, 2) && w.f[s] && w.m[s]->parts() < 12) {
            g = w.f[s]->clone();
            ch.push_back(w.m[s]);
          } else if (r.chance(1, 4)) {
            double x = num(r), y = num(r);
            g = user(x, y);
            ch.push_back(user_model(x, y));
          } else {
            auto c = nums(r, r.below(4));
            g.reset(new MU::Polynomial(c));
            ch.push_back(poly(c));
          }
          parts += ch.back()->parts();
          if (shared) sh.push_back(std::move(g));
          else un.push_back(std::move(g));
        }
        if (parts > 40) break;
        if (r.chance(1, 8) && q > 2) k[1] = k[0];  // a piece without length
        FP  g;
        int bad = r.chance(1, 5) ? 1 + (int)r.below(3) : 0;
        auto kk = k;
        if (bad == 1) kk.push_back(k.back() + 1);
        if (bad == 2) kk.pop_back();
        if (bad == 3) {
          if (q < 2) bad = 0;
          else std::swap(kk[q - 1], kk[q - 2]), bad = kk[q - 1] != kk[q - 2] ? 3 : 0;
        }
        arm();
        int rc = w.attempt([&] {
          if (shared) g.reset(new MU::Piecewise(kk, sh));
          else g.reset(new MU::Piecewise(kk, std::move(un)));
        });
        if (bad) {
          if (rc == 0) fail("accepted", "a piecewise function of %zu knots and %zu functions, or with knots in disorder (%d), is accepted", kk.size(), q - 1, bad);
          break;
        }
        if (must(rc, "a piecewise function")) w.set(t, std::move(g), piece(k, ch));
        break;
      }
      case 3: {  // an interpolation
        size_t q = 1 + r.below(7);
        auto   x = knots(r, q);
        auto   y = nums(r, q);
        bool   cubic = r.chance(1, 2), more = r.chance(1, 2), step = false;
        if (r.chance(1, 3) && q > 1) {  // a pair that is there twice, or a step
          size_t i = 1 + r.below(q - 1);
          x[i]     = x[i - 1];
          if (r.chance(1, 2) || i == 1 || i == q - 1) y[i] = y[i - 1];
          else step = y[i] != y[i - 1];
        }
        int bad = r.chance(1, 6) ? 1 + (int)r.below(4) : 0;
        auto xx = x, yy = y;
        if (bad == 1) xx.pop_back();
        if (bad == 2) yy.pop_back();
        if (bad == 3) xx.clear(), yy.clear();
        if (bad == 4) {
          if (q < 2 || x[q - 1] == x[q - 2]) bad = 0;
          else std::swap(xx[q - 1], xx[q - 2]);
        }
        auto type = cubic ? MU::InterpolationType::CUBIC_SPLINE : MU::InterpolationType::LINEAR;
        FP   g;
        bool ds = xx.size() == yy.size() && r.chance(1, 3);
        int  rc = w.attempt([&] {
          if (ds) g = MU::interpolate(Euclid::XYDataset::XYDataset::factory(xx, yy), type, more);
          else g = MU::interpolate(xx, yy, type, more);
        });
        if (bad || (step && cubic)) {
          if (rc == 0) fail("accepted", "an interpolation of %zu x and %zu y values is accepted%s", xx.size(), yy.size(), step ? " with a step" : bad == 4 ? " in disorder" : "");
          if (step && cubic && rc == 1) event("step refused");
          break;
        }
        if (!must(rc, "an interpolation")) break;
        for (size_t i = 0; i + 1 < x.size();)
          if (x[i] == x[i + 1] && y[i] == y[i + 1]) x.erase(x.begin() + i), y.erase(y.begin() + i);
          else ++i;
        MP mod;
        if (x.size() == 1) {
          if (more) mod = user_model(y[0], 0);
          else mod = piece(x, {});
        } else {
          mod = cubic ? spline(x, y) : lines(x, y);
          for (size_t i = 0; i < x.size(); ++i)  // it goes through its points
            if ((i == 0 || x[i] != x[i - 1]) && fabs((*g)(x[i]) - y[i]) > 1e-9 * (1 + fabs(y[i])) * (cubic ? 64 : 1)) fail("value", "the interpolation at its knot %g is %.17g and not %g", x[i], (*g)(x[i]), y[i]);
          if (more) {
            auto k = mod->k;
            k.front() = std::numeric_limits<double>::lowest(), k.back() = std::numeric_limits<double>::max();
            mod = piece(k, mod->ch);
          }
        }
        w.set(t, std::move(g), mod);
        break;
      }
      case 4: {  // a product
        if (!w.f[a] || !w.f[b] || w.m[a]->deg() + w.m[b]->deg() > 14 || w.m[a]->parts() + w.m[b]->parts() > 60) break;
        FP g;
        arm();
        if (must(w.attempt([&] { g = MU::multiply(*w.f[a], *w.f[b]); }), "a product")) w.set(t, std::move(g), prod(w.m[a], w.m[b]));
        break;
      }
      case 5: {  // a copy, which does not need the original
        if (!w.f[a]) break;
        FP g;
        arm();
        if (!must(w.attempt([&] { g = w.f[a]->clone(); }), "a copy")) break;
        MP mod = w.m[a];
        if (r.chance(1, 2)) w.set(a, nullptr, nullptr);
        w.set(t, std::move(g), mod);
        break;
      }
      case 6: {  // an integral
        if (!w.f[a]) break;
        double x1 = (double)r.range(-64, 64) / 8, x2 = r.chance(1, 8) ? x1 : (double)r.range(-64, 64) / 8;
        std::set<double> ks;
        w.m[a]->knots(ks);
        if (r.chance(1, 2) && !ks.empty()) {
          auto it = ks.begin();
          std::advance(it, r.below(ks.size()));
          if (fabs(*it) < 100) (r.chance(1, 2) ? x1 : x2) = *it;
        }
        bool with = r.chance(1, 2);
        std::vector<std::array<double, 2>> calls;
        double v = 0;
        int simpson = w.m[a]->deg() <= 2 && r.chance(1, 2) ? (int)r.range(3, 6) : 0;
        std::unique_ptr<GL> scheme(with ? new GL(&calls, simpson) : nullptr);
        arm();
        int rc = w.attempt([&] { v = MU::integrate(*w.f[a], x1, x2, std::move(scheme)); });
        sig(rc);
        bool can = dynamic_cast<const MU::Integrable*>(w.f[a].get()) != nullptr;
        if (!can && !w.m[a]->user()) fail("not-integrable", "a function of polynomials can not be integrated");
        if (rc == 0) {
          ld s, e = integral(*w.m[a], x1, x2, s);
          if (!(fabsl(v - e) <= 1e-10L * s + 1e-13L)) fail("integral", "the integral from %g to %g is %.17g and not %.17g (scale %g)", x1, x2, v, (double)e, (double)s);
          if (!can && !with) fail("accepted", "a function is integrated without a way to do so");
          if (!can && (calls.size() != 1 || calls[0][0] != x1 || calls[0][1] != x2)) fail("scheme", "the integration scheme is called %zu times", calls.size());
          event("integral %.17g", v);
        }
        if (rc == 1 && (!w.m[a]->user() || (!can && with))) fail("refused", "the integral of a function is refused");
        if (can && !calls.empty()) fail("scheme", "the integration scheme is used for a function that can be integrated");
        break;
      }
      case 7: {  // derivative and antiderivative
        if (!w.f[a]) break;
        auto d = dynamic_cast<const MU::Differentiable*>(w.f[a].get());
        if (!d) break;
        auto pp = dynamic_cast<const MU::Polynomial*>(w.f[a].get());
        if (w.m[a]->kind != M::POLY || !pp) break;
        auto                          c  = w.m[a]->c;
        bool                          up = r.chance(1, 2);
        std::shared_ptr<MU::Function> g, again;
        if (!must(w.attempt([&] { g = up ? d->indefiniteIntegral() : d->derivative(); }), "a derivative")) break;
        if (w.m[a]->slack > 0) break;
        std::vector<double> e;
        if (up) {
          e.push_back(0);
          for (size_t i = 0; i < c.size(); ++i) e.push_back(c[i] / (i + 1));
        } else
          for (size_t i = 1; i < c.size(); ++i) e.push_back(c[i] * i);
        again = up ? d->indefiniteIntegral() : d->derivative();
        MP mod = poly(e);
        for (int j = 0; j < 3; ++j) {
          double x = (double)r.range(-1000, 1000) / 128;
          w.value(*g, *mod, x, up ? "antiderivative" : "derivative");
          w.value(*again, *mod, x, "again");
        }
        if (e.size() <= 6) w.set(t, g->clone(), mod);
        break;
      }
      case 8: {  // Simpson's rule, refined step by step, is the rule
        if (!w.f[a] || w.m[a]->deg() > 2 || !w.m[a]->ch.empty()) break;
        double x1 = (double)r.range(-64, 64) / 8, x2 = (double)r.range(-64, 64) / 8;
        int    o  = (int)r.range(3, 6);
        MU::SimpsonsRule q;
        double           u = 0, v = 0;
        arm();
        int rc = w.attempt([&] {
          u = q(*w.f[a], x1, x2, o);
          v = q(*w.f[a], x1, x2, u, o + 1);
        });
        try {
          r.chance(1, 2) ? q(*w.f[a], x1, x2, (int)r.range(0, 2)) : q(*w.f[a], x1, x2, u, 3);
          fail("accepted", "Simpson's rule of too low an order is accepted");
        } catch (const Elements::Exception&) {}
        if (!must(rc, "Simpson's rule")) break;
        ld s, e = integral(*w.m[a], x1, x2, s);
        if (!(fabsl(u - e) <= 1e-10L * s + 1e-13L) || !(fabsl(v - e) <= 1e-10L * s + 1e-13L)) fail("simpson", "the integral from %g to %g is %.17g, %.17g and not %.17g", x1, x2, u, v, (double)e);
        break;
      }
      case 10: {  // interpolation without a function
        size_t q = 1 + r.below(6);
        auto   x = knots(r, q), y = nums(r, q);
        bool   more = r.chance(1, 2);
        if (r.chance(1, 3) && q > 3) x[2] = x[1];
        double at = r.chance(1, 3) ? x[r.below(q)] : (double)r.range(-64, 64) / 8, v = 0;
        int    bad = r.chance(1, 6) ? 1 + (int)r.below(3) : 0;
        auto   xx = x, yy = y;
        if (bad == 1) xx.clear();
        if (bad == 2) yy.pop_back();
        if (bad == 3) yy.push_back(1);
        int rc = w.attempt([&] { v = MU::simple_interpolation(at, xx, yy, more); });
        if (bad) {
          if (rc == 0) fail("accepted", "an interpolation of %zu x and %zu y values is accepted", xx.size(), yy.size());
          break;
        }
        if (!must(rc, "an interpolation")) break;
        double lo = INFINITY, hi = -INFINITY;
        for (size_t i = 0; i < q; ++i)
          if (x[i] == at) lo = std::min(lo, y[i]), hi = std::max(hi, y[i]);
        if (lo > hi) {
          if (q == 1) lo = hi = more ? y[0] : 0;
          else if (more && at < x[0]) lo = hi = y[0] + (y[1] - y[0]) / (x[1] - x[0]) * (at - x[0]);
          else if (more && at > x[q - 1]) lo = hi = y[q - 1] + (y[q - 1] - y[q - 2]) / (x[q - 1] - x[q - 2]) * (at - x[q - 1]);
          else lo = hi = (double)lines(x, y)->at(at);
        }
        if (!(v >= lo - 1e-9 * (1 + fabs(lo))) || !(v <= hi + 1e-9 * (1 + fabs(hi)))) fail("value", "the interpolation at %g is %.17g and not %.17g", at, v, lo);
        break;
      }
      default: w.set(t, nullptr, nullptr);
    }
    for (int i = 0; i < World::N; ++i)
      if (w.f[i] && r.chance(1, 2)) w.probe_all(i, r, ("slot " + std::to_string(i)).c_str());
  }
  Rng r((u64)p.get("data"));
  for (int i = 0; i < World::N; ++i)
    if (w.f[i]) w.probe_all(i, r, "end");
}
void gen(Rng& r, Plan& p) {
  p.cfg["data"]   = r.range(0, 100000000);
  p.cfg["throws"] = r.range(0, 1);
  if (r.chance(1, 3)) p.cfg["f_alloc"] = r.range(2, 150);
  int n = (int)r.range(3, 24);
  for (int i = 0; i < n; ++i) {
    static const int kinds[] = {0, 0, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 4, 5, 6, 6, 6, 7, 8, 9, 10};
    p.ops.push_back(Op(kinds[i < 2 ? r.below(9) : r.below(21)], (i64)r.below(World::N), (i64)r.range(0, 100000000)));
  }
}
Scenario s("fn_hist", "functions built from each other, with failing allocations and user code", false, 1, gen, run);
}  // namespace
