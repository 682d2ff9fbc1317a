// Self-organising maps: training under injected randomness and failing allocations, projection, U-matrix.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "SOM/SOM.h"
#include "SOM/SOMProjector.h"
#include "SOM/SOMTrainer.h"
#include "SOM/UMatrix.h"
#include <cmath>
#include <list>
#include <set>

using namespace sim;
namespace SO = Euclid::SOM;

namespace {
const int ND = 3;
typedef SO::SOM<ND>            Som;
typedef std::array<double, ND> W;
struct Item {
  int id;
  W   w, u;
};
typedef std::vector<Item>::iterator It;
typedef std::list<Item>::iterator   LIt;

// passes everything on to the real policy and notes which elements it gave
template <typename I> struct Noting : SO::SamplingPolicy::Interface<I> {
  const SO::SamplingPolicy::Interface<I>&  real;
  std::vector<std::vector<int>>&           got;
  mutable I                                end;
  size_t                                   limit;
  Noting(const SO::SamplingPolicy::Interface<I>& r, std::vector<std::vector<int>>& g, size_t l) : real(r), got(g), limit(l) {}
  I note(I i) const {
    Quiet q;
    if (i != end) {
      got.back().push_back(i->id);
      if (got.back().size() > limit) fail("endless", "a sample has more than %zu elements", limit);
    }
    return i;
  }
  I start(I b, I e) const override {
    {
      Quiet q;
      got.emplace_back();
      end = e;
    }
    return note(real.start(b, e));
  }
  I next(I i) const override { return note(real.next(i)); }
};
bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-12; }

struct Model {
  size_t                      X, Y;
  std::vector<W>              c;
  std::pair<size_t, size_t>   bmu(const W& in, const W* unc, bool& tie, double* dist = nullptr) const {
    double best = 1e300, second = 1e300;
    size_t b = 0;
    for (size_t i = 0; i < c.size(); ++i) {
      double d = 0;
      for (int k = 0; k < ND; ++k) {
        double x = c[i][k] - in[k];
        d += unc ? x * x / ((*unc)[k] * (*unc)[k]) : x * x;
      }
      d = std::sqrt(d);
      if (d < best) second = best, best = d, b = i;
      else if (d < second) second = d;
    }
    tie = near(best, second);
    if (dist) *dist = best;
    return {b % X, b / X};
  }
};
enum { FULL, BOOT, JACK };

struct CallbackFailed {};
template <typename Cont> struct Run {
  typedef typename Cont::iterator I;
  static void go(const Plan& p) {
    Rng    r((u64)p.get("data") * 7 + 3);
    size_t X = (size_t)p.get("x"), Y = (size_t)p.get("y"), n = (size_t)p.get("n"), iters = (size_t)p.get("iters"), k = (size_t)p.get("k");
    Cont   in;
    for (size_t i = 0; i < n; ++i) {
      Item it;
      it.id = (int)i;
      for (int d = 0; d < ND; ++d) it.w[d] = (double)r.range(-1000, 1000) / 64, it.u[d] = (double)r.range(1, 100) / 16;
      in.push_back(it);
    }
    Cont other;  // another training set, for the same trainer and policy
    for (int i = (int)p.get("n2"); i-- > 0;) {
      Item it;
      it.id = (int)other.size();
      for (int d = 0; d < ND; ++d) it.w[d] = (double)r.range(-1000, 1000) / 64, it.u[d] = (double)r.range(1, 100) / 16;
      other.push_back(it);
    }
    Cont & first = in;
    size_t iters0 = iters;
    double lo = (double)r.range(-20, 0), hi = lo + (double)r.range(1, 20);
    int    init = (int)p.get("init");
    Som    som(X, Y, init == 0 ? SO::InitFunc::uniformRandom(lo, hi) : SO::InitFunc::normalDistribution(hi - lo, lo));
    Model  m{X, Y, {}};
    for (auto& c : som) {
      m.c.push_back(c);
      for (double d : c)
        if (init == 0 && !(d >= lo && d <= hi)) fail("init-range", "a weight drawn from [%g, %g] is %g", lo, hi, d);
    }
    if (som.getSize() != std::make_pair(X, Y) || m.c.size() != X * Y) fail("wrong-size", "a map of %zu x %zu has %zu cells", X, Y, m.c.size());
    double radius = (double)p.get("radius") / 4 + 0.013, rate = (double)p.get("rate") / 10, mult = (double)p.get("mult") / 4 + 0.017;
    bool   disk = p.get("disk"), lin = p.get("lin");
    int    pause = (int)p.get("pause");
    auto   pausing = [pause](size_t i, size_t) { return (pause == 1 ? i % 3 == 1 : i < 2) ? 0. : 0.5; };
    SO::SOMTrainer trainer(disk ? SO::NeighborhoodFunc::linearUnitDisk(radius) : SO::NeighborhoodFunc::kohonen(X, Y, mult),
                           pause ? SO::LearningRestraintFunc::Signature(pausing) : lin ? SO::LearningRestraintFunc::linear() : SO::LearningRestraintFunc::exponentialDecay(rate));
    int policy = (int)p.get("policy");
    SO::SamplingPolicy::FullSet<I>   full;
    SO::SamplingPolicy::Bootstrap<I> boot = SO::SamplingPolicy::bootstrapFactory(in.begin());
    SO::SamplingPolicy::Jackknife<I> jack = SO::SamplingPolicy::jackknifeFactory(in.begin(), k);
    const SO::SamplingPolicy::Interface<I>& real = policy == FULL ? (const SO::SamplingPolicy::Interface<I>&)full : policy == BOOT ? (const SO::SamplingPolicy::Interface<I>&)boot : jack;
    sig((u64)policy * 1000 + n * 10 + iters);
    // failing allocations make a training fail; the same trainer and policy are used again afterwards
    std::vector<std::vector<int>> got;
    long                          bomb   = -1;
    auto                          weight = [&bomb](const Item& i) {
      if (bomb >= 0 && bomb-- == 0) throw CallbackFailed();
      return i.w;
    };
    int rounds = (int)p.get("rounds");
    for (int round = 0; round < rounds; ++round) {
      Cont&  in    = round && p.get("n2") && r.chance(1, 2) ? other : first;
      size_t n     = in.size();
      size_t iters = round ? (size_t)r.range(0, 6) : iters0;
      bool   burst = p.get("bomb") && r.chance(1, 2);
      bomb         = burst ? (long)r.below(2 * n * iters + 2) : -1;
      got.clear();
      Noting<I> noting(real, got, n + 1);
      bool      threw = false;
      u64       fired = faults_fired("alloc");
      try {
        enable_faults(true);
        trainer.train(som, iters, in.begin(), in.end(), weight, noting);
        enable_faults(false);
      } catch (const std::bad_alloc&) {
        enable_faults(false);
        threw = true;
        probe("a training failed for lack of memory");
      } catch (const CallbackFailed&) {
        enable_faults(false);
        threw = true;
        probe("a training failed in the function of the caller");
        count_fault("callback");
      }
      bool hit = burst && bomb < 0;
      bomb     = -1;
      if (hit && !threw) fail("train-swallowed", "a training went on although the function of the caller failed");
      if (threw && !hit && faults_fired("alloc") == fired) fail("train-failed", "a training failed without a fault");
      // which elements each iteration used
      size_t samples = 0;
      for (size_t s = 0; s < got.size(); ++s) {
        auto&         g = got[s];
        std::set<int> distinct(g.begin(), g.end());
        size_t        want = policy == FULL ? n : policy == BOOT ? std::min<size_t>(1, n) : std::min(k, n);
        bool          last = threw && s + 1 == got.size();
        if (distinct.size() != g.size()) fail("sampled-twice", "an iteration used an element of the training set twice");
        for (int id : g)
          if (id < 0 || id >= (int)n) fail("invented-sample", "an iteration used something that is not in the training set");
        if (!last && g.size() != want) fail("wrong-sample", "an iteration used %zu elements of %zu, expected %zu", g.size(), n, want);
        if (policy == FULL)
          for (size_t i = 0; i < g.size(); ++i)
            if (g[i] != (int)i) fail("wrong-sample", "the full set was not used in order");
        samples += g.size();
        for (int id : g) sig((u64)id + 17);
      }
      // the effect on the map
      bool tie = false;
      if (!threw) {
        size_t s = 0;
        for (size_t i = 0; i < iters; ++i) {
          double lf = pause ? pausing(i, iters) : lin ? 1.0 * (iters - i) / iters : rate * std::exp(-1. * i / iters);
          if (lf == 0) continue;
          if (s >= got.size()) fail("missing-iteration", "%zu of %zu iterations took a sample", got.size(), iters);
          for (int id : got[s++]) {
            auto it = in.begin();
            std::advance(it, id);
            bool t;
            auto b = m.bmu(it->w, nullptr, t);
            tie |= t;
            for (size_t c = 0; c < m.c.size(); ++c) {
              double dx = (double)(c % X) - (double)b.first, dy = (double)(c / X) - (double)b.second, d2 = dx * dx + dy * dy, nf;
              if (disk) {
                double f  = radius * (iters - i) / iters;
                nf        = d2 < f * f ? 1 : 0;
                tie |= near(d2, f * f);
              } else {
                double s0 = std::max(X, Y) / 2., sg = s0 * std::exp(-1. * i / (iters / std::log(s0)));
                nf        = d2 < mult * mult * sg * sg ? std::exp(-d2 / (2 * sg * sg)) : 0;
                tie |= near(d2, mult * mult * sg * sg);
              }
              for (int q = 0; q < ND; ++q) m.c[c][q] += nf * lf * (it->w[q] - m.c[c][q]);
            }
          }
        }
        if (s != got.size()) fail("missing-iteration", "%zu samples were taken in %zu iterations", got.size(), iters);
        if (tie) {  // rounding decides: nothing to compare
          probe("undecided tie");
          m.c.clear();
          for (auto& c : som) m.c.push_back(c);
        } else {
          size_t c = 0;
          for (auto& cell : som) {
            for (int q = 0; q < ND; ++q)
              if (!near(cell[q], m.c[c][q])) fail("wrong-weights", "after the training weight %d of cell (%zu,%zu) is %.12g, expected %.12g", q, c % X, c / X, cell[q], m.c[c][q]);
            ++c;
          }
        }
        event("round %d: %zu samples", round, samples);
      } else {
        m.c.clear();
        for (auto& c : som) {
          m.c.push_back(c);
          for (double d : c)
            if (!std::isfinite(d)) fail("wrong-weights", "a failed training left a weight that is not a number");
        }
      }
    }
    // the best matching unit, the projection and the U-matrix of the trained map
    std::vector<std::vector<int>> want(X * Y);
    bool                          tie = false;
    bool                          unc = p.get("unc");
    for (auto& i : in) {
      bool   t;
      double d;
      auto   b = m.bmu(i.w, unc ? &i.u : nullptr, t, &d);
      want[b.first + X * b.second].push_back(i.id);
      tie |= t;
      auto f = unc ? som.findBMU(i.w, i.u) : som.findBMU(i.w);
      if (!t && (std::get<0>(f) != b.first || std::get<1>(f) != b.second)) fail("wrong-bmu", "the best matching unit of input %d is (%zu,%zu), expected (%zu,%zu)", i.id, std::get<0>(f), std::get<1>(f), b.first, b.second);
      if (!near(std::get<2>(f), d)) fail("wrong-bmu", "the distance to the best matching unit is %g, expected %g", std::get<2>(f), d);
    }
    auto adder = [](std::vector<int>& c, const Item& i) { c.push_back(i.id); };
    auto wf    = [](const Item& i) { return i.w; };
    auto uf    = [](const Item& i) { return i.u; };
    std::vector<int> seed0(unc && p.get("seeded") ? 1 : 0, -7);
    try {
      enable_faults(true);
      auto grid = unc ? SO::SOMProjector::project<std::vector<int>>(som, in.begin(), in.end(), wf, uf, adder, seed0)
                      : SO::SOMProjector::project<std::vector<int>>(som, in.begin(), in.end(), wf, adder);
      auto um   = SO::computeUMatrix(som, p.get("um") == 0 ? SO::UMatrixType::MIN : p.get("um") == 1 ? SO::UMatrixType::MAX : SO::UMatrixType::MEAN);
      enable_faults(false);
      size_t total = 0;
      for (size_t y = 0; y < Y; ++y)
        for (size_t x = 0; x < X; ++x) {
          auto c = grid.at(x, y);
          if (!seed0.empty() && (c.empty() || c[0] != -7)) fail("wrong-projection", "a projected cell does not start with the initial value");
          c.erase(c.begin(), c.begin() + (long)seed0.size());
          total += c.size();
          if (!tie && c != want[x + X * y]) fail("wrong-projection", "cell (%zu,%zu) holds %zu inputs, expected %zu", x, y, c.size(), want[x + X * y].size());
          std::vector<double> ds;
          for (int i = -1; i <= 1; ++i)
            for (int j = -1; j <= 1; ++j) {
              long a = (long)x + i, b = (long)y + j;
              if ((!i && !j) || a < 0 || b < 0 || a >= (long)X || b >= (long)Y) continue;
              double d = 0;
              for (int q = 0; q < ND; ++q) d += std::pow(m.c[x + X * y][q] - m.c[(size_t)a + X * (size_t)b][q], 2);
              ds.push_back(std::sqrt(d));
            }
          if (ds.empty()) {  // the only cell has no neighbours
            if (um(x, y) == um(x, y)) fail("wrong-umatrix", "the U-matrix of the only cell is %g", um(x, y));
            continue;
          }
          double u = p.get("um") == 0 ? *std::min_element(ds.begin(), ds.end()) : p.get("um") == 1 ? *std::max_element(ds.begin(), ds.end()) : 0;
          if (p.get("um") == 2) {
            for (double d : ds) u += d;
            u /= (double)ds.size();
          }
          if (!near(u, um(x, y))) fail("wrong-umatrix", "the U-matrix has %g at (%zu,%zu), expected %g", um(x, y), x, y, u);
        }
      if (total != n) fail("lost-input", "%zu inputs were projected, %zu arrived", n, total);
    } catch (const std::bad_alloc&) {
      enable_faults(false);
      probe("a projection failed for lack of memory");
      if (!faults_fired("alloc")) fail("project-failed", "a projection failed without a fault");
    }
  }
};
void gen(Rng& r, Plan& p) {
  p.cfg["data"] = r.range(0, 1000000);
  p.cfg["x"] = r.range(1, 6);
  p.cfg["y"] = r.range(1, 6);
  p.cfg["n"] = r.chance(1, 12) ? 0 : r.range(1, 9);
  p.cfg["n2"] = r.chance(1, 3) ? r.range(1, 9) : 0;
  p.cfg["pause"] = r.chance(1, 4) ? r.range(1, 2) : 0;
  p.cfg["bomb"] = r.chance(1, 4);
  p.cfg["iters"] = r.chance(1, 20) ? 0 : r.range(1, 6);
  p.cfg["k"] = r.chance(1, 10) ? 0 : r.range(1, 11);
  p.cfg["policy"] = r.range(0, 2);
  p.cfg["disk"] = r.range(0, 1);
  p.cfg["lin"] = r.range(0, 1);
  p.cfg["radius"] = r.range(1, 30);
  p.cfg["rate"] = r.range(0, 10);
  p.cfg["mult"] = r.chance(1, 4) ? r.range(8, 26) : r.range(1, 12);
  p.cfg["init"] = r.range(0, 1);
  p.cfg["rounds"] = r.range(1, 3);
  p.cfg["unc"] = r.range(0, 1);
  p.cfg["um"] = r.range(0, 2);
  p.cfg["seeded"] = r.range(0, 1);
  p.cfg["list"] = r.range(0, 1);
  p.cfg["f_alloc"] = r.chance(1, 3) ? r.range(1, 60) : 0;
}
void run(const Plan& p) {
  enable_faults(false);
  if (p.get("list")) Run<std::list<Item>>::go(p);
  else Run<std::vector<Item>>::go(p);
}
// every element has its chance: over many samples of a small set each of them is used (the chance to miss one is below 1e-30)
template <typename Cont> void fair(const Plan& p) {
  typedef typename Cont::iterator I;
  size_t n = (size_t)p.get("n"), k = (size_t)p.get("k");
  Cont   in;
  for (size_t i = 0; i < n; ++i) {
    Item it;
    it.id = (int)i;
    in.push_back(it);
  }
  SO::SamplingPolicy::Bootstrap<I> boot = SO::SamplingPolicy::bootstrapFactory(in.begin());
  SO::SamplingPolicy::Jackknife<I> jack = SO::SamplingPolicy::jackknifeFactory(in.begin(), k);
  const SO::SamplingPolicy::Interface<I>& real = p.get("policy") ? (const SO::SamplingPolicy::Interface<I>&)jack : boot;
  std::vector<int> used(n, 0), first(n, 0);
  for (int round = 0; round < 400; ++round) {
    size_t c = 0;
    for (I i = real.start(in.begin(), in.end()); i != in.end(); i = real.next(i)) {
      if (!c++) ++first[(size_t)i->id];
      ++used[(size_t)i->id];
      if (c > n) fail("endless", "a sample has more than %zu elements", n);
    }
  }
  for (size_t i = 0; i < n; ++i) {
    sig((u64)used[i]);
    if (!used[i]) fail("never-sampled", "400 samples of %zu out of %zu elements never used element %zu", p.get("policy") ? k : 1, n, i);
  }
}
void gen_fair(Rng& r, Plan& p) {
  p.cfg["n"] = r.range(1, 6);
  p.cfg["k"] = r.range(1, p.cfg["n"]);
  p.cfg["policy"] = r.range(0, 1);
  p.cfg["list"] = r.range(0, 1);
}
void run_fair(const Plan& p) {
  enable_faults(false);
  if (p.get("list")) fair<std::list<Item>>(p);
  else fair<std::vector<Item>>(p);
}
Scenario s_fair("so_fair", "the samples of small training sets over many iterations", false, 1, gen_fair, run_fair);
Scenario s("so_train", "training, projecting and analysing maps", false, 4, gen, run);
}  // namespace
