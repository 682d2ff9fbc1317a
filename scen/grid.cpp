// Grids: histories of slices, slices of slices, moves, iterators that are fixed on the way, and accesses out of range.
#include "simio.h"
#include <list>
#include "ElementsKernel/Exception.h"
#include "GridContainer/GridContainer.h"
#include "GridContainer/GridContainerToTable.h"
#include <map>
#include <memory>

using namespace sim;
namespace GC = Euclid::GridContainer;

namespace {
const int NA = 4, SLOTS = 5;
typedef GC::GridContainer<std::vector<int>, int, double, std::string, long> Grid;
enum { NEW = 1, SLICE, SET, GET, MOVE, ITER, FIXALL, TABLE_, INF, DROP, SWEEP };

struct Root {
  int                      size[NA];
  bool                     sorted = true;
  std::vector<int>         a0;
  std::vector<double>      a1;
  std::vector<std::string> a2;
  std::vector<long>        a3;
  std::vector<int>         cells;
  size_t at(const int* c) const { return c[0] + size[0] * (c[1] + (size_t)size[1] * (c[2] + (size_t)size[2] * c[3])); }
};
struct View {
  std::shared_ptr<Root> root;
  int                   fixed[NA];  // -1: free
  std::unique_ptr<Grid> grid;
  int size(int a) const { return fixed[a] < 0 ? root->size[a] : 1; }
  size_t total() const { return (size_t)size(0) * size(1) * size(2) * size(3); }
};
typedef std::vector<int> Coord;
std::vector<Coord> cells_of(const View& v) {  // in the order of iteration, in coordinates of the root
  std::vector<Coord> r;
  int                c[NA];
  for (c[3] = 0; c[3] < v.root->size[3]; ++c[3])
    for (c[2] = 0; c[2] < v.root->size[2]; ++c[2])
      for (c[1] = 0; c[1] < v.root->size[1]; ++c[1])
        for (c[0] = 0; c[0] < v.root->size[0]; ++c[0]) {
          bool ok = true;
          for (int a = 0; a < NA; ++a) ok &= v.fixed[a] < 0 || v.fixed[a] == c[a];
          if (ok) r.push_back(Coord(c, c + NA));
        }
  return r;
}
int local(const View& v, const Coord& c, int a) { return v.fixed[a] < 0 ? c[a] : 0; }

template <typename T> void mix(std::vector<T>& x, Rng& r) {
  for (size_t i = x.size(); i > 1; --i) std::swap(x[i - 1], x[r.below(i)]);
}
size_t index_of(Rng& r, int size) { return size ? r.below(size) : 0; }
template <typename A, typename T> void check_axis(const A& axis, const std::vector<T>& want, int fixed, const char* name) {
  std::vector<T> w = want;
  if (fixed >= 0) w = {want[fixed]};
  if (axis.name() != name) fail("wrong-axis", "axis %s is called %s", name, axis.name().c_str());
  if (axis.size() != w.size() || !std::equal(w.begin(), w.end(), axis.begin())) fail("wrong-axis", "axis %s has %zu knots, expected %zu", name, axis.size(), w.size());
}
template <typename It> void check_pos(const View& v, It& it, const Coord& c) {
  auto& r = *v.root;
  if (it.template axisValue<0>() != r.a0[c[0]] || it.template axisValue<1>() != r.a1[c[1]] || it.template axisValue<2>() != r.a2[c[2]] || it.template axisValue<3>() != r.a3[c[3]])
    fail("wrong-coordinates", "an iterator is at other axis values than its cell");
  if ((v.fixed[0] < 0 && it.template axisIndex<0>() != (size_t)c[0]) || (v.fixed[1] < 0 && it.template axisIndex<1>() != (size_t)c[1]) ||
      (v.fixed[2] < 0 && it.template axisIndex<2>() != (size_t)c[2]) || (v.fixed[3] < 0 && it.template axisIndex<3>() != (size_t)c[3]))
    fail("wrong-coordinates", "an iterator is at another axis index than its cell");
  int want = r.cells[r.at(c.data())];
  if (*it != want) fail("wrong-cell", "an iterator shows %d, expected %d", (int)*it, want);
}
void verify(const View& v) {
  Grid&       g  = *v.grid;
  const Grid& cg = g;
  if (g.size() != v.total()) fail("wrong-size", "a grid of %zu cells has size %zu", v.total(), g.size());
  check_axis(g.getAxis<0>(), v.root->a0, v.fixed[0], "zero");
  check_axis(g.getAxis<1>(), v.root->a1, v.fixed[1], "one");
  check_axis(g.getAxis<2>(), v.root->a2, v.fixed[2], "two");
  check_axis(std::get<3>(g.getAxesTuple()), v.root->a3, v.fixed[3], "three");
  auto   all = cells_of(v);
  size_t n   = 0;
  auto   ci  = cg.begin();
  for (auto it = g.begin(); it != g.end(); ++it, ++ci, ++n) {
    if (n >= all.size()) fail("wrong-iteration", "iterating a grid of %zu cells does not end", all.size());
    check_pos(v, it, all[n]);
    if (&*it != &*ci) fail("wrong-iteration", "the constant iteration shows other cells");
    auto& c = all[n];
    auto* p = &g(local(v, c, 0), local(v, c, 1), local(v, c, 2), local(v, c, 3));
    if (p != &*it || p != &cg.at(local(v, c, 0), local(v, c, 1), local(v, c, 2), local(v, c, 3))) fail("wrong-cell", "the coordinates of a cell give another one");
  }
  if (n != all.size()) fail("wrong-iteration", "iterating a grid of %zu cells ends after %zu", all.size(), n);
  if (ci != cg.end()) fail("wrong-iteration", "the constant iteration does not end");
}
// run time axis to compile time axis
template <int A> struct On {
  template <typename F> static void with(int a, F& f) { a == A ? f.template run<A>() : On<A - 1>::with(a, f); }
};
template <> struct On<-1> {
  template <typename F> static void with(int, F&) {}
};
template <int A> struct Knots;
template <> struct Knots<0> { static int of(const Root& r, size_t i) { return i < r.a0.size() ? r.a0[i] : -12345; } };
template <> struct Knots<1> { static double of(const Root& r, size_t i) { return i < r.a1.size() ? r.a1[i] : -1.5e9; } };
template <> struct Knots<2> { static std::string of(const Root& r, size_t i) { return i < r.a2.size() ? r.a2[i] : "absent"; } };
template <> struct Knots<3> { static long of(const Root& r, size_t i) { return i < r.a3.size() ? r.a3[i] : -12345; } };

struct Slice {
  View&                 v;
  size_t                index;
  bool                  by_value;
  std::unique_ptr<Grid> out;
  template <int A> void run() {
    if (by_value) {
      auto k = Knots<A>::of(*v.root, index);
      out.reset(new Grid(v.grid->template fixAxisByValue<A>(k)));
    } else
      out.reset(new Grid(v.grid->template fixAxisByIndex<A>(index)));
  }
};
struct ConstSlice {
  const View& v;
  size_t      index;
  bool        by_value;
  size_t      size = 0, cells = 0;
  long        sum = 0;
  void        read(const Grid& g) {
    size = g.size();
    for (auto& c : g) ++cells, sum += c;
  }
  template <int A> void run() {
    const Grid& g = *v.grid;
    if (by_value)
      read(g.template fixAxisByValue<A>(Knots<A>::of(*v.root, index)));
    else
      read(g.template fixAxisByIndex<A>(index));
  }
};
template <typename It> struct FixIter {
  const View& v;
  It&         it;
  size_t      index;
  bool        by_value;
  template <int A> void run() { by_value ? it.template fixAxisByValue<A>(Knots<A>::of(*v.root, index)) : it.template fixAxisByIndex<A>(index); }
};

struct World {
  View slot[SLOTS];
  int  stamp = 1;
  template <typename F> int attempt(F f) {  // 0 fine, 1 refused, 2 out of memory
    int r = 0;
    u64 a = faults_fired("alloc");
    enable_faults(true);
    try {
      f();
    } catch (const std::bad_alloc&) {
      r = 2;
    } catch (const Elements::Exception&) {
      r = 1;
    } catch (...) {
      enable_faults(false);
      throw;
    }
    enable_faults(false);
    if (r == 2 && faults_fired("alloc") == a) fail("harness-exception", "out of memory without cause");
    return r;
  }
  void make(int s, Rng& r) {
    auto root = std::make_shared<Root>();
    for (int a = 0; a < NA; ++a) root->size[a] = (int)r.range(1, 4);
    if (r.chance(1, 10)) root->size[r.below(NA)] = 0;
    for (int i = 0; i < root->size[0]; ++i) root->a0.push_back(i * 3 + 1);
    for (int i = 0; i < root->size[1]; ++i) root->a1.push_back(i * 0.5 - 1);
    for (int i = 0; i < root->size[2]; ++i) root->a2.push_back(std::string(1, 'a' + i) + (r.chance(1, 2) ? "" : "long enough for the heap"));
    for (int i = 0; i < root->size[3]; ++i) root->a3.push_back(i * i);
    if (r.chance(1, 4)) {  // knots in any order: only infimum() needs them sorted
      root->sorted = false;
      mix(root->a0, r), mix(root->a1, r), mix(root->a2, r), mix(root->a3, r);
    }
    root->cells.assign((size_t)root->size[0] * root->size[1] * root->size[2] * root->size[3], 0);
    std::unique_ptr<Grid> g;
    int                   e = attempt([&] {
      g.reset(new Grid(GC::GridAxis<int>("zero", root->a0), GC::GridAxis<double>("one", root->a1), GC::GridAxis<std::string>("two", root->a2), GC::GridAxis<long>("three", root->a3)));
    });
    if (e == 1) fail("refused", "a grid can not be made");
    if (e) return;
    slot[s].root = root;
    for (int& f : slot[s].fixed) f = -1;
    slot[s].grid = std::move(g);
    for (auto& c : *slot[s].grid) c = 0;
  }
  bool live(int s) const { return (bool)slot[s].grid; }
};
template <typename It, typename G> void walk(World& w, View& v, G& g, Rng& r, bool write) {
  // an iterator that is fixed on the way, against the cells in order
  View m;
  m.root = v.root;
  memcpy(m.fixed, v.fixed, sizeof m.fixed);
  auto   all = cells_of(m);
  size_t pos = 0;
  std::list<It> pool;
  pool.push_back(g.begin());
  int    n   = (int)r.range(1, 12);
  bool   dead = false;
  for (int i = 0; i < n && !dead; ++i) {
    int k = (int)r.below(6);
    if (k < 3) {
      for (int j = (int)r.range(1, 5); j-- && pos < all.size(); ++pos) ++pool.back();
    } else if (k < 5) {
      int    a = (int)r.below(NA);
      size_t x = r.below(6) == 0 ? (size_t)v.root->size[a] + r.below(2) : index_of(r, v.root->size[a]);
      FixIter<It> f{v, pool.back(), x, r.chance(1, 2)};
      It   before = pool.back();
      int  e      = w.attempt([&] { On<NA - 1>::with(a, f); });
      bool bad    = x >= (size_t)v.root->size[a] || (m.fixed[a] >= 0 && m.fixed[a] != (int)x);
      if (e == 0 && bad) fail("accepted", "an iterator accepts %s", x >= (size_t)v.root->size[a] ? "an index out of range" : "to fix an axis again");
      if (e == 1 && !bad && m.fixed[a] < 0) fail("refused", "an axis of an iterator can not be fixed");
      if (e == 2) {
        dead = true;
        break;
      }
      if (e == 0) {
        Coord cur = pos < all.size() ? all[pos] : Coord();
        m.fixed[a] = (int)x;
        auto rest = cells_of(m);
        size_t q  = rest.size();
        if (!cur.empty()) {
          q = 0;
          while (q < rest.size() && v.root->at(rest[q].data()) < v.root->at(cur.data())) ++q;
        }
        all = rest, pos = q;
      } else if (!(before == pool.back()))
        fail("changed", "a refused call moved the iterator");
    } else if (r.chance(1, 2)) {
      if (r.chance(1, 2)) {
        It copy = pool.back();
        pool.back()      = copy;
      } else {  // another iterator, somewhere else and fixed otherwise, becomes this one
        pool.push_back(g.begin());
        It& other = pool.back();
        for (int j = (int)r.below(3); j--;)
          if (!(other == g.end())) ++other;
        int a = (int)r.below(NA);
        if (v.fixed[a] < 0 && v.root->size[a]) {
          FixIter<It> f{v, other, index_of(r, v.root->size[a]), false};
          if (w.attempt([&] { On<NA - 1>::with(a, f); }) == 2) {
            dead = true;
            break;
          }
        }
        other = *std::prev(pool.end(), 2);
      }
    } else if (pos < all.size() && write) {
      const_cast<int&>(*pool.back()) = v.root->cells[v.root->at(all[pos].data())] = ++w.stamp;
    }
    if (pos < all.size()) {
      if (pool.back() == g.end()) fail("wrong-iteration", "an iterator ends before the last cell");
      View t;
      t.root = v.root;
      memcpy(t.fixed, v.fixed, sizeof t.fixed);
      check_pos(t, pool.back(), all[pos]);
    } else if (!(pool.back() == g.end()))
      fail("wrong-iteration", "an iterator with fixed axes does not end");
  }
  if (!dead) {
    for (; pos < all.size(); ++pos, ++pool.back()) {
      if (pool.back() == g.end()) fail("wrong-iteration", "an iterator ends before the last cell");
      if (*pool.back() != v.root->cells[v.root->at(all[pos].data())]) fail("wrong-cell", "an iterator with fixed axes shows another cell");
    }
    if (!(pool.back() == g.end())) fail("wrong-iteration", "an iterator with fixed axes does not end");
  }
  sig(all.size() * 4 + dead);
}
void gen_grid(Rng& r, Plan& p) {
  p.ops.push_back(Op(NEW, 0, 0, 0, (int)r.below(1 << 20)));
  int n = (int)r.range(4, 25);
  for (int i = 0; i < n; ++i) {
    static const int kinds[] = {NEW, SLICE, SLICE, SLICE, SLICE, SET, SET, GET, GET, MOVE, ITER, ITER, ITER, FIXALL, TABLE_, INF, DROP};
    p.ops.push_back(Op(kinds[r.below(17)], (int)r.below(SLOTS), (int)r.below(SLOTS), (int)r.below(NA), (int)r.below(1 << 20), r.chance(1, 2), (int)r.below(6)));
  }
  if (r.chance(1, 3)) p.cfg["f_alloc"] = r.range(2, 60);
}
void run_grid(const Plan& p) {
  enable_faults(false);
  World w;
  for (auto& o : p.ops) {
    int   s = o.v[1] % SLOTS, d = o.v[2] % SLOTS, a = o.v[3] % NA;
    Rng   r((u64)o.v[4] * 77 + 5);
    View& v = w.slot[s];
    int   e = 0;
    if (o.kind() == NEW) {
      w.make(s, r);
      if (w.live(s)) verify(w.slot[s]);
      continue;
    }
    if (!w.live(s)) continue;
    switch (o.kind()) {
    case SLICE: {
      size_t x   = o.v[6] == 0 ? (size_t)v.root->size[a] + r.below(3) : index_of(r, v.root->size[a]);
      bool   bad = x >= (size_t)v.root->size[a] || v.fixed[a] >= 0;
      View   m;
      m.root = v.root;
      memcpy(m.fixed, v.fixed, sizeof m.fixed);
      if (!bad) m.fixed[a] = (int)x;
      if (o.v[6] == 1) {
        ConstSlice c{v, x, (bool)o.v[5]};
        e = w.attempt([&] { On<NA - 1>::with(a, c); });
        if (e == 0 && !bad) {
          long sum = 0;
          auto all = cells_of(m);
          for (auto& k : all) sum += v.root->cells[v.root->at(k.data())];
          if (c.size != all.size() || c.cells != all.size() || c.sum != sum) fail("wrong-slice", "a constant slice of %zu cells shows %zu of %zu cells", all.size(), c.cells, c.size);
        }
      } else {
        Slice f{v, x, (bool)o.v[5], nullptr};
        e = w.attempt([&] { On<NA - 1>::with(a, f); });
        if (e == 0 && !bad) {
          m.grid = std::move(f.out);
          w.slot[d].root.reset();
          w.slot[d] = std::move(m);
          verify(w.slot[d]);
        }
      }
      if (e == 0 && bad) fail("accepted", "a slice %s is accepted", x >= (size_t)v.root->size[a] ? "out of range" : "along a fixed axis");
      if (e == 1 && !bad) fail("refused", "a slice is refused");
      break;
    }
    case SET:
    case GET: {
      int  c[NA], g[NA];
      bool bad = false;
      for (int k = 0; k < NA; ++k) {
        g[k] = (int)index_of(r, v.size(k));
        if (r.below(10) == 0 || !v.size(k)) g[k] = v.size(k) + (int)r.below(3), bad = true;
        c[k] = v.fixed[k] < 0 ? g[k] : v.fixed[k];
      }
      int  x = ++w.stamp, got = 0;
      bool set = o.kind() == SET;
      if (!bad && o.v[5]) {
        int& cell = (*v.grid)(g[0], g[1], g[2], g[3]);
        got       = cell;
        if (set) cell = x;
      } else {
        e = w.attempt([&] {
          int& cell = v.grid->at(g[0], g[1], g[2], g[3]);
          got       = cell;
          if (set) cell = x;
        });
        if (e == 2) break;
        if (e == 0 && bad) fail("accepted", "at(%d,%d,%d,%d) is accepted on a grid of %dx%dx%dx%d", g[0], g[1], g[2], g[3], v.size(0), v.size(1), v.size(2), v.size(3));
        if (e == 1 && !bad) fail("refused", "at(%d,%d,%d,%d) is refused on a grid of %dx%dx%dx%d", g[0], g[1], g[2], g[3], v.size(0), v.size(1), v.size(2), v.size(3));
      }
      if (!bad) {
        int& cell = v.root->cells[v.root->at(c)];
        if (got != cell) fail("wrong-cell", "a cell is %d, expected %d", got, cell);
        if (set) cell = x;
      }
      break;
    }
    case MOVE:
      if (s == d) break;
      if (o.v[5] && w.live(d))
        *w.slot[d].grid = std::move(*v.grid);
      else
        w.slot[d].grid.reset(new Grid(std::move(*v.grid)));
      w.slot[d].root = v.root;
      memcpy(w.slot[d].fixed, v.fixed, sizeof v.fixed);
      v.grid.reset();
      v.root.reset();
      break;
    case ITER:
      if (o.v[5])
        walk<Grid::iterator>(w, v, *v.grid, r, true);
      else
        walk<Grid::const_iterator>(w, v, *(const Grid*)v.grid.get(), r, false);
      break;
    case FIXALL: {
      if (!w.live(d)) break;
      View& u   = w.slot[d];
      auto  all = cells_of(u);
      auto  it  = u.grid->begin();
      if (all.empty()) break;
      size_t k  = r.below(all.size());
      for (size_t i = 0; i < k; ++i) ++it;
      // the cell of the first grid with the same axis values, if there is one
      auto& c   = all[k];
      int   m[NA];
      bool  there = true;
      auto  idx   = [&](auto& from, auto& to, int ax) {
        auto f = std::find(to.begin(), to.end(), from[c[ax]]);
        m[ax]  = (int)(f - to.begin());
        there &= f != to.end() && (v.fixed[ax] < 0 || v.fixed[ax] == m[ax]);
      };
      idx(u.root->a0, v.root->a0, 0), idx(u.root->a1, v.root->a1, 1), idx(u.root->a2, v.root->a2, 2), idx(u.root->a3, v.root->a3, 3);
      auto x = v.grid->begin();
      e      = w.attempt([&] { x.fixAllAxes(it); });
      if (e == 1 && there) fail("refused", "fixAllAxes is refused");
      if (e == 0 && !there) fail("accepted", "fixAllAxes finds values that are not there");
      if (e == 0) {
        if (*x != v.root->cells[v.root->at(m)]) fail("wrong-cell", "fixAllAxes leads to another cell");
        ++x;
        if (!(x == v.grid->end())) fail("wrong-iteration", "an iterator with all axes fixed shows more than one cell");
      }
      break;
    }
    case TABLE_: {
      if (v.total() > 64 || !v.total()) break;
      std::unique_ptr<Euclid::Table::Table> t(new Euclid::Table::Table(GC::gridContainerToTable(*v.grid)));
      auto all = cells_of(v);
      if (t->size() != all.size()) fail("wrong-table", "the table of a grid of %zu cells has %zu rows", all.size(), t->size());
      for (size_t i = 0; i < all.size(); ++i) {
        // the rows repeat the knots with the last axis first
        auto& row = (*t)[i];
        auto& c   = all[i];
        if (boost::get<int>(row["zero"]) != v.root->a0[c[0]] || boost::get<double>(row["one"]) != v.root->a1[c[1]] || boost::get<std::string>(row["two"]) != v.root->a2[c[2]] ||
            boost::get<int64_t>(row["three"]) != v.root->a3[c[3]] || boost::get<int>(row["value"]) != v.root->cells[v.root->at(c.data())])
          fail("wrong-table", "row %zu of the table of a grid is another cell", i);
      }
      break;
    }
    case INF: {
      if (!v.root->sorted || !v.total()) break;
      Coord c(NA);
      for (int k = 0; k < NA; ++k) c[k] = v.fixed[k] < 0 ? (int)r.below(v.root->size[k]) : v.fixed[k];
      auto q = v.grid->infimum(v.root->a0[c[0]] + (int)r.below(3), v.root->a1[c[1]] + r.below(4) * 0.1, v.root->a2[c[2]], v.root->a3[c[3]]);
      int  m[NA];
      for (int k = 0; k < NA; ++k) m[k] = local(v, c, k);
      if (std::get<0>(q) != (size_t)m[0] || std::get<1>(q) != (size_t)m[1] || std::get<2>(q) != (size_t)m[2] || std::get<3>(q) != (size_t)m[3])
        fail("wrong-infimum", "infimum gives (%zu,%zu,%zu,%zu), expected (%d,%d,%d,%d)", std::get<0>(q), std::get<1>(q), std::get<2>(q), std::get<3>(q), m[0], m[1], m[2], m[3]);
      break;
    }
    case DROP:
      v.grid.reset();
      v.root.reset();
      break;
    }
    event("op %d slot %d -> %d axis %d: %d", o.kind(), s, d, a, e);
    sig(o.kind() * 512 + s * 64 + d * 8 + a * 3 + e);
    for (auto& x : w.slot)
      if (x.grid) verify(x);
  }
}

// ---- the same for grids of one and of two axes -----------------------------------------------
typedef GC::GridContainer<std::vector<int>, double>              Grid1;
typedef GC::GridContainer<std::vector<int>, std::string, double> Grid2;
enum { READ = 1, AT, AT_BAD, FIX, INFIMUM, TRAVEL, ACROSS };
void gen_one(Rng& r, Plan& p) {
  p.cfg["n"]  = r.chance(1, 8) ? 0 : (int64_t)r.range(1, 6);
  p.cfg["m"]  = r.chance(1, 8) ? 0 : (int64_t)r.range(1, 4);
  p.cfg["up"] = r.chance(2, 3);
  int k = (int)r.range(2, 12);
  for (int i = 0; i < k; ++i) p.ops.push_back(Op((int)r.range(READ, ACROSS), (int)r.below(1 << 16)));
  if (r.chance(1, 3)) p.cfg["f_alloc"] = r.range(2, 60);
}
void run_one(const Plan& p) {
  enable_faults(false);
  size_t                   n = p.get("n", 0), m = p.get("m", 0);
  std::vector<double>      a(n);
  std::vector<std::string> b(m);
  for (size_t i = 0; i < n; ++i) a[i] = p.get("up", 1) ? i * 1.5 : 10. - i * 1.5;
  for (size_t i = 0; i < m; ++i) b[i] = std::string(1, (char)(p.get("up", 1) ? 'b' + i : 'z' - i)) + std::string(20, 'q');
  Grid1 g(GC::GridAxis<double>("x", a));
  Grid2 h(GC::GridAxis<std::string>("s", b), GC::GridAxis<double>("x", a));
  std::vector<int> wg(n), wh(n * m);
  if (g.size() != n || h.size() != n * m) fail("wrong-size", "grids of %zu and %zux%zu cells have sizes %zu and %zu", n, m, n, g.size(), h.size());
  int stamp = 0;
  for (size_t i = 0; i < n; ++i) g(i) = wg[i] = ++stamp;
  for (size_t j = 0; j < n; ++j)
    for (size_t i = 0; i < m; ++i) h(i, j) = wh[i + m * j] = ++stamp;
  World w;
  for (auto& o : p.ops) {
    Rng    r((u64)o.v[1] * 31 + 7);
    size_t i = index_of(r, (int)m), j = index_of(r, (int)n);
    int    e = 0;
    switch (o.kind()) {
    case READ: {
      size_t k = 0;
      for (auto it = g.begin(); it != g.end(); ++it, ++k)
        if (k >= n || *it != wg[k] || it.axisIndex<0>() != k || it.axisValue<0>() != a[k]) fail("wrong-iteration", "cell %zu of a grid of one axis is another one", k);
      if (k != n) fail("wrong-iteration", "iterating %zu cells ends after %zu", n, k);
      k = 0;
      for (auto it = h.begin(); it != h.end(); ++it, ++k)
        if (k >= n * m || *it != wh[k] || it.axisIndex<0>() != k % m || it.axisIndex<1>() != k / m || it.axisValue<0>() != b[k % m] || it.axisValue<1>() != a[k / m])
          fail("wrong-iteration", "cell %zu of a grid of two axes is another one", k);
      if (k != n * m) fail("wrong-iteration", "iterating %zu cells ends after %zu", n * m, k);
      break;
    }
    case AT:
      if (n) {
        e = w.attempt([&] {
          if (g.at(j) != wg[j] || &g.at(j) != &g(j)) fail("wrong-cell", "at(%zu) is another cell", j);
          if (m && (h.at(i, j) != wh[i + m * j] || &h.at(i, j) != &h(i, j))) fail("wrong-cell", "at(%zu,%zu) is another cell", i, j);
        });
        if (e == 1) fail("refused", "at() is refused for the coordinates of a cell");
      }
      break;
    case AT_BAD:
      j = n + r.below(3);
      if (w.attempt([&] { (void)g.at(j); }) == 0) fail("accepted", "at(%zu) is accepted on a grid of %zu cells", j, n);
      if (w.attempt([&] { (void)h.at(i, j); }) == 0) fail("accepted", "at(%zu,%zu) is accepted on a grid of %zux%zu cells", i, j, m, n);
      j = index_of(r, (int)n), i = m + r.below(3);
      if (w.attempt([&] { (void)h.at(i, j); }) == 0) fail("accepted", "at(%zu,%zu) is accepted on a grid of %zux%zu cells", i, j, m, n);
      e = 1;
      break;
    case FIX: {
      size_t x   = r.below(5) == 0 ? n + r.below(2) : j;
      bool   val = r.chance(1, 2);
      double k   = x < n ? a[x] : 1e9;
      e          = w.attempt([&] {
        auto s = val ? g.fixAxisByValue<0>(k) : g.fixAxisByIndex<0>(x);
        if (s.size() != 1 || s(0) != wg.at(x) || &s.at(0) != &g(x) || &*s.begin() != &g(x) || !(++s.begin() == s.end())) fail("wrong-slice", "the slice of a grid of one axis is another cell");
        if (s.getAxis<0>().size() != 1 || s.getAxis<0>()[0] != a[x]) fail("wrong-axis", "the axis of a slice has another value");
        if (w.attempt([&] { (void)s.at(1); }) == 0) fail("accepted", "at(1) is accepted on a slice of one cell");
      });
      if (e == 0 && x >= n) fail("accepted", "a slice out of range is accepted");
      if (e == 1 && x < n) fail("refused", "a slice is refused");
      e = w.attempt([&] {
        auto   s = val ? h.fixAxisByValue<1>(k) : h.fixAxisByIndex<1>(x);
        size_t c = 0;
        for (auto it = s.begin(); it != s.end(); ++it, ++c)
          if (c >= m || &*it != &h(c, x) || *it != wh[c + m * x]) fail("wrong-slice", "the slice of a grid of two axes shows another cell");
        if (c != m || s.size() != m) fail("wrong-slice", "a slice of %zu cells has size %zu and shows %zu", m, s.size(), c);
      });
      if (e == 0 && x >= n) fail("accepted", "a slice out of range is accepted");
      if (e == 1 && x < n) fail("refused", "a slice is refused");
      break;
    }
    case INFIMUM:
      if (p.get("up", 1) && n) {
        double d = r.below(3) * 0.7;
        if (std::get<0>(g.infimum(a[j] + d)) != j) fail("wrong-infimum", "infimum of a grid of one axis is not knot %zu", j);
        if (m) {
          auto q = h.infimum(b[i] + (r.chance(1, 2) ? "z" : ""), a[j] + d);
          if (std::get<0>(q) != i || std::get<1>(q) != j) fail("wrong-infimum", "infimum gives (%zu,%zu), expected (%zu,%zu)", std::get<0>(q), std::get<1>(q), i, j);
        }
      }
      break;
    case TRAVEL: {  // axes of iterators fixed in any order from any cell
      if (n) {
        auto it = g.begin();
        size_t from = r.below(n + 1);
        for (size_t k = 0; k < from; ++k) ++it;
        e = w.attempt([&] { it.fixAxisByIndex<0>(j); });
        if (e == 1) fail("refused", "an axis of an iterator can not be fixed");
        if (e == 0 && from <= j && (it == g.end() || &*it != &g(j))) fail("wrong-cell", "an iterator with its axis fixed is at another cell");
        if (e == 0 && from > j && !(it == g.end())) fail("wrong-iteration", "an iterator goes back to a fixed axis");
      }
      if (m) {
        auto it = h.begin();
        e       = w.attempt([&] { it.fixAxisByIndex<0>(i); });
        if (e == 1) fail("refused", "an axis of an iterator can not be fixed");
        for (size_t k = 0; e == 0 && k < n; ++k, ++it)
          if (it == h.end() || &*it != &h(i, k)) fail("wrong-iteration", "an iterator with its first axis fixed shows another cell");
        if (e == 0 && !(it == h.end())) fail("wrong-iteration", "an iterator with its first axis fixed does not end");
      }
      if (n) {
        auto it = h.begin();
        e       = w.attempt([&] { it.fixAxisByValue<1>(a[j]); });
        if (e == 1) fail("refused", "an axis of an iterator can not be fixed");
        for (size_t k = 0; e == 0 && k < m; ++k, ++it)
          if (it == h.end() || &*it != &h(k, j)) fail("wrong-iteration", "an iterator with its last axis fixed shows another cell");
        if (e == 0 && !(it == h.end())) fail("wrong-iteration", "an iterator with its last axis fixed does not end");
      }
      break;
    }
    case ACROSS: {  // moved
      std::unique_ptr<Grid1> t(new Grid1(std::move(g)));
      for (size_t k = 0; k < n; ++k)
        if ((*t)(k) != wg[k]) fail("wrong-cell", "a cell changes when its grid is moved");
      g = std::move(*t);
      break;
    }
    }
    event("op %d (%zu,%zu): %d", o.kind(), i, j, e);
    sig(o.kind() * 256 + i * 32 + j * 4 + e);
    for (size_t k = 0; k < n; ++k)
      if (g(k) != wg[k]) fail("wrong-cell", "cell %zu changed", k);
  }
}
Scenario s_one("gr_one", "grids of one and of two axes", false, 1, gen_one, run_one);
Scenario s_grid("gr_hist", "histories of grids, slices and iterators", false, 1, gen_grid, run_grid);
}  // namespace
