// NdArray: histories of operations on arrays, aliases and views against a reference model, with failing allocations.
#include "simio.h"
#include "ndref.h"
#include "ElementsKernel/Exception.h"
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include <memory>
#include <set>
#include <sstream>

using namespace sim;
using Euclid::NdArray::NdArray;

namespace {
enum { NEW = 1, ALIAS, ASSIGN, DEEP, SET, OUT, SLICE, RSLICE, RESHAPE, CONCAT, OPS, WALK, MOVE, DROP };
const int NSLOT = 5;
// small enough that sums do not overflow
template <typename T> T val(u64 i) { return ref::value<T>(i); }
template <> int val<int>(u64 i) { return ref::value<int>(i) % 100000; }


template <typename T> struct Model {
  std::shared_ptr<std::vector<T>> store;
  size_t                          off = 0;
  ref::Shape                      shape, stride;
  std::vector<std::string>        attrs;
  size_t                          stale = 0;  // known finding: size() before a concatenation
  bool                            grown = false;
  size_t                          n() const { return ref::count(shape); }
  T& el(size_t i) {
    size_t o = off;
    for (size_t d = shape.size(); d > 0; --d) {
      o += (i % shape[d - 1]) * stride[d - 1];
      i /= shape[d - 1];
    }
    return (*store)[o];
  }
  ref::Shape coords(size_t i) const {
    ref::Shape c(shape.size());
    for (size_t d = shape.size(); d > 0; --d) {
      c[d - 1] = i % shape[d - 1];
      i /= shape[d - 1];
    }
    return c;
  }
  void strides(size_t base) {
    stride.assign(shape.size(), 0);
    for (size_t d = shape.size(); d > 0; --d) {
      stride[d - 1] = base;
      base *= shape[d - 1];
    }
  }
};

template <typename T> struct World {
  std::unique_ptr<NdArray<T>> a[NSLOT];
  Model<T>                    m[NSLOT];

  void check(int s, const char* what) {
    Quiet    q;
    NoFaults nf;
    if (!a[s]) return;
    const NdArray<T>& x = *a[s];
    Model<T>&         k = m[s];
    size_t            n = k.n();
    if (x.shape() != k.shape) fail("wrong-shape", "%s: array %d has the wrong shape", what, s);
    if (x.attributes() != k.attrs) fail("wrong-attributes", "%s: array %d has %zu attribute names, expected %zu", what, s, x.attributes().size(), k.attrs.size());
    if (x.size() != n && !(k.grown && x.size() == k.stale)) fail("wrong-size", "%s: array %d has size %zu, expected %zu", what, s, x.size(), n);
    for (size_t i = 0; i < n; ++i) {
      const T& v = x.at(k.coords(i));
      if (memcmp(&v, &k.el(i), sizeof v)) fail("wrong-data", "%s: element %zu of array %d differs", what, i, s);
    }
    size_t i = 0;
    for (auto it = x.begin(); it != x.end(); ++it, ++i) {
      if (i >= n) fail("wrong-data", "%s: array %d iterates beyond its end", what, s);
      T v = *it;
      if (memcmp(&v, &k.el(i), sizeof v)) fail("wrong-data", "%s: iterating array %d, element %zu differs", what, s, i);
    }
    if (i != x.size()) fail("wrong-data", "%s: iterating array %d gives %zu elements, size() is %zu", what, s, i, x.size());
    if (!k.attrs.empty() && n) {
      // names are aliases of the coordinates of the last axis
      for (size_t t = 0; t < k.attrs.size(); ++t) {
        ref::Shape c(k.shape.size() - 1, 0);
        ref::Shape f(c);
        f.push_back(t);
        if (&x.at(c, k.attrs[t]) != &x.at(f)) fail("wrong-attributes", "%s: array %d finds %s at another place than coordinate %zu", what, s, k.attrs[t].c_str(), t);
      }
    }
  }
  void check_all(const char* what) {
    for (int s = 0; s < NSLOT; ++s) check(s, what);
  }
};

ref::Shape op_shape(const Op& o, int at) {
  ref::Shape s;
  int        nd = 1 + o.v[at] % 3;
  for (int i = 0; i < nd; ++i) s.push_back((size_t)(1 + (o.v[at + 1 + i] % 5)));
  return s;
}

// runs f with failing allocations; true if it returned, false if memory ran out
template <typename F> bool attempt(const char* what, F f) {
  enable_faults(true);
  try {
    f();
  } catch (const std::bad_alloc&) {
    enable_faults(false);
    event("%s: out of memory", what);
    probe("operation failed for lack of memory");
    return false;
  } catch (...) {
    enable_faults(false);
    throw;
  }
  enable_faults(false);
  return true;
}
template <typename E, typename F> void must_throw(const char* what, F f) {
  bool ok = false;
  try {
    attempt(what, [&] {
      f();
      enable_faults(false);
      fail("no-error", "%s was accepted", what);
    });
    ok = true;  // out of memory
  } catch (const E&) {
    ok = true;
  } catch (const std::exception& e) {
    fail("wrong-error", "%s: %s", what, typeid(e).name());
  }
  (void)ok;
}

template <typename T> void run_hist_t(const Plan& p) {
  World<T> w;
  auto&    a = w.a;
  auto&    m = w.m;
  int      step = 0;
  for (auto& o : p.ops) {
    int s = o.v[1] % NSLOT, t = o.v[2] % NSLOT;
    ++step;
    const char* what = "?";
    switch (o.kind()) {
    case NEW: {
      what = "construction";
      Model<T> k;
      k.shape = op_shape(o, 3);
      if (o.v[7] & 4)
        for (int i = 0; i <= o.v[7] % 3; ++i) k.attrs.push_back("n" + std::to_string(i));
      ref::Shape plain = k.shape;
      if (!k.attrs.empty()) k.shape.push_back(k.attrs.size());
      k.strides(1);
      std::vector<T> d;
      for (size_t i = 0; i < k.n(); ++i) d.push_back((o.v[7] & 3) == 3 ? T{} : val<T>((u64)step * 1000 + i));
      k.store = std::make_shared<std::vector<T>>(d);
      if (o.v[7] & 8) {
        std::vector<T> bad(d);
        bad.push_back(T{});
        must_throw<std::invalid_argument>("data that do not match the shape", [&] { NdArray<T> x(plain, k.attrs, bad); });
        must_throw<std::invalid_argument>("iterators that do not match the shape", [&] { NdArray<T> x(plain, k.attrs, bad.begin(), bad.end()); });
      }
      std::unique_ptr<NdArray<T>> nw;
      if (attempt(what, [&] {
            switch (o.v[7] & 3) {
            case 0: nw.reset(new NdArray<T>(plain, k.attrs, d)); break;
            case 1: nw.reset(new NdArray<T>(plain, k.attrs, std::move(d))); break;
            case 2: nw.reset(new NdArray<T>(plain, k.attrs, d.begin(), d.end())); break;
            default: nw.reset(new NdArray<T>(plain, k.attrs)); break;
            }
          })) {
        a[s] = std::move(nw);
        m[s] = k;
      }
      break;
    }
    case ALIAS: {
      what = "copy construction";
      if (!a[s]) break;
      std::unique_ptr<NdArray<T>> nw;
      if (attempt(what, [&] { nw.reset(new NdArray<T>(*a[s])); })) {
        Model<T> k = m[s];
        a[t]       = std::move(nw);
        m[t]       = k;
      }
      break;
    }
    case MOVE: {
      what = "move construction";
      if (!a[s] || s == t) break;
      std::unique_ptr<NdArray<T>> nw;
      if (attempt(what, [&] { nw.reset(new NdArray<T>(std::move(*a[s]))); })) {
        Model<T> k = m[s];
        a[t]       = std::move(nw);
        m[t]       = k;
        a[s].reset();
      }
      break;
    }
    case ASSIGN: {
      what = "assignment";
      if (!a[s] || !a[t]) break;
      if (attempt(what, [&] { *a[t] = *a[s]; }))
        m[t] = m[s];
      else
        a[t].reset();  // half assigned: nothing is promised
      break;
    }
    case DEEP: {
      what = "copy()";
      if (!a[s]) break;
      std::unique_ptr<NdArray<T>> nw;
      if (attempt(what, [&] { nw.reset(new NdArray<T>(a[s]->copy())); })) {
        Model<T> k;
        k.shape = m[s].shape;
        k.attrs = m[s].attrs;
        k.strides(1);
        k.store = std::make_shared<std::vector<T>>();
        for (size_t i = 0; i < m[s].n(); ++i) k.store->push_back(m[s].el(i));
        a[t] = std::move(nw);
        m[t] = k;
        if (m[s].stride != k.stride) probe("copy of a view with gaps");
      }
      break;
    }
    case SET: {
      what = "writing an element";
      if (!a[s] || !m[s].n()) break;
      size_t     i = (size_t)o.v[3] % m[s].n();
      ref::Shape c = m[s].coords(i);
      T          v = val<T>((u64)o.v[4] + 7);
      if (attempt(what, [&] {
            if (o.v[5] % 3 == 0)
              a[s]->at(c) = v;
            else if (o.v[5] % 3 == 1 && c.back() < m[s].attrs.size())
              a[s]->at(ref::Shape(c.begin(), c.end() - 1), m[s].attrs[c.back()]) = v;
            else
              switch (c.size()) {
              case 1: a[s]->at(c[0]) = v; break;
              case 2: a[s]->at(c[0], c[1]) = v; break;
              case 3: a[s]->at(c[0], c[1], c[2]) = v; break;
              case 4: a[s]->at(c[0], c[1], c[2], c[3]) = v; break;
              default: a[s]->at(c) = v;
              }
          }))
        m[s].el(i) = v;
      break;
    }
    case OUT: {
      what = "an access out of bounds";
      if (!a[s] || !m[s].n()) break;
      ref::Shape c = m[s].coords((size_t)o.v[3] % m[s].n());
      size_t     d = (size_t)o.v[4] % c.size();
      c[d]         = m[s].shape[d] + (size_t)(o.v[5] % 3);
      if (o.v[5] % 5 == 4) c.push_back(0);
      const NdArray<T>& x = *a[s];
      must_throw<std::out_of_range>("a coordinate out of bounds", [&] { if (o.v[6] % 2) a[s]->at(c); else x.at(c); });
      must_throw<std::out_of_range>("an unknown attribute", [&] { x.at(ref::Shape(m[s].shape.size() - 1, 0), std::string("nope")); });
      if (!m[s].attrs.empty()) must_throw<std::out_of_range>("a wrong number of coordinates with an attribute", [&] { x.at(ref::Shape(o.v[5] % 2 && m[s].shape.size() > 1 ? m[s].shape.size() - 2 : m[s].shape.size(), 0), m[s].attrs[0]); });
      if (m[s].shape.size() > 1) {
        must_throw<std::out_of_range>("a slice out of bounds", [&] { a[s]->slice(m[s].shape[0] + (size_t)(o.v[5] % 2)); });
        must_throw<std::out_of_range>("a slice out of bounds on the last axis", [&] { x.rslice(m[s].shape.back() + (size_t)(o.v[5] % 2)); });
      } else
        must_throw<std::out_of_range>("a slice of a one dimensional array", [&] { a[s]->slice(0); });
      break;
    }
    case SLICE:
    case RSLICE: {
      bool r = o.kind() == RSLICE;
      what   = r ? "rslice" : "slice";
      if (!a[s] || m[s].shape.size() < 2) break;
      size_t                      i = (size_t)o.v[3] % (r ? m[s].shape.back() : m[s].shape[0]);
      std::unique_ptr<NdArray<T>> nw;
      const NdArray<T>&           x = *a[s];
      if (attempt(what, [&] {
            if (o.v[4] % 2)
              nw.reset(new NdArray<T>(r ? a[s]->rslice(i) : a[s]->slice(i)));
            else
              nw.reset(new NdArray<T>(r ? x.rslice(i) : x.slice(i)));
          })) {
        Model<T> k = m[s];
        k.grown    = false;
        k.off += i * (r ? k.stride.back() : k.stride[0]);
        if (r) {
          k.shape.pop_back();
          k.stride.pop_back();
          k.attrs.clear();
        } else {
          k.shape.erase(k.shape.begin());
          k.stride.erase(k.stride.begin());
        }
        a[t] = std::move(nw);
        m[t] = k;
      }
      break;
    }
    case RESHAPE: {
      what = "reshape";
      if (!a[s] || m[s].grown) break;
      size_t     n = m[s].n();
      ref::Shape ns;
      // a factorisation of n, or something else
      size_t d = 1 + (size_t)o.v[3] % 6, e = 1 + (size_t)o.v[4] % 4;
      bool   bad = o.v[5] % 4 == 0;
      if (bad)
        ns = {n + 1 + (size_t)o.v[3] % 2};
      else if (n % (d * e) == 0 && o.v[5] % 2)
        ns = {d, n / (d * e), e};
      else if (n % d == 0)
        ns = {d, n / d};
      else
        ns = {n};
      if (!m[s].attrs.empty()) {
        must_throw<std::invalid_argument>("reshaping an array with attribute names", [&] { a[s]->reshape(ns); });
        break;
      }
      if (bad) {
        must_throw<std::range_error>("a shape with another number of elements", [&] { a[s]->reshape(ns); });
        break;
      }
      if (attempt(what, [&] {
            if (o.v[6] % 2 && ns.size() == 2)
              a[s]->reshape(ns[0], ns[1]);
            else
              a[s]->reshape(ns);
          })) {
        if (m[s].stride.back() != 1) probe("reshape of a view with gaps");
        size_t base  = m[s].stride.back();
        m[s].shape   = ns;
        m[s].strides(base);
      }
      break;
    }
    case CONCAT: {
      what = "concatenation";
      if (!a[s] || !a[t] || m[t].grown) break;
      Model<T>&  k = m[s];
      bool       fits = k.shape.size() == m[t].shape.size();
      for (size_t i = 1; fits && i < k.shape.size(); ++i) fits = k.shape[i] == m[t].shape[i];
      if (!fits) {
        must_throw<std::length_error>("a concatenation of arrays that do not match", [&] { a[s]->concatenate(*a[t]); });
        break;
      }
      bool whole = k.off == 0 && k.n() == k.store->size();
      if (!whole) {
        // a view can not grow: refused, and nothing changes
        try {
          attempt(what, [&] {
            a[s]->concatenate(*a[t]);
            enable_faults(false);
            fail("view-grown", "a concatenation to a view of a bigger array was accepted");
          });
        } catch (const std::exception& e) {
          event("concatenation to a view refused");
          probe("concatenation to a view refused");
        }
        break;
      }
      std::vector<T> add;
      for (size_t i = 0; i < m[t].n(); ++i) add.push_back(m[t].el(i));
      size_t rows = m[t].shape[0];
      size_t size0 = a[s]->size();
      if (attempt(what, [&] { a[s]->concatenate(*a[t]); })) {
        k.store->insert(k.store->end(), add.begin(), add.end());
        k.shape[0] += rows;
        if (!k.grown) k.stale = size0;
        k.grown = true;
        if (a[s]->size() != k.n()) sfail("concat-stale-size", "after a concatenation size() and iteration are those of the array before it");
        if (s == t) probe("array concatenated to itself");
      }
      break;
    }
    case OPS: {
      what = "operations";
      if (!a[s] || m[s].grown || !m[s].n()) break;
      const NdArray<T>& x = *a[s];
      Model<T>&         k = m[s];
      T                 total{};
      size_t            mx = 0, mn = 0;
      for (size_t i = 0; i < k.n(); ++i) {
        total += k.el(i);
        if (k.el(mx) < k.el(i)) mx = i;
        if (k.el(i) < k.el(mn)) mn = i;
      }
      attempt(what, [&] {
        if (!(sum(x) == total)) fail("wrong-sum", "the sum of the elements is wrong");
        if (argmax(x) != k.coords(mx) || argmin(x) != k.coords(mn)) fail("wrong-extreme", "argmax or argmin is wrong");
        int        ax = o.v[3] % (int)k.shape.size();
        NdArray<T> r  = sum(x, o.v[4] % 2 ? ax : ax - (int)k.shape.size());
        enable_faults(false);
        ref::Shape rs = k.shape;
        rs.erase(rs.begin() + ax);
        if (rs.empty()) rs.push_back(1);
        if (r.shape() != rs) fail("wrong-sum", "the sum along an axis has the wrong shape");
        for (size_t i = 0; i < ref::count(rs); ++i) {
          Model<T> rm;
          rm.shape     = rs;
          ref::Shape c = rm.coords(i);
          T          v{};
          for (size_t j = 0; j < k.shape[ax]; ++j) {
            ref::Shape f = c;
            if (k.shape.size() == 1)
              f[0] = j;
            else
              f.insert(f.begin() + ax, j);
            v += x.at(f);
          }
          if (!(r.at(c) == v)) fail("wrong-sum", "the sum along axis %d is wrong", ax);
        }
      });
      break;
    }
    case WALK: {
      what = "iterators";
      if (!a[s] || m[s].grown || !m[s].n()) break;
      Model<T>& k = m[s];
      size_t    n = k.n(), i = (size_t)o.v[3] % n, j = (size_t)o.v[4] % n;
      auto      b = a[s]->begin();
      auto      it = b + i;
      if (memcmp(&*it, &k.el(i), sizeof(T))) fail("wrong-iterator", "begin() + %zu is another element", i);
      if ((size_t)(a[s]->end() - b) != n) fail("wrong-iterator", "end() - begin() is not the size");
      typename NdArray<T>::const_iterator ci(it);
      if (memcmp(&*ci, &k.el(i), sizeof(T))) fail("wrong-iterator", "a constant iterator points to another element");
      auto old = it++;
      if (memcmp(&*old, &k.el(i), sizeof(T))) fail("wrong-iterator", "the post-increment does not return the position before");
      if (it - b != (std::ptrdiff_t)i + 1) fail("wrong-iterator", "the post-increment does not move the iterator");
      it -= 1;
      it += (j >= i ? j - i : 0);
      size_t at = j >= i ? j : i;
      if (memcmp(&*it, &k.el(at), sizeof(T)) || memcmp(&b[at], &k.el(at), sizeof(T))) fail("wrong-iterator", "an iterator moved to %zu is at another element", at);
      if ((b < it) != (at > 0) || (it > b) != (at > 0)) fail("wrong-iterator", "iterators are not ordered as their positions");
      T v = val<T>((u64)o.v[5] + 3);
      *it        = v;
      k.el(at)   = v;
      // equality: shape and content
      if (a[t] && !m[t].grown) {
        bool eq = k.shape == m[t].shape;
        for (size_t x = 0; eq && x < n; ++x) eq = k.el(x) == m[t].el(x);
        if ((*a[s] == *a[t]) != eq || (*a[s] != *a[t]) == eq) fail("wrong-equality", "two arrays compare %s", eq ? "different" : "equal");
      }
      std::ostringstream os, want;
      os << *a[s];
      want << "<";
      for (size_t d = 0; d < k.shape.size(); ++d) want << (d ? "," : "") << k.shape[d];
      want << ">";
      for (size_t x = 0; x < n; ++x) want << (x ? "," : "") << k.el(x);
      if (os.str() != want.str()) fail("wrong-text", "an array is printed as %s", os.str().c_str());
      break;
    }
    case DROP:
      what = "destruction";
      a[s].reset();
      break;
    }
    event("%s %d %d", what, s, t);
    w.check_all(what);
  }
}

void gen_hist(Rng& r, Plan& p) {
  p.cfg["type"] = r.below(3);
  int n         = (int)r.range(3, 24);
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(5, 200);
  for (int i = 0; i < n; ++i) {
    int k = i < 2 ? (int)NEW : (int)r.range(NEW, DROP);
    if (r.chance(1, 10)) k = NEW;
    Op o(k);
    for (int j = 1; j < 8; ++j) o.v[j] = (int)r.below(1000);
    if (k == NEW && r.chance(1, 2)) {  // shapes that match each other now and then
      o.v[3] = 1;
      o.v[4] = (int)r.below(4);
      o.v[5] = 2;
    }
    if (k == NEW) o.v[7] = (int)r.below(16);
    o.v[1] = (int)r.below(NSLOT);
    o.v[2] = (int)r.below(NSLOT);
    p.ops.push_back(o);
  }
}
void run_hist(const Plan& p) {
  enable_faults(false);
  switch (p.get("type")) {
  case 0: run_hist_t<int>(p); break;
  case 1: run_hist_t<double>(p); break;
  default: run_hist_t<int8_t>(p); break;
  }
}
Scenario s_hist("nd_hist", "histories of operations on arrays, aliases and views", false, 1, gen_hist, run_hist);
// known finding: the size after a concatenation
void gen_concat(Rng& r, Plan& p) {
  p.cfg["type"] = r.below(3);
  for (int i = 0; i < 2; ++i) p.ops.push_back(Op(NEW, i, 0, 1, (int)r.below(4), 2, 0, 0));
  p.ops.push_back(Op(CONCAT, 0, 1));
}
Scenario s_concat("nd_concat", "one concatenation", false, 1, gen_concat, run_hist);
}  // namespace
