// Qualified names as identifiers, and datasets as values.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/XYDataset.h"
#include <cmath>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_set>

using namespace sim;
using namespace Euclid::XYDataset;

namespace {
template <typename F> int attempt(F op) {
  int r = 0;
  u64 a = faults_fired("alloc");
  enable_faults(true);
  try {
    op();
  } catch (const std::bad_alloc&) {
    r = 2;
  } catch (const Elements::Exception&) {
    r = 1;
  } catch (...) {
    enable_faults(false);
    throw;
  }
  enable_faults(false);
  if (r == 2 && faults_fired("alloc") == a) fail("harness-exception", "out of memory without cause");
  sig(r);
  return r;
}
template <typename F> bool accepted(F op) {
  for (int i = 0; i < 6; ++i) {
    int r = attempt(op);
    if (r != 2) return r == 0;
  }
  try {
    op();
  } catch (const Elements::Exception&) {
    return false;
  }
  return true;
}
struct Name {
  std::vector<std::string> groups;
  std::string              name;
  std::string              text() const {
    std::string s;
    for (auto& g : groups) s += g + "/";
    return s + name;
  }
};
std::string part(Rng& r, bool odd) {
  static const char* const w[] = {"a", "b", "ab", "A", "a b", "a.b", "filters", "MER", ".", "a b ", "\xc3\xa9", "a-very-long-name-that-is-not-stored-inside-of-the-string-itself"};
  if (odd && r.chance(1, 6)) return r.chance(1, 2) ? "" : r.chance(1, 2) ? "a/b" : "/";
  return w[r.chance(1, 2) ? r.below(3) : r.below(12)];
}
void look(const QualifiedName& q, const Name& n) {
  if (q.groups() != n.groups || q.datasetName() != n.name || q.qualifiedName() != n.text()) fail("wrong-name", "the name '%s' is '%s' in '%s'", n.text().c_str(), q.datasetName().c_str(), q.qualifiedName().c_str());
  std::ostringstream o;
  o << q;
  if (o.str() != n.text()) fail("wrong-name", "the name '%s' is printed as '%s'", n.text().c_str(), o.str().c_str());
}
void gen(Rng& r, Plan& p) {
  p.cfg["odd"] = r.range(0, 1);
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(1, 150);
  int n = (int)r.range(1, 10);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op((int)r.below(4), (i64)r.range(0, 10000000)));
}
void run(const Plan& p) {
  enable_faults(false);
  std::vector<Name>          model;
  std::vector<QualifiedName> names;
  for (auto& o : p.ops) {
    Rng q((u64)o.v[1]);
    sig(o.kind());
    if (o.kind() == 3) {  // a dataset
      std::vector<double> x, y;
      size_t              n = q.below(6);
      for (size_t i = 0; i < n; ++i) x.push_back((double)q.range(-9, 9)), y.push_back((double)q.range(-9, 9) / 4);
      bool ok = true;
      if (q.chance(1, 4)) y.push_back(1), ok = false;
      else if (n && q.chance(1, 4)) y.pop_back(), ok = false;
      std::unique_ptr<XYDataset> d;
      bool                       pairs = ok && q.chance(1, 3);
      std::vector<std::pair<double, double>> both;
      for (size_t i = 0; pairs && i < n; ++i) both.emplace_back(x[i], y[i]);
      bool got = accepted([&] {
        if (pairs) d.reset(new XYDataset(q.chance(1, 2) ? XYDataset::factory(both) : XYDataset(both)));
        else d.reset(new XYDataset(XYDataset::factory(x, y)));
      });
      if (got != ok) fail(got ? "accepted" : "refused", "a dataset of %zu x and %zu y is %s", x.size(), y.size(), got ? "accepted" : "refused");
      if (!got) continue;
      if (q.chance(1, 2)) accepted([&] { std::unique_ptr<XYDataset> c(new XYDataset(*d)); d = std::move(c); });
      if (d->size() != n || (size_t)(d->end() - d->begin()) != n) fail("wrong-size", "a dataset of %zu points has %zu", n, d->size());
      size_t i = 0;
      for (auto& v : *d) {
        if (v.first != x[i] || v.second != y[i]) fail("wrong-point", "point %zu of a dataset is (%g,%g) and not (%g,%g)", i, v.first, v.second, x[i], y[i]);
        ++i;
      }
      if (n && (d->front() != *d->begin() || d->back() != *(d->end() - 1))) fail("wrong-point", "the first or last point is another one");
      continue;
    }
    Name n;
    for (u64 k = q.below(4); k-- > 0;) n.groups.push_back(part(q, p.get("odd")));
    n.name = part(q, p.get("odd"));
    if (!model.empty() && q.chance(1, 3)) {  // related to one that is there
      n = model[q.below(model.size())];
      if (q.chance(1, 2)) n.groups.push_back(n.name), n.name = part(q, false);
      else if (q.chance(1, 2) && !n.groups.empty()) n.name = n.groups.back(), n.groups.pop_back();
    }
    bool byString = o.kind() == 1;
    if (byString) {  // the string is what counts
      std::string t = n.text();
      n.groups.clear();
      size_t a = 0, b;
      while ((b = t.find('/', a)) != std::string::npos) n.groups.push_back(t.substr(a, b - a)), a = b + 1;
      n.name = t.substr(a);
    }
    bool ok = !n.name.empty() && n.name.find('/') == std::string::npos;
    for (auto& g : n.groups) ok = ok && !g.empty() && g.find('/') == std::string::npos;
    std::unique_ptr<QualifiedName> made;
    bool got = accepted([&] { byString ? made.reset(new QualifiedName(n.text())) : made.reset(new QualifiedName(n.groups, n.name)); });
    event("%s: %d", n.text().c_str(), (int)got);
    if (got != ok) fail(got ? "accepted" : "refused", "the name '%s' is %s", n.text().c_str(), got ? "accepted" : "refused");
    if (!got) continue;
    look(*made, n);
    if (q.chance(1, 3)) {
      QualifiedName other(q.chance(1, 2) ? "zz" : "y/zz");
      for (int i = 0; i < 3 && attempt([&] { other = *made; }) != 0;) ++i;
      NoFaults nf;
      other = *made;
      if (q.chance(1, 2)) {
        QualifiedName third(std::move(other));
        made.reset(new QualifiedName(third));
      } else made.reset(new QualifiedName(other));
      look(*made, n);
    }
    model.push_back(n);
    names.push_back(*made);
  }
  // as identifiers
  std::set<QualifiedName>                                        ordered;
  std::unordered_set<QualifiedName>                              hashed;
  std::set<QualifiedName, QualifiedName::AlphabeticalComparator> alphabetical;
  std::set<std::string>                                          texts;
  for (size_t i = 0; i < names.size(); ++i) {
    ordered.insert(names[i]), hashed.insert(names[i]), alphabetical.insert(names[i]), texts.insert(model[i].text());
    for (size_t j = 0; j < names.size(); ++j) {
      auto &a = names[i], &b = names[j];
      bool  same = model[i].text() == model[j].text();
      if ((a == b) != same || (a != b) == same) fail("wrong-equality", "'%s' and '%s' are %s", model[i].text().c_str(), model[j].text().c_str(), same ? "different" : "the same");
      if (same && (a.hash() != b.hash() || std::hash<QualifiedName>()(a) != std::hash<QualifiedName>()(b))) fail("wrong-hash", "equal names have different hashes");
      if (same ? (a < b || b < a) : (a < b) == (b < a)) fail("wrong-order", "'%s' and '%s' are not ordered", model[i].text().c_str(), model[j].text().c_str());
      if (QualifiedName::AlphabeticalComparator()(a, b) != (model[i].text() < model[j].text())) fail("wrong-order", "'%s' and '%s' are not in alphabetical order", model[i].text().c_str(), model[j].text().c_str());
      for (size_t k = 0; k < names.size(); ++k)
        if (a < b && b < names[k] && !(a < names[k])) fail("wrong-order", "the order of names is not transitive");
      std::string g = model[j].text() + "/";
      bool        in = model[i].text().compare(0, g.size(), g) == 0;
      if (a.belongsInGroup(b) != in) fail("wrong-group", "'%s' is%s in the group '%s'", model[i].text().c_str(), in ? " not" : "", model[j].text().c_str());
    }
  }
  if (ordered.size() != texts.size() || hashed.size() != texts.size() || alphabetical.size() != texts.size()) fail("wrong-order", "%zu names are %zu, %zu and %zu in collections", texts.size(), ordered.size(), hashed.size(), alphabetical.size());
  auto t = texts.begin();
  for (auto& n : alphabetical)
    if (n.qualifiedName() != *t++) fail("wrong-order", "a collection is not in alphabetical order");
}
Scenario s("xy_names", "qualified names as identifiers, datasets as values", false, 1, gen, run);
}  // namespace
