// XY datasets: a directory tree read through a file system that fails, and the cache in front of a provider that fails.
#include "simio.h"
#include "ElementsKernel/Exception.h"
#include "XYDataset/AsciiParser.h"
#include "XYDataset/CachedProvider.h"
#include "XYDataset/FileSystemProvider.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/XYDataset.h"
#include <boost/filesystem.hpp>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace sim;
using namespace Euclid::XYDataset;
namespace fs = boost::filesystem;

namespace {
typedef std::vector<std::pair<double, double>> Points;

// ------------------------------------------------------------------ the tree
enum { FILE_ = 1, ORDER, LIST, GET, PARAM, CHANGE, REMOVE, NOP };
const char* const DIRS[]  = {"", "a", "a/b", "ab", "filters", "filters/MER", "b c", "Z"};
const char* const NAMES[] = {"f0.txt", "f1.txt", "g.dat", "plain", "x.y.dat", "A.txt", "zz", ".hidden", "f10.txt", "o rder.txt", "f1.dat", "g", "f1"};
const int         NDIR = 8, NNAME = 13;

struct File {
  bool                               dataset = false;
  std::string                        text, first_word;
  std::map<std::string, std::string> params;
  Points                             points;
};
double value(Rng& r) {
  switch (r.below(4)) {
  case 0: return (double)r.range(-4000, 4000) / 8;
  case 1: return (double)r.range(0, 100000);
  case 2: return (double)r.range(1, 1000000) * 1e-20;
  default: return (double)(i64)r.next() / 3.0;
  }
}
std::string digits(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
File make_file(int kind, u64 seed) {
  File f;
  Rng  r(seed * 31 + 7);
  int  blank = (int)r.below(3);
  for (int i = 0; i < blank; ++i) f.text += "\n";
  if (r.chance(1, 3)) {
    f.first_word = "word" + std::to_string(r.below(40));
    f.text += (r.chance(1, 2) ? "# " : "  #") + f.first_word + "\n";
  }
  auto param = [&](const std::string& k, const std::string& v) {
    f.text += (r.chance(1, 2) ? "# " : " #") + k + (r.chance(1, 2) ? " : " : ":") + v + (r.chance(1, 3) ? "  " : "") + "\n";
    auto& x = f.params[k];
    x += (x.empty() ? "" : ";") + v;
  };
  if (r.chance(1, 3)) param("NAME", "named " + std::to_string(r.below(25)));
  int n = (int)r.below(4);
  for (int i = 0; i < n; ++i) param(r.chance(1, 2) ? "KEY" : "KEY_2", "v" + std::to_string(r.below(100)) + (r.chance(1, 3) ? " w" : ""));
  if (r.chance(1, 3)) f.text += "# and a remark about this\n";
  n         = kind >= 4 ? (int)r.range(1, 4) : (int)r.range(1, 25);
  bool late = false;
  switch (kind) {
  case 0: f.text += "some text\n"; break;
  case 1: f.text += "1 2 3\n4 5 6\n"; break;
  case 2: break;  // no data
  case 3: f.text += "1.5 abc\n"; break;
  default:
    f.dataset = true;
    for (int i = 0; i < n; ++i) {
      double x = value(r), y = value(r);
      f.points.emplace_back(x, y);
      f.text += (r.chance(1, 4) ? " " : "") + digits(x) + (r.chance(1, 3) ? "\t" : "  ") + digits(y) + "\n";
      if (r.chance(1, 6)) f.text += "\n";
      if (r.chance(1, 8)) f.text += "# between\n";
      if (r.chance(1, 12) && !late) param("KEY", "late"), late = true;
    }
    if (r.chance(1, 3))
      while (f.text.back() == '\n') f.text.pop_back();
  }
  return f;
}
std::string stem(const std::string& n) { return n.substr(0, n.find_last_of('.')); }
std::string name_of(const File& f, const std::string& filename) {
  auto i = f.params.find("NAME");
  if (i != f.params.end()) return i->second;
  return f.first_word.empty() ? stem(filename) : f.first_word;
}
struct Tree {
  std::map<std::string, File>                     files;  // by relative path
  std::map<std::string, std::vector<std::string>> order;  // by directory
  struct Entry {
    std::string group, name, file;
    std::string q() const { return group.empty() ? name : group + "/" + name; }
  };
  std::vector<Entry> list;
  bool               duplicate = false;
};
void walk(Tree& t, const std::string& root, const std::string& dir) {
  std::vector<std::string> names;
  for (fs::directory_iterator i(root + "/" + dir), e; i != e; ++i) names.push_back(i->path().filename().string());
  std::sort(names.begin(), names.end());
  std::vector<std::string> all = t.order.count(dir) ? t.order[dir] : std::vector<std::string>();
  for (auto& n : names)
    if (std::find(all.begin(), all.end(), n) == all.end()) all.push_back(n);
  for (auto& n : all) {
    std::string rel = dir.empty() ? n : dir + "/" + n;
    if (fs::is_directory(root + "/" + rel)) {
      walk(t, root, rel);
      continue;
    }
    auto f = t.files.find(rel);
    if (f == t.files.end() || !f->second.dataset) continue;
    Tree::Entry e{dir, name_of(f->second, n), rel};
    if (e.name.empty()) continue;
    for (auto& o : t.list) t.duplicate |= o.q() == e.q();
    t.list.push_back(e);
  }
}
void put(const std::string& path, const std::string& text) {
  Quiet         q;
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o << text;
}
std::string slashes(const std::string& g, int style) {
  return std::string(style % 3, '/') + g + std::string(style / 3 % 3, '/');
}
u64 hits() { return faults_fired("io_open") + faults_fired("io_read") + faults_fired("io_readdir"); }

void gen_tree(Rng& r, Plan& p) {
  int n = (int)r.range(1, 8);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(FILE_, (int)r.below(NDIR), (int)r.below(NNAME), (int)r.below(16), (int)r.below(100000)));
  n = (int)r.below(3);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(ORDER, (int)r.below(NDIR), (int)r.below(100000)));
  n = (int)r.range(1, 10);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(12);
    p.ops.push_back(Op(k < 3 ? LIST : k < 7 ? GET : k < 9 ? PARAM : k < 11 ? CHANGE : REMOVE, (int)r.below(64), (int)r.below(100000), (int)r.below(9)));
  }
  p.cfg["root_style"] = r.below(4);
  p.cfg["cached"]     = r.chance(1, 2);
  p.cfg["late"]       = r.below(2);
  if (r.chance(1, 3)) p.cfg["f_io_read"] = r.range(10, 200);
  if (r.chance(1, 4)) p.cfg["f_io_open"] = r.range(10, 200);
  if (r.chance(1, 5)) p.cfg["f_io_readdir"] = r.range(10, 200);
  if (r.chance(1, 2)) p.cfg["f_io_short_read"] = r.range(100, 700);
  if (r.chance(1, 2)) p.cfg["f_io_eintr"] = r.range(50, 300);
}
void run_tree(const Plan& p) {
  enable_faults(false);
  std::string root = scratch() + "/tree";
  Tree        t;
  {
    Quiet q;
    fs::create_directory(root);
    for (auto& o : p.ops) {
      if (o.kind() == FILE_) {
        std::string d = DIRS[o.v[1] % NDIR], rel = (d.empty() ? "" : d + "/") + NAMES[o.v[2] % NNAME];
        fs::create_directories(root + "/" + d);
        t.files[rel] = make_file(o.v[3], (u64)o.v[4]);
        put(root + "/" + rel, t.files[rel].text);
      }
      if (o.kind() == ORDER) {
        std::string d = DIRS[o.v[1] % NDIR];
        if (!fs::is_directory(root + "/" + d)) continue;
        std::vector<std::string> names, order;
        for (fs::directory_iterator i(root + "/" + d), e; i != e; ++i)
          if (i->path().filename() != "order.txt") names.push_back(i->path().filename().string());
        std::sort(names.begin(), names.end());
        Rng         r((u64)o.v[2] + 3);
        std::string text;
        while (!names.empty() && !r.chance(1, 5)) {
          size_t i = r.below(names.size());
          order.push_back(names[i]);
          text += (r.chance(1, 4) ? " " : "") + names[i] + (r.chance(1, 4) ? " # remark" : "") + "\n";
          if (r.chance(1, 6)) text += "not-there.txt\n";
          if (r.chance(1, 6)) text += "\n# comment\n";
          names.erase(names.begin() + i);
        }
        if (r.chance(1, 3) && !text.empty()) text.pop_back();
        put(root + "/" + d + "/order.txt", text);
        t.order[d] = order;
      }
    }
    walk(t, root, "");
  }
  const char* const           style[] = {"", "/", "//", "/./"};
  std::shared_ptr<XYDatasetProvider> prov;
  enable_faults(true);
  std::string why;
  try {
    prov = std::make_shared<FileSystemProvider>(root + style[p.get("root_style") % 4], std::unique_ptr<FileParser>(new AsciiParser()));
  } catch (const std::exception& e) {
    why = e.what();
  }
  enable_faults(false);
  event("constructor: %s", prov ? "ok" : "error");
  sig(prov != nullptr);
  if (!prov) {
    if (!hits() && !t.duplicate) fail("refused", "the provider refused a good tree: %s", why.c_str());
    if (hits()) probe("disk error reported by the constructor");
    else probe("duplicate name reported");
    // the tree is good once the disk is
    if (!t.duplicate) try {
        prov = std::make_shared<FileSystemProvider>(root + style[p.get("root_style") % 4], std::unique_ptr<FileParser>(new AsciiParser()));
      } catch (const std::exception& e) {
        fail("refused", "the provider refused a good tree after the disk recovered: %s", e.what());
      }
    else return;
  }
  if (p.get("root_style") % 2) {
    bool no = false;
    try {
      FileSystemProvider x(root + "/not there", std::unique_ptr<FileParser>(new AsciiParser()));
    } catch (const std::exception&) { no = true; }
    if (!no) fail("accepted", "a directory that does not exist is accepted");
  }
  u64  skipped = faults_fired("io_open");  // a file that can not be opened is not a dataset
  if (!why.empty()) skipped = 0;
  if (t.duplicate && !skipped) fail("duplicate-accepted", "two datasets have the same qualified name");
  if (t.duplicate) return;
  {
    auto   l = prov->listContents("");
    size_t k = 0, missing = 0;
    std::vector<Tree::Entry> kept;
    for (auto& e : t.list) {
      if (k < l.size() && l[k].qualifiedName() == e.q()) ++k, kept.push_back(e);
      else ++missing;
    }
    if (k != l.size() || missing > skipped) {
      std::string a, b;
      for (auto& e : t.list) a += e.q() + ", ";
      for (auto& e : l) b += e.qualifiedName() + ", ";
      fail("wrong-list", "the provider lists %s the tree has %s", b.c_str(), a.c_str());
    }
    if (missing) probe("file skipped");
    t.list = kept;
  }
  bool cached = p.get("cached");
  if (cached) prov = std::make_shared<CachedProvider>(prov);
  std::map<std::string, std::unique_ptr<Points>> memory;  // what the cache has
  bool late = p.get("late");
  for (auto& o : p.ops) {
    u64    h0 = hits();
    size_t n  = t.list.size();
    bool   known = n && o.v[1] % (n + 1) < n;
    const Tree::Entry* e = known ? &t.list[o.v[1] % (n + 1)] : nullptr;
    switch (o.kind()) {
    case LIST: {
      std::string g = DIRS[o.v[1] % NDIR];
      auto        l = prov->listContents(slashes(g, o.v[3]));
      std::string want, got;
      for (auto& x : t.list)
        if (g.empty() || x.group == g || x.group.compare(0, g.size() + 1, g + "/") == 0) want += x.q() + ", ";
      for (auto& x : l) got += x.qualifiedName() + ", ";
      if (want != got) fail("wrong-list", "listContents(%s) is %s expected %s", slashes(g, o.v[3]).c_str(), got.c_str(), want.c_str());
      for (auto& x : l) {
        std::string s;
        for (auto& y : x.groups()) s += y + "/";
        if (s + x.datasetName() != x.qualifiedName()) fail("wrong-list", "the parts of %s do not match", x.qualifiedName().c_str());
      }
      break;
    }
    case GET: {
      QualifiedName q = e ? QualifiedName(e->q()) : QualifiedName("no/such");
      bool          there = e && t.files.count(e->file);
      Points        want;
      bool          null = !there;
      if (there) want = t.files[e->file].points;
      auto m = memory.find(q.qualifiedName());
      if (cached && m != memory.end()) {
        null = !m->second;
        if (!null) want = *m->second;
      }
      std::unique_ptr<XYDataset> d;
      bool                       thrown = false;
      enable_faults(late);
      try {
        d = prov->getDataset(q);
      } catch (const std::exception& x) {
        thrown = true;
        why    = x.what();
      }
      enable_faults(false);
      event("get %s: %s", q.qualifiedName().c_str(), thrown ? "error" : d ? "data" : "null");
      sig(thrown + 2 * !!d);
      if (thrown) {
        if (hits() == h0) fail("read-failed", "getDataset threw without a fault: %s", why.c_str());
        if (cached && m != memory.end()) fail("read-failed", "a cached dataset could not be read");
        probe("disk error reported by getDataset");
        break;
      }
      if (!d != null) fail(null ? "phantom-dataset" : "lost-dataset", "getDataset(%s) returned %s", q.qualifiedName().c_str(), d ? "a dataset" : "nothing although its file is there");
      if (d && Points(d->begin(), d->end()) != want) fail("wrong-data", "getDataset(%s) returned %zu points, %zu expected, or they differ", q.qualifiedName().c_str(), d->size(), want.size());
      if (cached) memory[q.qualifiedName()].reset(null ? nullptr : new Points(want));
      break;
    }
    case PARAM: {
      QualifiedName q  = e ? QualifiedName(e->q()) : QualifiedName("no/such");
      std::string   kw = o.v[2] % 3 == 0 ? "KEY" : o.v[2] % 3 == 1 ? "KEY_2" : "NAME", v;
      bool          there = e && t.files.count(e->file), thrown = false;
      enable_faults(late);
      try {
        v = prov->getParameter(q, kw);
      } catch (const std::exception&) {
        thrown = true;
      }
      enable_faults(false);
      event("param %s: %s", q.qualifiedName().c_str(), thrown ? "error" : v.c_str());
      if (thrown) {
        if (hits() == h0 && !(e && !there)) fail("read-failed", "getParameter threw without a fault");
        break;
      }
      if (e && !there) break;
      std::string want = there && t.files[e->file].params.count(kw) ? t.files[e->file].params[kw] : "";
      if (v != want) fail("wrong-parameter", "parameter %s of %s is '%s', expected '%s'", kw.c_str(), q.qualifiedName().c_str(), v.c_str(), want.c_str());
      break;
    }
    case CHANGE:
      if (!e || !t.files.count(e->file)) break;
      t.files[e->file] = make_file(5, (u64)o.v[2]);
      put(root + "/" + e->file, t.files[e->file].text);
      break;
    case REMOVE:
      if (!e || !t.files.count(e->file)) break;
      t.files.erase(e->file);
      {
        Quiet q;
        fs::remove(root + "/" + e->file);
      }
      break;
    }
  }
}
Scenario s_tree("xy_tree", "a tree of dataset files on a disk that fails and lists in any order", false, 3, gen_tree, run_tree);

// ------------------------------------------------------------------ the cache alone
struct Source : XYDatasetProvider {
  std::map<std::string, int> version;  // of each dataset, 0: none
  int                        lists = 0;
  bool                       failing = false;
  std::map<std::string, int> calls;
  static Points points(const std::string& n, int v) {
    Points p;
    for (int i = 0; i < 3 + v % 4; ++i) p.emplace_back(v * 10 + i, (double)n.size() + i);
    return p;
  }
  void step(const std::string& k) {
    ++calls[k];
    if (failing) throw std::runtime_error("simulated failure");
  }
  std::vector<QualifiedName> listContents(const std::string& g) override {
    step("list " + g);
    std::vector<QualifiedName> r;
    for (int i = 0; i < lists; ++i) r.push_back(QualifiedName("x/n" + std::to_string(i)));
    return r;
  }
  std::unique_ptr<XYDataset> getDataset(const QualifiedName& q) override {
    step("get " + q.qualifiedName());
    int v = version[q.qualifiedName()];
    if (!v) return nullptr;
    return std::unique_ptr<XYDataset>(new XYDataset(XYDataset::factory(points(q.qualifiedName(), v))));
  }
  std::string getParameter(const QualifiedName& q, const std::string& k) override {
    step("param");
    return q.qualifiedName() + k + std::to_string(version[q.qualifiedName()]);
  }
};
void gen_cache(Rng& r, Plan& p) {
  int n = (int)r.range(3, 30);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(10);
    p.ops.push_back(Op(k < 2 ? LIST : k < 6 ? GET : k < 7 ? PARAM : CHANGE, (int)r.below(4), (int)r.below(6), r.chance(1, 4)));
  }
  if (r.chance(1, 2)) p.cfg["f_alloc"] = r.range(2, 60);
}
void run_cache(const Plan& p) {
  enable_faults(false);
  auto           src = std::make_shared<Source>();
  CachedProvider c(src);
  std::map<std::string, int> data, lists;
  std::vector<std::pair<std::unique_ptr<XYDataset>, Points>> held;
  for (auto& o : p.ops) {
    std::string name = "g/d" + std::to_string(o.v[1]), group = o.v[1] % 2 ? "g" : "";
    bool        thrown = false;
    u64         a0     = faults_fired("alloc");
    src->failing       = o.v[3];
    int         before;
    switch (o.kind()) {
    case CHANGE:
      src->version[name] = o.v[2];
      src->lists         = o.v[2];
      break;
    case LIST: {
      std::vector<QualifiedName> l;
      before = src->calls["list " + group];
      enable_faults(true);
      try {
        l = c.listContents(group);
      } catch (const std::exception&) {
        thrown = true;
      }
      enable_faults(false);
      bool oom = faults_fired("alloc") != a0, known = lists.count(group);
      int  used = src->calls["list " + group] - before;
      if (known && used) fail("cache-miss", "a list was asked for again");
      if (thrown && !oom && (known || !src->failing)) fail("read-failed", "listContents threw without a failure of the provider");
      if (!thrown && !known && src->failing) fail("swallowed-error", "listContents returned although the provider failed");
      if (o.v[3] && !known) count_fault("provider_failure");
      if (thrown) {
        // whether it was remembered shows in the next call; only a list of the provider can be
        if (!src->failing && oom && used) {
          NoFaults nf;
          before = src->calls["list " + group];
          auto x = c.listContents(group);
          lists[group] = (int)x.size();
          if ((int)x.size() != src->lists) fail("wrong-list", "the list of %d has %zu names after running out of memory", src->lists, x.size());
        }
        break;
      }
      if (!known) lists[group] = src->lists;
      if ((int)l.size() != lists[group]) fail("wrong-list", "listContents returned %zu names, expected %d", l.size(), lists[group]);
      for (size_t i = 0; i < l.size(); ++i)
        if (l[i].qualifiedName() != "x/n" + std::to_string(i)) fail("wrong-list", "listContents returned %s", l[i].qualifiedName().c_str());
      break;
    }
    case GET: {
      std::unique_ptr<XYDataset> d;
      QualifiedName              q(name);
      before = src->calls["get " + name];
      enable_faults(true);
      try {
        d = c.getDataset(q);
      } catch (const std::exception&) {
        thrown = true;
      }
      enable_faults(false);
      bool oom = faults_fired("alloc") != a0, known = data.count(name);
      int  used = src->calls["get " + name] - before;
      event("get %s: %s used %d", name.c_str(), thrown ? "error" : d ? "data" : "null", used);
      if (known && used) fail("cache-miss", "a dataset was asked for again");
      if (thrown && !oom && (known || !src->failing)) fail("read-failed", "getDataset threw without a failure of the provider");
      if (!thrown && !known && src->failing) fail("swallowed-error", "getDataset returned although the provider failed");
      if (o.v[3] && !known) count_fault("provider_failure");
      if (thrown) {
        if (!src->failing && oom && used) {
          NoFaults nf;
          d = c.getDataset(q);
          data[name] = src->version[name];
        } else
          break;
      }
      if (!known) data[name] = src->version[name];
      int v = data[name];
      if (!d != !v) fail("wrong-data", "getDataset(%s) returned %s", name.c_str(), d ? "a dataset" : "nothing");
      if (!d) break;
      Points want = Source::points(name, v);
      if (Points(d->begin(), d->end()) != want) fail("wrong-data", "getDataset(%s) is not what the provider returned first", name.c_str());
      held.emplace_back(std::move(d), want);
      if (o.v[2] == 0) held.erase(held.begin());
      break;
    }
    case PARAM: {
      std::string v;
      try {
        v = c.getParameter(QualifiedName(name), "K");
      } catch (const std::exception&) {
        thrown = true;
      }
      if (thrown != src->failing) fail(thrown ? "read-failed" : "swallowed-error", "getParameter");
      if (!thrown && v != name + "K" + std::to_string(src->version[name])) fail("wrong-parameter", "getParameter returned '%s'", v.c_str());
      break;
    }
    }
    sig(o.kind() * 8 + thrown * 4 + o.v[1]);
  }
  for (auto& h : held)
    if (Points(h.first->begin(), h.first->end()) != h.second) fail("wrong-data", "a dataset changed after it was returned");
}
Scenario s_cache("xy_cache", "the cache in front of a provider that changes and fails", false, 1, gen_cache, run_cache);
}  // namespace
