// Input catalogs: the whole way from the option values, the mapping file and the catalog file to the sources, over a disk that fails.
#include "simio.h"
#include <sys/stat.h>
#include "Configuration/CatalogConfig.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/PdfCatalogConfig.h"
#include "Configuration/PhotometricBandMappingConfig.h"
#include "Configuration/PhotometryCatalogConfig.h"
#include "Configuration/SpecZCatalogConfig.h"
#include "ElementsKernel/Exception.h"
#include "SourceCatalog/SourceAttributes/Pdf.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
#include "SourceCatalog/CatalogFromTable.h"
#include "Table/AsciiReader.h"
#include "Table/FitsReader.h"
#include <cmath>
#include <fstream>
#include <set>

using namespace sim;
using namespace Euclid::Configuration;
namespace SC = Euclid::SourceCatalog;
namespace po = boost::program_options;

// FITS is not simulated: a catalog taken for FITS is an error
namespace Euclid {
namespace Table {
static const CCfits::HDU g_no_hdu{};
FitsReader::FitsReader(const std::string&, int) : m_hdu(g_no_hdu) { CCfits::no_fits(); }
const ColumnInfo& FitsReader::getInfo() { CCfits::no_fits(); }
std::string FitsReader::getComment() { CCfits::no_fits(); }
void FitsReader::skip(long) { CCfits::no_fits(); }
bool FitsReader::hasMoreRows() { CCfits::no_fits(); }
std::size_t FitsReader::rowsLeft() { CCfits::no_fits(); }
Table FitsReader::readImpl(long) { CCfits::no_fits(); }
}  // namespace Table
}  // namespace Euclid

namespace {
std::string digits(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
struct Filter {
  std::string name, flux, err;
  double      threshold;
  bool        mag, excluded;
};
struct Value {
  double flux, err;
  bool   missing, upper;
};
struct Row {
  std::string        id;
  double             z, ze;
  std::vector<Value> v;
  std::vector<std::vector<double>> pdf;
};
struct World {
  std::vector<Filter>      filters;
  std::vector<Row>         rows;     // the sources expected
  std::string              mapping, catalog;
  std::vector<std::string> options;  // command line
  std::string              invalid;  // why the configuration or the catalog has to be refused
  bool                     string_id = false;
  double                   missflag = -99, upflag = -99;
  std::vector<std::vector<double>> pdf_keys;  // of each PDF
  std::string              catalog_name = "catalog.txt", mapping_name = "mapping.txt";
  size_t                   good_rows = 0;  // rows before the first one that has to be refused
};
double real(Rng& r) {
  switch (r.below(3)) {
  case 0: return (double)r.range(1, 4000) / 8;
  case 1: return (double)r.range(1, 1000000) * 1e-9;
  default: return (double)r.range(1, 1000000000) / 3.0;
  }
}
World make(const Plan& p) {
  World w;
  Rng   r((u64)p.get("data") * 5 + 1);
  int   nf = (int)p.get("filters"), nr = (int)p.get("rows");
  bool  miss = p.get("miss"), upper = p.get("upper");
  w.string_id = p.get("string_id");
  double &missflag = w.missflag, &upflag = w.upflag;
  static const double flags[] = {-99, -999, -1.5, 99, 0};
  if (miss) missflag = flags[p.get("missflag")];
  if (upper) upflag = p.get("upflag") ? -p.get("upflag") / 4. : -99;
  // the mapping file
  for (int i = 0; i < nf; ++i) {
    Filter f;
    f.name      = (i % 2 ? "grp/F" : "F") + std::to_string(i);
    f.flux      = "FLUX_" + std::to_string(i);
    f.err       = "ERR_" + std::to_string(i);
    f.threshold = 3.0;
    f.mag       = false;
    f.excluded  = r.chance(1, 5);
    std::string s = (r.chance(1, 3) ? "  " : "") + f.name + " " + f.flux + (r.chance(1, 2) ? "\t" : "  ") + f.err;
    int         n = (int)r.below(3);
    if (n > 0) {
      f.threshold = r.chance(1, 8) ? 0 : (double)r.range(1, 40) / 4;
      s += " " + digits(f.threshold);
    }
    if (n > 1) {
      f.mag = r.chance(1, 2);
      s += f.mag ? "  1" : " 0";
    }
    if (r.chance(1, 4)) w.mapping += r.chance(1, 2) ? "# a remark\n" : "   # x y z\n";
    w.mapping += s + (r.chance(1, 4) ? "   " : "") + "\n";
    if (f.excluded) w.options.push_back("--exclude-filter=" + f.name);
    w.filters.push_back(f);
  }
  if (r.chance(1, 6)) w.mapping += "# the end";
  if (p.get("bad") == 1) {
    w.mapping = "only two\n" + w.mapping;
    w.invalid = "a mapping line with two words";
  }
  if (p.get("bad") == 2) {
    w.options.push_back("--exclude-filter=nosuch");
    w.invalid = "an excluded filter that is not mapped";
  }
  if (p.get("bad") == 4) {
    w.mapping = "REMARKED FLUX_0 ERR_0 # a remark where none is known\n" + w.mapping;
    w.invalid = "a mapping line with a remark";
  }
  if (p.get("bad") == 3) {
    w.mapping += std::string("\nX ") + (w.filters.empty() || r.chance(1, 2) ? "NOFLUX" : w.filters[0].flux) + " NOERR";
    while (w.mapping.find("\n\n") != std::string::npos) w.mapping.replace(w.mapping.find("\n\n"), 2, "\n");
    if (w.mapping[0] == '\n') w.mapping.erase(0, 1);
    w.invalid = "a mapped column that is not in the catalog";
  }
  // the catalog
  std::vector<std::string> cols{"ID"};
  size_t                   idpos = 0;
  for (auto& f : w.filters) cols.push_back(f.flux), cols.push_back(f.err);
  cols.push_back(p.get("zswap") ? "ZE" : "Z");
  cols.push_back(p.get("zswap") ? "Z" : "ZE");
  for (int i = 0; i < (int)p.get("pdf"); ++i) {
    cols.push_back("P" + std::to_string(i));
    w.pdf_keys.emplace_back();
    for (int k = (int)r.range(1, 5); k-- > 0;) w.pdf_keys.back().push_back((double)r.range(1, 20) / 4 + (w.pdf_keys.back().empty() ? -3 : w.pdf_keys.back().back()));
  }
  std::string idname = "ID";
  if (p.get("id") == 1) {
    idname = cols[0] = r.chance(1, 3) ? "ID" : "OBJ";
    w.options.push_back("--source-id-column-name=" + idname);
  } else if (p.get("id") == 2) {
    if (r.chance(2, 3)) cols[0] = "NUMBER";
    idpos = r.below(cols.size());
    w.options.push_back("--source-id-column-index=" + std::to_string(idpos + 1));
  } else if (p.get("id") == 3) {
    cols[0] = "NUMBER";
    w.invalid = "no identifier column";
  } else
    idpos = r.below(cols.size());
  auto to_place = [&](std::vector<std::string> v) {
    std::rotate(v.begin(), v.begin() + 1, v.begin() + 1 + (long)idpos);
    return v;
  };
  cols = to_place(cols);
  for (size_t i = 0; i < cols.size(); ++i) w.catalog += "# Column: " + cols[i] + (cols[i][0] == 'P' ? " [double]" : i != idpos ? " double" : w.string_id ? " string" : " long") + "\n";
  if (p.get("remark")) w.catalog += "#\n# A catalog of the simulation, with a remark that is somewhat longer than eighty characters, as remarks are\n";
  std::set<std::string> ids;
  bool                  ok = true;
  for (int i = 0; i < nr; ++i) {
    Row         row;
    std::string              line;
    std::vector<std::string> words;
    do row.id = w.string_id ? "s" + std::to_string(r.below(100000)) : std::to_string((i64)(r.next() >> 2) - (i64)(1ll << 61)); while (ids.count(row.id));
    if (p.get("dup") && i == nr - 1 && i > 0) {
      row.id = *ids.begin();
      ok     = false;
      if (w.invalid.empty()) w.invalid = "an identifier twice";
    }
    ids.insert(row.id);
    words.push_back(row.id);
    bool rok = true;
    for (auto& f : w.filters) {
      double flux = real(r), err = real(r);
      int    odd = (int)r.below(12);
      if (odd == 2 && f.threshold == 0) odd = 11;
      if (!p.get("errors") && (((odd == 1 || odd == 2) && !upper) || (odd == 0 && !miss && (p.get("nan") || f.mag)))) odd = 11;
      if (p.get("errkind") && odd < 6 && odd != p.get("errkind") - 1) odd = 11;
      if (f.mag) flux = (double)r.range(10, 30), err = (double)r.range(1, 100) / 512;
      if (err == std::abs(upflag)) err += 1;  // the flags are not ordinary values
      if (flux == missflag) flux += 1;
      Value v{flux, err, false, false};
      bool  bad = false;
      if (odd == 0) {  // missing
        flux = p.get("nan") ? NAN : missflag;
        if (miss) v = Value{missflag, 0, true, false};
        else if (std::isnan(flux)) bad = true;
        else if (f.mag) bad = true;  // taken for the flag, and its error for zero
        else v.flux = flux;
      } else if (odd == 1) {  // upper limit with its error
        err = -err;
        if (upper) v.upper = true;
        else bad = true;
      } else if (odd == 2) {  // upper limit from the threshold
        err = upflag;
        if (upper) v.upper = true, v.err = -1;
        else bad = true;
      } else if (odd == 3 && p.get("errors")) {
        err = 0;
        bad = true;
      } else if (odd == 4 && p.get("errors") && !f.mag) {
        flux = r.chance(1, 2) ? INFINITY : -INFINITY;
        bad  = true;
      } else if (odd == 5 && p.get("errors") && !f.mag && upper) {
        flux = -flux, err = -err;
        bad = true;
      }
      if (!v.missing && !bad && f.mag) {
        double fl = 3.631e9 * std::pow(10, -0.4 * v.flux);
        if (v.err != -1) v.err = 0.4 * fl * v.err * std::log(10);
        v.flux = fl;
      }
      if (v.err == -1) v.err = v.flux / f.threshold;
      words.push_back(std::isnan(flux) ? std::string("nan") : std::isinf(flux) ? std::string(flux > 0 ? "inf" : "-inf") : digits(flux));
      words.push_back(digits(err));
      if (!f.excluded) {
        row.v.push_back(v);
        if (bad) rok = false;
      }
    }
    row.z = real(r), row.ze = real(r);
    words.push_back(digits(p.get("zswap") ? row.ze : row.z)), words.push_back(digits(p.get("zswap") ? row.z : row.ze));
    for (auto& keys : w.pdf_keys) {
      row.pdf.emplace_back();
      std::string s;
      size_t      n = keys.size();
      if (p.get("errors") && r.chance(1, 6)) {
        n += r.chance(1, 2) && n > 1 ? -1 : 1;
        if (w.invalid.empty()) w.invalid = "a PDF of another size";
        ok = false;
      }
      for (size_t k = 0; k < n; ++k) row.pdf.back().push_back(r.chance(1, 4) ? 0 : real(r)), s += (k ? "," : "") + digits(row.pdf.back().back());
      words.push_back(s);
    }
    for (auto& x : to_place(words)) line += (line.empty() ? "" : " ") + x;
    w.catalog += line + (i == nr - 1 && p.get("nonl") ? "" : "\n");
    if (!rok) {
      if (w.invalid.empty()) w.invalid = "a flux or error that is not acceptable";
      ok = false;
    }
    if (ok) ++w.good_rows;
    w.rows.push_back(row);
  }
  if (miss) w.options.push_back("--missing-photometry-flag=" + digits(missflag));
  if (upper) w.options.push_back("--enable-upper-limit=YES");
  else if (p.get("upflag")) w.options.push_back("--enable-upper-limit=NO");
  if (upper && p.get("upflag")) w.options.push_back("--upper-limit-use-threshod-flag=" + digits(upflag));
  if (p.get("format") && p.get("opt") != 4) w.options.push_back(p.get("format") == 1 ? "--input-catalog-format=ASCII" : "--input-catalog-format=AUTO");
  if (p.get("sub")) w.catalog_name = "sub/" + w.catalog_name, w.mapping_name = "sub/" + w.mapping_name;
  if (w.invalid.empty()) switch (p.get("opt")) {
    case 1:
      if (p.get("id") == 2) w.options.push_back("--source-id-column-name=" + cols[idpos]), w.invalid = "a name and an index for the identifier";
      if (p.get("id") == 1) w.options.push_back("--source-id-column-index=" + std::to_string(idpos + 1)), w.invalid = "a name and an index for the identifier";
      break;
    case 2:
      if (p.get("id") == 0) w.options.push_back("--source-id-column-index=" + std::to_string(-(int)r.below(3))), w.invalid = "an index of the identifier below one";
      break;
    case 3:
      if (p.get("id") == 0) w.options.push_back("--source-id-column-index=" + std::to_string(cols.size() + 1 + r.below(3))), w.invalid = "an index of the identifier after the last column";
      break;
    case 4: w.options.push_back(r.chance(1, 2) ? "--input-catalog-format=FITSX" : "--input-catalog-format=ascii"), w.invalid = "an unknown format"; break;
    case 5: w.catalog_name = r.chance(1, 2) ? "absent.txt" : "dir.txt", w.invalid = "a catalog that is not a file"; break;
    case 6: w.mapping_name = r.chance(1, 2) ? "absent.txt" : "dir.txt", w.invalid = "a mapping that is not a file"; break;
    case 7:
      if (p.get("id") == 0) w.options.push_back("--source-id-column-name=NOSUCH"), w.invalid = "an identifier column that is not there";
      break;
    }
  int zbad = p.get("z") && w.invalid.empty() ? (int)p.get("zbad") : 0;
  if (zbad) {
    std::string low = std::to_string(-(int)r.below(3)), high = std::to_string(cols.size() + 1 + r.below(3));
    static const char* const what[] = {"", "the redshift by name and index", "an index of the redshift below one", "an index of the redshift after the last column", "a redshift column that is not there", "no redshift column",
                                       "the error of the redshift by name and index", "an index of the error below one", "an index of the error after the last column", "an error column that is not there"};
    w.invalid = what[zbad];
    if (zbad == 1) w.options.insert(w.options.end(), {"--spec-z-column-name=Z", "--spec-z-column-index=1"});
    if (zbad == 2) w.options.push_back("--spec-z-column-index=" + low);
    if (zbad == 3) w.options.push_back("--spec-z-column-index=" + high);
    if (zbad == 4) w.options.push_back("--spec-z-column-name=NOSUCH");
    if (zbad > 5) w.options.push_back("--spec-z-column-name=Z");
    if (zbad == 6) w.options.insert(w.options.end(), {"--spec-z-err-column-name=ZE", "--spec-z-err-column-index=1"});
    if (zbad == 7) w.options.push_back("--spec-z-err-column-index=" + low);
    if (zbad == 8) w.options.push_back("--spec-z-err-column-index=" + high);
    if (zbad == 9) w.options.push_back("--spec-z-err-column-name=NOSUCH");
    return w;
  }
  if (p.get("z") == 1) w.options.push_back("--spec-z-column-name=Z");
  auto place = [&](const char* n) { return std::to_string(std::find(cols.begin(), cols.end(), n) - cols.begin() + 1); };
  if (p.get("z") == 2) w.options.push_back("--spec-z-column-index=" + place("Z"));
  if (p.get("ze") == 1) w.options.push_back("--spec-z-err-column-name=ZE");
  if (p.get("ze") == 2) w.options.push_back("--spec-z-err-column-index=" + place("ZE"));
  return w;
}
bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::fabs(b); }

void check_source(const SC::Source& s, const Row& want, const World& w, const Plan& p) {
  std::string id = w.string_id ? boost::get<std::string>(s.getId()) : std::to_string(boost::get<int64_t>(s.getId()));
  if (id != want.id) fail("wrong-source", "source %s comes where %s is in the file", id.c_str(), want.id.c_str());
  auto ph = s.getAttribute<SC::Photometry>();
  if (!ph) fail("wrong-photometry", "source %s has no photometry", id.c_str());
  if (ph->size() != want.v.size()) fail("wrong-photometry", "source %s has %zu bands, expected %zu", id.c_str(), ph->size(), want.v.size());
  size_t k  = 0;
  auto   it = ph->begin();
  for (auto& f : w.filters) {
    auto found = ph->find(f.name);
    if (f.excluded) {
      if (found) fail("wrong-photometry", "the excluded filter %s is there", f.name.c_str());
      continue;
    }
    auto& v = want.v[k++];
    if (it.filterName() != f.name) fail("wrong-photometry", "band %zu is %s, expected %s", k, it.filterName().c_str(), f.name.c_str());
    if (!found || !(*found == *it)) fail("wrong-photometry", "looking up %s gives another value than the iteration", f.name.c_str());
    if (it->missing_photometry_flag != v.missing || it->upper_limit_flag != v.upper || (!v.missing && !near(it->flux, v.flux)) || !near(it->error, v.err))
      fail("wrong-photometry", "source %s band %s is %.17g +- %.17g%s%s, expected %.17g +- %.17g%s%s", id.c_str(), f.name.c_str(), it->flux, it->error, it->missing_photometry_flag ? " missing" : "", it->upper_limit_flag ? " upper" : "", v.flux, v.err, v.missing ? " missing" : "", v.upper ? " upper" : "");
    auto q = *it;
    for (int i = 0; i < 3 && !std::isnan(q.flux); ++i) {
      auto u = q;
      if (!(u == q) || u != q) fail("wrong-photometry", "a value is not equal to its copy");
      if (i == 0) u.flux += 1;
      if (i == 1) u.error += 1;
      if (i == 2) u.upper_limit_flag = !u.upper_limit_flag;
      if (!q.missing_photometry_flag && (u == q || !(u != q))) fail("wrong-photometry", "different values are equal");
      u = q;
      u.missing_photometry_flag = true;
      auto t = u;
      t.flux += 1;
      if (!(t == u)) fail("wrong-photometry", "missing values differ");
    }
    ++it;
  }
  auto pdf = s.getAttribute<SC::Pdf<double>>();
  if (!pdf && (!want.pdf.empty() || p.get("between"))) fail("wrong-pdf", "source %s has no PDF", id.c_str());
  for (size_t i = 0; i < want.pdf.size(); ++i) {
    auto&  g    = pdf->getPdf("pdf" + std::to_string(i));
    auto&  axis = g.getAxis<0>();
    size_t k    = 0;
    if (g.size() != want.pdf[i].size() || axis.size() != g.size()) fail("wrong-pdf", "PDF %zu of source %s has %zu knots, expected %zu", i, id.c_str(), g.size(), want.pdf[i].size());
    for (auto j = g.begin(); j != g.end(); ++j, ++k)
      if (axis[k] != w.pdf_keys[i][k] || *j != want.pdf[i][k]) fail("wrong-pdf", "PDF %zu of source %s is %g at %g, expected %g at %g", i, id.c_str(), *j, axis[k], want.pdf[i][k], w.pdf_keys[i][k]);
  }
  auto z = s.getAttribute<SC::SpectroscopicRedshift>();
  if (!p.get("z") != !z) fail("wrong-redshift", "source %s %s a redshift", id.c_str(), z ? "has" : "lacks");
  if (z && (z->getValue() != want.z || z->getError() != (p.get("ze") ? want.ze : 0))) fail("wrong-redshift", "source %s has redshift %g +- %g, expected %g +- %g", id.c_str(), z->getValue(), z->getError(), want.z, p.get("ze") ? want.ze : 0);
}
long g_id = 100;
struct BaseDir : Euclid::Configuration::Configuration {  // sets where relative paths start, as programs do
  explicit BaseDir(long id) : Configuration(id) {
    declareDependency<CatalogConfig>();
    declareDependency<PhotometricBandMappingConfig>();
  }
  void preInitialize(const UserValues&) override {
    getDependency<CatalogConfig>().setBaseDir(scratch());
    getDependency<PhotometricBandMappingConfig>().setBaseDir(scratch());
  }
};
typedef Euclid::Configuration::PdfCatalogConfig<double> PdfConfig;
const std::vector<std::vector<double>>*                 g_pdf_keys;
struct PdfColumns : Euclid::Configuration::Configuration {
  explicit PdfColumns(long id) : Configuration(id) { declareDependency<PdfConfig>(); }
  void preInitialize(const UserValues&) override {
    size_t i = 0;
    for (auto& k : *g_pdf_keys) getDependency<PdfConfig>().addPdfColumn("pdf" + std::to_string(i), "P" + std::to_string(i), k), ++i;
  }
};
template <typename F> void too(const char* when, const char* what, F f) {
  NoFaults nf;
  try {
    f();
  } catch (const Elements::Exception&) { return; }
  fail("order", "%s is accepted too %s", what, when);
}
// in the middle of the initialization the catalog is known, but not yet ready to be read, and its place can not change
struct Between : Euclid::Configuration::Configuration {
  explicit Between(long id) : Configuration(id) {
    declareDependency<CatalogConfig>();
    declareDependency<PhotometricBandMappingConfig>();
    declareDependency<PdfConfig>();
    declareDependency<PhotometryCatalogConfig>();
  }
  void initialize(const UserValues&) override {
    too("late", "a PDF", [&] { getDependency<PdfConfig>().addPdfColumn("x", "Z", {1}); });
    auto& c = getDependency<CatalogConfig>();
    too("late", "a base directory for the catalog", [&] { c.setBaseDir("/nowhere"); });
    too("late", "a base directory for the mapping", [&] { getDependency<PhotometricBandMappingConfig>().setBaseDir("/nowhere"); });
    too("early", "a reader", [&] { c.getTableReader(); });
    too("early", "a converter", [&] { c.getTableToCatalogConverter(); });
    too("early", "a catalog", [&] { c.readAsCatalog(); });
    too("early", "a table", [&] { c.readAsTable(); });
    NoFaults nf;
    getDependency<PhotometryCatalogConfig>().isMissingPhotometryEnabled();
    getDependency<PhotometryCatalogConfig>().isUpperLimitEnabled();
    if (c.getFilename().filename() != "catalog.txt" || !c.getColumnInfo()) fail("order", "an initialized catalog is not known");
  }
};
struct Before : Euclid::Configuration::Configuration {  // not known before
  explicit Before(long id) : Configuration(id) {
    declareDependency<CatalogConfig>();
    declareDependency<PhotometricBandMappingConfig>();
    declareDependency<PhotometryCatalogConfig>();
  }
  void preInitialize(const UserValues&) override {
    too("early", "an option", [&] { getDependency<PhotometryCatalogConfig>().isMissingPhotometryEnabled(); });
    too("early", "an option", [&] { getDependency<PhotometryCatalogConfig>().isUpperLimitEnabled(); });
    auto& c = getDependency<CatalogConfig>();
    auto& b = getDependency<PhotometricBandMappingConfig>();
    too("early", "the file name", [&] { c.getFilename(); });
    too("early", "the columns", [&] { c.getColumnInfo(); });
    too("early", "the mapping", [&] { b.getPhotometricBandMapping(); });
    too("early", "the thresholds", [&] { b.getUpperLimitThresholdMapping(); });
    too("early", "the kinds", [&] { b.getConvertFromMagMapping(); });
  }
};
template <typename F> void refused(const char* what, F f) {
  try {
    f();
  } catch (const Elements::Exception&) { return; }
  fail("accepted", "%s is accepted", what);
}
// the makers of attributes without the configuration: columns that are not there
void makers(const std::shared_ptr<Euclid::Table::ColumnInfo>& info, const World& w, const Plan& p) {
  typedef SC::SpectroscopicRedshiftAttributeFromRow Zs;
  refused("a redshift column that is not there", [&] { Zs(info, "NOSUCH"); });
  refused("a redshift column that is not there", [&] { Zs(info, "NOSUCH", "ZE"); });
  refused("a column of redshift errors that is not there", [&] { Zs(info, "Z", "NOSUCH"); });
  refused("a column of identifiers that is not there", [&] { SC::CatalogFromTable(info, "NOSUCH", {}); });
  Zs ok1(info, "Z"), ok2(info, "Z", "ZE");
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> mm;
  std::vector<std::pair<std::string, float>>                               th;
  for (auto& f : w.filters) mm.emplace_back(f.name, std::make_pair(f.flux, f.err)), th.emplace_back(f.name, 3.f);
  for (size_t i = 0; i < mm.size(); ++i) {
    auto bad = mm;
    (p.get("data") >> i & 1 ? bad[i].second.first : bad[i].second.second) = "NOSUCH";
    refused("a column of the photometry that is not there", [&] { SC::PhotometryAttributeFromRow(info, bad, false, 0, false, th, -1); });
  }
  SC::PhotometryAttributeFromRow ok3(info, mm, false, 0, false, th, -1);
  auto names = std::make_shared<std::vector<std::string>>();
  refused("a photometry without names", [&] { SC::Photometry(nullptr, {}); });
  refused("a photometry with a value too many", [&] { SC::Photometry(names, std::vector<SC::FluxErrorPair>{SC::FluxErrorPair(1, 1)}); });
  SC::FluxErrorPair bare(2, 1);
  if (bare.missing_photometry_flag || bare.upper_limit_flag || bare.flux != 2 || bare.error != 1) fail("wrong-photometry", "a flux and an error alone are not an ordinary measurement");
  names->push_back("a/b");
  refused("a photometry with a name too many", [&] { SC::Photometry(names, {}); });
}
// returns normally with the catalog checked, or throws
void whole_way(const World& w, const Plan& p, bool faults, bool& reading, size_t& accepted) {
  auto& m = ConfigManager::getInstance(++g_id);
  m.registerConfiguration<PhotometryCatalogConfig>();
  if (p.get("z")) m.registerConfiguration<SpecZCatalogConfig>();
  if (p.get("relative")) m.registerConfiguration<BaseDir>();
  if (!w.pdf_keys.empty()) {
    g_pdf_keys = &w.pdf_keys;
    m.registerConfiguration<PdfColumns>();
  }
  if (p.get("between")) m.registerConfiguration<Between>(), m.registerConfiguration<Before>();
  auto                     desc = m.closeRegistration();
  std::vector<std::string> args = w.options;
  if (p.get("relative")) args.push_back("--input-catalog-file=" + w.catalog_name), args.push_back("--filter-mapping-file=" + w.mapping_name);
  else args.push_back("--input-catalog-file=" + scratch() + "/" + w.catalog_name), args.push_back("--filter-mapping-file=" + scratch() + "/" + w.mapping_name);
  po::variables_map vm;
  po::store(po::command_line_parser(args).options(desc).run(), vm);
  enable_faults(faults);
  m.initialize(vm);
  auto& mapping = m.getConfiguration<PhotometricBandMappingConfig>();
  auto& cc      = m.getConfiguration<CatalogConfig>();
  {
    NoFaults nf;
    size_t   k = 0;
    for (auto& f : w.filters) {
      if (f.excluded) continue;
      auto& mm = mapping.getPhotometricBandMapping();
      if (k >= mm.size() || mm[k].first != f.name || mm[k].second.first != f.flux || mm[k].second.second != f.err) fail("wrong-mapping", "filter %s is not mapped as in the file (%zu of %zu)", f.name.c_str(), k, mm.size());
      if (mapping.getUpperLimitThresholdMapping().at(k) != std::make_pair(f.name, (float)f.threshold) || mapping.getConvertFromMagMapping().at(k) != std::make_pair(f.name, f.mag)) fail("wrong-mapping", "filter %s has another threshold or kind than in the file", f.name.c_str());
      ++k;
    }
    if (p.get("bad") != 3 && k != mapping.getPhotometricBandMapping().size()) fail("wrong-mapping", "%zu filters are mapped, expected %zu", mapping.getPhotometricBandMapping().size(), k);
    if (cc.getColumnInfo()->size() != 3 + 2 * w.filters.size() + w.pdf_keys.size())
      fail("wrong-columns", "the catalog has %zu columns, expected %zu", cc.getColumnInfo()->size(), 3 + 2 * w.filters.size() + w.pdf_keys.size());
  }
  if (p.get("direct") && !p.get("bad")) {
    NoFaults nf;
    makers(cc.getColumnInfo(), w, p);
  }
  too("late", "an attribute", [&] { cc.addAttributeHandler(nullptr); });
  too("late", "a base directory for the catalog", [&] { cc.setBaseDir("/nowhere"); });
  auto& pc = m.getConfiguration<PhotometryCatalogConfig>();
  if (pc.isMissingPhotometryEnabled() != (bool)p.get("miss") || pc.isUpperLimitEnabled() != (bool)p.get("upper")) fail("wrong-options", "missing photometry or upper limits are not as the user asked");
  reading = true;
  if (p.get("chunk")) {
    auto   reader = cc.getTableReader();
    auto   conv   = cc.getTableToCatalogConverter();
    size_t n      = 0;
    while (reader->hasMoreRows()) {
      auto     table = reader->read((long)p.get("chunk"));
      auto     cat   = conv(table);
      NoFaults nf;
      for (auto& s : cat) {
        if (n >= w.rows.size()) fail("invented-source", "the catalog of %zu sources gives more", w.rows.size());
        check_source(s, w.rows[n++], w, p);
      }
      accepted = n;
    }
    if (n != w.rows.size()) fail("lost-source", "reading in pieces gives %zu of %zu sources", n, w.rows.size());
  } else {
    auto     cat = cc.readAsCatalog();
    NoFaults nf;
    if (cat.size() != w.rows.size()) fail("lost-source", "the catalog has %zu sources, the file %zu", cat.size(), w.rows.size());
    size_t n = 0;
    for (auto& s : cat) {
      check_source(s, w.rows[n++], w, p);
      auto f = cat.find(s.getId());
      if (!f || f->getId() != s.getId()) fail("wrong-source", "a source is not found by its identifier");
    }
    accepted = n;
    bool mags = false;
    for (auto& f : w.filters) mags = mags || f.mag;
    if (p.get("direct") && !mags) {  // without the configuration: no magnitudes unless it is said so
      auto& mm = mapping;
      SC::PhotometryAttributeFromRow h(cc.getColumnInfo(), mm.getPhotometricBandMapping(), p.get("miss"), w.missflag, p.get("upper"), mm.getUpperLimitThresholdMapping(), w.upflag);
      std::ifstream                  in(scratch() + "/" + w.catalog_name);
      Euclid::Table::AsciiReader     reader(in);
      size_t                         i = 0;
      for (auto& row : reader.read()) {
        auto  a  = h.createAttribute(row);
        auto& ph = dynamic_cast<SC::Photometry&>(*a);
        size_t k = 0;
        for (auto& f : ph) {
          auto& v = w.rows.at(i).v.at(k++);
          if (f.missing_photometry_flag != v.missing || f.upper_limit_flag != v.upper || (!v.missing && !near(f.flux, v.flux)) || !near(f.error, v.err)) fail("wrong-photometry", "row %zu band %zu, converted without the configuration, is %g +- %g", i, k, f.flux, f.error);
        }
        ++i;
      }
    }
    if (w.string_id ? !!cat.find(std::string("nobody")) : !!cat.find((int64_t)1)) fail("wrong-source", "a source that is not in the file is found");
  }
  enable_faults(false);
}
void put(const std::string& path, const std::string& text) {
  std::ofstream o(path);
  o << text;
}
void gen(Rng& r, Plan& p) {
  p.cfg["data"] = r.range(0, 1000000);
  p.cfg["filters"] = r.range(0, 5);
  p.cfg["rows"] = r.range(1, 12);
  p.cfg["miss"] = r.range(0, 1), p.cfg["upper"] = r.range(0, 1);
  if (r.chance(1, 2)) p.cfg["miss"] = p.cfg["upper"] = 1;
  p.cfg["nan"] = r.range(0, 1);
  p.cfg["errors"] = r.chance(1, 5);
  p.cfg["errkind"] = p.cfg["errors"] && r.chance(2, 3) ? r.range(1, 6) : 0;  // all that is wrong is of this kind
  p.cfg["zswap"] = r.range(0, 1);
  p.cfg["string_id"] = r.range(0, 1);
  p.cfg["bad"] = r.chance(1, 10) ? r.range(1, 4) : 0;
  p.cfg["id"] = r.chance(1, 15) ? 3 : r.range(0, 2);
  p.cfg["dup"] = r.chance(1, 15);
  p.cfg["remark"] = r.range(0, 1);
  p.cfg["nonl"] = r.range(0, 1);
  p.cfg["format"] = r.range(0, 2);
  p.cfg["sub"] = r.chance(1, 3);
  p.cfg["missflag"] = r.range(0, 4);
  p.cfg["upflag"] = r.chance(1, 2) ? r.range(1, 40) : 0;
  p.cfg["pdf"] = r.chance(1, 2) ? r.range(0, 2) : 0;
  p.cfg["opt"] = r.chance(1, 10) ? r.range(1, 7) : 0;
  p.cfg["zbad"] = r.chance(1, 12) ? r.range(1, 9) : 0;
  p.cfg["direct"] = r.chance(1, 3);
  p.cfg["between"] = r.chance(1, 3);
  p.cfg["z"] = r.range(0, 2), p.cfg["ze"] = p.cfg["z"] ? r.range(0, 2) : 0;
  p.cfg["relative"] = r.range(0, 1);
  p.cfg["chunk"] = r.chance(1, 2) ? r.range(1, 6) : 0;
  if (r.chance(1, 2)) p.cfg["f_io_short_read"] = r.range(0, 500), p.cfg["f_io_eintr"] = r.range(0, 100);
  if (r.chance(1, 2)) p.cfg["f_io_open"] = r.range(0, 200), p.cfg["f_io_read"] = r.range(0, 200);
}
void run(const Plan& p) {
  enable_faults(false);
  World w = make(p);
  if (p.get("opt") == 5 || p.get("opt") == 6) mkdir((scratch() + "/dir.txt").c_str(), 0755);
  std::string place = scratch() + (p.get("sub") ? "/sub" : "");
  if (p.get("sub")) mkdir(place.c_str(), 0755);
  put(place + "/mapping.txt", w.mapping);
  put(place + "/catalog.txt", w.catalog);
  sig((u64)p.get("filters") * 100 + (u64)p.get("rows"));
  sig_str(w.invalid);
  bool   reading = false, threw = false;
  size_t accepted = 0;
  try {
    whole_way(w, p, true, reading, accepted);
  } catch (const std::exception& e) {
    enable_faults(false);
    threw = true;
    event("%s: %s", reading ? "reading" : "configuring", e.what());
  }
  u64  hard = faults_fired("io_open") + faults_fired("io_read");
  bool in_pieces = p.get("chunk") && w.invalid == "an identifier twice";  // each piece is a catalog of its own
  if (threw && w.invalid.empty() && !hard) fail("refused", "a valid catalog was refused");
  if (!threw && !w.invalid.empty() && !in_pieces) fail("accepted", "accepted in spite of %s", w.invalid.c_str());
  if (!threw && hard) probe("an error of the disk that changed nothing");  // the content was checked above
  if (threw && hard) probe("an error of the disk was reported");
  if (threw && !w.invalid.empty()) probe("an invalid configuration or catalog was refused");
  // afterwards a new attempt works as if nothing had happened
  if (threw && w.invalid.empty()) {
    try {
      whole_way(w, p, false, reading, accepted);
    } catch (const std::exception& e) { fail("refused", "after a failure a valid catalog is refused: %s", e.what()); }
  }
}
Scenario s("ct_catalog", "catalogs and mapping files configured and read", false, 1, gen, run);
}  // namespace
