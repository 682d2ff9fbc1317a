#pragma once
#include <fstream>
#include <boost/filesystem.hpp>
namespace Elements {
class TempPath {
public:
  explicit TempPath(const std::string& pattern = "")
      : m_path(boost::filesystem::temp_directory_path() / boost::filesystem::unique_path(pattern.empty() ? "%%%%-%%%%-%%%%-%%%%" : "%%%%%%%%-" + pattern)) {}
  virtual ~TempPath() { boost::system::error_code e; boost::filesystem::remove_all(m_path, e); }
  boost::filesystem::path path() const { return m_path; }
protected:
  boost::filesystem::path m_path;
};
class TempFile : public TempPath {
public:
  explicit TempFile(const std::string& pattern = "") : TempPath(pattern) { std::ofstream o(m_path.native()); }
};
class TempDir : public TempPath {
public:
  explicit TempDir(const std::string& = "") { boost::filesystem::create_directories(m_path); }
};
}
