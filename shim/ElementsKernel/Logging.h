// Stand-in for Elements' Logging: evaluates the operands, discards the text.
#pragma once
#include <sstream>
#include <string>
namespace Elements {
class Logging {
public:
  struct Sink {
    template <typename T>
    const Sink& operator<<(const T& t) const {
      std::stringstream s;
      s << t;
      return *this;
    }
  };
  static Logging getLogger(const std::string& = "") { return Logging(); }
  Sink debug() const { return Sink(); }
  Sink info() const { return Sink(); }
  Sink warn() const { return Sink(); }
  Sink error() const { return Sink(); }
  Sink fatal() const { return Sink(); }
  void debug(const std::string&) const {}
  void info(const std::string&) const {}
  void warn(const std::string&) const {}
  void error(const std::string&) const {}
};
}  // namespace Elements
