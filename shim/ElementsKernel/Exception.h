// Stand-in for Elements' Exception (Elements is not installed in this sandbox): same interface as the code uses.
#pragma once
#include <exception>
#include <sstream>
#include <string>
#include <utility>
namespace Elements {
enum class ExitCode { OK = 0, NOT_OK = 1, SOFTWARE = 70, USAGE = 64, CONFIG = 78 };
class Exception : public std::exception {
public:
  explicit Exception(const ExitCode e = ExitCode::NOT_OK) : m_code(e) {}
  explicit Exception(std::string m, const ExitCode e = ExitCode::NOT_OK) : m_msg(std::move(m)), m_code(e) {}
  Exception(const Exception&) = default;
  Exception(Exception&&)      = default;
  virtual ~Exception()        = default;
  const char* what() const noexcept override { return m_msg.c_str(); }
  ExitCode    exitCode() const noexcept { return m_code; }
  void        appendMessage(const std::string& m) { m_msg += m; }

protected:
  std::string m_msg;
  ExitCode    m_code;
};
template <typename Ex, typename T>
auto operator<<(Ex&& e, const T& t) -> typename std::enable_if<std::is_base_of<Exception, typename std::remove_reference<Ex>::type>::value, Ex&&>::type {
  std::stringstream s;
  s << t;
  e.appendMessage(s.str());
  return std::forward<Ex>(e);
}
}  // namespace Elements
