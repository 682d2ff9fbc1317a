// Stand-in for Elements' Real.h: units-in-the-last-place comparison, same default tolerances (4 for float, 10 for double).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cmath>
#include <cstring>
namespace Elements {
template <typename R>
struct UlpTraits;
template <>
struct UlpTraits<float> {
  typedef int32_t I;
  static constexpr I ulps = 4;
};
template <>
struct UlpTraits<double> {
  typedef int64_t I;
  static constexpr I ulps = 10;
};
template <typename R>
inline bool isEqualUlp(R a, R b, std::size_t max) {
  if (std::isnan(a) || std::isnan(b)) return false;
  typedef typename UlpTraits<R>::I I;
  typedef typename std::make_unsigned<I>::type U;
  U x, y;
  std::memcpy(&x, &a, sizeof(x));
  std::memcpy(&y, &b, sizeof(y));
  const U sign = U(1) << (sizeof(U) * 8 - 1);
  x = (x & sign) ? U(~x + 1) : U(sign | x);
  y = (y & sign) ? U(~y + 1) : U(sign | y);
  return (x > y ? x - y : y - x) <= max;
}
inline bool isEqual(float a, float b, std::size_t max = 4) { return isEqualUlp<float>(a, b, max); }
inline bool isEqual(double a, double b, std::size_t max = 10) { return isEqualUlp<double>(a, b, max); }
inline bool isEqual(float a, double b, std::size_t max = 4) { return isEqualUlp<float>(a, (float)b, max); }
inline bool isEqual(double a, float b, std::size_t max = 4) { return isEqualUlp<float>((float)a, b, max); }
inline bool isNotEqual(double a, double b, std::size_t max = 10) { return !isEqual(a, b, max); }
}  // namespace Elements
