#pragma once
namespace Elements { namespace Units { constexpr double c_light = 2.99792458e+8; constexpr double c = c_light; } }
