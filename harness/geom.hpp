// shared by the geometry harnesses: coordinate types and exactly representable coordinates
#pragma once
#include "pbt.hpp"
#include <cmath>
#include <type_traits>

namespace geom
{
using pbt::Src;
// a coordinate as an exact count of quarters; integral types get multiples of four
template <typename T>
struct Grid
{
    static constexpr int64_t unit = std::is_integral_v<T> ? 1 : 4;
    static T make(int64_t k)
    {
        return std::is_integral_v<T> ? (T)k : (T)((double)k / 4.0);
    }
};
inline int64_t coord(Src& src, int64_t big)
{
    switch (src.below(3))
    {
    case 0:
        return src.range(-6, 6);
    case 1:
        return src.range(-40, 40);
    default:
        return src.range(-big, big);
    }
}
template <typename T>
std::string num(T v)
{
    char b[400];
    if (std::is_integral_v<T>)
        snprintf(b, sizeof b, "%lld", (long long)v);
    else
        snprintf(b, sizeof b, "%f", (double)v);
    return b;
}
}
