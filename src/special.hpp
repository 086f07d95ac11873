// Numbers that do not survive a detour through fewer bits, another sign or another range.
#pragma once
#include <cmath>
#include <cstring>
#include <limits>
#include <vector>
namespace special {
inline bool identical(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
inline std::vector<double> numbers(bool nonFinite)
{
    typedef std::numeric_limits<double> L;
    std::vector<double> v{ 0.0, 1.0, 0.1, 1.0 / 3, 1 + L::epsilon(), 1 - L::epsilon() / 2, 16777217.0, 4294967297.0, 9007199254740991.0, 123456789.123456789, 6307200000.0, 6307199999.9999, 6307200000.0001,
        1e9 + 0.1, 1e12 + 1.0 / 7, 1e-7, 1e-12 / 3, 1e-30, 1e38, 4e38, 1e-39, 1e-46, 1e-100, 1e100, 1e300, 1e-300, L::max(), L::min(), L::denorm_min(), L::min() / 3, 0.5, 2147483648.0, 2147483647.5, 65536.1, 255.7, 1e-9, 1e-16, 1e-5 };
    for (size_t n = v.size(), k = 0; k < n; ++k) v.push_back(-v[k]);
    if (nonFinite) { v.push_back(L::infinity()); v.push_back(-L::infinity()); v.push_back(L::quiet_NaN()); }
    return v;
}
}
