// Reference for the F-Phi curve and comparison that tolerates order within ties.
#pragma once
#include "vf.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <algorithm>
#include <memory>

namespace curve {
using namespace Opm::FlowDiagnostics;
typedef long double LD;

struct Ref { std::vector<LD> phi, f; bool defined = true; };

// vertices at the boundaries between groups of equal total travel time
inline Ref reference(const std::vector<double>& ti, const std::vector<double>& tp, const std::vector<double>& pv, double frac)
{
    Ref r;
    LD tot = 0;
    for (double v : pv) tot += v;
    std::vector<std::pair<LD, LD>> x;
    for (size_t i = 0; i < pv.size(); ++i)
        if (!(LD(pv[i]) > LD(frac) * tot)) { LD t = LD(ti[i]) + tp[i]; if (!(t > 0)) r.defined = false; x.push_back({ t, pv[i] }); }
    std::sort(x.begin(), x.end());
    LD P = 0, F = 0;
    r.phi.push_back(0); r.f.push_back(0);
    for (size_t k = 0; k < x.size(); ++k) {
        if (x[k].second == 0) continue;
        P += x[k].second; F += x[k].second / x[k].first;
        bool last = true;
        for (size_t q = k + 1; q < x.size() && last; ++q) if (x[q].second > 0) { if (x[q].first == x[k].first) last = false; break; }
        if (last) { r.phi.push_back(P); r.f.push_back(F); }
    }
    if (!(P > 0)) r.defined = false;
    if (r.defined) for (size_t k = 0; k < r.phi.size(); ++k) { r.phi[k] /= P; r.f[k] /= F; }
    return r;
}

inline void check(const Graph& g, const Ref& r)
{
    const LD tol = 1e-11L * (1 + LD(g.first.size()) / 1000); // sums of n terms
    auto& P = g.first; auto& F = g.second;
    VF_REQUIRE(P.size() == F.size() && P.size() >= 2, "curve has %zu and %zu values", P.size(), F.size());
    for (size_t k = 0; k < P.size(); ++k) VF_REQUIRE(std::isfinite(P[k]) && std::isfinite(F[k]), "curve value %zu is not finite", k);
    VF_REQUIRE(P[0] == 0 && F[0] == 0, "curve starts at (%.17g,%.17g)", P[0], F[0]);
    VF_REQUIRE(fabsl(P.back() - 1.0L) <= tol && fabsl(F.back() - 1.0L) <= tol, "curve ends at (%.17g,%.17g)", P.back(), F.back());
    size_t seg = 0;
    for (size_t k = 0; k < P.size(); ++k) {
        if (k) VF_REQUIRE(P[k] >= P[k - 1] - tol && F[k] >= F[k - 1] - tol, "curve decreases at point %zu: (%.17g,%.17g) after (%.17g,%.17g)", k, P[k], F[k], P[k - 1], F[k - 1]);
        // position on the reference polyline
        while (seg + 2 < r.phi.size() && P[k] > r.phi[seg + 1] + tol) ++seg;
        LD a = r.phi[seg], b = r.phi[seg + 1], y = r.f[seg] + (r.f[seg + 1] - r.f[seg]) * (P[k] - a) / (b - a);
        LD t2 = tol * (1 + (r.f[seg + 1] - r.f[seg]) / (b - a));
        VF_REQUIRE(fabsl(y - F[k]) <= t2, "point %zu (%.17g,%.17g) is off the time-sorted curve, expected F=%.17Lg", k, P[k], F[k], y);
    }
    // every vertex of the reference is a point of the curve
    size_t k = 0;
    for (size_t v = 0; v < r.phi.size(); ++v) {
        while (k < P.size() && (fabsl(P[k] - r.phi[v]) > tol || fabsl(F[k] - r.f[v]) > tol)) ++k;
        VF_REQUIRE(k < P.size(), "vertex (%.17Lg,%.17Lg) is missing from the curve", r.phi[v], r.f[v]);
    }
}
inline uint64_t hash(const Graph& g) { uint64_t h = g.first.size(); for (double d : g.first) h = vf::mixd(h, d); for (double d : g.second) h = vf::mixd(h, d); return h; }

struct Input { std::vector<double> ti, tp, pv; };
inline std::string show(const Input& x)
{
    std::string s = "tof_inj/tof_prod/pv:";
    for (size_t i = 0; i < x.pv.size() && i < 20; ++i) s += vf::sfmt(" %g/%g/%g", x.ti[i], x.tp[i], x.pv[i]);
    return s;
}
// alphabets: injector time {0,1,3,2^20}, producer time {1,2,1/8}, pore volume {0,1,2,8}
inline Input decode(uint64_t i, unsigned n, unsigned na, unsigned nb, unsigned nv)
{
    static const double A[4] = { 0, 1, 3, 1048576 }, B[3] = { 1, 2, 0.125 }, V[4] = { 1, 2, 0, 8 };
    vf::Radix r(i); Input x;
    for (unsigned k = 0; k < n; ++k) { x.ti.push_back(A[r.take(na)]); x.tp.push_back(B[r.take(nb)]); x.pv.push_back(V[r.take(nv)]); }
    return x;
}
inline Input patterned(int n, int kind)
{
    Input x;
    for (int k = 0; k < n; ++k) {
        unsigned h = unsigned(k + 1) * 2654435761u; h ^= h >> 13;
        switch (kind) {
        case 0: x.ti.push_back(1 + h % 1000); x.tp.push_back(1 + (h >> 10) % 77); x.pv.push_back(1 + (h >> 5) % 9); break;
        case 1: x.ti.push_back(n - k); x.tp.push_back(3); x.pv.push_back(2); break;
        case 2: x.ti.push_back(k); x.tp.push_back(1); x.pv.push_back(k % 4 ? 1 : 0); break;
        case 3: x.ti.push_back(5); x.tp.push_back(7); x.pv.push_back(1 + k % 3); break;
        case 4: x.ti.push_back(1 + k % 2 * 4); x.tp.push_back(1); x.pv.push_back(k == n / 2 ? 4.0 * n : 1); break; // one huge cell
        case 5: x.ti.push_back(k % 7 == 0 ? 6307200000.0 : 86400.0 * (1 + h % 50)); x.tp.push_back(86400.0 * (1 + h % 3)); x.pv.push_back(100 + h % 1000); break;
        }
    }
    return x;
}
}
