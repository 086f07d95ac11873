// C19: Lorenz coefficient and sweep efficiency.
#include "curve.hpp"
using namespace curve;
namespace {
// arbitrary curves on a dyadic grid: Phi and F arbitrary, from (0,0) to (1,1)
void direct(const Graph& g, vf::Ctx& c)
{
    LD area = 0;
    for (size_t k = 0; k + 1 < g.first.size(); ++k) area += (LD(g.second[k]) + g.second[k + 1]) / 2 * (LD(g.first[k + 1]) - g.first[k]);
    double L = lorenzCoefficient(g);
    ++c.transitions; ++c.traces;
    VF_REQUIRE(fabsl(L - 2 * (area - 0.5L)) <= 1e-12L, "Lorenz coefficient %.17g, twice the area to the diagonal is %.17Lg", L, 2 * (area - 0.5L));
    Graph s = sweepEfficiency(g);
    ++c.transitions; ++c.traces;
    std::vector<double> t{ 0 }, e{ 0 };
    for (size_t k = 1; k < g.first.size(); ++k) {
        double fd = g.second[k] - g.second[k - 1], sd = g.first[k] - g.first[k - 1];
        if (fd != 0) { t.push_back(sd / fd); e.push_back(g.first[k] + (1 - g.second[k]) * t.back()); }
    }
    VF_REQUIRE(s.first.size() == t.size() && s.second.size() == e.size(), "sweep curve has %zu/%zu points, expected %zu", s.first.size(), s.second.size(), t.size());
    for (size_t k = 0; k < t.size(); ++k)
        VF_REQUIRE(std::fabs(s.first[k] - t[k]) <= 1e-12 * (1 + std::fabs(t[k])) && std::fabs(s.second[k] - e[k]) <= 1e-12 * (1 + std::fabs(e[k])), "sweep point %zu is (%.17g,%.17g), expected (%.17g,%.17g)", k, s.first[k], s.second[k], t[k], e[k]);
    uint64_t h = vf::mixd(1, L); for (double d : s.second) h = vf::mixd(h, d);
    c.outcome(h);
}
std::string show(const Graph& g) { std::string s; for (size_t k = 0; k < g.first.size() && k < 20; ++k) s += vf::sfmt("(%g,%g) ", g.first[k], g.second[k]); return s; }
vf::Space curves(unsigned m, bool fine = false)
{
    static const double V[8] = { 0, 0.25, 0.5, 0.75, 1, 9.094947017729282379150390625e-13, 1 - 9.094947017729282379150390625e-13, 8.673617379884035472e-19 };
    const unsigned NP = fine ? 8 : 5, NF = NP;
    return { vf::sfmt(fine ? "fine-curves-%u" : "curves-%u", m), vf::sfmt("all curves from (0,0) to (1,1) with %u inner points, Phi and F arbitrary on {0,1/4,1/2,3/4,1%s}", m, fine ? ",2^-40,1-2^-40,2^-60" : ""), vf::ipow(NP * NF, m), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); Graph g; g.first = { 0 }; g.second = { 0 };
        for (unsigned k = 0; k < m; ++k) { double p = V[r.take(NP)], f = V[r.take(NF)]; g.first.push_back(p); g.second.push_back(f); }
        g.first.push_back(1); g.second.push_back(1);
        c.note("%s", show(g).c_str());
        direct(g, c);
        ++c.states; c.nontrivial += m > 1;
    } };
}
// curves produced from travel times
void produced(const Input& x, double frac, vf::Ctx& c)
{
    Ref r = reference(x.ti, x.tp, x.pv, frac);
    if (!r.defined) { ++c.skipped; return; }
    Graph g = flowCapacityStorageCapacityCurve(x.ti, x.tp, x.pv, frac);
    double L = lorenzCoefficient(g);
    const bool equal = r.phi.size() == 2;
    LD area = 0; for (size_t k = 0; k + 1 < r.phi.size(); ++k) area += (r.f[k] + r.f[k + 1]) / 2 * (r.phi[k + 1] - r.phi[k]);
    VF_REQUIRE(L >= -1e-10 && L <= 1 + 1e-10, "Lorenz coefficient %.17g out of range", L);
    VF_REQUIRE(fabsl(L - 2 * (area - 0.5L)) <= 1e-9L, "Lorenz coefficient %.17g, expected %.17Lg", L, 2 * (area - 0.5L));
    if (equal) VF_REQUIRE(std::fabs(L) <= 1e-10, "Lorenz coefficient %.17g for equal travel times", L);
    else if (2 * (area - 0.5L) > 1e-8L) VF_REQUIRE(L > 0, "Lorenz coefficient %.17g for different travel times", L);
    Graph s = sweepEfficiency(g);
    VF_REQUIRE(s.first.size() == s.second.size() && !s.first.empty() && s.first[0] == 0 && s.second[0] == 0, "sweep curve does not start at (0,0)");
    // A segment's slope is a quotient of differences of cumulative sums: its relative rounding error is n ulps of 1 over the increments.
    const double ulps = 1e-15 * (4 + double(g.first.size()));
    std::vector<double> rel{ 0 }, omf{ 1 };
    for (size_t k = 1; k < g.first.size(); ++k) {
        double fd = g.second[k] - g.second[k - 1], sd = g.first[k] - g.first[k - 1];
        if (fd != 0) { rel.push_back(1e-9 + ulps / std::fabs(fd) + (sd != 0 ? ulps / std::fabs(sd) : 0)); omf.push_back(std::fabs(1 - g.second[k]) + ulps); }
    }
    VF_REQUIRE(rel.size() == s.first.size(), "sweep curve has %zu points, the F-Phi curve %zu non-degenerate segments", s.first.size(), rel.size());
    for (size_t k = 1; k < s.first.size(); ++k) {
        double tol = rel[k] * s.first[k] + rel[k - 1] * s.first[k - 1] + 1e-9;
        VF_REQUIRE(s.first[k] >= s.first[k - 1] - tol, "dimensionless time decreases at point %zu: %.17g after %.17g", k, s.first[k], s.first[k - 1]);
        double te = 1e-9 + rel[k] * s.first[k] * omf[k] + rel[k - 1] * s.first[k - 1] * omf[k - 1];
        VF_REQUIRE(s.second[k] >= s.second[k - 1] - te && s.second[k] <= 1 + te, "sweep efficiency %.17g after %.17g", s.second[k], s.second[k - 1]);
    }
    VF_REQUIRE(std::fabs(s.second.back() - 1) <= 1e-9 + 2 * ulps * s.first.back(), "sweep efficiency ends at %.17g", s.second.back());
    c.transitions += 3; ++c.traces; c.nontrivial += !equal;
    c.outcome(vf::mixd(s.first.size(), L));
}
vf::Space small(unsigned n, unsigned na, unsigned nb, unsigned nv)
{
    return { vf::sfmt("fields-%u", n), vf::sfmt("%u cells, injector times from {0,1,3} (%u), producer times from {1,2,1/8} (%u), pore volumes from {1,2,0,8} (%u), limits {1,1/2,1/4}", n, na, nb, nv), vf::ipow(na * nb * nv, n), [=](uint64_t i, vf::Ctx& c) {
        Input x = decode(i, n, na, nb, nv);
        c.note("%s", curve::show(x).c_str());
        for (double f : { 1.0, 0.5, 0.25 }) produced(x, f, c);
        ++c.states;
    } };
}
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S{ curves(0), curves(1), curves(2), curves(3), curves(1, true), curves(2, true) };
    if (!o.asan) S.push_back(curves(3, true));
    if (!o.asan) S.push_back(curves(4));
    if (!o.asan && o.thorough) S.push_back(curves(5));
    S.push_back(small(1, 3, 3, 4)); S.push_back(small(2, 3, 3, 4)); S.push_back(small(3, 3, o.asan ? 1 : 3, 4));
    if (!o.asan) { S.push_back(small(4, 3, 2, o.thorough ? 4 : 3)); S.push_back(small(5, 3, 1, o.thorough ? 4 : 3)); }
    S.push_back({ "length-mismatch", "curves with every combination of lengths 0..6", 49, [](uint64_t i, vf::Ctx& c) {
        size_t a = i % 7, b = i / 7;
        if (a == b) return;
        Graph g{ std::vector<double>(a, 0.5), std::vector<double>(b, 0.5) };
        c.note("lengths %zu %zu", a, b);
        for (int k = 0; k < 2; ++k) {
            bool threw = false;
            try { if (k) sweepEfficiency(g); else lorenzCoefficient(g); } catch (const std::exception&) { threw = true; }
            VF_REQUIRE(threw, "%s accepted a curve with %zu and %zu values", k ? "sweepEfficiency" : "lorenzCoefficient", a, b);
            ++c.transitions; ++c.traces;
        }
        ++c.states;
    } });
    const int N = o.asan ? 60 : 300;
    S.push_back({ "large", vf::sfmt("6 patterned fields of 1..%d, 1023..1025, 5000, 16385 and 70000 cells: definition and range", N), uint64_t(N + 6) * 6, [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = r.take(N + 6) + 1, k = r.take(6); static const int BIG[6] = { 5000, 1023, 1024, 1025, 16385, 70000 }; if (n > N) n = BIG[n - N - 1];
        Input x = patterned(n, k);
        c.note("pattern %d, %d cells", k, n);
        for (double f : { 1.0, 0.5 }) produced(x, f, c);
        Ref q = reference(x.ti, x.tp, x.pv, 1.0);
        if (q.defined) direct(flowCapacityStorageCapacityCurve(x.ti, x.tp, x.pv), c);
        ++c.states;
    } });
    return S;
}
VF_MAIN
