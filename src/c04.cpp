// C04: tracers partition every flooded cell in volume-conserving flow.
#include "balanced.hpp"
using namespace flow;
static void side(const Side& s, const Solution& sol, const char* dir, std::vector<char>& flooded, vf::Ctx& c)
{
    auto reach = reachable(s, allSources(s));
    auto tol = sumBound(s);
    std::vector<double> sum(s.n, 0.0);
    flooded.assign(s.n, 0);
    uint64_t h = 1;
    for (auto& id : sol.startPoints())
        for (auto& e : sol.concentration(id)) {
            VF_REQUIRE(e.first >= 0 && e.first < s.n, "%s: cell %d out of range", dir, e.first);
            sum[e.first] += e.second; flooded[e.first] = 1; h = vf::mixd(vf::mix(h, e.first), e.second);
        }
    c.outcome(h);
    for (int i = 0; i < s.n; ++i) {
        VF_REQUIRE(bool(flooded[i]) == bool(reach[i]), "%s: cell %d is %s by a well but %s", dir, i, reach[i] ? "reached" : "not reached", flooded[i] ? "has tracers" : "has no tracer");
        if (reach[i]) VF_REQUIRE(fabsl(sum[i] - 1.0L) <= tol[i], "%s: tracers in cell %d sum to %.17g (admissible error %.3Lg)", dir, i, sum[i], tol[i]);
    }
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    return balancedSpaces(balancedFamilies(o.thorough, o.asan), [](const Problem& p, const Side& sf, const Side& sr, const Toolbox::Forward& fw, const Toolbox::Reverse& rv, vf::Ctx& c) {
        std::vector<char> a, b;
        side(sf, fw.fd, "forward", a, c);
        side(sr, rv.fd, "reverse", b, c);
        ++c.traces;
        for (int i = 0; i < p.n; ++i)
            VF_REQUIRE(a[i] == b[i], "cell %d is %sflooded by an injector but %sdrained by a producer", i, a[i] ? "" : "not ", b[i] ? "" : "not ");
    });
}
VF_MAIN
