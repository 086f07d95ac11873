// C27: the all-sources field as the concentration-weighted mean of the wells' own fields.
#include "flow.hpp"
using namespace flow;
static void superpose(const Side& s, const Fields& f, const char* dir)
{
    checkIds(s, f, dir);
    VF_REQUIRE(int(f.tof.size()) == s.n, "%s: global time-of-flight has %zu values for %d cells", dir, f.tof.size(), s.n);
    auto g = solveRef(s, allSources(s));
    std::vector<LD> C(s.n, 0), M(s.n, 0), tol(s.n, 0), lo(s.n, TMAX), hi(s.n, 0), slack(s.n, 0);
    std::vector<char> any(s.n, 0), capped(s.n, 0);
    for (auto& w : s.start) {
        auto r = solveRef(s, w.second); // admissible errors only
        auto& c = f.conc.at(w.first); auto& t = f.ltof.at(w.first);
        for (auto& e : c) {
            const int i = e.first;
            VF_REQUIRE(i >= 0 && i < s.n, "%s: well %s reported in cell %d", dir, w.first.c_str(), i);
            auto it = t.find(i);
            VF_REQUIRE(it != t.end(), "%s: well %s has a concentration but no time-of-flight in cell %d", dir, w.first.c_str(), i);
            const LD x = e.second, y = it->second;
            any[i] = 1; C[i] += x; M[i] += x * y;
            tol[i] += x * r.et[i] + y * r.ec[i];
            slack[i] = std::max(slack[i], r.et[i]);
            lo[i] = std::min(lo[i], y); hi[i] = std::max(hi[i], y);
            if (y >= TMAX) capped[i] = 1;
        }
        for (auto& e : t) VF_REQUIRE(c.count(e.first), "%s: well %s has a time-of-flight but no concentration in cell %d", dir, w.first.c_str(), e.first);
    }
    for (int i = 0; i < s.n; ++i) {
        const LD T = f.tof[i];
        if (!any[i]) { VF_REQUIRE(T == TMAX, "%s: no well reaches cell %d but its time-of-flight is %.17Lg", dir, i, T); continue; }
        const LD e = tol[i] + C[i] * g.et[i] + T * (1e-11L + (g.ec[i]));
        VF_REQUIRE(T * C[i] >= M[i] - e, "%s: time-of-flight %.17Lg of cell %d is below the mean %.17Lg of the wells' times", dir, T, i, M[i] / C[i]);
        if (!capped[i]) {
            VF_REQUIRE(T * C[i] <= M[i] + e, "%s: time-of-flight %.17Lg of cell %d is above the mean %.17Lg of the wells' times", dir, T, i, M[i] / C[i]);
            VF_REQUIRE(T <= hi[i] + slack[i] + g.et[i], "%s: time-of-flight %.17Lg of cell %d is above the largest of the wells' times %.17Lg", dir, T, i, hi[i]);
        }
        VF_REQUIRE(T >= lo[i] - slack[i] - g.et[i], "%s: time-of-flight %.17Lg of cell %d is below the smallest of the wells' times %.17Lg", dir, T, i, lo[i]);
    }
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    auto fam = families(o.thorough, o.asan);
    for (auto& f : loopFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : weakFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : quickFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : bigFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : sharedFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : tinyFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : oldLoopFamilies(o.thorough, o.asan)) fam.push_back(f);
    for (auto& f : hugeFamilies(o.thorough, o.asan)) fam.push_back(f);
    return flowSpaces(fam, [](const Problem&, const Side& s, const Fields& f, const char* d) { superpose(s, f, d); });
}
VF_MAIN
