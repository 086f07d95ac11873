// Comparison of two runs that must agree up to solver tolerance.
#pragma once
#include "flow.hpp"
namespace flow {

struct Tol { RefField global; std::map<std::string, RefField> local; };
inline Tol tolerances(const Side& s)
{
    Tol t;
    t.global = solveRef(s, allSources(s));
    for (auto& w : s.start) t.local[w.first] = solveRef(s, w.second);
    return t;
}

// map: cell of run a -> cell of run b; name: well of run a -> well of run b
inline void sameGlobal(const Tol& tol, const Fields& a, const Fields& b, const std::vector<int>& map, const char* what)
{
    VF_REQUIRE(a.tof.size() == b.tof.size(), "%s: sizes differ", what);
    for (size_t i = 0; i < a.tof.size(); ++i)
        VF_REQUIRE(fabsl(LD(a.tof[i]) - b.tof[map[i]]) <= 2 * tol.global.et[i], "%s: global time-of-flight of cell %zu is %.17g in one form and %.17g in the other (admissible %.3Lg)", what, i, a.tof[i], b.tof[map[i]], 2 * tol.global.et[i]);
}
inline void sameWell(const Tol& tol, const Fields& a, const Fields& b, const std::vector<int>& map, const std::string& wa, const std::string& wb, const char* what)
{
    auto& t = tol.local.at(wa);
    auto ca = a.conc.find(wa), cb = b.conc.find(wb);
    VF_REQUIRE(ca != a.conc.end() && cb != b.conc.end(), "%s: well %s missing", what, wa.c_str());
    auto& ta = a.ltof.at(wa); auto& tb = b.ltof.at(wb);
    VF_REQUIRE(ca->second.size() == cb->second.size() && ta.size() == tb.size(), "%s: well %s covers %zu cells in one form and %zu in the other", what, wa.c_str(), ca->second.size(), cb->second.size());
    for (auto& e : ca->second) {
        auto f = cb->second.find(map[e.first]);
        VF_REQUIRE(f != cb->second.end(), "%s: well %s: cell %d covered in one form only", what, wa.c_str(), e.first);
        VF_REQUIRE(fabsl(LD(e.second) - f->second) <= 2 * t.ec[e.first], "%s: well %s: concentration of cell %d is %.17g in one form and %.17g in the other", what, wa.c_str(), e.first, e.second, f->second);
    }
    for (auto& e : ta) {
        auto f = tb.find(map[e.first]);
        VF_REQUIRE(f != tb.end(), "%s: well %s: cell %d covered in one form only", what, wa.c_str(), e.first);
        VF_REQUIRE(fabsl(LD(e.second) - f->second) <= 2 * t.et[e.first], "%s: well %s: time-of-flight of cell %d is %.17g in one form and %.17g in the other", what, wa.c_str(), e.first, e.second, f->second);
    }
}
inline std::vector<int> identity(int n) { std::vector<int> m(n); for (int i = 0; i < n; ++i) m[i] = i; return m; }

} // namespace flow
