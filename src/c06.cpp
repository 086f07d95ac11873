// C06: production diagnostics of a problem against injection diagnostics of the negated problem.
#include "equiv.hpp"
using namespace flow;
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    auto fam = families(o.thorough, o.asan);
    if (o.asan) fam.erase(std::remove_if(fam.begin(), fam.end(), [](const Family& f) { return f.name == "magnitudes" || f.name == "phases"; }), fam.end());
    for (auto& f : loopFamilies(false, true)) fam.push_back(f);
    for (auto& f : bigFamilies(o.thorough, o.asan)) fam.push_back(f);
    std::vector<vf::Space> S;
    for (auto& f : fam)
        S.push_back({ f.name, f.bound + "; both directions of the duality", f.size, [f](uint64_t i, vf::Ctx& c) {
            Problem p = f.make(i), q = p;
            for (auto& x : q.flux) x = -x;
            for (auto& w : q.wells) for (auto& e : w.second) e.second = -e.second;
            c.note("%s", show(p).c_str());
            auto id = identity(p.n);
            for (int d = 0; d < 2; ++d) {
                Side s = makeSide(p, d == 0);
                if (worstKappa(s) > KAPPA_MAX) { ++c.skipped; continue; }
                Fields a = runReal(p, d == 0), b = runReal(q, d != 0);
                c.transitions += 10; ++c.traces;
                VF_REQUIRE(a.start == b.start, "start points differ between a problem and its reversal");
                Tol t = tolerances(s);
                const char* what = d == 0 ? "injection vs production of the reversed flow" : "production vs injection of the reversed flow";
                sameGlobal(t, a, b, id, what);
                for (auto& w : a.start) sameWell(t, a, b, id, w, w, what);
                if (s.start.size() > 1 || s.cyclic()) ++c.nontrivial;
                c.outcome(hashFields(a));
            }
            ++c.states;
        } });
    return S;
}
VF_MAIN
