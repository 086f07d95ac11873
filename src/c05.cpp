// C05: pair fluxes and volumes balance in volume-conserving flow.
#include "balanced.hpp"
using namespace flow;
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    return balancedSpaces(balancedFamilies(o.thorough, o.asan), [](const Problem& p, const Side& sf, const Side& sr, const Toolbox::Forward& fw, const Toolbox::Reverse& rv, vf::Ctx& c) {
        auto bf = sumBound(sf), br = sumBound(sr);
        LD tol = 0;
        for (int i = 0; i < p.n; ++i) tol = std::max(tol, std::max(bf[i], br[i]));
        auto rates = wellsOf(p.wells);
        std::map<std::string, LD> inj, prod;
        LD vol = 0, swept = 0;
        auto reach = reachable(sf, allSources(sf));
        for (int i = 0; i < p.n; ++i) if (reach[i]) swept += p.pv[i];
        auto rateOf = [](const std::map<int, LD>& w) { LD t = 0; for (auto& e : w) t += e.second; return t; };
        // admissible error of each well's concentrations, weighted with the counterpart's rates
        std::map<std::string, std::vector<LD>> ei, ep;
        for (auto& I : sf.start) ei[I.first] = solveRef(sf, I.second).ec;
        for (auto& P : sr.start) ep[P.first] = solveRef(sr, P.second).ec;
        auto fluxErr = [](const std::map<int, LD>& w, const std::vector<LD>& e) { LD t = 0; for (auto& x : w) t += x.second * e[x.first]; return t; };
        uint64_t h = 3;
        for (auto& I : sf.start)
            for (auto& P : sr.start) {
                auto q = injectorProducerPairFlux(fw, rv, CellSetID(I.first), CellSetID(P.first), rates);
                double v = injectorProducerPairVolume(fw, rv, p.pv, CellSetID(I.first), CellSetID(P.first));
                c.transitions += 2; ++c.traces;
                const LD ft = fluxErr(I.second, ep[P.first]) + fluxErr(P.second, ei[I.first]);
                h = vf::mixd(vf::mixd(h, q.first), v);
                VF_REQUIRE(std::isfinite(q.first) && std::isfinite(q.second) && q.first >= 0 && q.second <= 0, "pair %s-%s: fluxes %.17g, %.17g have the wrong sign", I.first.c_str(), P.first.c_str(), q.first, q.second);
                VF_REQUIRE(fabsl(LD(q.first) + q.second) <= 2 * ft, "pair %s-%s: injection flux %.17g and production flux %.17g do not match (admissible %.3Lg)", I.first.c_str(), P.first.c_str(), q.first, q.second, 2 * ft);
                VF_REQUIRE(v >= 0 && std::isfinite(v), "pair %s-%s: volume %.17g", I.first.c_str(), P.first.c_str(), v);
                inj[I.first] += q.first; prod[P.first] += q.second; vol += v;
            }
        c.outcome(h);
        for (auto& I : sf.start) {
            const LD t = rateOf(I.second);
            VF_REQUIRE(fabsl(inj[I.first] - t) <= tol * t, "injector %s: pair fluxes sum to %.17Lg, rate is %.17Lg", I.first.c_str(), inj[I.first], t);
        }
        for (auto& P : sr.start) {
            const LD t = rateOf(P.second);
            VF_REQUIRE(fabsl(prod[P.first] + t) <= tol * t, "producer %s: pair fluxes sum to %.17Lg, rate is %.17Lg", P.first.c_str(), prod[P.first], -t);
        }
        VF_REQUIRE(fabsl(vol - swept) <= 3 * tol * swept, "pair volumes sum to %.17Lg, swept pore volume is %.17Lg", vol, swept);
    });
}
VF_MAIN
