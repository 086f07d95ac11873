// C20: definitions of pair volume and pair flux on all small tracer and rate combinations.
#include "curve.hpp"
using namespace Opm::FlowDiagnostics;
typedef long double LD;
namespace {
const double CONC[3] = { 0, 0.25, 1 }, RATE[4] = { 0, 1, -2, 0 }; // rate index 3: explicit zero entry
CellSetValues tracer(vf::Radix& r, unsigned n, unsigned k) { CellSetValues t; for (unsigned i = 0; i < n; ++i) { unsigned q = r.take(k); if (q) t[int(i)] = CONC[q] * (1 + i % 2) / 2; } return t; }
CellSetValues rates(vf::Radix& r, unsigned n, unsigned k, double u) { CellSetValues t; for (unsigned i = 0; i < n; ++i) { unsigned q = r.take(k); if (q) t[int(i)] = RATE[q] * u * (1 + i); } return t; }
std::string show(const char* nm, const CellSetValues& v) { std::string s = std::string(nm) + "={"; int k = 0; for (auto& e : v) { if (++k > 20) break; s += vf::sfmt("%d:%g ", e.first, e.second); } return s + "} "; }
bool close(double a, LD b, LD scale) { return fabsl(a - b) <= 1e-12L * (scale + 1e-300L); }

LD flux(const CellSetValues& t, const CellSetValues& q, bool inj, LD& scale)
{
    LD s = 0;
    for (auto& e : q) { auto it = t.find(e.first); if (it != t.end() && (inj ? e.second > 0 : e.second < 0)) { s += LD(e.second) * it->second; scale += fabsl(LD(e.second) * it->second); } }
    return s;
}
void one(const CellSetValues& ti, const CellSetValues& tp, const std::vector<double>& pv, const CellSetValues& qi, const CellSetValues& qp, vf::Ctx& c)
{
    Solution si, sp;
    const CellSetID I("I"), P("P"), X("X"), none("none");
    typedef Solution::TracerConcentration Conc;
    // an unrelated tracer and the other kind of field must not matter
    si.assign(X, Conc{ CellSetValues{ { 0, 0.5 } } }); sp.assign(X, Conc{ CellSetValues{ { 1, 0.5 } } });
    si.assign(I, Conc{ ti }); sp.assign(P, Conc{ tp });
    si.assign(I, Solution::TimeOfFlight{ CellSetValues{ { 0, 77.0 }, { 2, 5.0 } } });
    Toolbox::Forward f{ si }; Toolbox::Reverse r{ sp };
    std::map<CellSetID, CellSetValues> w{ { I, qi }, { P, qp }, { X, { { 0, 9.0 } } } };
    LD v = 0, vs = 0;
    for (auto& e : ti) { auto it = tp.find(e.first); if (it != tp.end()) { LD a = LD(pv[e.first]) * e.second * it->second; v += a; vs += fabsl(a); } }
    double got = injectorProducerPairVolume(f, r, pv, I, P);
    VF_REQUIRE(close(got, v, vs), "pair volume %.17g, expected %.17Lg", got, v);
    VF_REQUIRE(injectorProducerPairVolume(f, r, pv, none, P) == 0 && injectorProducerPairVolume(f, r, pv, I, none) == 0, "pair volume with an absent tracer is not zero");
    LD s1 = 0, s2 = 0;
    LD a = flux(tp, qi, true, s1), b = flux(ti, qp, false, s2);
    auto q = injectorProducerPairFlux(f, r, I, P, w);
    VF_REQUIRE(close(q.first, a, s1) && close(q.second, b, s2), "pair fluxes (%.17g,%.17g), expected (%.17Lg,%.17Lg)", q.first, q.second, a, b);
    c.transitions += 4; c.traces += 2; ++c.states;
    c.nontrivial += v > 0 && a != 0 && b != 0;
    c.outcome(vf::mixd(vf::mixd(vf::mixd(1, got), q.first), q.second));
}
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<vf::Space> S;
    const unsigned kr = o.asan ? 3 : 4;
    S.push_back({ "three-cells", vf::sfmt("3 cells, both tracers over {absent,1/4,1} per cell, injector and producer rates over {absent,+,-%s} per cell, 1 pore-volume field", kr == 4 ? ",0" : ""), vf::ipow(3, 6) * vf::ipow(kr, o.asan ? 5 : 6), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        auto ti = tracer(r, 3, 3), tp = tracer(r, 3, 3); auto qi = rates(r, 3, kr, 0.5), qp = rates(r, 3, kr, 1.5);
        c.note("%s%s%s%s", show("inj-tracer", ti).c_str(), show("prod-tracer", tp).c_str(), show("inj-rates", qi).c_str(), show("prod-rates", qp).c_str());
        one(ti, tp, { 8, 0, 3 }, qi, qp, c);
    } });
    S.push_back({ "four-cells", "4 cells, both tracers over {absent,1/4,1} per cell, 9 rate sets, 4 pore-volume fields, in units of 1, 2^-40 and 2^40", vf::ipow(3, 8) * 9 * 4 * 3 / (o.asan ? 9 : 1), [=](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        auto ti = tracer(r, 4, 3), tp = tracer(r, 4, 3);
        unsigned k = r.take(9), p = r.take(4), sc = r.take(3);
        const double S = sc == 0 ? 1 : sc == 1 ? std::ldexp(1.0, -40) : std::ldexp(1.0, 40);
        vf::Radix r1(k * 29 + 7), r2(k * 83 + 41);
        auto qi = rates(r1, 4, 4, 0.5 * S), qp = rates(r2, 4, 4, 1.5 * S);
        static const std::vector<double> PV[4] = { { 1, 2, 4, 8 }, { 0, 0, 0, 0 }, { 1e7, 1e-3, 0, 5 }, { 3, 0, 1, 1 } };
        c.note("%s%s%s%s pv %u", show("inj-tracer", ti).c_str(), show("prod-tracer", tp).c_str(), show("inj-rates", qi).c_str(), show("prod-rates", qp).c_str(), p);
        auto pv = PV[p]; for (double& v : pv) v /= S;
        one(ti, tp, pv, qi, qp, c);
    } });
    S.push_back({ "magnitudes", vf::sfmt("2 cells shared by tracers over {absent,1,1e-5,1e-13,1e-40,1e-200} and rates over {absent,1,-1,1e-9,-1e-18,1e-30,-1e9}, 4 pore-volume fields over {1e-12,1,1e9}%s", o.asan ? " (one rate map in 6)" : ""), vf::ipow(6, 4) * vf::ipow(7, 4) * (o.thorough ? 4 : 1) / (o.asan ? 12 : 1), [=](uint64_t i, vf::Ctx& c) {
        static const double CM[6] = { 0, 1, 1e-5, 1e-13, 1e-40, 1e-200 }, RM[7] = { 0, 1, -1, 1e-9, -1e-18, 1e-30, -1e9 };
        static const std::vector<double> PV[4] = { { 1e-12, 1e9 }, { 1, 1 }, { 1e9, 1e-12 }, { 1e9, 1 } };
        vf::Radix r(i);
        CellSetValues t[2], q[2];
        for (int k = 0; k < 4; ++k) { unsigned a = r.take(6); if (a) t[k / 2][k % 2] = CM[a]; }
        for (int k = 0; k < 4; ++k) { unsigned a = r.take(7); if (a) q[k / 2][k % 2] = RM[a]; }
        const unsigned p = o.thorough ? r.take(4) : unsigned((i * 7 + i / 97) % 4);
        c.note("%s%s%s%s pv %u", show("inj-tracer", t[0]).c_str(), show("prod-tracer", t[1]).c_str(), show("inj-rates", q[0]).c_str(), show("prod-rates", q[1]).c_str(), p);
        one(t[0], t[1], PV[p], q[0], q[1], c);
    } });
    S.push_back({ "same-id-and-missing", "injector and producer ids over {I, P, X (injects and produces), U (tracer but no rates), N (nothing)}, with and without their rates", 5 * 5 * 16, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i);
        static const char* NM[5] = { "I", "P", "X", "U", "N" };
        int a = r.take(5), b = r.take(5); unsigned have = r.take(16);
        std::map<std::string, CellSetValues> q{ { "I", { { 0, 2.0 }, { 1, 1.0 } } }, { "P", { { 2, -1.0 }, { 3, -4.0 } } }, { "X", { { 1, -2.0 }, { 2, 3.0 } } }, { "N", { { 0, 1.0 }, { 3, -1.0 } } } };
        std::map<std::string, CellSetValues> fw{ { "I", { { 0, 1.0 }, { 1, 0.5 }, { 2, 0.25 } } }, { "X", { { 2, 0.75 }, { 3, 0.5 } } }, { "U", { { 0, 0.5 } } } };
        std::map<std::string, CellSetValues> rv{ { "P", { { 0, 0.25 }, { 3, 1.0 }, { 2, 0.5 } } }, { "X", { { 0, 0.5 }, { 1, 1.0 }, { 3, 0.25 } } }, { "U", { { 3, 0.5 }, { 0, 0.125 } } } };
        std::map<CellSetID, CellSetValues> w;
        int k = 0; for (auto& e : q) { if (have >> k & 1) w[CellSetID(e.first)] = e.second; ++k; }
        Solution si, sp;
        for (auto& e : fw) si.assign(CellSetID(e.first), Solution::TracerConcentration{ e.second });
        for (auto& e : rv) sp.assign(CellSetID(e.first), Solution::TracerConcentration{ e.second });
        Toolbox::Forward F{ si }; Toolbox::Reverse R{ sp };
        c.note("injector %s producer %s rates mask %u", NM[a], NM[b], have);
        const CellSetID A(NM[a]), B(NM[b]);
        std::pair<double, double> got;
        bool ok = !throws([&] { got = injectorProducerPairFlux(F, R, A, B, w); });
        bool want = w.count(A) && w.count(B);
        VF_REQUIRE(ok == want, "pair flux of ids %s rates %s", want ? "with" : "without", ok ? "accepted" : "rejected");
        if (ok) {
            LD s1 = 0, s2 = 0;
            LD x = flux(rv[NM[b]], q[NM[a]], true, s1), y = flux(fw[NM[a]], q[NM[b]], false, s2);
            VF_REQUIRE(close(got.first, x, s1) && close(got.second, y, s2), "pair fluxes (%.17g,%.17g), expected (%.17Lg,%.17Lg)", got.first, got.second, x, y);
        }
        LD v = 0; for (auto& e : fw[NM[a]]) { auto it = rv[NM[b]].find(e.first); if (it != rv[NM[b]].end()) v += (e.first + 1) * LD(e.second) * it->second; }
        double pvv = injectorProducerPairVolume(F, R, { 1, 2, 3, 4 }, A, B);
        VF_REQUIRE(close(pvv, v, v), "pair volume %.17g, expected %.17Lg", pvv, v);
        ++c.states; c.transitions += 2; c.traces += 2; c.nontrivial += ok; c.outcome(vf::mixd(ok, pvv));
    } });
    S.push_back({ "large", "tracers and rates on 1..400 and 20000 cells, sparse and dense overlap", 401 * 3, [](uint64_t i, vf::Ctx& c) {
        vf::Radix r(i); int n = r.take(401) + 1, k = r.take(3); if (n == 401) n = 20000;
        CellSetValues ti, tp, qi, qp; std::vector<double> pv;
        for (int j = 0; j < n; ++j) {
            unsigned h = unsigned(j + 1) * 2654435761u;
            pv.push_back(h % 97);
            if (k == 0 || h % 3) ti[j] = 1.0 / (1 + h % 7);
            if (k == 0 || (h >> 8) % (k + 1)) tp[j] = 1.0 / (1 + (h >> 4) % 5);
            if ((h >> 12) % 4 == 0) qi[j] = (h >> 16) % 2 ? 0.5 : -0.25;
            if ((h >> 14) % 4 == 0) qp[j] = (h >> 17) % 2 ? 0.5 : -0.25;
        }
        c.note("%d cells, density %d", n, k);
        one(ti, tp, pv, qi, qp, c);
    } });
    return S;
}
VF_MAIN
