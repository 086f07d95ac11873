// C28: change of units, a problem against the same problem with scaled volumes and rates.
#include "equiv.hpp"
using namespace flow;
namespace {
struct Scale { double a, b; const char* name; }; // pore volumes times a, fluxes and rates times b
const Scale SCALES[] = {
    { std::ldexp(1.0, -60), 1, "2^-60 volume" }, { std::ldexp(1.0, -9), std::ldexp(1.0, 40), "2^-9 volume, 2^40 rate" },
    { std::ldexp(1.0, 90), std::ldexp(1.0, 90), "2^90 both" }, { std::ldexp(1.0, -250), std::ldexp(1.0, -250), "2^-250 both" },
    { std::ldexp(1.0, -80), std::ldexp(1.0, -72), "2^-80 volume, 2^-72 rate" }, { std::ldexp(1.0, 8), std::ldexp(1.0, 3), "2^8 volume, 2^3 rate" },
    { 1, std::ldexp(1.0, -4), "2^-4 rate" }, { std::ldexp(1.0, 200), std::ldexp(1.0, 260), "2^200 volume, 2^260 rate" },
    { 6.2898107704, 6.2898107704, "barrels" }, { 1, 86400.0, "per day" }, { 35.3146667, 35.3146667 * 3600, "cubic feet per hour" }, { 1e-9, 1e-12, "10^-9 volume, 10^-12 rate" },
    // far apart: not for families whose own numbers span many decades
    { std::ldexp(1.0, -900), std::ldexp(1.0, -900), "2^-900 both" }, { std::ldexp(1.0, 900), std::ldexp(1.0, 900), "2^900 both" } };
const int NS = sizeof SCALES / sizeof *SCALES - 2;
bool anySlow(const Side& s) { for (int i = 0; i < s.n; ++i) if (s.tot[i] > 0 && s.pv[i] / s.tot[i] > LD(TMAX) * (1 - 1e-9L)) return true; return false; }
}
std::vector<vf::Space> vf::make_spaces(const Opt& o)
{
    std::vector<Family> fam;
    for (auto& f : families(o.thorough, o.asan)) {
        if (f.name == "units" || f.name == "cap-boundary") continue;
        fam.push_back(f);
    }
    if (!o.asan) for (auto& f : loopFamilies(o.thorough, true)) fam.push_back(f);
    if (!o.asan) for (auto& f : bigFamilies(o.thorough, o.asan)) fam.push_back(f);
    std::vector<vf::Space> S;
    for (auto& f : fam) {
        const bool all = o.thorough || f.name == "two-loops";
        const bool huge = f.size > 500000; // one change of unit per problem, rotating
        S.push_back({ f.name, f.bound + vf::sfmt("; %s of %d changes of unit (powers of two from 2^-900 to 2^900, barrels, days, feet)%s", all ? "all" : huge ? "one" : "three", NS, all ? "" : " per problem, rotating"), f.size, [=](uint64_t i, vf::Ctx& c) {
            Problem p = f.make(i);
            c.note("%s", show(p).c_str());
            const int k0 = all ? 0 : int((i * 7 + i / 12) % NS), nk = all ? NS : huge ? 1 : 3;
            bool used = false;
            for (int d = 0; d < 2; ++d) {
                const bool fwd = d == 0;
                Side s = makeSide(p, fwd);
                if (worstKappa(s) > KAPPA_MAX) { ++c.skipped; continue; }
                Fields a; Tol ta; bool have = false;
                const bool slowA = anySlow(s);
                for (int kk = 0; kk < nk; ++kk) {
                    const int at = (k0 + kk * 5) % NS;
                    // filling times above 200 years: only units that leave times alone
                    const Scale& sc = SCALES[f.name != "magnitudes" && f.name != "large" && (at == 2 || at == 3) && (slowA || i % 3) ? NS + at - 2 : !slowA || all ? at : at % 3 == 0 ? 2 : at % 3 == 1 ? 3 : 8];
                    int e; const bool two = std::frexp(sc.a, &e) == 0.5 && std::frexp(sc.b, &e) == 0.5;
                    if (!two && p.nph > 1) continue; // cancelling phases need exact sums
                    const LD R = LD(sc.a) / sc.b;
                    Problem q = p;
                    for (double& x : q.pv) x *= sc.a;
                    for (double& x : q.flux) x *= sc.b;
                    for (auto& w : q.wells) for (auto& x : w.second) x.second *= sc.b;
                    Side s2 = makeSide(q, fwd);
                    const bool sameTime = sc.a == sc.b;
                    if (!sameTime && (slowA || anySlow(s2))) { ++c.skipped; continue; }
                    if (!have) { a = runReal(p, fwd); ta = tolerances(s); have = true; }
                    Fields b = runReal(q, fwd);
                    Tol tb = tolerances(s2);
                    used = true; c.transitions += 10; ++c.traces;
                    VF_REQUIRE(a.start == b.start, "%s: start points differ", sc.name);
                    auto same = [&](double x, LD ex, double y, LD ey, const char* what, const char* w, int cell) {
                        if (x >= TMAX || y >= TMAX) { // at the cap in one unit: at or above it in the other
                            const LD X = LD(x) * R;
                            if (y >= TMAX) { if (x >= TMAX) return; VF_REQUIRE(X >= TMAX - ey - ex * R - 1e-9L * TMAX, "%s: %s%s of cell %d is %.17g, in other units (factor %.6Lg) capped", sc.name, what, w, cell, x, R); return; }
                            VF_REQUIRE(LD(y) >= X - ey - ex * R - 1e-9L * X, "%s: %s%s of cell %d is capped, in other units (factor %.6Lg) it is %.17g", sc.name, what, w, cell, R, y);
                            return;
                        }
                        VF_REQUIRE(fabsl(LD(x) * R - y) <= ex * R + ey, "%s: %s%s of cell %d is %.17g, in other units (factor %.6Lg) %.17g", sc.name, what, w, cell, x, R, y);
                    };
                    VF_REQUIRE(a.tof.size() == b.tof.size(), "%s: sizes differ", sc.name);
                    for (size_t j = 0; j < a.tof.size(); ++j) same(a.tof[j], ta.global.et[j], b.tof[j], tb.global.et[j], "time-of-flight", "", int(j));
                    for (auto& w : a.start) {
                        auto &ca = a.conc[w], &cb = b.conc[w], &xa = a.ltof[w], &xb = b.ltof[w];
                        VF_REQUIRE(ca.size() == cb.size() && xa.size() == xb.size(), "%s: well %s covers %zu cells, in other units %zu", sc.name, w.c_str(), ca.size(), cb.size());
                        for (auto& x : ca) {
                            VF_REQUIRE(cb.count(x.first), "%s: well %s: cell %d covered in one unit only", sc.name, w.c_str(), x.first);
                            VF_REQUIRE(fabsl(LD(x.second) - cb[x.first]) <= ta.local[w].ec[x.first] + tb.local[w].ec[x.first], "%s: well %s: concentration of cell %d is %.17g, in other units %.17g", sc.name, w.c_str(), x.first, x.second, cb[x.first]);
                        }
                        for (auto& x : xa) {
                            VF_REQUIRE(xb.count(x.first), "%s: well %s: cell %d covered in one unit only", sc.name, w.c_str(), x.first);
                            same(x.second, ta.local[w].et[x.first], xb[x.first], tb.local[w].et[x.first], "time-of-flight of well ", w.c_str(), x.first);
                        }
                    }
                    if (s.start.size() > 1 || s.cyclic()) ++c.nontrivial;
                    c.outcome(hashFields(b));
                }
            }
            if (used) ++c.states;
        } });
    }
    return S;
}
VF_MAIN
