// Volume-conserving flow problems: fluxes are enumerated, wells derived from the divergence.
#pragma once
#include "flow.hpp"

namespace flow {

// label: two well groups per sign; naming 1 makes group 1 one well with cells of both signs,
// naming 2 completes both wells of a sign in the cells of group 1, naming 3 with shares of 2^-12 and 2^-24.
// extra: additional throughput (an injector and a producer completed in the same cell).
inline void balance(Problem& p, std::function<int(int)> label, std::function<double(int)> extra, int naming)
{
    std::vector<double> net(p.n, 0.0);
    for (size_t c = 0; c < p.conn.size(); ++c)
        for (int k = 0; k < p.nph; ++k) {
            double q = p.flux[c * p.nph + k];
            net[p.conn[c][0]] += q; net[p.conn[c][1]] -= q;
        }
    p.wells.clear();
    for (int i = 0; i < p.n; ++i) {
        int l = label(i);
        std::string I = (naming == 1 && l == 1) ? "X1" : vf::sfmt("I%d", l), P = (naming == 1 && l == 1) ? "X1" : vf::sfmt("P%d", l);
        double x = extra(i), in = (net[i] > 0 ? net[i] : 0) + x, out = (net[i] < 0 ? -net[i] : 0) + x;
        if (in > 0 && out > 0 && I == P) P = "P1";
        if (naming == 2 && l == 1) { // dyadic shares: sums stay exact
            if (in > 0) { p.wells["I0"][i] = in / 4; in -= in / 4; }
            if (out > 0) { p.wells["P0"][i] = -(out - out / 8); out /= 8; }
        }
        if (naming == 3 && l == 1) { // very unequal shares
            if (in > 0) { const double a = std::ldexp(in, -12), b = std::ldexp(in, -24); p.wells["I0"][i] = a; p.wells["Ia"][i] = b; in -= a; in -= b; }
            if (out > 0) { const double a = std::ldexp(out, -24); p.wells["P0"][i] = -(out - a); out = a; }
        }
        if (in > 0) p.wells[I][i] = in;
        if (out > 0) p.wells[P][i] = -out;
    }
}

inline std::vector<Family> balancedFamilies(bool thorough, bool asan)
{
    std::vector<Family> F;
    const double u = UNIT;
    static const double FL[5] = { 0, 1, -1, 3, -2 };
    const unsigned nf = thorough ? 5 : 3;
    auto lab = [](unsigned bits) { return [bits](int i) { return int((bits >> i) & 1); }; };
    auto ext = [u](unsigned bits) { return [u, bits](int i) { return ((bits >> i) & 1) ? u : 0.0; }; };
    {
        const unsigned nl = 16, nx = asan ? 2 : 16;
        F.push_back({ "balanced-K4", vf::sfmt("4 cells, all 6 connections, flux in %s*{1,2,4}u, %u assignments of cells to wells, %u patterns of cells that also inject and produce, wells with cells of one or both signs or sharing cells equally or in proportions of 2^-12 and 2^-24", thorough ? "{0,+-1,3,-2}" : "{0,+-1}", nl, nx),
            vf::ipow(nf, 6) * nl * nx * 4, [=](uint64_t i) {
                vf::Radix r(i);
                Problem p; p.n = 4; p.conn = complete(4);
                for (int c = 0; c < 6; ++c) p.flux.push_back(FL[r.take(nf)] * u * (1 << (c % 3)));
                unsigned l = r.take(nl), x = r.take(nx); if (nx != 16) x = (x * 5) % 16;
                p.pv = { 1000.1, 350.3, 725.7, 0.0 };
                balance(p, lab(l), ext(x), r.take(4));
                return p;
            } });
    }
    {
        const unsigned nl = asan ? 1 : 16;
        F.push_back({ "balanced-K4-wide", vf::sfmt("4 cells, all 6 connections, flux in {0,+-1,3,-2}u, %u assignments of cells to wells", nl),
            vf::ipow(5, 6) * nl, [=](uint64_t i) {
                vf::Radix r(i);
                Problem p; p.n = 4; p.conn = complete(4);
                for (int c = 0; c < 6; ++c) p.flux.push_back(FL[r.take(5)] * u);
                unsigned l = r.take(nl); if (nl != 16) l = 3 + l * 2;
                p.pv = { 1000.1, 350.3, 725.7, 125.0 };
                balance(p, lab(l), ext(0), l % 4);
                return p;
            } });
    }
    {
        const unsigned nl = asan ? 4 : 64;
        F.push_back({ "balanced-grid3x2", vf::sfmt("3x2 grid, 7 connections in two phases, flux in %s*{1,3,2}u, %u assignments of cells to wells", thorough ? "{0,+-1,3,-2}" : "{0,+-1}", nl),
            vf::ipow(nf, 7) * nl, [=](uint64_t i) {
                vf::Radix r(i);
                const double u = 1.0 / 8192; // a power of two, so that the sums with 2^30 u are exact
                Problem p; p.n = 6; p.conn = grid(3, 2); p.nph = 2;
                for (int c = 0; c < 7; ++c) { double q = FL[r.take(nf)] * u * (1 + (c * 2) % 3); const double s = (c + i) % 2 ? 2 * u : std::ldexp(u, 30); p.flux.push_back(q + s); p.flux.push_back(-s); }
                unsigned l = r.take(nl); if (nl != 64) l = (l * 29 + 11) % 64;
                p.pv = { 1000.1, 350.3, 725.7, 125.0, 40.0, 2000.0 };
                balance(p, lab(l), ext((l * 5) & 9), (l ^ (l >> 3)) % 4);
                return p;
            } });
    }
    {
        const unsigned ns = thorough ? 6 : 3, nl = asan ? 2 : 16;
        static const int SC[6] = { -900, 900, -50, -300, 20, 250 };
        F.push_back({ "balanced-units", vf::sfmt("4 cells, all 6 connections, flux in {0,+-1}*{1,2,4} in %u units of rate and volume from 2^-900u to 2^900u, %u assignments of cells to wells", ns, nl),
            vf::ipow(3, 6) * nl * ns, [=](uint64_t i) {
                vf::Radix r(i);
                const double s = std::ldexp(1.0, SC[r.take(ns)]);
                Problem p; p.n = 4; p.conn = complete(4);
                for (int c = 0; c < 6; ++c) p.flux.push_back(FL[r.take(3)] * u * s * (1 << (c % 3)));
                unsigned l = r.take(nl); if (nl != 16) l = 5 + 6 * l;
                p.pv = { 1000.1 * s, 350.3 * s, 725.7 * s, 125.0 * s };
                balance(p, lab(l), ext(0), l % 3);
                return p;
            } });
    }
    {
        // fluxes spanning 2^45: all sums are exact in double precision
        const unsigned nl = thorough ? 16 : asan ? 1 : 4, nm = asan ? 5 : 7;
        F.push_back({ "balanced-magnitudes", vf::sfmt("4 cells, all 6 connections, %u flux values from {0,+-1,+-2^-30,2^15,-2^15}u, %u assignments of cells to wells (loops amplifying by more than 1000 excluded)", nm, nl),
            vf::ipow(nm, 6) * nl, [=](uint64_t i) {
                vf::Radix r(i);
                const double FM[7] = { 0, 1, -1, std::ldexp(1.0, -30), -std::ldexp(1.0, -30), 32768, -32768 };
                Problem p; p.n = 4; p.conn = complete(4);
                for (int c = 0; c < 6; ++c) p.flux.push_back(FM[r.take(nm)] * u);
                unsigned l = r.take(nl); if (nl != 16) l = 5 + 3 * l;
                p.pv = { 1000.1, 350.3, 725.7, 125.0 };
                balance(p, lab(l), ext(0), l % 3);
                return p;
            }, 1e3L });
    }
    {
        auto big = bigFamilies(thorough, asan)[0];
        F.push_back({ "balanced-large", "wells re-derived from the divergence, plus throughput at two cells: " + big.bound, big.size, [=](uint64_t i) {
            Problem p = big.make(i);
            const int n = p.n;
            balance(p, [](int c) { return (c * 7 + c / 3) % 5; }, [=](int c) { return (c == 0 || c == n / 2) ? (n <= 72 ? 1 : 16) * u : 0.0; }, int(i % 4));
            return p;
        } });
    }
    return F;
}

// Error bound for sums over all tracers of one side.
inline std::vector<LD> sumBound(const Side& s)
{
    auto reach = reachable(s, allSources(s));
    std::vector<LD> b(s.n, 0), K(s.n, 0);
    bool cyc = false;
    for (int i = 0; i < s.n; ++i) if (reach[i] && s.multi(i)) { b[i] = 1; cyc = true; }
    if (cyc) { std::vector<char> fx(s.n, 0); K = Lin(s, reach, fx).solve(b); }
    LD nw = LD(std::max<size_t>(1, s.start.size()));
    for (int i = 0; i < s.n; ++i) K[i] = nw * (2 * LD(DC_TOL) * K[i]) + std::min(1e-10L, 1e-12L + 1e-14L * s.n);
    return K;
}

typedef std::function<void(const Problem&, const Side&, const Side&, const Toolbox::Forward&, const Toolbox::Reverse&, vf::Ctx&)> BothMonitor;
inline std::vector<vf::Space> balancedSpaces(const std::vector<Family>& fam, BothMonitor mon)
{
    std::vector<vf::Space> S;
    for (auto& f : fam)
        S.push_back({ f.name, f.bound, f.size, [f, mon](uint64_t i, vf::Ctx& c) {
            Problem p = f.make(i);
            c.note("%s", show(p).c_str());
            Side sf = makeSide(p, true), sr = makeSide(p, false);
            const LD km = f.kmax > 0 ? f.kmax : KAPPA_MAX;
            if (worstKappa(sf) > km || worstKappa(sr) > km) { ++c.skipped; return; }
            Toolbox t(graphOf(p));
            setup(t, p);
            auto fw = t.computeInjectionDiagnostics(startSets(p.wells, true));
            auto rv = t.computeProductionDiagnostics(startSets(p.wells, false));
            c.transitions += 6; ++c.states;
            if (sf.start.size() > 1 || sr.start.size() > 1) ++c.nontrivial;
            mon(p, sf, sr, fw, rv, c);
        } });
    return S;
}

} // namespace flow
